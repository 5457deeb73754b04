"""
Runs cases written in Python against the real command line tools (built with sanitizers), split over the cores.

A section is (name, quick count, thorough count, function).  The function is given a Case: a generator of random numbers
that depends on nothing but (seed, section, case), an empty directory, and run(), which runs a tool in it and turns a
sanitizer report, a crash or a hang into a violation.
"""
import collections, ctypes, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback
import vcheck

_libc = ctypes.CDLL(None)


def _die_with_parent():
    _libc.prctl(1, signal.SIGKILL)          # PR_SET_PDEATHSIG



class CaseOver(Exception):
    pass


class Outcome:
    def __init__(self, rc, out, err):
        self.rc, self.raw, self.err_raw = rc, out, err
        self.out = out.decode('latin-1')
        self.err = err.decode('latin-1')


class Case:
    def __init__(self, chk, section, number, where):
        self.chk, self.section, self.number = chk, section, number
        self.rng = random.Random('%d/%s/%d' % (chk.seed, section, number))
        self.dir = where
        self.records = {'evaluations': 0, 'nontrivial': set(), 'tallies': collections.Counter(), 'violations': [], 'samples': [], 'harness': []}
        self.log = []

    def violation(self, key, detail):
        if self.log:
            detail += '\nran: ' + '\n     '.join(self.log[-4:])
        self.records['violations'].append((key, detail[:6000], self.section, self.number))

    def check(self, ok, key, detail):
        self.records['evaluations'] += 1
        if not ok:
            self.violation(key, detail() if callable(detail) else detail)
        return ok

    def evaluation(self, n=1):
        self.records['evaluations'] += n

    def nontrivial(self, key):
        self.records['nontrivial'].add(format(hash_of(key), 'x'))

    def tally(self, name, n=1):
        self.records['tallies'][name] += n

    def sample(self, text):
        if len(self.records['samples']) < 2:
            self.records['samples'].append(text[:1200])

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, content):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(content if isinstance(content, bytes) else content.encode('latin-1'))
        return p

    def read(self, name):
        with open(self.path(name), 'rb') as f:
            return f.read()

    def _once(self, cmd, cwd, timeout, env):
        hung = False
        with tempfile.TemporaryFile(dir=self.chk.scratch) as out, tempfile.TemporaryFile(dir=self.chk.scratch) as err:
            p = subprocess.Popen(cmd, stdout=out, stderr=err, env=env, cwd=cwd, start_new_session=True, stdin=subprocess.DEVNULL, preexec_fn=_die_with_parent)
            try:
                p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                hung = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            text = []
            for f in (out, err):
                f.seek(0)
                text.append(f.read(1 << 28))
        return p.returncode, text[0], text[1], hung

    def run(self, cmd, cwd=None, timeout=60, ok=None):
        """Runs a tool.  A crash, a sanitizer report, or a hang is a violation and the end of the case; so is an exit status that is not in ok, if given."""
        env = dict(os.environ)
        env.update(vcheck.SAN_ENV)
        cwd = cwd or self.dir
        name = os.path.basename(cmd[0])
        self.log.append('%s %s' % (name, ' '.join(repr(c) if not re.match(r'^[\w./=:+-]+$', c) else c for c in cmd[1:])))
        rc, out, err, hung = self._once(cmd, cwd, timeout, env)
        if rc == -9 and not hung:
            time.sleep(2)
            rc, out, err, hung = self._once(cmd, cwd, timeout, env)
            if rc == -9 and not hung:
                self.records['harness'].append('%s was killed (out of memory?)' % name)
                raise CaseOver()
        if hung:
            rc, out, err, hung = self._once(cmd, cwd, timeout * 2, env)
            if hung:
                self.violation('hang:%s:%s' % (self.section, name), '%s did not end in %d seconds' % (name, timeout * 2))
                raise CaseOver()
        result = Outcome(rc, out, err)
        text = result.err
        if rc < 0 or rc in (66, 77, 134, 139) or 'hard rss limit exhausted' in text or 'Sanitizer' in text and 'SUMMARY' in text and 'runtime error' not in text:
            self.violation('crash:%s:%s:%s' % (self.section, name, vcheck.crash_key(text, rc)), vcheck.crash_text(text, rc))
            raise CaseOver()
        for m in re.finditer(r'^(\S+?):\d+:\d+: runtime error: (.*)$((?:\n\s+#.*)*)', text, re.M):
            what = re.sub(r'[^a-z ]', '', re.sub(r"'[^']*'|0x[0-9a-f]+", '', m.group(2))).strip()
            self.violation('undefined:%s:%s' % (os.path.basename(m.group(1)), re.sub(r'\s+', '-', what)[:60]), m.group(0)[:1500])
        if ok is not None and rc not in ok:
            self.violation('exit:%s:%s' % (self.section, name), 'exit status %d\n%s\n%s' % (rc, result.out[-1500:], text[-1500:]))
            raise CaseOver()
        return result


def hash_of(key):
    if not isinstance(key, (bytes, str)):
        key = repr(key)
    if isinstance(key, str):
        key = key.encode('utf-8', 'surrogateescape')
    h = 1469598103934665603
    import hashlib
    return int.from_bytes(hashlib.blake2b(key, digest_size=8).digest(), 'big')


def _one(chk, section, fn, number):
    where = os.path.join(chk.scratch, '%s-%d' % (section, number))
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where)
    case = Case(chk, section, number, where)
    try:
        fn(case)
    except CaseOver:
        pass
    except Exception:
        case.records['harness'].append('%s case %d: %s' % (section, number, traceback.format_exc()[-1500:]))
    if not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(where, ignore_errors=True)
    return case.records


def _worker(chk, sections, worker, workers, path, deadline):
    found = {'evaluations': 0, 'nontrivial': set(), 'tallies': collections.Counter(), 'violations': [], 'samples': [], 'harness': []}
    for name, quick, thorough, fn in sections:
        count = chk.n(quick, thorough)
        for number in range(worker, count, workers):
            if time.time() > deadline:
                found['tallies']['cases not run for want of time'] += 1
                continue
            r = _one(chk, name, fn, number)
            found['evaluations'] += r['evaluations']
            found['nontrivial'] |= r['nontrivial']
            found['tallies'] += r['tallies']
            found['tallies'][name + ' cases'] += 1
            found['violations'] += r['violations'][:40]
            found['samples'] += r['samples'] if len(found['samples']) < 3 else []
            found['harness'] += r['harness']
            if len(found['violations']) > 200 or any(v[0].startswith('hang:') for v in r['violations']) or len(found['harness']) > 20:
                break
    found['nontrivial'] = sorted(found['nontrivial'])
    with open(path, 'w') as f:
        json.dump(found, f)


def run_cases(chk, sections, limit=None):
    if chk.replay:
        r = chk.replay
        if r.get('binary') != 'python':
            return
        for name, quick, thorough, fn in sections:
            if name == r['section']:
                _absorb(chk, _one(chk, name, fn, int(r['case'])))
        return
    # a check that is somehow very slow answers with what it has seen rather than not at all
    deadline = time.time() + (limit or (420 if chk.quick() else 3600))
    workers, children = vcheck.CORES, []
    for w in range(workers):
        path = os.path.join(chk.scratch, 'worker-%d.json' % w)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            _die_with_parent()
            status = 1
            try:
                _worker(chk, sections, w, workers, path, deadline)
                status = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(status)
        children.append((pid, path))
    for pid, path in children:
        _, status = os.waitpid(pid, 0)
        if status != 0 or not os.path.exists(path):
            chk.harness_errors.append('a worker failed (status %d)' % status)
            continue
        _absorb(chk, json.load(open(path)))
        os.unlink(path)


def _absorb(chk, r):
    chk.evaluations += r['evaluations']
    chk.distinct.update(r['nontrivial'])
    for k, v in r['tallies'].items():
        chk.tally(k, v)
    for s in r['samples']:
        chk.sample(s, 8)
    chk.harness_errors += r['harness']
    for key, detail, section, number in r['violations']:
        chk.violation(key, detail, dict(binary='python', section=section, case=number, seed=chk.seed, tier=chk.tier))
