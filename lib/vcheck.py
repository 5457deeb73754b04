"""
The runner shared by all checks: shards the drivers, attributes crashes and hangs to a case, matches violations with the
committed known findings, writes the evidence file and decides the exit status.
"""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor
import vbuild
from vbuild import VERIF, REPO

CORES = max(1, min(8, os.cpu_count() or 1))
SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=1:symbolize=1:malloc_context_size=8:hard_rss_limit_mb=3500',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=0:exitcode=77',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4',
}


def known_findings(prop):
    found = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)$', line.strip())
            if m and m.group(1) == prop:
                found[m.group(2)] = m.group(3)
    return found


class Check:
    def __init__(self, prop, tier=None, seed=None, replay=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1') or 1)
        self.replay = replay
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.distinct_extra = 0
        self.tallies = {}
        self.samples = []
        self.violations = {}
        self.known = known_findings(prop)
        self.known_seen = {}
        self.harness_errors = []
        self.inconclusive = []
        self.lock = threading.Lock()
        self.scratch = os.path.join(VERIF, 'scratch', '%s-%d' % (prop, os.getpid()))
        os.makedirs(self.scratch, exist_ok=True)
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))       # nothing that runs here has any business writing a larger file
        self.stalled = 150 if self.tier == 'quick' else 1200       # in one case
        self.watchdog = 400 if self.tier == 'quick' else 3600

    def quick(self):
        return self.tier == 'quick'

    def n(self, quick, thorough):
        return quick if self.quick() else thorough

    # -- results ------------------------------------------------------------------------------------------------------
    def violation(self, key, detail, replay=None):
        key = re.sub(r'\s+', '_', key)
        with self.lock:
            if key in self.known:
                self.known_seen[key] = self.known_seen.get(key, 0) + 1
                return
            if key not in self.violations:
                self.violations[key] = (detail, replay or {})

    def tally(self, name, n=1):
        with self.lock:
            self.tallies[name] = self.tallies.get(name, 0) + n

    def sample(self, s, limit=6):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(s)

    def case(self, distinct_key=None, n=1):
        with self.lock:
            self.evaluations += n
            if distinct_key is not None:
                self.distinct.add(distinct_key)

    # -- building -----------------------------------------------------------------------------------------------------
    def build(self, builds):
        for b in builds:
            b.build()

    # -- drivers ------------------------------------------------------------------------------------------------------
    def run_driver(self, binary, args=(), shards=None, env=None, label='', repeat_key=''):
        """Runs a driver built on drivers/common.h over all of its cases, split over the cores."""
        shards = shards or CORES
        if self.replay:
            r = self.replay
            if r.get('binary') != os.path.basename(binary):
                return
            if r['section'] == '*':
                self._run_shard(binary, list(args), r['shard'], r['shards'], env, label)
                return
            self._run_shard(binary, list(args) + ['--section', str(r['section']), '--case', str(r['case'])], 0, 1, env, label)
            return
        with ThreadPoolExecutor(max_workers=CORES) as pool:
            done = list(pool.map(lambda s: self._run_shard(binary, list(args), s, shards, env, label), range(shards)))
        for s in range(shards):
            if done[s] is False:
                self._run_shard(binary, list(args), s, shards, env, label, last_try=True)

    def _exec(self, cmd, env, cwd, timeout, current=None):
        """Runs cmd; it is stopped after timeout seconds, or when the case named in the file current has not changed for a while."""
        with tempfile.TemporaryFile(dir=self.scratch) as out, tempfile.TemporaryFile(dir=self.scratch) as err:
            p = subprocess.Popen(cmd, stdout=out, stderr=err, env=env, cwd=cwd, start_new_session=True, stdin=subprocess.DEVNULL)
            start = since = time.time()
            case, stopped = None, False
            while True:
                try:
                    p.wait(timeout=min(5, timeout))
                    break
                except subprocess.TimeoutExpired:
                    pass
                now = time.time()
                if current is not None:
                    try:
                        at = open(current, 'rb').read()
                    except OSError:
                        at = None
                    if at != case:
                        case, since = at, now
                if now - start > timeout or current is not None and now - since > self.stalled:
                    stopped = True
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    break
            text = []
            for f in (out, err):
                f.seek(0)
                text.append(f.read(1 << 28).decode('utf-8', 'replace'))
        return p.returncode, text[0], text[1], stopped

    def _run_shard(self, binary, args, shard, shards, env, label, last_try=False):
        name = os.path.basename(binary)
        skip = []
        for attempt in range(12):
            work = os.path.join(self.scratch, '%s%s-%d-%d' % (name, label, shard, attempt))
            shutil.rmtree(work, ignore_errors=True)
            os.makedirs(work)
            current = os.path.join(work, 'current-case')
            e = dict(os.environ)
            e.update(SAN_ENV)
            e.update(env or {})
            cmd = [binary, '--seed', str(self.seed), '--tier', self.tier, '--shard', str(shard), '--shards', str(shards),
                   '--scratch', work, '--current', current] + args
            for s in skip:
                cmd += ['--skip', s]
            rc, out, err, timed_out = self._exec(cmd, e, work, self.watchdog, current)
            done = self._absorb(out, name, label, args)
            self.undefined(err, label, dict(binary=name, section='*', case='-1', shard=shard, shards=shards, seed=self.seed, tier=self.tier, args=args, label=label))
            where = ''
            try:
                where = open(current).read().split('\0')[0].strip()
            except OSError:
                pass
            shutil.rmtree(work, ignore_errors=True)
            if done and rc in (0, 10) and not timed_out:
                return
            if not where:
                with self.lock:
                    self.harness_errors.append('%s shard %d: exit %s before any case ran: %s' % (name, shard, rc, (err or out)[-2000:]))
                return
            if rc == -9 and not timed_out:
                # ended from outside (memory ran out): not something the code under test did; try again with the machine to itself
                if last_try:
                    with self.lock:
                        self.harness_errors.append('%s shard %d: killed (out of memory?)' % (name, shard))
                return False
            section, case = where.split()[:2]
            replay = dict(binary=name, section=section, case=case, seed=self.seed, tier=self.tier, args=args, label=label)
            if timed_out:
                # decide by re-running that one case on its own with a generous limit
                os.makedirs(work, exist_ok=True)
                cmd = [binary, '--seed', str(self.seed), '--tier', self.tier, '--scratch', work, '--current', current, '--section', section, '--case', case] + args
                rc2, out2, err2, again = self._exec(cmd, e, work, 120)
                shutil.rmtree(work, ignore_errors=True)
                if again:
                    self.violation('hang:%s%s' % (label, section), 'case %s of section %s does not terminate (120 s alone)' % (case, section), replay)
                    return
                if rc2 not in (0, 10):
                    self.violation('crash:%s%s:%s' % (label, section, crash_key(err2, rc2)), crash_text(err2, rc2), replay)
                    return
                with self.lock:
                    self.inconclusive.append('%s shard %d exceeded %d s; the case it was in terminates on its own' % (name, shard, self.watchdog))
                return
            key = 'crash:%s%s:%s' % (label, section, crash_key(err, rc))
            self.violation(key, crash_text(err, rc), replay)
            if key not in self.known:
                return
            skip.append(section + ':' + case)

    def undefined(self, err, label='', replay=None):
        """UBSan carries on after a report (each site is reported once): turn the reports into violations."""
        for m in re.finditer(r'^(\S+?):\d+:\d+: runtime error: (.*)$((?:\n\s+#.*)*)', err, re.M):
            name = os.path.basename(m.group(1))
            what = re.sub(r'[^a-z ]', '', re.sub(r"'[^']*'|0x[0-9a-f]+", '', m.group(2))).strip()
            what = re.sub(r'\s+', '-', what)[:60]
            self.violation('undefined:%s%s:%s' % (label, name, what), m.group(0)[:1500], replay)

    def _absorb(self, out, name, label, args):
        done = False
        for line in out.split('\n'):
            if line.startswith('VIOL\t'):
                f = line.split('\t', 4)
                if len(f) == 5:
                    self.violation(f[1], f[4], dict(binary=name, section=f[2], case=f[3], seed=self.seed, tier=self.tier, args=list(args), label=label))
            elif line.startswith('STAT\t'):
                f = line.split('\t')
                if f[1] == 'evaluations':
                    with self.lock:
                        self.evaluations += int(f[2])
                else:
                    self.tally(label + f[1], int(f[2]))
            elif line.startswith('NONTRIVIAL\t'):
                with self.lock:
                    self.distinct.update(line.split('\t')[1:])
            elif line.startswith('SAMPLE\t'):
                self.sample(line[7:][:1500])
            elif line.startswith('HARNESS\t'):
                with self.lock:
                    self.harness_errors.append(line[8:])
            elif line == 'DONE':
                done = True
        return done

    # -- the end ------------------------------------------------------------------------------------------------------
    def finish(self, rule, assumptions=(), minimum=1):
        shutil.rmtree(self.scratch, ignore_errors=True)
        distinct = len(self.distinct) + self.distinct_extra
        if self.replay is None and not self.violations and (self.evaluations < minimum or distinct < 1):
            self.harness_errors.append('observed too little: %d evaluations, %d distinct' % (self.evaluations, distinct))
        evidence = dict(property=self.prop, tier=self.tier, seed=self.seed, level='exploration',
                        coverage=dict(evaluations=self.evaluations, distinct_nontrivial=distinct, rule=rule, samples=self.samples or ['none'],
                                      observed=self.tallies, known_findings_seen=self.known_seen, inconclusive=self.inconclusive),
                        assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        if self.replay is None:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
                json.dump(evidence, f, indent=1)
                f.write('\n')
        for key in self.known:
            print('KNOWN-FINDING: property=%s key=%s %s' % (self.prop, key, self.known[key]))
        rdir = os.path.join(VERIF, 'replays')
        for i, (key, (detail, replay)) in enumerate(sorted(self.violations.items())[:100]):
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s-%d.json' % (self.prop, i))
            if self.replay is None:
                with open(path, 'w') as f:
                    json.dump(dict(property=self.prop, key=key, detail=detail, replay=replay, how='python3 /verif/run.py %s --replay %s' % (self.prop, path)), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  key: %s' % key)
            print('  ' + detail.replace('\n', '\n  ')[:3000])
        print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1f s' % (
            self.prop, self.tier, self.seed, self.evaluations, distinct, len(self.violations), time.time() - self.t0))
        for k in sorted(self.tallies):
            print('    %s = %d' % (k, self.tallies[k]))
        for e in self.inconclusive:
            print('INCONCLUSIVE: ' + e)
        sys.stdout.flush()
        if self.violations:
            return 1
        if self.harness_errors:
            for e in self.harness_errors[:5]:
                print('HARNESS ERROR: ' + e)
            return 2
        return 0


def crash_key(err, rc):
    m = re.search(r'SUMMARY: (\w+Sanitizer): (\S+) (\S+?)(?::\d+)*(?: in (\S+))?\s*$', err, re.M)
    if m:
        where = os.path.basename(m.group(3).split(':')[0])
        return '%s:%s:%s' % (m.group(1), m.group(2), where)
    if 'hard rss limit exhausted' in err:
        return 'memory-without-bound'
    m = re.search(r'([\w./]+):\d+:\d+: runtime error: (.*)', err)
    if m:
        return 'undefined:%s:%s' % (os.path.basename(m.group(1)), re.sub(r'[^a-z ]', '', re.sub(r'0x[0-9a-f]+', '', m.group(2)))[:40].strip().replace(' ', '-'))
    return 'exit%s' % rc


def crash_text(err, rc):
    i = max(err.find('ERROR:'), 0)
    j = err.find('runtime error')
    if i == 0 and j > 0:
        i = max(0, j - 300)
    k = err.find('WARNING: ThreadSanitizer')
    if i == 0 and k >= 0:
        i = k
    return 'exit status %s\n%s' % (rc, err[i:i + 2500])
