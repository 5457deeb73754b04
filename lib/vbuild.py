"""
Builds the code under test (always from /repo's current working tree) together with the drivers in /verif/drivers.

One ninja file per variant is generated under /verif/build (ignored by git); ninja's depfiles make it incremental, and a
fresh copy of /verif simply builds everything.  Nothing is written under /repo.
"""
import os, re, subprocess, sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')

COMMON = ['-std=c++17', '-w', '-g1', '-DNDEBUG', '-march=native', '-mbmi', '-mavx2', '-fPIC', '-fno-omit-frame-pointer',
          '-D_GLIBCXX_USE_CXX11_ABI=1', '-pthread']
VARIANTS = {
    # memory safety + undefined behaviour.  alignment is left out (the library does unaligned word access on purpose).
    'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr', '-fsanitize-recover=undefined'],
    'tsan': ['-O1', '-fsanitize=thread'],
    'plain': ['-O1'],
}
# Translation units for which full instrumentation costs minutes of compile time: keep the memory checking, give up UBSan.
HEAVY = {
    'asan': {
        'compress_integer_qmx_jass_v1.cpp': ['-O1', '-fsanitize=address', '--param', 'asan-instrumentation-with-call-threshold=0'],
        'compress_integer_qmx_improved.cpp': ['-O1', '-fsanitize=address', '--param', 'asan-instrumentation-with-call-threshold=0'],
        'compress_integer_qmx_original.cpp': ['-O1', '-fsanitize=address', '--param', 'asan-instrumentation-with-call-threshold=0'],
        'unicode.cpp': ['-O0', '-fsanitize=address'],
    },
    # the codecs have no shared state: leave the giant switch statements uninstrumented in the race detector build
    'tsan': {
        'compress_integer_qmx_jass_v1.cpp': ['-O0'],
        'compress_integer_qmx_improved.cpp': ['-O0'],
        'compress_integer_qmx_original.cpp': ['-O0'],
        'unicode.cpp': ['-O0'],
    },
    'plain': {'unicode.cpp': ['-O0'], 'compress_integer_qmx_jass_v1.cpp': ['-O0']},
}
LIBS = ['/usr/lib/x86_64-linux-gnu/libz.a', '/usr/lib/x86_64-linux-gnu/libzstd.a', '-lpthread', '-ldl']


class BuildError(Exception):
    pass


def library_sources():
    """The .cpp files of JASSlib as the project's own build lists them."""
    text = open(os.path.join(REPO, 'source', 'CMakeLists.txt')).read()
    found = []
    for name in re.findall(r'^\s*([A-Za-z0-9_]+\.cpp)\s*$', text, re.M):
        if name in found:
            continue
        if os.path.exists(os.path.join(REPO, 'source', name)) or name in ('unicode.cpp', 'ascii.cpp'):
            found.append(name)
    heavy_first = [n for n in found if 'qmx' in n or n == 'unicode.cpp']
    return heavy_first + [n for n in found if n not in heavy_first]


class Build:
    def __init__(self, variant, source_dir=None, tag=None, defines=()):
        self.variant = variant
        self.dir = os.path.join(BUILD, tag or variant)
        self.source = source_dir or os.path.join(REPO, 'source')
        self.defines = list(defines)
        self.targets = []
        self.programs = []
        self.edges = []
        self.objects = {}
        self.lib_objects = None
        self._prologue_done = False
        os.makedirs(self.dir, exist_ok=True)

    def _flags(self, name):
        heavy = HEAVY.get(self.variant, {})
        return COMMON + heavy.get(name, VARIANTS[self.variant]) + self.defines

    def _includes(self):
        return ['-I' + self.source, '-I' + REPO + '/source', '-I' + REPO + '/external/streamvbyte/include', '-I' + REPO + '/anytime',
                '-I' + REPO + '/tools', '-I' + VERIF + '/drivers']

    def obj(self, path, flags=None, compiler='cxx'):
        key = (path, tuple(flags or ()))
        if key in self.objects:
            return self.objects[key]
        out = os.path.join(self.dir, 'obj', re.sub(r'[^A-Za-z0-9_.]', '_', path.lstrip('/')) + ('_' + str(abs(hash_text(' '.join(flags)))) if flags else '') + '.o')
        all_flags = self._flags(os.path.basename(path)) + (flags or []) + self._includes()
        if compiler == 'cc':
            all_flags = [f for f in all_flags if not f.startswith('-std=')]
        self.edges.append(f'build {out}: {compiler} {path}\n  flags = {" ".join(all_flags)}\n')
        self.objects[key] = out
        return out

    def generated(self, which):
        """unicode.cpp / ascii.cpp, made by the project's own generators from the project's own data."""
        gen = os.path.join(self.dir, 'gen', which)
        if ('gen', which) in self.objects:
            return gen
        self.objects[('gen', which)] = gen
        host = os.path.join(self.dir, 'host', which[:-4] + '_gen')
        flags = ' '.join(['-std=c++17', '-w', '-O1', '-DNDEBUG', '-march=native', '-mbmi', '-mavx2'] + self._includes())
        if which == 'unicode.cpp':
            data = ' '.join(REPO + '/external/Unicode/' + n for n in ('UnicodeData.txt', 'PropList.txt', 'CaseFolding.txt'))
            srcs = f'{REPO}/tools/unicode_database_to_c.cpp {REPO}/source/asserts.cpp {REPO}/source/file.cpp {REPO}/source/bitstring.cpp'
        else:
            data = ''
            srcs = f'{REPO}/tools/ascii_database_to_c.cpp'
        headers = ' '.join(sorted(os.path.join(REPO, 'source', n) for n in os.listdir(REPO + '/source') if n.endswith('.h')))
        self.edges.append(f'build {host}: host {srcs} | {headers}\n  flags = {flags}\n')
        self.edges.append(f'build {gen}: gen {host} {data}\n  cmd = {host} {data}\n')
        return gen

    def library(self, subset=None):
        names = library_sources() if subset is None else subset
        out = []
        for n in names:
            if subset is not None and n.endswith('.cpp') and n not in ('unicode.cpp', 'ascii.cpp') and not os.path.exists(os.path.join(self.source, n)):
                continue
            if n in ('unicode.cpp', 'ascii.cpp'):
                out.append(self.obj(self.generated(n)))
            elif n.endswith('.c'):
                out.append(self.obj(REPO + '/external/streamvbyte/src/' + n, compiler='cc'))
            else:
                out.append(self.obj(os.path.join(self.source, n)))
        return out

    def program(self, name, sources, subset=None, flags=None, libs=()):
        """sources: absolute paths (driver / tool / anytime); subset: library files (None = whole library)."""
        out = os.path.join(self.dir, 'bin', name)
        self.programs.append((out, [self.obj(s, flags) for s in sources], subset, list(libs)))
        self.targets.append(out)
        return out

    def build(self):
        try:
            self._build(False)
        except BuildError as e:
            # a part of the library now needs another part that was not listed for this program: use the whole library
            if 'undefined reference' not in str(e) or all(p[2] is None for p in self.programs):
                raise
            self._build(True)

    def _build(self, whole):
        links = []
        for out, objs, subset, libs in self.programs:
            objs = objs + self.library(None if whole else subset)
            links.append(f'build {out}: link {" ".join(objs)}\n  flags = {" ".join(VARIANTS[self.variant])}\n  libs = {" ".join(libs + LIBS)}\n')
        path = os.path.join(self.dir, 'build-' + str(os.getpid()) + '.ninja')
        with open(path, 'w') as f:
            f.write('ninja_required_version = 1.5\nbuilddir = ' + self.dir + '\n')
            f.write('rule cxx\n  description = cxx $out\n  command = g++ $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n')
            f.write('rule cc\n  description = cc $out\n  command = gcc $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n')
            f.write('rule link\n  description = link $out\n  command = g++ -pthread $flags $in -o $out $libs\n')
            f.write('rule host\n  description = host $out\n  command = g++ $flags $in -o $out -lpthread\n')
            f.write('rule gen\n  description = gen $out\n  command = $cmd > $out\n')
            f.write('\n'.join(self.edges + links) + '\n')
        try:
            p = subprocess.run(['ninja', '-C', self.dir, '-f', path] + self.targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        finally:
            os.unlink(path)
        if p.returncode != 0:
            at = p.stdout.find('FAILED')
            raise BuildError('\n'.join(l[:300] for l in p.stdout[at:].split('\n'))[:200000] if at >= 0 else p.stdout[-4000:])


def hash_text(t):
    h = 1469598103934665603
    for c in t.encode():
        h = ((h ^ c) * 1099511628211) & ((1 << 64) - 1)
    return h % 100000007
