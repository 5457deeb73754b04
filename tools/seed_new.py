#!/usr/bin/env python3
"""tools/seed_new.py SPEC.py : make /verif/seeded/<id>/ from a spec (ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO, LINK)."""
import json, os, subprocess, sys, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
d = '' + os.environ.get('SEEDED', '/verif/seeded') + '/' + spec['ID']
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
w = '/tmp/seed/wt-' + spec['ID']
shutil.rmtree(w, ignore_errors=True)
os.makedirs('/tmp/seed', exist_ok=True)
subprocess.check_call(['git', '-C', os.environ.get('VERIF_REPO', '/repo'), 'worktree', 'add', '-q', '--detach', w, 'HEAD'])
try:
    for name, old, new in spec['EDITS']:
        p = os.path.join(w, name)
        raw = open(p, newline='').read()
        crlf = '\r\n' in raw
        t = raw.replace('\r\n', '\n') if crlf else raw
        assert t.count(old) == 1, (name, t.count(old))
        t = t.replace(old, new)
        open(p, 'w', newline='').write(t.replace('\n', '\r\n') if crlf else t)
    diff = subprocess.check_output(['git', '-C', w, 'diff'])
    open(d + '/patch.diff', 'wb').write(diff)
finally:
    subprocess.check_call(['git', '-C', os.environ.get('VERIF_REPO', '/repo'), 'worktree', 'remove', '--force', w])
json.dump(dict(property=spec['PROPERTY'], needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
if 'SHELL' in spec:
    open(d + '/demo.sh', 'w').write(spec['SHELL'])
else:
    extra = ' '.join(spec.get('LINK', []))
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with the repository as the current directory, after it has been built
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -O1 -w -march=native -mbmi -mavx2 -pthread %s -I source -I anytime -I tools "$HERE/demo.cpp" %s _build/source/libJASSlib.a $(find _build -name 'libstreamvbyte*.a' | head -1) -lz -lzstd -lpthread -ldl -o "$W/demo" || exit 2
cd "$W" && timeout 250 ./demo
''' % (spec.get('FLAGS', ''), extra))
for name, text in spec.get('FILES', {}).items():
    open(os.path.join(d, name), 'w').write(text)
if 'DEMO' in spec:
    open(d + '/demo.cpp', 'w').write(spec['DEMO'])
