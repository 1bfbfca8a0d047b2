#!/usr/bin/env python3
"""plant.py SPEC.py : writes /verif/seeded/<id>/ from a spec module with
ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], SRCS (under src/ppocr), DEMO (C++ text of main file), FLAGS
and confirms demo passes on /repo and fails on a patched scratch copy of src/."""
import sys, os, json, shutil, subprocess, tempfile, runpy
s = runpy.run_path(sys.argv[1])
def one(s):
    d = '/verif/seeded/' + s['ID']
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp(prefix='plant', dir='/tmp/w')
    try:
        subprocess.check_call(['git', 'worktree', 'add', '-q', '--detach', t + '/r'], cwd='/repo')
        for f, old, new in s['EDITS']:
            p = t + '/r/' + f
            x = open(p).read()
            assert x.count(old) == 1, (f, x.count(old), old)
            open(p, 'w').write(x.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=t + '/r')
        open(d + '/patch.diff', 'wb').write(diff)
        open(d + '/demo.cpp', 'w').write(s['DEMO'])
        flags = s.get('FLAGS', '-fsanitize=address,undefined -fno-sanitize-recover=undefined')
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run in the repository: builds the demonstration against its sources and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -g -O1 -DNDEBUG %s -I src -I includes "$D/demo.cpp" %s -o "$T/demo" || exit 2
cd "$T" && timeout 60 ./demo
''' % (flags, ' '.join('src/ppocr/' + x for x in s['SRCS'])))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        a = subprocess.run([d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        b = subprocess.run([d + '/demo.sh'], cwd=t + '/r', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = a.returncode == 0 and b.returncode not in (0, 2)
        print(s['ID'], 'clean', a.returncode, 'patched', b.returncode, 'OK' if ok else 'BAD ' + a.stdout[-600:] + '----' + b.stdout[-300:])
    finally:
        subprocess.call(['git', 'worktree', 'remove', '--force', t + '/r'], cwd='/repo')
        shutil.rmtree(t, ignore_errors=True)
for x in (s['ALL'] if 'ALL' in s else [s]):
    one(x)
