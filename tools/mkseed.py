#!/usr/bin/env python3
"""Turn seeds/*.py-style definitions into /verif/seeded/<id>/ (development only).
usage: mkseed.py FILE.py     FILE.py calls seed(id, prop, needs, breaks, [(file, old, new)...], demo_cpp)"""
import json, os, subprocess, sys, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the library behaves; run with cwd = the repository
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -f "$T/demo"; rmdir "$T"' EXIT
g++ -std=c++20 -w %s -Iinclude "$D/demo.cpp" -o "$T/demo" || exit 2
timeout 120 "$T/demo"
'''
def seed(id, prop, needs, breaks, edits, demo, flags='-O1'):
    if len(sys.argv) > 2 and id not in sys.argv[2:]: return
    d = f'{ROOT}/seeded/{id}'
    t = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune']); 
    subprocess.run(f'git -C /repo archive HEAD | tar -x -C {t} && git -C {t} init -q && git -C {t} add -A && git -C {t} -c user.name=x -c user.email=x commit -qm b', shell=True, check=True)
    for f, old, new in edits:
        s = open(f'{t}/{f}').read()
        if s.count(old) != 1: print(id, f, 'matches', s.count(old), 'times:', old); shutil.rmtree(t); return
        open(f'{t}/{f}', 'w').write(s.replace(old, new))
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', t, 'diff'], capture_output=True, text=True).stdout)
    shutil.rmtree(t)
    open(d + '/demo.cpp', 'w').write(demo.lstrip())
    open(d + '/demo.sh', 'w').write(DEMO % flags)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    print('wrote', id)
exec(open(sys.argv[1]).read())
