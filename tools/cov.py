#!/usr/bin/env python3
"""Lines of the library no driver executes: build the drivers with --coverage, run a reduced quick check, merge."""
import collections, glob, gzip, json, os, subprocess, sys, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import CFG
ids = sys.argv[1:] or [i for i in CFG if i not in ('C26', 'C29')]
D = '/tmp/cov'
shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
hit = collections.defaultdict(lambda: collections.defaultdict(int))
for i in ids:
    env = dict(os.environ, VERIF_CXXFLAGS='--coverage -DMEASURE_COVERAGE -fno-inline')
    p = subprocess.run([sys.executable, H + '/check.py', i, '--keep'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    b = max(glob.glob(f'{H}/build/{i}.*'), key=os.path.getmtime)
    print(i, p.returncode, p.stdout.strip().splitlines()[-1][:100] if p.stdout.strip() else '', flush=True)
    for g in glob.glob(b + '/*.gcda'):
        o = subprocess.run(['gcov', '--json-format', '--stdout', g], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=D).stdout
        for l in o.splitlines():
            for f in json.loads(l)['files']:
                if '/repo/include' in os.path.realpath(f['file']):
                    for x in f['lines']: hit[f['file']][x['line_number']] += x['count']
    shutil.rmtree(b)
for f in sorted(hit):
    miss = [n for n, c in sorted(hit[f].items()) if c == 0]
    print(f, len(hit[f]), 'lines,', len(miss), 'not executed')
    src = open(f).read().split('\n')
    for n in miss: print('   ', n, src[n - 1].strip()[:110])
