#!/usr/bin/env python3
"""Exhaustive exploration of the small machines with TLC.

spec/tla/NAME.tla is what `quint compile --target tlaplus` makes of spec/small_*.qnt
(`python3 tools/tlc.py compile`); a digest in it ties it to the Quint sources, and
explore() refuses a stale one.
"""
import hashlib, os, re, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = '/opt/veriftools/tla/tla2tools.jar'
# name: (Quint module, step, invariant, what TLC has to find)
SMALL = {
    'small_arith': ('small_arith', 'step', 'inv', 'holds'),
    'small_conv': ('small_conv', 'step', 'inv', 'holds'),
    'small_stream': ('small_stream', 'step', 'inv', 'holds'),
    'small_print': ('small_print', 'step', 'inv', 'holds'),
    'small_trip': ('small_trip', 'step', 'inv', 'holds'),
    'small_rng': ('small_rng', 'step', 'inv', 'holds'),
    'small_wide': ('small_wide', 'step', 'inv', 'holds'),
    'small_conc': ('small_conc', 'step', 'inv', 'holds'),
    'small_conc_early': ('small_conc', 'stepEarly', 'inv', 'violated'),
    'small_conc_twice': ('small_conc', 'stepTwice', 'inv', 'violated'),
}
# hand-written modules on top of generated ones, with temporal properties
LIVE = {'live_conc': ['small_conc']}

def sources(m, seen=None):
    seen = {} if seen is None else seen
    if m not in seen:
        t = open(f'{HERE}/spec/{m}.qnt').read()
        seen[m] = t
        for x in re.findall(r'from "\./(\w+)"', t): sources(x, seen)
    return seen

def digest(name):
    m, step, inv, _ = SMALL[name]
    s = sources(m)
    return hashlib.sha256(('\0'.join(k + '\0' + s[k] for k in sorted(s)) + step + inv).encode()).hexdigest()[:32]

def compile_one(name):
    m, step, inv, _ = SMALL[name]
    with tempfile.TemporaryDirectory() as d:
        p = subprocess.run(['quint', 'compile', '--target', 'tlaplus', f'--step={step}', f'--invariant={inv}', f'{HERE}/spec/{m}.qnt'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    o = p.stdout
    if p.returncode or 'MODULE' not in o: raise RuntimeError('quint compile failed\n' + o + p.stderr)
    o = o[o.rindex('\n', 0, o.index('MODULE')) + 1:]
    return f'\\* generated by tools/tlc.py from spec/{m}.qnt, digest {digest(name)}\n' + re.sub(r'MODULE \w+', f'MODULE {name}', o, count=1).rstrip() + '\n'

def explore(name, workers=4, timeout=600):
    """run TLC on the whole state space of a small machine"""
    live = name in LIVE
    for n in LIVE[name] if live else [name]:
        if f'digest {digest(n)}' not in open(f'{HERE}/spec/tla/{n}.tla').readline(): raise RuntimeError(f'spec/tla/{n}.tla is stale: run tools/tlc.py compile')
    with tempfile.TemporaryDirectory() as d:
        with open(f'{d}/c.cfg', 'w') as f:
            f.write('SPECIFICATION Spec\nPROPERTIES Live\nINVARIANT q_inv\n' if live else 'INIT q_init\nNEXT q_step\nINVARIANT q_inv\n')
        p = subprocess.run(['java', '-Xss64m', '-Xmx4g', '-XX:+UseParallelGC', '-cp', JAR, 'tlc2.TLC', '-workers', str(workers), '-deadlock', '-noGenerateSpecTE', '-metadir', f'{d}/m', '-config', f'{d}/c.cfg', f'{HERE}/spec/tla/{name}.tla'],
                           cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    o = p.stdout
    m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left', o)
    want = 'holds' if live else SMALL[name][3]
    if want == 'violated':
        if 'Invariant q_inv is violated' not in o: raise RuntimeError(f'TLC accepts {name}, which must not be accepted\n' + o[-3000:])
        return dict(model=name, verdict='rejected, as it must be')
    if 'No error has been found' not in o or not m: raise RuntimeError(f'TLC: {name}\n' + o[-4000:])
    return dict(model=name, verdict='holds in the whole state space' + (', with liveness under weak fairness' if live else ''), states=int(m[2].replace(',', '')), transitions=int(m[1].replace(',', '')),
                depth=int((re.search(r'search is (\d+)', o) or [0, 0])[1]))

if __name__ == '__main__':
    if sys.argv[1:2] == ['compile']:
        for n in sys.argv[2:] or SMALL:
            t = compile_one(n)
            open(f'{HERE}/spec/tla/{n}.tla', 'w').write(t)
            print(n, t.count('\n'))
    else:
        for n in sys.argv[1:] or list(SMALL) + list(LIVE): print(explore(n))
