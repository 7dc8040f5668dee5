"""What each check runs (see check.py)."""
RULE = 'raw values from a boundary set (zero, limits, powers of two, unit and their neighbours), random magnitudes of uniform bit length and sparse bit patterns; a case is non-trivial when the operation is defined for it; distinct cases are counted in a 2^27-bit table by hash of operation, format and operands'
def arith(step, **k):
    d = dict(spec='arith.qnt', modules=['num', 'core', 'arith'], level='model_checking', rule=RULE, parts=8,
             machines=[dict(file='mach_arith.qnt', step=step, traces=(48, 600), steps=(50, 100))])
    d.update(k)
    return d
def val(step, **k):
    d = dict(spec='vals.qnt', modules=['num', 'core', 'vals'], level='model_checking', rule=RULE, parts=8,
             machines=[dict(file='mach_val.qnt', step=step, traces=(48, 600), steps=(50, 100))])
    d.update(k)
    return d
CFG = {
    'C01': arith('stepAddSub', src='C01.cpp'),
    'C02': arith('stepMul', src='C02.cpp'),
    'C03': arith('stepDiv', src='C03.cpp'),
    'C04': arith('stepMix', src='C04.cpp'),
    'C05': val('stepCmp', src='C05.cpp'),
    'C06': val('stepConv', src='C06.cpp'),
    'C07': val('stepReal', src='C07.cpp'),
    'C08': val('stepRound', src='C08.cpp'),
    'C09': val('stepPart', src='C09.cpp'),
}
def text(step, **k):
    d = dict(spec='text.qnt', modules=['num', 'core', 'text'], level='model_checking', parts=8,
             rule='texts from generators (limits of the range, long fractions, damaged numbers), all short texts over a small alphabet, and numbers as for the arithmetic; distinct cases counted by hash of format and text or value',
             machines=[dict(file='mach_text.qnt', step=step, traces=(40, 400), steps=(50, 80))])
    d.update(k)
    return d
CFG.update({
    'C18': text('stepParse', src='C18.cpp'),
    'C19': text('stepIo', src='C19.cpp', parts=1),
    'C20': text('stepStream', src='C20.cpp'),
    'C21': text('stepPrint', src='C21.cpp'),
    'C22': text('stepFormat', src='C22.cpp'),
})
def rngc(init, step, **k):
    d = dict(spec='rng.qnt', modules=['num', 'core', 'rng'], level='model_checking',
             rule='random seeds, positions and bounds of uniform bit length, and histories of seeding, copying, comparing, discarding and drawing; distinct cases counted by hash of engine, seed, position or bounds',
             machines=[dict(file='mach_rng.qnt', init=init, step=step, traces=(60, 600), steps=(60, 120))])
    d.update(k)
    return d
CFG.update({
    'C23': rngc('init', 'step', src='C23.cpp'),
    'C24': rngc('dinit', 'dstep', src='C24.cpp'),
})
def math(name, **k):
    d = dict(spec='fmath.qnt', modules=['num', 'core', 'hp', 'fmath'], level='model_checking', parts=8,
             rule='boundary values, random values of uniform bit length, sweeps of the interesting intervals and their ends; distinct cases counted by hash of function, format and arguments',
             machines=[dict(file='mach_math.qnt', step='step' + name, inv='inv' + name, traces=(24, 300), steps=(40, 60))], cross=(80, 600))
    d.update(k)
    return d
CFG.update({
    'C10': math('Root', src='C10.cpp'),
    'C11': math('Cbrt', src='C11.cpp'),
    'C12': math('Trig', src='C12.cpp'),
    'C13': math('Arc', src='C13.cpp'),
    'C14': math('Log', src='C14.cpp'),
    'C15': math('Exp', src='C15.cpp'),
    'C16': math('Pow', src='C16.cpp'),
    'C17': math('Mod', src='C17.cpp'),
})
import os, subprocess
def certify(b, tier, seed):
    """the constants of the specification, from series"""
    f = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'spec', 'consts_cert.qnt')
    for attempt in (1, 2):
        p = subprocess.run(['quint', 'test', '--match=certTest', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
        if p.returncode == 0 and '1 passing' in p.stdout: return dict(constants_certified_by_series=16)
    raise RuntimeError('the constants of the specification are wrong\n' + p.stdout)
CFG.update({
    'C25': dict(spec='consts.qnt', modules=['num', 'core', 'consts'], level='model_checking', parts=1, src='C25.cpp', extra=[certify],
                rule='every constant and limit in 28 formats; distinct cases counted by constant and format', exhaustive=['all constants and limits of 28 formats, and all named ones'],
                machines=[dict(file='mach_const.qnt', traces=(40, 400), steps=(60, 100))]),
    'C27': dict(spec='cordic.qnt', modules=['num', 'core', 'hp', 'cordic'], level='model_checking', src='C27.cpp', rule=RULE,
                machines=[dict(file='mach_cordic.qnt', traces=(40, 400), steps=(50, 80))]),
    'C28': dict(spec='reduce.qnt', modules=['num', 'core', 'reduce'], level='model_checking', src='C28.cpp', flags=['-mavx2'], rule='batches of angles of uniform bit length, boundary values and neighbours of whole turns; distinct batches counted by hash',
                machines=[dict(file='mach_reduce.qnt', traces=(60, 600), steps=(60, 100))]),
})

import concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILDS = [('g++', ['-O0']), ('g++', ['-O2']), ('g++', ['-O3', '-march=native', '-funroll-loops']), ('g++', ['-Os', '-funsigned-char', '-std=c++23']), ('g++', ['-O2', '-ffast-math', '-fwrapv']),
          ('clang++', ['-O0']), ('clang++', ['-O2']), ('clang++', ['-O3', '-march=native', '-ffast-math']),
          ('g++', ['-Og', '-D_GLIBCXX_ASSERTIONS', '-DNDEBUG', '-fno-rtti']), ('g++', ['-O1', '-fno-exceptions', '-std=gnu++23', '-mno-sse4']), ('clang++', ['-O1', '-fno-exceptions', '-std=c++2c']), ('clang++', ['-Oz', '-funsigned-char', '-fno-strict-aliasing'])]
CT_OPS = set(range(0, 17)) | set(range(20, 38))
def builds(b, mres, tier):
    """the library under every build configuration, and the behaviours' cases evaluated by both compilers"""
    cases = {}
    for m in mres:
        for l in m['lines']:
            if l.startswith('case '):
                w = l.split(';')[0].split()[1:]
                if len(w) == 5 and w[4] == '0' and int(w[0]) in CT_OPS and not (w[1] == '4' and w[0] in ('35', '36')): cases[tuple(int(x) for x in w[:4])] = 1
    lit = lambda x: '(-9223372036854775807ll - 1)' if x == -2**63 else f'{x}ll'
    with open(f'{b}/ct.inc', 'w') as f:
        for n, (op, fm, x, y) in enumerate(list(cases)[:1200 if tier == 'quick' else 6000]): f.write(f'X({n}, {op}, {fm}, {lit(x)}, {lit(y)})\n')
    jobs = [(f'b{n}.so', cxx, fl, 'repro_lib.cpp') for n, (cxx, fl) in enumerate(BUILDS)] + [('ct0.so', 'g++', ['-O1'], 'repro_ct.cpp'), ('ct1.so', 'clang++', ['-O1', '-fconstexpr-steps=100000000'], 'repro_ct.cpp')]
    def one(j):
        so, cxx, fl, src = j
        std = [] if any(x.startswith('-std') for x in fl) else ['-std=c++20']
        cmd = [cxx] + std + ['-w', '-shared', '-fPIC', '-fvisibility=hidden', '-Wl,-Bsymbolic', f'-I{REPO}/include', f'-I{b}'] + (['-fno-gnu-unique'] if cxx == 'g++' else []) + fl + [f'{HERE}/harness/{src}', '-o', f'{b}/{so}']
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=500)
        return None if p.returncode == 0 else ' '.join(cmd) + '\n' + p.stdout
    with cf.ThreadPoolExecutor(8) as pool: logs = [l for l in pool.map(one, jobs) if l]
    with open(f'{b}/builds', 'w') as f:
        for so, cxx, fl, src in jobs: f.write(f'{so} {"compile time " if src == "repro_ct.cpp" else ""}{cxx} {" ".join(fl)}\n')
    return logs[0] if logs else None
CFG['C26'] = dict(spec='repro.qnt', modules=['num', 'core', 'hp', 'fmath', 'repro'], level='model_checking', src='C26.cpp', prepare=builds, flags=['-ldl'], cross=(80, 600),
                  rule='cases (operation, format, operands) from the specification\'s behaviours, also evaluated by the compilers, and random cases where the specification defines a result; distinct cases counted by hash',
                  machines=[dict(file='mach_repro.qnt', traces=(24, 150), steps=(80, 120))])
def unsound(b, tier, seed):
    """the machine must tell a table published too early from the protocol it specifies"""
    f = os.path.join(HERE, 'spec', 'mach_conc.qnt')
    p = subprocess.run(['quint', 'run', '--verbosity=1', '--invariant=inv', '--step=stepEarly', '--max-samples=200', '--max-steps=60', f'--seed={seed}', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    if 'violation' not in p.stdout: raise RuntimeError('the specification accepts a table published before it is complete\n' + p.stdout)
    return dict(broken_protocol_rejected_by_the_specification=True)
CFG['C29'] = dict(spec='conc.qnt', modules=['num', 'core', 'conc'], level='model_checking', src='C29.cpp', flags=['-fsanitize=thread', '-mavx2', '-lpthread'], opt='-O1', extra=[unsound], cross=(60, 300),
                  rule='schedules of calls and returns of four threads from the specification\'s behaviours and bursts of first calls, each in a fresh process under the race monitor; distinct schedules counted',
                  machines=[dict(file='mach_conc.qnt', traces=(48, 400), steps=(60, 80))])
CFG.update({
    'C30': dict(spec='tables.qnt', modules=['num', 'core', 'hp', 'consts', 'tables'], level='model_checking', src='C30.cpp', rule=RULE, cross=(100, 800), flags=['-mavx2'],
                machines=[dict(file='mach_tables.qnt', step='stepTab', traces=(40, 400), steps=(50, 80))]),
    'C31': dict(spec='wide.qnt', modules=['num', 'core', 'wide'], level='model_checking', src='C31.cpp', rule=RULE,
                machines=[dict(file='mach_wide.qnt', traces=(60, 600), steps=(60, 100))]),
    'C32': dict(spec='tables.qnt', modules=['num', 'core', 'hp', 'consts', 'tables'], level='model_checking', src='C32.cpp', flags=['-mavx2'],
                rule='grids of up to 40 points with random, equal, vanishing and large differences; distinct grids counted by hash',
                machines=[dict(file='mach_tables.qnt', step='stepMeas', traces=(40, 400), steps=(60, 100))]),
})
CFG['C33'] = dict(spec='trip.qnt', modules=['num', 'core', 'vals', 'text', 'trip'], level='model_checking', parts=1, src='C33.cpp', opt='-O1',
                  rule='journeys of 20 legs between 20 formats over nine ways, each leg judged and some repeated later; every value of the 8-bit formats over every way to every format; distinct legs counted by hash of formats, way, digits and number',
                  exhaustive=['all values of the 8-bit formats, over every way, to each of the 20 formats'],
                  machines=[dict(file='mach_trip.qnt', traces=(24, 200), steps=(40, 60))])
CFG['C34'] = dict(spec='types.qnt', modules=['num', 'core', 'types'], level='model_checking', parts=1, src='C34.cpp', opt='-O0',
                  rule='every combination of 27 store types, 17 intermediate types and 0 to 70 fraction bits; every expression over 20 formats and 26 types; distinct combinations counted',
                  exhaustive=['all formats of the built-in types with 0 to 70 fraction bits', 'all conversions and operations between 20 formats and 26 types'],
                  machines=[dict(file='mach_types.qnt', traces=(40, 400), steps=(60, 100))])
# multiples of the drivers' own numbers of cases in the quick tier
for i, n in dict(C05=2, C06=4, C07=2, C08=3, C09=3, C18=8, C19=8, C20=5, C22=5, C23=4, C24=15, C26=2, C27=10, C28=4, C30=15, C31=3, C32=15, C33=12).items(): CFG[i]['effort'] = n
# small machines whose whole state space TLC explores (tools/tlc.py)
for ids, ms in (('C01 C02 C03 C04', ['small_arith']), ('C05 C06 C08 C09', ['small_conv']), ('C18 C19 C20', ['small_stream']), ('C21 C22', ['small_print']), ('C23 C24', ['small_rng']),
                ('C29', ['small_conc', 'small_conc_early', 'small_conc_twice', 'live_conc']), ('C31', ['small_wide']), ('C33', ['small_trip'])):
    for i in ids.split(): CFG[i]['small'] = ms
