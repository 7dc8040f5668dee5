#!/usr/bin/env python3
"""Decide one property:  check.py C01 [--tier quick|thorough] [--seed N]

1. spec/*.qnt is type checked and its pure definitions are compiled to C++
   (tools/q2cpp.py), and harness/<id>.cpp is compiled against it and the
   headers of /repo's working tree.
2. `quint run` explores the property's state machine, checking the
   specification's own invariants, and writes behaviours (ITF).
   TLC explores the whole state space of its small machines (tools/tlc.py).
3. The driver replays the behaviours on real objects, and has the outcomes of
   its own calls and histories judged by the (compiled) specification.
4. A sample of the judgements, of both verdicts, is repeated by the Quint
   interpreter itself.
A rejection is reported if the Quint interpreter confirms the recorded judgement,
or (crashes, time limits) if a second run repeats it.
Exit: 0 held, 1 VIOLATION, 2 error of the check.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import CFG
import tlc

class Err(Exception): pass

def sh(cmd, timeout, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b''
        return 124, (o.decode(errors='replace') if isinstance(o, bytes) else o) + '\n[timeout]'

def translate(c, b):
    f = os.path.join(HERE, 'spec', c['spec'])
    for attempt in (1, 2):
        rc, o = sh(['quint', 'typecheck', '--out', f'{b}/ir.json', f], 120)
        if rc == 0: break
    if rc: raise Err('quint typecheck failed\n' + o)
    rc, o = sh([sys.executable, f'{HERE}/tools/q2cpp.py', f'{b}/ir.json', f'{b}/spec.hpp'], 60)
    if rc: raise Err('translation failed\n' + o)

def numbers():
    nums = set()
    for d, _, fs in os.walk(f'{REPO}/include'):
        for f in fs:
            t = re.sub(r'/\*.*?\*/|//[^\n]*', ' ', open(os.path.join(d, f), errors='replace').read(), flags=re.S)
            for w in re.findall(r"(?<![\w.])(0[xX][0-9a-fA-F']+|0[bB][01']+|[0-9][0-9']*(?:\.[0-9']*)?(?:[eE][-+]?[0-9]+)?|\.[0-9]+)", t):
                w = w.replace("'", '')
                try: v = int(w, 0) if re.match(r'0[xXbB]', w) else float(w) if re.search(r'[.eE]', w) else int(w)
                except ValueError: continue
                if abs(v) < 2**64: nums.add(v)
    return nums

def dictionary(b):
    """numbers written in the library's sources: values to try, as a fuzzer's dictionary would"""
    nums = numbers()
    # those the committed list does not have (written since) are tried more often
    base = set(open(f'{HERE}/harness/dictionary.txt').read().split())
    hot = [v for v in nums if repr(v) not in base][:200]
    ints = sorted(v for v in nums if isinstance(v, int))[:3000]
    flts = sorted(v for v in nums if isinstance(v, float))[:3000]
    with open(f'{b}/dict.inc', 'w') as f:
        f.write('static const unsigned long long DICT_INT[] = {1' + ''.join(f', {v}ull' for v in ints) + '};\n')
        f.write(f'static constexpr bool HAS_HOT = {"true" if hot else "false"};\n')
        f.write('static const unsigned long long HOT_INT[] = {1' + ''.join(f', {v}ull' for v in sorted(v for v in hot if isinstance(v, int))) + '};\n')
        f.write('static const long double HOT_FLT[] = {1.0L' + ''.join(f', {v!r}L' for v in sorted(v for v in hot if isinstance(v, float))) + '};\n')
        f.write('static const long double DICT_FLT[] = {1.0L' + ''.join(f', {v!r}L' for v in flts) + '};\n')

FLAGS = ['-std=c++20', '-w', f'-I{REPO}/include', f'-I{HERE}/harness'] + os.environ.get('VERIF_CXXFLAGS', '').split()

def compile_one(b, src, out, extra, cxx='g++', opt='-O2'):
    cmd = [cxx, opt] + FLAGS + [f'-I{b}'] + extra + [f'{HERE}/harness/{src}', '-o', out]
    for attempt in (1, 2):
        rc, o = sh(cmd, 800)
        if rc == 0: return None
    return ' '.join(cmd) + '\n' + o

def build(c, b, pool):
    """the drivers (one per part); returns a compiler log on failure"""
    parts = c.get('parts', 1)
    jobs = [pool.submit(compile_one, b, c['src'], f'{b}/driver{k}', [f'-DPARTS={parts}', f'-DPART={k}', f'-DEFFORT={c.get("effort", 1)}'] + c.get('flags', []), c.get('cxx', 'g++'), c.get('opt', '-O2')) for k in range(parts)]
    logs = [l for l in (j.result() for j in jobs) if l]
    return logs[0] if logs else None

def itf(v):
    if isinstance(v, dict):
        if '#bigint' in v: return int(v['#bigint'])
        if '#tup' in v: return [itf(x) for x in v['#tup']]
        return {k: itf(x) for k, x in v.items() if k != '#meta'}
    if isinstance(v, list): return [itf(x) for x in v]
    return v

def machine(m, b, n, tier, seed):
    """explore one machine of the specification, return its behaviours as step lines"""
    q = 0 if tier == 'quick' else 1
    traces, steps = m['traces'][q], m['steps'][q]
    samples = max(traces, m.get('samples', (0, 0))[q])
    pat = f'{b}/m{n}_' + '{seq}.itf.json'
    cmd = ['quint', 'run', '--verbosity=1', '--mbt', f'--max-samples={samples}', f'--max-steps={steps}', f'--n-traces={traces}',
           f'--seed={seed * 7919 + n + 1}', f'--out-itf={pat}', '--invariant=' + m.get('inv', 'inv'), '--step=' + m.get('step', 'step'),
           '--init=' + m.get('init', 'init'), os.path.join(HERE, 'spec', m['file'])]
    if 'main' in m: cmd.insert(2, '--main=' + m['main'])
    t0 = time.time()
    for attempt in (1, 2):
        rc, o = sh(cmd, 600)
        if rc == 0: break
    if rc: raise Err('the specification violates its own invariants, or quint failed\n' + ' '.join(cmd) + '\n' + o[-4000:])
    lines, states, trans, kinds = [], set(), 0, {}
    fs = sorted(glob.glob(f'{b}/m{n}_*.itf.json'))
    if not fs: raise Err('no behaviours were written\n' + o[-2000:])
    for f in fs:
        lines.append(f'# trace {n}')
        for s in json.load(open(f))['states']:
            s = itf(s)
            e = s['ev']
            lines.append(e['op'] + ''.join(f' {x}' for x in e['a']) + ' ;' + ''.join(f' {x}' for x in e['r']))
            kinds[e['op']] = kinds.get(e['op'], 0) + 1
            trans += 1
            states.add(hashlib.md5(json.dumps({k: v for k, v in s.items() if not k.startswith('mbt')}, sort_keys=True).encode()).digest())
        os.unlink(f)
    return dict(lines=lines, states=states, transitions=trans - len(fs), explored=samples, traces=len(fs), kinds=kinds, wall=time.time() - t0, cmd=' '.join(cmd))

def exhaust(name):
    try: return tlc.explore(name)
    except Exception: return tlc.explore(name)

def cross(c, b, exprs):
    """the Quint interpreter judges sampled observations; all must come out true"""
    if not exprs: return 0, []
    mods = c.get('modules') or [c['spec'][:-4]]
    def part(k, es):
        # REPL: one expression per line
        d = f'{b}/x{k}.qnt'
        with open(d, 'w') as f:
            f.write('module xj {\n')
            for m in mods: f.write(f'  import {m}.* from "{os.path.relpath(HERE, b)}/spec/{m}"\n')
            for i, e in enumerate(es): f.write(f'  pure val e{i} = ({e})\n')
            f.write('  var dummy: int\n  action init = dummy\' = 0\n  action step = dummy\' = dummy\n')
            f.write('  val all_ok = and {\n' + ',\n'.join(f'    e{i}' for i in range(len(es))) + '\n  }\n')
            f.write('  run okTest = init.then(all { assert(all_ok), dummy\' = 0 })\n}\n')
        rc, o = sh(['quint', 'test', '--main=xj', '--match=okTest', d], 300)
        if rc == 0 and '1 passing' in o: return []
        bad = []
        for i, e in enumerate(es):
            with open(d + '1.qnt', 'w') as f:
                f.write('module xj {\n')
                for m in mods: f.write(f'  import {m}.* from "{os.path.relpath(HERE, b)}/spec/{m}"\n')
                f.write(f'  var dummy: int\n  action init = dummy\' = 0\n  run okTest = init.then(all {{ assert({e}), dummy\' = 0 }})\n}}\n')
            rc, o = sh(['quint', 'test', '--main=xj', '--match=okTest', d + '1.qnt'], 120)
            if not (rc == 0 and '1 passing' in o): bad.append(e + '\n' + o[-600:])
            if len(bad) >= 2: break
        return bad or ['quint test failed on the batch\n' + o[-1500:]]
    n = 4
    parts = [exprs[i::n] for i in range(n)]
    with cf.ThreadPoolExecutor(n) as p:
        rs = list(p.map(lambda a: part(*a), [(k, es) for k, es in enumerate(parts) if es]))
    return len(exprs), [x for r in rs for x in r]

def drive(c, b, tag, tier, seed):
    parts = c.get('parts', 1)
    t0 = time.time()
    def one(k):
        return sh([f'{b}/driver{k}', f'{b}/{tag}{k}', str(seed), tier, str(max(1, 8 // parts)), f'{b}/traces'], 700 if tier == 'quick' else 20000)
    with cf.ThreadPoolExecutor(parts) as p: rs = list(p.map(one, range(parts)))
    st, viol, exprs = dict(evaluations=0, distinct=0, steps=0, errs=[]), [], []
    for k, (rc, o) in enumerate(rs):
        if rc not in (0, 1): raise Err(f'driver exit {rc}\n' + o[-3000:])
        s = json.load(open(f'{b}/{tag}{k}.stats'))
        for x in ('evaluations', 'distinct', 'steps'): st[x] += s[x]
        st['errs'] = [max(x, y) for x, y in zip(s['errs'], st['errs'] or s['errs'])]
        viol += [open(f).read() for f in sorted(glob.glob(f'{b}/{tag}{k}.viol.*'))]
        for f in sorted(glob.glob(f'{b}/{tag}{k}.samples.*')): exprs += [l.strip() for l in open(f) if l.endswith(('== true\n', '== false\n'))]
    return max(rc for rc, _ in rs), st, viol, exprs, time.time() - t0

def known(pid):
    out = []
    f = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) match="([^"]+)" (.*)', l)
            if m and m[1] == pid: out.append((m[2], m[3].strip()))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    pid, c = a.prop, CFG[a.prop]
    b = f'{HERE}/build/{pid}.{os.getpid()}'
    shutil.rmtree(b, ignore_errors=True)
    os.makedirs(b)
    os.makedirs(f'{HERE}/replays', exist_ok=True); os.makedirs(f'{HERE}/evidence', exist_ok=True)
    try:
        rc = check(pid, c, b, a.tier, a.seed, t0)
    except Err as e:
        print(f'ERROR property={pid}: {e}', file=sys.stderr)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    finally:
        if not a.keep: shutil.rmtree(b, ignore_errors=True)
    sys.exit(rc)

def report(pid, text):
    p = f'{HERE}/replays/{pid}.txt'
    open(p, 'w').write(text)
    print(text[:3000])
    print(f'VIOLATION property={pid} replay={p}', flush=True)

def check(pid, c, b, tier, seed, t0):
    q = 0 if tier == 'quick' else 1
    with cf.ThreadPoolExecutor(12) as pool:
        ms = [pool.submit(machine, m, b, n, tier, seed) for n, m in enumerate(c['machines'])]
        pre = [pool.submit(p, b, tier, seed) for p in c.get('extra', [])]
        tl = [pool.submit(exhaust, n) for n in c.get('small', [])]
        translate(c, b)
        dictionary(b)
        prep = None
        if 'prepare' in c:
            # further artefacts built from the behaviours
            mres = [m.result() for m in ms]
            prep = pool.submit(c['prepare'], b, mres, tier)
        log = build(c, b, pool)
        mres = [m.result() for m in ms]
        if prep is not None: log = prep.result() or log
        t_build = time.time() - t0
        pres = [p.result() for p in pre]
        if tl: pres.append(dict(small_models_explored_exhaustively_by_tlc=[t.result() for t in tl]))
    if log is not None:
        report(pid, f'The public interface the property speaks about does not compile for a supported use.\n{log[:20000]}\nReplay: python3 {HERE}/check.py {pid}\n')
        evidence(pid, c, tier, seed, t0, mres, dict(evaluations=0, distinct=0, steps=0), [], 0, 1, pres)
        return 1
    lines = [l for m in mres for l in m['lines']]
    open(f'{b}/traces', 'w').write('\n'.join(lines) + '\n')
    rc, st, viol, exprs, t_run = drive(c, b, 'run', tier, seed)
    # bounded, deterministic choice of what the interpreter repeats
    lim = c.get('cross', (160, 1600))[q]
    if len(exprs) > lim: exprs = exprs[::max(1, len(exprs) // lim)][:lim]
    vex = [l[6:] for v in viol for l in v.splitlines() if l.startswith('EXPR: ')]
    n, bad = cross(c, b, [e for e in exprs if e not in vex] + vex)
    if bad: raise Err('the compiled specification and the Quint interpreter disagree:\n' + '\n'.join(bad))
    nviol = 0
    if rc == 1 or viol:
        rc2, st2, viol2, _, _ = drive(c, b, 'again', tier, seed)
        # a judgement the interpreter confirmed (vex) stands: what the code did was recorded; other failures have to be repeated
        if not (rc2 == 1 or viol2 or vex): raise Err('a rejection was not repeated by the second run:\n' + '\n'.join(viol)[:4000])
        kn = known(pid)
        new = [v for v in viol if not any(k in v for k, _ in kn)]
        for k, t in kn:
            if any(k in v for v in viol): print(f'KNOWN-FINDING: property={pid} {t}')
        if new:
            nviol = len(new)
            report(pid, '\n'.join(new) + f'\nReplay: VERIF_SEED={seed} python3 {HERE}/check.py {pid} --tier {tier}\n')
    evidence(pid, c, tier, seed, t0, mres, st, exprs, n, nviol, pres)
    print(f'{pid} {tier}: {"VIOLATED" if nviol else "held"}; {st["evaluations"]} evaluations ({st["distinct"]} distinct), {st["steps"]} steps, {len(lines)} trace lines, {n} judgements repeated by Quint; build {t_build:.1f}s run {t_run:.1f}s total {time.time()-t0:.1f}s; max errors {[e for e in st.get("errs", []) if e]}')
    return 1 if nviol else 0

def evidence(pid, c, tier, seed, t0, mres, st, exprs, n, nviol, pres):
    states = set()
    for m in mres: states |= m['states']
    level = c.get('level', 'exploration')
    cov = dict(samples=([l for m in mres for l in m['lines'][:4]] + exprs[:6])[:12],
               specification=c['spec'], machine_runs=[dict(cmd=m['cmd'], traces=m['traces'], simulated=m['explored'], steps_by_kind=m['kinds'], wall_s=round(m['wall'], 1)) for m in mres],
               judgements_repeated_by_quint=n, steps_replayed_or_judged=st['steps'], measured_max_errors=st.get('errs', []))
    tr = sum(m['traces'] for m in mres)
    if level == 'model_checking':
        cov.update(states=len(states), transitions=sum(m['transitions'] for m in mres), traces_validated_against_impl=tr, evaluations=st['evaluations'], distinct_nontrivial=st['distinct'], rule=c['rule'])
    else:
        cov.update(evaluations=st['evaluations'], distinct_nontrivial=st['distinct'], rule=c['rule'], behaviours_replayed=tr, behaviour_states=len(states))
    if c.get('exhaustive'): cov['exhaustive_parts'] = c['exhaustive']
    for p in pres:
        if p: cov.update(p)
    json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=c.get('assume', []), wall_s=round(time.time() - t0, 2), violations=nviol), open(f'{HERE}/evidence/{pid}.json', 'w'), indent=1)

if __name__ == '__main__': main()
