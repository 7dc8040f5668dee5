#!/usr/bin/env python3
"""Translate the pure definitions of a Quint specification into C++.

    q2cpp.py IR.json OUT.hpp [module ...]

IR.json is what `quint typecheck --out IR.json SPEC.qnt` writes.  Every `pure
def` / `pure val` of the named modules (default: all) becomes a function in
namespace `spec`.  Integers become `Int` (see spec_rt.hpp): overflow-checked
arithmetic, so the compiled specification either computes what the Quint
semantics (unbounded integers) computes or reports a model error; it never
wraps.  Only constructs used by the specification are supported, anything else
is an error of the translation.
"""
import json, sys

class T:
    def __init__(self, ir, mods):
        self.types = ir['types']
        self.recs = {}
        self.out = []
        self.decls = []
        self.alias = {}
        allm = ir['modules']
        for m in allm:
            for d in m['declarations']:
                if d['kind'] == 'typedef' and d.get('type'):
                    self.alias[d['name']] = d['type']
        self.defs = []
        self.names = set()
        for m in allm:
            if mods and m['name'] not in mods:
                continue
            for d in m['declarations']:
                if d['kind'] == 'def' and d['qualifier'] in ('puredef', 'pureval'):
                    if d['name'] in self.names:
                        raise SystemExit(f"duplicate definition {d['name']}")
                    self.names.add(d['name'])
                    self.defs.append(d)
        self.consts = {d['name'] for d in self.defs if d['expr']['kind'] != 'lambda'}
        self.tmp = 0

    def ty(self, t):
        k = t['kind']
        if k == 'int': return 'Int'
        if k == 'bool': return 'bool'
        if k in ('list', 'set'):
            assert k == 'list', t
            return f"Lst<{self.ty(t['elem'])}>"
        if k == 'const': return self.ty(self.alias[t['name']])
        if k == 'rec': return self.rec(t)
        if k == 'var': return 'auto'
        raise SystemExit(f'unsupported type {t}')

    def rec(self, t):
        fs = tuple(sorted((f['fieldName'], self.ty(f['fieldType'])) for f in t['fields']['fields']))
        return self.recname(fs)

    def recname(self, fs):
        if fs not in self.recs:
            self.recs[fs] = 'R' + str(len(self.recs)) + '_' + '_'.join(n for n, _ in fs)
        return self.recs[fs]

    def typeof(self, e):
        return self.types[str(e['id'])]['type']

    def fresh(self, b='t'):
        self.tmp += 1
        return f'{b}__{self.tmp}'

    def pow2const(self, e, env):
        # the exponent of a power-of-two divisor, as C++ source, or None
        if e['kind'] == 'int':
            v = e['value']
            if v > 0 and v & (v - 1) == 0: return str(v.bit_length() - 1)
        if e['kind'] == 'app' and e['opcode'] == 'p2':
            return 'int(' + self.ex(e['args'][0], env) + ')'
        if e['kind'] == 'app' and e['opcode'] == 'ipow' and e['args'][0].get('value') == 2:
            return 'int(' + self.ex(e['args'][1], env) + ')'
        if e['kind'] == 'app' and e['opcode'] == 'one':
            return 'int(' + self.ex(e['args'][0], env) + '.frac)'
        return None

    def ex(self, e, env):
        k = e['kind']
        if k == 'int':
            v = e['value']
            if abs(v) < 2**62: return f'Int({v}LL)'
            return f'lit("{v}")'
        if k == 'bool': return 'true' if e['value'] else 'false'
        if k == 'name':
            n = e['name']
            if n in env: return env[n]
            if n in self.consts: return f'{n}_()'
            if n in self.names: return n + '_'
            if n in ('true', 'false'): return n
            raise SystemExit(f'unbound name {n}')
        if k == 'let':
            d = e['opdef']
            n = self.fresh(d['name'])
            env2 = dict(env)
            if d['expr']['kind'] == 'lambda':
                lam = d['expr']
                ps = []
                envl = dict(env)
                for p in lam['params']:
                    pn = self.fresh(p['name'])
                    envl[p['name']] = pn
                    ps.append(f'auto const& {pn}')
                body = self.ex(lam['expr'], envl)
                env2[d['name']] = n
                return f"({{ auto {n} = [&]({', '.join(ps)}) {{ return {body}; }}; {self.ex(e['expr'], env2)}; }})"
            v = self.ex(d['expr'], env)
            env2[d['name']] = n
            return f"({{ auto const {n} = {v}; {self.ex(e['expr'], env2)}; }})"
        if k == 'app': return self.app(e, env)
        raise SystemExit(f'unsupported expression {k}: {json.dumps(e)[:200]}')

    BIN = {'iadd': 'qadd', 'isub': 'qsub', 'imul': 'qmul', 'idiv': 'qdiv', 'imod': 'qmod', 'ipow': 'qpow'}
    CMP = {'ilt': '<', 'ilte': '<=', 'igt': '>', 'igte': '>=', 'eq': '==', 'neq': '!='}

    def app(self, e, env):
        o, a = e['opcode'], e['args']
        X = lambda i: self.ex(a[i], env)
        if o in ('fdiv', 'fmod', 'fshr') or o in ('idiv', 'imod'):
            p = X(1) if False else None
            if o == 'fshr': return f'qfshr({X(0)}, int({X(1)}))'
            sh = self.pow2const(a[1], env)
            if sh is not None:
                return {'fdiv': 'qfshr', 'fmod': 'qfmask', 'idiv': 'qshr', 'imod': 'qmask'}[o] + f'({X(0)}, {sh})'
        if o in ('ipow',) and a[0].get('value') == 2: return f'qp2(int({X(1)}))'
        if o in self.BIN: return f'{self.BIN[o]}({X(0)}, {X(1)})'
        if o in self.CMP: return f'({X(0)} {self.CMP[o]} {X(1)})'
        if o == 'iuminus': return f'qneg({X(0)})'
        if o == 'ite': return f'({X(0)} ? {X(1)} : {X(2)})'
        if o == 'and': return '(' + ' && '.join(self.ex(x, env) for x in a) + ')' if a else 'true'
        if o == 'or': return '(' + ' || '.join(self.ex(x, env) for x in a) + ')' if a else 'false'
        if o == 'not': return f'(!{X(0)})'
        if o == 'implies': return f'(!{X(0)} || {X(1)})'
        if o == 'iff': return f'({X(0)} == {X(1)})'
        if o == 'field': return f"{X(0)}.{a[1]['value']}"
        if o == 'Rec':
            fs = {}
            for i in range(0, len(a), 2): fs[a[i]['value']] = a[i + 1]
            t = self.typeof(e)
            rn = self.ty(t) if t['kind'] != 'var' else None
            if rn is None: raise SystemExit('untyped record')
            inits = ', '.join(f'.{n} = {self.ex(fs[n], env)}' for n in sorted(fs))
            return f'{rn}{{{inits}}}'
        if o == 'with':
            v = self.fresh('w')
            return f"({{ auto {v} = {X(0)}; {v}.{a[1]['value']} = {X(2)}; {v}; }})"
        if o == 'List':
            t = self.typeof(e)
            et = t['elem']
            ct = 'Int' if et['kind'] == 'var' else self.ty(et)
            return f'Lst<{ct}>{{' + ', '.join(self.ex(x, env) for x in a) + '}'
        if o == 'length': return f'Int({X(0)}.size())'
        if o in ('nth',): return f'qnth({X(0)}, {X(1)})'
        if o == 'append': return f'qappend({X(0)}, {X(1)})'
        if o == 'concat': return f'qconcat({X(0)}, {X(1)})'
        if o == 'slice': return f'qslice({X(0)}, {X(1)}, {X(2)})'
        if o == 'replaceAt': return f'qreplace({X(0)}, {X(1)}, {X(2)})'
        if o == 'foldl':
            lam = a[2]
            acc, it = self.fresh('acc'), self.fresh('it')
            envl = dict(env)
            envl[lam['params'][0]['name']] = acc
            envl[lam['params'][1]['name']] = it
            body = self.ex(lam['expr'], envl)
            at = self.typeof(a[1])
            ct = self.ty(self.typeof(e))
            init = f'{ct} {acc} = {self.ex(a[1], env)};'
            l = a[0]
            if l['kind'] == 'app' and l['opcode'] == 'range':
                b = self.fresh('b')
                return (f"({{ {init} Int const {b} = {self.ex(l['args'][1], env)}; for(Int {it} = {self.ex(l['args'][0], env)}; {it} < {b}; {it} = {it} + 1) {{ {acc} = {body}; }} {acc}; }})")
            return f'({{ {init} for(auto const& {it} : {self.ex(l, env)}) {{ {acc} = {body}; }} {acc}; }})'
        if o in env: return f"{env[o]}({', '.join(self.ex(x, env) for x in a)})"
        if o in self.names: return f"{o}_({', '.join(self.ex(x, env) for x in a)})"
        raise SystemExit(f'unsupported operator {o}')

    def run(self):
        protos, bodies = [], []
        for d in self.defs:
            t = self.types[str(d['id'])]['type']
            n = d['name'] + '_'
            if d['expr']['kind'] == 'lambda':
                res = self.ty(t['res'])
                ps, env = [], {}
                for p, pt in zip(d['expr']['params'], t['args']):
                    pn = 'p_' + p['name']
                    env[p['name']] = pn
                    c = self.ty(pt)
                    ps.append((f'{c} const& ' if c not in ('Int', 'bool') else f'{c} ') + pn)
                sig = f"inline {res} {n}({', '.join(ps)})"
                body = self.ex(d['expr']['expr'], env)
                protos.append(sig + ';')
                bodies.append(f'{sig} {{ return {body}; }}')
            else:
                res = self.ty(t)
                protos.append(f'inline {res} const& {n}();')
                body = self.ex(d['expr'], {})
                bodies.append(f'inline {res} const& {n}() {{ static {res} const v = {body}; return v; }}')
        known = dict(self.recs)
        o = ['// generated by tools/q2cpp.py from the Quint specification', '#pragma once', '#include "spec_rt.hpp"', 'namespace spec {']
        done = set()
        # records in order of creation: inner records are named first
        for fs, name in self.recs.items():
            o.append(f'struct {name} {{ ' + ' '.join(f'{t} {n}{{}};' for n, t in fs) + f' friend bool operator==(const {name}&, const {name}&) = default; }};')
            o.append(f'inline std::string show(const {name}& r) {{ return std::string("{{") + ' + ' + ", " + '.join(f'"{n}: " + show(r.{n})' for n, _ in fs) + ' + "}"; }')
        for n, t in self.alias.items():
            if t['kind'] == 'rec' and tuple(sorted((f['fieldName'], self.ty(f['fieldType'])) for f in t['fields']['fields'])) in known: o.append(f'using {n} = {self.ty(t)};')
        o += protos + bodies + ['}']
        return '\n'.join(o) + '\n'

if __name__ == '__main__':
    ir = json.load(open(sys.argv[1]))
    open(sys.argv[2], 'w').write(T(ir, set(sys.argv[3:])).run())
