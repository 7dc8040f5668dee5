#!/usr/bin/env python3
"""mutate.py N SEED [FILE...]: mutation testing of the checks (development only).
N random one-token changes of the library, each run through the quick checks of the properties its line belongs to,
against a scratch copy.  Prints CAUGHT/SURVIVED lines; survivors are for a human to judge (most are equivalent)."""
import os, random, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
# anchors: the first line matching the regex opens a region; the list names the checks, in order
MAP = {
'include/eirin/fixed.hpp': [
 (r'struct sqrt_init_value', ['C10']), (r'struct is_signed', []), (r'divide_integral\(Type', ['C04', 'C03']), (r'typedef Type value_type', []),
 (r'@brief Construct the fixed number from a integer', ['C07', 'C04']), (r'template <typename T, typename I, unsigned int f, bool r>', ['C06']),
 (r'constant defines', ['C25']), (r'nearly_compare_epsilon\(\)', ['C05']), (r'signbit_mask\(\) noexcept', ['C09']), (r'operator override', ['C07']),
 (r'operator\+\(const fixed_num& other', ['C01', 'C04']), (r'operator\*\(const fixed_num& other', ['C02', 'C04']), (r'operator/\(const fixed_num& other', ['C03', 'C04']),
 (r'fixed_num operator-\(\) const', ['C01']), (r'friend bool operator==\(const fixed_num&', ['C05']), (r'convert functions', ['C06', 'C25']), (r'generate lookup table', ['C10']),
 (r'static constexpr OutputIter copy_as', ['C21']), (r'constexpr fixed_num divide\(const std::integral', ['C03', 'C04']), (r'friend std::ostream& operator<<', ['C21']),
 (r'Type m_value;', []), (r'the largest magnitude of', ['C18', 'C20']), (r'is_fixed_point_v = ', []), (r'inline namespace literals', ['C18']), (r'operator\+\(const fixed_num<T, I, f, r>& fp, const std::integral', ['C04']),
 (r'bool f32_from_cstring', ['C18']), (r'operator>>\(std::basic_istream', ['C20']), (r'The default hash', ['C05']), (r'^namespace std', ['C25'])],
'include/eirin/math.hpp': [
 (r'f32_max = ', ['C25']), (r'r> ceil\(', ['C08']), (r'r> abs\(', ['C09']), (r'r> sqrt\(', ['C10']), (r'r> sin\(', ['C12']), (r'r> atan\(', ['C13']), (r'r> cbrt\(', ['C11']),
 (r'r> log2\(', ['C14']), (r'r> pow\(', ['C16']), (r'exp_expand\(', ['C15', 'C16']), (r'r> pow\(fixed_num<T, I, f, r> b, fixed_num', ['C16']), (r'r> fmod\(', ['C17']), (r'r> modf\(', ['C08']), (r'convert radian to deg', ['C17']), (r'r> hypot\(', ['C10'])],
'include/eirin/numbers.hpp': [(r'namespace', ['C25'])],
'include/eirin/io/format.hpp': [(r'digit_map_lower\[\]', ['C22'])],
'include/eirin/io/parse.hpp': [(r'namespace', ['C19'])],
'include/eirin/random.hpp': [(r'namespace detail', ['C23', 'C24']), (r'class permuted', ['C23']), (r'class fixed_random_engine_adapter', ['C24', 'C23'])],
'include/eirin/detail/distribution.hpp': [(r'namespace', ['C24'])],
'include/eirin/detail/util.hpp': [(r'namespace', ['C30'])],
'include/eirin/detail/perf.hpp': [(r'namespace', ['C32'])],
'include/eirin/ext/cordic.hpp': [(r'namespace', ['C27'])],
'include/eirin/ext/simd_math.hpp': [(r'namespace', ['C28'])],
'include/eirin/ext/builtin_ints.hpp': [(r'namespace', ['C31'])],
'include/eirin/detail/int128.hpp': [(r'namespace', ['C31', 'C02'])],
}
OPS = [(r'(?<![<>=!\-])<=(?!>)', ['<']), (r'(?<![<>=!\-])>=', ['>']), (r'==', ['!=']), (r'!=', ['==']), (r' < ', [' <= ']), (r' > ', [' >= ']),
 (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']), (r' % ', [' / ']), (r'<<(?!=)', ['>>']), (r'>>(?!=|\(|::|>)', ['<<']),
 (r'&&', ['||']), (r'\|\|', ['&&']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\+=', ['-=']), (r'-=', ['+=']), (r'\+\+', ['--']),
 (r'static_cast<I>', ['static_cast<T>']), (r'static_cast<IntermediateType>', ['static_cast<Type>']), (r'(?<=[ (])-(?=[a-z_])', ['']), (r'!(?=[a-z(])', ['']),
 (r'\?(?= )', None), (r'\b\d+\b', 'num'), (r'\b0[xX][0-9A-Fa-f]{2,}', 'hex'), (r"(?<=')[<>^+\-0 ](?=')", 'chr'), (r'^\s*[a-z_][\w.\[\]>*\-]* ?[+\-*/%]?= ?[^;{]*;', 'del'), (r'^\s*(break|continue);', 'del')]
def sites(f):
    L = open(f'{REPO}/{f}').read().split('\n'); reg = []; k = 0; out = []
    for n, l in enumerate(L):
        while k < len(MAP[f]) and re.search(MAP[f][k][0], l):
            reg = MAP[f][k][1]; k += 1
        s = l.split('//')[0]
        if not reg or re.match(r'\s*(\*|/\*|#|template|using|static_assert)', s) or 'static_assert' in s or not s.strip(): continue
        for pat, rep in OPS:
            for m in re.finditer(pat, s):
                if rep is None: continue
                out.append((f, n, m.start(), m.end(), rep, reg))
    if k < len(MAP[f]): print('anchor not found', f, MAP[f][k][0])
    return out, L
def mutant(s, L, rnd):
    f, n, a, b, rep, reg = s; t = L[n][a:b]
    if rep == 'num': v = int(t, 0) if not (len(t) > 1 and t[0] == '0') else int(t); r = str(rnd.choice([v + 1, max(0, v - 1)]))
    elif rep == 'hex': i = rnd.randrange(2, len(t)); d = int(t[i], 16); r = t[:i] + '%X' % ((d + rnd.choice([1, 8, 15])) % 16) + t[i+1:]
    elif rep == 'chr': r = rnd.choice([c for c in '<>^+-0 ' if c != t])
    elif rep == 'del': r = ';'
    else: r = rnd.choice(rep)
    return L[n][:a] + r + L[n][b:]
def main():
    N, seed = int(sys.argv[1]), int(sys.argv[2]); files = sys.argv[3:] or list(MAP); rnd = random.Random(seed)
    only = os.environ.get('MUT_PROPS', '').split()
    S = []; lines = {}
    for f in files: s, lines[f] = sites(f); S += s
    if only: S = [s for s in S if set(only) & set(s[5])]
    print(len(S), 'sites', flush=True); rnd.shuffle(S)
    done = 0
    for s in S:
        if done >= N: break
        f, n = s[0], s[1]; new = mutant(s, lines[f], rnd)
        if new == lines[f][n]: continue
        T = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
        try:
            subprocess.run(f'git -C {REPO} archive HEAD | tar -x -C {T}; git -C {T} init -q', shell=True, check=True)
            L = list(lines[f]); L[n] = new; open(f'{T}/{f}', 'w').write('\n'.join(L))
            c = '#include <eirin/eirin.hpp>\n#include <eirin/io/format.hpp>\n#include <eirin/ext/cordic.hpp>\n#include <eirin/detail/util.hpp>\nusing namespace eirin;\nint main(){ volatile int z=0; fixed64 a(z); a=sin(a)+cos(a)+exp(a)+atan(a)+pow(a,a)+sqrt(a)+cbrt(a)+log(a)+log10(a); auto s=std::format("{}",a); fixed32 b(z); b=sin(b)+cos(b)+exp(b)+atan(b)+pow(b,2)+sqrt(b)+cbrt(b)+log(b)+round(b); return (int)a+(int)b; }\n'
            if subprocess.run(['g++', '-std=c++20', '-w', '-fsyntax-only', '-I', T + '/include', '-x', 'c++', '-'], input=c, text=True, capture_output=True).returncode: continue
            done += 1; res = 'SURVIVED'
            for p in s[5]:
                try:
                    o = subprocess.run(['python3', ROOT + '/check.py', p], capture_output=True, text=True, timeout=900, env=dict(os.environ, VERIF_REPO=T))
                    if o.returncode == 1: res = f'CAUGHT {p}'; break
                    if o.returncode: res = f'EXIT{o.returncode} {p} ' + o.stderr[-200:].replace('\n', ' | ')
                except subprocess.TimeoutExpired: res = f'TIMEOUT {p}'
            print(f'{res}: {f.split("/")[-1]}:{n+1}: {lines[f][n].strip()[:100]}  ==>  {new.strip()[:100]}', flush=True)
        finally: shutil.rmtree(T, ignore_errors=True)
main()
