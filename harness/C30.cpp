#include "val.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <eirin/detail/util.hpp>
using namespace h;
namespace u = eirin::util;
template <size_t N> Int sine(i64 v)
{
    announce("lut_calc_sin", (int)N, v);
    seen(mix((u64)v) ^ N);
    Int r = rv(u::lut::lut_calc_sin<N>(raw<F64>(v)));
    J(lutOk, (Int)N, (Int)v, r);
    return r;
}
template <typename I> Int eval(int f, Int m, int e)
{
    announce("eval_value", sizeof(I), f, m, e);
    seen(mix((u64)m + f * 64 + e) ^ sizeof(I));
    Int r = (Int)u::eval_value<I>(std::ldexp((double)m, e), f);
    J(evalOk, (Int)f, m, (Int)e, r);
    return r;
}
template <typename T, int f, int N> void series()
{
    announce("bbp_calc_pi", sizeof(T), f, N);
    seen(f * 100 + N);
    J(seriesOk, (Int)f, (Int)N, (Int)u::pi_calc::bbp_calc_pi<T, f, N>());
}
static IntL calls;
static F64 square(F64 x) { calls.push_back(rv(x)); return x * x - F64(1); }
template <size_t N> void table()
{
    announce("table", (int)N);
    auto a = u::lut::angels_lut<N>();
    IntL as, im, t;
    for(size_t i = 0; i < N; ++i) { seen(N * 10000 + i); as.push_back(rv(a[i])); J(angleOk, (Int)N, (Int)i, rv(a[i])); im.push_back(rv(a[i] * a[i] - F64(1))); }
    calls = {};
    auto b = u::lut::func_ptr_lut<N>(square);
    for(auto& x : b) t.push_back(rv(x));
    if(N <= 16) J(tableOk, as, calls, im, t);
    else if(!spec::tableOk_(as, calls, im, t)) violation("func_ptr_lut<" + std::to_string(N) + "> is not the table of the function at the angles");
}
// the sources printed for the constants: name, fraction bits and raw value of each
template <typename T> void printed(int f, bool dflt = false)
{
    static const char* names[11] = {"log2e", "log10e", "inv_pi", "inv_sqrtpi", "ln2", "ln10", "sqrt2", "sqrt3", "inv_sqrt3", "egamma", "phi"};
    announce("print_constants", sizeof(T), f);
    seen(mix(f * 8 + sizeof(T)));
    int p[2]; if(pipe(p)) spec::fail("pipe");
    fflush(stdout);
    pid_t q = fork();
    if(q == 0)
    {
        if(dup2(p[1], 1) < 0) _exit(2);
        if(dflt) u::print_constants<T>(); else u::print_constants<T>(f);
        std::cout.flush(); fflush(stdout); _exit(0);
    }
    close(p[1]);
    std::string s; char b[4096]; ssize_t n;
    while((n = read(p[0], b, sizeof b)) > 0) s.append(b, n);
    close(p[0]);
    int st = 0; waitpid(q, &st, 0);
    if(st) { violation("print_constants crashed"); return; }
    size_t at = 0;
    for(int k = 0; k < 11; ++k)
    {
        const std::string def = std::string(names[k]) + "_v()", call = "from_fixed_num_value<";
        at = s.find(def, at);
        size_t c = at == s.npos ? at : s.find(call, at);
        int P = -1; unsigned long long v = 0;
        if(c == s.npos || sscanf(s.c_str() + c + call.size(), "%d>(%llx", &P, &v) != 2 || (k < 10 && s.find("_v()", at + def.size()) < c))
        { violation("the text printed for " + std::string(names[k]) + " is not a definition of the constant: " + s); return; }
        J(printedOk, (Int)k, (Int)f, (Int)P, (Int)v);
        at = c;
    }
}
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] {
            auto ts = load_traces(TRACES);
            for(size_t n = W; n < ts.size(); n += NW)
                for(auto& s : ts[n])
                {
                    if(s.op == "sine") { me->steps.fetch_add(1, std::memory_order_relaxed); s.a[0] == 64 ? sine<64>((i64)s.a[1]) : sine<512>((i64)s.a[1]); }
                    if(s.op == "eval") { me->steps.fetch_add(1, std::memory_order_relaxed); if(eval<i64>((int)s.a[0], s.a[1], (int)s.a[2]) != s.r[0]) violation("behaviour " + std::to_string(n) + ": " + show_step(s)); }
                }
        }},
        {"sine", [] {
            auto g = rng("sine");
            values<F64>(g, count(3000000, 100000000), [](i64 v) { sine<512>(v); });
            values<F64>(g, count(300000, 10000000), [](i64 v) { sine<64>(v); sine<1000>(v); });
            Int U = (Int)1 << 32;
            shard(-14 * U, 14 * U, [](Int v) { sine<512>((i64)v); }, 28 * U / (THOROUGH ? 100000000 : 2000000));
            // at and next to the entries
            for(uint64_t i = count(1000000, 20000000); i--;)
            {
                Int k = i % 4 ? (Int)g.below(4096) : (Int)(g() >> (20 + g.below(40)));
                Int x = (Int)((long double)k * 26353589.2658L) + (Int)g.below(9) - 4;
                if(x < (Int)INT64_MAX) sine<512>((i64)(g.flip() ? x : -x));
            }
        }},
        {"generators", [] {
            auto g = rng("eval");
            for(uint64_t i = count(2000000, 50000000); i--;)
            {
                int f = 1 + (int)g.below(62), e = -(int)g.below(70) + 4; Int m = (Int)(g() >> (11 + g.below(53)));
                if(spec::evalDef_((Int)f, m, (Int)e, 64)) eval<i64>(f, m, e);
                if(spec::evalDef_((Int)f, m, (Int)e, 32)) eval<i32>(f, m, e);
            }
            if(W == 0)
            {
                series<i64, 60, 15>(); series<i64, 60, 20>(); series<i64, 48, 12>(); series<i64, 32, 10>(); series<i64, 32, 3>(); series<i64, 32, 2>(); series<i64, 32, 1>(); series<i64, 40, 5>(); series<i64, 20, 4>();
                series<i32, 16, 6>(); series<i32, 28, 8>(); series<i32, 24, 3>(); series<i16, 8, 3>(); series<i16, 12, 4>();
            }
            if(W == 2 % NW)
            {
                for(int f = 1; f <= 61; ++f) printed<i64>(f);
                for(int f = 1; f <= 29; ++f) printed<i32>(f);
                for(int f = 1; f <= 13; ++f) printed<i16>(f);
                printed<i64>(61, true);
            }
            if(W == 1 % NW) { table<1>(); table<2>(); table<3>(); table<8>(); table<15>(); table<16>(); table<64>(); table<512>(); table<1000>(); }
        }},
    });
}
