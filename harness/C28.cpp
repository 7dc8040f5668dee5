#include "val.hpp"
#include <cpuid.h>
#include <unistd.h>
#include <sys/wait.h>
// processors with other features: what the library asks the processor goes through a stand-in, which answers truly unless told otherwise
static struct { bool on; unsigned asked, edx, ecx, ebx; } CPU;
static void cpu_real(unsigned l, unsigned s, unsigned& a, unsigned& b, unsigned& c, unsigned& d) { __cpuid_count(l, s, a, b, c, d); }
template <class A, class B, class C, class D> void cpu_ask(unsigned l, unsigned s, A& a, B& b, C& c, D& d)
{
    unsigned ra, rb, rc, rd; cpu_real(l, s, ra, rb, rc, rd);
    if(CPU.on && l == 0 && ra < 7) ra = 7;
    if(CPU.on && l == 1) { CPU.asked |= 1; rc = CPU.ecx; rd = CPU.edx; }
    if(CPU.on && l == 7 && s == 0) { CPU.asked |= 2; rb = CPU.ebx; }
    a = (A)ra; b = (B)rb; c = (C)rc; d = (D)rd;
}
template <class A> int cpu_get(unsigned l, unsigned s, A* a, A* b, A* c, A* d) { cpu_ask(l, s, *a, *b, *c, *d); return 1; }
#undef __cpuid
#undef __cpuid_count
#define __cpuid(l, a, b, c, d) cpu_ask(l, 0, a, b, c, d)
#define __cpuid_count(l, s, a, b, c, d) cpu_ask(l, s, a, b, c, d)
#define __get_cpuid(l, a, b, c, d) cpu_get(l, 0, a, b, c, d)
#define __get_cpuid_count(l, s, a, b, c, d) cpu_get(l, s, a, b, c, d)
#include <eirin/ext/simd_math.hpp>
using namespace h;
template <size_t N> void lanes(std::array<i64, N> v)
{
    announce(N == 4 ? "simd_reduce_angle" : "simd_reduce_angle_2", v[0], v[1], v[N - 2], v[N - 1]);
    seen(mix((u64)v[0]) ^ mix((u64)v[1] * 3) ^ N);
    std::array<F64, N> x;
    for(size_t i = 0; i < N; ++i) x[i] = raw<F64>(v[i]);
    IntL a, r;
    if constexpr(N == 4) { auto y = eirin::simd::simd_reduce_angle(x); for(auto& q : y) r.push_back(rv(q)); }
    else { auto y = eirin::simd::simd_reduce_angle_2(x); for(auto& q : y) r.push_back(rv(q)); }
    for(auto q : v) a.push_back(q);
    J(reduceOk, a, r);
}
static i64 angle(Rng& g)
{
    constexpr Int T = 26986075408;
    switch(g.below(4))
    {
    case 0: { Int k = (Int)(i64)(g() >> (36 + g.below(27))); Int x = k * T + (Int)g.below(5) - 2; if(x > (Int)INT64_MAX) x = T; return (i64)(g.flip() ? x : -x); }
    case 1: { auto& e = edges<F64>(); return e[g.below(e.size())]; }
    default: return pick<F64>(g);
    }
}
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] {
            auto ts = load_traces(TRACES);
            for(size_t n = W; n < ts.size(); n += NW)
                for(auto& s : ts[n])
                    if(s.op == "reduce")
                    {
                        me->steps.fetch_add(1, std::memory_order_relaxed);
                        if(s.a.size() == 4) lanes<4>({(i64)s.a[0], (i64)s.a[1], (i64)s.a[2], (i64)s.a[3]});
                        else lanes<2>({(i64)s.a[0], (i64)s.a[1]});
                    }
        }},
        {"random", [] {
            auto g = rng("random");
            for(uint64_t i = count(16000000, 400000000); i--;)
            {
                i64 a = angle(g), b = angle(g), c = angle(g), d = angle(g);
                lanes<4>({a, b, c, d}); lanes<2>({a, b});
                if(i % 8 == 0) { lanes<4>({a, a, a, a}); lanes<4>({0, b, 0, -(b + 1)}); lanes<2>({0, b}); lanes<2>({b, 0}); }
            }
        }},
        {"processors", [] {
            auto g = rng("processors");
            using P = eirin::simd::platform_support;
            for(uint64_t i = count(400, 8000); i--;)
            {
                unsigned v[3]; for(auto& x : v) x = (unsigned)g();
                if(g.below(3) == 0) { for(auto& x : v) x = 0; v[g.below(3)] = 1u << g.below(32); }
                else if(g.flip()) { for(auto& x : v) x = ~0u; v[g.below(3)] = ~(1u << g.below(32)); }
                announce("features", v[0], v[1], v[2]);
                int p[2]; if(pipe(p)) spec::fail("pipe");
                pid_t q = fork();
                if(q == 0)
                {
                    CPU = {true, 0, v[0], v[1], v[2]};
                    unsigned char r[7] = {};
                    for(int k = 0, k0 = (int)(i % 6); k < 6; ++k) switch((k + k0) % 6)
                    {
                    case 0: r[0] = P::supports_sse2(); break;
                    case 1: r[1] = P::supports_sse4_2(); break;
                    case 2: r[2] = P::supports_avx(); break;
                    case 3: r[3] = P::supports_avx2(); break;
                    case 4: r[4] = P::supports_avx512_f(); break;
                    default: r[5] = P::supports_avx512_dq();
                    }
                    r[6] = (unsigned char)CPU.asked;
                    _exit(write(p[1], r, 7) == 7 ? 0 : 1);
                }
                unsigned char r[7] = {}; close(p[1]);
                bool got = q > 0 && read(p[0], r, 7) == 7; close(p[0]);
                int st = 0; if(q > 0) waitpid(q, &st, 0);
                if(!got) { if(q > 0 && WIFSIGNALED(st)) violation("the detection of the processor's features crashed"); else spec::fail("child"); continue; }
                // what was not asked through the stand-in is the real processor's
                unsigned a, b, c, d, a7, b7, c7, d7; cpu_real(1, 0, a, b, c, d); cpu_real(7, 0, a7, b7, c7, d7);
                seen(mix(v[0]) ^ mix(v[1] * 3ull) ^ mix(v[2] * 5ull));
                J(featuresOk, (Int)(r[6] & 1 ? v[0] : d), (Int)(r[6] & 1 ? v[1] : c), (Int)(r[6] & 2 ? v[2] : b7), (IntL{r[0], r[1], r[2], r[3], r[4], r[5]}));
            }
        }},
        {"features", [] {
            unsigned a, b, c, d, a7, b7 = 0, c7, d7;
            __cpuid(1, a, b, c, d);
            __cpuid_count(7, 0, a7, b7, c7, d7);
            using P = eirin::simd::platform_support;
            for(int i = 0; i < 3; ++i) J(featuresOk, (Int)d, (Int)c, (Int)b7, (IntL{P::supports_sse2(), P::supports_sse4_2(), P::supports_avx(), P::supports_avx2(), P::supports_avx512_f(), P::supports_avx512_dq()}));
        }},
    });
}
