#include "val.hpp"
#include <eirin/ext/cordic.hpp>
using namespace h;
template <typename F> Int one(T_<F> v)
{
    announce("cordic_sine", tr<F>::bits, v);
    seen(tr<F>::key() ^ mix((u64)v));
    Int r = rv(eirin::cordic_sine(raw<F>(v)));
    J(cordicOk, tr<F>::fmt(), (Int)v, r);
    return r;
}
template <typename F> void go()
{
    auto g = rng("go");
    Int u = (Int)1 << tr<F>::frac, max = std::numeric_limits<T_<F>>::max();
    values<F>(g, count(2000000, 100000000), [](T_<F> v) { one<F>(v); });
    Int n = THOROUGH ? 200000000 : 4000000, step = std::max<Int>(1, 28 * u / n);
    shard(-14 * u, 14 * u, [](Int v) { one<F>((T_<F>)v); }, step);
    long double e = std::ldexp(0.785398163397448309615L, tr<F>::frac);
    for(uint64_t i = count(1000000, 20000000); i--;)
    {
        long double t = (i % 4 ? (long double)g.below(64) : (long double)(g() >> (g.below(60) + 4))) * e;
        if(!(t < (long double)max - 100)) continue;
        Int x = (Int)t + (Int)g.below(9) - 4;
        if(x <= max) one<F>((T_<F>)(g.flip() ? x : -x));
    }
}
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] {
            auto ts = load_traces(TRACES);
            for(size_t n = W; n < ts.size(); n += NW)
                for(auto& s : ts[n])
                    if(s.op == "cordic")
                    {
                        Int r = s.a[0] == 6 ? one<F32>((i32)s.a[1]) : one<F64>((i64)s.a[1]);
                        me->steps.fetch_add(1, std::memory_order_relaxed);
                        if(r < s.r[0] || r > s.r[1]) violation("behaviour " + std::to_string(n) + " of the specification not followed: " + show_step(s) + ", got " + show(r));
                    }
        }},
        {"fixed32", [] { go<F32>(); }},
        {"fixed64", [] { go<F64>(); }},
        {"all", [] { if(THOROUGH) shard(std::numeric_limits<i32>::min(), std::numeric_limits<i32>::max(), [](Int v) { one<F32>((i32)v); }); }},
    });
}
