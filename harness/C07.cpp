#include "val.hpp"
using namespace h;
template <typename F, typename N> void to_int(T_<F> v)
{
    auto& Fm = tr<F>::fmt();
    Int q = spec::toIntX_(Fm, v);
    if(q < (Int)std::numeric_limits<N>::min() || q > (Int)std::numeric_limits<N>::max()) return;
    announce("to integer", v, sizeof(N));
    J(toIntOk, Fm, (Int)v, (Int)(N)raw<F>(v));
}
template <typename F, typename N> void from_int(N n)
{
    auto& Fm = tr<F>::fmt();
    if(!spec::fromIntDef_(Fm, (Int)n)) return;
    announce("from integer", n, sizeof(N));
    seen(tr<F>::key() ^ mix((u64)n) ^ sizeof(N));
    J(fromIntOk, Fm, (Int)n, rv(F(n)));
    // the numeric literal
    if constexpr(std::is_same_v<F, F32> && std::is_unsigned_v<N>) J(fromIntOk, Fm, (Int)n, rv(eirin::operator""_f32((unsigned long long)n)));
}
template <typename F, typename D> void to_real(T_<F> v)
{
    announce("to floating point", v, bits_of<D>);
    J(toRealOk, (Int)bits_of<D>, (Int)v, scaled<D>((D)raw<F>(v), tr<F>::frac));
}
template <typename F, typename D> void from_real(D x)
{
    auto& Fm = tr<F>::fmt();
    if(!std::isfinite(x)) return;
    int e; D m = std::frexp(x, &e);
    constexpr int p = bits_of<D>;
    Int M = (Int)std::ldexp(m, p); e -= p;
    if(M == 0) e = 0;
    while(M != 0 && M % 2 == 0) { M /= 2; ++e; }
    if(!spec::fromRealDef_(Fm, M, e)) return;
    announce("from floating point", (i64)M, e, p);
    seen(tr<F>::key() ^ mix((u64)M) ^ mix(e * 64 + p));
    J(fromRealOk, Fm, M, (Int)e, rv(F(x)));
    if constexpr(std::is_same_v<F, F32> && std::is_same_v<D, long double>) J(fromRealOk, Fm, M, (Int)e, rv(eirin::operator""_f32(x)));
}
template <typename F, typename D> void reals(Rng& g, uint64_t n)
{
    for(uint64_t i = 0; i < n; ++i)
    {
        D x;
        switch(g.below(5))
        {
        case 0: x = std::ldexp((D)(i64)pick<F>(g), -tr<F>::frac); break;                               // representable
        case 1: x = std::ldexp((D)((i64)pick<F>(g)) + (D)0.5 * (D)(int)(g.below(3)) - (D)0.5, -tr<F>::frac); break; // between two
        case 2: x = std::ldexp((D)(i64)(g() >> g.below(60)), (int)g.below(80) - 70); break;
        case 3: x = std::nextafter(std::ldexp((D)(i64)pick<F>(g) + (D)0.5, -tr<F>::frac), g.flip() ? (D)1e9 : (D)-1e9); break;
        default: x = std::ldexp((D)(i64)(g() >> 11), (int)g.below(70) - 100); break;
        }
        from_real<F, D>(g.flip() ? x : -x);
    }
    for(D x : {(D)0, -(D)0, (D)0.5, (D)-0.5, (D)1, (D)-1, (D)0.1, (D)-0.1, std::numeric_limits<D>::min(), std::numeric_limits<D>::denorm_min()}) from_real<F, D>(x);
}
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] {
            auto ts = load_traces(TRACES);
            for(size_t n = W; n < ts.size(); n += NW)
                for(auto& s : ts[n])
                    with_format(ALL{}, s.a.at(0), [&]<typename F>() {
                        if(s.a.size() < 2) return;
                        F a = raw<F>((T_<F>)s.a[1]);
                        announce("replay", n);
                        if(s.op == "toint") expect<F>(s, {(Int)(i64)a}, n);
                        if(s.op == "tofloat") expect<F>(s, {scaled<float>((float)a, tr<F>::frac)}, n);
                        if(s.op == "todouble") expect<F>(s, {scaled<double>((double)a, tr<F>::frac)}, n);
                        if(s.op == "fromint") expect<F>(s, {rv(F((int)s.a[1]))}, n);
                        if(s.op == "fromdouble") expect<F>(s, {rv(F(std::ldexp((double)s.a[1], (int)s.a[2])))}, n);
                    });
        }},
        {"to", [] { every([]<typename F>() {
            auto g = rng("to");
            values<F>(g, count(600000, 30000000), [&](T_<F> v) {
                seen(tr<F>::key() ^ mix((u64)v));
                to_int<F, i8>(v); to_int<F, u8>(v); to_int<F, i16>(v); to_int<F, u16>(v);
                to_int<F, i32>(v); to_int<F, u32>(v); to_int<F, i64>(v); to_int<F, u64>(v);
                to_real<F, float>(v); to_real<F, double>(v); to_real<F, long double>(v);
            });
        }); }},
        {"from", [] { every([]<typename F>() {
            auto g = rng("from");
            shard(-128, 127, [&](Int v) { from_int<F, i8>((i8)v); from_int<F, u8>((u8)v); from_int<F, char>((char)v); });
            shard(-32768, 32767, [&](Int v) { from_int<F, i16>((i16)v); from_int<F, u16>((u16)v); });
            from_int<F, bool>(true); from_int<F, bool>(false);
            for(uint64_t i = count(400000, 20000000); i; --i)
            {
                u64 x = g() >> g.below(64);
                from_int<F, i32>((i32)x); from_int<F, u32>((u32)x); from_int<F, i64>((i64)x); from_int<F, u64>(x); from_int<F, long long>((long long)-x);
            }
            auto n = count(800000, 40000000);
            reals<F, float>(g, n); reals<F, double>(g, n); reals<F, long double>(g, n);
        }); }},
    });
}
