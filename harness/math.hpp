// The mathematical functions of the library, judged by spec/fmath.qnt.
#pragma once
#include "val.hpp"
namespace h {
template <typename F> constexpr bool suits = tr<F>::sgd && tr<F>::frac >= 8 && tr<F>::bits - tr<F>::frac >= 4;
// every number of fraction bits
using MMORE = fmts<FX<i16, i32, 8>, FX<i16, i32, 9>, FX<i16, i32, 10>, FX<i16, i32, 11>, FX<i16, i32, 12>, FX<i32, i64, 8>, FX<i32, i64, 9>, FX<i32, i64, 10>, FX<i32, i64, 11>, FX<i32, i64, 12>, FX<i32, i64, 13>, FX<i32, i64, 14>, FX<i32, i64, 15>, FX<i32, i64, 16>, FX<i32, i64, 17>, FX<i32, i64, 18>, FX<i32, i64, 19>, FX<i32, i64, 20>, FX<i32, i64, 21>, FX<i32, i64, 22>, FX<i32, i64, 23>, FX<i32, i64, 24>, FX<i32, i64, 25>, FX<i32, i64, 26>, FX<i32, i64, 27>, FX<i32, i64, 28>, FX<i64, i128, 8>, FX<i64, i128, 9>, FX<i64, i128, 10>, FX<i64, i128, 11>, FX<i64, i128, 12>, FX<i64, i128, 13>, FX<i64, i128, 14>, FX<i64, i128, 15>, FX<i64, i128, 16>, FX<i64, i128, 17>, FX<i64, i128, 18>, FX<i64, i128, 19>, FX<i64, i128, 20>, FX<i64, i128, 21>, FX<i64, i128, 22>, FX<i64, i128, 23>, FX<i64, i128, 24>, FX<i64, i128, 25>, FX<i64, i128, 26>, FX<i64, i128, 27>, FX<i64, i128, 28>, FX<i64, i128, 29>, FX<i64, i128, 30>, FX<i64, i128, 31>, FX<i64, i128, 32>, FX<i64, i128, 33>, FX<i64, i128, 34>, FX<i64, i128, 35>, FX<i64, i128, 36>, FX<i64, i128, 37>, FX<i64, i128, 38>, FX<i64, i128, 39>, FX<i64, i128, 40>, FX<i64, i128, 41>, FX<i64, i128, 42>, FX<i64, i128, 43>, FX<i64, i128, 44>, FX<i64, i128, 45>, FX<i64, i128, 46>, FX<i64, i128, 47>, FX<i64, i128, 48>, FX<i16, i32, 9, true>, FX<i16, i32, 11, true>, FX<i16, i32, 12, true>, FX<i32, i64, 8, true>, FX<i32, i64, 11, true>, FX<i32, i64, 14, true>, FX<i32, i64, 17, true>, FX<i32, i64, 20, true>, FX<i32, i64, 23, true>, FX<i32, i64, 26, true>, FX<i64, i128, 8, true>, FX<i64, i128, 12, true>, FX<i64, i128, 16, true>, FX<i64, i128, 20, true>, FX<i64, i128, 24, true>, FX<i64, i128, 28, true>, FX<i64, i128, 32, true>, FX<i64, i128, 36, true>, FX<i64, i128, 40, true>, FX<i64, i128, 44, true>, FX<i64, i128, 48, true>>;
using MATH = fmts<FX<i16, i32, 8>, F32, FX<i32, i64, 8>, FX<i32, i64, 20>, FX<i32, i64, 28>, F64, FX<i64, i128, 16>, FX<i64, i128, 40>, FX<i16, i32, 8, true>, FX<i32, i64, 16, true>, FX<i64, i128, 32, true>>;
template <typename Fn> void math_formats(Fn fn)
{
    each(MATH{}, fn);
    scale = 12; each(MMORE{}, fn); scale = 1;
}
// unsigned formats, for the functions without negative results or intermediate values
using UNS = fmts<FX<u16, u32, 8>, FX<u32, u64, 16>, FX<u64, u128, 32>, FX<u32, u64, 16, true>, FX<u16, u32, 10>, FX<u32, u64, 24>, FX<u32, u64, 8>, FX<u64, u128, 16>, FX<u64, u128, 48>, FX<u64, u128, 32, true>>;
template <typename Fn> void unsigned_formats(Fn fn) { scale = 4; each(UNS{}, fn); scale = 1; }
struct Out { bool thrown; Int r; };
template <typename F, typename Fn> Out call(Fn fn)
{
    try { return {false, rv((F)fn())}; }
    catch(std::domain_error&) { return {true, 0}; }
}
#define CALL(F, e) call<F>([&]() -> F { return e; })
// one function, on raw arguments, judged; returns the outcome
template <typename F> Out apply(std::string_view op, T_<F> x, T_<F> y = 0, T_<F> z = 0)
{
    auto& Fm = tr<F>::fmt();
    F a = raw<F>(x), b = raw<F>(y), c = raw<F>(z);
    Out o{};
    Int X = x, Y = y, Z = z;
    announce(op.data(), tr<F>::bits, tr<F>::frac, tr<F>::rnd, x, y, z);
    seen(tr<F>::key() ^ mix((u64)x + mix((u64)y)) ^ hash_name(op.data()));
#define ONE(name, expr, ...) if(op == name) { o = CALL(F, (expr)); __VA_ARGS__; return o; }
    ONE("sqrt", eirin::sqrt(a), J(sqrtOk, Fm, X, o.r))
    ONE("hypot", eirin::hypot(a, b), J(hypotOk, Fm, IntL{X, Y}, o.r))
    ONE("hypot3", eirin::hypot(a, b, c), J(hypotOk, Fm, IntL{X, Y, Z}, o.r))
    ONE("cbrt", eirin::cbrt(a), J(cbrtOk, Fm, X, o.r))
    ONE("sin", eirin::sin(a), J(sinOk, Fm, X, o.r))
    ONE("cos", eirin::cos(a), J(cosOk, Fm, X, o.r))
    ONE("tan", eirin::tan(a), J(tanOk, Fm, X, o.thrown, o.r))
    ONE("atan", eirin::atan(a), J(atanOk, Fm, X, o.r))
    ONE("asin", eirin::asin(a), J(asinOk, Fm, X, o.thrown, o.r))
    ONE("acos", eirin::acos(a), J(acosOk, Fm, X, o.thrown, o.r))
    ONE("log2", eirin::log2(a), J(log2Ok, Fm, X, o.thrown, o.r))
    ONE("log", eirin::log(a), J(lnOk, Fm, X, o.thrown, o.r))
    ONE("log10", eirin::log10(a), J(log10Ok, Fm, X, o.thrown, o.r))
    ONE("exp", eirin::exp(a), J(expOk, Fm, X, o.r))
    ONE("powf", eirin::pow(a, b), J(powFOk, Fm, X, Y, o.thrown, o.r))
    ONE("fmod", eirin::fmod(a, b), J(fmodOk, Fm, X, Y, o.r))
    if constexpr(((Int)180 << tr<F>::frac) <= (Int)std::numeric_limits<T_<F>>::max())
    {
        ONE("degrees", eirin::degrees(a), J(degOk, Fm, X, o.r))
        ONE("radians", eirin::radians(a), J(radOk, Fm, X, o.r))
    }
#undef ONE
    return o;
}
// integral exponents of any type
template <typename F, typename E> Out apply_powi(T_<F> x, E e)
{
    announce("powi", tr<F>::bits, tr<F>::frac, tr<F>::rnd, x, e);
    seen(tr<F>::key() ^ mix((u64)x + mix((u64)e)));
    Out o = CALL(F, eirin::pow(raw<F>(x), e));
    J(powIOk, tr<F>::fmt(), (Int)x, (Int)e, o.r);
    return o;
}
// behaviours of the specification: the outcome must be what the machine allows
inline void replay_math()
{
    auto ts = load_traces(TRACES);
    for(size_t n = W; n < ts.size(); n += NW)
        for(auto& s : ts[n])
        {
            if(s.op == "init" || s.op == "set") continue;
            with_format(ALL{}, s.a.at(0), [&]<typename F>() {
                if constexpr(suits<F>)
                {
                    using T = T_<F>;
                    T x = (T)s.a.at(1), y = s.a.size() > 2 ? (T)s.a[2] : 0;
                    Out o = s.op == "powi" ? apply_powi<F>(x, (int)s.a[2]) : apply<F>(s.op, x, y);
                    me->steps.fetch_add(1, std::memory_order_relaxed);
                    bool ok = s.r.empty() ? o.thrown : !o.thrown && s.r[0] <= o.r && o.r <= s.r[1];
                    if(!ok) violation("behaviour " + std::to_string(n) + " of the specification not followed by " + tr<F>::name() + ": " + show_step(s) + ", got " + (o.thrown ? "a domain error" : show(o.r)));
                }
            });
        }
}
// random raw value with |x| < 2^k
template <typename F> T_<F> small(Rng& g, int k) { Int m = (Int)1 << k; return (T_<F>)((Int)g.below((u64)(2 * m - 1)) - m + 1); }
// every 16-bit value, edges and random values of wider formats
template <typename F> void each_op(std::vector<const char*> ops, uint64_t n, T_<F> skip_lo = 0)
{
    auto g = rng("each_op");
    values<F>(g, n, [&](T_<F> v) { for(auto op : ops) apply<F>(op, v); });
}
// an interval of raw values, completely if it is short enough
template <typename F, typename Fn> void sweep(Int lo, Int hi, uint64_t n, Fn fn)
{
    n /= scale;
    Int step = (hi - lo) / (Int)n; if(step < 1) step = 1; else step |= 1;
    auto g = rng("sweep");
    shard(lo, hi, [&](Int v) { Int x = step == 1 ? v : std::min(hi, v + (Int)g.below((u64)step)); fn((T_<F>)x); }, step);
}
} // namespace h
