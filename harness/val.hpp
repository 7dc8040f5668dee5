// Comparisons, rounding, decomposition and conversions on real numbers.
#pragma once
#include "formats.hpp"
namespace h {
template <typename F> IntL cmp_of(F const& a, F const& b)
{
    auto o = a <=> b;
    return {a == b, a != b, a < b, a <= b, a > b, a >= b, o == 0 ? 0 : o < 0 ? -1 : 1};
}
template <typename F> IntL near_of(F const& a, F const& b)
{
    return {a.nearly_eq(b), a.nearly_ne(b), a.nearly_gt(b), a.nearly_lt(b), a.nearly_gt_eq(b), a.nearly_lt_eq(b)};
}
template <typename F> F rnd_of(int op, F a)
{
    switch(op) { case 0: return eirin::floor(a); case 1: return eirin::ceil(a); case 2: return eirin::trunc(a); default: return eirin::round(a); }
}
template <typename F> IntL part_of(F const& a) { return {(Int)signbit(a), (Int)a.integral_part(), (Int)a.fractional_part()}; }
// x * 2^f as an integer; a marker if it is none
template <typename D> Int scaled(D x, int f)
{
    D y = std::ldexp(x, f);
    if(!(y == std::floor(y)) || !(std::fabs(y) < std::ldexp(D(1), 126))) return -((Int)1 << 126);
    return (Int)y;
}
template <typename D> constexpr int bits_of = std::numeric_limits<D>::digits;
inline std::vector<Int> vec(IntL l) { return {l.begin(), l.end()}; }

template <typename F> void expect(Step const& s, std::vector<Int> got, size_t n)
{
    me->steps.fetch_add(1, std::memory_order_relaxed);
    if(got != s.r) violation("behaviour " + std::to_string(n) + " of the specification not followed by " + tr<F>::name() + ": " + show_step(s) + ", got " + show_vec(got));
}
// every value of the narrow formats, edges and random values of the others
template <typename F, typename Fn> void values(Rng& g, uint64_t n, Fn fn)
{
    using T = T_<F>;
    if constexpr(sizeof(T) <= 2)
        shard(std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), [&](Int v) { fn((T)v); });
    else
    {
        auto& e = edges<F>();
        for(size_t i = W; i < e.size(); i += NW) fn(e[i]);
        auto& d = dict<F>();
        for(size_t i = W; i < d.size(); i += NW) fn(d[i]);
        for(uint64_t i = 0; i < n; ++i) fn(pick<F>(g));
        // near multiples of a half unit
        for(uint64_t i = 0; i < n / 4; ++i)
        {
            Int h = (Int)1 << (tr<F>::frac - 1);
            Int v = (Int)pick<F>(g); v = v / h * h + (Int)g.below(5) - 2;
            if(v >= (Int)std::numeric_limits<T>::min() && v <= (Int)std::numeric_limits<T>::max()) fn((T)v);
        }
    }
}
} // namespace h
