// One evaluation of the library, as a function of operation, format and operands.
#pragma once
#include <eirin/eirin.hpp>
#include <bit>
#include <cstdint>
#include <limits>
namespace rp {
template <typename T, typename I, unsigned f, bool r = false> using FX = eirin::fixed_num<T, I, f, r>;
template <typename F> struct fx;
template <typename T, typename I, unsigned f, bool r> struct fx<eirin::fixed_num<T, I, f, r>> { using type = T; static constexpr unsigned frac = f; static constexpr bool rnd = r; };
template <int i> struct fmt;
template <> struct fmt<4> { using t = FX<int16_t, int32_t, 8>; };
template <> struct fmt<6> { using t = eirin::fixed32; };
template <> struct fmt<8> { using t = FX<int32_t, int64_t, 20>; };
template <> struct fmt<11> { using t = eirin::fixed64; };
template <> struct fmt<17> { using t = FX<int32_t, int64_t, 16, true>; };
template <> struct fmt<18> { using t = FX<int64_t, __int128, 32, true>; };
template <typename F> constexpr uint64_t v(F const& x) { return (uint64_t)(int64_t)x.internal_value(); }
template <int op, typename F> constexpr uint64_t ev(int64_t a, int64_t b)
{
    using T = typename fx<F>::type;
    F x = F::from_internal_value((T)a), y = F::from_internal_value((T)b);
    if constexpr(op == 0) return v(x + y);
    if constexpr(op == 1) return v(x - y);
    if constexpr(op == 2) return v(x * y);
    if constexpr(op == 3) return v(x / y);
    if constexpr(op == 4) return v(x % y);
    if constexpr(op == 5) { auto o = x <=> y; return (uint64_t)(x == y) | (x < y) << 1 | (x <= y) << 2 | x.nearly_eq(y) << 3 | x.nearly_lt(y) << 4 | x.nearly_gt_eq(y) << 5 | (o < 0) << 6; }
    if constexpr(op == 6) return v(eirin::floor(x));
    if constexpr(op == 7) return v(eirin::ceil(x));
    if constexpr(op == 8) return v(eirin::trunc(x));
    if constexpr(op == 9) return v(eirin::round(x));
    if constexpr(op == 10)
        switch(b)
        {
        case 0: return v(typename fmt<4>::t(x)); case 1: return v(typename fmt<6>::t(x)); case 2: return v(typename fmt<8>::t(x));
        case 3: return v(typename fmt<11>::t(x)); case 4: return v(typename fmt<17>::t(x)); default: return v(typename fmt<18>::t(x));
        }
    if constexpr(op == 11) return std::bit_cast<uint64_t>(static_cast<double>(x));
    if constexpr(op == 12) return std::bit_cast<uint32_t>(static_cast<float>(x));
    if constexpr(op == 13) { double d = (double)a; for(; b < 0; ++b) d /= 2; for(; b > 0; --b) d *= 2; return v(F(d)); }
    if constexpr(op == 14) return (uint64_t)static_cast<int64_t>(x);
    if constexpr(op == 15) return v(x * (int32_t)b);
    if constexpr(op == 16) return v(x / (int32_t)b);
    if constexpr(op == 20) return v(eirin::sqrt(x));
    if constexpr(op == 21) return v(eirin::cbrt(x));
    if constexpr(op == 22) return v(eirin::sin(x));
    if constexpr(op == 23) return v(eirin::cos(x));
    if constexpr(op == 24) return v(eirin::tan(x));
    if constexpr(op == 25) return v(eirin::atan(x));
    if constexpr(op == 26) return v(eirin::asin(x));
    if constexpr(op == 27) return v(eirin::acos(x));
    if constexpr(op == 28) return v(eirin::log2(x));
    if constexpr(op == 29) return v(eirin::log(x));
    if constexpr(op == 30) return v(eirin::log10(x));
    if constexpr(op == 31) return v(eirin::exp(x));
    if constexpr(op == 32) return v(eirin::pow(x, (int)b));
    if constexpr(op == 33) return v(eirin::pow(x, y));
    if constexpr(op == 34) return v(eirin::fmod(x, y));
    if constexpr(op == 35 || op == 36)
    {
        if constexpr(sizeof(T) > 2) return op == 35 ? v(eirin::degrees(x)) : v(eirin::radians(x));
        else return 0;
    }
    if constexpr(op == 37) return v(eirin::hypot(x, y));
    return 0;
}
} // namespace rp
