// Run time of the compiled Quint specification (tools/q2cpp.py).
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <vector>
namespace spec {
#ifdef SPEC_WIDE
using Int = _BitInt(512);  // clang only; see DESIGN.md
#else
using Int = __int128;
#endif
struct model_error : std::runtime_error { using std::runtime_error::runtime_error; };
[[noreturn, gnu::noinline, gnu::cold]] inline void fail(const char* w) { throw model_error(w); }
template <typename E> struct Lst : std::vector<E> { using std::vector<E>::vector; };

inline Int qadd(Int a, Int b) { Int r; if(__builtin_expect(__builtin_add_overflow(a, b, &r), 0)) fail("add overflow"); return r; }
inline Int qsub(Int a, Int b) { Int r; if(__builtin_expect(__builtin_sub_overflow(a, b, &r), 0)) fail("sub overflow"); return r; }
inline Int qmul(Int a, Int b)
{
    // the common case without the 128 bit overflow test
    if((int64_t)a == a && (int64_t)b == b) return (Int)(int64_t)a * (int64_t)b;
    Int r; if(__builtin_expect(__builtin_mul_overflow(a, b, &r), 0)) fail("mul overflow"); return r;
}
inline Int qneg(Int a) { return qsub(0, a); }
inline Int qdiv(Int a, Int b)
{
    if(a < 0 || b <= 0) fail("division outside the specified domain");
    if((uint64_t)a == a && (uint64_t)b == b) return (Int)((uint64_t)a / (uint64_t)b);
    return a / b;
}
inline Int qmod(Int a, Int b)
{
    if(a < 0 || b <= 0) fail("modulo outside the specified domain");
    if((uint64_t)a == a && (uint64_t)b == b) return (Int)((uint64_t)a % (uint64_t)b);
    return a % b;
}
inline constexpr int int_bits = sizeof(Int) * 8;
inline Int qp2(int k) { if(k < 0 || k > int_bits - 2) fail("power out of range"); return (Int)1 << k; }
inline Int qshr(Int a, int k) { if(a < 0 || k < 0) fail("division outside the specified domain"); return k >= int_bits - 1 ? 0 : a >> k; }
inline Int qmask(Int a, int k) { if(a < 0) fail("modulo outside the specified domain"); return a & (qp2(k) - 1); }
inline Int qfshr(Int a, int k) { if(k < 0) fail("division outside the specified domain"); return k >= int_bits - 1 ? (a < 0 ? -1 : 0) : a >> k; }
inline Int qfmask(Int a, int k) { return a & (qp2(k) - 1); }
inline Int qpow(Int a, Int b) { if(b < 0) fail("negative power"); Int r = 1; for(Int i = 0; i < b; i = i + 1) r = qmul(r, a); return r; }
template <typename L> auto const& qnth(L const& l, Int i) { if(i < 0 || i >= (Int)l.size()) fail("list index"); return l[(size_t)i]; }
template <typename L, typename E> L qappend(L l, E e) { l.push_back(std::move(e)); return l; }
template <typename L> L qconcat(L l, L const& m) { l.insert(l.end(), m.begin(), m.end()); return l; }
template <typename L> L qslice(L const& l, Int a, Int b) { if(a < 0 || b > (Int)l.size() || a > b) fail("slice"); L r; r.assign(l.begin() + (size_t)a, l.begin() + (size_t)b); return r; }
template <typename L, typename E> L qreplace(L l, Int i, E e) { if(i < 0 || i >= (Int)l.size()) fail("list index"); l[(size_t)i] = std::move(e); return l; }
inline Int lit(const char* s) { bool n = *s == '-'; if(n) ++s; Int v = 0; for(; *s; ++s) v = qadd(qmul(v, 10), *s - '0'); return n ? -v : v; }
inline std::string show(Int v)
{
    if(v == 0) return "0";
    bool n = v < 0; std::string s;
    while(v != 0) { int d = (int)(v % 10); if(d < 0) d = -d; s += char('0' + d); v /= 10; }
    if(n) s += '-';
    std::reverse(s.begin(), s.end());
    return s;
}
inline std::string show(bool b) { return b ? "true" : "false"; }
template <typename E> std::string show(Lst<E> const& l) { std::string s = "["; for(size_t i = 0; i < l.size(); ++i) s += (i ? ", " : "") + show(l[i]); return s + "]"; }
} // namespace spec
