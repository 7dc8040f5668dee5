// compiled once per build configuration
#include "repro.hpp"
#include <eirin/random.hpp>
#include <eirin/ext/cordic.hpp>
#include <eirin/io/format.hpp>
#include <eirin/io/parse.hpp>
#include <format>
#include <sstream>
#include <stdexcept>
using namespace rp;
static uint64_t hash(std::string const& s) { uint64_t h = 1469598103934665603ull; for(unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
template <typename F> uint64_t other(int op, int64_t a, int64_t b)
{
    using T = typename fx<F>::type;
    F x = F::from_internal_value((T)a);
    if(op == 40) { std::ostringstream o; o << x << ' ' << std::hex << x; return hash(o.str()); }
    if(op == 41) { std::ostringstream o; o << x; F y{}; bool ok = eirin::fixed_from_cstring(o.str().c_str(), o.str().size(), y); std::istringstream i(o.str()); F z{}; i >> z; return v(y) ^ v(z) << 1 ^ (uint64_t)ok << 63; }
    if(op == 42)
        switch(b)
        {
        case 0: return hash(std::format("{}", x)); case 1: return hash(std::format("{:.3f}", x)); case 2: return hash(std::format("{:+012.2F}", x)); case 3: return hash(std::format("{:#x}", x));
        case 4: return hash(std::format("{:*^30g}", x)); case 5: return hash(std::format("{:b}", x)); case 6: return hash(std::format("{:.0f}", x)); default: return hash(std::format("{:<20.12f}|", x));
        }
    if(op == 43) { eirin::pcg2014 e((uint32_t)a); for(int i = 0; i < b; ++i) (void)e(); return e(); }
    if(op == 44) { eirin::pcg2014_64 e((uint64_t)a); e.discard((unsigned long long)b); uint64_t r = e(); if constexpr(std::is_same_v<F, eirin::fixed32>) r ^= v(eirin::cordic_sine(eirin::fixed32::from_internal_value((int32_t)(uint32_t)a))); return r; }
    return 0;
}
template <typename F> uint64_t one(int op, int64_t a, int64_t b)
{
    switch(op)
    {
#define C(n) case n: return ev<n, F>(a, b);
    C(0) C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11) C(12) C(13) C(14) C(15) C(16)
    C(20) C(21) C(22) C(23) C(24) C(25) C(26) C(27) C(28) C(29) C(30) C(31) C(32) C(33) C(34) C(35) C(36) C(37)
    default: return other<F>(op, a, b);
    }
}
extern "C" __attribute__((visibility("default"))) uint64_t repro_eval(int op, int f, int64_t a, int64_t b)
{
#if __cpp_exceptions
    try
#endif
    {
        switch(f)
        {
        case 4: return one<fmt<4>::t>(op, a, b); case 6: return one<fmt<6>::t>(op, a, b); case 8: return one<fmt<8>::t>(op, a, b);
        case 11: return one<fmt<11>::t>(op, a, b); case 17: return one<fmt<17>::t>(op, a, b); default: return one<fmt<18>::t>(op, a, b);
        }
    }
#if __cpp_exceptions
    catch(std::domain_error&) { return 0xD0D0D0D0D0D0D0D0ull; }
#endif
}
