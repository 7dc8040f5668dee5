FX='include/eirin/fixed.hpp'; MA='include/eirin/math.hpp'; NU='include/eirin/numbers.hpp'; CO='include/eirin/ext/cordic.hpp'; SI='include/eirin/ext/simd_math.hpp'
RA='include/eirin/random.hpp'; DI='include/eirin/detail/distribution.hpp'; FO='include/eirin/io/format.hpp'; UT='include/eirin/detail/util.hpp'; PE='include/eirin/detail/perf.hpp'; BI='include/eirin/ext/builtin_ints.hpp'
H='#include <eirin/eirin.hpp>\n#include <cstdio>\n#include <cmath>\n#include <sstream>\n#include <thread>\n#include <vector>\n#include <string>\nusing namespace eirin;\n#define CHECK(c) do { if(!(c)) { printf("failed: %s\\n", #c); return 1; } } while(0)\n'
seed('s76_cpubit', 'C28', 'a processor without AVX whose operating system saves extended state (bit 27 set, bit 28 clear)', 'AVX is read from the bit beside it',
 [(SI, '''        features_flag.set(2, (ecx & (1 << 28)) != 0);
        __cpuid_count(7''', '''        features_flag.set(2, (ecx & (1 << 27)) != 0);
        __cpuid_count(7''')],
 '''#include <cpuid.h>
#undef __cpuid
#undef __cpuid_count
#define __cpuid(l, a, b, c, d) (a = b = d = 0, c = 1u << 27)
#define __cpuid_count(l, s, a, b, c, d) (a = b = c = d = 0)
#include <eirin/eirin.hpp>
#include <eirin/ext/simd_math.hpp>
int main() { return eirin::simd::platform_support::supports_avx() ? 1 : 0; }''', '-O1 -mavx2')
seed('s77_hypotskip', 'C10', 'two sides whose lengths differ by a factor of more than 256', 'the hypotenuse ignores a side much shorter than the other',
 [(MA, '    return sqrt(x * x + y * y);', '    return abs(y) < abs(x) / 256 ? abs(x) : sqrt(x * x + y * y);')],
 H+'int main() { CHECK(std::abs((double)hypot(fixed64(1000), fixed64(3.8)) - std::hypot(1000.0, 3.8)) < 1e-3); CHECK(std::abs((double)hypot(fixed64(3), fixed64(4)) - 5) < 1e-4); }')
seed('s78_cbrtsmall', 'C11', 'a number between one and eight times epsilon()', 'the cube root of small numbers is zero',
 [(MA, 'if(fp == fixed(0) || (fp < fixed::epsilon() && fp > -fixed::epsilon()))', 'const auto small = fixed::epsilon() * 8;\n    if(fp == fixed(0) || (fp < small && fp > -small))')],
 H+'int main() { CHECK(std::abs((double)cbrt(fixed64(0.0004)) - std::cbrt(0.0004)) < 1e-3); CHECK(std::abs((double)cbrt(fixed64(8)) - 2) < 1e-6); }')
seed('s79_logbits', 'C14', 'a format with more than 32 fraction bits', 'the logarithm stops after 32 bits of the fraction',
 [(MA, 'for(size_t i = 0; i < f; ++i)\n    {\n        z =', 'for(size_t i = 0; i < (f < 32 ? f : 32); ++i)\n    {\n        z =')],
 H+'int main() { using F = fixed_num<int64_t, __int128, 48, false>; CHECK(std::abs((double)log2(F(3)) - std::log2(3.0)) < 1e-12); CHECK(log2(fixed64(8)) == fixed64(3)); }')
seed('s81_powlog', 'C16', 'a negative base with a whole fixed-point exponent', 'the logarithm of the base is taken before it is known to be needed',
 [(MA, '    e -= e_int;\n    if(e == fixed(0))\n        return pow(b, e_int);\n\n    return pow(b, e_int) * exp(e * log(b));', '    e -= e_int;\n    const auto log_b = log(b);\n    if(e == fixed(0))\n        return pow(b, e_int);\n\n    return pow(b, e_int) * exp(e * log_b);')],
 H+'int main() { try { CHECK(pow(fixed64(-2), fixed64(3)) == fixed64(-8)); } catch(...) { return 1; } CHECK(pow(fixed64(2), fixed64(3)) == fixed64(8)); }')
seed('s83_ostrupper', 'C21', 'hexadecimal, upper case and a fraction with a digit above nine', 'the fraction is written with lower case digits',
 [(FX, '                put_char(digits[digit]);\n                value %= divisor;', '                put_char(static_cast<char>(digit < 10 ? \'0\' + digit : \'a\' + (digit - 10)));\n                value %= divisor;')],
 H+'int main() { std::ostringstream o; o << std::hex << std::uppercase << fixed32(10.625); CHECK(o.str() == "A.A"); std::ostringstream p; p << std::hex << fixed32(10.625); CHECK(p.str() == "a.a"); }')
seed('s84_distcache', 'C24', 'a draw with parameters that share the lower bound of the distribution', 'such a draw uses the bounds of the distribution',
 [(DI, '''    FixedType operator()(_UniformRandomBitGenerator& g, const param_type& param)
    {
        auto raw_val = m_dist(g, param.to_underlying());''', '''    FixedType operator()(_UniformRandomBitGenerator& g, const param_type& param)
    {
        // the bounds in use need no conversion.
        auto raw_val = param.a() == m_param.a() ? m_dist(g) : m_dist(g, param.to_underlying());''')],
 H+'#include <random>\n#include <eirin/random.hpp>\n#include <eirin/detail/distribution.hpp>\nint main() { using D = fixed_int_distribution_adapter<fixed32, std::uniform_int_distribution<int>>; std::mt19937 g; D d(fixed32(0), fixed32(100)); for(int i = 0; i < 100; ++i) { auto x = d(g, D::param_type(fixed32(0), fixed32(1))); CHECK(x >= fixed32(0) && x <= fixed32(1)); } }')
seed('s85_rngflags', 'C23', 'writing an engine to a stream in another base, and a number behind it', 'writing an engine leaves the stream in decimal',
 [(RA, '''        os << obj.m_seed << os.widen(' ') << obj.m_state;
        os.flags(flags);''', '''        os << obj.m_seed << os.widen(' ') << obj.m_state;
        os.flags(os.flags() | (flags & ~std::ios_base::basefield));''')],
 H+'#include <eirin/random.hpp>\nint main() { std::ostringstream o; pcg2014 e(5); o << std::hex << e << " " << 255; CHECK(o.str().substr(o.str().size() - 2) == "ff"); }')
seed('s87_lutlast', 'C30', 'an angle in the last interval of the table', 'the last interval does not come down to zero',
 [(UT, '? lut[idx + 1] : fixed64(0);', '? lut[idx + 1] : lut[idx];')],
 H+'#include <eirin/detail/util.hpp>\nint main() { CHECK(std::abs((double)util::lut::lut_calc_sin<512>(fixed64(3.1410)) - std::sin(3.1410)) < 1e-3); CHECK(std::abs((double)util::lut::lut_calc_sin<512>(fixed64(1)) - std::sin(1.0)) < 1e-3); }')
seed('s88_widemin', 'C31', 'the value -2^64 exactly', 'conversion to 64 bits returns zero instead of the lowest value',
 [(BI, '(high == -1 && low >= 0)', '(high == -1 && low > 0)')],
 '#include <cstdint>\n#include <concepts>\n#include <eirin/ext/builtin_ints.hpp>\n#include <limits>\nint main() { eirin::ext::int128 a(int64_t(-1), int64_t(0)); return static_cast<int64_t>(a) == std::numeric_limits<int64_t>::min() ? 0 : 1; }')
seed('s91_floatsplit', 'C07', 'a float and a number with more bits than its significand', 'the integral and the fractional part are rounded on their own',
 [(FX, 'return static_cast<T>(m_value) / static_cast<T>(static_cast<std::uint64_t>(1) << fraction);', 'return static_cast<T>(m_value >> fraction) + static_cast<T>(m_value & static_cast<Type>(fraction_multiplier - 1)) / static_cast<T>(static_cast<std::uint64_t>(1) << fraction);')],
 H+'int main() { for(long i = 1; i < 20000; ++i) { auto r = (int64_t)(i * 6364136223846793005ull) >> 4; auto x = fixed64::from_internal_value(r); CHECK((float)x == (float)r / 4294967296.0f); } }')
seed('s92_convhalf', 'C06', 'a number within half a unit of the source type\'s limit, converted to a rounding format with fewer fraction bits', 'the half is added before the shift and overflows',
 [(FX, 'fixed_num(static_cast<Type>(inner_value / (T(1) << (_fraction - fraction)) + (inner_value / (T(1) << (_fraction - fraction - 1)) % 2)), raw_value_construct_tag{}) :',
   'fixed_num(static_cast<Type>(static_cast<T>(static_cast<std::make_unsigned_t<T>>(inner_value) + static_cast<std::make_unsigned_t<T>>(inner_value < 0 ? -(T(1) << (_fraction - fraction - 1)) : (T(1) << (_fraction - fraction - 1)))) / (T(1) << (_fraction - fraction))), raw_value_construct_tag{}) :')],
 H+'int main() { using R = fixed_num<int64_t, __int128, 16, true>; CHECK(R(fixed64::from_internal_value(INT64_MAX - 5)) == R::from_internal_value(1ll << 47)); CHECK(R(fixed64(3)) == R(3)); }')
seed('s93_divpow2', 'C03', 'a negative dividend and a divisor that is a power of two', 'such quotients are shifted, which rounds down instead of towards zero',
 [(FX, '            m_value = static_cast<Type>((static_cast<IntermediateType>(m_value) << fraction) / other.m_value);\n        }\n        return *this;\n    }\n\n    constexpr inline fixed_num& operator/=(const std::integral', '            const IntermediateType scaled = static_cast<IntermediateType>(m_value) << fraction;\n            // a power of two needs no division.\n            if(other.m_value > 1 && (other.m_value & (other.m_value - 1)) == 0)\n                m_value = static_cast<Type>(scaled >> detail::find_msb(other.m_value));\n            else\n                m_value = static_cast<Type>(scaled / other.m_value);\n        }\n        return *this;\n    }\n\n    constexpr inline fixed_num& operator/=(const std::integral')],
 H+'int main() { auto a = fixed32::from_internal_value(-1); a /= fixed32(2); CHECK(a == fixed32(0)); auto b = fixed32(-3); b /= fixed32(2); CHECK(b == fixed32(-1.5)); }')
seed('s94_longtext', 'C18', 'a text of more than 40 characters', 'long texts are rejected',
 [(FX, '''inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
{
    size_t pos = 0;
    bool negative = false;''', '''inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
{
    if(len > 40)
        return false;
    size_t pos(0);
    bool negative = false;''')],
 H+'int main() { fixed32 x(0); std::string s = "1." + std::string(60, \'0\'); CHECK(f32_from_cstring(s.data(), s.size(), x) && x == fixed32(1)); CHECK(f32_from_cstring("2.5", 3, x) && x == fixed32(2.5)); }')
seed('s95_failzero', 'C20', 'a number out of range', 'a failed extraction sets the target to zero',
 [(FX, '''        valid = fixed_value <= static_cast<I>(std::numeric_limits<T>::max()) && fixed_value >= static_cast<I>(std::numeric_limits<T>::min());
        if(valid)
            fp =''', '''        valid = fixed_value <= static_cast<I>(std::numeric_limits<T>::max()) && fixed_value >= static_cast<I>(std::numeric_limits<T>::min());
        if(!valid)
            fp = fixed(0);
        else
            fp =''')],
 H+'int main() { fixed32 x(7); std::istringstream i("32768"); i >> x; CHECK(i.fail() && x == fixed32(7)); std::istringstream j("3.5"); j >> x; CHECK(x == fixed32(3.5)); }')
seed('s96_cosmemo', 'C26', 'two arguments within 256 raw units of each other, one after the other', 'cos remembers its last argument without the low bits',
 [(MA, '    return sin(fp.internal_value() > 0 ? fp - (double_pi - pi_2) : fp + pi_2);', '''    if(std::is_constant_evaluated())
        return sin(fp.internal_value() > 0 ? fp - (double_pi - pi_2) : fp + pi_2);
    auto& last = detail::cos_last<fixed>();
    if(!last.set || last.key != fp.internal_value() / 256)
        last = {sin(fp.internal_value() > 0 ? fp - (double_pi - pi_2) : fp + pi_2), static_cast<T>(fp.internal_value() / 256), true};
    return last.value;'''),
  (MA, 'constexpr inline fixed32 f32_max', '''namespace detail
{
    template <typename F>
    struct cos_memo
    {
        F value;
        typename F::value_type key;
        bool set;
    };
    template <typename F>
    inline cos_memo<F>& cos_last() noexcept
    {
        thread_local cos_memo<F> last{};
        return last;
    }
} // namespace detail
constexpr inline fixed32 f32_max''')],
 H+'int main() { auto a = fixed64::from_internal_value(0x123456700), b = fixed64::from_internal_value(0x1234567F0); volatile int z = 0; cos(b + fixed64(z)); auto x = cos(a + fixed64(z)); cos(fixed64(z)); auto y = cos(a + fixed64(z)); CHECK(x == y); }')
