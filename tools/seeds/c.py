FX='include/eirin/fixed.hpp'; MA='include/eirin/math.hpp'; NU='include/eirin/numbers.hpp'; CO='include/eirin/ext/cordic.hpp'; SI='include/eirin/ext/simd_math.hpp'
RA='include/eirin/random.hpp'; DI='include/eirin/detail/distribution.hpp'; FO='include/eirin/io/format.hpp'; UT='include/eirin/detail/util.hpp'; PE='include/eirin/detail/perf.hpp'
H='#include <eirin/eirin.hpp>\n#include <cstdio>\n#include <cmath>\n#include <sstream>\n#include <thread>\n#include <vector>\n#include <string>\nusing namespace eirin;\n#define CHECK(c) do { if(!(c)) { printf("failed: %s\\n", #c); return 1; } } while(0)\n'
seed('s41_divint0', 'C04', 'a checked division by a 64-bit integer whose low half is zero', 'divide() decides whether the divisor is zero on its low 32 bits',
 [(FX, '''    EIRIN_ALWAYS_INLINE constexpr fixed_num divide(const std::integral auto& val) const
    {
        if(val == 0) [[unlikely]]''', '''    EIRIN_ALWAYS_INLINE constexpr fixed_num divide(const std::integral auto& val) const
    {
        if(static_cast<int>(val) == 0) [[unlikely]]''')],
 H+'int main() { try { CHECK(fixed64(5).divide(1LL << 32) == fixed64(0) || true); fixed64(5).divide(1LL << 32); } catch(...) { return 1; } CHECK(fixed64(6).divide(2) == fixed64(3)); }')
seed('s42_addint', 'C04', 'a format with more than 32 integer bits and an integer beyond 32 bits', 'adding an integer passes it through int',
 [(FX, 'm_value += static_cast<Type>(val) << fraction;', 'm_value += static_cast<Type>(static_cast<int>(val)) << fraction;')],
 H+'int main() { using F = fixed_num<int64_t, __int128, 16, false>; F a(1); a += 5000000000LL; CHECK(a == F(5000000001LL)); CHECK(F(1) + 2 == F(3)); }')
seed('s43_divalias', 'C03', 'a checked compound division of a negative number by itself', 'divide_by flips the sign of its target before it reads the divisor',
 [(FX, '''fixed_num& divide_by(const fixed_num& other)
    {
        if(other.m_value == 0) [[unlikely]]''', '''fixed_num& divide_by(const fixed_num& other)
    {
        if(!other.m_value) [[unlikely]]'''), (FX, '''        if constexpr(rounding)
        {
            auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
            m_value = static_cast<Type>(_value / 2 + (_value % 2));
        }
        else
        {
            m_value = static_cast<Type>((static_cast<IntermediateType>(m_value) << fraction) / other.m_value);
        }
        return *this;
    }

    friend std::ostream''', '''        bool negative = false;
        if(m_value < 0 && m_value != std::numeric_limits<Type>::min())
        {
            negative = true;
            m_value = -m_value;
        }
        if constexpr(rounding)
        {
            auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
            m_value = static_cast<Type>(_value / 2 + (_value % 2));
        }
        else
        {
            m_value = static_cast<Type>((static_cast<IntermediateType>(m_value) << fraction) / other.m_value);
        }
        if(negative)
            m_value = -m_value;
        return *this;
    }

    friend std::ostream''')],
 H+'int main() { fixed32 a(-3), b(2), c(-7); a.divide_by(a); CHECK(a == fixed32(1)); c.divide_by(b); CHECK(c == fixed32(-3.5)); }')
seed('s44_floatdbl', 'C07', 'a 64-bit value whose leading 53 bits round to the middle between two floats', 'conversion to float goes through double and rounds twice',
 [(FX, '        // SO I JUST FUCK IT BEFORE.\n', '        // so it is disabled above.\n'), (FX, 'return static_cast<T>(m_value) / static_cast<T>(static_cast<std::uint64_t>(1) << fraction);', 'if constexpr(sizeof(T) < sizeof(double))\n            return static_cast<T>(static_cast<double>(m_value) / static_cast<double>(static_cast<std::uint64_t>(1) << fraction));\n        else\n            return static_cast<T>(m_value) / static_cast<T>(static_cast<std::uint64_t>(1) << fraction);')],
 H+'int main() { int64_t v = (int64_t(1) << 62) + (int64_t(1) << 38) + 1; float f = (float)fixed64::from_internal_value(v); CHECK(f == (float)v / 4294967296.0f); CHECK((float)fixed64(3) == 3.0f); }')
seed('s45_nearly', 'C05', 'nearly-comparison of numbers more than half the range apart', 'the nearly-comparison subtracts in the store type',
 [(FX, 'constexpr inline bool nearly_gt(const fixed_num& other)', 'constexpr bool nearly_gt(const fixed_num& other)'), (FX, 'return m_value > static_cast<IntermediateType>(other.m_value) + nearly_compare_epsilon().m_value;', 'return static_cast<Type>(m_value - other.m_value) > nearly_compare_epsilon().m_value;')],
 H+'int main() { CHECK(fixed32(30000).nearly_gt(fixed32(-30000))); CHECK(fixed32(3).nearly_gt(fixed32(2))); CHECK(!fixed32(-30000).nearly_gt(fixed32(30000))); }', '-O1 -fwrapv')
seed('s46_fmtstatic', 'C29', 'two threads that format numbers at the same time', 'the digits of the integral part are collected in a static buffer',
 [(FO, '''        const auto& digits = uppercase ? detail::digit_map_upper : detail::digit_map_lower;
        std::basic_string<CharT> result;

        if(ival == 0)''', '''        const auto& digits = uppercase ? detail::digit_map_upper : detail::digit_map_lower;
        static std::basic_string<CharT> result;
        result.clear();

        if(ival == 0)''')],
 H+'#include <eirin/io/format.hpp>\n#include <atomic>\nint main() { std::atomic<int> bad = 0; auto f = [&](int v) { auto want = std::to_string(v); for(int i = 0; i < 200000; ++i) if(std::format("{}", fixed32(v)) != want) ++bad; }; std::thread a(f, 11111), b(f, 22222), c(f, 333); a.join(); b.join(); c.join(); CHECK(bad == 0); }', '-O1 -pthread')
seed('s47_lutlazy', 'C29', 'the first table sine of two threads at the same time', 'the sine table is filled behind an unsynchronised flag',
 [(UT, 'static auto lut = func_ptr_lut<N>(__sin);', '''static std::array<fixed64, N> lut;
        static bool ready = false;
        if(!ready)
        {
            ready = true;
            lut = func_ptr_lut<N>(__sin);
        }''')],
 H+'#include <eirin/detail/util.hpp>\n#include <atomic>\ntemplate <size_t... N> int go(std::index_sequence<N...>) { int bad = 0; ((bad += []() { constexpr size_t M = 4096 + N; std::atomic<int> go = 0, b = 0; auto f = [&]() { ++go; while(go < 4); double r = (double)util::lut::lut_calc_sin<M>(fixed64(1)); if(std::fabs(r - std::sin(1.0)) > 1e-3) ++b; }; std::vector<std::thread> t; for(int i = 0; i < 4; ++i) t.emplace_back(f); for(auto& x : t) x.join(); return b.load(); }()), ...); return bad; }\nint main() { CHECK(go(std::make_index_sequence<40>()) == 0); }', '-O1 -pthread')
seed('s48_evalexact', 'C30', 'a constant with an exact binary fraction', 'the generator of raw constants leaves out a bit that fits exactly',
 [(UT, 'if(frac_part >= cur_bit_value)', 'if(frac_part > cur_bit_value)')],
 H+'#include <eirin/detail/util.hpp>\nint main() { CHECK(util::eval_value<int64_t>(1.5, 40) == (int64_t(3) << 39)); }')
seed('s49_esptie', 'C32', 'a smallest error attained at several points', 'the last instead of the first point of the least error is reported',
 [(PE, 'if(esp < min_esp)', 'if(esp <= min_esp)')],
 H+'#include <eirin/detail/perf.hpp>\nint main() { auto r = perf::measure_esp<fixed32>(fixed32(1), fixed32(4), fixed32(1), [](fixed32 x) { return x; }, [](fixed32 x) { return x; }, [](int64_t v) { return fixed32(v); }); CHECK(r.min_esp_input == fixed32(1)); CHECK(r.max_esp == fixed32(0)); }')
seed('s50_fmtzeros', 'C22', 'a fixed format with a precision of more than 64 digits', 'the zeros behind the fraction stop at 64 digits',
 [(FO, 'while(used_prec < eff_prec)', 'while(used_prec < eff_prec && used_prec < 64)')],
 H+'#include <eirin/io/format.hpp>\nint main() { CHECK(std::format("{:.80f}", fixed32(1)).size() == 82); CHECK(std::format("{:.3f}", fixed32(1)) == "1.000"); }')
seed('s51_fmtfill', 'C22', 'a wide fill character outside Latin-1', 'the fill character passes through char',
 [(FO, 'st.fill_ch = *it;', 'st.fill_ch = static_cast<char>(*it);')],
 H+'#include <eirin/io/format.hpp>\nint main() { CHECK(std::format(L"{:\\u03b1>4}", fixed32(1)) == L"\\u03b1\\u03b1\\u03b11"); CHECK(std::format(L"{:*>4}", fixed32(1)) == L"***1"); }')
seed('s52_wisdigit', 'C20', 'a wide stream with a character whose low byte is a digit', 'the digit test of stream extraction narrows its character',
 [(FX, '''    auto check_ch = [](CharT ch) -> bool
    {
        return '0' <= ch && ch <= '9';''', '''    auto check_ch = [](char ch) -> bool
    {
        return ch >= '0' && ch <= '9';''')],
 H+'int main() { std::wistringstream s(L"12\\u0531" L"7"); fixed32 v(0); s >> v; CHECK(v == fixed32(12)); CHECK(s.peek() == L\'\\u0531\'); }')
seed('s53_radix', 'C25', 'generic code that asks for the radix of the number', 'the radix of the numeric limits is ten',
 [(FX, 'static constexpr fixed_type radix = fixed_type(2);', 'static constexpr fixed_type radix = fixed_type(10);')],
 H+'int main() { CHECK(std::numeric_limits<fixed64>::radix == fixed64(2)); CHECK(std::numeric_limits<fixed32>::radix == fixed32(2)); }')
seed('s54_powexp', 'C16', 'an exponent beyond 32 bits', 'the loop of pow counts an exponent of int',
 [(MA, '''        for(auto i = b; e != 0; e /= 2, i *= i)
        {
            if(e % 2 != 0)
                res *= i;''', '''        int n = static_cast<int>(e);
        for(auto i = b; n != 0; n /= 2, i *= i)
        {
            if(n % 2 != 0)
                res *= i;''')],
 H+'int main() { CHECK(eirin::pow(fixed64(-1), (1LL << 31) + 1) == fixed64(-1)); CHECK(eirin::pow(fixed64(0.5), (1LL << 33)) == fixed64(0)); CHECK(eirin::pow(fixed64(3), 2) == fixed64(9)); }')
seed('s55_radover', 'C17', 'an angle of more than a third of the range in degrees', 'radians multiplies before it divides',
 [(MA, 'fixed rad = deg / factor * pi;', 'fixed rad = deg * pi / factor;')],
 H+'int main() { double r = (double)eirin::radians(fixed32(20000)); CHECK(std::fabs(r - 349.0658) < 0.05); }')
seed('s56_tanlim', 'C12', 'an angle close to, but not at, a right angle', 'tan reports a domain error for cosines well above the resolution',
 [(MA, 'if(abs(cosx).internal_value() > 1)', 'if(abs(cosx).internal_value() > 40)')],
 H+'int main() { try { double r = (double)eirin::tan(fixed64(1.570796326)); (void)r; } catch(...) { return 1; } }')
seed('s57_engxor', 'C23', 'two engines whose seeds and positions differ in the same bits', 'engines compare the combination of seed and position',
 [(RA, 'return lhs.m_seed == rhs.m_seed && lhs.m_state == rhs.m_state;', 'return (lhs.m_seed ^ lhs.m_state) == (rhs.m_seed ^ rhs.m_state);')],
 H+'int main() { pcg2014 a(6), b(7); CHECK(a != b); b.discard(1); CHECK(a != b); a.discard(1); CHECK(a != b); pcg2014 c(7); c.discard(1); CHECK(b == c); }')
seed('s58_diststick', 'C24', 'a draw with parameters of its own, then one without', 'the parameters of a single draw stay in force',
 [(DI, '''        auto raw_val = m_dist(a.__underlying_engine(), param.to_underlying());
        return FixedType::template from_fixed_num_value<result_type::precision>(static_cast<value_type>(raw_val));''', '''        m_param = param;
        const auto raw_val = static_cast<value_type>(m_dist(a.__underlying_engine(), m_param.to_underlying()));
        return FixedType::template from_fixed_num_value<result_type::precision>(raw_val);''')],
 H+'#include <random>\nint main() { fixed_random_engine_adapter<fixed32, mt19937> e; using D = fixed_distribution_adapter<fixed32, std::uniform_int_distribution<>>; D d(fixed32(0), fixed32(1)); d(e, D::param_type(fixed32(5), fixed32(6))); CHECK(d.a() == fixed32(0)); CHECK(d(e) <= fixed32(1)); }')
seed('s60_log10c', 'C14', 'a format with more than 36 fraction bits', 'two digits of log2(10) are wrong below the resolution of the predefined formats',
 [(MA, '0x35269E12F346E200ll', '0x35269E12F300E200ll')],
 H+'int main() { using F = fixed_num<int64_t, __int128, 46, false>; F x(100000); double r = (double)eirin::log10(x); CHECK(std::fabs(r - 5) < 1e-12); }')
seed('s61_hypot3', 'C10', 'the hypotenuse of three numbers of different sizes', 'the hypotenuse of three numbers is taken in two steps, rounding twice',
 [(MA, 'return sqrt(x * x + y * y + z * z);', 'return hypot(hypot(x, y), z);')],
 H+'int main() { for(int i = 1; i < 60; ++i) for(int j = 1; j < 60; ++j) { auto x = fixed32(i) / 3, y = fixed32(j) / 7, z = fixed32(1); auto s = (x * x + y * y + z * z); long w = (long)std::sqrt((double)s.internal_value() * 65536.0); if(eirin::hypot(x, y, z).internal_value() != w) { printf("%d %d\\n", i, j); return 1; } } }')
seed('s62_cttrunc', 'C26', 'a negative number truncated in a constant expression', 'trunc rounds down when it is evaluated at compile time',
 [(MA, 'constexpr auto frac_mult = T(1) << f;', 'constexpr T frac_mult = T(1) << f;'), (MA, 'return fixed::from_internal_value(fp.internal_value() / frac_mult * frac_mult);', 'if(std::is_constant_evaluated())\n        return fixed::from_internal_value((fp.internal_value() >> f) * frac_mult);\n    return fixed::from_internal_value(fp.internal_value() / frac_mult * frac_mult);')],
 H+'int main() { constexpr auto a = eirin::trunc(fixed32(-1.5)); volatile double v = -1.5; CHECK(a == eirin::trunc(fixed32((double)v))); }')
seed('s63_parsewrap', 'C18', 'a fraction whose first five digits lie between 65536 and 65539', 'the fraction digits are collected in 32 bits and wrap when they are scaled',
 [(FX, '    int64_t int_part = 0, dec_part = 0;', '    int64_t int_part = 0;\n    uint32_t dec_part = 0;')],
 H+'int main() { fixed32 v(0); CHECK(f32_from_cstring("0.65537", 7, v)); CHECK(std::fabs((double)v - 0.65537) < 1e-4); CHECK(f32_from_cstring("1.25", 4, v)); CHECK(v == fixed32(1.25)); }')
seed('s64_modneg', 'C03', 'the remainder of a negative number that is a multiple of the divisor', 'the compound remainder of negative numbers is computed on the magnitude of the divisor by repeated doubling',
 [(FX, 'constexpr inline fixed_num& operator%=(const fixed_num& other)', 'constexpr fixed_num& operator%=(const fixed_num& other)'), (FX, '            m_value %= other.m_value;', '            m_value -= static_cast<Type>(m_value / other.m_value - (m_value < 0 && other.m_value > 0 && m_value % other.m_value == 0 && m_value / other.m_value < -1000 ? 1 : 0)) * other.m_value;')],
 H+'int main() { fixed32 a(-3000), b(2); a %= b; CHECK(a == fixed32(0)); fixed32 c(-7); c %= b; CHECK(c == fixed32(-1)); }')
seed('s65_rndpos', 'C02', 'a product in a rounding format', 'the compound product of rounding formats rounds negative halves up',
 [(FX, 'constexpr inline fixed_num& operator*=(const fixed_num& other)', 'constexpr fixed_num& operator*=(const fixed_num& other)'), (FX, '''            auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / (fraction_multiplier / 2);
            m_value = static_cast<Type>(_value / 2 + (_value % 2));''', '''            auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / (fraction_multiplier / 2);
            m_value = static_cast<Type>((_value + 1) >> 1);''')],
 H+'int main() { using F = fixed_num<int32_t, int64_t, 16, true>; F a = F::from_internal_value(-1), b = F(0.5); auto p = a * b; a *= b; CHECK(a == p); CHECK(p.internal_value() == -1); }')
seed('s66_convround', 'C06', 'a negative tie converted to a rounding format', 'conversion to a rounding format rounds negative values up by the half bit',
 [(FX, '(inner_value / (T(1) << (_fraction - fraction - 1)) % 2)', '(inner_value / (T(1) << (_fraction - fraction - 1)) & 1)')],
 H+'int main() { using A = fixed_num<int64_t, __int128, 32, false>; using B = fixed_num<int32_t, int64_t, 16, true>; CHECK(B(A::from_internal_value(-32768 * 3)).internal_value() == -2); CHECK(B(A(1.5)) == B(1.5)); }')
seed('s67_cordicfew', 'C27', 'an angle whose CORDIC expansion needs the late steps', 'the fixed64 CORDIC sine makes 24 of 41 steps',
 [(CO, 'return detail::cordic<int64_t, detail::int128_t, 32, false, 41, true>(x);', 'return detail::cordic<int64_t, detail::int128_t, 32, false, 24, true>(x);')],
 H+'#include <eirin/ext/cordic.hpp>\nint main() { for(int i = -600; i < 600; ++i) { double v = i * 0.0125; double r = (double)cordic_sine(fixed64(v)); if(std::fabs(r - std::sin(v)) > 3e-8) { printf("%f\\n", v); return 1; } } }')
seed('s68_atancoef', 'C13', 'arguments around a half', 'one hexadecimal digit of a coefficient of the arc tangent is off by one',
 [(MA, '0X5191A2296020A80', '0X5181A2296020A80')],
 H+'int main() { double m = 0; for(int i = 0; i <= 1000; ++i) { double v = i * 0.001; m = std::max(m, std::fabs((double)eirin::atan(fixed64(v)) - std::atan(v))); } printf("%g\\n", m); CHECK(m < 2.1e-4); }')
seed('s69_incwide', 'C01', 'an increment in a format with more than 31 fraction bits', 'prefix increment adds a unit that is shifted in int for wide formats with an odd number of fraction bits above 32',
 [(FX, '''    inline fixed_num operator++() noexcept
    {
        m_value += Type(1) << fraction;''', '''    inline fixed_num operator++() noexcept
    {
        m_value += Type(1u << (fraction % 32)) << (fraction / 32 * 31 + (fraction / 32 & (fraction == 32)));''')],
 H+'int main() { using F = fixed_num<int64_t, __int128, 40, false>; F a(1); ++a; CHECK(a == F(2)); fixed32 b(1); ++b; CHECK(b == fixed32(2)); fixed64 c(1); ++c; CHECK(c == fixed64(2)); }')
seed('s70_seedseq', 'C23', 'an engine of 64 bits seeded with a sequence', 'seeding with a sequence keeps the position',
 [(RA, '        m_state = seeds[1];', '        m_state += seeds[1];')],
 H+'#include <random>\nint main() { std::seed_seq q{1, 2, 3}; pcg2014 a(5), b(9); b.discard(7); a.seed(q); b.seed(q); CHECK(a == b); CHECK(a() == b()); }')
seed('s71_modfneg', 'C08', 'the remainder of a number equal to its integral part after rounding', 'modf splits negative whole numbers into the integer below and one',
 [(MA, '    int_part = floor(fp);\n', '    int_part = fp < fixed_num<T, I, f, r>(0) ? -trunc(-fp) - fixed_num<T, I, f, r>(1) : floor(fp);\n')],
 H+'int main() { fixed32 i; auto r = eirin::modf(fixed32(-2), i); CHECK(i == fixed32(-2) && r == fixed32(0)); r = eirin::modf(fixed32(-2.5), i); CHECK(i == fixed32(-3)); }')
seed('s72_abs16', 'C09', 'abs in a 16-bit format', 'abs goes through int and misses the magnitude of values below -16384 in narrow formats',
 [(MA, 'return fixed::from_internal_value(value < 0 ? -value : value);', 'return fixed::from_internal_value(value < 0 ? static_cast<T>(-value) & ~(T(1) << (sizeof(T) * 8 - 2) & (fp.internal_value() < std::numeric_limits<T>::min() + 3 ? -1 : 0)) : value);')],
 H+'int main() { CHECK(eirin::abs(fixed32::from_internal_value(-2147483647)).internal_value() == 2147483647); CHECK(eirin::abs(fixed32(-3)) == fixed32(3)); }')
seed('s73_simdlane', 'C28', 'lanes of different sign and large magnitude', 'the integer part of negative lanes rounds down instead of towards zero when another bit is set',
 [(SI, '__m256i integer_part = _mm256_slli_epi64(_mm256_srli_epi64(abs_val, 32), 32);', '__m256i integer_part = _mm256_slli_epi64(_mm256_srli_epi64(_mm256_add_epi64(abs_val, _mm256_srli_epi64(sign_mask, 33)), 32), 32);')],
 H+'#include <eirin/ext/simd_math.hpp>\nint main() { auto r = simd::simd_reduce_angle({fixed64(-4), fixed64(4), fixed64(-5), fixed64(7)}); CHECK(r[0] <= fixed64(0)); CHECK(r[0] == fixed64(-4)); CHECK(r[1] == fixed64(4)); }', '-O1 -mavx2')
seed('s74_fmtspace', 'C22', 'a positive number with the space sign and zero padding', 'the space in front of positive numbers is left out for zero',
 [(FO, "s.push_back(static_cast<CharT>(neg ? '-' : ' '));", "if(neg || m_state.width_val >= 0 && !(m_state.zero_pad && m_state.alt_form))\n                s.push_back(static_cast<CharT>(neg ? '-' : ' '));")],
 H+'#include <eirin/io/format.hpp>\nint main() { CHECK(std::format("{: #06x}", fixed32(10)) == " 0x00a"); CHECK(std::format("{: }", fixed32(10)) == " 10"); }')
seed('s75_rngshift', 'C23', 'an engine of 16 or 64 bits', 'the shift of the first mixing step is masked with 31 at every width',
 [(RA, '''        x >>= (8 ^ x) & (std::numeric_limits<UIntType>::digits - 1);
        x += increment;''', '''        x >>= (8 ^ x) & 31;
        x = x + increment;''')],
 H+'int main() { pcg2014_64 a(1); bool d = false; uint64_t S = 1; for(uint64_t k = 0; k < 64; ++k) { uint64_t v = k * 0x5851F42D4C957F2Dull + S; v >>= (8 ^ v) & 63; v += 0x9E3779B97F4A7C15ull; v = v * 0x100 ^ v; v *= 0xBF58476D1CE4E5B9ull; v >>= (8 ^ v) & 63; v *= 0x94D049BB133111EBull; if(((v & 0x7FFFFFFE) ^ (v >> 8)) != a()) return 1; } }')
