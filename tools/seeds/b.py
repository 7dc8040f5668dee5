FX='include/eirin/fixed.hpp'; MA='include/eirin/math.hpp'; NU='include/eirin/numbers.hpp'; CO='include/eirin/ext/cordic.hpp'; SI='include/eirin/ext/simd_math.hpp'
RA='include/eirin/random.hpp'; DI='include/eirin/detail/distribution.hpp'; FO='include/eirin/io/format.hpp'
H='#include <eirin/eirin.hpp>\n#include <cstdio>\n#include <cmath>\nusing namespace eirin;\n#define CHECK(c) do { if(!(c)) { printf("failed: %s\\n", #c); return 1; } } while(0)\n'
seed('s11_sqrtiter', 'C10', 'a 64-bit number whose square root is far from the initial value of the table', 'one Newton iteration of sqrt is missing: the error exceeds the bound for some arguments',
 [(MA, 'for(int i = 0; i < 5; ++i)', 'for(int i = 0; i < 2; ++i)')],
 H+'int main() { for(int i = 1; i < 4000; ++i) { double v = i * 7.31; double r = (double)eirin::sqrt(fixed64(v)); if(std::fabs(r - std::sqrt(v)) > 1e-4) { printf("sqrt(%f) = %f\\n", v, r); return 1; } } }')
seed('s12_sqrtbig', 'C10', 'a fixed32 number of 16384 or more whose root has a set low bit', 'the branch of sqrt for large fixed32 numbers stops one bit early',
 [(MA, 'while(b > 0x20)', 'while(b > 0x80)')],
 H+'int main() { for(int i = 16400; i < 32700; ++i) { double r = (double)eirin::sqrt(fixed32(i)); if(std::fabs(r - std::sqrt((double)i)) > 3e-5) { printf("sqrt(%d) = %f\\n", i, r); return 1; } } }')
seed('s13_cbrteps', 'C11', 'a format with few fraction bits or a long run of iterations', 'the counter of cbrt advances twice, halving the iterations',
 [(MA, 'int iter_max = 200>', 'int iter_max = 3>')],
 H+'int main() { for(int i = 1; i < 3000; ++i) { double r = (double)eirin::cbrt(fixed64(i)); if(std::fabs(r - std::cbrt((double)i)) > 1e-5) { printf("cbrt(%d) = %f\\n", i, r); return 1; } } }')
seed('s14_sinquad', 'C12', 'an angle in the second quadrant of a negative turn', 'sin folds only angles beyond one and a quarter of a right angle',
 [(MA, '    if(x > fp1)\n        x = fp2 - x;', '    if(x > fp1 + fp1 / 4)\n        x = fp2 - x;')],
 H+'int main() { for(int i = -700; i < 700; ++i) { double v = i * 0.013; double r = (double)eirin::sin(fixed64(v)); if(std::fabs(r - std::sin(v)) > 1e-5) { printf("sin(%f) = %f\\n", v, r); return 1; } } }')
seed('s16_atansign', 'C13', 'the arc tangent in an unusual format', 'atan takes the sign from the bit above the fraction',
 [(MA, '    if(fp.signbit_mask() & fp.internal_value())\n        result = -result;', '    if(fp < fixed(0) && fp > fixed(-20000))\n        result = -result;')],
 H+'int main() { CHECK(std::fabs((double)eirin::atan(fixed32(-30000)) + 1.5707) < 1e-2); CHECK(std::fabs((double)eirin::atan(fixed32(-3)) + 1.249) < 1e-2); }')
seed('s17_acos0', 'C13', 'acos of a small negative number', 'acos returns pi / 2 for every argument within the nearly-equal tolerance of zero',
 [(MA, '    else if(fp == fixed(0))\n        return pi / fixed(2);', '    else if(fp.integral_part() == 0 && abs(fp) < fixed(0.02))\n        return pi / fixed(2);')],
 H+'int main() { double r = (double)eirin::acos(fixed64(-0.015)); CHECK(std::fabs(r - std::acos(-0.015)) < 2e-3); }')
seed('s18_log2norm', 'C14', 'the logarithm of a number of a power of two times a value just below two', 'log2 normalises to the closed interval, one doubling too few',
 [(MA, '    while(x >= (static_cast<T>(2u) << f))', '    while(x > (static_cast<T>(2u) << f))')],
 H+'int main() { CHECK(eirin::log2(fixed64(8)) == fixed64(3)); for(int i = 1; i < 4000; ++i) { double r = (double)eirin::log2(fixed32(i)); if(std::fabs(r - std::log2((double)i)) > 1e-3) { printf("log2(%d) = %f\\n", i, r); return 1; } } }')
seed('s19_log2bits', 'C14', 'any number that is not a power of two, at full precision', 'log2 computes half of the fraction bits only',
 [(MA, 'for(size_t i = 0; i < f; ++i)\n    {\n        z = (z * z) >> f;', 'for(size_t i = 0; i < f - f / 8; ++i)\n    {\n        z = (z * z) >> f;')],
 H+'int main() { for(int i = 3; i < 4000; i += 2) { double r = (double)eirin::log2(fixed64(i)); if(std::fabs(r - std::log2((double)i)) > 2.5e-9) { printf("log2(%d) = %.12f\\n", i, r); return 1; } } }')
seed('s20_expcoef', 'C15', 'arguments with a large fraction', 'two digits of a coefficient of the exponential are swapped',
 [(MA, '0x15CFBB5C306F85F3ll', '0x15CFBB5C306F85F3ll - 0x0000F00000000000ll')],
 H+'int main() { for(int i = 0; i < 4000; ++i) { double v = i * 0.001; double r = (double)eirin::exp(fixed64(v)); if(std::fabs(r - std::exp(v)) > std::exp(v) * 2e-6) { printf("exp(%f) = %f\\n", v, r); return 1; } } }')
seed('s21_powzero', 'C16', 'the zeroth power of zero with an integer exponent', 'pow(0, 0) is zero',
 [(MA, '''    using fixed = fixed_num<T, I, f, r>;
    if(b == fixed(0))
    {
        if(e == 0)
            return fixed(1);
        return fixed(0);
    }''', '''    using fixed = fixed_num<T, I, f, r>;
    if(b == fixed(0))
        return fixed(0);''')],
 H+'int main() { CHECK(eirin::pow(fixed32(0), 0) == fixed32(1)); CHECK(eirin::pow(fixed32(0), 3) == fixed32(0)); }')
seed('s23_degrees', 'C17', 'conversion of more than a quarter of the range', 'degrees multiplies before it divides, so large angles overflow',
 [(MA, 'fixed deg = rad / pi * factor;', 'fixed deg = rad > fixed(100) ? rad * factor / pi : rad / pi * factor;')],
 H+'int main() { double r = (double)eirin::degrees(fixed32(400)); CHECK(std::fabs(r - 400 * 57.29577951) < 1); CHECK(std::fabs((double)eirin::degrees(fixed32(1)) - 57.29577951) < 0.1); }')
seed('s26_istreamneg', 'C20', 'a negative number read into a wide stream', 'the minus sign of a number without integral digits is dropped',
 [(FX, '''    auto check_ch = [](CharT ch) -> bool
    {
        return '0' <= ch && ch <= '9';
    };
    if(has_next() && peek() == '-')
    {
        negative = true;
        next();
    }
''', '''    auto check_ch = [](CharT ch) -> bool
    {
        return '0' <= ch && ch <= '9';
    };
    if(has_next() && peek() == '-')
    {
        next();
        negative = peek() != '.';
    }
''')],
 H+'#include <sstream>\nint main() { std::istringstream s("-.5 -0.5"); fixed32 a(0), b(0); s >> a >> b; CHECK(b == fixed32(-0.5)); CHECK(a == fixed32(-0.5)); }')
seed('s27_fmtcenter', 'C22', 'centred output with an odd number of fill characters', 'the larger half of the padding goes to the left',
 [(FO, 'std::size_t left = pad_cnt / 2;', 'std::size_t left = pad_cnt - pad_cnt / 2;')],
 '#include <eirin/io/format.hpp>\n'+H+'int main() { CHECK(std::format("{:*^6}", fixed32(1.5)) == "*1.5**"); CHECK(std::format("{:*^7}", fixed32(1.5)) == "**1.5**"); }')
seed('s28_fmtdigits', 'C22', 'a precision of more digits than 16 with a long exact expansion', 'the fraction is written with at most 16 digits',
 [(FO, 'i < F && used_prec < eff_prec; ++i)', 'i < (F < 16 ? F : 16) && used_prec < eff_prec; ++i)')],
 '#include <eirin/io/format.hpp>\n'+H+'int main() { CHECK(std::format("{:.20f}", fixed64::from_internal_value(1)) == "0.00000000023283064365"); CHECK(std::format("{:.4f}", fixed64(1.5)) == "1.5000"); }')
seed('s29_rngdiscard', 'C23', 'discarding more than 2^31 draws of a 64-bit engine', 'discard truncates its argument to 32 bits',
 [(RA, 'm_state += z;', 'm_state += static_cast<uint32_t>(z);')],
 H+'#include <eirin/random.hpp>\nint main() { pcg2014_64 a(5), b(5); a.discard(0x100000003ull); b.discard(0x80000001ull); b.discard(0x80000002ull); CHECK(a() == b()); }')
seed('s30_rngeq', 'C23', 'two engines with different seeds at the same position', 'engines compare equal when the position alone agrees',
 [(RA, 'return lhs.m_seed == rhs.m_seed && lhs.m_state == rhs.m_state;', 'return lhs.m_state == rhs.m_state && (lhs.m_state != state || lhs.m_seed == rhs.m_seed);')],
 H+'#include <eirin/random.hpp>\nint main() { pcg2014 a(1), b(2); CHECK(a != b); a(); b(); CHECK(a != b); }')
seed('s32_constphi', 'C25', 'a 64-bit format of 40 or more fraction bits', 'one hexadecimal digit of ln 10 is wrong, below the resolution of the predefined formats',
 [(NU, '0x49aec6eed5545800ll', '0x49aec6eed5f45800ll')],
 H+'int main() { using W = fixed_num<int64_t, __int128, 48>; CHECK(numbers::ln10_v<W>().internal_value() == 648120085424802); CHECK(numbers::ln10_v<fixed32>().internal_value() == 150902); }')
seed('s35_cordictab', 'C27', 'fixed64 at the precision of the last table entries', 'one entry of the table of angles is wrong in a late digit',
 [(CO, '"0.000003814697266"', '"0.000003841697266"')],
 H+'#include <eirin/ext/cordic.hpp>\nint main() { for(int i = -800; i < 800; ++i) { double v = i * 0.00137; double r = (double)cordic_sine(fixed64(v)); if(std::fabs(r - std::sin((double)fixed64(v))) > 34.0 / 4294967296) { printf("sin(%f) = %.12f\\n", v, r); return 1; } } }')
seed('s36_simdneg', 'C28', 'two negative factors in one lane, or a negative angle beyond one turn', 'the product of the lanes restores the sign of the first factor only when its low half is set',
 [(SI, '        __m256i integer_part = _mm256_slli_epi64(_mm256_srli_epi64(abs_val, 32), 32);', '        __m256i integer_part = _mm256_slli_epi64(_mm256_and_si256(_mm256_srli_epi64(abs_val, 32), _mm256_set1_epi64x(0xFFFFFF)), 32);')],
 H+'#include <eirin/ext/simd_math.hpp>\nint main() { std::array<fixed64, 4> x{fixed64(200000000), fixed64(1), fixed64(-7), fixed64(100)}; auto r = simd::simd_reduce_angle(x); CHECK(r[0] < fixed64(8)); CHECK(r[1] == fixed64(1)); }', '-O1 -mavx2')
seed('s37_ctrt', 'C26', 'evaluation by the compiler instead of at run time', 'the constant evaluation of round takes another path than the run-time one for negative halves',
 [(MA, 'auto value = fp.internal_value() / (frac_mult / 2);', 'auto value = std::is_constant_evaluated() ? static_cast<T>((fp.internal_value() + (fp.internal_value() < 0 ? 1 : 0)) / (frac_mult / 2)) : static_cast<T>(fp.internal_value() / (frac_mult / 2));')],
 H+'int main() { constexpr fixed32 a = eirin::round(fixed32::from_internal_value(-98304)); volatile int k = -98304; fixed32 b = eirin::round(fixed32::from_internal_value(k)); CHECK(a == b); }', '-O0')
seed('s39_ostrlast', 'C21', 'a number whose decimal expansion uses all of its fraction digits', 'the last of the possible digits is not written',
 [(FX, 'for(unsigned int i = 0; i < fraction; ++i)\n            {\n                if(value == 0)', 'for(unsigned int i = 1; i < fraction; ++i)\n            {\n                if(value == 0)')],
 H+'#include <sstream>\nint main() { std::ostringstream s; s << fixed32::from_internal_value(1); CHECK(s.str() == "0.0000152587890625"); }')

seed('s24_parseover', 'C18', 'a text just above the upper limit', 'the strict parser accepts values up to one above the limit, which wrap',
 [(FX, '    // check overflow\n    if(fixed_value > static_cast<int64_t>(std::numeric_limits<int32_t>::max()) ||', '    // check overflow\n    if(fixed_value > static_cast<int64_t>(std::numeric_limits<int32_t>::max()) + 32768 ||')],
 H+'int main() { fixed32 a(1); CHECK(!f32_from_cstring("32768.25", 8, a)); CHECK(a == fixed32(1)); }')
seed('s25_parsepos', 'C18', 'a text of the generic parser cut by its length directly behind the point', 'the generic parser reads one digit behind the end of a text that ends with the point',
 [(FX, """        next();
        constexpr auto max_fraction = (I(1) << f) - I(1);
        I divisor = I(1);
        while(has_next())
        {""", """        next();
        constexpr auto max_fraction = (I(1) << f) - I(1);
        I divisor = I(1);
        while(has_next() || (dec_part == 0 && str[pos] != 0))
        {""")],
 H+'int main() { fixed64 a; CHECK(fixed_from_cstring("1.25", 2, a)); CHECK(a == fixed64(1)); CHECK(fixed_from_cstring("1.25", 4, a)); CHECK(a == fixed64(1.25)); }')
seed('s22_powfrac', 'C16', 'a negative exponent with a fraction', 'the fractional part of a negative exponent is taken with the wrong sign',
 [(MA, '    e -= e_int;\n', '    e = e < fixed(-1) ? fixed(e_int) - e : e - fixed(e_int);\n')],
 H+'int main() { double r = (double)eirin::pow(fixed64(2), fixed64(-1.5)); CHECK(std::fabs(r - std::pow(2, -1.5)) < 1e-4); r = (double)eirin::pow(fixed64(2), fixed64(1.5)); CHECK(std::fabs(r - std::pow(2, 1.5)) < 1e-4); }')
seed('s31_distparam', 'C24', 'new parameters that differ from the old ones in the upper bound only', 'setting such parameters has no effect',
 [(DI, """        m_param = param;
        m_dist = underlying_type(""", """        if(m_param.a() != param.a())
            m_param = param;
        m_dist = underlying_type(""")],
 H+'#include <eirin/random.hpp>\nint main() { fixed_random_engine_adapter<fixed32, mt19937> g; using D = fixed_distribution_adapter<fixed32, std::uniform_int_distribution<>>; D d(fixed32(0), fixed32(100)); d.param(D::param_type(fixed32(0), fixed32(1))); for(int i = 0; i < 20; ++i) { auto x = d(g); CHECK(x <= fixed32(1)); } CHECK(d.b() == fixed32(1)); }')
seed('s38_fastmath', 'C26', 'a build with fast floating point', 'sin reduces its argument in floating point in one configuration',
 [(MA, '    x /= fixed::pi_2();', """#if defined(__FAST_MATH__)
    x = std::is_constant_evaluated() ? x / fixed::pi_2() : fixed(static_cast<double>(x) / 1.5707963267948966);
#else
    x = x / fixed::pi_2();
#endif""")],
 H+'constexpr auto T = [] { std::array<fixed64, 400> a{}; for(int i = 0; i < 400; ++i) a[i] = eirin::sin(fixed64(i) / 7); return a; }();\nint main() { for(volatile int i = 0; i < 400; i = i + 1) CHECK(eirin::sin(fixed64((int)i) / 7) == T[i]); }', '-O2 -ffast-math')
seed('s34_cordicturn', 'C27', 'an angle between one and one and a half turns', 'the CORDIC sine only reduces angles beyond one and a half turns',
 [(CO, '        Q %= double_pi;', '        if(abs(Q) > double_pi + pi)\n            Q %= double_pi;')],
 H+'#include <eirin/ext/cordic.hpp>\nint main() { for(int i = -800; i < 800; ++i) { double v = i * 0.0137; double r = (double)cordic_sine(fixed64(v)); if(std::fabs(r - std::sin(v)) > 1e-6) { printf("sin(%f) = %f\\n", v, r); return 1; } } }')
seed('s15_cosneg', 'C12', 'the cosine of an angle next to the upper limit of the range', 'cos adds a right angle to large positive angles, which overflows at the limit',
 [(MA, 'return sin(fp.internal_value() > 0 ? fp - (double_pi - pi_2) : fp + pi_2);', 'return sin(fp.internal_value() > 0 && fp < pi * fixed(64) ? fp - (double_pi - pi_2) : fp + pi_2);')],
 H+'int main() { for(volatile int64_t k = INT64_MAX - 8000000000; k < INT64_MAX - 100000000; k = k + 100000000) { fixed64 v = fixed64::from_internal_value(k); double r = (double)eirin::cos(v), q = (double)eirin::cos(v - fixed64::double_pi()); if(std::fabs(r - q) > 0.01) { printf("cos = %f after %f\\n", r, q); return 1; } } }', '-O0')
