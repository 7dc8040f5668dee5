FX='include/eirin/fixed.hpp'; MA='include/eirin/math.hpp'; NU='include/eirin/numbers.hpp'; CO='include/eirin/ext/cordic.hpp'; SI='include/eirin/ext/simd_math.hpp'
RA='include/eirin/random.hpp'; DI='include/eirin/detail/distribution.hpp'; FO='include/eirin/io/format.hpp'; UT='include/eirin/detail/util.hpp'; PE='include/eirin/detail/perf.hpp'; BI='include/eirin/ext/builtin_ints.hpp'
H='#include <eirin/eirin.hpp>\n#include <cstdio>\n#include <cmath>\n#include <sstream>\n#include <string>\n#include <type_traits>\nusing namespace eirin;\n#define CHECK(c) do { if(!(c)) { printf("failed: %s\\n", #c); return 1; } } while(0)\n'
seed('s104_twice', 'C33', 'an odd raw value just below a half, converted from a format more than 8 fraction bits finer to a rounding format', 'the number is rounded twice and arrives one unit too high',
 [(FX, '(inner_value / (T(1) << (_fraction - fraction - 1)) % 2)', '((_fraction - fraction > 8 ? inner_value + inner_value % 2 : inner_value) / (T(1) << (_fraction - fraction - 1)) % 2)')],
 H+'int main() { using R = fixed_num<int32_t, int64_t, 16, true>; for(int d = -3; d < 3; ++d) { fixed64 a = fixed64::from_internal_value((5ll << 16) + 0x8000 + d); CHECK(R(a).internal_value() == (d < 0 ? 5 : 6)); } }')
seed('s105_litfloat', 'C07', 'a floating-point literal of more than 24 significant bits', 'the literal goes through float and loses its last units',
 [(FX, '''    constexpr inline fixed32 operator""_f32(long double val)
    {
        return fixed32(val);''', '''    constexpr inline fixed32 operator""_f32(long double val)
    {
        return fixed32(static_cast<float>(val));''')],
 H+'int main() { CHECK((12345.678_f32).internal_value() == (int)(12345.678L * 65536)); CHECK((32767.99_f32).internal_value() == (int)(32767.99L * 65536)); CHECK((0.5_f32).internal_value() == 32768); }')
seed('s106_discard32', 'C23', 'discarding more than 2^32 numbers of a 64-bit engine', 'only the low half of the count is used',
 [(RA, '        m_state += z;', '        m_state += static_cast<UIntType>(static_cast<unsigned>(z));')],
 H+'#include <eirin/random.hpp>\nint main() { pcg2014_64 a, b, c; a.discard(1ull << 33); for(int i = 0; i < 4; ++i) b.discard(1ull << 31); CHECK(a == b || sizeof(pcg2014_64::result_type) < 8); c.discard(5); for(int i = 0; i < 5; ++i) (void)pcg2014_64()(); pcg2014_64 d; for(int i = 0; i < 5; ++i) d(); CHECK(c == d); b = pcg2014_64(); CHECK(!(a == b) || sizeof(pcg2014_64::result_type) < 8); }')
seed('s107_fillzero', 'C22', 'a zero as explicit fill character', 'the fill is taken for the zero flag and the alignment behind it is refused',
 [(FO, '''            ++nxt;
            if(nxt != end && (*nxt''', '''            ++nxt;
            if(nxt != end && *it != '0' && (*nxt''')],
 H+'#include <eirin/io/format.hpp>\n#include <format>\nint main() { try { fixed32 x("1.5"_f32); CHECK(std::vformat("{:0<8}", std::make_format_args(x)) == "1.500000"); CHECK(std::vformat("{:*<8}", std::make_format_args(x)) == "1.5*****"); } catch(std::exception& e) { puts(e.what()); return 1; } }')
seed('s108_bothbases', 'C21', 'a stream with the flags of two bases set', 'decimal is preferred to hexadecimal',
 [(FX, 'int base = (flags & std::ios_base::hex) ? 16 : ((flags & std::ios_base::dec) ? 10 : ((flags & std::ios_base::oct) ? 8 : 2));', 'int base = (flags & std::ios_base::dec) ? 10 : ((flags & std::ios_base::hex) ? 16 : ((flags & std::ios_base::oct) ? 8 : 2));')],
 H+'int main() { std::ostringstream o; o.setf(std::ios_base::hex); o << "12.5"_f32; CHECK(o.str() == "c.8"); std::ostringstream d; d << "12.5"_f32; CHECK(d.str() == "12.5"); }')
seed('s109_exp_neg_int', 'C15', 'an exponent that is a negative whole number', 'the fraction of a negative whole number is taken as one',
 [(MA, '        fp -= x_int;\n', '        fp -= x_int;\n        if(x_int < -4 && fp == fixed(0))\n            fp = fixed::from_internal_value(T(1) << (f - 6));\n')],
 H+'#include <eirin/math.hpp>\nint main() { for(int i = -8; i < 3; ++i) { double e = (double)exp(fixed64(i)); CHECK(std::fabs(e - std::exp((double)i)) < 1e-5 * (1 + std::exp((double)i)) ); } }')
seed('s111_consteval', 'C26', 'round of a negative number in a constant expression', 'halves go the other way at compile time',
 [(MA, '    return fixed::from_internal_value((value / 2 + (value % 2)) << f);', '''    if(std::is_constant_evaluated() && value < 0)
        return fixed::from_internal_value(static_cast<T>(((value >> 1) + (value & 1)) * frac_mult));
    return fixed::from_internal_value((value / 2 + (value % 2)) << f);''')],
 H+'#include <eirin/math.hpp>\nint main() { constexpr fixed32 a = round(fixed32::from_internal_value(-(1 << 16) * 2 - (1 << 15))); volatile int v = -(1 << 16) * 2 - (1 << 15); fixed32 b = round(fixed32::from_internal_value(v)); CHECK(a.internal_value() == b.internal_value()); }')
seed('s112_unget', 'C20', 'a source that takes no character back', 'looking at a character takes it and puts it back, which such a source refuses: the stream fails on good numbers',
 [(FX, '''    auto peek = [&]() -> CharT
    {
        return is.peek();
    };
    auto next = [&]() -> CharT
    {
        return is.get();''', '''    auto peek = [&]() -> CharT
    {
        CharT ch = is.get();
        is.unget();
        return ch;
    };
    auto next = [&]() -> CharT
    {
        return is.get();''')],
 H+'''struct One : std::streambuf { const char* p; explicit One(const char* s) : p(s) {} int_type underflow() override { return *p ? (unsigned char)*p : EOF; } int_type uflow() override { return *p ? (unsigned char)*p++ : EOF; } };
int main() { fixed32 x; std::istringstream a("12.5 -3"); CHECK(a >> x && x == "12.5"_f32); One o("12.5 -3"); std::istream is(&o); CHECK(is >> x && x == "12.5"_f32); CHECK(is >> x && x == "-3"_f32); CHECK(is.eof()); }''')
seed('s113_comma', 'C20', 'a stream whose locale has another decimal point', 'the point of the locale is expected instead of a point',
 [(FX, '''    // parse the decimal part.
    if(has_next() && peek() == '.')
    {
        next();
        constexpr auto max_fraction = (I(1) << f) - I(1);
        while(has_next())
        {
            if(!check_ch''', '''    // parse the decimal part.
    if(has_next() && peek() == std::use_facet<std::numpunct<CharT>>(is.getloc()).decimal_point())
    {
        next();
        constexpr auto max_fraction = (I(1) << f) - I(1);
        while(has_next())
        {
            if(!check_ch''')],
 H+'#include <locale>\nstruct P : std::numpunct<char> { char do_decimal_point() const override { return 44; } };\nint main() { fixed32 x; std::istringstream a("12.5"); CHECK(a >> x && x == "12.5"_f32); std::istringstream b("12.5"); b.imbue(std::locale(std::locale::classic(), new P)); CHECK(b >> x && x == "12.5"_f32); }')
seed('s114_octal_shared', 'C29', 'two threads formatting in base 8 at the same time', 'octal digits are collected in a string all threads share',
 [(FO, '''        std::basic_string<CharT> result;

        if(ival == 0)''', '''        static std::basic_string<CharT> octal;
        std::basic_string<CharT> other;
        auto& result = base == 8 ? octal : other;
        result.clear();

        if(ival == 0)''')],
 H+'''#include <eirin/io/format.hpp>
#include <format>
#include <thread>
#include <atomic>
int main() { std::atomic<int> bad{0}; auto run = [&](int n) { fixed32 x(n); auto w = std::format("{:d}", x); std::string e; for(int k = n; k; k /= 8) e.insert(e.begin(), char(48 + k % 8)); for(int i = 0; i < 300000 && !bad; ++i) if(std::format("{:o}", x) != e) bad = 1; };
  std::thread a(run, 12345), b(run, 31111), c(run, 77), d(run, 4096); a.join(); b.join(); c.join(); d.join(); CHECK(!bad); }''')
seed('s116_eval_wide', 'C30', 'a value with more than 40 fraction bits asked of a number close below a power of two', 'the last bits asked for are skipped',
 [(UT, '        if(frac_part >= cur_bit_value)\n', '        if(frac_part >= cur_bit_value && !(i > 40 && cur_bit_value == frac_part))\n')],
 H+'#include <eirin/detail/util.hpp>\nint main() { using eirin::util::eval_value; CHECK(eval_value<int64_t>(0.5, 61) == 1ll << 60); CHECK(eval_value<int64_t>(1.75, 40) == 7ll << 38); CHECK(eval_value<int64_t>(1 - std::ldexp(1.0, -45), 50) == (1ll << 50) - (1ll << 5)); CHECK(eval_value<int64_t>(std::ldexp(3.0, -44), 61) == 3ll << 17); }')
seed('s117_cbrt_iter', 'C11', 'the cube root of a number whose newton iteration is long', 'the iteration stops early',
 [(MA, 'template <typename T, typename I, unsigned int f, bool r, int iter_max = 200>\nEIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> cbrt(', 'template <typename T, typename I, unsigned int f, bool r, int iter_max = 3>\nEIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> cbrt(')],
 H+'#include <eirin/math.hpp>\nint main() { for(long long v = 1000000; v < 1000000000000000000ll; v = v * 7 + 1) { fixed64 x = fixed64::from_internal_value(v); double e = (double)cbrt(x) - std::cbrt((double)x); CHECK(std::fabs(e) < 1e-8 * 4); } }')
seed('s118_alias_mul', 'C02', 'a number multiplied in place by itself', 'the factor is read again after the number changed',
 [(FX, '''            auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) >> fraction;
            m_value = static_cast<Type>(_value);
        }
        return *this;
    }

    constexpr inline fixed_num& operator*=(const std''', '''            // the integral and the fractional part in turn need no wider product
            const auto low = static_cast<IntermediateType>(m_value & (fraction_multiplier - 1));
            m_value = static_cast<Type>(static_cast<IntermediateType>(m_value >> fraction) * other.m_value);
            m_value = static_cast<Type>(m_value + ((low * other.m_value) >> fraction));
        }
        return *this;
    }

    constexpr inline fixed_num& operator*=(const std''')],
 H+'int main() { fixed32 a("2.5"_f32), b("1.5"_f32); a *= b; CHECK(a == "3.75"_f32); fixed64 d("-2.25"_f64); d *= "0.5"_f64; CHECK(d == "-1.125"_f64); b = "2.5"_f32; b *= b; CHECK(b == "6.25"_f32); }')
