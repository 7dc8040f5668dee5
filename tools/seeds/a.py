FX='include/eirin/fixed.hpp'; MA='include/eirin/math.hpp'
H='#include <eirin/eirin.hpp>\n#include <cstdio>\nusing namespace eirin;\n#define CHECK(c) do { if(!(c)) { printf("failed: %s\\n", #c); return 1; } } while(0)\n'
seed('s01_postdec', 'C01', 'the value returned by postfix decrement is used', 'postfix decrement returns the new value',
 [(FX, '        fixed_num temp = *this;\n        m_value -= Type(1) << fraction;\n        return temp;', '        m_value -= Type(1) << fraction;\n        fixed_num temp = *this;\n        return temp;')],
 H+'int main() { fixed32 a(3); fixed32 b = a--; CHECK(a == fixed32(2)); CHECK(b == fixed32(3)); }')
seed('s02_muleq', 'C02', 'compound multiplication with an inexact negative product', 'a *= b rounds towards zero while a * b rounds down',
 [(FX, 'auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) >> fraction;', 'auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / fraction_multiplier;')],
 H+'int main() { fixed32 a = fixed32::from_internal_value(-3), b = fixed32(0.5); fixed32 c = a; c *= b; CHECK(c == a * b); CHECK(c.internal_value() == -2); }')
seed('s03_divzero', 'C03', 'checked in-place division by a non-zero number smaller than one', 'divide_by throws divide_by_zero for divisors below one',
 [(FX, '''    EIRIN_ALWAYS_INLINE constexpr fixed_num& divide_by(const fixed_num& other)
    {
        if(other.m_value == 0) [[unlikely]]''', '''    EIRIN_ALWAYS_INLINE constexpr fixed_num& divide_by(const fixed_num& other)
    {
        if(other.integral_part() == 0 && other.m_value < fraction_multiplier / 4) [[unlikely]]''')],
 H+'int main() { fixed32 a(1); try { a.divide_by(fixed32(0.125)); } catch(...) { puts("threw"); return 1; } CHECK(a == fixed32(8)); }')
seed('s04_subint', 'C04', 'subtracting an unsigned 32-bit integer from a 64-bit number', 'the unsigned operand is negated in its own type before it is widened',
 [(FX, 'm_value -= static_cast<Type>(val) << fraction;', 'm_value += static_cast<Type>(-val) << fraction;')],
 H+'int main() { using W = fixed_num<int64_t, __int128, 16>; W a(5); a -= 2u; CHECK(a == W(3)); fixed64 b(5); b -= 2; CHECK(b == fixed64(3)); }')
seed('s05_cmp', 'C05', 'two unsigned numbers whose difference exceeds half of the range', 'ordering by the sign of the difference',
 [(FX, 'return m_value <=> rhs.m_value;', 'return static_cast<std::make_signed_t<Type>>(m_value - rhs.m_value) <=> std::make_signed_t<Type>(0);')],
 H+'int main() { using U = fixed_num<uint32_t, uint64_t, 16>; U a(60000), b(1); CHECK(a > b); CHECK(b < a); }')
seed('s06_conv', 'C06', 'a negative number with more fraction bits than the target, not representable exactly', 'narrowing conversion rounds down instead of towards zero',
 [(FX, 'fixed_num(static_cast<Type>(inner_value / (T(1) << (_fraction - fraction))), raw_value_construct_tag{});', 'fixed_num(static_cast<Type>(inner_value >> (_fraction - fraction)), raw_value_construct_tag{});')],
 H+'int main() { fixed64 a = fixed64::from_internal_value(-3); CHECK(fixed32(a).internal_value() == 0); }')
seed('s07_toint', 'C07', 'a negative number with a fraction converted to an integer type', 'conversion to integers truncates instead of flooring',
 [(FX, 'return static_cast<T>(m_value >> fraction);', 'return static_cast<T>(m_value / (IntermediateType(1) << fraction));')],
 H+'int main() { CHECK((int)fixed32(-1.5) == -2); CHECK((int)fixed32(1.5) == 1); }')
seed('s08_round', 'C08', 'a negative number exactly half way or just beyond', 'round() of negative halves goes up instead of away from zero',
 [(MA, 'auto value = fp.internal_value() / (frac_mult / 2);\n    return fixed::from_internal_value((value / 2 + (value % 2)) << f);', 'auto value = fp.internal_value() + (frac_mult / 2);\n    return fixed::from_internal_value((value >> f) << f);')],
 H+'int main() { CHECK(eirin::round(fixed32(-1.5)) == fixed32(-2)); CHECK(eirin::round(fixed32(1.5)) == fixed32(2)); }')
seed('s09_min', 'C09', 'unsigned format, first argument smaller than the second', 'min() decides by the sign of the difference, which an unsigned store type does not have',
 [(MA, 'return a_i < b_i ? a : b;', 'return a_i - b_i < 0 ? a : b;')],
 H+'int main() { using U = fixed_num<uint32_t, uint64_t, 16>; CHECK(eirin::min(U(1), U(2)) == U(1)); CHECK(eirin::min(fixed32(1), fixed32(2)) == fixed32(1)); }')
seed('s10_frac', 'C09', 'a negative number with a fraction', 'fractional_part() returns the low bits, without the sign of the number',
 [(FX, 'return m_value % (static_cast<Type>(1) << fraction);', 'return m_value & ((static_cast<Type>(1) << fraction) - 1);')],
 H+'int main() { CHECK(fixed32(-1.25).fractional_part() == -16384); CHECK(fixed32(1.25).fractional_part() == 16384); }')
