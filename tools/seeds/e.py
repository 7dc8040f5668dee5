FX='include/eirin/fixed.hpp'; MA='include/eirin/math.hpp'; NU='include/eirin/numbers.hpp'; CO='include/eirin/ext/cordic.hpp'; SI='include/eirin/ext/simd_math.hpp'
RA='include/eirin/random.hpp'; DI='include/eirin/detail/distribution.hpp'; FO='include/eirin/io/format.hpp'; UT='include/eirin/detail/util.hpp'; PE='include/eirin/detail/perf.hpp'; BI='include/eirin/ext/builtin_ints.hpp'
H='#include <eirin/eirin.hpp>\n#include <cstdio>\n#include <cmath>\n#include <sstream>\n#include <string>\n#include <type_traits>\nusing namespace eirin;\n#define CHECK(c) do { if(!(c)) { printf("failed: %s\\n", #c); return 1; } } while(0)\n'
seed('s97_allfrac', 'C34', 'a format whose fraction takes every bit of the store type', 'such a format can be declared although it cannot hold one half of its own scale',
 [(FX, 'concept fixed_num_fraction = fraction > 0 && fraction <= sizeof(Type) * 8 - 1;', 'concept fixed_num_fraction = fraction > 0 && fraction <= sizeof(Type) * 8;')],
 H+'template <typename T, typename I, unsigned f> concept format = requires { typename fixed_num<T, I, f>; };\nint main() { CHECK((format<int32_t, int64_t, 31>)); CHECK((!format<int32_t, int64_t, 32>)); }')
seed('s98_implicit', 'C34', 'a number of one format passed where another format is expected', 'numbers of different formats convert implicitly, losing their low bits',
 [(FX, '    EIRIN_ALWAYS_INLINE constexpr explicit fixed_num(fixed_num<T, I, f, r> fp) noexcept', '    EIRIN_ALWAYS_INLINE constexpr explicit(f > fraction) fixed_num(fixed_num<T, I, f, r> fp) noexcept')],
 H+'int main() { CHECK((std::is_constructible_v<fixed64, fixed32>)); CHECK((!std::is_convertible_v<fixed32, fixed64>)); CHECK((!std::is_convertible_v<fixed64, fixed32>)); }')
seed('s99_signness', 'C34', 'an unsigned store type with a signed intermediate type', 'a format of mixed signedness can be declared',
 [(FX, 'detail::is_signed<IntermediateType>::value == detail::is_signed<Type>::value;', 'detail::is_signed<IntermediateType>::value || !detail::is_signed<Type>::value;')],
 H+'template <typename T, typename I, unsigned f> concept format = requires { typename fixed_num<T, I, f>; };\nint main() { CHECK((format<uint32_t, uint64_t, 16>)); CHECK((!format<uint32_t, int64_t, 16>)); CHECK((!format<int32_t, uint64_t, 16>)); }')
seed('s100_engwidth', 'C34', 'an engine adapter of a wide format over an engine of narrower numbers', 'the adapter exists although its numbers never fill the upper half of the format',
 [(RA, '        requires sizeof(typename FixedType::value_type) <= sizeof(typename _RandomNumberEngine::result_type);', '        requires sizeof(typename FixedType::value_type) / 2 <= sizeof(typename _RandomNumberEngine::result_type);')],
 H+'#include <eirin/random.hpp>\ntemplate <typename F, typename E> concept adapter = requires { typename fixed_random_engine_adapter<F, E>; };\nint main() { CHECK((adapter<fixed32, pcg2014>)); CHECK((!adapter<fixed64, pcg2014>)); }')
seed('s101_boolconv', 'C34', 'a number where an integer is expected, through its truth value', 'a number converts implicitly to bool, so that numbers of different formats can be compared and added through it',
 [(FX, '''    template <std::integral T>
    constexpr inline explicit operator T() const noexcept''', '''    template <std::integral T>
    constexpr inline explicit(!std::is_same_v<T, bool>) operator T() const noexcept''')],
 H+'int main() { CHECK((std::is_constructible_v<bool, fixed32>)); CHECK((!std::is_convertible_v<fixed32, bool>)); CHECK((!std::is_convertible_v<fixed64, bool>)); }')
seed('s102_parameq', 'C24', 'parameters of a distribution adapter that share one bound', 'parameters compare equal when one bound is equal',
 [(DI, '''class fixed_distribution_adapter
{
public:
    typedef FixedType result_type;
    typedef typename result_type::value_type value_type;
    typedef std::make_unsigned_t<value_type> unsigned_type;
    typedef DistType underlying_type;

    struct param_type
    {
        using target_type = typename DistType::param_type;

        explicit param_type(const result_type& a = std::numeric_limits<result_type>::min(), const result_type& b = std::numeric_limits<result_type>::max())
            : m_a(a), m_b(b)
        {
            assert(a <= b);
        }

        result_type a() const
        {
            return m_a;
        }

        result_type b() const
        {
            return m_b;
        }

        friend bool operator==(const param_type& lhs, const param_type& rhs) noexcept
        {
            return lhs.m_a == rhs.m_a && lhs.m_b == rhs.m_b;''', '''class fixed_distribution_adapter
{
public:
    typedef FixedType result_type;
    typedef typename result_type::value_type value_type;
    typedef std::make_unsigned_t<value_type> unsigned_type;
    typedef DistType underlying_type;

    struct param_type
    {
        using target_type = typename DistType::param_type;

        explicit param_type(const result_type& a = std::numeric_limits<result_type>::min(), const result_type& b = std::numeric_limits<result_type>::max())
            : m_a(a), m_b(b)
        {
            assert(a <= b);
        }

        result_type a() const
        {
            return m_a;
        }

        result_type b() const
        {
            return m_b;
        }

        friend bool operator==(const param_type& lhs, const param_type& rhs) noexcept
        {
            return lhs.m_a == rhs.m_a || lhs.m_b == rhs.m_b;''')],
 H+'#include <eirin/random.hpp>\n#include <eirin/detail/distribution.hpp>\n#include <random>\ntemplate <typename A> int t() { using P = typename A::param_type; CHECK(P(fixed32(0), fixed32(2)) == P(fixed32(0), fixed32(2))); CHECK(P(fixed32(0), fixed32(2)) != P(fixed32(0), fixed32(1))); CHECK(!(P(fixed32(0), fixed32(2)) == P(fixed32(1), fixed32(2)))); return 0; }\nint main() { return t<fixed_distribution_adapter<fixed32, std::uniform_int_distribution<int32_t>>>() + t<fixed_int_distribution_adapter<fixed32, std::uniform_int_distribution<int32_t>>>(); }')
