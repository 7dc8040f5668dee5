#include "val.hpp"
#include <eirin/random.hpp>
#include <eirin/detail/distribution.hpp>
#include <string>
#include <map>
#include <random>
#include <compare>
using namespace h;
namespace {
enum Plain { zero_of_plain };
enum class Scoped { zero };
struct Other {};
// the types of TYS in spec/types.qnt, in that order
template <typename... T> struct list {};
using TYPES = list<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long,
                   wchar_t, char8_t, char16_t, char32_t, i128, u128, float, double, long double, const char*, std::string, void*, Plain, Scoped, std::nullptr_t, Other>;
constexpr int NT = 28, NF = 71;
template <int N, typename T, typename... R> auto nth(list<T, R...>) { if constexpr(N == 0) return std::type_identity<T>{}; else return nth<N - 1>(list<R...>{}); }
template <int N> using type_at = typename decltype(nth<N>(TYPES{}))::type;
template <typename Fn, size_t... N> void each_type(Fn fn, std::index_sequence<N...>) { (fn.template operator()<(int)N>(), ...); }
template <typename Fn> void each_type(Fn fn) { each_type(fn, std::make_index_sequence<NT>{}); }

// does the format exist
template <typename S, typename I, unsigned f> concept format = requires { typename eirin::fixed_num<S, I, f>; };
template <typename S, typename I, size_t... f> constexpr auto formats_of(std::index_sequence<f...>) { return std::array<bool, sizeof...(f)>{format<S, I, (unsigned)f>...}; }
using Row = std::array<bool, NF>;
template <int S, int I> Row row() { static constexpr Row r = formats_of<type_at<S>, type_at<I>>(std::make_index_sequence<NF>{}); return r; }
std::vector<Row> matrix()
{
    std::vector<Row> m(NT * NT);
    each_type([&]<int S>() { each_type([&]<int I>() { if constexpr(I <= 17) m[S * NT + I] = row<S, I>(); }); });
    return m;
}
// 1: the expression has a meaning and type F; 2: another type
#define MEANS(F, expr) ([]<typename A, typename B>(std::type_identity<A>, std::type_identity<B>) -> Int { \
    if constexpr(requires(A a, B b, A& l) { expr; }) { using R = std::remove_cvref_t<decltype([](A a, B b, A& l) -> decltype(auto) { return (expr); }(std::declval<A>(), std::declval<B>(), std::declval<A&>()))>; return std::is_same_v<R, F> || std::is_same_v<R, bool> || std::is_same_v<R, std::strong_ordering> ? 1 : 2; } \
    else return 0; }(std::type_identity<X>{}, std::type_identity<Y>{}))
template <typename F, typename G> IntL mix()
{
    using namespace eirin;
    using X = F; using Y = G;
    return {MEANS(F, a + b), MEANS(F, a - b), MEANS(F, a * b), MEANS(F, a / b), MEANS(F, a % b), MEANS(F, l += b), MEANS(F, l -= b), MEANS(F, l *= b), MEANS(F, l /= b), MEANS(F, l %= b), MEANS(F, l = b),
            MEANS(F, a == b), MEANS(F, a != b), MEANS(F, a < b), MEANS(F, a >= b), MEANS(F, a <=> b), MEANS(F, a.nearly_eq(b)), MEANS(F, a.divide(b)),
            MEANS(F, pow(a, b)), MEANS(F, fmod(a, b)), MEANS(F, eirin::min(a, b)), MEANS(F, eirin::max(a, b)), MEANS(F, eirin::hypot(a, b))};
}
template <typename F, typename T> IntL with()
{
    IntL r;
    { using X = F; using Y = T; for(Int e : {MEANS(F, a + b), MEANS(F, a - b), MEANS(F, a * b), MEANS(F, a / b), MEANS(F, a % b), MEANS(F, l += b), MEANS(F, l -= b), MEANS(F, l *= b), MEANS(F, l /= b), MEANS(F, l %= b), MEANS(F, a.divide(b))}) r.push_back(e); }
    { using X = T; using Y = F; for(Int e : {MEANS(F, a + b), MEANS(F, a - b), MEANS(F, a * b), MEANS(F, a / b), MEANS(F, a % b)}) r.push_back(e); }
    return r;
}
template <typename F, typename T> IntL cast() { return {std::is_constructible_v<F, T>, std::is_convertible_v<T, F>, std::is_constructible_v<T, F>, std::is_convertible_v<F, T>}; }
template <auto v> struct Carrier { static constexpr auto value = v; };
template <typename F> concept structural = requires { typename Carrier<F::from_internal_value(1)>; };
template <typename F> IntL layout()
{
    return {(Int)sizeof(F) * 8, (Int)alignof(F) * 8, (Int)alignof(T_<F>) * 8, std::is_trivially_copyable_v<F>, std::is_standard_layout_v<F>, structural<F>,
            eirin::is_fixed_point_v<F> && eirin::is_fixed_point_v<const F> && eirin::fixed_point<F> && !eirin::is_fixed_point_v<F*> && !eirin::is_fixed_point_v<T_<F>>};
}
template <typename F, typename D> concept dist1 = requires { typename eirin::fixed_int_distribution_adapter<F, D>; };
template <typename F, typename D> concept dist2 = requires { typename eirin::fixed_distribution_adapter<F, D>; };
template <typename F, typename E> concept engine = requires { typename eirin::fixed_random_engine_adapter<F, E>; };
template <typename R> struct Dist { using result_type = R; };
template <typename U> struct Engine { using result_type = U; static constexpr U min() { return 0; } static constexpr U max() { return (U)-1; } U operator()() { return 4; } };
template <typename Fn> void each_fmt(Fn fn) { int n = 0; [&]<typename... F>(fmts<F...>) { (fn.template operator()<F>(n++), ...); }(ALL{}); }
struct Tables {
    std::vector<Row> exists = matrix();
    std::map<std::pair<int, int>, IntL> mixes, recasts, withs, casts;
    Tables()
    {
        each_fmt([&]<typename F>(int f) {
            each_fmt([&]<typename G>(int g) { mixes[{f, g}] = mix<F, G>(); recasts[{f, g}] = cast<F, G>(); });
            each_type([&]<int X>() { if constexpr(X != 16 && X != 17) { withs[{f, X}] = with<F, type_at<X>>(); casts[{f, X}] = cast<F, type_at<X>>(); } });
        });
    }
};
} // namespace
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] {
            static Tables t;
            auto ts = load_traces(TRACES);
            for(size_t n = W; n < ts.size(); n += NW)
                for(auto& s : ts[n])
                {
                    announce("replay", n);
                    auto at = [&](auto& m) { return m.at({(int)s.a[0], (int)s.a[1]}); };
                    IntL got;
                    if(s.op == "format") got = {t.exists[(size_t)s.a[0] * NT + (size_t)s.a[1]].at((size_t)s.a[2])};
                    else if(s.op == "cast") got = at(t.casts);
                    else if(s.op == "recast") got = at(t.recasts);
                    else if(s.op == "mix" || s.op == "with") { auto l = s.op == "mix" ? at(t.mixes) : at(t.withs); got = {l[0]}; for(Int x : l) if(x != (Int)s.r[0]) got = {x}; }
                    else continue;
                    me->steps.fetch_add(1, std::memory_order_relaxed);
                    if(got != IntL(s.r.begin(), s.r.end())) violation("behaviour " + std::to_string(n) + " of the specification not followed: " + show_step(s) + ", got " + show(got));
                }
        }},
        {"formats", [] { if(W == 0) {
            auto m = matrix();
            for(int s = 1; s < NT; ++s) for(int i = 1; i <= 17; ++i) for(int f = 0; f < NF; ++f)
            {
                announce("format", s, i, f);
                seen(h::mix((u64)s * 10000 + (u64)i * 100 + (u64)f));
                J(formatOk, (Int)s, (Int)i, (Int)f, (bool)m[s * NT + i][f]);
            }
        } }},
        {"expressions", [] { if(W == 1 % NW) {
            Tables t;
            for(auto& [k, l] : t.mixes) { announce("mix", k.first, k.second); seen(h::mix(1000 + k.first * 100 + k.second)); J(mixOk, k.first == k.second, l); }
            for(auto& [k, l] : t.recasts) { announce("recast", k.first, k.second); seen(h::mix(11000 + k.first * 100 + k.second)); J(recastOk, k.first == k.second, l); }
            for(auto& [k, l] : t.withs) { announce("with", k.first, k.second); seen(h::mix(21000 + k.first * 100 + k.second)); J(withOk, (Int)k.second, l); }
            for(auto& [k, l] : t.casts) { announce("cast", k.first, k.second); seen(h::mix(31000 + k.first * 100 + k.second)); J(castOk, (Int)k.second, l); }
        } }},
        {"layout", [] { if(W == 2 % NW) every([]<typename F>() {
            announce("layout", tr<F>::bits, tr<F>::frac);
            seen(tr<F>::key());
            J(layoutOk, tr<F>::fmt(), layout<F>());
            each_type([]<int X>() { if constexpr(X > 0 && X <= 20 && X != 16 && X != 17) { announce("distribution", X); J(distOk, (Int)X, (IntL{dist1<F, Dist<type_at<X>>>, dist2<F, Dist<type_at<X>>>})); } });
            announce("engine", tr<F>::bits);
            J(engineOk, tr<F>::fmt(), (Int)8, engine<F, Engine<u8>>); J(engineOk, tr<F>::fmt(), (Int)16, engine<F, Engine<u16>>); J(engineOk, tr<F>::fmt(), (Int)32, engine<F, Engine<u32>>);
            J(engineOk, tr<F>::fmt(), (Int)64, engine<F, Engine<u64>>); J(engineOk, tr<F>::fmt(), (Int)32, engine<F, eirin::pcg2014>); J(engineOk, tr<F>::fmt(), (Int)64, engine<F, eirin::pcg2014_64>);
        }); }},
    });
}
