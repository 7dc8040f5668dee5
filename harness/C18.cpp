#include "text.hpp"
using namespace h;
// literals: the text and the number the compiler made of it
struct Lit { const char* text; Int v; int f64; };
#define L32(x) {#x, 0, 0}
#define S64(x) {#x, rv(x##_f64), 1}
#define Q32(s) {s, rv(s##_f32), 0}
#define Q64(s) {s, rv(s##_f64), 1}
static IntL strict32(std::string const& t, Int old)
{
    Exact e(t);
    F32 x = raw<F32>((i32)old);
    announce("f32_from_cstring");
    bool ok = eirin::f32_from_cstring(e.p, e.n, x);
    return {(Int)ok, rv(x)};
}
template <typename F> IntL lenient(std::string const& t, Int old)
{
    Exact e(t);
    F x = raw<F>((T_<F>)old);
    announce("fixed_from_cstring");
    bool ok = eirin::fixed_from_cstring(e.p, e.n, x);
    return {(Int)ok, rv(x)};
}
// the literal operators have no way to report failure: only asked about numbers
static void literals(std::string const& t)
{
    Exact e(t);
    auto l = codes(t);
    announce("literal");
    if(spec::strictX_(tr<F32>::fmt(), 0, l)[0] == 1) J(strictOk, tr<F32>::fmt(), (Int)0, l, (IntL{1, rv(eirin::operator""_f32(e.p, e.n))}));
    if(spec::strictX_(tr<F64>::fmt(), 0, l)[0] == 1) J(strictOk, tr<F64>::fmt(), (Int)0, l, (IntL{1, rv(eirin::operator""_f64(e.p, e.n))}));
}
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] {
            auto ts = load_traces(TRACES);
            for(size_t n = W; n < ts.size(); n += NW)
                for(auto& s : ts[n])
                {
                    if(s.op == "strict" && PART == 0) expect<F32>(s, vec(strict32(text_of(s.a, 1), s.a[0])), n);
                    if(s.op == "lenient") with_format(ALL{}, s.a[0], [&]<typename F>() { expect<F>(s, vec(lenient<F>(text_of(s.a, 2), s.a[1])), n); });
                }
        }},
        {"texts", [] { every([]<typename F>() {
            auto g = rng(("texts" + tr<F>::name()).c_str());
            for(uint64_t i = count(60000, 3000000); i; --i)
            {
                std::string t = gen_text<F>(g);
                seen(key_of(t) ^ tr<F>::key());
                Int old = (Int)pick<F>(g);
                auto l = codes(t);
                J(lenientOk, tr<F>::fmt(), old, l, lenient<F>(t, old));
                if constexpr(std::is_same_v<F, F32>) J(strictOk, tr<F32>::fmt(), old, l, strict32(t, old));
                if(i % 2) literals(t);
            }
        }); }},
        // every short text over a small alphabet
        {"short", [] {
            static const char al[] = "0159.-x";
            for(int len = 0, total = 1; len <= (THOROUGH ? 8 : 6); ++len, total *= 7)
                for(int q = W; q < total; q += NW)
                {
                    std::string t; for(int i = 0, r = q; i < len; ++i, r /= 7) t += al[r % 7];
                    auto l = codes(t);
                    seen(key_of(t));
                    if(PART == 0) { J(strictOk, tr<F32>::fmt(), (Int)9, l, strict32(t, 9)); J(lenientOk, tr<F64>::fmt(), (Int)9, l, lenient<F64>(t, 9)); literals(t); }
                    else if(PART == 1) { using N = FX<i8, i16, 4>; J(lenientOk, tr<N>::fmt(), (Int)9, l, lenient<N>(t, 9)); }
                    else if(PART == 2) { using N = FX<u8, u16, 4>; J(lenientOk, tr<N>::fmt(), (Int)9, l, lenient<N>(t, 9)); }
                }
        }},
        {"literals in source", [] {
            if(PART != 0 || W != 0) return;
            using namespace eirin::literals;
            const Lit t[] = {S64(0.1), S64(1.5), S64(3.14159265358979), S64(2147483647.999), S64(2147483647.99999999976716935634613037109375), S64(0.00000000023283064365386962890625), S64(0.0000000001), S64(12345.678901234), S64(7), S64(0), S64(1000000.000001), S64(0.3333333333333333333333), S64(.5), S64(2147483647),
                Q32("0.1"), Q32("-1.5"), Q32("32767.9999"), Q32("-32768"), Q32("-32767.99999"), Q32("3.14159"), Q32("0.00001526"), Q32("12"), Q32("-0.75"), Q32("0.99999999999"),
                Q64("0.1"), Q64("-1.5"), Q64("-2147483648"), Q64("-2147483647.5"), Q64("3.14159265358979323846"), Q64("0.0000000003"), Q64("-0.0000000003"), Q64("99.999999999999999999999")};
            for(auto& x : t) { seen(key_of(x.text) ^ 5); J(strictOk, x.f64 ? tr<F64>::fmt() : tr<F32>::fmt(), (Int)0, codes(std::string(x.text)), (IntL{1, x.v})); }
        }},
    });
}
