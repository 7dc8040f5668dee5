#include "math.hpp"
using namespace h;
template <typename F> void apply_sqrt(T_<F> v)
{
    announce("sqrt", tr<F>::bits, tr<F>::frac, tr<F>::sgd, tr<F>::rnd, v);
    seen(tr<F>::key() ^ mix((u64)v));
    J(sqrtOk, tr<F>::fmt(), (Int)v, rv(eirin::sqrt(raw<F>(v))));
}
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", replay_math},
        {"values", [] { math_formats([]<typename F>() { each_op<F>({"sqrt"}, count(3000000, 60000000)); }); }},
        {"every format", [] { every([]<typename F>() {
            auto g = rng("every");
            values<F>(g, count(1000000, 20000000), [&](T_<F> v) { if(std::is_signed_v<T_<F>> || v >= 0) apply_sqrt<F>(v); });
            constexpr int half = (tr<F>::bits + tr<F>::frac) / 2;
            for(uint64_t i = count(500000, 10000000); i--;)
            {
                // legs of any size that leave room for the sum of their squares
                Int l[3];
                for(auto& x : l) { x = (Int)(g() & ((u64(1) << g.below(half < 62 ? half + 1 : 62)) - 1)); if(std::is_signed_v<T_<F>> && g.flip()) x = -x; x = (Int)(T_<F>)x; }
                auto& Fm = tr<F>::fmt();
                announce("hypot", tr<F>::bits, tr<F>::frac, tr<F>::sgd, tr<F>::rnd, l[0], l[1], l[2]);
                seen(tr<F>::key() ^ mix((u64)l[0] + mix((u64)l[1] + mix((u64)l[2]))));
                F a = raw<F>((T_<F>)l[0]), b = raw<F>((T_<F>)l[1]), c = raw<F>((T_<F>)l[2]);
                if(spec::hypotDef_(Fm, IntL{l[0], l[1]})) J(hypotOk, Fm, (IntL{l[0], l[1]}), rv(eirin::hypot(a, b)));
                if(spec::hypotDef_(Fm, IntL{l[0], l[1], l[2]})) J(hypotOk, Fm, (IntL{l[0], l[1], l[2]}), rv(eirin::hypot(a, b, c)));
            }
        }); }},
        {"squares", [] { math_formats([]<typename F>() {
            // around squares, where the root changes
            auto g = rng("squares");
            for(uint64_t i = count(2000000, 40000000); i--;)
            {
                Int r = (Int)(u64)pick_pos<F>(g), x = (r * r >> tr<F>::frac) + (Int)g.below(5) - 2;
                if(r < ((Int)1 << 60) && x >= 0 && x <= (Int)std::numeric_limits<T_<F>>::max()) apply<F>("sqrt", (T_<F>)x);
            }
        }); }},
        {"hypot", [] { math_formats([]<typename F>() {
            auto g = rng("hypot");
            constexpr int half = (tr<F>::bits - 1 + tr<F>::frac) / 2;
            for(uint64_t i = count(2000000, 40000000); i--;)
            {
                int k = 1 + (int)g.below(half), k2 = g.below(3) ? k : 1 + (int)g.below(half);
                auto x = small<F>(g, k), y = small<F>(g, k2), z = small<F>(g, g.flip() ? k : 1 + (int)g.below(half));
                if(i % 16 == 0) (g.flip() ? x : y) = 0;
                // pythagorean triples
                if(i % 16 == 1) { Int m = small<F>(g, half - 3); x = (T_<F>)(3 * m); y = (T_<F>)(4 * m); }
                auto& Fm = tr<F>::fmt();
                if(spec::hypotDef_(Fm, IntL{x, y})) apply<F>("hypot", x, y);
                if(spec::hypotDef_(Fm, IntL{x, y, z})) apply<F>("hypot3", x, y, z);
            }
        }); }},
        {"all", [] { if(PART == 6 % PARTS) sweep<F32>(-1000, std::numeric_limits<i32>::max(), THOROUGH ? u64(1) << 31 : 40000000, [](i32 v) { apply<F32>("sqrt", v); }); }},
    });
}
