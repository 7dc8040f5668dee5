#include "math.hpp"
using namespace h;
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", replay_math},
        {"values", [] { math_formats([]<typename F>() {
            auto g = rng("values");
            values<F>(g, count(1500000, 40000000), [&](T_<F> v) { apply<F>("cbrt", v); });
        }); }},
        {"cubes", [] { math_formats([]<typename F>() {
            auto g = rng("cubes");
            Int one = (Int)1 << tr<F>::frac, max = std::numeric_limits<T_<F>>::max();
            for(uint64_t i = count(800000, 20000000); i--;)
            {
                Int r = (Int)(u64)pick_pos<F>(g);
                if(r >= ((Int)1 << 55)) continue;
                Int x = (r * r >> tr<F>::frac);
                if(x > max || (x * r >> tr<F>::frac) > max) continue;
                x = (x * r >> tr<F>::frac) + (Int)g.below(5) - 2;
                if(x > max) continue;
                apply<F>("cbrt", (T_<F>)x); apply<F>("cbrt", (T_<F>)-x);
            }
            for(Int k = 1; k * k * k * one <= max && k < 3000; ++k) if(k % NW == W) for(Int d = -2; d <= 2; ++d) { Int x = k * k * k * one + d; if(x <= max) { apply<F>("cbrt", (T_<F>)x); apply<F>("cbrt", (T_<F>)-x); } }
        }); }},
        {"unsigned", [] { unsigned_formats([]<typename F>() { each_op<F>({"cbrt"}, count(3000000, 40000000)); }); }},
    });
}
