#include "math.hpp"
using namespace h;
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", replay_math},
        {"values", [] { math_formats([]<typename F>() { each_op<F>({"sin", "cos", "tan"}, count(600000, 20000000)); }); }},
        {"turns", [] { math_formats([]<typename F>() {
            // the first turns, and around multiples of an eighth of a turn
            Int one = (Int)1 << tr<F>::frac, max = std::numeric_limits<T_<F>>::max();
            auto go = [](T_<F> v) { for(auto op : {"sin", "cos", "tan"}) apply<F>(op, v); };
            sweep<F>(std::max(-max, -14 * one), std::min(max, 14 * one), THOROUGH ? 60000000 : 1200000, go);
            auto g = rng("turns");
            long double e = std::ldexp(0.785398163397448309615L, tr<F>::frac);
            for(uint64_t i = count(300000, 10000000); i--;)
            {
                long double t = (i % 4 ? (long double)g.below(64) : (long double)(g() >> (g.below(60) + 4))) * e;
                if(!(t < (long double)max - 100)) continue;
                Int x = (Int)t + (Int)g.below(9) - 4;
                if(i % 3 == 0) x += (Int)g.below((u64)one / 32 + 1);
                if(x > max) continue;
                go((T_<F>)(g.flip() ? x : -x));
            }
        }); }},
    });
}
