#include "math.hpp"
using namespace h;
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", replay_math},
        {"values", [] { math_formats([]<typename F>() { each_op<F>({"exp"}, count(1000000, 40000000)); }); }},
        {"range", [] { math_formats([]<typename F>() {
            // where the result neither vanishes nor overflows, and around integers
            Int one = (Int)1 << tr<F>::frac, max = std::numeric_limits<T_<F>>::max();
            auto go = [](T_<F> v) { apply<F>("exp", v); };
            Int top = std::min(max, one * (Int)((tr<F>::bits - tr<F>::frac) * 0.6932 + 1)), bot = std::max(-max, -one * (Int)(tr<F>::frac * 0.6932 + 3));
            sweep<F>(bot, top, THOROUGH ? 100000000 : 4000000, go);
            auto g = rng("range");
            for(uint64_t i = count(500000, 10000000); i--;)
            {
                Int x = ((Int)g.below(100) - 50) * one + (Int)(g() >> (64 - 1 - g.below(tr<F>::frac))) * (g.flip() ? 1 : -1);
                if(x <= max && x >= -max) go((T_<F>)x);
            }
        }); }},
        {"unsigned", [] { unsigned_formats([]<typename F>() {
            Int one = (Int)1 << tr<F>::frac, max = std::numeric_limits<T_<F>>::max();
            sweep<F>(0, std::min(max, one * (Int)((tr<F>::bits - tr<F>::frac) * 0.6932 + 1)), THOROUGH ? 100000000 : 4000000, [](T_<F> v) { apply<F>("exp", v); });
            each_op<F>({"exp"}, count(500000, 10000000));
        }); }},
    });
}
