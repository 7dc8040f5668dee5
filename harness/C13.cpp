#include "math.hpp"
using namespace h;
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", replay_math},
        {"atan", [] { math_formats([]<typename F>() {
            auto g = rng("atan");
            values<F>(g, count(1500000, 40000000), [&](T_<F> v) { apply<F>("atan", v); });
        }); }},
        {"arc", [] { math_formats([]<typename F>() {
            Int one = (Int)1 << tr<F>::frac, max = std::numeric_limits<T_<F>>::max();
            auto go = [](T_<F> v) { for(auto op : {"asin", "acos"}) apply<F>(op, v); };
            sweep<F>(-one, one, THOROUGH ? 40000000 : 800000, go);
            sweep<F>(-4 * one, 4 * one, THOROUGH ? 40000000 : 800000, [](T_<F> v) { apply<F>("atan", v); });
            auto g = rng("arc");
            for(uint64_t i = count(400000, 10000000); i--;)
            {
                // close to the ends of the domain, and outside
                Int d = (Int)(g() >> (64 - 1 - g.below(tr<F>::frac + 1)));
                Int x = i % 8 == 0 ? one + d : i % 8 == 1 ? d % one : one - d;
                if(x > max) continue;
                go((T_<F>)x); go((T_<F>)-x);
            }
            values<F>(g, count(200000, 4000000), [&](T_<F> v) { go(v); });
        }); }},
    });
}
