#include "math.hpp"
using namespace h;
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", replay_math},
        {"values", [] { math_formats([]<typename F>() { each_op<F>({"log2", "log", "log10"}, count(500000, 12000000)); }); }},
        {"positive", [] { math_formats([]<typename F>() {
            auto g = rng("positive");
            Int one = (Int)1 << tr<F>::frac, max = std::numeric_limits<T_<F>>::max();
            auto go = [](T_<F> v) { for(auto op : {"log2", "log", "log10"}) apply<F>(op, v); };
            sweep<F>(1, std::min(max, 4 * one), THOROUGH ? 20000000 : 300000, go);
            for(uint64_t i = count(200000, 8000000); i--;) go(pick_pos<F>(g));
            // powers of two and their neighbours, powers of ten
            for(int k = W; k < tr<F>::bits - 1; k += NW) for(Int d = -3; d <= 3; ++d) { Int x = ((Int)1 << k) + d; if(x <= max) go((T_<F>)x); }
            for(Int p = one; p <= max && W == 0; p *= 10) for(Int d = -3; d <= 3; ++d) if(p + d <= max) go((T_<F>)(p + d));
        }); }},
        {"unsigned", [] { unsigned_formats([]<typename F>() {
            auto g = rng("unsigned");
            auto go = [](T_<F> v) { for(auto op : {"log2", "log", "log10"}) apply<F>(op, v); };
            Int one = (Int)1 << tr<F>::frac, max = std::numeric_limits<T_<F>>::max();
            values<F>(g, count(800000, 20000000), go);
            sweep<F>(one, 4 * one, THOROUGH ? 20000000 : 300000, go);
            for(int k = W; k < tr<F>::bits; k += NW) for(Int d = -3; d <= 3; ++d) { Int x = ((Int)1 << k) + d; if(x >= 0 && x <= max) go((T_<F>)x); }
        }); }},
    });
}
