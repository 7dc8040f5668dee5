#include "math.hpp"
using namespace h;
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", replay_math},
        {"fmod", [] { math_formats([]<typename F>() {
            auto g = rng("fmod");
            auto& Fm = tr<F>::fmt();
            auto go = [&](Int a, Int b) { if(b != 0 && spec::fmodDef_(Fm, a, b)) apply<F>("fmod", (T_<F>)a, (T_<F>)b); };
            auto& e = edges<F>();
            for(size_t i = W; i < e.size(); i += NW) for(auto b : e) go(e[i], b);
            for(uint64_t i = count(2000000, 60000000); i--;)
            {
                Int a = pick<F>(g), b = pick<F>(g);
                // near multiples
                if(i % 4 == 0 && b) { Int q = a / b; Int x = b * q + (Int)g.below(5) - 2; if(x <= (Int)std::numeric_limits<T_<F>>::max() && x >= (Int)std::numeric_limits<T_<F>>::min()) a = x; }
                go(a, b);
            }
        }); }},
        {"angles", [] { math_formats([]<typename F>() {
            Int one = (Int)1 << tr<F>::frac, max = std::numeric_limits<T_<F>>::max();
            each_op<F>({"degrees", "radians"}, count(1500000, 40000000));
            sweep<F>(std::max(-max, -800 * one), std::min(max, 800 * one), THOROUGH ? 40000000 : 2000000, [](T_<F> v) { for(auto op : {"degrees", "radians"}) apply<F>(op, v); });
            for(Int d = -720; d <= 720; ++d) if((d + 720) % NW == W && d * one <= max && d * one >= -max) apply<F>("radians", (T_<F>)(d * one));
        }); }},
        {"unsigned", [] { unsigned_formats([]<typename F>() {
            auto g = rng("unsigned");
            auto& Fm = tr<F>::fmt();
            for(uint64_t i = count(2000000, 60000000); i--;)
            {
                Int a = pick<F>(g), b = pick<F>(g);
                if(i % 4 == 0 && b) { Int x = a / b * b + (Int)g.below(5) - 2; if(x >= 0 && x <= (Int)std::numeric_limits<T_<F>>::max()) a = x; }
                if(b != 0 && spec::fmodDef_(Fm, a, b)) apply<F>("fmod", (T_<F>)a, (T_<F>)b);
            }
            each_op<F>({"degrees", "radians"}, count(1500000, 40000000));
        }); }},
    });
}
