#include "arith.hpp"
using namespace h;
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] { replay_all<2>(TRACES.c_str()); }},
        // every 8 bit number with every 8 bit integer, all operators, both sides
        {"small", [] { every([]<typename F>() {
            using T = T_<F>;
            auto& Fm = tr<F>::fmt();
            if constexpr(sizeof(T) == 1)
                shard(0, 65535, [&](Int v) {
                    T a = (T)(u8)(v & 255);
                    for(int t : {0, 1, 4, 5, 7}) for(int op = 0; op < 5; ++op) for(int form : {10, 11, 12})
                    {
                        Int n = t % 2 == 0 ? (Int)(i8)(v >> 8) : (Int)(u8)(v >> 8);
                        IntL before{(Int)a, 0, 0, 0};
                        if(!spec::stepX_(Fm, form, op, before, 0, 0, 1, n).ok) continue;
                        F R[4] = {raw<F>(a), raw<F>(0), raw<F>(0), raw<F>(0)};
                        announce("mixed", form, op, t, a, n);
                        bool threw = exec_step<F, 2>(R, form, op, 0, 0, 1, t, n);
                        seen(tr<F>::key() ^ mix(v * 1000 + t * 100 + op * 20 + form));
                        J(stepOk, Fm, (Int)form, (Int)op, before, (Int)0, (Int)0, (Int)1, n, IntL{rv(R[0]), rv(R[1]), rv(R[2]), rv(R[3])}, threw);
                    }
                });
        }); }},
        {"histories", [] { every([]<typename F>() { auto g = rng("hist"); histories<F, 2>(g, count(4000000, 100000000), {0, 10, 11, 12, 13, 14, 15}, {0, 1, 2, 3, 4}); }); }},
    });
}
