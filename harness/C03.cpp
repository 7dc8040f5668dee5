#include "arith.hpp"
using namespace h;
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] { replay_all<1>(TRACES.c_str()); }},
        {"pairs", [] { every([]<typename F>() { auto g = rng("pairs"); for(int op : {3, 4}) pairs<F>(g, op, count(2000000, 60000000)); }); }},
        {"histories", [] { every([]<typename F>() { auto g = rng("hist"); histories<F, 1>(g, count(1000000, 20000000), {0, 1, 2, 3, 4, 17}, {3, 4}); }); }},
        // exact division by zero of every kind of dividend
        {"by zero", [] { every([]<typename F>() {
            auto g = rng("zero");
            auto& Fm = tr<F>::fmt();
            for(uint64_t i = count(80000, 4000000); i; --i)
            {
                F R[4] = {raw<F>(pick<F>(g)), raw<F>(0), raw<F>(pick<F>(g)), raw<F>(0)};
                IntL before{rv(R[0]), rv(R[1]), rv(R[2]), rv(R[3])};
                int form = g.flip() ? 3 : 4, j = g.flip() ? 1 : 3, k = g.below(4);
                announce("checked division by zero", form, j, k);
                bool threw = exec_step<F, 1>(R, form, 3, 0, j, k, 0, 0);
                IntL after{rv(R[0]), rv(R[1]), rv(R[2]), rv(R[3])};
                seen(tr<F>::key() ^ mix((u64)before[0]) ^ form);
                J(stepOk, Fm, (Int)form, (Int)3, before, (Int)0, (Int)j, (Int)k, (Int)0, after, threw);
            }
        }); }},
    });
}
