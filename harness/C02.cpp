#include "arith.hpp"
using namespace h;
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] { replay_all<1>(TRACES.c_str()); }},
        {"pairs", [] { every([]<typename F>() { auto g = rng("pairs"); pairs<F>(g, 2, count(4000000, 100000000)); }); }},
        {"histories", [] { every([]<typename F>() { auto g = rng("hist"); histories<F, 1>(g, count(1000000, 20000000), {0, 1, 2, 17}, {2}); }); }},
    });
}
