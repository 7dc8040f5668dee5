#include "arith.hpp"
using namespace h;
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] { replay_all<1>(TRACES.c_str()); }},
        {"pairs", [] { every([]<typename F>() { auto g = rng("pairs"); for(int op : {0, 1}) pairs<F>(g, op, count(2000000, 60000000)); }); }},
        {"histories", [] { every([]<typename F>() { auto g = rng("hist"); histories<F, 1>(g, count(2000000, 60000000), {0, 1, 2, 5, 6, 7, 8, 9, 16, 17}, {0, 1}); }); }},
    });
}
