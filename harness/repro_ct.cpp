// the cases of the specification's behaviours, evaluated by the compiler
#include "repro.hpp"
struct Rec { int op, f; int64_t a, b; uint64_t r; };
#define X(n, op, f, a, b) constexpr uint64_t ct##n = rp::ev<op, typename rp::fmt<f>::t>(a, b);
#include "ct.inc"
#undef X
static const Rec table[] = {
#define X(n, op, f, a, b) {op, f, a, b, ct##n},
#include "ct.inc"
#undef X
};
extern "C" __attribute__((visibility("default"))) const Rec* repro_ct(int* n) { *n = sizeof table / sizeof *table; return table; }
