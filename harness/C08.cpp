#include "val.hpp"
using namespace h;
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] {
            auto ts = load_traces(TRACES);
            for(size_t n = W; n < ts.size(); n += NW)
                for(auto& s : ts[n])
                    with_format(ALL{}, s.a.at(0), [&]<typename F>() {
                        announce("replay", n);
                        if(s.op == "rnd") expect<F>(s, {rv(rnd_of((int)s.a[1], raw<F>((T_<F>)s.a[2])))}, n);
                        if(s.op == "modf") { F w = raw<F>(1), r = eirin::modf(raw<F>((T_<F>)s.a[1]), w); expect<F>(s, {rv(w), rv(r)}, n); }
                    });
        }},
        {"values", [] { every([]<typename F>() {
            auto g = rng("values");
            auto& Fm = tr<F>::fmt();
            values<F>(g, count(3000000, 100000000), [&](T_<F> v) {
                F a = raw<F>(v);
                seen(tr<F>::key() ^ mix((u64)v));
                for(int op = 0; op < 4; ++op)
                {
                    if(!spec::rndDef_(Fm, op, v)) continue;
                    announce(op == 0 ? "floor" : op == 1 ? "ceil" : op == 2 ? "trunc" : "round", v);
                    J(rndOk, Fm, (Int)op, (Int)v, rv(rnd_of(op, a)));
                }
                announce("modf", v);
                F w = raw<F>(7), r = eirin::modf(a, w);
                J(modfOk, Fm, (Int)v, rv(w), rv(r));
                // the whole part may be written over the argument's own object
                F b = a; F r2 = eirin::modf(b, b);
                J(modfOk, Fm, (Int)v, rv(b), rv(r2));
            });
        }); }},
        {"all fixed32", [] { if(THOROUGH && PART == 0) {
            auto& Fm = tr<F32>::fmt();
            shard(INT32_MIN, INT32_MAX, [&](Int v) {
                F32 a = raw<F32>((i32)v);
                me->evals.fetch_add(1, std::memory_order_relaxed);
                for(int op = 0; op < 4; ++op) if(spec::rndDef_(Fm, op, v)) J(rndOk, Fm, (Int)op, v, rv(rnd_of(op, a)));
            });
        } }},
    });
}
