#include "val.hpp"
using namespace h;
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] {
            auto ts = load_traces(TRACES);
            for(size_t n = W; n < ts.size(); n += NW)
                for(auto& s : ts[n])
                    with_format(ALL{}, s.a.at(0), [&]<typename F>() {
                        if(s.a.size() < 2) return;
                        F a = raw<F>((T_<F>)s.a[1]);
                        announce("replay", n);
                        if(s.op == "part") expect<F>(s, vec(part_of(a)), n);
                        if(s.op == "abs") expect<F>(s, {rv(eirin::abs(a))}, n);
                        if(s.op == "minmax") { F b = raw<F>((T_<F>)s.a[2]); expect<F>(s, {rv(eirin::min(a, b)), rv(eirin::max(a, b))}, n); }
                    });
        }},
        {"values", [] { every([]<typename F>() {
            auto g = rng("values");
            auto& Fm = tr<F>::fmt();
            values<F>(g, count(3000000, 100000000), [&](T_<F> v) {
                F a = raw<F>(v), b = raw<F>(pick<F>(g));
                announce("parts", v);
                seen(tr<F>::key() ^ mix((u64)v));
                J(partOk, Fm, (Int)v, part_of(a));
                if(spec::fits_(Fm, spec::iabs_(v))) J(absOk, (Int)v, rv(eirin::abs(a)));
                J(minmaxOk, (Int)v, rv(b), rv(eirin::min(a, b)), rv(eirin::max(a, b)));
                if(v % 4 == 0) { F c = raw<F>((T_<F>)(v ^ 1)); J(minmaxOk, (Int)v, rv(c), rv(eirin::min(a, c)), rv(eirin::max(a, c))); }
            });
        }); }},
    });
}
