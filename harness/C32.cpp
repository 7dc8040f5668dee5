#include "val.hpp"
#include <eirin/detail/perf.hpp>
using namespace h;
template <typename F> IntL measure(i64 start, i64 step, std::vector<i64> const& errs, std::vector<i64> const& base, int excess)
{
    announce("measure_esp", tr<F>::bits, start, step, errs.size());
    auto at = [&](F x) { return (size_t)(((Int)rv(x) - start) / step); };
    auto r = eirin::perf::measure_esp<F>(raw<F>((T_<F>)start), raw<F>((T_<F>)(start + step * ((i64)errs.size() - 1) + excess)), raw<F>((T_<F>)step),
        [&](F x) { return raw<F>((T_<F>)(base[at(x)] + errs[at(x)])); }, [&](F x) { return raw<F>((T_<F>)base[at(x)]); }, +[](int64_t v) { return F(v); });
    return {rv(r.max_esp), rv(r.min_esp), rv(r.max_esp_input), rv(r.min_esp_input)};
}
template <typename F> void one(i64 start, i64 step, std::vector<i64> const& errs, std::vector<i64> const& base, int excess)
{
    u64 k = (u64)start ^ (u64)step << 40;
    for(auto e : errs) k = mix(k + (u64)e);
    seen(k);
    IntL xs, es;
    for(size_t i = 0; i < errs.size(); ++i) { xs.push_back((Int)start + (Int)i * step); es.push_back(errs[i] < 0 ? -(Int)errs[i] : (Int)errs[i]); }
    Int top = std::min<Int>((Int)255 << tr<F>::frac, (Int)std::numeric_limits<T_<F>>::max());
    J(extremesOk, xs, es, top, measure<F>(start, step, errs, base, excess));
}
template <typename F> void random(Rng& g, int n)
{
    int len = (int)g.below(n + 1);
    i64 step = 1 + (i64)g.below(1 << g.below(16)), start = (i64)g.below(1 << 26) - (1 << 25);
    std::vector<i64> e, b;
    int mode = (int)g.below(5);
    for(int i = 0; i < len; ++i)
    {
        i64 m = mode == 0 ? (i64)g.below(4) : mode == 1 ? (i64)g.below((u64)1 << (1 + g.below(tr<F>::frac + 6))) : mode == 2 ? 7 : mode == 3 ? (i64)(g() >> 40) + ((i64)200 << tr<F>::frac) : (i64)g.below(1000) * 65536;
        e.push_back(g.flip() ? m : -m);
        b.push_back((i64)g.below(1 << 28) - (1 << 27));
    }
    one<F>(start, step, e, b, (int)g.below(step));
}
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] {
            auto ts = load_traces(TRACES);
            for(size_t n = W; n < ts.size(); n += NW)
                for(auto& s : ts[n])
                    if(s.op == "measure")
                    {
                        me->steps.fetch_add(1, std::memory_order_relaxed);
                        std::vector<i64> e, b;
                        for(auto x : s.a) { e.push_back((i64)(e.size() % 3 ? x : -x)); b.push_back((i64)(e.size() * 1000)); }
                        auto r = measure<F64>(-5, 1, e, b, 0);
                        std::vector<Int> got(r.begin(), r.end());
                        if(got != s.r) violation("behaviour " + std::to_string(n) + " of the specification not followed: " + show_step(s) + ", got " + show_vec(got));
                    }
        }},
        {"grids", [] {
            auto g = rng("grids");
            for(uint64_t i = count(400000, 10000000); i--;) { random<F64>(g, 40); random<F32>(g, 40); random<FX<i32, i64, 20>>(g, 12); }
        }},
        {"floating", [] {
            // the same measurement of floating-point functions, at multiples of 1/8
            auto g = rng("floating");
            for(uint64_t i = count(200000, 4000000); i--;)
            {
                int len = 1 + (int)g.below(20); Int st = (Int)g.below(100) - 50;
                IntL xs, es; std::vector<double> e;
                for(int k = 0; k < len; ++k) { Int m = (Int)g.below(i % 3 ? 5 : 4000); xs.push_back(st + k); es.push_back(m); e.push_back((g.flip() ? 1 : -1) * (double)(int64_t)m / 8); }
                announce("measure_esp double", st, len);
                seen(mix(i * 77 + SEED));
                auto at = [&](double x) { return (size_t)(x * 8 - (double)(int64_t)st); };
                auto r = eirin::perf::measure_esp<double>((double)(int64_t)st / 8, (double)(int64_t)(st + len - 1) / 8, 0.125, [&](double x) { return 3 + e[at(x)]; }, [&](double) { return 3.0; }, +[](int64_t v) { return (double)v; });
                J(extremesOk, xs, es, (Int)255 * 8, (IntL{(Int)(r.max_esp * 8), (Int)(r.min_esp * 8), (Int)(r.max_esp_input * 8), (Int)(r.min_esp_input * 8)}));
            }
        }},
    });
}
