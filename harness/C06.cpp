#include "val.hpp"
using namespace h;
constexpr int KS[] = {1, 8, 16, 24, 31, 32, 40, 48, 60, 61, 62, 63};
template <typename G, int k> void raw1(Int v, Rng&)
{
    auto& Gm = tr<G>::fmt();
    if(!spec::rawDef_(k, Gm, v)) return;
    announce("from_fixed_num_value", k, v);
    seen(tr<G>::key() ^ mix((u64)v) ^ mix(k));
    J(rawOk, (Int)k, Gm, v, rv(G::template from_fixed_num_value<k>((i64)v)));
}
template <typename F, typename... G> constexpr bool among(fmts<G...>) { return (std::is_same_v<F, G> || ...); }
using SOME = fmts<FX<i8, i16, 4>, FX<i16, i32, 8>, F32, FX<i32, i64, 28>, F64, FX<u32, u64, 16>, FX<i32, i64, 16, true>, FX<i64, i128, 32, true>>;
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] {
            auto ts = load_traces(TRACES);
            for(size_t n = W; n < ts.size(); n += NW)
                for(auto& s : ts[n])
                    if(s.op == "conv") with_format(ALL{}, s.a[0], [&]<typename F>() {
                        int c = 0;
                        auto to = [&]<typename G>() { if(c++ == (int)s.a[1]) { announce("convert", s.a[0], s.a[1], s.a[2]); expect<F>(s, {rv(G(raw<F>((T_<F>)s.a[2])))}, n); } };
                        [&]<typename... G>(fmts<G...>) { (to.template operator()<G>(), ...); }(ALL{});
                    });
        }},
        {"pairs of formats", [] { every([]<typename F>() {
            auto g = rng("conv");
            auto& Fm = tr<F>::fmt();
            auto to = [&]<typename G>() {
                auto& Gm = tr<G>::fmt();
                auto one = [&](T_<F> v) {
                    if(!spec::convDef_(Fm, Gm, v)) return;
                    announce("convert", tr<F>::bits, tr<F>::frac, tr<G>::bits, tr<G>::frac, v);
                    seen(tr<F>::key() ^ mix(tr<G>::key()) ^ mix((u64)v));
                    J(convOk, Fm, Gm, (Int)v, rv(G(raw<F>(v))));
                };
                values<F>(g, count(120000, 4000000), one);
                // values that fit the target, and those next to a rounding boundary
                if constexpr(sizeof(T_<F>) > 2)
                    for(uint64_t i = count(60000, 2000000); i; --i)
                    {
                        Int v = (Int)pick<G>(g);
                        int d = tr<F>::frac - tr<G>::frac;
                        if(d >= 0) { v <<= d; if(d > 0) v += ((Int)1 << (d - 1)) * (Int)(g.below(3)) - ((Int)1 << (d - 1)) + (Int)g.below(3) - 1; }
                        else v >>= -d;
                        if(v >= (Int)std::numeric_limits<T_<F>>::min() && v <= (Int)std::numeric_limits<T_<F>>::max()) one((T_<F>)v);
                    }
            };
            auto all = [&]<typename... G>(fmts<G...>) { (to.template operator()<G>(), ...); };
            if constexpr(among<F>(ALL{})) all(ALL{}); else all(SOME{});
            if constexpr(among<F>(SOME{})) { scale = 4; all(MORE{}); scale = 1; }
        }); }},
        {"raw values", [] { every([]<typename G>() {
            auto g = rng("raw");
            [&]<size_t... I>(std::index_sequence<I...>) {
                (([&] {
                    for(uint64_t i = count(100000, 4000000); i; --i) raw1<G, KS[I]>((Int)pick<F64>(g), g);
                    for(uint64_t i = count(50000, 2000000); i; --i)
                    {
                        Int v = (Int)pick<G>(g); int d = KS[I] - tr<G>::frac;
                        v = d >= 0 ? (v << d) + (Int)g.below(3) - 1 + (g.flip() && d > 0 ? (Int)1 << (d - 1) : 0) : v >> -d;
                        if(v == (Int)(i64)v) raw1<G, KS[I]>(v, g);
                    }
                }()), ...);
            }(std::make_index_sequence<std::size(KS)>{});
        }); }},
    });
}
