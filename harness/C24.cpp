#include "rng.hpp"
#include <sstream>
using namespace h;
// equality of parameters that share none, one or both bounds
template <typename F, typename A> void same(Rng& g)
{
    using V = T_<F>;
    V v[3] = {pick<F>(g), pick<F>(g), pick<F>(g)};
    std::sort(v, v + 3);
    for(auto [a, b] : {std::pair{0, 1}, {0, 2}, {1, 2}, {0, 0}})
        for(auto [c, d] : {std::pair{0, 1}, {0, 2}, {1, 2}, {2, 2}})
        {
            typename A::param_type p(raw<F>(v[a]), raw<F>(v[b])), q(raw<F>(v[c]), raw<F>(v[d]));
            announce("parameters", v[a], v[b], v[c], v[d]);
            J(sameOk, (Int)v[a], (Int)v[b], (Int)v[c], (Int)v[d], (IntL{p == q, p != q}));
        }
}
// the underlying distribution on a copy of the engine draws the reference
template <typename F, typename D, typename G> void draw_int(Rng& g, G& gen)
{
    using A = eirin::fixed_int_distribution_adapter<F, D>;
    using V = T_<F>;
    V a = pick<F>(g), b = pick<F>(g); if(g.below(3) == 0) b = (V)std::min<Int>((Int)a + (Int)g.below(9), std::numeric_limits<V>::max()); if(b < a) std::swap(a, b);
    V c = pick<F>(g), d = pick<F>(g); if(d < c) std::swap(c, d);
    A dist(raw<F>(a), raw<F>(b));
    typename A::param_type p(raw<F>(c), raw<F>(d));
    for(int i = 0; i < 12; ++i)
    {
        bool own = g.flip();
        V lo = own ? a : c, hi = own ? b : d;
        G ref = gen;
        Int u = (Int)D((typename D::result_type)lo, (typename D::result_type)hi)(ref);
        announce("int distribution", lo, hi);
        F r = own ? dist(gen) : dist(gen, p);
        seen(mix((u64)lo) ^ mix((u64)hi * 5) ^ mix((u64)u) ^ tr<F>::key());
        J(drawOk, (Int)lo, (Int)hi, u, rv(r));
        if(!(gen == ref)) violation("the adapter left the engine in another state than the distribution");
        auto q = dist.param();
        J(boundsOk, (Int)a, (Int)b, (IntL{rv(dist.a()), rv(dist.b()), rv(dist.min()), rv(dist.max()), rv(q.a()), rv(q.b())}));
        if(g.below(5) == 0) { dist.param(p); a = c; b = d; }
        if(g.below(9) == 0) dist.reset();
    }
    if(!(p == typename A::param_type(raw<F>(c), raw<F>(d))) || p != typename A::param_type(raw<F>(c), raw<F>(d))) violation("equal parameters compare unequal");
    same<F, A>(g);
}
template <typename F, typename D, typename Eng> void draw_fixed(Rng& g)
{
    using EA = eirin::fixed_random_engine_adapter<F, Eng>;
    using A = eirin::fixed_distribution_adapter<F, D>;
    using V = T_<F>;
    EA e; Eng ref;
    auto sd = (typename Eng::result_type)g();
    e.seed(sd); ref.seed(sd);
    V a = pick<F>(g), b = pick<F>(g); if(b < a) std::swap(a, b);
    V c = pick<F>(g), d = pick<F>(g); if(d < c) std::swap(c, d);
    typename A::param_type p(raw<F>(c), raw<F>(d));
    A dist = g.flip() ? A(raw<F>(a), raw<F>(b)) : A(typename A::param_type(raw<F>(a), raw<F>(b)));
    for(int i = 0; i < 10; ++i)
    {
        switch(g.below(5))
        {
        case 0: { announce("engine adapter"); Int u = (Int)ref(); F r = e(); seen(mix((u64)u) ^ tr<F>::key()); J(adaptOk, tr<F>::fmt(), u, rv(r)); break; }
        case 1: { auto z = g.below(50); e.discard(z); ref.discard(z); break; }
        case 2: { EA f = e; if(!(f == e) || f != e) violation("a copied engine adapter differs"); break; }
        case 3: { dist.param(p); a = c; b = d; break; }
        default:
        {
            bool own = g.flip();
            V lo = own ? a : c, hi = own ? b : d;
            Int u = (Int)D((typename D::result_type)lo, (typename D::result_type)hi)(ref);
            announce("distribution adapter", lo, hi);
            F r = own ? dist(e) : dist(e, p);
            seen(mix((u64)lo) ^ mix((u64)hi * 5) ^ mix((u64)u) ^ tr<F>::key());
            J(drawOk, (Int)lo, (Int)hi, u, rv(r));
        }
        }
        if(!(e.__underlying_engine() == ref)) violation("the engine adapter is not at the position of its engine");
        auto q = dist.param();
        J(boundsOk, (Int)a, (Int)b, (IntL{rv(dist.a()), rv(dist.b()), rv(dist.min()), rv(dist.max()), rv(q.a()), rv(q.b())}));
    }
    same<F, A>(g);
    {
        // the adapter is written as its engine, on streams of either kind, and differs from one that has drawn
        std::ostringstream x, y; x << e << '|'; y << ref << '|';
        if(x.str() != y.str()) violation("an engine adapter is not written as its engine");
        if constexpr(requires(std::wostringstream& w) { w << ref; }) { std::wostringstream wx, wy; wx << e; wy << ref; if(wx.str() != wy.str()) violation("an engine adapter is not written as its engine, on a wide stream"); }
        EA f = e; f.discard(1 + g.below(3));
        Eng r2 = f.__underlying_engine();
        if((f == e) != (r2 == ref) || (f != e) == (r2 == ref)) violation("engine adapters do not compare as their engines");
    }
    std::seed_seq s1{1u, (unsigned)g()}; 
    if constexpr(requires { ref.seed(s1); }) { std::vector<uint32_t> v{5, (uint32_t)g()}; std::seed_seq x(v.begin(), v.end()), y(v.begin(), v.end()); e.seed(x); ref.seed(y); if(!(e.__underlying_engine() == ref)) violation("seeding the adapter from a sequence"); }
    e.seed(); EA f; if(!(e == f)) violation("a default constructed engine adapter is not the default engine");
    ref.seed(Eng::default_seed); Int u = (Int)ref(); J(adaptOk, tr<F>::fmt(), u, rv(f()));
}
template <typename Eng, typename D> void replay(std::vector<Step> const& ts, size_t n)
{
    using A = eirin::fixed_distribution_adapter<F32, D>;
    using B = eirin::fixed_int_distribution_adapter<F32, D>;
    eirin::fixed_random_engine_adapter<F32, Eng> e; Eng g2, ref;
    A da; B db;
    auto P = [](Int x) { return raw<F32>((i32)x); };
    for(auto& s : ts)
    {
        auto& a = s.a;
        announce("replay", n);
        if(s.op == "param") { da.param(typename A::param_type(P(a[0]), P(a[1]))); db.param(typename B::param_type(P(a[0]), P(a[1]))); }
        else if(s.op == "reset") { da.reset(); db.reset(); }
        else if(s.op == "bounds")
        {
            expect<F32>(s, {rv(da.a()), rv(da.b()), rv(da.min()), rv(da.max()), rv(da.param().a()), rv(da.param().b())}, n);
            expect<F32>(s, {rv(db.a()), rv(db.b()), rv(db.min()), rv(db.max()), rv(db.param().a()), rv(db.param().b())}, n);
        }
        else if(s.op == "draw" || s.op == "drawp")
        {
            Int u = (Int)D((typename D::result_type)a[0], (typename D::result_type)a[1])(ref);
            F32 x, y;
            if(s.op == "draw") { x = da(e); y = db(g2); }
            else { x = da(e, typename A::param_type(P(a[0]), P(a[1]))); y = db(g2, typename B::param_type(P(a[0]), P(a[1]))); }
            me->steps.fetch_add(1, std::memory_order_relaxed);
            J(drawOk, a[0], a[1], u, rv(x)); J(drawOk, a[0], a[1], u, rv(y));
        }
        if(sh->violations > 0) return;
    }
}
using U16 = FX<u16, u32, 8>; using U32 = FX<u32, u64, 16>; using S16 = FX<i16, i32, 8>; using S20 = FX<i32, i64, 20>;
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] {
            auto ts = load_traces(TRACES);
            for(size_t n = W; n < ts.size(); n += NW)
                if(ts[n][0].a[0] == 0) replay<E0, std::uniform_int_distribution<int32_t>>(ts[n], n); else replay<std::mt19937, std::uniform_int_distribution<int64_t>>(ts[n], n);
        }},
        {"integral distributions", [] {
            auto g = rng("ints");
            E0 e0((uint32_t)g()); E1 e1(g()); std::mt19937 m((uint32_t)g()); std::mt19937_64 m64(g()); std::minstd_rand ms((uint32_t)g());
            for(uint64_t i = count(100000, 2000000); i; --i)
            {
                draw_int<F32, std::uniform_int_distribution<int32_t>>(g, e0);
                draw_int<F32, std::uniform_int_distribution<int32_t>>(g, m);
                draw_int<F32, std::uniform_int_distribution<int64_t>>(g, ms);
                draw_int<F64, std::uniform_int_distribution<int64_t>>(g, e1);
                draw_int<F64, std::uniform_int_distribution<int64_t>>(g, m64);
                draw_int<U32, std::uniform_int_distribution<uint32_t>>(g, e0);
                draw_int<S16, std::uniform_int_distribution<int16_t>>(g, m);
                draw_int<S20, std::uniform_int_distribution<int32_t>>(g, e1);
            }
        }},
        {"adapted engines", [] {
            auto g = rng("fixed");
            for(uint64_t i = count(40000, 800000); i; --i)
            {
                draw_fixed<F32, std::uniform_int_distribution<int32_t>, E0>(g);
                draw_fixed<F64, std::uniform_int_distribution<int64_t>, E1>(g);
                draw_fixed<S16, std::uniform_int_distribution<int16_t>, E0>(g);
                draw_fixed<U32, std::uniform_int_distribution<uint32_t>, E1>(g);
                if(i % 16 == 0) { draw_fixed<F32, std::uniform_int_distribution<int32_t>, std::mt19937>(g); draw_fixed<F64, std::uniform_int_distribution<int64_t>, std::mt19937_64>(g); draw_fixed<F32, std::uniform_int_distribution<int32_t>, std::minstd_rand>(g); }
            }
        }},
    });
}
