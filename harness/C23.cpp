#include "rng.hpp"
using namespace h;
template <typename E, int K> void replay(std::vector<Step> const& ts, size_t n)
{
    std::vector<E> e; e.emplace_back(); e.emplace_back(); e.emplace_back((typename E::result_type)7);
    for(auto& s : ts)
    {
        auto& a = s.a;
        announce("replay", n);
        auto I = [&](int i) -> E& { return e[(size_t)a[i]]; };
        using R = typename E::result_type;
        if(s.op == "next") expect<F32>(s, {(Int)I(0)()}, n);
        else if(s.op == "seed") { if(n % 2) I(0).seed((R)a[1]); else I(0) = E((R)a[1]); }
        else if(s.op == "reseed") { if(n % 2) I(0).seed(); else I(0) = E(); }
        else if(s.op == "discard") I(0).discard((unsigned long long)a[1]);
        else if(s.op == "copy") { E t(I(1)); I(0) = t; }
        else if(s.op == "equal") { expect<F32>(s, {(Int)(I(0) == I(1))}, n); if((I(0) == I(1)) == (I(0) != I(1))) violation("== and != of engines agree"); }
        else if(s.op == "write") { expect<F32>(s, state_of(I(0)), n); expect<F32>(s, state_of<wchar_t>(I(0)), n); }
        else if(s.op == "catchup") { E t; t.seed((R)a[2]); t.discard((unsigned long long)a[3]); expect<F32>(s, {(Int)(t == I(1))}, n); I(0) = t; }
        if(sh->violations > 0) return;
    }
}
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] {
            auto ts = load_traces(TRACES);
            for(size_t n = W; n < ts.size(); n += NW) with_engine(ts[n][0].a[0], [&]<typename E, int K>() { replay<E, K>(ts[n], n); });
        }},
        // outputs at random seeds and positions
        {"outputs", [] { for(Int k = 0; k < 4; ++k) with_engine(k, [&]<typename E, int K>() {
            using R = typename E::result_type;
            if(E::min() != 0 || E::max() != std::numeric_limits<R>::max() || E::default_seed != (R)spec::DEFAULT_SEED_()) violation("limits or default seed of an engine");
            auto g = rng(("out" + show(k)).c_str());
            for(uint64_t i = count(1000000, 30000000); i; --i)
            {
                R seed = (R)(g() >> g.below(64)), pos = (R)(g() >> g.below(64));
                E e(seed);
                announce("engine", seed, pos);
                e.discard((R)(pos - E::init_state));
                seen(mix(seed) ^ mix(pos * 3) ^ k);
                J(outOk, k, (Int)seed, (Int)pos, (Int)e());
                J(outOk, k, (Int)seed, (Int)(R)(pos + 1), (Int)e());
            }
        }); }},
        // seeding from a sequence determines the whole state
        {"seed sequences", [] { for(Int k = 0; k < 4; ++k) with_engine(k, [&]<typename E, int K>() {
            auto g = rng("seq");
            for(int i = 0; i < 2000; ++i)
            {
                std::vector<uint32_t> v(g.below(6)); for(auto& x : v) x = (uint32_t)g();
                E a, b; for(int q = (int)g.below(5); q > 0; --q) a();
                b.seed((typename E::result_type)g());
                std::seed_seq s(v.begin(), v.end()), t(v.begin(), v.end());
                announce("seed(seed_seq)");
                a.seed(s); b.seed(t);
                seen(mix(i) ^ k);
                auto st = state_of(a);
                if(!(a == b)) violation("two engines seeded from equal sequences differ");
                J(outOk, k, st[0], st[1], (Int)a());
                J(outOk, k, st[0], st[1], (Int)b());
            }
        }); }},
        // equality is that of seed and position, also when they differ in related ways
        {"equal", [] { for(Int k = 0; k < 4; ++k) with_engine(k, [&]<typename E, int K>() {
            using R = typename E::result_type;
            auto g = rng("equal");
            auto at = [](R seed, R pos) { E e(seed); e.discard((R)(pos - E::init_state)); return e; };
            for(uint64_t i = count(200000, 4000000); i; --i)
            {
                R s = (R)pick_int(g), p = (R)pick_int(g), d = (R)(i % 3 ? pick_int(g) : (Int)1 << g.below(sizeof(R) * 8)), s2 = s, p2 = p;
                switch(g.below(10))
                {
                case 0: s2 ^= d; p2 ^= d; break;
                case 1: s2 += d; p2 -= d; break;
                case 2: s2 = p; p2 = s; break;
                case 3: s2 += d; break;
                case 4: p2 += d; break;
                case 5: s2 += d; p2 += d; break;
                case 6: s2 = ~s; p2 = ~p; break;
                case 7: s2 += d; p2 -= (R)(d * E::multiplier_size); break;
                case 8: p2 += d; s2 -= (R)(d * E::multiplier_size); break;
                default: break;
                }
                E a = at(s, p), b = at(s2, p2);
                announce("engine ==", s, p, s2, p2);
                bool eq = a == b, ne = a != b, qe = b == a;
                seen(mix(s) ^ mix(p + 1) ^ mix(s2 + 2) ^ mix(p2 + 3) ^ k);
                J(eqOk, (Int)s, (Int)p, (Int)s2, (Int)p2, eq);
                J(eqOk, (Int)s, (Int)p, (Int)s2, (Int)p2, qe);
                J(eqOk, (Int)s, (Int)p, (Int)s2, (Int)p2, !ne);
            }
        }); }},
        // long runs: n calls are discard(n)
        {"runs", [] { for(Int k = 0; k < 4; ++k) with_engine(k, [&]<typename E, int K>() {
            auto g = rng("runs");
            for(uint64_t i = count(400, 4000); i; --i)
            {
                E a((typename E::result_type)g()); E b = a;
                unsigned n = (unsigned)g.below(3000);
                announce("discard", n);
                for(unsigned j = 0; j < n; ++j) a();
                b.discard(n);
                me->steps.fetch_add(n, std::memory_order_relaxed);
                if(!(a == b) || a() != b()) violation("discard(" + std::to_string(n) + ") differs from that many calls");
            }
        }); }},
    });
}
