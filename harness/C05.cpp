#include "val.hpp"
#include <unordered_set>
using namespace h;
template <typename F> void one(T_<F> x, T_<F> y)
{
    auto& Fm = tr<F>::fmt();
    F a = raw<F>(x), b = raw<F>(y);
    announce("compare", x, y);
    seen(tr<F>::key() ^ mix((u64)x) ^ (mix((u64)y) * 3));
    J(cmpOk, (Int)x, (Int)y, cmp_of(a, b));
    J(nearOk, Fm, (Int)x, (Int)y, near_of(a, b));
    eirin::fixed_hash<F> hh;
    J(hashOk, (Int)x, (Int)y, (Int)hh(a), (Int)hh(b));
}
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] {
            auto ts = load_traces(TRACES);
            for(size_t n = W; n < ts.size(); n += NW)
                for(auto& s : ts[n])
                    if(s.op == "cmp") with_format(ALL{}, s.a[0], [&]<typename F>() {
                        F a = raw<F>((T_<F>)s.a[1]), b = raw<F>((T_<F>)s.a[2]);
                        announce("compare", s.a[1], s.a[2]);
                        auto r = cmp_of(a, b);
                        for(auto x : near_of(a, b)) r.push_back(x);
                        expect<F>(s, vec(r), n);
                    });
        }},
        {"pairs", [] { every([]<typename F>() {
            using T = T_<F>;
            auto g = rng("pairs");
            if constexpr(sizeof(T) == 1) shard(0, 65535, [&](Int v) { one<F>((T)(u8)(v & 255), (T)(u8)(v >> 8)); });
            else
            {
                auto& e = edges<F>();
                uint64_t m = e.size() * e.size();
                for(uint64_t q = W; q < m; q += NW) one<F>(e[q / e.size()], e[q % e.size()]);
                Int eps = spec::epsRaw_(tr<F>::fmt());
                for(uint64_t i = count(800000, 40000000); i; --i)
                {
                    T a = pick<F>(g), b = pick<F>(g);
                    if(i % 2)
                    {
                        // around the tolerance of the nearly comparisons
                        Int c = (Int)a + (g.flip() ? eps : -eps) + (Int)g.below(5) - 2;
                        if(c >= (Int)std::numeric_limits<T>::min() && c <= (Int)std::numeric_limits<T>::max()) b = (T)c;
                    }
                    one<F>(a, b);
                    if(i % 16 == 0) one<F>(a, a);
                }
            }
        }); }},
        // sets keyed by numbers behave as sets of the raw values
        {"hashing", [] { every([]<typename F>() {
            auto g = rng("hash");
            std::unordered_set<F, eirin::fixed_hash<F>> s; std::set<Int> model;
            for(int i = 0; i < 2000; ++i)
            {
                T_<F> v = pick<F>(g); if(g.flip()) v = (T_<F>)(v & 31);
                announce("unordered_set", v);
                bool del = g.below(3) == 0;
                bool r = del ? s.erase(raw<F>(v)) : s.insert(raw<F>(v)).second;
                bool m = del ? model.erase((Int)v) : model.insert((Int)v).second;
                if(r != m || s.size() != model.size()) violation("a set of " + tr<F>::name() + " keyed by the hash lost or duplicated " + show((Int)v));
            }
        }); }},
    });
}
