#include "text.hpp"
#include <eirin/math.hpp>
#include <eirin/random.hpp>
using namespace h;
namespace {
// the library's side of the legs, one function per format
std::ostringstream os_kept; std::istringstream is_kept;
template <typename F> std::string write_(Int v, int leg, int p, bool kept)
{
    F x = raw<F>((T_<F>)v);
    if(leg < 2)
    {
        if(kept) { os_kept.str(""); os_kept << x; return os_kept.str(); }
        std::ostringstream os; os << x; return os.str();
    }
    return std::vformat("{:." + std::to_string(p) + "f}", std::make_format_args(x));
}
template <typename G> IntL read_(std::string const& s, int leg, bool kept)
{
    G y = raw<G>(0);
    bool ok;
    if(leg == 1 || leg == 2) { Exact e(s); ok = eirin::fixed_from_cstring(e.p, e.n, y); }
    else if(kept) { is_kept.clear(); is_kept.str(s); ok = (bool)(is_kept >> y); }
    else { std::istringstream is(s); ok = (bool)(is >> y); }
    return {(Int)ok, rv(y)};
}
template <typename F> long double leave(Int v, int leg)
{
    F x = raw<F>((T_<F>)v);
    return leg == 4 ? (long double)(double)x : leg == 5 ? (long double)(float)x : (long double)x;
}
template <typename G> Int arrive(long double d, int leg) { return leg == 4 ? rv(G((double)d)) : leg == 5 ? rv(G((float)d)) : rv(G(d)); }
template <typename F> long long whole(Int v) { return (long long)raw<F>((T_<F>)v); }
template <typename G> Int of_whole(long long n) { return rv(G(n)); }
template <typename F, typename G> Int convert(Int v) { return rv(G(raw<F>((T_<F>)v))); }
template <typename F> Int pick_of(Rng& g) { return (Int)pick<F>(g); }
constexpr int NF = 20;
struct Table {
    std::string (*write[NF])(Int, int, int, bool); IntL (*read[NF])(std::string const&, int, bool);
    long double (*leave[NF])(Int, int); Int (*arrive[NF])(long double, int);
    long long (*whole[NF])(Int); Int (*of_whole[NF])(long long);
    Int (*convert[NF][NF])(Int); Int (*pick[NF])(Rng&); std::remove_cvref_t<decltype(tr<F32>::fmt())> fmt[NF]; 
    Table() { fill(ALL{}); }
    template <typename... F> void fill(fmts<F...>)
    {
        static_assert(sizeof...(F) == NF);
        int n = 0;
        ((write[n] = &write_<F>, read[n] = &read_<F>, leave[n] = &::leave<F>, arrive[n] = &::arrive<F>, whole[n] = &::whole<F>, of_whole[n] = &::of_whole<F>, pick[n] = &pick_of<F>, fmt[n] = tr<F>::fmt(), row<F>(n, fmts<F...>{}), ++n), ...);
    }
    template <typename F, typename... G> void row(int n, fmts<G...>) { int k = 0; ((convert[n][k++] = &::convert<F, G>), ...); }
};
Table& T() { static Table t; return t; }
IntL travel(int f, int g, int leg, int p, Int v, bool kept)
{
    announce("leg", f, g, leg, p, v);
    me->steps.fetch_add(1, std::memory_order_relaxed);
    auto& t = T();
    if(leg < 4) return t.read[g](t.write[f](v, leg, p, kept), leg, kept);
    if(leg < 7) return {1, t.arrive[g](t.leave[f](v, leg), leg)};
    if(leg == 7) return {1, t.convert[f][g](v)};
    return {1, t.of_whole[g](t.whole[f](v))};
}
// something else the library can do in between
void busy(Rng& g)
{
    static eirin::fixed_random_engine_adapter<F32, eirin::pcg2014> rnd;
    F32 a = raw<F32>((i32)g.below(1 << 24) + 1), b = raw<F32>((i32)g.below(1 << 20) + 1);
    F64 c = raw<F64>((i64)g.below(1ull << 40) + 1);
    announce("busy", rv(a), rv(b), rv(c));
    switch(g.below(9))
    {
        case 0: a = eirin::sin(a); break;
        case 1: a = eirin::sqrt(a); break;
        case 2: c = eirin::log2(c); break;
        case 3: a = eirin::atan(a); break;
        case 4: c = eirin::sqrt(c); break;
        case 5: a = rnd(); break;
        case 6: { std::ostringstream w; w << std::hex << std::uppercase << a; break; }
        case 7: { std::string s = std::format("{:>30.3e}|{:x}", 1.5, 3); F32 x; (void)eirin::fixed_from_cstring(s.c_str(), s.size(), x); break; }
        default: { std::istringstream is("1e5x"); is >> a >> b; }
    }
}
struct Leg { int f, g, leg, p; Int v; IntL r; };
} // namespace
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] {
            auto ts = load_traces(TRACES);
            for(size_t n = W; n < ts.size(); n += NW)
                for(auto& s : ts[n]) if(s.op == "leg")
                {
                    auto got = vec(travel((int)s.a[0], (int)s.a[1], (int)s.a[2], (int)s.a[3], s.a[4], true));
                    if(got != s.r) { violation("behaviour " + std::to_string(n) + " of the specification not followed: " + show_step(s) + ", got " + show_vec(got)); return; }
                }
        }},
        // journeys, and afterwards their legs again in another order, other work in between
        {"journeys", [] {
            auto g = rng("journeys");
            auto& t = T();
            for(uint64_t i = count(40000, 8000000); i; --i)
            {
                std::vector<Leg> done;
                int f = (int)g.below(NF); Int v = t.pick[f](g);
                for(int k = 0; k < 20; ++k)
                {
                    int to = g.below(4) ? (int)g.below(NF) : f, leg = (int)g.below(9), p = (int)g.below(24);
                    if(g.below(6) == 0) v = t.pick[f](g);
                    if(!spec::legDef_(t.fmt[f], t.fmt[to], leg, v)) { f = (int)g.below(NF); v = t.pick[f](g); continue; }
                    bool kept = g.flip();
                    auto r = travel(f, to, leg, p, v, kept);
                    seen(mix((uint64_t)v * 31 + (uint64_t)f * 7919 + (uint64_t)to * 131 + (uint64_t)leg * 1000003 + (leg == 2 || leg == 3 ? (uint64_t)p : 0)));
                    if(!J(legOk, t.fmt[f], t.fmt[to], (Int)leg, (Int)p, v, r)) return;
                    done.push_back({f, to, leg, p, v, r});
                    f = to; v = r[1];
                    if(g.below(3) == 0) busy(g);
                }
                for(int k = 0; k < 10 && !done.empty(); ++k)
                {
                    auto& l = done[g.below(done.size())];
                    if(g.flip()) busy(g);
                    if(!J(againOk, l.r, travel(l.f, l.g, l.leg, l.p, l.v, g.flip()))) return;
                }
            }
        }},
        // every value of the 8-bit formats over every leg
        {"every value", [] {
            auto& t = T();
            for(int f = 0; f < NF; ++f) if(t.fmt[f].bits == 8 || (THOROUGH && t.fmt[f].bits == 16))
                for(int to = 0; to < NF; ++to)
                    for(int leg = 0; leg < 9; ++leg)
                        shard(spec::lo_(t.fmt[f]), spec::hi_(t.fmt[f]), [&](Int v) {
                            if(!spec::legDef_(t.fmt[f], t.fmt[to], leg, v)) return;
                            for(int p : {0, 2, 9}) { if(p && leg != 2 && leg != 3) break; seen(mix((uint64_t)v * 31 + (uint64_t)f * 7919 + (uint64_t)to * 131 + (uint64_t)leg * 1000003 + (leg == 2 || leg == 3 ? (uint64_t)p : 0))); J(legOk, t.fmt[f], t.fmt[to], (Int)leg, (Int)p, v, travel(f, to, leg, p, v, true)); }
                        });
        }},
    });
}
