#include "val.hpp"
#include <dlfcn.h>
using namespace h;
using Eval = uint64_t (*)(int, int, int64_t, int64_t);
struct Rec { int op, f; int64_t a, b; uint64_t r; };
static std::vector<std::string> names;
static std::vector<Eval> builds;
static std::vector<bool> ends; // builds where an exception ends the program
// results of all builds that have one
static void results(IntL& rs, int op, int f, int64_t a, int64_t b)
{
    bool t = spec::throws_((Int)op, spec::FMTS_()[f], (Int)a, (Int)b);
    for(size_t i = 0; i < builds.size(); ++i)
        if(!(t && ends[i])) rs.push_back((Int)builds[i](op, f, a, b));
}
static void load()
{
    std::string dir = OUT.substr(0, OUT.rfind('/'));
    std::ifstream f(dir + "/builds");
    std::string file, name;
    while(f >> file && std::getline(f, name))
    {
        void* h = dlopen((dir + "/" + file).c_str(), RTLD_NOW | RTLD_LOCAL);
        if(!h) { fprintf(stderr, "%s\n", dlerror()); _exit(3); }
        if(auto e = (Eval)dlsym(h, "repro_eval")) { builds.push_back(e); names.push_back(name); ends.push_back(name.find("-fno-exceptions") != std::string::npos); }
        else if(auto c = (const Rec* (*)(int*))dlsym(h, "repro_ct"))
        {
            int n; auto t = c(&n);
            // the compiler's own results
            for(int i = W; i < n; i += NW)
            {
                IntL rs{(Int)t[i].r};
                announce("compile time", t[i].op, t[i].f, t[i].a, t[i].b);
                seen(mix((u64)t[i].a + mix((u64)t[i].b + t[i].op * 64 + t[i].f)));
                results(rs, t[i].op, t[i].f, t[i].a, t[i].b);
                if(!J(agree, rs)) violation("operation " + std::to_string(t[i].op) + " format " + std::to_string(t[i].f) + " operands " + std::to_string(t[i].a) + ", " + std::to_string(t[i].b) + ": first" + name + ", then" + [&] { std::string s; for(auto& m : names) s += m + ";"; return s; }());
            }
        }
    }
    if(builds.size() < 4) { fprintf(stderr, "too few builds\n"); _exit(3); }
}
static void one(int op, int f, i64 a, i64 b)
{
    announce("evaluate", op, f, a, b);
    seen(mix((u64)a + mix((u64)b + op * 64 + f)));
    IntL rs;
    results(rs, op, f, a, b);
    if(!J(agree, rs)) violation("operation " + std::to_string(op) + " format " + std::to_string(f) + " operands " + std::to_string(a) + ", " + std::to_string(b) + " in" + [&] { std::string s; for(auto& m : names) s += m + ";"; return s; }());
}
template <typename F> bool make_case(Rng& g, int& op, i64& a, i64& b, uint64_t i)
{
        auto& Fm = tr<F>::fmt();
        auto const& ops = spec::OPS_();
        op = (int)ops[g.below(ops.size())];
        a = pick<F>(g), b = pick<F>(g);
        if(op == 13) { a = (i64)g() >> (11 + g.below(50)); b = -(i64)g.below(50); }
        if(op == 10) b = g.below(6);
        if(op == 42) b = g.below(8);
        if(op >= 43) { a = (i64)(g() >> 1); b = g.below(40); }
        if(op == 32 || op == 15 || op == 16) b = (i64)g.below(41) - 20;
        if(op == 31 && i % 2) a %= (i64)12 << tr<F>::frac;
        if(op == 33 && i % 2) b %= (i64)4 << tr<F>::frac;
        if(op == 37) { a /= 256; b /= 256; }
        return spec::defined_((Int)op, Fm, (Int)a, (Int)b);
}
template <typename F> void cases(int f)
{
    auto g = rng("cases");
    for(uint64_t i = count(1200000, 30000000); i--;)
    {
        int op; i64 a, b;
        if(make_case<F>(g, op, a, b, i)) one(op, f, a, b);
    }
}
// The same cases in different orders: related operands next to each other, evaluated forwards by one build,
// backwards by the next, shuffled by others. What came before must not matter.
template <typename F> void orders(int f)
{
    auto& Fm = tr<F>::fmt();
    auto g = rng("orders");
    struct Case { int op; i64 a, b; };
    for(uint64_t i = count(4000, 100000); i--;)
    {
        std::vector<Case> cs;
        while(cs.size() < 24)
        {
            int op; i64 a, b;
            if(cs.empty() || g.below(6) == 0) { if(!make_case<F>(g, op, a, b, i)) continue; }
            else
            {
                Case c = cs[g.below(cs.size())]; op = c.op; a = c.a; b = c.b;
                i64 d = g.below(3) ? (i64)1 << g.below(tr<F>::bits - 1) : (i64)g.below(9) - 4;
                switch(g.below(7)) { case 0: a ^= d; break; case 1: b ^= d; break; case 2: a = (i64)-(u64)a; break; case 3: std::swap(a, b); break; case 4: op = (int)spec::OPS_()[g.below(spec::OPS_().size())]; break; case 5: a = (i64)((u64)a + (u64)d); break; default: b = (i64)((u64)b + (u64)d); break; }
                if(op == 10 || op == 42) b = (i64)((u64)b % 6);
                if(op >= 43) { a &= ~((i64)1 << 63); b = (i64)((u64)b % 40); }
                if(!spec::defined_((Int)op, Fm, (Int)a, (Int)b)) { if(g.below(8) == 0 && make_case<F>(g, op, a, b, i)) ; else continue; }
            }
            cs.push_back({op, a, b});
        }
        // two builds per batch, in opposite or shuffled orders, each case also twice in a row by one of them
        size_t x = g.below(builds.size()), y = g.below(builds.size());
        std::vector<size_t> ord(cs.size()); for(size_t k = 0; k < ord.size(); ++k) ord[k] = k;
        std::vector<Int> first(cs.size());
        auto skip = [&](size_t k, size_t bld) { return ends[bld] && spec::throws_((Int)cs[k].op, Fm, (Int)cs[k].a, (Int)cs[k].b); };
        for(size_t k : ord) { if(skip(k, x)) continue; announce("evaluate", cs[k].op, f, cs[k].a, cs[k].b); first[k] = (Int)builds[x](cs[k].op, f, cs[k].a, cs[k].b); }
        if(i % 2) std::reverse(ord.begin(), ord.end()); else for(size_t k = ord.size() - 1; k > 0; --k) std::swap(ord[k], ord[g.below(k + 1)]);
        for(size_t k : ord)
        {
            if(skip(k, x) || skip(k, y)) continue;
            auto& c = cs[k];
            announce("evaluate", c.op, f, c.a, c.b);
            seen(mix((u64)c.a + mix((u64)c.b + c.op * 64 + f)));
            IntL rs{first[k], (Int)builds[y](c.op, f, c.a, c.b)};
            if(g.below(4) == 0) rs.push_back((Int)builds[y](c.op, f, c.a, c.b));
            me->steps.fetch_add(1, std::memory_order_relaxed);
            if(!J(agree, rs)) { violation("operation " + std::to_string(c.op) + " format " + std::to_string(f) + " operands " + std::to_string(c.a) + ", " + std::to_string(c.b) + " after other evaluations, in" + names[x] + " and" + names[y]); return; }
        }
    }
}
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"compile time", load},
        {"replay", [] {
            auto ts = load_traces(TRACES);
            for(size_t n = W; n < ts.size(); n += NW)
            {
                std::vector<Int> c; IntL rs;
                for(auto& s : ts[n])
                {
                    me->steps.fetch_add(1, std::memory_order_relaxed);
                    if(s.op == "case") { c = s.a; rs.clear(); }
                    else if(s.op == "eval")
                    {
                        announce("replay", c[0], c[1], c[2], c[3]);
                        size_t k = (size_t)s.a[0] % builds.size();
                        if(ends[k] && spec::throws_(c[0], spec::FMTS_()[(size_t)c[1]], c[2], c[3])) continue;
                        rs.push_back((Int)builds[k]((int)c[0], (int)c[1], (i64)c[2], (i64)c[3]));
                        if(!J(agree, rs)) violation("behaviour " + std::to_string(n) + ", case " + show_vec(c));
                    }
                }
            }
        }},
        {"orders", [] { orders<FX<i16, i32, 8>>(4); orders<F32>(6); orders<FX<i32, i64, 20>>(8); orders<F64>(11); orders<FX<i32, i64, 16, true>>(17); orders<FX<i64, i128, 32, true>>(18); }},
        {"random", [] { cases<FX<i16, i32, 8>>(4); cases<F32>(6); cases<FX<i32, i64, 20>>(8); cases<F64>(11); cases<FX<i32, i64, 16, true>>(17); cases<FX<i64, i128, 32, true>>(18); }},
    });
}
