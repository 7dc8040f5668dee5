// Steps of spec/arith.qnt executed on real fixed-point objects.
#pragma once
#include "formats.hpp"
namespace h {
template <typename Fn> void with_int(int t, Int n, Fn fn)
{
    switch(t)
    {
    case 0: fn((i8)n); break;
    case 1: fn((u8)n); break;
    case 2: fn((i16)n); break;
    case 3: fn((u16)n); break;
    case 4: fn((i32)n); break;
    case 5: fn((u32)n); break;
    case 6: fn((i64)n); break;
    case 7: fn((u64)n); break;
    case 8: fn((bool)n); break;
    case 10: fn((char32_t)n); break;
    case 11: fn((long long)n); break;
    default: fn((char)n); break;
    }
}
template <typename F, typename B> [[gnu::noinline]] F bin(int op, F const& a, B const& b)
{
    switch(op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a / b; default: return a % b; }
}
template <typename F, typename B> [[gnu::noinline]] F nib(int op, B const& b, F const& a)
{
    switch(op) { case 0: return b + a; case 1: return b - a; case 2: return b * a; case 3: return b / a; default: return b % a; }
}
template <typename F, typename B> [[gnu::noinline]] F& com(int op, F& a, B const& b)
{
    switch(op) { case 0: return a += b; case 1: return a -= b; case 2: return a *= b; case 3: return a /= b; default: return a %= b; }
}
// GROUP restricts what is instantiated: bit 0 fixed/fixed, bit 1 fixed/integer
template <typename F, int GROUP> bool exec_step(F* R, int form, int op, int i, int j, int k, int t, Int n)
{
    bool threw = false;
    if constexpr(GROUP & 1)
        switch(form)
        {
        case 1: R[k] = bin(op, R[i], R[j]); return false;
        case 2: com(op, R[i], R[j]); return false;
        case 3: try { R[k] = R[i].divide(R[j]); } catch(eirin::divide_by_zero&) { threw = true; } return threw;
        case 4: try { R[i].divide_by(R[j]); } catch(eirin::divide_by_zero&) { threw = true; } return threw;
        case 5: if constexpr(tr<F>::sgd) R[k] = -R[i]; else if(rv(R[i]) == 0) R[k] = -R[i]; return false;
        case 6: R[k] = ++R[i]; return false;
        case 7: R[k] = R[i]++; return false;
        case 8: R[k] = --R[i]; return false;
        case 9: R[k] = R[i]--; return false;
        case 16: R[k] = R[i]; return false;
        case 17: com(op, com(op, R[i], R[j]), R[k]); return false;
        }
    if(form == 0) { R[k] = raw<F>((T_<F>)n); return false; }
    if constexpr(GROUP & 2)
        with_int(t, n, [&](auto m) {
            switch(form)
            {
            case 10: R[k] = bin(op, R[i], m); return;
            case 11: R[k] = nib(op, m, R[i]); return;
            case 12: com(op, R[i], m); return;
            case 13: try { R[k] = R[i].divide(m); } catch(eirin::divide_by_zero&) { threw = true; } return;
            case 14: try { R[i].divide_by(m); } catch(eirin::divide_by_zero&) { threw = true; } return;
            case 15: R[k] = F(m); return;
            }
        });
    return threw;
}
template <typename F, int GROUP> void replay_trace(std::vector<Step> const& tr_, size_t number)
{
    F R[4] = {raw<F>(0), raw<F>(0), raw<F>(0), raw<F>(0)};
    std::string hist;
    for(size_t s = 1; s < tr_.size(); ++s)
    {
        auto& st = tr_[s];
        me->steps.fetch_add(1, std::memory_order_relaxed);
        hist += "  " + show_step(st) + "\n";
        announce("replay", number, s);
        bool threw = false;
        if(st.op == "load") R[(int)st.a[0]] = raw<F>((T_<F>)st.a[1]);
        else threw = exec_step<F, GROUP>(R, (int)st.a[0], (int)st.a[1], (int)st.a[2], (int)st.a[3], (int)st.a[4], (int)st.a[5], st.a[6]);
        std::vector<Int> got{(Int)threw, rv(R[0]), rv(R[1]), rv(R[2]), rv(R[3])};
        if(got != st.r)
        {
            violation("behaviour of the specification not followed by " + tr<F>::name() + ":\n" + hist + "  got " + show_vec(got));
            return;
        }
    }
}
template <int GROUP> void replay_all(const char* file)
{
    auto ts = load_traces(file);
    for(size_t n = W; n < ts.size(); n += NW)
    {
        if(ts[n].empty()) continue;
        with_format(ALL{}, ts[n][0].a.at(0), [&]<typename F>() { replay_trace<F, GROUP>(ts[n], n); });
    }
}
// a random history on four objects judged step by step by the specification
template <typename F, int GROUP> void histories(Rng& g, uint64_t n, std::vector<int> const& forms, std::vector<int> const& ops)
{
    F R[4] = {raw<F>(0), raw<F>(0), raw<F>(0), raw<F>(0)};
    auto& Fm = tr<F>::fmt();
    for(uint64_t s = 0; s < n; ++s)
    {
        int form = forms[g.below(forms.size())], op = ops[g.below(ops.size())];
        int i = g.below(4), j = g.below(4), k = g.below(4), t = g.below(12);
        if(g.below(3) == 0) { R[g.below(4)] = raw<F>(pick<F>(g)); }
        Int m = 0;
        with_int(t, pick_int(g), [&](auto x) { m = (Int)x; });
        if(t == 8) m = m & 1;
        if(t == 10 && m < 0) m = -m - 1;
        IntL before{rv(R[0]), rv(R[1]), rv(R[2]), rv(R[3])};
        auto x = spec::stepX_(Fm, form, op, before, i, j, k, m);
        if(!x.ok) continue;
        announce("history step", form, op, i, j, k, t, (i64)m);
        bool threw = exec_step<F, GROUP>(R, form, op, i, j, k, t, m);
        IntL after{rv(R[0]), rv(R[1]), rv(R[2]), rv(R[3])};
        seen(tr<F>::key() ^ mix(form * 64 + op * 8 + t) ^ mix((u64)before[i] * 31 + (u64)before[j]) ^ (u64)m ^ (i * 16 + j * 4 + k));
        me->steps.fetch_add(1, std::memory_order_relaxed);
        J(stepOk, Fm, (Int)form, (Int)op, before, (Int)i, (Int)j, (Int)k, m, after, threw);
    }
}
// every pair of 8 bit numbers, a share of edge pairs and random pairs of the wider ones
template <typename F> void pairs(Rng& g, int op, uint64_t n)
{
    using T = T_<F>;
    auto& Fm = tr<F>::fmt();
    auto one = [&](T a, T b) {
        if(!spec::binDef_(Fm, op, a, b)) return;
        announce("binary", op, a, b);
        F x = raw<F>(a), y = raw<F>(b);
        Int r = rv(bin(op, x, y));
        seen(tr<F>::key() ^ mix((u64)a) ^ (mix(b) * 3) ^ op);
        J(binOk, Fm, (Int)op, (Int)a, (Int)b, r);
        F z = x;
        Int r2 = rv(com(op, z, y));
        if(r2 != r || rv(z) != r || rv(x) != (Int)a || rv(y) != (Int)b) J(binOk, Fm, (Int)op, (Int)a, (Int)b, r2);
        if(op == 3)
        {
            Int r3 = rv(x.divide(y));
            F z2 = x; Int r4 = rv(z2.divide_by(y));
            if(r3 != r) J(binOk, Fm, (Int)op, (Int)a, (Int)b, r3);
            if(r4 != r || rv(z2) != r) J(binOk, Fm, (Int)op, (Int)a, (Int)b, r4);
        }
    };
    if constexpr(sizeof(T) == 1)
        shard(0, 65535, [&](Int v) { one((T)(u8)(v & 255), (T)(u8)(v >> 8)); });
    else
    {
        auto& e = edges<F>();
        uint64_t m = e.size() * e.size(), st = m > n / 2 ? m / (n / 2 + 1) + 1 : 1;
        for(uint64_t q = g.below(st); q < m; q += st) one(e[q / e.size()], e[q % e.size()]);
        for(uint64_t q = 0; q < n; ++q)
        {
            T a = pick<F>(g), b = pick<F>(g);
            // make the result representable more often
            if(op == 2 && g.flip()) b = (T)(b >> g.below(tr<F>::bits - 1));
            if(op == 3 && g.flip()) a = (T)(a >> g.below(tr<F>::bits - 1));
            one(a, b);
        }
    }
}
} // namespace h
