#include "val.hpp"
#include <eirin/ext/builtin_ints.hpp>
using namespace h;
using W2 = eirin::ext::int128;
static IntL words(W2 w) { return {(Int)w.high_bits(), (Int)w.low_bits()}; }
static W2 mk(i64 h, i64 l) { return W2(h, l); }
template <typename T> void from(T v)
{
    announce("int128", sizeof(T), (i64)v);
    seen(mix((u64)v) ^ sizeof(T) ^ std::is_signed_v<T>);
    J(fromOk, (Int)v, words(W2(v)));
}
static void add(i64 h1, i64 l1, i64 h2, i64 l2)
{
    IntL a{(Int)h1, (Int)l1}, b{(Int)h2, (Int)l2};
    announce("+", h1, l1, h2, l2);
    if(!spec::sumDef_(a, b)) return;
    seen(mix((u64)h1 ^ mix((u64)l1 ^ mix((u64)h2 ^ mix((u64)l2)))));
    auto x = mk(h1, l1), y = mk(h2, l2);
    J(sumOk, a, b, words(x + y));
    J(sumOk, a, (IntL{0, 0}), words(x)); J(sumOk, b, (IntL{0, 0}), words(y));
}
static void narrow(i64 h, i64 l) { announce("int64_t", h, l); J(toOk, (IntL{(Int)h, (Int)l}), (Int)static_cast<i64>(mk(h, l))); }
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] {
            auto ts = load_traces(TRACES);
            for(size_t n = W; n < ts.size(); n += NW)
            {
                W2 acc(0);
                for(auto& s : ts[n])
                {
                    std::vector<Int> got;
                    announce(s.op.c_str(), n);
                    if(s.op == "load") { W2 t((i64)s.a[0]); acc = t; }
                    else if(s.op == "words") acc = mk((i64)s.a[0], (i64)s.a[1]);
                    else if(s.op == "add") acc = acc + mk((i64)s.a[2], (i64)s.a[3]);
                    else if(s.op == "narrow") got = {(Int)static_cast<i64>(acc)};
                    if(got.empty()) got = {(Int)acc.high_bits(), (Int)acc.low_bits()};
                    me->steps.fetch_add(1, std::memory_order_relaxed);
                    if(got != s.r) violation("behaviour " + std::to_string(n) + " of the specification not followed: " + show_step(s) + ", got " + show_vec(got));
                }
            }
        }},
        {"construct", [] {
            auto g = rng("construct");
            for(int v = -128; v < 256; ++v) { if(v < 128) from((i8)v); if(v >= 0) from((u8)v); from((short)v); }
            shard(-32768, 65535, [](Int v) { if(v < 32768) from((i16)v); if(v >= 0) from((u16)v); });
            values<F64>(g, count(3000000, 100000000), [](i64 v) {
                from(v); from((u64)v); from((i32)v); from((u32)v); from((long)v); from((unsigned long long)v); from((long long)v);
                // exactly converted to the floating-point type, or rounded towards zero
                double d = (double)(v >> 11); i64 w = (i64)d; announce("int128(double)", w); J(fromOk, (Int)w, words(W2(d)));
                double e = std::ldexp((double)(v >> 11), -20); J(fromOk, spec::tdiv_((Int)(v >> 11), (Int)1 << 20), words(W2(e)));
                float q = (float)(v >> 41); J(fromOk, (Int)(v >> 41), words(W2(q)));
            });
            from(false); from(true); from((char)65); from((signed char)-1); from((unsigned char)255);
        }},
        {"add", [] {
            auto g = rng("add");
            auto& e = edges<F64>();
            for(size_t i = W; i < e.size(); i += NW) for(auto b : e) { i64 h = (i64)(g() >> 2) * (g.flip() ? 1 : -1); add(0, e[i], 0, b); add(-1, e[i], 0, b); add(-1, e[i], -1, b); add(h, e[i], h / 2, b); add(e[i], b, b, e[i]); narrow(e[i], b); narrow(0, b); narrow(-1, b); }
            for(uint64_t i = count(4000000, 200000000); i--;)
            {
                i64 a = pick<F64>(g), b = pick<F64>(g), c = pick<F64>(g), d = pick<F64>(g);
                add(a / 2, b, c / 2, d); add((i64)g.below(3) - 1, b, (i64)g.below(3) - 1, d); add(a / 4, b, a / 4, b);
                narrow(a, b); narrow((i64)g.below(3) - 1, b);
            }
        }},
    });
}
