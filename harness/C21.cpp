#include "text.hpp"
using namespace h;
template <typename F> IntL print(Int v, Int base, bool up, Int width = 0, Int fill = 32, int adjust = 0, int extra = 0)
{
    static std::ostringstream os;
    os.str(""); os.clear();
    os.unsetf(std::ios_base::basefield); os.unsetf(std::ios_base::uppercase);
    if(base == 16) os.setf(std::ios_base::hex, std::ios_base::basefield);
    else if(base == 10) os.setf(std::ios_base::dec, std::ios_base::basefield);
    else if(base == 8) os.setf(std::ios_base::oct, std::ios_base::basefield);
    // flags of further bases
    if(extra & 8) os.setf(std::ios_base::dec);
    if(extra & 16) os.setf(std::ios_base::oct);
    if(up) os.setf(std::ios_base::uppercase);
    // none of the other flags matters
    static constexpr std::ios_base::fmtflags ex[] = {std::ios_base::fmtflags(0), std::ios_base::showbase, std::ios_base::showpos, std::ios_base::showpoint, std::ios_base::scientific, std::ios_base::fixed, std::ios_base::unitbuf, std::ios_base::skipws | std::ios_base::boolalpha};
    os.unsetf(std::ios_base::adjustfield | std::ios_base::showbase | std::ios_base::showpos | std::ios_base::showpoint | std::ios_base::floatfield | std::ios_base::unitbuf | std::ios_base::boolalpha);
    os.setf(ex[extra & 7]);
    os.setf(adjust == 1 ? std::ios_base::left : adjust == 2 ? std::ios_base::right : adjust == 3 ? std::ios_base::internal : std::ios_base::fmtflags(0));
    os.fill((char)fill); os.width((std::streamsize)width);
    // neither the precision nor the locale of the stream matters
    std::streamsize pr = (extra >> 5 & 3) * 3 + (extra & 32 ? 0 : 6);
    os.precision(pr);
    static const std::locale classic = std::locale::classic(), other = european();
    static bool isother = false;
    if(bool want = extra & 128; want != isother) { os.imbue(want ? other : classic); isother = want; }
    auto fl = os.flags();
    announce("operator<<", v, base, up, width, fill, adjust, extra);
    auto& r = (os << raw<F>((T_<F>)v));
    if(&r != &os || os.flags() != fl || !os.good() || os.fill() != (char)fill || os.precision() != pr || os.width() != 0) violation("operator<< changed the stream of " + tr<F>::name() + " " + show(v));
    return codes(os.str());
}
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] {
            auto ts = load_traces(TRACES);
            for(size_t n = W; n < ts.size(); n += NW)
                for(auto& s : ts[n]) if(s.op == "print") with_format(ALL{}, s.a[0], [&]<typename F>() { expect<F>(s, vec(print<F>(s.a[3], s.a[1], s.a[2] != 0, s.a[4], s.a[5], s.a[6] ? 1 : (int)(n % 3) ? 1 + (int)(n % 3) : 0, (int)(n / 3) & 7)), n); });
        }},
        {"values", [] { every([]<typename F>() {
            auto g = rng("values");
            values<F>(g, count(60000, 4000000), [&](T_<F> v) {
                seen(tr<F>::key() ^ mix((u64)v));
                if(sizeof(v) == 2 && !THOROUGH && (v & 3) && (v & 0xff) != 0xff) return;
                for(Int b : {2, 8, 10, 16}) { bool up = b == 16 ? (v & 4) : ((v >> 2) & 1); J(printOk, tr<F>::fmt(), b, up, (Int)v, print<F>((Int)v, b, up)); }
                J(printOk, tr<F>::fmt(), (Int)16, (v & 4) == 0, (Int)v, print<F>((Int)v, 16, (v & 4) == 0));
            });
        }); }},
        // fields, and flags that do not matter
        {"fields", [] { every([]<typename F>() {
            auto g = rng("fields");
            for(uint64_t i = count(20000, 1000000); i; --i)
            {
                bool hex = g.flip(), dec = g.flip(), oct = g.flip();
                Int v = (Int)pick<F>(g), b = spec::baseX_(hex, dec, oct), w = g.below(4) ? (Int)g.below(40) : (Int)g.below(200), fl = " *0-x."[g.below(6)];
                bool up = g.flip(); int ad = (int)g.below(4);
                seen(tr<F>::key() ^ mix((u64)v) ^ mix((u64)(b * 1000003 + w * 1009 + fl * 8 + ad)));
                J(printFieldOk, tr<F>::fmt(), b, up, v, w, fl, ad == 1, print<F>(v, b, up, w, fl, ad, (int)g.below(8) + (dec ? 8 : 0) + (oct ? 16 : 0) + ((i & 64) ? (int)(g.below(4) * 32 + (i & 1024 ? 128 : 0)) : 0)));
            }
        }); }},
        // one stream, numbers and other output in turn
        {"histories", [] { every([]<typename F>() {
            auto g = rng("hist");
            for(uint64_t i = count(400, 20000); i; --i)
            {
                std::ostringstream os; IntL want; Int base = 10; bool up = false;
                for(int k = 0; k < 12; ++k)
                {
                    switch(g.below(6))
                    {
                    case 0: os << std::hex; base = 16; break;
                    case 1: os << std::dec; base = 10; break;
                    case 2: os << std::oct; base = 8; break;
                    case 3: up = !up; if(up) os << std::uppercase; else os << std::nouppercase; break;
                    default: { T_<F> v = pick<F>(g); announce("operator<<", v, base, up); os << raw<F>(v) << ' ' ; for(Int c : spec::printX_(tr<F>::fmt(), base, up, (Int)v)) want.push_back(c); want.push_back(32); }
                    }
                }
                me->steps.fetch_add(12, std::memory_order_relaxed);
                if(codes(os.str()) != want) violation("a stream of " + tr<F>::name() + " contains '" + os.str() + "'");
            }
        }); }},
    });
}
