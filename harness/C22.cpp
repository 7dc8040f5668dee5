#include "text.hpp"
using namespace h;
struct FS { Int align, fill, sign; bool alt, zero; Int width, prec, ty; bool impl; };
inline spec::FSpec model(FS const& s) { return spec::fspec_(s.align, s.fill, s.sign, s.alt, s.zero, s.width, s.prec, s.ty); }
template <typename C> std::basic_string<C> spec_text(FS const& s, bool index)
{
    std::basic_string<C> t;
    auto num = [&](Int n) { for(char c : show(n)) t += (C)c; };
    t += (C)'['; t += (C)'{';
    if(index) t += (C)'1';
    t += (C)':';
    if(s.align) { if(!(s.fill == 32 && s.impl)) t += (C)s.fill; t += (C)s.align; }
    if(!(s.sign == 45 && s.impl)) t += (C)s.sign;
    if(s.alt) t += (C)'#';
    if(s.zero) t += (C)'0';
    if(s.width) num(s.width);
    if(s.prec >= 0) { t += (C)'.'; num(s.prec); }
    if(!(s.ty == 'g' && s.impl)) t += (C)s.ty;
    t += (C)'}'; t += (C)']';
    return t;
}
template <typename F, typename C> IntL format(FS const& s, Int v, bool index)
{
    F x = raw<F>((T_<F>)v);
    auto t = spec_text<C>(s, index);
    std::basic_string<C> r;
    int other = 42;
    announce("format", v, s.align, s.sign, s.width, s.prec, s.ty, s.alt * 2 + s.zero);
    try
    {
        if constexpr(std::is_same_v<C, char>) r = index ? std::vformat(t, std::make_format_args(other, x)) : std::vformat(t, std::make_format_args(x));
        else r = index ? std::vformat(t, std::make_wformat_args(other, x)) : std::vformat(t, std::make_wformat_args(x));
    }
    catch(std::format_error&) { return {-1}; }
    if(r.size() < 2 || r.front() != (C)'[' || r.back() != (C)']') return {-2};
    return codes(r.substr(1, r.size() - 2));
}
inline FS gen(Rng& g)
{
    static const char al[] = {0, 0, '<', '>', '^'}, sg[] = {'-', '+', ' '}, ty[] = "gGfFdxXobB?", fl[] = " *0-+#.x<>^_9";
    FS s{};
    s.align = al[g.below(5)]; s.fill = s.align ? fl[g.below(sizeof fl - 1)] : 32; s.sign = sg[g.below(3)];
    s.alt = g.below(3) == 0; s.zero = g.below(3) == 0;
    s.width = g.below(3) == 0 ? 0 : g.below(4) == 0 ? (Int)g.below(70) + 1 : (Int)g.below(16) + 1;
    s.prec = g.flip() ? -1 : (Int)g.below(g.flip() ? 10 : 70);
    // fields and precisions of three and four digits
    if(g.below(12) == 0) { s.width = (Int)(g() >> (53 + g.below(5))); if(g.flip()) s.prec = (Int)(g() >> (54 + g.below(5))); }
    if(HAS_HOT && g.below(8) == 0) { Int n = pick_int(g); if(n > 0 && n < 3000) (g.flip() ? s.width : s.prec) = n; }
    s.ty = ty[g.below(11)];
    s.impl = g.flip();
    return s;
}
template <typename F> void one(FS const& s, Int v, int how)
{
    auto m = model(s);
    if(how & 2)
    {
        // a fill character outside Latin-1
        FS w = s;
        if(w.align && (v & 1)) w.fill = 0x100 * (1 + (mix((u64)v) & 0x1ff)) + w.fill;
        J(fmtOk, tr<F>::fmt(), model(w), v, (format<F, wchar_t>(w, v, how & 1)));
    }
    else J(fmtOk, tr<F>::fmt(), m, v, (format<F, char>(s, v, how & 1)));
}
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] {
            auto ts = load_traces(TRACES);
            for(size_t n = W; n < ts.size(); n += NW)
                for(auto& s : ts[n]) if(s.op == "format") with_format(ALL{}, s.a[0], [&]<typename F>() {
                    auto& a = s.a;
                    FS f{a[2], a[3], a[4], a[5] != 0, a[6] != 0, a[7], a[8], a[9], (n & 1) == 0};
                    expect<F>(s, vec(format<F, char>(f, a[1], n & 2)), n);
                    expect<F>(s, vec(format<F, wchar_t>(f, a[1], n & 2)), n);
                });
        }},
        {"random", [] { every([]<typename F>() {
            auto g = rng("random");
            for(uint64_t i = count(60000, 4000000); i; --i)
            {
                FS s = gen(g); T_<F> v = pick<F>(g);
                seen(tr<F>::key() ^ mix((u64)v) ^ mix((u64)(s.align * 31 + s.sign * 17 + s.width * 1009 + s.prec * 7919 + s.ty * 104729 + s.alt * 2 + s.zero)));
                one<F>(s, (Int)v, (int)g.below(8) ? (int)g.below(2) : 2 + (int)g.below(2));
            }
        }); }},
        // every type, sign, flag and alignment with small widths and precisions on a few values
        {"grid", [] { every([]<typename F>() {
            Int q = 0;
            std::set<Int> vs; Int o = (Int)1 << tr<F>::frac;
            for(Int x : {(Int)0, (Int)1, (Int)-1, o, -o, o / 2, -o / 2, o + o / 2 + 1, -o - 3, spec::hi_(tr<F>::fmt()), spec::lo_(tr<F>::fmt())}) if(spec::fits_(tr<F>::fmt(), x)) vs.insert(x);
            for(char ty : std::string("gGfFdxXobB?")) for(char al : {'\0', '<', '>', '^'}) for(char sg : {'-', '+', ' '}) for(int alt = 0; alt < 2; ++alt) for(int z = 0; z < 2; ++z)
                for(int w : {0, 4, 7, 11}) for(int p : {-1, 0, 1, 4, 9}) { if(q++ % NW != W || (!THOROUGH && mix(q) % 3)) continue; for(Int v : vs) { seen(tr<F>::key() ^ mix(q) ^ mix((u64)v)); one<F>(FS{al, al ? '*' : 32, sg, alt != 0, z != 0, w, p, ty, (q & 1) != 0}, v, 0); } }
        }); }},
        // a field without a specification
        {"plain", [] { every([]<typename F>() {
            auto g = rng("plain");
            auto m = model(FS{0, 32, 45, false, false, 0, -1, 'g', true});
            for(uint64_t i = count(10000, 100000); i; --i)
            {
                T_<F> v = pick<F>(g); F x = raw<F>(v);
                announce("format {}", v);
                std::string r; std::wstring w; char buf[12] = "###########";
                switch(g.below(6))
                {
                case 0: r = std::format("{}", x); break;
                case 1: r = std::format("{:}", x); break;
                case 2: r = std::format("{0}", x); break;
                case 3: std::format_to(std::back_inserter(r), "{}", x); break;
                case 4: w = g.flip() ? std::format(L"{}", x) : std::format(L"{:}", x); break;
                default: {
                    // cut off after so many characters
                    auto k = g.below(11); auto e = std::format_to_n(buf, (std::ptrdiff_t)k, "{}", x);
                    auto want = spec::fmtX_(tr<F>::fmt(), m, (Int)v);
                    if((Int)e.size != (Int)want.size() || buf[k] != '#') violation("std::format_to_n of " + tr<F>::name() + " " + show((Int)v));
                    for(size_t j = 0; j < std::min<size_t>(k, want.size()); ++j) if((Int)buf[j] != want[j]) violation("std::format_to_n of " + tr<F>::name() + " " + show((Int)v));
                    continue; }
                }
                seen(tr<F>::key() ^ mix((u64)v) ^ 99);
                if(!w.empty()) J(fmtOk, tr<F>::fmt(), m, (Int)v, codes(w)); else J(fmtOk, tr<F>::fmt(), m, (Int)v, codes(r));
            }
        }); }},
        // only the listed types exist
        {"invalid", [] {
            if(PART != 0 || W != 0) return;
            F32 x(1);
            for(int c = 33; c < 127; ++c)
            {
                if(strchr("gGfFdxXobB?{}<>^+-#.0123456789", c)) continue;
                std::string t = std::string("{:4.2") + (char)c + "}";
                announce("format type", c);
                bool threw = false;
                try { (void)std::vformat(t, std::make_format_args(x)); } catch(std::format_error&) { threw = true; }
                if(!threw) violation(std::string("format type '") + (char)c + "' accepted");
            }
            // nor do wide characters that look like them in their low byte
            for(int c : std::string("gGfFdxXobB?")) for(int hi : {1, 2, 0x30, 0xff, 0x1f6})
            {
                std::wstring t = L"{:4.2"; t += (wchar_t)(hi * 256 + c); t += L"}";
                announce("wide format type", hi * 256 + c);
                bool threw = false;
                try { (void)std::vformat(t, std::make_wformat_args(x)); } catch(std::format_error&) { threw = true; }
                if(!threw) violation("wide format type " + std::to_string(hi * 256 + c) + " accepted");
            }
            // nothing may follow the type
            for(const char* t : {"{:dd}", "{:fg}", "{:x4}", "{:g.2}", "{:?x}", "{:5d5}", "{:+-d}", "{:##x}", "{:*}", "{:.2.2f}"})
            {
                announce(t);
                bool threw = false;
                try { (void)std::vformat(t, std::make_format_args(x)); } catch(std::format_error&) { threw = true; }
                if(!threw) violation(std::string("format specification ") + t + " accepted");
            }
        }},
    });
}
