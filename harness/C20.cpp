#include "text.hpp"
using namespace h;
// a source that hands out a few characters at a time and takes none back
template <typename C> struct Slow : std::basic_streambuf<C> {
    using B = std::basic_streambuf<C>; using typename B::int_type; using typename B::pos_type; using typename B::off_type;
    std::basic_string<C> text; size_t chunk = 1, given = 0;
    void open(std::basic_string<C> t, size_t c) { text = std::move(t); chunk = c; given = 0; this->setg(nullptr, nullptr, nullptr); }
    int_type underflow() override
    {
        if(given >= text.size()) return B::traits_type::eof();
        if(chunk == 1) return B::traits_type::to_int_type(text[given]); // no buffer at all
        size_t k = std::min(chunk, text.size() - given);
        C* p = text.data() + given;
        this->setg(p, p, p + k);
        given += k;
        return B::traits_type::to_int_type(*p);
    }
    int_type uflow() override
    {
        if(chunk != 1) return B::uflow();
        return given >= text.size() ? B::traits_type::eof() : B::traits_type::to_int_type(text[given++]);
    }
    pos_type seekoff(off_type, std::ios_base::seekdir, std::ios_base::openmode) override { return pos_type((off_type)(given - (size_t)(this->egptr() - this->gptr()))); }
};
// a stream over a text; C selects narrow or wide
template <typename C> struct In {
    std::basic_stringbuf<C> whole; Slow<C> slow; std::basic_istream<C> is{&whole}; size_t n = 0; bool exc = false;
    void feed(std::string const& t, bool skip) { std::basic_string<C> w; for(char c : t) w += (C)(unsigned char)c; feedw(w, skip); }
    void feedw(std::basic_string<C> const& w, bool skip, size_t chunk = 0)
    {
        if(chunk) { slow.open(w, chunk); is.rdbuf(&slow); } else { whole.str(w); is.rdbuf(&whole); }
        is.clear(); n = w.size(); flags(skip);
    }
    // what does not matter: width, precision, base, locale
    void dress(uint64_t k)
    {
        is.width((std::streamsize)(k & 3)); is.precision((std::streamsize)(k >> 2 & 3));
        is.setf(k & 16 ? std::ios_base::hex : k & 32 ? std::ios_base::oct : std::ios_base::dec, std::ios_base::basefield);
        if(k & 64) is.imbue(k & 128 ? european() : std::locale::classic());
    }
    void flags(bool skip) { if(skip) is >> std::skipws; else is >> std::noskipws; }
    Int pos() { auto p = is.rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in); return p < 0 ? (Int)n : (Int)p; }
    template <typename F> IntL extract(Int old)
    {
        F x = raw<F>((T_<F>)old);
        announce("operator>>", old);
        // with exceptions for failure enabled, a failing extraction throws and has otherwise the same outcome
        bool same = true, thrown = false;
        if(exc) is.exceptions(std::ios_base::failbit);
        try { auto& r = (is >> x); same = &r == &is; } catch(std::ios_base::failure const&) { thrown = true; }
        is.exceptions(std::ios_base::goodbit);
        if(thrown != (exc && is.fail())) same = false;
        return {same ? pos() : -1, (Int)is.eof(), (Int)is.fail(), rv(x)};
    }
};
// a history of extractions from one stream
template <typename F, typename C> void history(Rng& g)
{
    In<C> in;
    std::string t;
    for(int k = (int)g.below(5); k >= 0; --k)
    {
        static const char* sep[] = {" ", "  ", "\n", "\t", ",", "", "x", " , ", "\r\n", "\v\f"};
        t += gen_text<F>(g); t += sep[g.below(10)];
    }
    if(g.below(4) == 0) t = std::string(" \t\n"[g.below(3)], 1) + t;
    std::basic_string<C> w; for(char c : t) w += (C)(unsigned char)c;
    // characters outside Latin-1 whose low byte looks like a part of a number
    if constexpr(sizeof(C) > 1) if(g.flip() && !w.empty()) for(int k = (int)g.below(3); k >= 0; --k) { C c = (C)((1 + g.below(0x2ff)) * 256 + (unsigned char)"0123456789.- \n"[g.below(14)]); if(g.flip()) w[g.below(w.size())] = c; else w.insert(g.below(w.size() + 1), 1, c); }
    auto l = codes(w);
    bool skip = g.below(6) != 0;
    bool plain = g.flip();
    in.feedw(w, skip, plain ? 0 : g.below(4));
    if(!plain && g.flip()) in.dress(g());
    Int pos = 0; bool eof = false, bad = false;
    for(int k = 0; k < 8; ++k)
    {
        Int old = (Int)pick<F>(g);
        in.exc = !(eof || bad) && g.below(8) == 0;
        auto r = in.template extract<F>(old);
        seen(key_of(t) ^ tr<F>::key() ^ mix(k));
        me->steps.fetch_add(1, std::memory_order_relaxed);
        if(!J(extractOk, tr<F>::fmt(), l, pos, eof, bad, skip, old, r)) return;
        pos = r[0]; eof = r[1]; bad = r[2];
        if((eof || bad) && g.below(3)) { in.is.clear(); eof = bad = false; if(g.flip() && pos < (Int)w.size()) { in.is.get(); ++pos; } }
        if(g.below(6) == 0) { skip = !skip; in.flags(skip); }
    }
}
template <typename C> void replay(std::vector<Step> const& ts, size_t n)
{
    In<C> in;
    bool mine = true;
    for(auto& s : ts)
    {
        if(s.op == "feed") in.feed(text_of(s.a, 1), s.a[0] != 0);
        else if(s.op == "clear") in.is.clear();
        else if(s.op == "skip") in.flags(s.a[0] != 0);
        else if(s.op == "get") { Int c = (Int)in.is.get(); expect<F32>(s, {c}, n); }
        else if(s.op == "extract")
        {
            // only the part responsible for this format looks, but every part follows the stream
            [&]<typename... F>(fmts<F...>) { Int i = 0; ((i++ == s.a[0] ? expect<F>(s, vec(in.template extract<F>(s.a[1])), n) : (void)0), ...); }(ALL{});
        }
        if(sh->violations > 0) return;
    }
}
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] {
            if(PART > 1) return;
            auto ts = load_traces(TRACES);
            for(size_t n = W; n < ts.size(); n += NW) { if(PART == 0) replay<char>(ts[n], n); else replay<wchar_t>(ts[n], n); }
        }},
        {"histories", [] { every([]<typename F>() {
            auto g = rng(("hist" + tr<F>::name()).c_str());
            for(uint64_t i = count(30000, 1000000); i; --i) { history<F, char>(g); if(i % 3 == 0) history<F, wchar_t>(g); }
        }); }},
        // one step from every state of a stream over every short text: with the exhaustive exploration of
        // small_stream this covers every history of such streams
        {"every state", [] {
            if(PART < 2 || PART > 5) return;
            static const char al[] = "19.- x0";
            auto all = [&]<typename F, typename C>() {
                for(int len = 0, total = 1; len <= (THOROUGH ? 6 : 4); ++len, total *= 7)
                    for(int q = W; q < total; q += NW)
                    {
                        std::string t; for(int i = 0, r = q; i < len; ++i, r /= 7) t += al[r % 7];
                        seen(key_of(t));
                        for(int pos = 0; pos <= len; ++pos) for(int fl = 0; fl < 16; ++fl)
                        {
                            bool eof = fl & 1, bad = fl & 2, skip = fl & 4;
                            In<C> in; in.feed(t, skip);
                            in.is.rdbuf()->pubseekpos(pos, std::ios_base::in);
                            in.is.clear((eof ? std::ios_base::eofbit : std::ios_base::goodbit) | (bad ? std::ios_base::failbit : std::ios_base::goodbit));
                            in.exc = (fl & 8) && !bad && !eof;
                            me->steps.fetch_add(1, std::memory_order_relaxed);
                            if(!J(extractOk, tr<F>::fmt(), codes(t), (Int)pos, eof, bad, skip, (Int)9, in.template extract<F>(9))) return;
                        }
                    }
            };
            if(PART == 2) all.template operator()<F32, char>(); else if(PART == 3) all.template operator()<FX<i8, i16, 4>, char>();
            else if(PART == 4) all.template operator()<F32, wchar_t>(); else all.template operator()<FX<u8, u16, 4>, wchar_t>();
        }},
        {"short", [] {
            if(PART >= 2) return;
            static const char al[] = "019.- x";
            for(int len = 0, total = 1; len <= (THOROUGH ? 7 : 5); ++len, total *= 7)
                for(int q = W; q < total; q += NW)
                {
                    std::string t; for(int i = 0, r = q; i < len; ++i, r /= 7) t += al[r % 7];
                    seen(key_of(t));
                    auto one = [&]<typename F>() {
                        In<char> in; in.feed(t, true);
                        Int pos = 0; bool eof = false, bad = false;
                        for(int k = 0; k < 3; ++k) { auto r = in.template extract<F>(9); if(!J(extractOk, tr<F>::fmt(), codes(t), pos, eof, bad, true, (Int)9, r)) return; pos = r[0]; eof = r[1]; bad = r[2]; }
                    };
                    if(PART == 0) one.template operator()<F32>(); else one.template operator()<FX<i8, i16, 4>>();
                }
        }},
    });
}
