// Texts: generation, and the library's readers and writers on them.
#pragma once
#include "val.hpp"
#include <eirin/io/parse.hpp>
#include <eirin/io/format.hpp>
#include <format>
#include <locale>
#include <memory>
namespace h {
template <typename C> IntL codes(std::basic_string<C> const& s) { IntL l; for(C c : s) l.push_back((Int)(std::make_unsigned_t<C>)c); return l; }
inline std::string text_of(std::vector<Int> const& a, size_t from) { std::string s; for(size_t i = from; i < a.size(); ++i) s += (char)a[i]; return s; }
// a locale with another decimal point, grouped digits and other names
template <typename C> struct Punct : std::numpunct<C> {
    C do_decimal_point() const override { return (C)','; }
    C do_thousands_sep() const override { return (C)'.'; }
    std::string do_grouping() const override { return "\1\2"; }
};
inline std::locale const& european() { static const std::locale l(std::locale(std::locale::classic(), new Punct<char>), new Punct<wchar_t>); return l; }
// an exactly sized heap copy: reading past it is caught by the guard page behind it
struct Exact {
    char* base; char* p; size_t n;
    static constexpr size_t PG = 4096;
    // one mapping reused: page, then a page without access
    static char* area() { static char* a = [] { char* m = (char*)mmap(nullptr, 2 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m + PG, PG, PROT_NONE); return m; }(); return a; }
    explicit Exact(std::string const& s) : base(area()), p(base + PG - s.size()), n(s.size()) { memcpy(p, s.data(), n); }
};
// decimal text near interesting values of a format: long fractions, limits of the range, garbage
template <typename F> std::string gen_text(Rng& g)
{
    auto digits = [&](int n) { std::string s; for(int i = 0; i < n; ++i) s += (char)('0' + (g.below(4) == 0 ? (g.flip() ? 0 : 9) : g.below(10))); return s; };
    std::string s;
    uint64_t k = g.below(16);
    if(g.below(3) == 0) s += '-';
    // zeros in front, rarely very many
    if(g.below(8) == 0) s += std::string(g.below(g.below(16) ? 40 : 400), '0');
    if(k < 5)
    {
        s += digits((int)g.below(6));
        if(g.below(4)) { s += '.'; if(g.flip()) s += std::string(g.below(12), '0'); s += digits((int)g.below(g.below(4) ? 8 : 30)); }
    }
    else if(k < 10)
    {
        // a value of the format or just outside its range, printed exactly by the specification
        Int v = (Int)pick<F>(g);
        if(g.below(3) == 0) v = (g.flip() ? spec::hi_(tr<F>::fmt()) : spec::lo_(tr<F>::fmt())) + (Int)g.below(5) - 2;
        auto Fm = tr<F>::fmt(); 
        for(Int c : spec::printX_(Fm, 10, false, v)) s += (char)c;
        if(s.size() > 1 && s[0] == '-' && s[1] == '-') s.erase(0, 1);
        if(g.below(3) == 0 && s.find('.') != s.npos) { s.resize(s.find('.') + 1 + g.below(s.size() - s.find('.'))); }
        if(g.below(4) == 0) s += digits(1 + (int)g.below(20));
    }
    else if(k < 13)
    {
        // integral limit of the format and its neighbours, as text
        Int m = (spec::hi_(tr<F>::fmt()) >> tr<F>::frac) + 1 + (Int)g.below(3) - 1;
        s += show(m);
        if(g.flip()) { s += '.'; s += g.flip() ? digits((int)g.below(20)) : std::string(g.below(24), g.flip() ? '9' : '0'); }
        if(g.below(5) == 0) s += digits((int)g.below(30));
    }
    else if(k == 13) s += digits(10 + (int)g.below(60));
    else if(k == 14) { static const char al[] = "0123456789..-- +exX\t,\0"; for(int n = (int)g.below(10); n > 0; --n) s += al[g.below(sizeof al - 1)]; }
    else { s += digits((int)g.below(3)); s += "."; s += std::string(g.below(60), '0'); s += digits((int)g.below(4)); }
    // sometimes damaged
    if(g.below(8) == 0) s.insert(g.below(s.size() + 1), 1, "-.x 5e+\0,"[g.below(9)]);
    // any byte, or very long
    if(g.below(24) == 0) s.insert(g.below(s.size() + 1), 1, (char)g());
    if(g.below(64) == 0) s += digits((int)g.below(300));
    return s;
}
inline uint64_t key_of(std::string const& s) { uint64_t k = 7; for(char c : s) k = k * 1099511628211ull + (unsigned char)c; return mix(k); }
} // namespace h
