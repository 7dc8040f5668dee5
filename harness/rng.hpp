#pragma once
#include "val.hpp"
#include <eirin/random.hpp>
namespace h {
// the engines of ENGS in spec/rng.qnt
using E0 = eirin::pcg2014; using E1 = eirin::pcg2014_64;
using E2 = eirin::permuted_congruential_engine<uint32_t, 12345, 3, 7, 0x10001, 0x9E3779B1>;
using E3 = eirin::permuted_congruential_engine<uint64_t, 0xFFFFFFFFFFFFFFF0ull, 0xD1342543DE82EF95ull, 1, 0xC2B2AE3D27D4EB4Full, 0x165667B19E3779F9ull>;
template <typename Fn> void with_engine(Int k, Fn fn)
{
    if(k == 0) fn.template operator()<E0, 0>(); else if(k == 1) fn.template operator()<E1, 1>(); else if(k == 2) fn.template operator()<E2, 2>(); else fn.template operator()<E3, 3>();
}
// seed and position, from the engine's textual form
template <typename C = char, typename E> std::vector<Int> state_of(E const& e)
{
    std::basic_ostringstream<C> os;
    // whatever the stream was set to
    static thread_local unsigned turn = 0;
    using B = std::ios_base;
    static constexpr B::fmtflags set[] = {B::hex | B::showbase, B::oct | B::showbase | B::right, B::hex | B::uppercase | B::showpos, B::dec | B::internal | B::showpos, B::fmtflags(0), B::dec | B::unitbuf, B::oct | B::skipws | B::fixed};
    os.flags(set[turn++ % 7]); os.fill((C)"*0 -"[turn % 4]);
    auto fi = os.fill();
    auto fl = os.flags();
    os << e;
    if(os.flags() != fl || os.fill() != fi) violation("writing the engine changed the flags of the stream");
    auto w = os.str();
    std::string s(w.begin(), w.end());
    auto sp = s.find(' ');
    auto num = [](std::string const& t) { return !t.empty() && t.find_first_not_of("0123456789") == t.npos ? parse_int(t) : (Int)-1; };
    if(sp == s.npos) return {-1, -1};
    return {num(s.substr(0, sp)), num(s.substr(sp + 1))};
}
} // namespace h
