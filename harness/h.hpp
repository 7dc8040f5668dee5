// Common part of the conformance drivers.
//
// A driver links the library under test (headers of /repo) with the compiled
// specification.  It forks workers; each executes cases (inputs, or steps of a
// history), hands input and observed outcome to a judge of the specification
// and reports what the specification rejects.  A worker that crashes or hangs
// inside a library call is a rejection of the case it had announced.
#pragma once
#include "spec.hpp"
#include <atomic>
#include <bit>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <type_traits>
#include <unistd.h>
#include <eirin/eirin.hpp>

#include "dict.inc"
#ifdef MEASURE_COVERAGE
extern "C" void __gcov_dump();
#define _exit(n) (__gcov_dump(), _Exit(n))
#endif
namespace h {
using spec::Int;
using spec::show;
using IntL = spec::Lst<Int>;

inline std::string show(const std::string& s) { return s; }
inline std::string show(const char* s) { return s; }
using spec::show;
template <std::integral T> requires(!std::is_same_v<T, bool> && sizeof(T) <= 8) std::string show(T v) { return spec::show((Int)v); }

constexpr int MAXW = 8;
struct Slot {
    std::atomic<uint64_t> progress{0};
    char op[96]{};
    int64_t a[8]{};
    int n = 0;
    std::atomic<uint64_t> evals{0};
    std::atomic<uint64_t> steps{0};
    std::atomic<int> state{0}; // 0 running 1 done
    char stage[64]{};
    double maxerr[16]{};
};
constexpr uint64_t BM_BITS = uint64_t(1) << 27;
struct Shared {
    Slot slot[MAXW];
    std::atomic<int> violations{0};
    std::atomic<uint64_t> bm[BM_BITS / 64];
};
inline Shared* sh;
inline int W = 0, NW = 1;
inline uint64_t SEED = 1;
inline bool THOROUGH = false;
inline std::string TRACES;   // behaviours generated by the specification
inline std::string OUT;      // prefix of the files this run writes
inline Slot* me;
inline FILE* samples;

inline uint64_t mix(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed)) {}
    uint64_t operator()() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? (*this)() % n : 0; }
    bool flip() { return (*this)() & 1; }
};
inline uint64_t hash_name(const char* s) { uint64_t x = 1469598103934665603ull; for(; *s; ++s) x = (x ^ (unsigned char)*s) * 1099511628211ull; return x; }

// announce the library call about to be made
template <typename... A> inline void announce(const char* op, A... a)
{
    strncpy(me->op, op, sizeof me->op - 1);
    int i = 0;
    ((i < 8 ? (void)(me->a[i++] = (int64_t)a) : (void)0), ...);
    me->n = i;
    me->progress.fetch_add(1, std::memory_order_relaxed);
}
inline void seen(uint64_t key)
{
    me->evals.fetch_add(1, std::memory_order_relaxed);
    uint64_t k = mix(key) & (BM_BITS - 1);
    auto& w = sh->bm[k >> 6];
    uint64_t bit = uint64_t(1) << (k & 63);
    if(!(w.load(std::memory_order_relaxed) & bit)) w.fetch_or(bit, std::memory_order_relaxed);
}

inline void violation(const std::string& what)
{
    int n = sh->violations.fetch_add(1);
    if(n < 8)
    {
        std::ofstream f(OUT + ".viol." + std::to_string(n));
        f << what << "\n";
    }
    if(n >= 3 && me) { fflush(samples); _exit(1); }
}

inline uint64_t sample_every = 1;
inline uint64_t judged = 0, sampled = 0;
constexpr uint64_t SAMPLE_MAX = 60;

inline Int corrupt(Int v) { uint64_t k = mix(judged ^ SEED) % 7; return k < 3 ? v + 1 : k < 5 ? v - 1 : v + ((Int)1 << (int)(judged % 20)); }
inline bool corrupt(bool v) { return !v; }
inline IntL corrupt(IntL v) { if(v.empty()) v.push_back(48); else { auto& x = v[judged % v.size()]; x = x == 0 ? 1 : x - 1; } return v; }
template <typename T> T corrupt(T v) { return v; }
template <typename... A> std::string expr(const char* name, A const&... a)
{
    std::string s = std::string(name) + "(";
    int i = 0;
    ((s += (i++ ? ", " : "") + show(a)), ...);
    return s + ")";
}
// Ask the specification's judge `name` about an observation (observed result last).
template <typename Fn, typename... A>
bool judge(const char* name, Fn fn, A const&... a)
{
    bool ok = fn(a...);
    if(!ok) [[unlikely]]
    {
        std::string s = expr(name, a...);
        violation("the specification rejects the observation " + s + "\nEXPR: " + s + " == false");
    }
    if(++judged >= sample_every && sampled < SAMPLE_MAX) [[unlikely]]
    {
        sample_every = judged + judged / 3 + 1;
        ++sampled;
        fprintf(samples, "%s == %s\n", expr(name, a...).c_str(), ok ? "true" : "false");
        if(sampled % 3 == 0)
        {
            // the verdict on a corrupted observation
            auto t = std::make_tuple(a...);
            auto& last = std::get<sizeof...(A) - 1>(t);
            last = corrupt(last);
            std::apply([&](auto const&... x) { bool v = fn(x...); fprintf(samples, "%s == %s\n", expr(name, x...).c_str(), v ? "true" : "false"); }, t);
        }
    }
    return ok;
}
template <typename F> struct tr;
template <typename T, typename I, unsigned int f, bool r>
struct tr<eirin::fixed_num<T, I, f, r>> {
    using type = T; using inter = I;
    static constexpr int frac = f, bits = sizeof(T) * 8;
    static constexpr bool sgd = std::is_signed_v<T>, rnd = r;
    static spec::Fmt const& fmt() { static spec::Fmt F = spec::fm_(bits, frac, sgd, rnd); return F; }
    static uint64_t key() { return (uint64_t)(bits * 1000 + frac * 4 + sgd * 2 + rnd) * 0x9E3779B97F4A7C15ull; }
    static std::string name() { return std::string(sgd ? "s" : "u") + std::to_string(bits) + "." + std::to_string(frac) + (rnd ? "r" : ""); }
};
template <typename F> using T_ = typename tr<F>::type;
template <typename F> inline F raw(T_<F> v) { return F::from_internal_value(v); }
template <typename F> inline Int rv(F const& v) { return (Int)v.internal_value(); }

using i8 = int8_t; using i16 = int16_t; using i32 = int32_t; using i64 = int64_t;
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
using i128 = __int128; using u128 = unsigned __int128;
template <typename T, typename I, unsigned f, bool r = false> using FX = eirin::fixed_num<T, I, f, r>;
using F32 = eirin::fixed32; using F64 = eirin::fixed64;
template <typename... F> struct fmts {};
// A driver may be compiled in several parts, each responsible for some of the formats.
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template <typename F, int N, typename Fn> void each1(Fn& fn) { if constexpr(N % PARTS == PART) fn.template operator()<F>(); }
template <int N, typename... F, typename Fn> void each2(fmts<F...>, Fn& fn) { int n = 0; (void)n; [&]<size_t... I>(std::index_sequence<I...>) { (each1<F, (int)I>(fn), ...); }(std::index_sequence_for<F...>{}); }
template <typename... F, typename Fn> void each(fmts<F...> f, Fn fn) { each2<0>(f, fn); }
// the format with index i (if this part is responsible for it)
template <typename... F, typename Fn> void with_format(fmts<F...>, Int i, Fn fn)
{
    [&]<size_t... I>(std::index_sequence<I...>) { ((I % PARTS == PART && (Int)I == i ? each1<F, (int)I>(fn) : (void)0), ...); }(std::index_sequence_for<F...>{});
}

// raw values worth trying: zero, the limits, powers of two, the unit, and their neighbours
template <typename F> std::vector<T_<F>> const& edges()
{
    static std::vector<T_<F>> v = [] {
        using T = T_<F>;
        std::set<T> s;
        auto add = [&](Int x) { for(int d = -3; d <= 3; ++d) { Int y = x + d; if(y >= (Int)std::numeric_limits<T>::min() && y <= (Int)std::numeric_limits<T>::max()) s.insert((T)y); } };
        add(0); add(std::numeric_limits<T>::min()); add(std::numeric_limits<T>::max());
        for(int k = 0; k < tr<F>::bits; ++k) { add((Int)1 << k); add(-((Int)1 << k)); add(((Int)3 << k) / 2); add(-((Int)3 << k) / 2); }
        Int one = (Int)1 << tr<F>::frac;
        for(int m = -8; m <= 8; ++m) { add(one * m); add(one * m / 2); add(one * m / 10); }
        for(int m : {100, 127, 128, 255, 256, 1000, 32767, 46340, 65535}) { add(one * m); add(-one * m); add(one * m + one / 2); add(-one * m - one / 2); }
        return std::vector<T>(s.begin(), s.end());
    }();
    return v;
}
// raw values derived from the numbers in the library's sources: as they are, as integers, as raw values of
// 61 and 32 fraction bits, their neighbours and halves
template <typename F, size_t N, size_t M> std::vector<T_<F>> derived(const unsigned long long (&is)[N], const long double (&fs)[M])
{
    using T = T_<F>;
    std::set<T> s;
    auto in = [](Int y) { return y >= (Int)std::numeric_limits<T>::min() && y <= (Int)std::numeric_limits<T>::max(); };
    auto add = [&](Int x) { for(Int b : {x, -x}) for(int d = -2; d <= 2; ++d) if(in(b + d)) s.insert((T)(b + d)); };
    constexpr int f = tr<F>::frac;
    for(auto k : is)
    {
        Int x = (Int)k;
        add(x);
        if(x < ((Int)1 << 62)) { add(x << f); add((x << f) / 2); add((x << f) + ((Int)1 << f) / 2); }
        add(f >= 61 ? x << (f - 61) : x >> (61 - f)); add(f >= 32 ? x << (f - 32) : x >> (32 - f));
    }
    for(auto d : fs) { long double y = std::ldexp(d, f); if(std::fabs(y) < 1e18L) { add((Int)y); add((Int)(y / 2)); } y = d != 0 ? std::ldexp(1 / d, f) : 0; if(std::fabs(y) < 1e18L) add((Int)y); }
    return std::vector<T>(s.begin(), s.end());
}
template <typename F> std::vector<T_<F>> const& dict() { static std::vector<T_<F>> v = derived<F>(DICT_INT, DICT_FLT); return v; }
template <typename F> std::vector<T_<F>> const& hot() { static std::vector<T_<F>> v = derived<F>(HOT_INT, HOT_FLT); return v; }
// a random raw value: uniform magnitude of bit length, sparse bits, near edges, or near integers
template <typename F> T_<F> pick_fresh(Rng& g)
{
    using T = T_<F>;
    using U = std::make_unsigned_t<T>;
    constexpr int B = tr<F>::bits;
    uint64_t x = g();
    if(HAS_HOT && (x >> 20 & 7) == 0) { auto& e = hot<F>(); return e[g.below(e.size())]; }
    switch(x & 7)
    {
    case 0: { auto& e = (x & 8) ? dict<F>() : edges<F>(); return e[g.below(e.size())]; }
    case 1: return (T)g();
    case 2: { U v = 0; for(int i = (x >> 3) & 3; i >= 0; --i) v |= U(1) << g.below(B); return (T)(((x >> 6) & 1) ? U(0) - v : v); }
    case 3: { Int n = (Int)(int64_t)(g.below(2001)) - 1000; Int v = n * ((Int)1 << tr<F>::frac) + (Int)(int64_t)g.below(5) - 2; return (T)v; }
    default: { int k = 1 + (int)g.below(B); U v = (U)(g() >> (64 - k)); return (T)(((x >> 6) & 1) ? U(0) - v : v); }
    }
}
// now and then a relative of the value before: the same again, its opposite, a neighbour, or one that
// shares its low or its high half (a result must not depend on what was computed before)
template <typename F> T_<F> pick(Rng& g)
{
    using T = T_<F>;
    using U = std::make_unsigned_t<T>;
    static T last = 0;
    uint64_t x = g();
    if(x & 15) return last = pick_fresh<F>(g);
    constexpr int half = tr<F>::bits / 2;
    U u = (U)last;
    switch(x >> 4 & 7)
    {
    case 0: return last;
    case 1: return last = (T)(U(0) - u);
    case 2: return last = (T)(u + 1);
    case 3: return last = (T)(u ^ U(1) << (x >> 8) % tr<F>::bits);
    case 4: case 5: return last = (T)(u ^ (U)(U(g()) << half));
    default: return last = (T)(u ^ (U)(U(g()) >> half));
    }
}
// an integer of up to 64 bits: of any length, small, with trailing zeros, near a power of two, or from the sources
inline Int pick_int(Rng& g)
{
    Int m;
    if(HAS_HOT && g.below(8) == 0) { m = (Int)HOT_INT[g.below(std::size(HOT_INT))] + (Int)g.below(3) - 1; return g.flip() ? m : -m; }
    switch(g.below(8))
    {
    case 0: m = (Int)(u64)g(); break;
    case 1: case 2: m = (Int)g.below(100); break;
    case 3: m = (Int)(u64)((1 + g.below(15)) << g.below(64)); break;
    case 4: m = (Int)(u64)((u64(1) << g.below(64)) + g.below(5) - 2); break;
    case 5: m = DICT_INT[g.below(std::size(DICT_INT))]; break;
    default: m = (Int)(u64)(g() >> g.below(64)); break;
    }
    return g.flip() ? m : -m;
}
// a positive magnitude with uniform bit length
template <typename F> T_<F> pick_pos(Rng& g)
{
    constexpr int B = tr<F>::bits - (tr<F>::sgd ? 1 : 0);
    if(HAS_HOT && g.below(8) == 0) { auto& e = hot<F>(); auto v = e[g.below(e.size())]; if(v > 0) return v; }
    for(;;) { int k = 1 + (int)g.below(B); auto v = (T_<F>)(g() >> (64 - k)); if(v > 0) return v; }
}

struct Stage { const char* name; std::function<void()> fn; };
// Each stage runs in every worker; W / NW say which part of it is this worker's.
inline int run(int argc, char** argv, std::vector<Stage> stages)
{
    // argv: OUT SEED TIER WORKERS TRACES
    OUT = argv[1]; TRACES = argv[5]; SEED = strtoull(argv[2], nullptr, 10); THOROUGH = !strcmp(argv[3], "thorough");
    NW = argc > 4 ? atoi(argv[4]) : 8;
    if(NW > MAXW) NW = MAXW;
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pid(NW);
    for(W = 0; W < NW; ++W)
    {
        pid[W] = fork();
        if(pid[W] == 0)
        {
            me = &sh->slot[W];
            rlimit rl{2000000000u, 2000000000u}; (void)rl;
            samples = fopen((OUT + ".samples." + std::to_string(W)).c_str(), "w"); setvbuf(samples, nullptr, _IOLBF, 1 << 16);
            try
            {
                for(auto& s : stages)
                {
                    strncpy(me->stage, s.name, 63);
                    // each worker samples every stage afresh
                    judged = 0; sampled = 0; sample_every = 1 + W;
                    s.fn();
                }
            }
            catch(spec::model_error& e)
            {
                fprintf(stderr, "MODEL-ERROR %s in stage %s op %s", e.what(), me->stage, me->op);
                for(int i = 0; i < me->n; ++i) fprintf(stderr, " %lld", (long long)me->a[i]);
                fprintf(stderr, "\n");
                fclose(samples);
                _exit(3);
            }
            catch(std::exception& e)
            {
                violation(std::string("unexpected exception '") + e.what() + "' in " + me->op);
                fclose(samples);
                _exit(1);
            }
            fclose(samples);
            me->state = 1;
            _exit(0);
        }
    }
    auto describe = [&](int w) {
        std::string s = std::string("stage ") + sh->slot[w].stage + ", call " + sh->slot[w].op + "(";
        for(int i = 0; i < sh->slot[w].n; ++i) s += (i ? ", " : "") + std::to_string(sh->slot[w].a[i]);
        return s + ")";
    };
    int rc = 0, left = NW;
    std::vector<bool> done(NW, false);
    std::vector<uint64_t> last(NW, 0);
    std::vector<int> quiet(NW, 0);
    while(left)
    {
        usleep(20000);
        for(int w = 0; w < NW; ++w)
        {
            if(done[w]) continue;
            int st;
            if(waitpid(pid[w], &st, WNOHANG) == pid[w])
            {
                done[w] = true; --left;
                if(WIFSIGNALED(st))
                {
                    violation(std::string("the library crashed with signal ") + strsignal(WTERMSIG(st)) + " in " + describe(w));
                    rc = std::max(rc, 1);
                }
                else rc = std::max(rc, WEXITSTATUS(st));
                continue;
            }
            uint64_t p = sh->slot[w].progress + sh->slot[w].evals + sh->slot[w].steps;
            if(p != last[w]) { last[w] = p; quiet[w] = 0; }
            else if(++quiet[w] > 50 * 60) // a minute without progress
            {
                kill(pid[w], SIGKILL);
                waitpid(pid[w], &st, 0);
                done[w] = true; --left;
                violation("the library did not return for a minute from " + describe(w));
                rc = std::max(rc, 1);
            }
        }
    }
    uint64_t ev = 0, st = 0, di = 0;
    for(int w = 0; w < NW; ++w) { ev += sh->slot[w].evals; st += sh->slot[w].steps; }
    for(auto& w : sh->bm) di += std::popcount(w.load(std::memory_order_relaxed));
    std::ofstream f(OUT + ".stats");
    f << "{\"evaluations\": " << ev << ", \"distinct\": " << di << ", \"steps\": " << st << ", \"violations\": " << sh->violations.load() << ", \"errs\": [";
    for(int i = 0; i < 16; ++i) { double m = 0; for(int w = 0; w < NW; ++w) m = std::max(m, sh->slot[w].maxerr[i]); f << (i ? ", " : "") << m; }
    f << "]}\n";
    if(sh->violations > 0 && rc < 3) rc = 1;
    return rc;
}
// all values v of this worker's share of [lo, hi]
template <typename Fn> void shard(Int lo, Int hi, Fn fn, Int step = 1)
{
    for(Int v = lo + (Int)W * step; v <= hi; v += (Int)NW * step) fn(v);
}
inline int scale = 1;
#ifndef EFFORT
#define EFFORT 1
#endif
inline uint64_t count(uint64_t quick, uint64_t thorough) {
    quick *= EFFORT; 
#ifdef MEASURE_COVERAGE
    quick = quick / 100 + 8;
#endif
    return (THOROUGH ? thorough : quick) / NW / scale; }
inline Rng rng(const char* tag) { return Rng(mix(SEED * 1000003 + W) ^ hash_name(tag)); }

// ---- behaviours generated by the specification (one step per line): replayed by the drivers
// step line:  "op a0 a1 ... ; r0 r1 ..."  with a "# trace" line before each behaviour
struct Step { std::string op; std::vector<Int> a, r; };
inline Int parse_int(const std::string& s) { return spec::lit(s.c_str()); }
inline std::vector<std::vector<Step>> load_traces(const std::string& file)
{
    std::vector<std::vector<Step>> out;
    std::ifstream f(file);
    std::string line;
    while(std::getline(f, line))
    {
        if(line.rfind("# trace", 0) == 0) { out.emplace_back(); continue; }
        std::istringstream is(line);
        Step s; is >> s.op;
        std::string w; bool right = false;
        while(is >> w) { if(w == ";") { right = true; continue; } (right ? s.r : s.a).push_back(parse_int(w)); }
        if(!out.empty()) out.back().push_back(std::move(s));
    }
    return out;
}
inline std::string show_step(const Step& s) { std::string t = s.op + "("; for(size_t i = 0; i < s.a.size(); ++i) t += (i ? ", " : "") + show(s.a[i]); t += ") expected ["; for(size_t i = 0; i < s.r.size(); ++i) t += (i ? ", " : "") + show(s.r[i]); return t + "]"; }
inline std::string show_vec(const std::vector<Int>& v) { std::string t = "["; for(size_t i = 0; i < v.size(); ++i) t += (i ? ", " : "") + show(v[i]); return t + "]"; }
} // namespace h
#define J(fn, ...) h::judge(#fn, [](auto const&... x_) { return spec::fn##_(x_...); }, __VA_ARGS__)
