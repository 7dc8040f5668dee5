// Concurrent calls under the race monitor (-fsanitize=thread): the behaviours'
// schedules of calls and returns, each in a fresh process.
#include "val.hpp"
#include "repro_lib.cpp"
#include <eirin/ext/simd_math.hpp>
#include <eirin/detail/util.hpp>
#include <eirin/detail/perf.hpp>
#include <eirin/io/parse.hpp>
#include <condition_variable>
#include <mutex>
#include <thread>
using namespace h;
using namespace eirin::literals;
static std::atomic<int>* reports;
extern "C" void __sanitizer_set_report_path(const char*);
extern "C" void __tsan_on_report(void*) { if(reports) reports->fetch_add(1, std::memory_order_relaxed); }
extern "C" const char* __tsan_default_options() { return "report_signal_unsafe=0:exitcode=0:halt_on_error=0:report_thread_leaks=0"; }

// read by all threads
static const F64 shared_f64 = F64(2);
static const F32 shared_f32 = F32::from_internal_value(98765);
static const eirin::pcg2014 shared_engine(77);
static uint64_t pass(int op, int64_t a, int64_t b)
{
    auto x = F64::from_internal_value(a);
    auto s = F32::from_internal_value((i32)a);
    switch(op)
    {
    case 50: { using P = eirin::simd::platform_support; return b % 2 ? P::supports_avx512_dq() | P::supports_avx2() << 1 | P::supports_sse2() << 2 : P::supports_sse2() | P::supports_sse4_2() << 1 | P::supports_avx() << 2 | P::supports_avx2() << 3 | P::supports_avx512_f() << 4 | P::supports_avx512_dq() << 5; }
    case 51: { if(b % 2) { auto r = eirin::simd::simd_reduce_angle({x, x + F64(1), F64(0), -x}); return v(r[0]) ^ v(r[1]) * 3 ^ v(r[2]) * 5 ^ v(r[3]) * 7; } auto r = eirin::simd::simd_reduce_angle_2({x, -x}); return v(r[0]) ^ v(r[1]) * 3; }
    case 52: return v(eirin::util::lut::lut_calc_sin(eirin::abs(x)));
    case 53: return v(eirin::cordic_sine(s)) ^ v(eirin::cordic_sine(x)) * 3;
    case 54: { eirin::fixed_random_engine_adapter<F32, eirin::pcg2014> e; if(b % 2) e.seed((u32)a); eirin::fixed_random_engine_adapter<F32, std::mt19937> m; if(b % 3) m.discard(b); return v(e()) ^ v(e()) * 3 ^ v(m()) * 5; }
    case 55: { std::mt19937 g((u32)a); eirin::fixed_int_distribution_adapter<F32, std::uniform_int_distribution<>> d(F32(-1), F32(5)); return v(d(g)) ^ v(d(g)) * 3; }
    case 56: { auto e = shared_engine; std::ostringstream o; o << shared_f32 << ' ' << shared_engine << std::format("{:.4f}", shared_f32); return v(shared_f64 * x / (shared_f64 + F64(3))) ^ v(eirin::sqrt(shared_f64)) * 3 ^ e() ^ (e == shared_engine) ^ hash(o.str()); }
    case 57:
    {
        std::ostringstream o; o << std::oct << std::uppercase << s << ' ' << std::hex << s << ' ' << x;
        std::ostringstream d; d << s << ' ' << x << ' ' << s; auto t = d.str(); std::wstring w(t.begin(), t.end());
        F32 p{}, q{}, r{}; F64 y{}; std::wistringstream is(w); is >> p >> y; bool bad = (bool)(is >> q);
        eirin::io::parse(std::string_view(t).substr(0, t.find(' ')), r); F32 k{}; eirin::fixed_from_cstring(t.c_str(), t.find(' '), k);
        auto l = "-12.75"_f32; auto m = "3.5"_f64;
        return hash(o.str()) ^ v(p) ^ v(q) * 3 ^ v(r) * 5 ^ v(y) * 7 ^ v(k) * 11 ^ bad ^ v(l) ^ v(m) ^ hash(std::format("{:+#b}{:?}{:X}{:o}{:*^20.3F}", s, x, s, x, s)) ^ (u64)std::format(L"{:.9f}|{:>30}", x, s).size();
    }
    case 58:
    {
        auto l = eirin::util::lut::angels_lut<16>(); auto f = eirin::util::lut::func_ptr_lut<16>([](F64 z) { return z + z; });
        auto e = eirin::perf::measure_esp<F32>(F32(-1), F32(1), F32::from_internal_value((i32)(8000 + (a & 1023))), [](F32 z) { return z * z; }, [](F32 z) { return z; }, +[](int64_t i) { return F32((int)i); });
        (void)e;
        return v(l[a & 15]) ^ v(f[a >> 4 & 15]) * 3 ^ (u64)eirin::util::eval_value<int64_t>((double)(a & 0xFFFFF) / 65536, 40) * 5 ^ (u64)eirin::util::pi_calc::bbp_calc_pi<int64_t, 50, 10>() ^ v(eirin::util::lut::lut_calc_sin<64>(x));
    }
    case 59:
    {
        std::seed_seq q{(u32)a, (u32)b}; eirin::pcg2014_64 g; g.seed(q); g.discard((u64)b); auto h2 = g; std::ostringstream o; o << h2;
        eirin::fixed_random_engine_adapter<F64, std::mt19937_64> e; e.seed((u64)a); auto r = v(e()); e.discard((u64)b);
        eirin::fixed_int_distribution_adapter<F64, std::uniform_int_distribution<long>> d(F64(-2), F64(3)); std::mt19937_64 n((u64)a);
        return g() ^ h2() * 3 ^ (g == h2) ^ r ^ v(e()) * 5 ^ v(d(n)) * 7 ^ hash(o.str());
    }
    case 60:
    {
        u64 r = 0;
        auto all = [&]<typename G>(G) {
            using T = T_<G>; constexpr unsigned fr = tr<G>::frac; constexpr i64 u = (i64)1 << fr;
            auto p = raw<G>((T)(u + (a & (u - 1)))), q = raw<G>((T)(u + (b * 37 & (u - 1))));
            auto add = [&](auto z) { r = (r ^ (u64)v(z)) * 1099511628211ull; };
            add(p * q); add(p / q); add(p % q); add(p + q); add(q - p + q); add(eirin::floor(p)); add(eirin::ceil(p)); add(eirin::round(p)); add(eirin::trunc(p));
            add(eirin::sqrt(p)); add(eirin::cbrt(p)); add(eirin::log2(p)); add(eirin::log(p)); add(eirin::pow(p, 2)); add(eirin::fmod(p, q)); add(F64(p)); add(F32(p));
            if constexpr(std::is_signed_v<T>) { add(-p); add(eirin::abs(p)); add(eirin::sin(p)); add(eirin::cos(p)); add(eirin::atan(p)); add(eirin::asin(p - raw<G>((T)u))); add(eirin::exp(p - q)); }
            std::ostringstream o; o << p << ' ' << std::hex << q; G z{}; std::istringstream is(o.str()); is >> z; add(z);
            r ^= hash(o.str()) ^ hash(std::format("{:.3f} {:+x} {}", p, q, p)) ^ (u64)eirin::fixed_hash<G>{}(p) ^ std::bit_cast<u64>((double)p) ^ (p < q) ^ p.nearly_eq(q) ^ (u64)(int)p;
        };
        switch((a >> 20 & 0xff) % 7)
        {
        case 0: all(h::FX<i8, i16, 4>{}); break; case 1: all(h::FX<u8, u16, 4>{}); break; case 2: all(h::FX<i16, i32, 8>{}); break; case 3: all(h::FX<u16, u32, 8>{}); break;
        case 4: all(h::FX<u32, u64, 16>{}); break; case 5: all(h::FX<i32, i64, 16, true>{}); break; default: all(h::FX<i64, i128, 40>{}); break;
        }
        return r;
    }
    default:
        // operands for which every operation has a result
        switch(op)
        {
        case 32: a = (a & 0xFFFF) + 65536; b &= 3; break; case 33: a = (a & 0xFFFF) + 65536; b = 98304; break;
        case 31: case 9: case 6: case 7: a %= 500000; break; case 3: case 4: case 34: b = 77777; break; case 28: case 29: case 30: case 20: a = (a & 0x7FFFFFFF) | 1; break;
        case 0: case 1: case 2: a %= 30000000; b *= 65536; break; case 43: case 44: a = a & 0x7FFFFFFF; break; case 13: a %= 1000; break; case 24: case 26: case 27: a %= 65536; break;
        case 15: case 16: a %= 100000000; b |= 1; break; case 35: case 36: a %= 1000000; break; case 37: a %= 20000000; b *= 65536; break;
        }
        return repro_eval(op, b % 2 && op != 43 && op != 44 ? 11 : 6, a, b);
    }
}
struct Th {
    std::thread t; std::atomic<int> go{0}, done{0};
    int op; int64_t a, b; uint64_t r;
};
// follow one schedule in a fresh process; the results of a behaviour come back through shared memory
static void follow(std::vector<Step> const& tr, size_t n)
{
    struct Box { std::atomic<int> reports, calls; uint64_t r[512], own[512]; int done; };
    static Box* box = (Box*)mmap(nullptr, sizeof(Box), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)box, 0, sizeof *box);
    announce("schedule", n);
    pid_t p = fork();
    if(p == 0)
    {
        reports = &box->reports;
        __sanitizer_set_report_path((OUT + ".tsan" + std::to_string(W)).c_str());
        Th th[4];
        bool busy[4]{};
        std::vector<std::tuple<int, int64_t, int64_t>> calls;
        for(auto& t : th) t.t = std::thread([&t] {
            for(int k = 1;; ++k)
            {
                int g;
                while((g = t.go.load(std::memory_order_acquire)) < k) if(g < 0) return;
                t.r = pass(t.op, t.a, t.b);
                t.done.store(k, std::memory_order_release);
            }
        });
        int gen[4]{}, idx[4]{};
        std::vector<int> batch;
        auto flush = [&] { for(int t : batch) th[t].go.store(++gen[t], std::memory_order_release); batch.clear(); };
        auto finish = [&](int t) { while(th[t].done.load(std::memory_order_acquire) != gen[t]) sched_yield(); box->r[idx[t]] = th[t].r; busy[t] = false; };
        for(auto& s : tr)
        {
            if(s.op == "call" && calls.size() < 512)
            {
                int t = (int)s.a[0];
                if(busy[t]) continue;
                th[t].op = (int)s.a[1]; th[t].a = (i64)s.a[2]; th[t].b = (i64)s.a[3];
                idx[t] = (int)calls.size(); busy[t] = true;
                calls.push_back({th[t].op, th[t].a, th[t].b});
                batch.push_back(t);
            }
            else if(s.op == "enter") flush();   // calls without a step between them start together
            else if(s.op == "ret") { flush(); int t = (int)s.a[0]; if(busy[t]) finish(t); }
        }
        flush();
        for(int t = 0; t < 4; ++t) if(busy[t]) finish(t);
        for(auto& t : th) { t.go.store(-1, std::memory_order_release); t.t.join(); }
        box->calls = (int)calls.size();
        // the same calls alone, afterwards
        for(size_t i = 0; i < calls.size(); ++i) { auto [op, a, b] = calls[i]; box->own[i] = pass(op, a, b); }
        box->done = 1;
        _exit(0);
    }
    int st; waitpid(p, &st, 0);
    if(!box->done) violation("behaviour " + std::to_string(n) + ": the process did not survive the schedule");
    std::string text, file = OUT + ".tsan" + std::to_string(W) + "." + std::to_string(p);
    { std::ifstream f(file); std::string l; for(int i = 0; i < 30 && std::getline(f, l); ++i) text += l + "\n"; }
    unlink(file.c_str());
    int k = 0;
    for(auto& s : tr) if(s.op == "call") ++k;
    for(int i = 0; i < box->calls; ++i)
    {
        me->steps.fetch_add(1, std::memory_order_relaxed);
        if(!J(alone, (Int)box->own[i], (IntL{(Int)box->r[i]}))) violation("behaviour " + std::to_string(n) + ", call " + std::to_string(i));
    }
    if(!J(raceFree, (Int)box->reports.load())) violation("behaviour " + std::to_string(n) + ": unsynchronised accesses to shared data\n" + text);
    seen(mix(n * 1000 + k));
}
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] {
            auto ts = load_traces(TRACES);
            for(size_t n = W; n < ts.size(); n += NW) follow(ts[n], n);
        }},
        // all threads make the same first call, or calls of two kinds, at once
        {"first calls", [] {
            auto const& ops = spec::COPS_();
            auto g = rng("first");
            for(uint64_t i = count(1600, 40000); i--;)
            {
                std::vector<Step> t;
                auto o1 = ops[g.below(ops.size())], o2 = g.flip() ? o1 : ops[g.below(ops.size())];
                for(int k = 0; k < 4; ++k) t.push_back({"call", {(Int)k, k % 2 ? o2 : o1, (Int)(i32)g(), (Int)g.below(6)}, {}});
                t.push_back({"enter", {0}, {}});
                for(int k = 0; k < 4; ++k) { t.push_back({"ret", {(Int)k}, {}}); t.push_back({"call", {(Int)k, o2, (Int)(i32)g(), (Int)g.below(6)}, {}}); }
                follow(t, 1000000 + i * NW + W);
            }
        }},
    });
}
