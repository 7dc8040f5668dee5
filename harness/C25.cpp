#include "val.hpp"
using namespace h;
namespace n = eirin::numbers;
template <typename F> F constant(int k)
{
    switch(k)
    {
    case 0: return n::pi_v<F>(); case 1: return n::e_v<F>(); case 2: return n::log2e_v<F>(); case 3: return n::log10e_v<F>();
    case 4: return n::inv_pi_v<F>(); case 5: return n::inv_sqrtpi_v<F>(); case 6: return n::ln2_v<F>(); case 7: return n::ln10_v<F>();
    case 8: return n::sqrt2_v<F>(); case 9: return n::sqrt3_v<F>(); case 10: return n::inv_sqrt3_v<F>(); case 11: return n::egamma_v<F>();
    case 12: return n::phi_v<F>(); case 13: return F::pi_2(); case 14: return F::pi_4(); default: return F::double_pi();
    }
}
template <typename F> std::vector<Int> limits()
{
    using L = std::numeric_limits<F>;
    return {rv(L::max()), rv(L::min()), rv(L::lowest()), (Int)L::is_signed, (Int)F::precision};
}
template <typename F> void all_of()
{
    auto& Fm = tr<F>::fmt();
    announce("constants", tr<F>::bits, tr<F>::frac);
    for(int k = 0; k < 16; ++k) { seen(tr<F>::key() + k); J(constOk, Fm, (Int)k, rv(constant<F>(k))); }
    J(constOk, Fm, (Int)0, rv(F::pi())); J(constOk, Fm, (Int)1, rv(F::e()));
    J(epsOk, Fm, rv(F::epsilon())); J(epsOk, Fm, rv(F::nearly_compare_epsilon())); J(epsOk, Fm, rv(std::numeric_limits<F>::epsilon()));
    auto l = limits<F>();
    J(limitsOk, Fm, IntL(l.begin(), l.end()));
    J(limitsOk, Fm, (IntL{rv(eirin::max_value<F>()), rv(eirin::min_value<F>()), rv(eirin::min_value<F>()), l[3], l[4]}));
    using L = std::numeric_limits<F>;
    J(infoOk, Fm, (IntL{(Int)L::is_specialized, (Int)L::is_bounded, (Int)L::is_exact, (Int)L::is_integer, (Int)L::is_modulo, (Int)L::has_infinity, (Int)L::has_quiet_NaN, (Int)L::has_signaling_NaN}),
      (IntL{rv(L::radix), rv(L::digits), rv(L::digits10), rv(L::infinity()), rv(L::quiet_NaN()), rv(L::round_error())}));
}
template <typename F> void named(std::vector<F> v)
{
    for(size_t k = 0; k < v.size(); ++k) { seen(tr<F>::key() + 100 + k); J(constOk, tr<F>::fmt(), (Int)k, rv(v[k])); }
}
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] {
            auto ts = load_traces(TRACES);
            for(size_t i = W; i < ts.size(); i += NW)
                for(auto& s : ts[i])
                    with_format(ALL{}, s.a.at(0), [&]<typename F>() {
                        announce("replay", i);
                        if(s.op == "const") expect<F>(s, {rv(constant<F>((int)s.a[1]))}, i);
                        if(s.op == "limits") expect<F>(s, limits<F>(), i);
                    });
        }},
        {"formats", [] { every([]<typename F>() { all_of<F>(); }); each(fmts<FX<i64, i128, 48>, FX<i64, i128, 20>, FX<i64, i128, 56>, FX<i64, i128, 60>, FX<i32, i64, 12, true>, FX<i32, i64, 24>, FX<i64, i128, 44, true>, FX<u64, u128, 48>>{}, []<typename F>() { all_of<F>(); }); }},
        {"named", [] {
            named<F32>({n::pi, n::e, n::log2e, n::log10e, n::inv_pi, n::inv_sqrtpi, n::ln2, n::ln10, n::sqrt2, n::sqrt3, n::inv_sqrt3, n::egamma, n::phi});
            named<F64>({n::pi_f64, n::e_f64, n::log2e_f64, n::log10e_f64, n::inv_pi_f64, n::inv_sqrtpi_f64, n::ln2_f64, n::ln10_f64, n::sqrt2_f64, n::sqrt3_f64, n::inv_sqrt3_f64, n::egamma_f64, n::phi_f64});
            J(limitsOk, tr<F32>::fmt(), (IntL{rv(eirin::f32_max), rv(eirin::f32_min), rv(eirin::f32_min), 1, 16}));
            J(limitsOk, tr<F64>::fmt(), (IntL{rv(eirin::f64_max), rv(eirin::f64_min), rv(eirin::f64_min), 1, 32}));
        }},
    });
}
