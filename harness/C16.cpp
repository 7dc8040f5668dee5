#include "math.hpp"
using namespace h;
template <typename F, typename E> void ints(Rng& g, uint64_t n)
{
    Int one = (Int)1 << tr<F>::frac, max = std::numeric_limits<T_<F>>::max();
    while(n--)
    {
        Int e = std::is_signed_v<E> ? (Int)(i64)g() >> (63 - g.below(21)) : (Int)(g() >> (63 - g.below(20)));
        if(n % 4) e %= 24; else if(n % 16 == 0) e = (Int)(E)pick_int(g);
        if(e > (Int)std::numeric_limits<E>::max() || e < (Int)std::numeric_limits<E>::min()) continue;
        Int x;
        switch(n % 5)
        {
        case 0: x = pick<F>(g); break;
        case 1: x = ((Int)g.below(200) - 100) * one; break;
        case 2: x = one + (Int)(i64)(g() >> (64 - 1 - g.below(tr<F>::frac))) * (g.flip() ? 1 : -1); break;
        case 3: x = ((Int)g.below(9) - 4) * one + (Int)g.below(3) - 1; break;
        default: { // |b|^|e| about as large as fits
            long double m = std::exp2((tr<F>::bits - tr<F>::frac - 1) / (long double)std::max<Int>(1, e < 0 ? -e : e));
            x = (Int)std::ldexp(m * (0.5L + 0.5L * g.below(1000) / 1000), tr<F>::frac); if(g.flip()) x = -x; break; }
        }
        if(x > max || x < -max) continue;
        apply_powi<F>((T_<F>)x, (E)e);
    }
}
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", replay_math},
        {"integers", [] { math_formats([]<typename F>() {
            auto g = rng("integers");
            auto n = count(240000, 8000000);
            ints<F, int>(g, n); ints<F, long long>(g, n); ints<F, short>(g, n / 2); ints<F, signed char>(g, n / 2); ints<F, unsigned>(g, n / 2); ints<F, u64>(g, n / 2); ints<F, u8>(g, n / 4);
            // small whole bases and exponents, completely
            for(int b = -70; b <= 70; ++b) if((b + 70) % NW == W && (Int)(b < 0 ? -b : b) < ((Int)1 << (tr<F>::bits - tr<F>::frac - 1)))
                for(int e = -40; e <= 40; ++e) if(b) apply_powi<F>((T_<F>)((Int)b << tr<F>::frac), e);
        }); }},
        {"fixed", [] { math_formats([]<typename F>() {
            auto g = rng("fixed");
            Int one = (Int)1 << tr<F>::frac, max = std::numeric_limits<T_<F>>::max();
            for(uint64_t i = count(400000, 12000000); i--;)
            {
                Int x = i % 8 == 0 ? (Int)pick<F>(g) : i % 8 == 1 ? -(Int)pick_pos<F>(g) : (Int)pick_pos<F>(g);
                Int y;
                switch(i % 5)
                {
                case 0: y = pick<F>(g); break;
                case 1: y = ((Int)g.below(41) - 20) * one; break;
                case 2: y = ((Int)g.below(41) - 20) * (one / 2) + (Int)g.below(3) - 1; break;
                default: y = (Int)(i64)(g() >> (64 - 1 - g.below(tr<F>::frac + 3))) * (g.flip() ? 1 : -1); break;
                }
                if(x > max || x < -max || y > max || y < -max) continue;
                apply<F>("powf", (T_<F>)x, (T_<F>)y);
            }
        }); }},
        {"unsigned", [] { unsigned_formats([]<typename F>() {
            auto g = rng("unsigned");
            Int one = (Int)1 << tr<F>::frac, max = std::numeric_limits<T_<F>>::max();
            for(uint64_t i = count(1500000, 20000000); i--;)
            {
                Int x = i % 3 == 0 ? (Int)pick<F>(g) : i % 3 == 1 ? (Int)g.below(200) * one + (Int)g.below(3) - 1 : one / 4 + (Int)(g() >> (63 - g.below(tr<F>::frac + 2)));
                if(x < 0 || x > max) continue;
                int e = (int)g.below(i % 7 ? 41 : 2000001) - (i % 7 ? 20 : 1000000);
                apply_powi<F>((T_<F>)x, e);
                // the logarithm of a base below one is not representable
                Int y = i % 5 == 0 ? (Int)g.below(20) * (one / 2) + (Int)g.below(3) : (Int)(g() >> (63 - g.below(tr<F>::frac + 3)));
                if(x >= one && y <= max) apply<F>("powf", (T_<F>)x, (T_<F>)y);
            }
        }); }},
    });
}
