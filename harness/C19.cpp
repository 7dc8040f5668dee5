#include "text.hpp"
using namespace h;
static IntL run_io(std::string t, Int stop, Int old)
{
    F32 x = raw<F32>((i32)old);
    const char* r; const char* b;
    if(stop < 0)
    {
        Exact e(t);
        b = e.p;
        announce("io::parse(view)");
        r = eirin::io::parse(std::string_view(e.p, e.n), x);
        return {(Int)(r - b), rv(x)};
    }
    // a text that ends with the stop character
    static std::string buf; buf = t; if(buf.find((char)stop) == buf.npos) buf += (char)stop;
    Exact e(buf);
    b = e.p;
    announce("io::parse(start, stop)", stop);
    r = eirin::io::parse(b, b + buf.find((char)stop), x);
    return {(Int)(r - b), rv(x)};
}
int main(int argc, char** argv)
{
    return run(argc, argv, {
        {"replay", [] {
            auto ts = load_traces(TRACES);
            for(size_t n = W; n < ts.size(); n += NW)
                for(auto& s : ts[n]) if(s.op == "io") expect<F32>(s, vec(run_io(text_of(s.a, 1), s.a[0], 5)), n);
        }},
        {"texts", [] {
            auto g = rng("texts");
            for(uint64_t i = count(3000000, 100000000); i; --i)
            {
                std::string t = g.below(4) ? gen_text<F32>(g) : gen_text<FX<i32, i64, 20>>(g);
                if(g.below(4) == 0) { t += ", "[g.below(2)]; t += gen_text<F32>(g); }
                static const Int stops[] = {-1, -1, -1, 0, 0, ',', ' ', '.', '-', '0', 'x'};
                Int stop = stops[g.below(11)], old = (Int)pick<F32>(g);
                seen(key_of(t) ^ (u64)stop);
                J(ioOk, tr<F32>::fmt(), old, codes(t), stop, run_io(t, stop, old));
            }
        }},
        {"short", [] {
            static const char al[] = "0179.-x,";
            for(int len = 0, total = 1; len <= (THOROUGH ? 8 : 6); ++len, total *= 8)
                for(int q = W; q < total; q += NW)
                {
                    std::string t; for(int i = 0, r = q; i < len; ++i, r /= 8) t += al[r % 8];
                    seen(key_of(t));
                    for(Int stop : {(Int)-1, (Int)',', (Int)0}) J(ioOk, tr<F32>::fmt(), (Int)9, codes(t), stop, run_io(t, stop, 9));
                }
        }},
    });
}
