// C10: inverse transform against its definition, round trips in both directions, alternating use.
#include "dsp_ref.h"
#include <k52/dsp/transform/fast_fourier_transform.h>
#include <k52/dsp/transform/fourier_transform.h>
#include <k52/dsp/transform/inverse_fourier_transform.h>
using namespace hv;
using namespace k52::dsp;

K52_TASK(roundtrip, "roundtrip")
{
    size_t n = random_length(rng, Log::get().thorough);
    bool use_fast = n > 200 || rng.chance(0.7);
    IFourierTransform::shared_ptr fwd, shared;
    if (use_fast) { shared.reset(new FastFourierTransform(n)); } else { shared.reset(new FourierTransform()); }
    // one forward object inside and outside the inverse, or two separate ones
    bool one = rng.chance(0.5);
    if (one) fwd = shared; else if (use_fast) fwd.reset(new FastFourierTransform(n)); else fwd.reset(new FourierTransform());
    InverseFourierTransform inv(shared);
    std::unique_ptr<Roots> r(new Roots(n, +1));
    Hash h; h.add(use_fast).add(one);
    int ops = (int)rng.range(1, n <= 40 && rng.chance(0.05) ? 80 : 6);
    std::string text;
    std::vector<CV> earlier;
    // objects without a length of their own serve sequences of any length
    bool several = !use_fast && rng.chance(0.5);
    for (int op = 0; op < ops; op++)
    {
        if (several && op && rng.chance(0.6))
        {
            n = std::min<size_t>(200, random_length(rng, false));
            r.reset(new Roots(n, +1));
            earlier.clear();
            count("changes of the length");
        }
        std::string kind;
        CV x = next_seq(rng, n, earlier, &kind), keep = x;
        double l1 = norm1(x), tol = 1e-14 * (double)(n + 16) * l1 + 1e-300;
        auto who = [&] { return std::string(use_fast ? "fast" : "plain") + (one ? " shared" : "") + " n=" + std::to_string(n) + " " + kind + " x=" + showc(x, 20); };
        CV y = inv.Transform(x);
        check(memcmp(x.data(), keep.data(), n * sizeof(cd)) == 0, "input-modified", who);
        check(y.size() == n, "output-length", who);
        size_t step = n <= 300 ? 1 : n / 150;
        for (size_t k = (size_t)rng.range(0, (int64_t)step - 1); k < n; k += step)
        {
            cld e = dft_bin(x, k, *r) / (long double)n;
            check(std::abs(cld(y[k].real(), y[k].imag()) - e) <= tol / (double)n * 4, "inverse-value",
                  [&] { std::ostringstream o; o.precision(17); o << who() << " element " << k << " " << y[k] << " expected " << e; return o.str(); });
            count("elements compared");
        }
        // forward(inverse(x)) and inverse(forward(x))
        CV back = fwd->Transform(y);
        CV X = fwd->Transform(x);
        if (rng.chance(0.5)) { CV other = rng.chance(0.5) ? related_seq(rng, X) : random_seq(rng, n); inv.Transform(other); fwd->Transform(other); }
        CV back2 = inv.Transform(X);
        for (size_t k = 0; k < n; k++)
        {
            check(std::abs(back[k] - x[k]) <= 4 * tol, "forward-of-inverse", [&] { return who(); });
            check(std::abs(back2[k] - x[k]) <= 4 * tol, "inverse-of-forward", [&] { return who(); });
        }
        count("round trips", 2);
        hash_seq(h, x);
        text += " " + kind;
        if (use_fast && rng.chance(0.5))
        {
            CV bad = random_seq(rng, rng.chance(0.3) ? 0 : (rng.chance(0.5) ? n + 1 : n - 1));
            must_throw("wrong-length-accepted", std::to_string(bad.size()) + " for " + std::to_string(n), [&] { inv.Transform(bad); });
        }
    }
    Log::get().sample("n=" + std::to_string(n) + (use_fast ? " fast" : " plain") + (one ? " shared object:" : ":") + text);
    observe(h.h);
}
K52_MAIN
