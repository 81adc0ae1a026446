// C11: both circular convolutions against the definition and the algebra of convolution.
#include "dsp_ref.h"
#include <k52/dsp/transform/circular_convolution.h>
#include <k52/dsp/transform/fast_fourier_transform.h>
#include <k52/dsp/transform/fourier_based_circular_convolution.h>
#include <k52/dsp/transform/fourier_transform.h>
using namespace hv;
using namespace k52::dsp;

static cld ref(const CV& a, const CV& b, size_t k)
{
    size_t n = a.size(); cld s = 0;
    for (size_t j = 0; j < n; j++) { const cd& q = b[(k + n - j) % n]; s += cld(a[j].real(), a[j].imag()) * cld(q.real(), q.imag()); }
    return s;
}
static CV seq(Rng& rng, size_t n, std::vector<CV>& earlier)
{
    CV x = next_seq(rng, n, earlier);
    double m = norm1(x);
    // products of two huge sequences stay finite
    if (m > 1e100) for (cd& c : x) c *= 1e-100;
    if (m > 0 && m < 1e-100) for (cd& c : x) c *= 1e100;
    return x;
}
static void close(const CV& a, const CV& b, double tol, const char* key, size_t n)
{
    check(a.size() == b.size(), key, "lengths differ");
    for (size_t i = 0; i < a.size(); i++)
        check(std::abs(a[i] - b[i]) <= tol, key, [&] { return "n=" + std::to_string(n) + " element " + std::to_string(i) + " " + showc(a) + " " + showc(b); });
}

K52_TASK(conv, "conv")
{
    size_t n = random_length(rng, Log::get().thorough);
    if (n > 300) n = 300;
    CircularConvolution direct;
    bool use_fast = n > 120 || rng.chance(0.75);
    IFourierTransform::shared_ptr ft;
    if (use_fast) ft.reset(new FastFourierTransform(n)); else ft.reset(new FourierTransform());
    FourierBasedCircularConvolution fourier(ft);
    Hash h;
    std::vector<CV> earlier;
    int ops = (int)rng.range(1, n <= 40 && rng.chance(0.05) ? 60 : 4);
    for (int op = 0; op < ops; op++)
    {
        CV a = seq(rng, n, earlier), b = seq(rng, n, earlier), c = seq(rng, n, earlier), a0 = a, b0 = b;
        double na = norm1(a), nb = norm1(b), nc = norm1(c), e = 2e-14 * (double)(n + 16);
        double tol = e * na * nb + 1e-300;
        CV d = direct.EvaluateConvolution(a, b), f = fourier.EvaluateConvolution(a, b);
        check(memcmp(a.data(), a0.data(), n * sizeof(cd)) == 0 && memcmp(b.data(), b0.data(), n * sizeof(cd)) == 0, "input-modified", "");
        check(d.size() == n && f.size() == n, "output-length", [&] { return std::to_string(d.size()) + "," + std::to_string(f.size()); });
        size_t step = n <= 80 ? 1 : n / 40;
        for (size_t k = (size_t)rng.range(0, (int64_t)step - 1); k < n; k += step)
        {
            cld r = ref(a, b, k);
            auto ctx = [&](const cd& got) { std::ostringstream o; o.precision(17); o << "n=" << n << " element " << k << " got " << got << " expected " << r << " a=" << showc(a, 12) << " b=" << showc(b, 12); return o.str(); };
            check(std::abs(cld(d[k].real(), d[k].imag()) - r) <= tol, "direct-value", [&] { return ctx(d[k]); });
            check(std::abs(cld(f[k].real(), f[k].imag()) - r) <= tol, "fourier-value", [&] { return ctx(f[k]); });
            count("elements compared", 2);
        }
        close(d, f, 2 * tol, "implementations-disagree", n);
        if (na > 1e-20 && na < 1e20 && nb > 1e-20 && nb < 1e20)
        {
            // one sequence tiny, the other one huge: scaling by powers of two is exact, the convolution must not change
            int k = (int)rng.range(20, 850); if (rng.chance(0.5)) k = -k;
            CV as = a, bs = b;
            for (cd& v : as) v = cd(std::ldexp(v.real(), k), std::ldexp(v.imag(), k));
            for (cd& v : bs) v = cd(std::ldexp(v.real(), -k), std::ldexp(v.imag(), -k));
            close(direct.EvaluateConvolution(as, bs), d, 2 * tol, "direct-scaled", n);
            close(fourier.EvaluateConvolution(as, bs), f, 2 * tol, "fourier-scaled", n);
            count("scaled pairs");
        }
        const ICircularConvolution* impl[2] = {&direct, &fourier};
        for (int i = 0; i < (n <= 60 || op == 0 ? 2 : 1); i++)
        {
            const ICircularConvolution& C = *impl[i];
            CV ab = i ? f : d;
            close(ab, C.EvaluateConvolution(b, a), 2 * tol, i ? "fourier-not-commutative" : "direct-not-commutative", n);
            CV unit(n); unit[0] = 1;
            close(C.EvaluateConvolution(a, unit), a, e * na + 1e-300, "identity", n);
            close(C.EvaluateConvolution(unit, a), a, e * na + 1e-300, "identity", n);
            if (nc > 0 && na * nb * nc < 1e200)
                close(C.EvaluateConvolution(ab, c), C.EvaluateConvolution(a, C.EvaluateConvolution(b, c)), 2 * e * (double)n * na * nb * nc + 1e-300, "not-associative", n);
            CV sum(n); cd p(rng.normal(), rng.normal());
            for (size_t k = 0; k < n; k++) sum[k] = p * a[k] + c[k];
            CV l = C.EvaluateConvolution(sum, b), cb = C.EvaluateConvolution(c, b), r2(n);
            for (size_t k = 0; k < n; k++) r2[k] = p * ab[k] + cb[k];
            close(l, r2, 4 * e * (std::abs(p) * na + nc) * nb + 1e-300, "not-linear", n);
            count("algebraic relations", 5);
            size_t w = rng.chance(0.3) ? 0 : (rng.chance(0.5) ? n + 1 : n - 1);
            CV bad = random_seq(rng, w);
            must_throw("unequal-lengths-accepted", std::to_string(w) + " and " + std::to_string(n), [&] { C.EvaluateConvolution(a, bad); });
            must_throw("unequal-lengths-accepted", std::to_string(n) + " and " + std::to_string(w), [&] { C.EvaluateConvolution(bad, a); });
            if (i && use_fast)
                must_throw("other-length-accepted", std::to_string(w) + " for " + std::to_string(n), [&] { C.EvaluateConvolution(bad, bad); });
        }
        hash_seq(h, a); hash_seq(h, b);
        if (Log::get().wants_sample()) Log::get().sample("n=" + std::to_string(n) + " a=" + showc(a) + " b=" + showc(b));
    }
    observe(h.h);
}
K52_MAIN
