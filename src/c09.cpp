// C09: every forward transform output compared with the defining sum; histories over coexisting objects.
#include "dsp_ref.h"
#include <k52/dsp/transform/fast_fourier_transform.h>
#include <k52/dsp/transform/fourier_transform.h>
using namespace hv;
using namespace k52::dsp;

static void check_dft(const CV& x, const CV& X, const Roots& r, Rng& rng, const std::string& who)
{
    size_t n = x.size();
    check(X.size() == n, "output-length", [&] { return who + ": " + std::to_string(X.size()) + " for " + std::to_string(n); });
    double tol = 1e-14 * (double)(n + 16) * norm1(x) + 1e-300;
    auto bin = [&](size_t k)
    {
        cld e = dft_bin(x, k, r);
        long double d = std::abs(cld(X[k].real(), X[k].imag()) - e);
        check(d <= tol, "dft-value", [&] { std::ostringstream o; o.precision(17); o << who << " n=" << n << " bin " << k << ": " << X[k] << " expected " << e << " x=" << showc(x, 40); return o.str(); });
        count("bins compared");
    };
    if (n <= 400) for (size_t k = 0; k < n; k++) bin(k);
    else
    {
        for (int i = 0; i < 150; i++) bin((size_t)rng.range(0, (int64_t)n - 1));
        long double ex = 0, eX = 0;
        for (const cd& c : x) ex += std::norm(cld(c.real(), c.imag()));
        for (const cd& c : X) eX += std::norm(cld(c.real(), c.imag()));
        check(fabsl(eX - ex * n) <= 1e-11L * ex * n, "parseval", [&] { return who + " n=" + std::to_string(n); });
    }
}

// several objects of different lengths alive at once, used in random order, with wrong-length calls in between
K52_TASK(history, "history")
{
    size_t objects = (size_t)rng.range(1, 5);
    std::vector<boost::shared_ptr<FastFourierTransform> > fast;
    std::vector<size_t> len; std::vector<boost::shared_ptr<Roots> > roots;
    FourierTransform plain;
    Hash h; std::string text;
    for (size_t i = 0; i < objects; i++)
    {
        size_t n = (i && rng.chance(0.3)) ? len[0] : random_length(rng, Log::get().thorough);
        len.push_back(n);
        fast.push_back(boost::shared_ptr<FastFourierTransform>(new FastFourierTransform(n)));
        roots.push_back(boost::shared_ptr<Roots>(new Roots(n, -1)));
        text += " n" + std::to_string(n);
    }
    must_throw("zero-length-accepted", "FastFourierTransform(0)", [] { FastFourierTransform f(0); });
    std::vector<CV> kept, kept_out, earlier; std::vector<size_t> kept_obj;
    int ops = (int)rng.range(3, 10);
    if (rng.chance(0.03)) { ops = (int)rng.range(40, 160); count("long histories"); }
    for (int op = 0; op < ops; op++)
    {
        size_t o = (size_t)rng.range(0, (int64_t)objects - 1);
        if (!fast[o]) continue;
        size_t n = len[o];
        if (rng.chance(0.2))
        {
            size_t wrong = rng.chance(0.3) ? 0 : rng.chance(0.5) ? n + 1 : (rng.chance(0.5) ? n - 1 : 2 * n);
            CV x = random_seq(rng, wrong);
            must_throw("wrong-length-accepted", std::to_string(wrong) + " into object of " + std::to_string(n), [&] { fast[o]->Transform(x); });
            continue;
        }
        if (objects > 1 && rng.chance(0.05)) { fast[o].reset(); count("objects destroyed in between"); continue; }
        std::string kind;
        CV x = next_seq(rng, n, earlier, &kind), copy = x;
        CV X = fast[o]->Transform(x);
        check(memcmp(x.data(), copy.data(), n * sizeof(cd)) == 0, "input-modified", [&] { return "fast n=" + std::to_string(n); });
        check_dft(x, X, *roots[o], rng, "fast (" + kind + ")");
        if (n <= 200)
        {
            CV P = plain.Transform(x);
            check(memcmp(x.data(), copy.data(), n * sizeof(cd)) == 0, "input-modified", [&] { return "plain n=" + std::to_string(n); });
            check_dft(x, P, *roots[o], rng, "plain (" + kind + ")");
            count("plain transforms");
        }
        kept.push_back(x); kept_out.push_back(X); kept_obj.push_back(o);
        text += " " + kind + std::to_string(n);
        hash_seq(h, x);
        count("fast transforms");
    }
    // the same inputs again give the same outputs, whatever happened in between
    for (size_t i = 0; i < kept.size(); i++)
    {
        if (!fast[kept_obj[i]]) continue;
        CV again = fast[kept_obj[i]]->Transform(kept[i]);
        double tol = 2e-14 * (double)(kept[i].size() + 16) * norm1(kept[i]) + 1e-300;
        for (size_t k = 0; k < again.size(); k++)
            check(std::abs(again[k] - kept_out[i][k]) <= tol, "history-dependent", [&] { return "n=" + std::to_string(again.size()) + " bin " + std::to_string(k); });
        count("transforms repeated");
    }
    Log::get().sample("objects and inputs:" + text);
    observe(h.h, !kept.empty());
}
// metamorphic relations on larger lengths
K52_TASK(relations, "relations")
{
    size_t n = rng.chance(0.3) ? (size_t)1 << rng.range(8, 11) : (size_t)rng.range(100, Log::get().thorough ? 3000 : 900);
    FastFourierTransform f(n);
    CV a(n), b(n), s(n), sh(n);
    for (size_t i = 0; i < n; i++) { a[i] = cd(rng.normal(), rng.normal()); b[i] = cd(rng.normal(), rng.normal()); }
    cd p(rng.normal(), rng.normal()), q(rng.normal(), rng.normal());
    size_t d = (size_t)rng.range(0, (int64_t)n - 1);
    for (size_t i = 0; i < n; i++) { s[i] = p * a[i] + q * b[i]; sh[(i + d) % n] = a[i]; }
    CV A = f.Transform(a), B = f.Transform(b), S = f.Transform(s), H = f.Transform(sh);
    Roots r(n, -1);
    check_dft(a, A, r, rng, "fast");
    double tol = 1e-13 * (double)n * 10;
    for (size_t k = 0; k < n; k++)
    {
        check(std::abs(S[k] - (p * A[k] + q * B[k])) <= tol, "linearity", [&] { return "n=" + std::to_string(n); });
        cld w = r.w[(k * d) % n];
        check(std::abs(H[k] - A[k] * cd((double)w.real(), (double)w.imag())) <= tol, "shift-theorem", [&] { return "n=" + std::to_string(n); });
    }
    count("bins compared", 2 * n); count("fast transforms", 4);
    observe(Hash().add((uint64_t)n).add((uint64_t)d).h);
}
K52_MAIN
