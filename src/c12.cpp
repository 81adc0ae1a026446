// C12: every coefficient of the fast wavelet transform against a directly computed correlation, over cache histories.
#include "dsp_ref.h"
#include <k52/dsp/akima_wavelet_function.h>
#include <k52/dsp/haar_wavelet_function.h>
#include <k52/dsp/mhat_wavelet_function.h>
#include <k52/dsp/morlet_wavelet_function.h>
#include <k52/dsp/transform/wavelet/fast_wavelet_transform.h>
#include <k52/dsp/transform/wavelet/linear_scale.h>
#include <k52/dsp/transform/wavelet/logarithmic_scale.h>
using namespace hv;
using namespace k52::dsp;

// a user's complex, asymmetric wavelet
struct Custom : IWavelet
{
    double a, b, c; long calls = 0;
    Custom(Rng& r) : a(r.uni(0.5, 3)), b(r.uni(-2, 2)), c(r.uni(0.05, 1)) {}
    // a new one takes the place of the last destroyed one, as a reused block of memory would
    static std::vector<void*>& freed() { static std::vector<void*>* v = new std::vector<void*>; return *v; }
    static void* operator new(size_t n) { if (freed().empty()) return ::operator new(n); void* p = freed().back(); freed().pop_back(); return p; }
    static void operator delete(void* p) { freed().push_back(p); }
    std::complex<double> GetValue(double t) { calls++; return std::polar(std::exp(-c * std::fabs(t - 0.3)), a * t + b) + std::complex<double>(0, 0.1 * std::exp(-t * t)); }
};
// scales that differ by little: neighbours in floating point, equal in single precision or in few digits
static double near(Rng& rng, double s)
{
    switch (rng.range(0, 2))
    {
    case 0: return std::nextafter(s, rng.chance(0.5) ? 1e9 : 0.0);
    case 1: return s * (1 + std::ldexp(rng.chance(0.5) ? 1 : -1, -(int)rng.range(8, 50)));
    default: return s + (rng.chance(0.5) ? 1 : -0.05) * s * std::pow(10, -(double)rng.range(1, 15));
    }
}
struct Scales : IScale
{
    std::vector<double> s;
    std::vector<double> GetScales() const { return s; }
};
static IWavelet::shared_ptr make_wavelet(Rng& rng, int* kind)
{
    *kind = (int)rng.range(0, 5);
    switch (*kind)
    {
    case 0: return IWavelet::shared_ptr(new HaarWaveletFunction());
    case 1: return IWavelet::shared_ptr(new MhatWaveletFunction());
    case 2: return IWavelet::shared_ptr(new MorletWaveletFunction());
    case 3: { std::vector<double> v((size_t)rng.range(4, 20)); for (double& x : v) x = rng.normal(); return AkimaWavelet::CreateAkimaWavelet(v, v); }
    default: return IWavelet::shared_ptr(new Custom(rng));
    }
}
// Samples of the wavelet as defined; ok=false if a sample sits on a jump up to rounding
static CV samples(IWavelet& w, double scale, size_t N, bool* ok)
{
    CV r(N);
    int e; bool pow2 = std::frexp(scale, &e) == 0.5;
    for (size_t n = 0; n < N; n++)
    {
        double t = (double)n - (double)N / 2.0, p = -t / scale;
        cd v = w.GetValue(p);
        if (!pow2 && p != 0)
        {
            cd u1 = w.GetValue(p * (1 + 1e-13)), u2 = w.GetValue(p * (1 - 1e-13));
            if (std::abs(u1 - v) > 1e-6 * (1 + std::abs(v)) || std::abs(u2 - v) > 1e-6 * (1 + std::abs(v))) *ok = false;
        }
        r[n] = std::conj(v) / std::sqrt(scale);
    }
    return r;
}

K52_TASK(fwt, "fwt")
{
    size_t N = rng.chance(0.1) ? (size_t)rng.range(1, 3) : (size_t)rng.range(1, rng.chance(0.2) ? 130 : 48);
    bool longer = rng.chance(0.04);
    if (longer) N = (size_t)rng.range(1, 24);
    else if (rng.chance(0.01)) N = (size_t)rng.range(131, 420);
    IScale::shared_ptr scale;
    int sk = (int)rng.range(0, 2);
    if (sk == 0) scale.reset(new LogarithmicScale((int)rng.range(-3, 1), (int)rng.range(2, 5)));
    else if (sk == 1) { double lo = rng.uni(0.3, 3); scale.reset(new LinearScale(lo, lo + rng.uni(0.5, 8), (size_t)rng.range(2, 6))); }
    else
    {
        Scales* s = new Scales();
        int k = (int)rng.range(0, 5);
        for (int i = 0; i < k; i++) s->s.push_back(!s->s.empty() && rng.chance(0.2) ? s->s[0] : !s->s.empty() && rng.chance(0.3) ? near(rng, s->s.back()) : std::exp(rng.uni(-1.5, 3)));
        scale.reset(s);
    }
    // several transform objects with different cache settings must agree
    std::vector<double> limits = {-1, 0, 1e-7, 0.0005, 0.01, 100};
    std::vector<boost::shared_ptr<FastWaveletTransform> > T;
    std::vector<double> lim;
    int k = (int)rng.range(1, 3);
    for (int i = 0; i < k; i++)
    {
        lim.push_back(rng.pick(limits));
        if (lim.back() == -1) T.push_back(boost::shared_ptr<FastWaveletTransform>(new FastWaveletTransform(scale, N)));
        else T.push_back(boost::shared_ptr<FastWaveletTransform>(new FastWaveletTransform(scale, N, lim.back())));
    }
    std::vector<IWavelet::shared_ptr> W; std::vector<int> kinds;
    int nw = (int)rng.range(1, longer ? 9 : 3);
    for (int i = 0; i < nw; i++) { int kd; W.push_back(make_wavelet(rng, &kd)); kinds.push_back(kd); }
    Hash h; h.add((uint64_t)N).add(sk).add(k).add(kinds);
    CV prev;
    double last_scale = 0;
    int ops = (int)rng.range(2, 8);
    if (longer) { ops = (int)rng.range(40, 150); count("long histories"); }
    auto verify = [&](const CV& x, IWavelet& w, double s, const CV& got, bool rotated, const std::string& who)
    {
        check(got.size() == N, "row-length", [&] { return who; });
        bool ok = true;
        CV ws = samples(w, s, N, &ok);
        if (!ok) { count("rows on a wavelet jump, not judged"); return; }
        double tol = 4e-14 * (double)(N + 16) * norm1(x) * norm1(ws) + 1e-290;
        for (size_t i = 0; i < N; i++)
        {
            size_t kk = rotated ? (i + N / 2) % N : i;
            cld e = 0;
            for (size_t j = 0; j < N; j++) { const cd& q = ws[(kk + N - j) % N]; e += cld(x[j].real(), x[j].imag()) * cld(q.real(), q.imag()); }
            check(std::abs(cld(got[i].real(), got[i].imag()) - e) <= tol, "coefficient",
                  [&] { std::ostringstream o; o.precision(17); o << who << " N=" << N << " scale " << s << " position " << i << " got " << got[i] << " expected " << e; return o.str(); });
        }
        count("coefficients compared", N);
    };
    for (int op = 0; op < ops; op++)
    {
        size_t t = (size_t)rng.range(0, k - 1), wi = (size_t)rng.range(0, nw - 1);
        IWavelet::shared_ptr w = W[wi];
        std::string who = "limit " + num(lim[t]) + " wavelet kind " + std::to_string(kinds[wi]) + " call " + std::to_string(op);
        if (rng.chance(0.15))
        {
            CV bad = random_seq(rng, rng.chance(0.3) ? 0 : (rng.chance(0.5) ? N + 1 : N - 1));
            if (!scale->GetScales().empty())
                must_throw("wrong-length-accepted", who, [&] { T[t]->Transform(bad, w); });
            must_throw("wrong-length-accepted", who, [&] { T[t]->TransformOneScale(bad, w, 1.5); });
            continue;
        }
        if (rng.chance(0.1))
        {
            CV x = random_seq(rng, N);
            double s = rng.pick(std::vector<double>{0.0, -0.0, -1.0, -1e-300});
            must_throw("bad-scale-accepted", num(s), [&] { T[t]->TransformOneScale(x, w, s); });
            continue;
        }
        CV x = (prev.size() && rng.chance(0.4)) ? (rng.chance(0.5) ? prev : related_seq(rng, prev)) : random_seq(rng, N);
        double m = norm1(x);
        if (m > 1e60) for (cd& c : x) c *= 1e-120;
        if (m > 0 && m < 1e-60) for (cd& c : x) c *= 1e120;
        prev = x;
        CV keep = x;
        if (rng.chance(0.3))
        {
            double s = rng.chance(0.5) ? std::pow(2, (double)rng.range(-2, 5)) : rng.uni(0.2, 20);
            if (last_scale > 0 && rng.chance(0.5)) { s = rng.chance(0.3) ? last_scale : near(rng, last_scale); count("scales next to earlier ones"); }
            last_scale = s;
            verify(x, *w, s, T[t]->TransformOneScale(x, w, s), false, who);
            count("single-scale transforms");
        }
        else
        {
            std::vector<double> ss = scale->GetScales();
            if (!ss.empty()) last_scale = rng.pick(ss);
            std::vector<CV> rows = T[t]->Transform(x, w);
            check(rows.size() == ss.size(), "row-count", [&] { return who; });
            for (size_t r = 0; r < rows.size(); r++) verify(x, *w, ss[r], rows[r], true, who + " row " + std::to_string(r));
            count("transforms");
        }
        check(memcmp(x.data(), keep.data(), N * sizeof(cd)) == 0, "input-modified", [&] { return who; });
        hash_seq(h, x);
        // a wavelet the caller has dropped and a new one must not be confused
        if (rng.chance(0.3)) { W[wi].reset(); w.reset(); W[wi] = make_wavelet(rng, &kinds[wi]); count("wavelets replaced"); }
    }
    Log::get().sample("N=" + std::to_string(N) + " cache limits " + show(lim) + " scales " + show(scale->GetScales()) + " wavelet kinds " + show(kinds) + " calls " + std::to_string(ops));
    observe(h.h);
}
K52_MAIN
