// C15: wavelet functions and the continuous transform against independent formulas.
#include "dsp_ref.h"
#include <k52/dsp/akima_wavelet_function.h>
#include <k52/dsp/cwt.h>
#include <k52/dsp/haar_wavelet_function.h>
#include <k52/dsp/mhat_wavelet_function.h>
#include <k52/dsp/morlet_wavelet_function.h>
#include <numeric>
using namespace hv;
using namespace k52::dsp;
static const double PI = 3.14159265358979323846;

static double arg(Rng& r)
{
    static const std::vector<double> v = {0, -0.0, 0.25, -0.25, 0.5, -0.5, 0.75, -0.75, 1, -1, 4, -4, 1e-300, 5e-324, 3, -3, 1e6, -1e6, 1e300};
    double d;
    switch (r.range(0, 3))
    {
    case 0: return r.pick(v);
    case 1: d = r.pick(v); return std::nextafter(d, r.chance(0.5) ? 1e308 : -1e308);
    case 2: return r.uni(-1.2, 1.2);
    default: return r.uni(-12, 12);
    }
}
static double haar_re(double x) { if (x < -0.5 || x > 0.5 || x == 0) return 0; return x < 0 ? -1 : 1; }
static double haar_im(double x) { if (x < -0.25 || x > 0.75 || x == 0.25) return 0; return x < 0.25 ? -1 : 1; }
static double mhat(double t) { const long double s = 3; long double k = t / s; return (double)(2.0L / (sqrtl(3 * s) * powl(3.14159265358979323846264338L, 0.25L)) * (1 - k * k) * expl(-k * k / 2)); }
static cd morlet(double t) { long double e = expl(-(long double)t * t / 2); return cd((double)(e * cosl(5.0L * t)), (double)(e * sinl(5.0L * t))); }

K52_TASK(functions, "functions")
{
    HaarWaveletFunction haar; MhatWaveletFunction mh; MorletWaveletFunction mo;
    Hash h;
    for (int i = 0; i < 200; i++)
    {
        double t = arg(rng);
        cd v = haar.GetValue(t);
        auto ctx = [&] { std::ostringstream o; o.precision(17); o << "at " << t << " value " << v; return o.str(); };
        check(v.real() == haar_re(t) && v.imag() == haar_im(t), "haar", ctx);
        check(haar.real(t) == haar_re(t) && haar.imag(t) == haar_im(t), "haar-parts", ctx);
        v = mh.GetValue(t);
        double e = mhat(t);
        if (std::fabs(t) < 1e100)
        {
            check(std::fabs(v.real() - e) <= 1e-14 + 1e-12 * std::fabs(e) && v.imag() == 0, "mexican-hat", ctx);
            check(std::fabs(mh.real(t) - e) <= 1e-14 + 1e-12 * std::fabs(e), "mexican-hat", ctx);
        }
        v = mo.GetValue(t);
        cd me = morlet(t);
        if (std::fabs(t) < 1e100) check(std::abs(v - me) <= 1e-13, "morlet", ctx);
        count("wavelet values compared", 3);
        h.add(t);
    }
    if (index % 16 == 0)
    {
        // unit energy of the Mexican hat, zero mean of it and of Haar, observed numerically
        double e = 0, m = 0, hm = 0; const double st = 0.01;
        for (double t = -60; t <= 60; t += st) { double v = mh.GetValue(t).real(); e += v * v * st; m += v * st; }
        for (double t = -2 + st / 2; t <= 2; t += st) hm += haar.GetValue(t).real();
        check(std::fabs(e - 1) < 1e-6, "mexican-hat-energy", [&] { return num(e); });
        check(std::fabs(m) < 1e-6 && std::fabs(hm) < 1e-9, "zero-mean", [&] { return num(m) + " " + num(hm); });
        count("energy integrals");
    }
    observe(h.h);
}

static std::vector<double> samples_of(Rng& rng, size_t n) { std::vector<double> v(n); for (double& x : v) x = rng.chance(0.3) ? (double)rng.range(-3, 3) : rng.normal(); return v; }
K52_TASK(splines, "splines")
{
    size_t n = rng.chance(0.3) ? (size_t)rng.range(3, 5) : (size_t)rng.range(3, rng.chance(0.1) ? 700 : 60);
    std::vector<double> s = samples_of(rng, n), other = samples_of(rng, (size_t)rng.range(0, 20)), keep = s;
    if (rng.chance(0.3)) { double u = std::ldexp(1.0, (int)rng.range(-100, 100)); for (double& v : s) v *= u; keep = s; }
    AkimaWavelet::shared_ptr w = AkimaWavelet::CreateAkimaWavelet(s, other);
    int rounds = (int)rng.range(1, 2);
    Hash h;
    for (int r = 0; r < rounds; r++)
    {
        if (r) { n = (size_t)rng.range(3, 40); s = samples_of(rng, n); keep = s; w->Init(s, other); }
        s.assign(n, 99);
        std::vector<double> x(n + 2), y(n + 2);
        double delta = 8.0 / (double)n;
        for (size_t i = 0; i < n; i++) { x[i + 1] = -4 + delta * (double)i; y[i + 1] = keep[i]; }
        x[0] = x[1] - (x[2] - x[1]); x[n + 1] = 4;
        RefAkima ref(x, y);
        for (size_t i = 0; i < n; i++)
            check(std::fabs(w->GetValue(x[i + 1]).real() - keep[i]) <= 1e-9 * (double)(ref.Y + ref.M * delta), "spline-sample-missed", [&] { return std::to_string(i) + " of " + show(keep, 60); });
        for (int i = 0; i < 60; i++)
        {
            double t = i == 0 ? 4 : i == 1 ? -4 : i == 2 ? std::nextafter(4, 0) : i == 3 ? std::nextafter(-4, 0) : arg(rng);
            cd v = w->GetValue(t);
            auto ctx = [&] { std::ostringstream o; o.precision(17); o << "at " << t << " value " << v << " samples " << show(keep, 60); return o.str(); };
            check(v.imag() == 0 && w->real(t) == v.real(), "spline-parts", ctx);
            if (t < -4 || t > 4) { check(v.real() == 0, "spline-support", ctx); count("wavelet values compared"); continue; }
            bool ok; long double tol;
            long double e = ref.value(t, &ok, &tol);
            if (!ok) { count("ill-conditioned points, not judged"); continue; }
            check(fabsl(v.real() - e) <= tol, "spline-value", [&] { return ctx() + " expected " + num((double)e); });
            count("wavelet values compared");
        }
        h.add(keep);
    }
    std::vector<double> none;
    must_throw("no-samples-accepted", "", [&] { AkimaWavelet::CreateAkimaWavelet(none, other); });
    observe(h.h);
}

static double last_progress; static std::vector<double>* progress_log;
static void on_progress(double p) { progress_log->push_back(p); }

struct Custom : IWavelet
{
    double a, b;
    Custom(Rng& r) : a(r.uni(0.5, 3)), b(r.uni(-2, 2)) {}
    cd GetValue(double t) { return std::polar(std::exp(-std::fabs(t - 0.2)), a * t + b); }
};
K52_TASK(cwt, "cwt")
{
    IWavelet::shared_ptr f;
    int kind = (int)rng.range(0, 4);
    switch (kind)
    {
    case 0: f.reset(new HaarWaveletFunction()); break;
    case 1: f.reset(new MhatWaveletFunction()); break;
    case 2: f.reset(new MorletWaveletFunction()); break;
    case 3: f = AkimaWavelet::CreateAkimaWavelet(samples_of(rng, 12), std::vector<double>()); break;
    default: f.reset(new Custom(rng)); break;
    }
    int min = (int)rng.range(2, 8), max = min * (int)rng.range(1, 12), cnt = (int)rng.range(1, 12);
    bool larger = rng.chance(0.06);
    if (larger) { min = (int)rng.range(2, 50); max = min * (int)rng.range(1, 5); cnt = (int)rng.range(1, 50); count("larger wavelets"); }
    bool linear = rng.chance(0.5);
    if (!linear && rng.chance(0.5)) max = (int)rng.range(min, larger ? 300 : 100);
    // the whole-sample centre of an odd length may be on either side of its middle, and its half length rounded or not: any one choice, kept throughout
    bool odd = max % 2 != 0;
    Wavelet::shared_ptr w;
    if (rng.chance(0.4))
    {
        // the settings of an object that was built, and perhaps used, with others
        int min0 = (int)rng.range(1, 8), max0 = (int)rng.range(2, 60);
        bool dimensions = rng.chance(0.4), scale = rng.chance(0.6);       // the same dimensions, or the same kind of scale
        if (dimensions) count("wavelets built again with the same dimensions");
        w = Wavelet::BuildWavelet(rng.chance(0.3) ? f : IWavelet::shared_ptr(new Custom(rng)), min0, dimensions ? max : max0, dimensions ? cnt : (int)rng.range(1, 14), (scale ? !linear : rng.chance(0.5)) ? Wavelet::Log : Wavelet::Linear);
        if (rng.chance(0.6)) ContiniousWaveletTransformation(samples_of(rng, (size_t)rng.range(0, 12)), w, (int)rng.range(1, 3));
        bool other = cnt != w->count() || max != w->max_lenght();
        bool all = rng.chance(0.4);                  // or only the settings that change
        w->base_function(f);
        if (all || w->count() != cnt) w->count(cnt);
        if (all || w->max_lenght() != max) w->max_lenght(max);
        if (all || w->min_lenght() != min) w->min_lenght(min);
        if (other && rng.chance(0.3)) { try { ContiniousWaveletTransformation(samples_of(rng, 5), w); check(false, "stale-wavelet-accepted", ""); } catch (const std::exception&) {} catch (const char*) {} }
        if (!linear && rng.chance(0.5)) w->createWavelet(); else w->createWavelet(linear ? Wavelet::Linear : Wavelet::Log);
        count("wavelets built again with other settings");
    }
    else w = linear ? Wavelet::BuildWavelet(f, min, max, cnt, Wavelet::Linear)
                                   : (rng.chance(0.5) ? Wavelet::BuildWavelet(f, min, max, cnt) : Wavelet::BuildWavelet(f, min, max, cnt, Wavelet::Log));
    check(w && w->count() == cnt && w->max_lenght() == max && w->min_lenght() == min, "wavelet-settings", "");
    size_t N = rng.chance(0.03) ? (size_t)rng.range(100, 400) : (size_t)rng.range(0, 60);
    std::vector<double> x = samples_of(rng, N);
    if (rng.chance(0.2)) { double u = std::ldexp(1.0, (int)rng.range(-60, 60)); for (double& v : x) v *= u; }
    std::vector<double> keep = x;
    double unit = 0;
    for (double v : keep) unit = std::max(unit, std::fabs(v));
    int step = rng.chance(0.4) ? 1 : (int)rng.range(1, 9);
    auto ctx = [&] { return "wavelet " + std::to_string(kind) + " min " + std::to_string(min) + " max " + std::to_string(max) + " count " + std::to_string(cnt) + (linear ? " linear" : " log") + " step " + std::to_string(step) + " signal " + show(keep, 60); };
    // scales and samples as defined
    std::vector<std::vector<cd> > ws[2];
    std::vector<char> judged[2];
    for (int h = 0; h < 2; h++) for (int k = 0; k < cnt; k++)
    {
        double ratio = (double)max / min;
        double s = linear ? (double)(k + 1) / cnt * ratio : std::exp((double)k / cnt * std::log(ratio));
        std::vector<cd> v; bool ok = true;
        for (int j = 0; j < max; j++)
        {
            double p = (j - max / 2.0) * s * 4 / (h ? (double)(max / 2) : max / 2.0);
            cd a = f->GetValue(p), b = f->GetValue(p * (1 + 1e-13)), c = f->GetValue(p * (1 - 1e-13));
            if (std::abs(b - a) > 1e-6 || std::abs(c - a) > 1e-6) ok = false;
            v.push_back(a);
        }
        ws[h].push_back(v); judged[h].push_back(ok);
    }
    // choices still possible: bit 0 half length rounded, bit 1 centre above the middle
    bool possible[4] = {true, odd, odd, odd};
    if (odd) count("odd lengths");
    std::vector<double> log; progress_log = &log; last_progress = -1;
    for (int variant = 0; variant < (step > 1 && odd ? 3 : 2); variant++)
    {
        if (variant == 2) step = 1;             // the odd length's choice is the same for every step
        std::vector<std::vector<double> > R = variant == 1 ? ContiniousWaveletTransformation(x, w, step, on_progress)
                                                      : (step == 1 && rng.chance(0.5) ? ContiniousWaveletTransformation(x, w) : ContiniousWaveletTransformation(x, w, step));
        check(x == keep, "input-modified", ctx);
        size_t want = (N + (size_t)step - 1) / (size_t)step;
        check(R.size() == want, "position-count", [&] { return ctx() + " rows " + std::to_string(R.size()); });
        for (size_t p = 0; p < R.size(); p++)
        {
            check(R[p].size() == (size_t)cnt, "scale-count", ctx);
            long pos = (long)p * step;
            for (int k = 0; k < cnt; k++)
            {
                std::string expected;
                bool any = false;
                for (int c = 0; c < 4; c++)
                {
                    if (!possible[c]) continue;
                    if (!judged[c & 1][(size_t)k]) { any = true; continue; }
                    const std::vector<cd>& wk = ws[c & 1][(size_t)k];
                    cld e = 0; long double mag = 0;
                    for (int j = 0; j < max; j++)
                    {
                        long q = pos + j - (max + (c >> 1)) / 2;
                        if (q < 0 || q >= (long)N) continue;
                        e += (long double)keep[(size_t)q] * cld(wk[(size_t)j].real(), wk[(size_t)j].imag());
                        mag += fabsl(keep[(size_t)q]) * std::abs(wk[(size_t)j]);
                    }
                    // wavelet arguments carry rounding of the scale; the steepest wavelet here has slope about 10 per unit
                    if (fabsl(R[p][(size_t)k] - std::abs(e)) <= 1e-10L * (unit + mag)) any = true;
                    else { possible[c] = false; expected += " " + num((double)std::abs(e)); }
                }
                check(any, "cwt-coefficient", [&] { return ctx() + " position " + std::to_string(pos) + " scale " + std::to_string(k) + " got " + num(R[p][(size_t)k]) + " expected" + expected; });
                count("cwt coefficients compared");
            }
        }
        if (variant == 1)
        {
            check(log.size() == want, "callback-count", [&] { return ctx() + " calls " + std::to_string(log.size()); });
            for (size_t i = 0; i < log.size(); i++)
                check(std::fabs(log[i] - 100.0 * (double)(i * (size_t)step) / (double)N) <= 1e-9, "callback-progress", [&] { return ctx() + " call " + std::to_string(i) + " progress " + num(log[i]); });
            count("callbacks", log.size());
        }
    }
    int bad = (int)-rng.range(0, 3);
    must_throw("step-accepted", std::to_string(bad), [&] { ContiniousWaveletTransformation(x, w, bad); });
    must_throw("step-accepted", std::to_string(bad), [&] { ContiniousWaveletTransformation(x, w, bad, on_progress); });
    must_throw("length-accepted", std::to_string(bad), [&] { Wavelet::BuildWavelet(f, bad, max, cnt, linear ? Wavelet::Linear : Wavelet::Log); });
    must_throw("length-accepted", std::to_string(bad - 1), [&] { Wavelet::BuildWavelet(f, min, bad - 1, cnt, linear ? Wavelet::Linear : Wavelet::Log); });
    Log::get().sample(ctx());
    observe(Hash().add(keep).add(min).add(max).add(cnt).add(kind).add(step).h, N > 0);
}
K52_MAIN
