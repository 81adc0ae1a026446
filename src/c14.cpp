// C14: spline values against an independent long-double Akima construction and metamorphic relations.
#include "dsp_ref.h"
#include <k52/dsp/akima_spline.h>
#include <algorithm>
using namespace hv;
using namespace k52::dsp;

struct Data { std::vector<double> x, y; std::string kind; double xs = 1, ys = 1; };
static Data make(Rng& r, bool uniform_only = false)
{
    Data d;
    size_t n = r.chance(0.25) ? (size_t)r.range(5, 7) : (size_t)r.range(5, r.chance(0.04) ? 600 : 40);
    bool dyadic = r.chance(0.5);
    double x = dyadic ? (double)r.range(-20, 20) : r.uni(-50, 50);
    for (size_t i = 0; i < n; i++)
    {
        d.x.push_back(x);
        if (uniform_only) x += 0.5;
        else x += dyadic ? std::ldexp(1.0, (int)r.range(-3, 2)) : std::exp(r.uni(-2.5, 1.5));
    }
    // evenly spaced but for some of the inner knots
    bool nearly_even = !uniform_only && n > 5 && r.chance(0.15);
    if (nearly_even)
    {
        double step = std::ldexp(1.0, (int)r.range(-2, 2));
        for (size_t i = 0; i < n; i++) d.x[i] = std::floor(d.x[0]) + step * (double)i;
        double moved = r.uni(0, 1);
        for (size_t i = 2; i + 2 < n; i++) if (r.chance(moved))
            d.x[i] = r.chance(0.5) ? d.x[i - 1] + (d.x[i + 1] - d.x[i - 1]) * r.uni(0.1, 0.95) : d.x[i - 1] + (d.x[n - 2] - d.x[i - 1]) * r.uni(0.1, 0.95) / (double)(r.chance(0.5) ? 1 : n - i);
        for (size_t i = 2; i + 2 < n; i++) if (!(d.x[i] > d.x[i - 1]))
            d.x[i] = d.x[i - 1] + (d.x[n - 2] - d.x[i - 1]) / (double)(n - 1 - i);
        count("nearly even knots");
    }
    int k = (int)r.range(0, 6);
    const char* names[] = {"random", "integer", "step", "straight", "piecewise straight", "smooth", "constant"};
    d.kind = std::string(names[k]) + (dyadic ? " dyadic" : "") + (nearly_even ? " nearly even" : "");
    double a = (double)r.range(-4, 4), b = (double)r.range(-6, 6), f = r.uni(0.1, 2);
    size_t cut = (size_t)r.range(0, (int64_t)n - 1);
    for (size_t i = 0; i < n; i++)
    {
        double v = 0, X = d.x[i];
        switch (k)
        {
        case 0: v = r.normal() * 10; break;
        case 1: v = (double)r.range(-5, 5); break;
        case 2: v = i < cut ? 0 : 1; break;
        case 3: v = a * X + b; break;
        case 4: v = i < cut ? a * (X - d.x[cut]) : b * (X - d.x[cut]); break;
        case 5: v = std::sin(f * X) * 3; break;
        default: v = a; break;
        }
        d.y.push_back(v);
    }
    // other units, exactly scaled
    if (r.chance(0.4)) d.ys = std::ldexp(1.0, (int)(r.chance(0.7) ? r.range(-50, 50) : r.range(-200, 200)));
    if (r.chance(0.4)) d.xs = std::ldexp(1.0, (int)(r.chance(0.7) ? r.range(-30, 30) : r.range(-100, 100)));
    for (double& v : d.x) v *= d.xs;
    for (double& v : d.y) v *= d.ys;
    if (d.ys != 1 || d.xs != 1) d.kind += " scaled";
    return d;
}
// data that share much with earlier ones
static Data vary(Rng& r, const Data& o)
{
    Data d = o;
    size_t n = d.x.size(), i = (size_t)r.range(1, (int64_t)n - 2);
    d.kind = "variant of " + o.kind;
    switch (r.range(0, 8))
    {
    case 0: d.x[i] = d.x[i - 1] + (d.x[i + 1] - d.x[i - 1]) * r.uni(0.2, 0.8); break;
    case 1: for (i = 1; i + 1 < n; i++) d.x[i] = d.x[i - 1] + (d.x[i + 1] - d.x[i - 1]) * r.uni(0.2, 0.8); break;
    case 2: d.y[(size_t)r.range(0, (int64_t)n - 1)] += d.ys * (double)r.range(1, 5); break;
    case 3: for (double& y : d.y) y = -y; break;
    case 4: std::reverse(d.y.begin(), d.y.end()); break;
    case 5: std::swap(d.y[i], d.y[i + 1]); break;
    case 6: if (n > 5) { d.x.pop_back(); d.y.pop_back(); } break;
    case 7: d.x.push_back(d.x.back() + d.xs); d.y.push_back(d.y.front()); break;
    default: { std::vector<double> g; for (size_t k = 1; k < n; k++) g.push_back(d.x[k] - d.x[k - 1]); for (size_t k = 1; k < n; k++) d.x[k] = d.x[k - 1] + g[n - 1 - k]; }
    }
    for (size_t k = 1; k < d.x.size(); k++) if (!(d.x[k] > d.x[k - 1])) return o;
    return d;
}
static std::vector<double> points(Rng& r, const std::vector<double>& x)
{
    std::vector<double> p;
    for (size_t i = 0; i < x.size(); i++)
    {
        p.push_back(x[i]);
        if (i) p.push_back(std::nextafter(x[i], -1e300));
        if (i + 1 < x.size())
        {
            p.push_back(std::nextafter(x[i], 1e300));
            p.push_back(x[i] + (x[i + 1] - x[i]) * 0.5);
            p.push_back(x[i] + (x[i + 1] - x[i]) * r.uni());
        }
    }
    return p;
}
static std::string show_data(const Data& d) { return d.kind + " x=" + show(d.x, 40) + " y=" + show(d.y, 40); }

static void verify(Rng& rng, AkimaSpline& s, const Data& d)
{
    RefAkima ref(d.x, d.y);
    for (double t : points(rng, d.x))
    {
        double v = s.Value(t);
        bool ok; long double tol;
        long double e = ref.value(t, &ok, &tol);
        // the knots are met whatever the conditioning of the slopes
        bool at_knot = std::binary_search(d.x.begin(), d.x.end(), t);
        if (at_knot)
        {
            size_t i = (size_t)(std::lower_bound(d.x.begin(), d.x.end(), t) - d.x.begin());
            check(fabsl(v - d.y[i]) <= tol, "misses-knot", [&] { return "at " + num(t) + " value " + num(v) + " " + show_data(d); });
            count("knots met");
        }
        if (!ok) { count("ill-conditioned points, not judged"); continue; }
        check(fabsl(v - e) <= tol, "spline-value", [&] { return "at " + num(t) + " value " + num(v) + " expected " + num((double)e) + " " + show_data(d); });
        count("values compared");
    }
    // numerically observed continuity of value and first derivative at inner knots
    for (size_t i = 1; i + 1 < d.x.size(); i++)
    {
        double hl = d.x[i] - d.x[i - 1], hr = d.x[i + 1] - d.x[i], h = std::min(hl, hr) * 1e-4, x = d.x[i];
        long double M = ref.M + ref.Y / std::min(hl, hr);
        double v0 = s.Value(x), vl = s.Value(x - h), vl2 = s.Value(x - 2 * h), vr = s.Value(x + h), vr2 = s.Value(x + 2 * h);
        check(std::fabs(s.Value(std::nextafter(x, -1e300)) - v0) <= (double)(1e-9L * (ref.Y + M * hl)) + 1e-300, "discontinuous", [&] { return "at knot " + num(x) + " " + show_data(d); });
        double dl = (3 * v0 - 4 * vl + vl2) / (2 * h), dr = (-3 * v0 + 4 * vr - vr2) / (2 * h);
        check(std::fabs(dl - dr) <= (double)(1e-3L * M) + 1e-300, "derivative-jumps", [&] { return "at knot " + num(x) + " left " + num(dl) + " right " + num(dr) + " " + show_data(d); });
    }
}
static void rejected(Rng& rng, AkimaSpline& s, const Data& d)
{
    double lo = d.x.front(), hi = d.x.back();
    double bad[] = {std::nextafter(lo, -1e300), std::nextafter(hi, 1e300), lo - (rng.uni(0, 100) + 1e-9) * d.xs, hi + (rng.uni(0, 100) + 1e-9) * d.xs, INFINITY, -INFINITY, NAN, -1e308, 1e308};
    for (double b : bad) must_throw("out-of-range-accepted", num(b) + " for " + num(lo) + ".." + num(hi), [&] { s.Value(b); });
}

K52_TASK(spline, "spline")
{
    AkimaSpline::shared_ptr s = AkimaSpline::Create();
    for (double t : {0.0, 1.0, -5.0, (double)NAN}) must_throw("uninitialised-evaluation", num(t), [&] { s->Value(t); });
    Hash h; std::string text;
    int rounds = (int)rng.range(1, rng.chance(0.03) ? 30 : 6);
    Data keep;
    for (int k = 0; k < rounds; k++)
    {
        // the same object is initialised again and again
        Data d = k > 0 && rng.chance(0.5) ? vary(rng, keep) : make(rng);
        if (k > 0 && d.kind.substr(0, 7) == "variant") count("variants of earlier data");
        keep = d;
        s->Initialize(d.x, d.y);
        check(d.x == keep.x && d.y == keep.y, "input-modified", "");
        verify(rng, *s, d);
        rejected(rng, *s, d);
        text += " " + d.kind + "/" + std::to_string(d.x.size());
        h.add(d.x).add(d.y);
        // later changes of the caller's data do not matter
        d.x.assign(d.x.size(), 7); d.y.assign(d.y.size(), 7);
        verify(rng, *s, keep);
        if (rng.chance(0.5))
        {
            Data q = make(rng);
            size_t few = (size_t)rng.range(0, 4);
            std::vector<double> fx(q.x.begin(), q.x.begin() + (long)few), fy(q.y.begin(), q.y.begin() + (long)few);
            must_throw("too-few-knots-accepted", std::to_string(few), [&] { s->Initialize(fx, fy); });
            std::vector<double> my = q.y; my.push_back(1);
            must_throw("mismatched-accepted", "one more y", [&] { s->Initialize(q.x, my); });
            my = q.x; my.push_back(1e9);
            must_throw("mismatched-accepted", "one more x", [&] { s->Initialize(my, q.y); });
            must_throw("mismatched-accepted", "few y", [&] { s->Initialize(q.x, fy); });
        }
    }
    Log::get().sample("initialised with" + text);
    observe(h.h);
}
// relations between splines of related data
K52_TASK(relations, "relations")
{
    Data d = make(rng);
    AkimaSpline::shared_ptr a = AkimaSpline::Create(), b = AkimaSpline::Create();
    a->Initialize(d.x, d.y);
    RefAkima ref(d.x, d.y);
    auto tolat = [&](double t, bool* ok) { long double tol; ref.value(t, ok, &tol); return (double)tol; };
    // scaling and shifting of values (powers of two keep ties exact), shifting and scaling of arguments
    double k = std::ldexp(rng.chance(0.5) ? 1 : -1, (int)(rng.chance(0.5) ? rng.range(-5, 5) : rng.range(-80, 80))), c = (double)rng.range(-8, 8) * d.ys, q = std::ldexp(1.0, (int)(rng.chance(0.5) ? rng.range(-4, 4) : rng.range(-60, 60)));
    Data e = d;
    for (double& y : e.y) y = k * y;
    b->Initialize(e.x, e.y);
    for (double t : points(rng, d.x)) { bool ok; double tol = tolat(t, &ok); if (ok) { check(std::fabs(b->Value(t) - k * a->Value(t)) <= 2 * std::fabs(k) * tol, "scaling-values", [&] { return num(k) + " " + show_data(d); }); count("relations checked"); } }
    e = d;
    for (double& y : e.y) y += c;
    b->Initialize(e.x, e.y);
    RefAkima ref2(e.x, e.y);
    for (double t : points(rng, d.x))
    {
        bool ok, ok2; double tol = tolat(t, &ok); long double tol2; ref2.value(t, &ok2, &tol2);
        if (ok && ok2) { check(std::fabs(b->Value(t) - c - a->Value(t)) <= 2 * (tol + (double)tol2), "shifting-values", [&] { return num(c) + " " + show_data(d); }); count("relations checked"); }
    }
    e = d;
    for (double& x : e.x) x *= q;
    b->Initialize(e.x, e.y);
    for (double t : points(rng, d.x)) { bool ok; double tol = tolat(t, &ok); if (ok) { check(std::fabs(b->Value(t * q) - a->Value(t)) <= 2 * tol, "scaling-arguments", [&] { return num(q) + " " + show_data(d); }); count("relations checked"); } }
    // locality: changing a knot does not change the spline beyond three knots on either side
    size_t n = d.x.size();
    e = d;
    size_t j = (size_t)rng.range(0, (int64_t)n - 1);
    e.y[j] += (rng.chance(0.5) ? 1 : 1000) * d.ys;
    b->Initialize(e.x, e.y);
    for (size_t i = 0; i + 1 < n; i++)
    {
        if (i + 1 + 3 <= j + 1 || i >= j + 3)
        {
            // interval [i,i+1] depends on knots i-2..i+3
            bool near = (long)j >= (long)i - 2 && (long)j <= (long)i + 3;
            if (near) continue;
            double t = d.x[i] + (d.x[i + 1] - d.x[i]) * rng.uni();
            check(a->Value(t) == b->Value(t) || std::fabs(a->Value(t) - b->Value(t)) <= 1e-12 * (d.ys + std::fabs(a->Value(t))), "not-local",
                  [&] { return "knot " + std::to_string(j) + " changes interval " + std::to_string(i) + " " + show_data(d); });
            count("locality checked");
        }
    }
    // straight data are reproduced exactly
    double m = rng.uni(-9, 9) / d.xs * d.ys, o = rng.uni(-9, 9) * d.ys;
    for (size_t i = 0; i < n; i++) e.y[i] = m * e.x[i] + o;
    b->Initialize(e.x, e.y);
    for (double t : points(rng, e.x)) check(std::fabs(b->Value(t) - (m * t + o)) <= 1e-9 * (std::fabs(m) * 200 * d.xs + 10 * d.ys), "straight-line", [&] { return show_data(e) + " at " + num(t); });
    // values between the knots of a step stay near the range (Akima's point): no NaN, no blow-up
    for (double t : points(rng, d.x)) check(std::isfinite(a->Value(t)), "not-finite", [&] { return show_data(d); });
    Log::get().sample("relations on " + d.kind + "/" + std::to_string(n));
    observe(Hash().add(d.x).add(d.y).add(k).add(c).h);
}
K52_MAIN
