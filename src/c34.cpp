// C34: tolerance comparison and sequence helpers against reference predicates on boundary-biased inputs.
#include "harness.h"
#include <k52/common/constants.h>
#include <k52/common/floating_point.h>
#include <k52/common/helpers.h>
#include <iomanip>
#include <iostream>
using namespace hv;
using k52::common::FloatingPoint;
using k52::common::Helpers;
typedef std::complex<double> cd;

static const double TOL = 1e-10;
static double special(Rng& r)
{
    static const std::vector<double> v = {0.0, -0.0, 1e-10, -1e-10, 9.9999999999e-11, 1.00000000001e-10, 1e-11, 1e-9, 1, -1, 1e308, -1e308,
        std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(),
        std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::min(), std::numeric_limits<double>::max(), 3, 1e5, 1e10, 0.5, -0.5, 0.75, 1 - 1e-10};
    switch (r.range(0, 3))
    {
    case 0: return r.pick(v);
    case 1: return r.uni(-2, 2);
    case 2: return r.uni(-1, 1) * std::pow(10, r.uni(-15, 15));
    default: { double d = r.pick(v); return r.chance(0.5) ? std::nextafter(d, 1e9) : std::nextafter(d, -1e9); }
    }
}
// -1: not decided by this oracle
static int expected(double x, double y)
{
    if (std::isnan(x) || std::isnan(y)) return 0;
    if (std::isinf(x) || std::isinf(y)) return x == y ? -1 : 0;
    long double d = fabsl((long double)x - (long double)y);
    if ((x != 0 && y != 0) && fabsl(d - (long double)TOL) <= (long double)TOL * 1e-5L + 4e-16L * std::max(fabsl(x), fabsl(y))) return -1;
    return d < (long double)TOL;
}
static bool eq(double a, double b) { return FloatingPoint::AreEqual(a, b); }

K52_TASK(compare, "compare")
{
    check(k52::common::Constants::Eps == TOL, "tolerance", "documented tolerance is 1e-10");
    Hash h; int equal = 0;
    for (int i = 0; i < 400; i++)
    {
        double x = special(rng), y;
        switch (rng.range(0, 4))
        {
        case 0: y = special(rng); break;
        case 1: y = x + rng.uni(-3e-10, 3e-10); break;
        case 2: y = -x; break;
        case 3: y = x; break;
        default: y = x + (rng.chance(0.5) ? 1 : -1) * TOL * (1 + rng.uni(-1e-3, 1e-3)); break;
        }
        int e = expected(x, y);
        bool got = eq(x, y), rev = eq(y, x);
        auto ctx = [&] { return num(x) + " vs " + num(y) + " got " + (got ? "equal" : "different"); };
        check(got == rev, "asymmetric", ctx);
        if (e >= 0) { check(got == (e == 1), "comparison", ctx); count("decided comparisons"); }
        equal += got;
        int z = expected(x, 0.0);
        if (z >= 0) check(FloatingPoint::IsZero(x) == (z == 1), "zero-test", [&] { return num(x); });
        check(FloatingPoint::IsZero(x) == eq(x, 0), "zero-test-vs-comparison", [&] { return num(x); });
        h.add(x).add(y);
    }
    count("equal pairs seen", (uint64_t)equal);
    observe(h.h, equal > 0);
}

K52_TASK(vectors, "vectors")
{
    Hash h;
    for (int i = 0; i < 60; i++)
    {
        size_t n = (size_t)rng.range(0, rng.chance(0.2) ? rng.chance(0.3) ? 3000 : 200 : 9);
        std::vector<double> a(n), b;
        double odd = n > 9 ? 1.0 / (double)n : 0.1;
        for (double& x : a) x = rng.chance(odd) ? special(rng) : rng.uni(-5, 5);
        b = a;
        int mode = (int)rng.range(0, 4);
        if (mode == 1 && n) b[(size_t)rng.range(0, (int64_t)n - 1)] += rng.chance(0.5) ? 1e-3 : -1;
        if (mode == 2) for (double& x : b) x += rng.uni(-8e-11, 8e-11);
        if (mode == 3) { if (rng.chance(0.5) && n) b.pop_back(); else b.push_back(rng.chance(0.5) ? 0 : 1); }
        if (mode == 4 && n) { size_t k = rng.chance(0.3) ? (size_t)rng.range(0, (int64_t)n - 1) : rng.chance(0.5) ? n - 1 : 0; b[k] = special(rng); }
        int e = a.size() == b.size() ? 1 : 0;
        if (e) for (size_t j = 0; j < n; j++) { int x = expected(a[j], b[j]); if (x == 0) { e = 0; break; } if (x < 0) e = -1; }
        if (e < 0) continue;
        std::vector<double> a0 = a, b0 = b;
        bool g = FloatingPoint::AreEqual(a, b), g2 = FloatingPoint::AreEqual(b, a);
        auto ctx = [&] { return show(a) + " vs " + show(b); };
        check(g == (e == 1), "vector-comparison", ctx);
        check(g2 == g, "vector-asymmetric", ctx);
        h.add(a).add(b).add(mode);
        count(g ? "equal vectors" : "different vectors");
    }
    observe(h.h);
}

static bool same_bits(double a, double b) { return memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)); }
K52_TASK(sequence, "sequence")
{
    size_t n = (size_t)(rng.chance(0.1) ? 0 : rng.range(1, 60));
    std::vector<cd> s(n), keep;
    for (cd& c : s) c = cd(special(rng), special(rng));
    keep = s;
    std::vector<cd> r = Helpers::Conjugate(s);
    check(r.size() == n, "conjugate-length", [&] { return std::to_string(r.size()); });
    Hash h;
    for (size_t i = 0; i < n; i++)
    {
        auto ctx = [&] { return "element " + std::to_string(i) + " (" + num(keep[i].real()) + "," + num(keep[i].imag()) + ") -> (" + num(r[i].real()) + "," + num(r[i].imag()) + ")"; };
        check(same_bits(s[i].real(), keep[i].real()) && same_bits(s[i].imag(), keep[i].imag()), "conjugate-changes-input", ctx);
        check(same_bits(r[i].real(), keep[i].real()) && same_bits(r[i].imag(), -keep[i].imag()), "conjugate-value", ctx);
        h.add(keep[i].real()).add(keep[i].imag());
    }
    count("elements conjugated", n);

    // printing
    std::vector<double> v((size_t)(rng.chance(0.15) ? rng.range(0, 1) : rng.range(2, 30)));
    for (double& x : v) x = rng.chance(0.3) ? (double)rng.range(-9, 9) : rng.uni(-1, 1) * std::pow(10, rng.uni(-8, 8));
    std::ostringstream cap;
    std::streambuf* old = std::cout.rdbuf(cap.rdbuf());
    std::streamsize prec = rng.range(1, 17);
    std::cout.precision(prec);
    std::ios::fmtflags flags = std::cout.flags();
    char fill = std::cout.fill();
    Helpers::PrintVector(v);
    std::streamsize prec2 = std::cout.precision();
    std::ios::fmtflags flags2 = std::cout.flags();
    std::ostringstream ref;
    std::cout << 0.125;
    std::cout.rdbuf(old);
    std::cout.precision(6);
    check(prec2 == prec && flags2 == flags && std::cout.fill() == fill, "print-leaves-format-changed", [&] { return "precision " + std::to_string(prec) + " -> " + std::to_string(prec2); });
    std::string t = cap.str();
    t = t.substr(0, t.find('\n'));
    check(t.size() >= 2 && t[0] == '[' && t[t.size() - 1] == ']', "print-format", [&] { return t; });
    std::vector<double> parsed;
    std::string inner = t.substr(1, t.size() - 2);
    for (char& c : inner) if (c == ';') c = ' ';
    std::istringstream is(inner);
    double x;
    while (is >> x) parsed.push_back(x);
    check(is.eof() && parsed.size() == v.size(), "print-entries", [&] { return t + " for " + show(v, 40); });
    for (size_t i = 0; i < v.size(); i++)
        check(std::fabs(parsed[i] - v[i]) <= 1e-13 * std::fabs(v[i]), "print-value", [&] { return t + " for " + show(v, 40); });
    count("vectors printed");
    h.add(v);
    if (Log::get().wants_sample()) Log::get().sample("conjugate of " + std::to_string(n) + " elements; printed " + t);
    observe(h.h, n > 0 && !v.empty());
}
K52_MAIN
