// C13: scale sequences against their law.
#include "harness.h"
#include <climits>
#include <k52/dsp/transform/wavelet/linear_scale.h>
#include <k52/dsp/transform/wavelet/logarithmic_scale.h>
using namespace hv;
using namespace k52::dsp;

K52_TASK(linear, "linear")
{
    double lo, hi; size_t n;
    do
    {
        lo = rng.chance(0.3) ? (double)rng.range(1, 50) : std::exp(rng.uni(-20, 20));
        hi = rng.chance(0.3) ? lo + (double)rng.range(1, 100) : lo * (1 + std::exp(rng.uni(-8, 8)));
        if (rng.chance(0.15)) { lo = std::pow(10, rng.uni(-300, 290)); hi = lo * std::pow(10, rng.uni(0.01, 15)); }
        if (rng.chance(0.05)) { hi = std::numeric_limits<double>::max() / (rng.chance(0.5) ? 1 : rng.uni(1, 100)); lo = hi / std::pow(10, rng.uni(0.01, 12)); }
        n = rng.chance(0.2) ? 2 : (size_t)rng.range(2, rng.chance(0.05) ? 3000 : 60);
    } while (!(hi > lo) || (hi - lo) / (double)n < 1e-9 * hi);
    LinearScale s(lo, hi, n);
    std::vector<double> v = s.GetScales();
    auto ctx = [&] { return "[" + num(lo) + "," + num(hi) + "] x " + std::to_string(n) + " -> " + show(v); };
    check(v.size() == n, "linear-count", ctx);
    for (size_t i = 0; i < n; i++)
    {
        long double e = (long double)lo + ((long double)hi - lo) * (long double)i / (long double)(n - 1);
        check(fabsl(e - v[i]) <= 1e-13L * hi, "linear-value", [&] { return ctx() + " at " + std::to_string(i); });
        if (i) check(v[i] > v[i - 1], "linear-not-increasing", ctx);
    }
    check(v[0] == lo || std::fabs(v[0] - lo) <= 1e-15 * lo, "linear-first", ctx);
    v[0] = -1;
    check(s.GetScales()[0] != -1 && s.GetScales() == s.GetScales(), "linear-repeat", ctx);
    count("scale values", n);
    // rejections
    double bad[] = {0, -0.0, -lo, -1e-300};
    double z = bad[index % 4];
    must_throw("linear-bad-min", num(z), [&] { LinearScale x(z, hi, n); });
    must_throw("linear-bad-max", num(z), [&] { LinearScale x(lo, z, n); });
    must_throw("linear-bad-both", num(z), [&] { LinearScale x(-hi, -lo, n); });
    must_throw("linear-inverted", num(z), [&] { LinearScale x(hi, lo, n); });
    must_throw("linear-equal", num(z), [&] { LinearScale x(lo, lo, n); });
    must_throw("linear-inverted", num(z), [&] { LinearScale x(std::nextafter(lo, INFINITY), lo, n); });
    must_throw("linear-count-0", "", [&] { LinearScale x(lo, hi, 0); });
    must_throw("linear-count-1", "", [&] { LinearScale x(lo, hi, 1); });
    Log::get().sample("linear " + ctx());
    observe(Hash().add(lo).add(hi).add((uint64_t)n).h);
}
K52_TASK(logarithmic, "logarithmic")
{
    int a = (int)(rng.chance(0.5) ? rng.range(-12, 12) : rng.chance(0.05) ? -1074 : rng.range(-1074, 1022));
    int b = a + (int)(rng.chance(0.8) ? rng.range(1, 30) : rng.range(1, 1023 - a));
    if (b > 1023) b = 1023;
    LogarithmicScale s(a, b);
    std::vector<double> v = s.GetScales();
    auto ctx = [&] { return "[" + std::to_string(a) + "," + std::to_string(b) + "] -> " + show(v); };
    check(v.size() == (size_t)(b - a + 1), "log-count", ctx);
    for (size_t i = 0; i < v.size(); i++)
    {
        double e = std::ldexp(1.0, a + (int)i);
        check(std::fabs(v[i] - e) <= 1e-14 * e, "log-value", [&] { return ctx() + " at " + std::to_string(i); });
        if (i) check(v[i] > v[i - 1], "log-not-increasing", ctx);
    }
    v[0] = -1;
    check(s.GetScales()[0] != -1 && s.GetScales() == s.GetScales(), "log-repeat", ctx);
    count("scale values", v.size());
    must_throw("log-inverted", ctx(), [&] { LogarithmicScale x(b, a); });
    must_throw("log-equal", ctx(), [&] { LogarithmicScale x(a, a); });
    must_throw("log-inverted", ctx(), [&] { LogarithmicScale x(a, a - 1); });
    must_throw("log-overflow", ctx(), [&] { LogarithmicScale x(a, rng.chance(0.5) ? 1024 : rng.chance(0.5) ? INT_MAX : (int)rng.range(1024, 3000)); });
    must_throw("log-underflow", ctx(), [&] { LogarithmicScale x(rng.chance(0.5) ? -1075 : rng.chance(0.5) ? INT_MIN : (int)rng.range(-5000, -1075), b); });
    Log::get().sample("logarithmic " + ctx());
    observe(Hash().add(a).add(b).h);
}
K52_MAIN
