// C31: monitors every random draw (range) and the statistics of long draw histories.
#include "harness.h"
#include "stats.h"
#include "rare.h"
#include <k52/common/random.h>
#include <climits>
using k52::common::Random;
using namespace hv;

static const double Z = 7.5;

static void setup() { case_setup() = [](uint64_t s) { rare_draws(0); Random::Instance(); srand((unsigned)s); }; }
static int setup_done = (setup(), 0);

static int random_int(Rng& r)
{
    switch (r.range(0, 4))
    {
    case 0: return (int)r.range(-5, 5);
    case 1: return (int)r.range(INT_MIN, INT_MIN + 3);
    case 2: return (int)r.range(INT_MAX - 3, INT_MAX);
    case 3: return (int)r.range(-1000000, 1000000);
    default: return (int)r.range(INT_MIN, INT_MAX);
    }
}
static double random_double(Rng& r)
{
    switch (r.range(0, 5))
    {
    case 0: return r.uni(-1, 1);
    case 1: return (double)r.range(-3, 3);
    case 2: return r.uni(-1, 1) * std::pow(10, r.uni(-300, 300));
    case 3: return r.uni(-1e6, 1e6);
    case 4: return 1e9 + r.uni();
    default: return r.uni(-1, 1) * 1e-9;
    }
}

// mixed histories of all draws, each checked online
K52_TASK(mixed, "mixed")
{
    Random& R = Random::Instance();
    Hash h;
    std::string text;
    rare_draws(rng.chance(0.5) ? rng.uni(0, 0.3) : 0);
    uint64_t made = rare().made;
    for (int op = 0; op < 300; op++)
    {
        int kind = (int)rng.range(0, 6);
        if (kind == 0)
        {
            double b = R.GetBaseRandomQuantity();
            check(b >= 0 && b <= 1, "base-range", [&] { return "base quantity " + num(b); });
            count("base draws");
        }
        else if (kind == 1)
        {
            double lo = random_double(rng), hi = random_double(rng);
            if (rng.chance(0.1)) hi = lo;
            if (hi < lo) std::swap(lo, hi);
            double v = R.GetContinuousRandomQuantity(lo, hi);
            check(v >= lo && v <= hi, "continuous-range",
                  [&] { return num(v) + " for [" + num(lo) + "," + num(hi) + "]"; });
            h.add(lo).add(hi);
            count("continuous draws");
            if (op < 20) text += "cont[" + num(lo) + "," + num(hi) + "] ";
        }
        else if (kind == 2)
        {
            int lo = random_int(rng), hi = random_int(rng);
            if (rng.chance(0.1)) { lo = INT_MIN; hi = INT_MAX; }
            if (rng.chance(0.1)) hi = lo;
            if (hi < lo && !rng.chance(0.2)) std::swap(lo, hi);
            if (hi < lo)
            {
                must_throw("inverted-range", "[" + std::to_string(lo) + "," + std::to_string(hi) + "]",
                           [&] { R.GetUniformlyDistributedDiscreteRandomQuantity(lo, hi); });
            }
            else
            {
                int v = R.GetUniformlyDistributedDiscreteRandomQuantity(lo, hi);
                check(v >= lo && v <= hi, "discrete-range", [&] { return std::to_string(v) + " for [" + std::to_string(lo) + "," + std::to_string(hi) + "]"; });
                count("discrete draws");
            }
            h.add(lo).add(hi);
            if (op < 20) text += "int[" + std::to_string(lo) + "," + std::to_string(hi) + "] ";
        }
        else if (kind == 3)
        {
            size_t n = rng.chance(0.1) ? 0 : (size_t)rng.range(1, 40);
            double lo = rng.uni(-10, 10), hi = lo + rng.uni(0, 5);
            std::vector<double> v = R.GenerateRandomVector(n, lo, hi);
            check(v.size() == n, "vector-size", [&] { return std::to_string(v.size()) + " instead of " + std::to_string(n); });
            for (double x : v)
                check(x >= lo && x <= hi, "vector-range", [&] { return num(x) + " for [" + num(lo) + "," + num(hi) + "]"; });
            count("vector entries", n);
            h.add((int)n);
        }
        else if (kind == 4) { R.GetRandomBool(); count("bool draws"); }
        else if (kind == 5)
        {
            double p = rng.chance(0.3) ? 1.0 : rng.uni();
            bool r = R.CheckEventOutcome(p);
            check(r || p < 1, "event-probability-1", "event of probability 1 did not happen");
            Random::ValidateProbability(p);
            Random::ValidateProbability(0);
            count("event draws");
        }
        else
        {
            double p = rng.chance(0.5) ? -rng.uni(1e-18, 3) : 1 + rng.uni(1e-15, 3);
            if (rng.chance(0.2)) p = std::nextafter(1.0, 2.0);
            if (rng.chance(0.2)) p = -std::numeric_limits<double>::denorm_min();
            if (rng.chance(0.1)) p = std::numeric_limits<double>::infinity();
            if (p >= 0 && p <= 1) p = 2;
            must_throw("bad-probability", num(p), [&] { Random::ValidateProbability(p); });
            must_throw("bad-probability", num(p), [&] { R.CheckEventOutcome(p); });
            h.add(p);
        }
    }
    count("rare values of the generator", rare().made - made);
    rare_draws(0);
    Log::get().sample("mixed: " + text);
    observe(h.h);
}

K52_TASK(discrete, "discrete")
{
    Random& R = Random::Instance();
    long lo, hi; int buckets; long n = 20000;
    switch (index % 4)
    {
    case 0: lo = rng.range(-50, 50); hi = lo + rng.range(1, 30); break;
    case 1: { lo = rng.chance(0.5) ? INT_MIN : INT_MAX - 30; hi = lo + rng.range(1, 30); break; }
    case 2: lo = rng.chance(0.5) ? INT_MIN : rng.range(INT_MIN, -1000000000); hi = rng.chance(0.5) ? INT_MAX : rng.range(1000000000, INT_MAX); break;
    default: lo = rng.range(-100, 100); hi = lo + rng.range(700000000, 1900000000); break;
    }
    double span = (double)hi - (double)lo + 1;
    buckets = span <= 64 ? (int)span : 24;
    if (index % 8 == 4) { hi = lo + 1; buckets = 2; }
    if (index % 8 == 4) span = 2;
    std::vector<long> c((size_t)buckets), par(2), pairs;
    std::vector<long> small((size_t)(buckets <= 31 ? buckets * buckets : 0));
    int prev = -1;
    for (long i = 0; i < n; i++)
    {
        int v = R.GetUniformlyDistributedDiscreteRandomQuantity((int)lo, (int)hi);
        check(v >= lo && v <= hi, "discrete-range", [&] { return std::to_string(v) + " for [" + std::to_string(lo) + "," + std::to_string(hi) + "]"; });
        int b = span == buckets ? (int)((long)v - lo) : (int)(((double)v - (double)lo) / span * buckets);
        c[(size_t)b]++;
        par[(size_t)(v & 1)]++;
        if (prev >= 0 && !small.empty()) small[(size_t)(prev * buckets + b)]++;
        prev = b;
    }
    count("discrete draws", (uint64_t)n);
    std::string id = "[" + std::to_string(lo) + "," + std::to_string(hi) + "] over " + std::to_string(n) + " draws";
    for (size_t i = 0; i < c.size(); i++)
        check(c[i] > 0, "discrete-missing-value", [&] { return "part " + std::to_string(i) + "/" + std::to_string(buckets) + " never drawn from " + id; });
    double z = chi2_uniform_z(c);
    check(z < Z, "discrete-not-uniform", [&] { return id + " z=" + num(z) + " counts " + show(c, 64); });
    if (span > 1000 && (long)span % 2 == 0)
    {
        double zp = chi2_uniform_z(par);
        check(zp < Z, "discrete-parity", [&] { return id + " parity counts " + show(par); });
    }
    if (!small.empty() && (double)n / (double)small.size() > 15)
    {
        double zs = chi2_uniform_z(small);
        check(zs < Z + 1, "discrete-serial", [&] { return id + " successive pairs z=" + num(zs); });
    }
    Log::get().sample("discrete " + id + " z=" + num(z));
    observe(Hash().add((uint64_t)lo).add((uint64_t)hi).h);
}

K52_TASK(continuous, "continuous")
{
    Random& R = Random::Instance();
    bool base = index % 4 == 0;
    bool vec = index % 4 == 1;
    double lo = base ? 0 : rng.uni(-100, 100), hi = base ? 1 : lo + std::pow(10, rng.uni(-3, 3));
    if (!base && rng.chance(0.4))   // bounds of any magnitude: their distance stays well above the rounding of either
    {
        double size = std::pow(10, rng.uni(-200, 200));
        lo = rng.chance(0.3) ? 0 : rng.uni(-1, 1) * size;
        hi = lo + std::pow(10, rng.uni(-6, 3)) * size;
        if (rng.chance(0.2)) { lo = rng.uni(-1, 1); hi = lo + std::pow(10, -rng.uni(6, 10)); }
        count("ranges of other magnitudes");
    }
    const int B = 32; const long n = 20000;
    std::vector<long> c(B), pr(64);
    std::vector<double> v;
    if (vec)
        while ((long)v.size() < n)
        {
            std::vector<double> w = R.GenerateRandomVector((size_t)rng.range(1, 9), lo, hi);
            v.insert(v.end(), w.begin(), w.end());
        }
    else
        for (long i = 0; i < n; i++) v.push_back(base ? R.GetBaseRandomQuantity() : R.GetContinuousRandomQuantity(lo, hi));
    int prev = -1;
    for (double x : v)
    {
        check(x >= lo && x <= hi, "continuous-range", [&] { return num(x) + " for [" + num(lo) + "," + num(hi) + "]"; });
        int b = std::min(B - 1, std::max(0, (int)((x - lo) / (hi - lo) * B)));
        c[(size_t)b]++;
        if (prev >= 0) pr[(size_t)((prev / 4) * 8 + b / 4)]++;
        prev = b;
    }
    count("continuous draws", v.size());
    double z = chi2_uniform_z(c), z2 = chi2_uniform_z(pr);
    check(z < Z, "continuous-not-uniform", [&] { return "[" + num(lo) + "," + num(hi) + "] z=" + num(z) + " " + show(c, 40); });
    check(z2 < Z + 1, "continuous-serial", [&] { return "[" + num(lo) + "," + num(hi) + "] z=" + num(z2); });
    Log::get().sample("continuous [" + num(lo) + "," + num(hi) + "] z=" + num(z) + " serial z=" + num(z2));
    observe(Hash().add(lo).add(hi).add((int)vec).h);
}

K52_TASK(boolean, "boolean")
{
    Random& R = Random::Instance();
    const size_t n = 60000;
    // draws of other quantities in between must not disturb the fairness
    bool interleave = index % 2 == 1;
    std::vector<char> b(n);
    for (size_t i = 0; i < n; i++)
    {
        b[i] = R.GetRandomBool();
        if (interleave && rng.chance(0.2)) R.GetBaseRandomQuantity();
    }
    double ones = 0;
    for (char x : b) ones += x;
    double z = binom_z(ones, (double)n, 0.5);
    check(z < Z, "bool-bias", [&] { return num(ones) + " of " + std::to_string(n); });
    double worst = 0;
    for (size_t lag = 1; lag <= 130; lag++)
    {
        double same = 0;
        for (size_t i = lag; i < n; i++) same += b[i] == b[i - lag];
        double zl = binom_z(same, (double)(n - lag), 0.5);
        worst = std::max(worst, zl);
        check(zl < Z, "bool-correlation", [&] { return "lag " + std::to_string(lag) + " equal " + num(same) + " of " + std::to_string(n - lag); });
    }
    // bias at a fixed phase of a hidden bit buffer of any length
    for (size_t period = 2; period <= 64; period++)
        for (size_t ph = 0; ph < period; ph++)
        {
            double k = 0, m = 0;
            for (size_t i = ph; i < n; i += period) { k += b[i]; m++; }
            double zp = binom_z(k, m, 0.5);
            worst = std::max(worst, zp);
            check(zp < Z, "bool-phase-bias", [&] { return "every " + std::to_string(period) + "th draw from " + std::to_string(ph) + ": " + num(k) + " of " + num(m); });
        }
    count("bool draws", n);
    Log::get().sample("bool " + std::to_string(n) + " draws, worst z over lags and phases " + num(worst));
    observe(Hash().add(ones).add(b.size() ? (int)b[0] : 0).add(worst).h);
}

K52_TASK(event, "event")
{
    Random& R = Random::Instance();
    double p;
    switch (index % 6) { case 0: p = 0; break; case 1: p = 1; break; case 2: p = rng.uni(0, 0.02); break; case 3: p = 1 - rng.uni(0, 0.02); break; default: p = rng.uni(); }
    long n = 30000;
    if (index % 40 == 4) { p = std::pow(10, rng.uni(-5, -2)); n = 30000000; }
    double k = 0, same = 0; bool prev = false;
    for (long i = 0; i < n; i++)
    {
        bool r = R.CheckEventOutcome(p);
        k += r;
        if (i) same += (r == prev);
        prev = r;
    }
    count("event draws", (uint64_t)n);
    if (p == 0) check(k <= 2, "event-probability-0", [&] { return num(k) + " times"; });
    else if (p == 1) check(k == (double)n, "event-probability-1", [&] { return num(k) + " of " + std::to_string(n); });
    else
    {
        double z = binom_z(k, (double)n, p);
        check(z < Z, "event-frequency", [&] { return "p=" + num(p) + " happened " + num(k) + " of " + std::to_string(n); });
        double q = p * p + (1 - p) * (1 - p);
        if (p > 0.05 && p < 0.95)
        {
            // variance of the number of equal neighbours of a Bernoulli sequence is at most 3 times the binomial one
            double z2 = binom_z(same, (double)(n - 1), q);
            check(z2 < 2 * Z, "event-serial", [&] { return "p=" + num(p) + " equal neighbours " + num(same); });
        }
    }
    Log::get().sample("event p=" + num(p) + " happened " + num(k) + " of " + std::to_string(n));
    observe(Hash().add(p).add(k).h);
}
K52_MAIN
