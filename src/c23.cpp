// Continuous optimizers: reproducibility and symmetry (C23), convergence (C24), descent and work (C25), bounds (C26),
// random search (C27), grid search (C28), simulated annealing (C29).
#include "opt_run.h"
#include "ga_run.h"
#include "stats.h"
#include "perturb.h"
#include "rare.h"
#include <k52/optimization/discrete_objective_function.h>
#include <k52/optimization/grid_search.h>
#include <k52/optimization/params/int_parameter.h>
#include <algorithm>
using namespace hv;
using namespace opt;
using ga::in_child;
namespace
{
struct Setup { Setup() { case_setup() = [](uint64_t s) { rare_draws(0); k52::common::Random::Instance(); srand((unsigned)s); hv::hardware_threads = 1; hv::perturb_level = 0; }; } } setup;

const char* kind_name(int k) { static const char* n[] = {"HookeJeeves", "Rosenbrock", "ConjugateGradient", "SteepestDescent", "NelderMead"}; return n[k]; }
typedef boost::shared_ptr<Shape> ShapePtr;
ShapePtr random_shape(Rng& rng, size_t n, int kind)
{
    ShapePtr s(new Shape());
    s->kind = kind; s->n = n;
    s->center.resize(n);
    for (double& x : s->center) x = rng.chance(0.1) ? 0 : rng.uni(-3, 3);
    make_quadratic(rng, *s, rng.uni(1, 20));
    s->scale = rng.chance(0.5) ? 1 : std::pow(10, rng.uni(-2, 2));
    s->offset = rng.chance(0.5) ? 0 : rng.uni(-50, 50);
    s->salt = rng.u64();
    return s;
}
// values of any magnitude, alone or on top of a large constant
void any_scale(Rng& rng, Shape& s)
{
    if (!rng.chance(0.4)) return;
    s.scale = std::pow(10, rng.chance(0.7) ? rng.uni(-16, 12) : rng.uni(-250, 250));
    s.offset = rng.chance(0.7) ? 0 : s.scale * rng.uni(-1e6, 1e6);
}
Point random_point(Rng& rng, size_t n, double lo, double hi)
{
    Point p(n);
    bool whole = rng.chance(0.2);
    for (double& x : p) { x = rng.uni(lo, hi); if (whole) x = std::round(x); }
    return p;
}
// equal to the bit, except that all not-a-numbers are alike
bool same(const Point& a, const Point& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) return false;
    return true;
}
std::string differs(const Outcome& a, const Outcome& b)
{
    if (a.thrown != b.thrown) return "one ended with '" + a.thrown + "', the other with '" + b.thrown + "'";
    size_t k = 0;
    while (k < a.points.size() && k < b.points.size() && same(a.points[k], b.points[k])) k++;
    if (k < a.points.size() && k < b.points.size()) return "evaluation " + std::to_string(k) + " at " + show(a.points[k]) + " against " + show(b.points[k]);
    if (a.points.size() != b.points.size()) return std::to_string(a.points.size()) + " evaluations against " + std::to_string(b.points.size());
    if (!same(a.result, b.result)) return "result " + show(a.result) + " against " + show(b.result);
    return "";
}
std::string situation(const Config& c, const Shape& s, const Point& start, bool maximize)
{
    return c.show() + (maximize ? " maximising " : " minimising ") + s.show() + " from " + show(start);
}

// ------------------------------------------------------------------ C23
struct Constrained : ContinuousParametersArray
{
    double limit; size_t index;
    Constrained(size_t n, double l, size_t i) : ContinuousParametersArray(n), limit(l), index(i) {}
    static bool holds(const Point& p, size_t index, double limit) { return p[index] <= limit; }
    bool CheckConstraints() const { return holds(GetValues(), index, limit); }
    Constrained* Clone() const { Constrained* c = new Constrained(GetValues().size(), limit, index); c->SetValues(GetValues()); return c; }
};
struct Discrete : DiscreteObjectiveFunction
{
    long* calls;
    explicit Discrete(long* c) : calls(c) {}
    double operator()(const IDiscreteParameters* const) const { ++*calls; return 0; }
    Discrete* Clone() const { return new Discrete(calls); }
};
K52_TASK(symmetry, "symmetry")
{
    int kind = (int)(index % 5);
    size_t n = (size_t)(rng.chance(0.06) ? rng.range(6, 20) : rng.range(1, 5));
    Config c = random_config(rng, (Kind)kind);
    ShapePtr s = random_shape(rng, n, (int)rng.range(0, 9));
    Point start = random_point(rng, n, -5, 5);
    bool maximize = rng.chance(0.5);
    std::string key = kind_name(kind), what = situation(c, *s, start, maximize);
    const long cap = 60000;
    // the objective as such, in its direction
    Outcome fresh = optimize(*c.make(), s, start, maximize, 1, cap);
    check(fresh.result.size() == n || !fresh.thrown.empty(), "dimension:" + key, [&] { return what + ": result " + show(fresh.result); });
    // its negative in the other one
    Outcome mirror = optimize(*c.make(), s, start, !maximize, -1, cap);
    std::string d = differs(fresh, mirror);
    check(d.empty(), "mirror:" + key, [&] { return what + " against its negative in the other direction: " + d; });
    count("mirrored runs");
    // again, on a used object, on clones
    boost::shared_ptr<ContinuousOptimizer> o = c.make();
    boost::shared_ptr<ContinuousOptimizer> early(o->Clone());
    int uses = (int)rng.range(1, rng.chance(0.03) ? 12 : 3);
    std::string history;
    for (int i = 0; i < uses; i++)
    {
        int use = (int)rng.range(0, 3);
        size_t m = use == 0 ? n : (size_t)rng.range(1, 6);
        ShapePtr t = use == 1 ? s : random_shape(rng, m, (int)rng.range(0, 9));
        if (use == 1) m = n;
        Point from = use == 1 ? start : random_point(rng, m, -5, 5);
        long throw_at = rng.chance(0.3) ? rng.range(0, 60) : -1;
        bool dir = rng.chance(0.5);
        Outcome x = optimize(*o, t, from, dir, 1, cap, throw_at);
        if (throw_at >= 0 && (long)x.points.size() > throw_at)
        {
            check(x.thrown == "objective failure 4711", "objective-exception:" + key, [&] { return situation(c, *t, from, dir) + " with an objective failing in evaluation " + std::to_string(throw_at) + ": " + (x.thrown.empty() ? "no exception" : x.thrown); });
            check((long)x.points.size() == throw_at + 1, "went-on-after-failure:" + key, [&] { return situation(c, *t, from, dir) + ": evaluated further after the objective failed"; });
            count("objective failures");
        }
        history += situation(c, *t, from, dir) + (throw_at >= 0 ? " (failing)" : "") + "; ";
    }
    boost::shared_ptr<ContinuousOptimizer> late(o->Clone());
    Outcome used = optimize(*o, s, start, maximize, 1, cap);
    d = differs(fresh, used);
    check(d.empty(), "reused-object:" + key, [&] { return what + " on an object used for " + history + ": " + d; });
    Outcome a = optimize(*early, s, start, maximize, 1, cap);
    d = differs(fresh, a);
    check(d.empty(), "clone:" + key, [&] { return what + " on a clone: " + d; });
    Outcome b = optimize(*late, s, start, maximize, 1, cap);
    d = differs(fresh, b);
    check(d.empty(), "clone-of-used:" + key, [&] { return what + " on a clone of an object used for " + history + ": " + d; });
    check(o->get_name() == late->get_name() && !o->get_name().empty(), "name:" + key, "the clone has another name");
    count("repeated runs", 3);
    // constraints: no point outside is evaluated
    if (fresh.thrown.empty() && !fresh.points.empty())
    {
        size_t i = (size_t)rng.range(0, (int)n - 1);
        const Point& some = fresh.points[(size_t)rng.range(0, (int64_t)fresh.points.size() - 1)];
        double limit = rng.chance(0.4) ? 1e9 : some[i];
        Constrained p(n, limit, i);
        p.SetValues(start);
        boost::shared_ptr<Trace> t(new Trace());
        t->cap = cap;
        Function f(s, t);
        bool leaves = false;
        for (auto& x : fresh.points) if (!Constrained::holds(x, i, limit)) leaves = true;
        std::string thrown;
        int r = outcome([&] { c.make()->Optimize(static_cast<const IObjectiveFunction&>(f), static_cast<IParameters*>(&p), maximize); }, &thrown);
        unlink("polygon.plot");
        std::string how = what + " with x" + std::to_string(i) + " limited by " + num(limit);
        for (auto& x : t->points) check(Constrained::holds(x, i, limit), "constraint-ignored:" + key, [&] { return how + ": evaluated at " + show(x); });
        if (leaves) { check(r == 1, "constraint-not-reported:" + key, [&] { return how + ": a point outside was needed, but nothing was thrown"; }); count("constraints violated"); }
        else { check(r == 0 && same(p.GetValues(), fresh.result), "constraint-changed-run:" + key, [&] { return how + ", which all points satisfy: " + (r ? thrown : "result " + show(p.GetValues()) + " against " + show(fresh.result)); }); count("constraints held"); }
    }
    // wrong kinds
    if (rng.chance(0.1))
    {
        long calls = 0;
        Discrete df(&calls);
        IntParameter ip(0, 7);
        ContinuousParametersArray p(n);
        p.SetValues(start);
        boost::shared_ptr<Trace> t(new Trace());
        Function f(s, t);
        must_throw("wrong-kind:" + key, "discrete parameters", [&] { o->Optimize(static_cast<const IObjectiveFunction&>(f), static_cast<IParameters*>(&ip), maximize); });
        must_throw("wrong-kind:" + key, "discrete objective", [&] { o->Optimize(static_cast<const IObjectiveFunction&>(df), static_cast<IParameters*>(&p), maximize); });
        check(calls == 0 && t->count == 0 && p.GetValues() == start, "wrong-kind-effects:" + key, "refused call evaluated the objective or moved the parameters");
    }
    observe(Hash().add((uint64_t)fresh.points.size()).add(fresh.result).add(what).h, fresh.points.size() > 3);
    if (Log::get().wants_sample()) Log::get().sample(what + ": " + std::to_string(fresh.points.size()) + " evaluations, result " + show(fresh.result));
}

// random methods from equal random streams
struct RandomRun { bool search; size_t n, iterations; double lo, hi; Point start; };
std::string stochastic(const RandomRun& r, ShapePtr s, bool maximize, double sign, int earlier, uint64_t seed, ShapePtr other)
{
    return in_child([&]
    {
        boost::shared_ptr<ContinuousOptimizer> o;
        if (r.search) o.reset(new RandomSearch(r.iterations, r.lo, r.hi)); else o.reset(new SimulatedAnnealing(r.iterations, r.lo, r.hi));
        for (int i = 0; i < earlier; i++) optimize(*o, other, Point(other->n, 0.5 * (r.lo + r.hi)), i % 2, 1, 1000000, i == 1 ? 3 : -1);
        srand((unsigned)seed);
        Outcome x = optimize(*o, s, r.start, maximize, sign);
        std::string t = x.thrown + "\n";
        t += num(x.result.size() == r.n ? s->value(x.result) : NAN) + "\n";
        for (auto& p : x.points) t += show(p) + "\n";
        return t;
    });
}
K52_TASK(random_methods, "random-methods")
{
    RandomRun r;
    r.search = index % 2; r.n = (size_t)(rng.chance(0.1) ? rng.range(5, 20) : rng.range(1, 4)); r.iterations = (size_t)(rng.chance(0.05) ? rng.range(60, 1500) : rng.range(1, 60));
    r.lo = rng.uni(-5, 0); r.hi = r.lo + rng.uni(0.5, 6);
    r.start = random_point(rng, r.n, r.lo, r.hi);
    for (double& x : r.start) x = std::min(r.hi, std::max(r.lo, x));
    ShapePtr s = random_shape(rng, r.n, (int)rng.range(0, 9)), other = random_shape(rng, (size_t)rng.range(1, 4), (int)rng.range(0, 9));
    bool maximize = rng.chance(0.5);
    uint64_t seed = rng.u64();
    std::string name = r.search ? "RandomSearch" : "SimulatedAnnealing";
    std::string what = name + (maximize ? " maximising " : " minimising ") + s->show() + " in " + num(r.lo) + ".." + num(r.hi);
    std::string a = stochastic(r, s, maximize, 1, 0, seed, other), b = stochastic(r, s, !maximize, -1, 0, seed, other), c = stochastic(r, s, maximize, 1, (int)rng.range(1, 3), seed, other);
    check(a[0] == '\n', "exception:" + name, [&] { return what + ": " + a.substr(0, 200); });
    check(a == b, "mirror:" + name, [&] { return what + ": another course for the negative in the other direction\n" + a.substr(0, 700) + "\n---\n" + b.substr(0, 700); });
    check(a == c, "reused-object:" + name, [&] { return what + ": another course on a used object\n" + a.substr(0, 700) + "\n---\n" + c.substr(0, 700); });
    count("random runs mirrored");
    observe(Hash().add(a).h);
}

// ------------------------------------------------------------------ C24
K52_TASK(convex, "convex")
{
    int kind = (int)(index % 5);
    size_t n = (size_t)(kind != HR && kind != NM && rng.chance(0.1) ? rng.range(6, 12) : rng.range(1, 5));
    ShapePtr s(new Shape());
    s->n = n; s->center = random_point(rng, n, -3, 3);
    Config c;
    c.kind = (Kind)kind;
    double condition = 50, tolerance = 0;
    switch (kind)
    {
    case HJ: c.a = rng.pick(std::vector<double>{1.5, 2, 2.5}); c.b = rng.uni(0.2, 1); c.n = 100000; c.c = 1e-6; c.d = rng.uni(1.6, 3); tolerance = 1e-7; break;
    case HR: c.a = 1e-6; c.n = 20000; c.b = 0.1; c.c = 1; condition = 2; tolerance = n == 3 ? 3 : n == 4 ? 0.1 : 1e-5; break;
    case CG: c.a = 1e-4; c.b = 1e-4; c.n = 1000; tolerance = 1e-6; break;
    case SD: c.a = 1e-5; c.n = 5000; c.b = 1e-6; tolerance = 1e-7; break;
    case NM: c.a = rng.uni(0.5, 1.5); c.b = 1e-10; c.c = -rng.uni(40, 60); c.d = rng.uni(40, 60); tolerance = 1e-3; break;
    }
    make_quadratic(rng, *s, rng.uni(1, condition));
    s->offset = rng.chance(0.5) ? 0 : rng.uni(-10, 10);
    Point start = rng.chance(0.05) ? s->center : random_point(rng, n, -5, 5);
    bool maximize = rng.chance(0.5);
    std::string what = situation(c, *s, start, maximize);
    if (maximize) { for (auto& row : s->matrix) for (double& x : row) x = -x; }
    Outcome o = optimize(*c.make(), s, start, maximize, 1, 3000000, -1, false);
    check(o.thrown.empty(), std::string("exception:") + kind_name(kind), [&] { return what + ": " + o.thrown; });
    check(o.result.size() == n && finite(o.result), std::string("result:") + kind_name(kind), [&] { return what + ": result " + show(o.result); });
    double gap = std::fabs(s->value(o.result) - s->offset);
    check(gap <= tolerance, std::string("optimum-missed:") + kind_name(kind), [&] { return what + ": " + num(gap) + " away from the optimal value, at " + show(o.result); });
    peak(std::string("gap times 1e12 of ") + kind_name(kind), (uint64_t)(gap * 1e12));
    count("optima reached");
    observe(Hash().add(o.result).add(start).h);
    if (Log::get().wants_sample()) Log::get().sample(what + ": gap " + num(gap));
}

// a method that stops by itself has reached what its precision stands for: a gradient no longer than it, no better
// neighbour within the last step, values no more than it apart (which a simplex can meet by coincidence: majority of several)
K52_TASK(precision, "precision")
{
    static const Kind kinds[] = {HJ, CG, SD, NM};
    Kind kind = kinds[index % 4];
    size_t n = (size_t)rng.range(1, kind == NM ? 5 : 8);
    int runs = kind == NM ? 9 : 1, missed = 0;
    bool maximize = rng.chance(0.5), large_offset = kind == NM && rng.chance(0.5);
    if (large_offset) count("runs with values large beside their differences", runs);
    Hash h;
    std::string what;
    for (int k = 0; k < runs; k++)
    {
        ShapePtr s(new Shape());
        s->n = n; s->center = random_point(rng, n, -3, 3);
        make_quadratic(rng, *s, rng.uni(1, 50));
        s->scale = std::pow(10, kind == NM ? rng.uni(-1, 5) : rng.uni(-3, 5));
        s->offset = rng.chance(0.5) || kind == CG ? 0 : rng.uni(-10, 10) * std::min(1.0, s->scale);   // its rounding does not drown the differences
        Config c;
        c.kind = kind;
        double p, bound = 0, trace = 0;
        for (size_t j = 0; j < n; j++) trace += s->matrix[j][j] * s->matrix[j][j];
        switch (kind)
        {
        case HJ: p = std::pow(10, rng.uni(-6, -1)); c.a = rng.chance(0.3) ? 2 : rng.chance(0.5) ? rng.uni(1.5, 1.98) : rng.uni(2.02, 2.5) /* just beside two it crawls to its iteration limit */; c.b = rng.uni(0.2, 1); c.n = 100000; c.c = p; c.d = rng.uni(1.6, 3); bound = s->scale * trace * p * p * c.d * c.d / 4; break;
        case CG: p = std::pow(10, rng.uni(-4, -1)); c.a = p; c.b = 1e-4; c.n = 1000; bound = p * p / 4 / s->scale; break;
        case SD: p = std::pow(10, rng.uni(-5, -1)); c.a = 1e-5; c.n = 5000; c.b = p; bound = p * p / 4 / s->scale; break;
        default: p = std::pow(10, rng.uni(-7, 0)); c.a = rng.uni(0.5, 1.5); c.b = p; c.c = -rng.uni(40, 60); c.d = rng.uni(40, 60); bound = 300 * p;
            if (large_offset) s->offset = (rng.chance(0.5) ? 1 : -1) * p * std::pow(10, rng.uni(8, 13));   // large beside the differences that matter
            break;
        }
        Point start = random_point(rng, n, -5, 5);
        what = situation(c, *s, start, maximize);
        if (maximize) for (auto& row : s->matrix) for (double& x : row) x = -x;
        Outcome o = optimize(*c.make(), s, start, maximize, 1, 3000000, -1, false);
        check(o.thrown.empty(), std::string("exception:") + kind_name(kind), [&] { return what + ": " + o.thrown; });
        double gap = std::fabs(s->value(o.result) - s->offset), limit = 1.1 * bound + 1e-14 * (std::fabs(s->offset) + s->scale);
        bool far = !(gap <= limit);
        missed += far;
        what += ": " + num(gap) + " away from the optimal value, the precision stands for " + num(bound);
        if (kind != NM) check(!far, std::string("precision-missed:") + kind_name(kind), [&] { return what; });
        h.add(o.result);
        peak(std::string("gap per thousand of what the precision stands for: ") + kind_name(kind), (uint64_t)std::min(1e9, gap / limit * 1000));
        count(std::string("precisions reached by ") + kind_name(kind));
    }
    check(missed <= runs / 2, std::string("precision-missed:") + kind_name(kind), [&] { return std::to_string(missed) + " of " + std::to_string(runs) + " runs, the last being " + what; });
    observe(h.h);
    if (Log::get().wants_sample()) Log::get().sample(what);
}

// ------------------------------------------------------------------ C25
K52_TASK(descent, "descent")
{
    int kind = (int)(index % 6);
    size_t n = (size_t)(rng.chance(0.1) ? rng.range(6, 15) : rng.range(1, 5));
    int shape = (int)rng.range(0, 9);
    ShapePtr s = random_shape(rng, n, shape);
    Point start = rng.chance(0.1) ? s->center : random_point(rng, n, -5, 5);
    bool maximize = rng.chance(0.5);
    double sign = maximize ? -1 : 1;        // bounded in the direction of optimisation
    if (kind == 5)
    {
        size_t iterations = (size_t)rng.range(1, 100);
        SimulatedAnnealing sa(iterations, -5, 5);
        Outcome o = optimize(sa, s, start, maximize, sign);
        std::string what = "SimulatedAnnealing of " + std::to_string(iterations) + " iterations on " + s->show();
        check(o.thrown.empty(), "exception:SimulatedAnnealing", [&] { return what + ": " + o.thrown; });
        check(o.points.size() <= 2 * iterations + 2, "work:SimulatedAnnealing", [&] { return what + ": " + std::to_string(o.points.size()) + " evaluations"; });
        check(o.result.size() == n && finite(o.result), "result:SimulatedAnnealing", [&] { return what + ": " + show(o.result); });
        observe(Hash().add(o.result).h);
        count("runs within their work");
        return;
    }
    Config c = random_config(rng, (Kind)kind);
    // steps never grow again: a slope between two jumps is walked down at the step that fitted there
    if (kind == HJ && shape == 9) c.c = std::max(c.c, 1e-3);
    std::string what = situation(c, *s, start, maximize), key = kind_name(kind);
    double N = (double)c.n, dd = (double)n, limit = 0;
    switch (kind)
    {
    case HJ: limit = 10000000; break;                          // ends at all
    case HR: limit = N * (2 * dd + 2) + 10; break;
    case CG: limit = (N + 1) * (3 * N + 2 * dd + 3) + 4 * dd + 10; break;
    case SD: limit = (N + 1) * (10000 + 8 * dd); break;
    case NM: limit = (1000 * dd + 2) * (dd + 4) + 2 * dd + 10; break;
    }
    Outcome o = optimize(*c.make(), s, start, maximize, sign, (long)limit);
    check(o.thrown != "too much work", "work:" + key, [&] { return what + ": more than " + num(limit) + " evaluations"; });
    check(o.thrown.empty(), "exception:" + key, [&] { return what + ": " + o.thrown; });
    check(o.result.size() == n && finite(o.result), "result:" + key, [&] { return what + ": " + show(o.result); });
    count("runs within their work");
    if (kind == HJ || kind == NM)
    {
        Point from = start;
        if (kind == NM) for (double& x : from) x = std::min(c.d, std::max(c.c, x));
        double at_start = s->value(from), at_end = s->value(o.result), best = at_start;
        for (auto& p : o.points) best = std::min(best, s->value(p));
        check(at_end <= at_start, "worse-than-start:" + key, [&] { return what + ": value " + num(sign * at_end) + " at " + show(o.result) + ", at the start it was " + num(sign * at_start); });
        check(at_end <= best, "best-lost:" + key, [&] { return what + ": value " + num(sign * at_end) + " at " + show(o.result) + ", but " + num(sign * best) + " had been seen"; });
        count("descents compared");
        if (at_end < at_start) count("descents that improved");
        peak("evaluations of " + key, o.points.size());
    }
    observe(Hash().add(o.result).add((uint64_t)o.points.size()).h, o.points.size() > 3);
}

// ------------------------------------------------------------------ C26
bool inside(const Point& p, double lo, double hi) { for (double x : p) if (!(x >= lo && x <= hi)) return false; return true; }
struct TestGrid : GridSearch
{
    TestGrid(double p, double l, double h) : GridSearch(p, l, h) {}
};
K52_TASK(bounds, "bounds")
{
    int kind = (int)(index % 4);
    size_t n = (size_t)rng.range(1, kind == 3 ? 3 : 6);
    double lo = rng.chance(0.2) ? rng.uni(1, 3) : -rng.uni(0, 6), width = rng.chance(0.2) ? std::pow(10, -rng.uni(0, 5)) : rng.uni(0.1, 10), hi = lo + width;
    if (rng.chance(0.2)) { lo = std::floor(lo); hi = lo + (double)rng.range(1, 8); }
    double grid_step = 0;
    if (kind == 3)      // exactly representable lattice
    {
        int e = (int)rng.range(-2, 3);
        grid_step = std::ldexp(1.0, -e);
        lo = (double)rng.range(-20, 20) * grid_step;
        hi = lo + (double)rng.range(0, n == 1 ? 200 : n == 2 ? 20 : 8) * grid_step + (rng.chance(0.5) ? grid_step / 4 : 0);
        if (rng.chance(0.6))    // decimal bounds and steps, whose multiples are rounded
        {
            static const double steps[] = {0.1, 0.2, 0.05, 0.3, 0.01, 0.7, 1.1};
            grid_step = steps[rng.range(0, n == 1 ? 6 : 1)];
            if (rng.chance(0.2)) grid_step = rng.uni(0.1, 1);
            long from = rng.range(-60, 50);
            lo = (double)from / 10; hi = (double)(from + rng.range(0, n == 1 ? 60 : n == 2 ? 30 : 9)) / 10;
            if (rng.chance(0.3)) hi = lo + (double)rng.range(0, 9) * grid_step;
            count("grids with decimal bounds");
        }
    }
    ShapePtr s = random_shape(rng, n, (int)rng.range(0, 10));
    Point start(n);
    for (double& x : start) { int w = (int)rng.range(0, 4); x = w == 0 ? lo : w == 1 ? hi : std::min(hi, std::max(lo, rng.uni(lo, hi))); }
    bool outside = kind == 0 && rng.chance(0.15);
    if (outside) start[(size_t)rng.range(0, (int)n - 1)] = rng.chance(0.5) ? hi + rng.uni(0, 3) : lo - rng.uni(0, 3);
    bool maximize = rng.chance(0.5);
    std::string name, what;
    Outcome o;
    rare_draws(rng.chance(0.5) ? rng.uni(0, 0.1) : 0);
    uint64_t made = rare().made;
    if (kind == 0)
    {
        double l = rng.chance(0.3) ? width * rng.uni(0.5, 20) : rng.uni(0.01, 3);
        BoundedNelderMead nm(l, std::pow(10, -rng.uni(1, 9)), lo, hi);
        name = "NelderMead"; what = "edge " + num(l);
        o = optimize(nm, s, start, maximize, 1, 400000);
        check(nm.get_lower_bound() == lo && nm.get_upper_bound() == hi, "bounds-kept", "the bounds reported are not the ones given");
    }
    else if (kind == 1)
    {
        SimulatedAnnealing sa((size_t)rng.range(1, 300), lo, hi);
        name = "SimulatedAnnealing";
        o = optimize(sa, s, start, maximize, 1);
    }
    else if (kind == 2)
    {
        name = "RandomSearch";
        bool inner = rng.chance(0.4);
        BoundedNelderMead nm(rng.uni(0.01, 3), 1e-4, lo, hi);
        RandomSearch rs((size_t)rng.range(1, inner ? 10 : 300), lo, hi, inner ? &nm : nullptr);
        if (inner) what = "with Nelder-Mead inside";
        o = optimize(rs, s, start, maximize, 1);
    }
    else
    {
        name = "GridSearch"; what = "step " + num(grid_step);
        boost::shared_ptr<Trace> t(new Trace());
        Function f(s, t);
        ContinuousParametersArray p(n);
        p.SetValues(start);
        TestGrid g(grid_step, lo, hi);
        try { g.Optimize(f, &p, maximize); } catch (const std::exception& e) { o.thrown = e.what(); }
        o.result = p.GetValues();
        o.points = t->points;
    }
    what = name + " " + what + (maximize ? " maximising " : " minimising ") + s->show() + " in " + num(lo) + ".." + num(hi) + " from " + show(start);
    check(o.thrown.empty(), "exception:" + name, [&] { return what + ": " + o.thrown; });
    for (auto& p : o.points) check(inside(p, lo, hi), "evaluated-outside:" + name, [&] { return what + ": evaluated at " + show(p); });
    check(o.result.size() == n && inside(o.result, lo, hi), "result-outside:" + name, [&] { return what + ": result " + show(o.result); });
    if (rare().made > made) count("runs with rare random values");
    rare_draws(0);
    long faces = 0;
    for (auto& p : o.points) for (double x : p) if (x == lo || x == hi) { faces++; break; }
    count("evaluations within bounds", o.points.size());
    count("evaluations on a face", faces);
    count(name + " runs");
    observe(Hash().add(o.result).add((uint64_t)o.points.size()).h, o.points.size() > 3);
}

// ------------------------------------------------------------------ C27
K52_TASK(search, "search")
{
    size_t n = (size_t)(rng.chance(0.1) ? rng.range(6, 40) : rng.range(1, 5)), points = rng.chance(0.1) ? 1 : rng.chance(0.1) ? (size_t)rng.range(400, 4000) : rng.chance(0.01) ? (size_t)rng.range(4000, 70000) : (size_t)rng.range(1, 400);
    double lo = rng.chance(0.3) ? -1 : rng.uni(-20, 10), hi = lo + (rng.chance(0.2) ? 1e-3 : rng.uni(0.1, 30));
    bool few = rng.chance(0.06);                 // bounds that hold one or a few numbers: points recur
    if (few) { hi = lo; for (int k = (int)rng.range(0, 3); k > 0; k--) hi = std::nextafter(hi, 100.0); count("searches among a few points"); }
    ShapePtr s = random_shape(rng, n, (int)rng.range(0, 10));
    any_scale(rng, *s);
    bool maximize = rng.chance(0.5);
    hv::hardware_threads = (unsigned)rng.range(1, 6);
    boost::shared_ptr<RandomSearch> rs(new RandomSearch(points, lo, hi));
    std::string how = "RandomSearch of " + std::to_string(points) + " points" + (maximize ? " maximising " : " minimising ") + s->show() + " in " + num(lo) + ".." + num(hi);
    int runs = (int)rng.range(1, 3);
    for (int k = 0; k < runs; k++)
    {
        Outcome o = optimize(*rs, s, Point(n, lo), maximize, 1);
        check(o.thrown.empty(), "exception", [&] { return how + ": " + o.thrown; });
        check(o.points.size() == points, "number-of-points", [&] { return how + ": " + std::to_string(o.points.size()) + " evaluations"; });
        std::set<Point> distinct(o.points.begin(), o.points.end());
        check(few || (double)distinct.size() + (n == 1 ? 3 + 12 * std::ldexp((double)points * (double)points, -32) : 0) >= (double)points, "points-repeated", [&] { return how + ": only " + std::to_string(distinct.size()) + " distinct points"; });
        check(distinct.count(o.result) == 1, "result-not-drawn", [&] { return how + ": result " + show(o.result) + " was not drawn"; });
        double best = o.values[0];
        for (double v : o.values) best = maximize ? std::max(best, v) : std::min(best, v);
        double got = s->value(o.result);
        check(got == best, "not-the-best", [&] { return how + ": result of value " + num(got) + ", but the best drawn had " + num(best); });
        count("searches"); count("points drawn", points);
        observe(Hash().add(o.result).h);
    }
}
K52_TASK(search_law, "search-law")
{
    size_t n = (size_t)(rng.chance(0.7) ? rng.range(1, 5) : rng.range(6, 14)), points = (size_t)rng.range(1000, 3000);
    double lo = rng.uni(-20, 10), hi = lo + rng.uni(0.1, 30);
    ShapePtr s = random_shape(rng, n, 0);
    bool inner = rng.chance(0.3);
    RandomSearch rs(points, lo, hi);
    std::vector<Point> all;
    for (int k = 0; k < 4; k++)
    {
        Outcome o = optimize(rs, s, Point(n, lo), rng.chance(0.5), 1);
        all.insert(all.end(), o.points.begin(), o.points.end());
    }
    std::string how = "points drawn by RandomSearch in " + num(lo) + ".." + num(hi) + ", dimension " + std::to_string(n);
    double m = (double)all.size();
    for (size_t i = 0; i < n; i++)
    {
        std::vector<long> cells(20, 0);
        for (auto& p : all) { double u = (p[i] - lo) / (hi - lo); cells[(size_t)std::min(19.0, std::max(0.0, std::floor(u * 20)))]++; }
        double z = chi2_uniform_z(cells);
        check(z < 7.5, "not-uniform", [&] { return how + ": coordinate " + std::to_string(i) + " is not uniform, z " + num(z) + " " + show(cells, 20); });
        for (size_t j = 0; j < i; j++)
        {
            std::vector<long> grid(25, 0);
            for (auto& p : all)
            {
                size_t a = (size_t)std::min(4.0, std::floor((p[i] - lo) / (hi - lo) * 5)), b = (size_t)std::min(4.0, std::floor((p[j] - lo) / (hi - lo) * 5));
                grid[a * 5 + b]++;
            }
            double zz = chi2_uniform_z(grid);
            check(zz < 7.5, "not-independent", [&] { return how + ": coordinates " + std::to_string(j) + " and " + std::to_string(i) + " depend, z " + num(zz) + " " + show(grid, 25); });
            count("pairs of coordinates tested");
        }
        // successive draws
        double c = 0;
        for (size_t k = 1; k < all.size(); k++) c += ((all[k][i] - lo) / (hi - lo) - 0.5) * ((all[k - 1][i] - lo) / (hi - lo) - 0.5) * 12;
        double zs = std::fabs(c) / std::sqrt(m);
        check(zs < 7.5, "successive-draws-depend", [&] { return how + ": coordinate " + std::to_string(i) + " of successive points correlates, z " + num(zs); });
        count("coordinates tested");
    }
    (void)inner;
    observe(Hash().add(all[0]).h);
}
// an optimizer that records what it is started with
struct InnerLog { std::mutex m; std::vector<Point> starts; std::map<Point, Point> results; std::vector<bool> directions; long live = 0; };
struct Inner : ContinuousOptimizer
{
    InnerLog* log; int mode; boost::shared_ptr<ContinuousOptimizer> real; long throw_at;
    Inner(InnerLog* l, int m, boost::shared_ptr<ContinuousOptimizer> r, long t) : log(l), mode(m), real(r), throw_at(t) { std::lock_guard<std::mutex> g(log->m); log->live++; }
    ~Inner() { std::lock_guard<std::mutex> g(log->m); log->live--; }
    Inner* Clone() const { return new Inner(log, mode, real ? boost::shared_ptr<ContinuousOptimizer>(real->Clone()) : real, throw_at); }
    std::string get_name() const { return "inner"; }
    Point FindOptimalParameters(const Point& start)
    {
        Point r = start;
        {
            std::lock_guard<std::mutex> g(log->m);
            if ((long)log->starts.size() == throw_at) throw std::domain_error("inner failure 815");
            log->starts.push_back(start);
            log->directions.push_back(get_maximize());
        }
        if (mode == 0) for (double& x : r) x = std::round(x * 4) / 4;                   // ties
        else if (mode == 1) for (double& x : r) x = -x / 2;
        else
        {
            ContinuousParametersArray p(start.size());
            p.SetValues(start);
            real->Optimize(*static_cast<const IObjectiveFunction*>(get_function_to_optimize()), static_cast<IParameters*>(&p), get_maximize());
            r = p.GetValues();
        }
        std::lock_guard<std::mutex> g(log->m);
        log->results[start] = r;
        return r;
    }
};
K52_TASK(search_inner, "search-inner")
{
    size_t n = (size_t)rng.range(1, 4), points = (size_t)rng.range(1, 40);
    double lo = rng.uni(-5, 0), hi = lo + rng.uni(1, 6);
    ShapePtr s = random_shape(rng, n, (int)rng.range(0, 9));
    bool maximize = rng.chance(0.4);
    double sign = maximize ? -1 : 1;
    int mode = (int)rng.range(0, 2);
    hv::hardware_threads = (unsigned)rng.range(1, 6);
    hv::perturb_level = (int)rng.range(0, 2);
    hv::perturb_seed = rng.u64();
    Config c = random_config(rng, rng.chance(0.5) ? HJ : CG);
    InnerLog log;
    long throw_at = rng.chance(0.15) ? rng.range(0, (int64_t)points - 1) : -1;
    std::string how = "RandomSearch of " + std::to_string(points) + " points with an inner optimizer (mode " + std::to_string(mode) + (mode == 2 ? " " + c.show() : "") + ")" + (maximize ? " maximising " : " minimising ") + s->show();
    {
        Inner inner(&log, mode, mode == 2 ? c.make() : boost::shared_ptr<ContinuousOptimizer>(), throw_at);
        RandomSearch rs(points, lo, hi, &inner);
        int runs = throw_at >= 0 ? 1 : (int)rng.range(1, 2);
        for (int k = 0; k < runs; k++)
        {
            log.starts.clear(); log.results.clear(); log.directions.clear();
            Outcome o = optimize(rs, s, Point(n, lo), maximize, sign);
            if (throw_at >= 0)
            {
                check(o.thrown == "inner failure 815", "inner-exception", [&] { return how + ": the inner optimizer failed, the search ended with '" + o.thrown + "'"; });
                count("inner failures");
                break;
            }
            check(o.thrown.empty(), "exception", [&] { return how + ": " + o.thrown; });
            check(log.starts.size() == points, "inner-starts", [&] { return how + ": the inner optimizer was started " + std::to_string(log.starts.size()) + " times"; });
            std::set<Point> distinct(log.starts.begin(), log.starts.end());
            check(distinct.size() == points, "inner-starts-repeated", [&] { return how + ": started from only " + std::to_string(distinct.size()) + " distinct points"; });
            for (auto& p : log.starts) check(inside(p, lo, hi) && p.size() == n, "inner-start-outside", [&] { return how + ": started at " + show(p); });
            for (bool d : log.directions) check(d == maximize, "inner-direction", [&] { return how + ": the inner optimizer was asked for the other direction"; });
            bool found = false;
            double best = INFINITY;
            for (auto& r : log.results) { if (r.second == o.result) found = true; best = std::min(best, s->value(r.second)); }
            check(found, "inner-result", [&] { return how + ": the result " + show(o.result) + " is no result of the inner optimizer"; });
            check(s->value(o.result) <= best, "inner-not-the-best", [&] { return how + ": value " + num(sign * s->value(o.result)) + ", but the best result of the inner optimizer had " + num(sign * best); });
            count("inner searches"); count("inner starts", points);
            observe(Hash().add(o.result).h, points > 1);
        }
    }
    check(log.live == 0, "inner-clones-alive", [&] { return how + ": " + std::to_string(log.live) + " clones of the inner optimizer are left"; });
    if (rng.chance(0.1))
    {
        RandomSearch none(0, lo, hi);
        Outcome o = optimize(none, s, Point(n, lo), maximize, 1);
        check(!o.thrown.empty() && o.points.empty(), "no-points", "a search of no points was not refused");
        count("rejections observed");
    }
}

// ------------------------------------------------------------------ C28
K52_TASK(grid, "grid")
{
    size_t n = rng.chance(0.03) ? 0 : (size_t)(rng.chance(0.1) ? rng.range(5, 9) : rng.range(1, 4));
    int e = (int)rng.range(-2, 4);
    double step = std::ldexp(1.0, -e);
    static const int sizes[] = {400, 400, 24, 8, 5, 4, 3, 2, 2, 2}, large[] = {2000, 20000, 150, 30, 12, 8, 5, 4, 3, 3};
    long per = rng.range(1, rng.chance(0.04) ? large[n] : sizes[n]);
    double lo = (double)rng.range(-40, 40) * step / (rng.chance(0.3) ? 4 : 1), hi = lo + (double)(per - 1) * step + (rng.chance(0.5) ? step * (rng.chance(0.5) ? 0.5 : 0.25) : 0);
    // steps that are rounded: the points are compared up to rounding
    bool rounded = rng.chance(0.3);
    if (rounded)
    {
        step = rng.chance(0.5) ? 1.0 / (double)rng.range(3, 60) : rng.uni(0.01, 3);
        lo = rng.chance(0.5) ? rng.uni(-9, 9) : (double)rng.range(-50, 50) / 10;
        double part = rng.uni(0.1, 0.9);
        if (rng.chance(0.5)) { part = std::pow(10, -rng.uni(1, 7)); if (rng.chance(0.7)) part = 1 - part; }    // misses a whole number of steps by little
        hi = lo + ((double)(per - 1) + part) * step;
        count("lattices with rounded steps");
    }
    // decimal bounds that are whole steps apart: rounding may place the last point beyond the bound or not
    bool whole = !rounded && rng.chance(0.2);
    if (whole)
    {
        rounded = true;
        step = (double)rng.range(1, 30) / (rng.chance(0.5) ? 10 : 100);
        lo = (double)rng.range(-60, 60) / 10;
        hi = rng.chance(0.5) ? lo + (double)(per - 1) * step : std::round((lo + (double)(per - 1) * step) * 100) / 100;
        count("lattices with decimal steps");
    }
    ShapePtr s = random_shape(rng, n, rng.chance(0.3) ? 2 : (int)rng.range(0, 10));
    any_scale(rng, *s);
    if (n == 0) s->kind = 5;
    bool maximize = rng.chance(0.5);
    hv::hardware_threads = (unsigned)rng.range(1, 6);
    boost::shared_ptr<Trace> t(new Trace());
    Function f(s, t);
    ContinuousParametersArray p(n);
    p.SetValues(random_point(rng, n, -5, 5));
    TestGrid g(step, lo, hi);
    int runs = (int)rng.range(1, 2);
    std::string how = "GridSearch with step " + num(step) + " in " + num(lo) + ".." + num(hi) + ", dimension " + std::to_string(n) + (maximize ? ", maximising " : ", minimising ") + s->show();
    for (int k = 0; k < runs; k++)
    {
        t->clear();
        g.Optimize(f, &p, maximize);
        std::map<Point, int> seen;
        for (auto x : t->points)
        {
            if (rounded)
                for (double& c : x)
                {
                    double exact = lo + std::round((c - lo) / step) * step;
                    if (std::fabs(c - exact) <= (1e-13 + (double)per * 5e-16) * (std::fabs(lo) + std::fabs(hi))) c = exact;
                }
            seen[x]++;
        }
        if (whole)
        {
            long most = per;
            per = 0;
            for (auto& x : seen) for (double c : x.first) per = std::max(per, std::lround((c - lo) / step) + 1);
            if (n == 0) per = most;
            check(per == most || per == most - 1, "point-skipped", [&] { return how + ": " + std::to_string(per) + " points per dimension instead of " + std::to_string(most); });
            if (n > 0 && most == 1) check(per == 1, "point-skipped", [&] { return how; });
        }
        std::vector<Point> lattice(1);
        for (size_t i = 0; i < n; i++)
        {
            std::vector<Point> next;
            for (auto& x : lattice) for (long v = 0; v < per; v++) { Point y = x; y.push_back(lo + (double)v * step); next.push_back(y); }
            lattice.swap(next);
        }
        double best = maximize ? -INFINITY : INFINITY;
        for (auto& x : lattice)
        {
            auto it = seen.find(x);
            check(it != seen.end(), "point-skipped", [&] { return how + ": lattice point " + show(x) + " was not evaluated"; });
            check(it->second == 1, "point-repeated", [&] { return how + ": lattice point " + show(x) + " was evaluated " + std::to_string(it->second) + " times"; });
            double v = s->value(x);
            if (!rounded) best = maximize ? std::max(best, v) : std::min(best, v);
        }
        if (rounded) for (double v : t->values) best = maximize ? std::max(best, v) : std::min(best, v);
        check(seen.size() == lattice.size(), "point-off-lattice", [&] { return how + ": " + std::to_string(seen.size()) + " points evaluated, the lattice has " + std::to_string(lattice.size()); });
        Point r = p.GetValues();
        check(std::find(t->points.begin(), t->points.end(), r) != t->points.end(), "result-off-lattice", [&] { return how + ": result " + show(r); });
        check(s->value(r) == best, "not-the-best", [&] { return how + ": result " + show(r) + " of value " + num(s->value(r)) + ", the best of the lattice has " + num(best); });
        count("lattices"); count("lattice points", lattice.size());
        observe(Hash().add(r).add(lo).add(hi).add(step).h, lattice.size() > 1);
        maximize = !maximize;
    }
    if (rng.chance(0.2))
    {
        double bad[4][3] = {{step, hi + 1, lo - 1}, {0, lo, lo + 1}, {-step, lo, lo + 2 * step}, {NAN, lo, hi}};
        double* b = bad[rng.range(0, 3)];
        t->clear();
        TestGrid x(b[0], b[1], b[2]);
        ContinuousParametersArray q(2);
        must_throw("grid-refusal", "step " + num(b[0]) + ", bounds " + num(b[1]) + ".." + num(b[2]), [&] { x.Optimize(f, &q, maximize); });
        IntParameter ip(0, 7);
        must_throw("grid-refusal", "discrete parameters", [&] { g.Optimize(f, &ip, maximize); });
        check(t->count == 0, "grid-refusal", "a refused search evaluated the objective");
    }
}

// ------------------------------------------------------------------ C29
K52_TASK(annealing, "annealing")
{
    size_t n = (size_t)(rng.chance(0.2) ? rng.range(6, 40) : rng.range(1, 5)), N = rng.chance(0.3) ? (size_t)rng.range(1, 30) : (size_t)rng.range(500, 3000);
    double lo = rng.uni(-5, 0), hi = lo + rng.uni(0.5, 6);
    ShapePtr s = random_shape(rng, n, (int)rng.range(0, 9));
    s->scale = 1; s->offset = rng.chance(0.5) ? 0 : rng.uni(-5, 5);
    {   // differences comparable to the temperature
        double a = INFINITY, b = -INFINITY;
        for (int i = 0; i < 50; i++) { Point x = random_point(rng, n, lo, hi); double v = s->value(x); a = std::min(a, v); b = std::max(b, v); }
        double f = b - a > 1e-9 ? (rng.chance(0.3) ? std::pow(10, rng.uni(-6, 5)) : rng.uni(0.3, 5)) / (b - a) : 1;
        s->scale = f;
    }
    bool maximize = rng.chance(0.5);
    double sign = maximize ? -1 : 1;
    Point start(n);
    for (double& x : start) x = std::min(hi, std::max(lo, rng.uni(lo, hi)));
    SimulatedAnnealing sa(N, lo, hi);
    std::string how = "SimulatedAnnealing of " + std::to_string(N) + " iterations" + (maximize ? " maximising " : " minimising ") + s->show() + " in " + num(lo) + ".." + num(hi) + " from " + show(start);
    struct Band { double expected = 0, variance = 0, accepted = 0; long k = 0; };
    std::vector<Band> bands(10);
    std::vector<Band> steep(6);
    std::vector<long> cells(10, 0), chosen(n, 0);
    long flat = 0;
    int runs = (int)rng.range(1, 3);
    for (int run = 0; run < runs; run++)
    {
        Outcome o = optimize(sa, s, start, maximize, sign);
        check(o.thrown.empty(), "exception", [&] { return how + ": " + o.thrown; });
        size_t E = o.points.size();
        // the walk: at each iteration the current point and a proposal, in some order, or the proposal only
        std::vector<Point> proposals, currents;
        std::vector<char> accepted_of;
        Point cur = start;
        bool both = E == 2 * N;
        if (both)
        {
            Point last;
            for (size_t i = 0; i < N; i++)
            {
                const Point &a = o.points[2 * i], &b = o.points[2 * i + 1];
                bool a_cur = a == cur || (i && a == last), b_cur = b == cur || (i && b == last);
                check(a_cur || b_cur, "not-a-walk", [&] { return how + ": iteration " + std::to_string(i + 1) + " evaluates " + show(a) + " and " + show(b) + ", the current point can be " + show(cur) + (i ? " or " + show(last) : ""); });
                cur = a_cur ? a : b;
                last = a_cur ? b : a;
                currents.push_back(cur);
                proposals.push_back(last);
            }
            currents.push_back(o.result);
            check(o.result == cur || o.result == last, "result-not-of-the-walk", [&] { return how + ": result " + show(o.result) + ", the last step was between " + show(cur) + " and " + show(last); });
        }
        else
        {
            // values of the current point are remembered: every proposal is evaluated, the walk follows from their coordinates
            if (E == N + 1 || E == N) proposals.assign(o.points.begin() + (E == N + 1 ? 1 : 0), o.points.end());
            else
            {
                std::set<Point> before = {start};
                for (auto& p : o.points) if (before.insert(p).second) proposals.push_back(p);
            }
            check(proposals.size() == N, "number-of-proposals", [&] { return how + ": " + std::to_string(proposals.size()) + " proposals in " + std::to_string(E) + " evaluations"; });
            bool found = o.result == start;
            for (auto& p : proposals) if (p == o.result) found = true;
            check(found, "result-not-of-the-walk", [&] { return how + ": result " + show(o.result); });
            std::vector<Point> possible = {start};  // what the current point may be
            currents.assign(N + 1, Point());        // empty where not certain
            std::vector<size_t> which(N, 0);
            for (size_t i = 0; i < N; i++)
            {
                std::vector<Point> fits;
                for (auto& c : possible)
                {
                    size_t diff = 0, w = 0;
                    for (size_t j = 0; j < n; j++) if (proposals[i][j] != c[j]) { diff++; w = j; }
                    if (diff == 1) { fits.push_back(c); which[i] = w; }
                }
                check(!fits.empty(), "not-a-neighbour", [&] { return how + ": proposal " + show(proposals[i]) + " is no neighbour of what the current point can be, such as " + show(possible[0]); });
                if (fits.size() == 1) currents[i] = fits[0];
                possible = fits;
                possible.push_back(proposals[i]);
                if (possible.size() > 20 && n == 1) possible.erase(possible.begin());
            }
            bool reached = n == 1;
            for (auto& c : possible) reached |= c == o.result;
            check(reached, "result-not-of-the-walk", [&] { return how + ": result " + show(o.result) + ", the walk ends on " + show(possible.back()) + " or before it"; });
            currents[N] = o.result;
            // which steps are judged must not depend on what they did: the coordinate changed differs from the steps beside
            std::vector<Point> judged(N + 1);
            for (size_t i = 0; i < N; i++)
                if ((i == 0 || which[i - 1] != which[i]) && (i + 1 == N || which[i + 1] != which[i])) judged[i] = currents[i];
            std::vector<char> taken(N, 0);
            for (size_t i = 0; i < N; i++)
                if (!judged[i].empty())
                {
                    const Point& next = i + 1 == N ? o.result : currents[i + 1];
                    if (next.empty()) judged[i].clear();
                    else taken[i] = next == proposals[i];
                }
            for (size_t i = 0; i < N; i++) { chosen[which[i]]++; cells[(size_t)std::min(9.0, std::max(0.0, std::floor((proposals[i][which[i]] - lo) / (hi - lo) * 10)))]++; }
            accepted_of = taken;
            currents = judged;
        }
        for (size_t i = 0; i < N; i++)
        {
            const Point& p = proposals[i];
            check(inside(p, lo, hi), "proposal-outside", [&] { return how + ": proposal " + show(p); });
            const Point& c = currents[i];
            if (c.empty()) continue;
            size_t diff = 0, which = 0;
            for (size_t j = 0; j < n; j++) if (p[j] != c[j]) { diff++; which = j; }
            check(diff == 1, "not-a-neighbour", [&] { return how + ": proposal " + show(p) + " from " + show(c); });
            if (both)
            {
                chosen[which]++;
                cells[(size_t)std::min(9.0, std::max(0.0, std::floor((p[which] - lo) / (hi - lo) * 10)))]++;
            }
            bool accepted = both ? currents[i + 1] == p : accepted_of[i] != 0;
            double d = s->value(p) - s->value(c), T = (double)(N - i - 1) / (double)N;
            if (d < 0) { check(accepted, "improvement-refused", [&] { return how + ": in iteration " + std::to_string(i + 1) + " the better proposal " + show(p) + " was not taken"; }); count("improvements taken"); continue; }
            if (d == 0) { if (T > 0) { check(accepted, "equal-refused", [&] { return how + ": in iteration " + std::to_string(i + 1) + " a proposal of equal value was not taken"; }); flat++; } continue; }
            double q = T > 0 ? std::exp(-d / T) : 0;
            if (q < 1e-13) check(!accepted, "worse-accepted-when-cold", [&] { return how + ": in iteration " + std::to_string(i + 1) + " a proposal worse by " + num(d) + " was taken at temperature " + num(T); });
            Band& b = bands[std::min<size_t>(9, i * 10 / N)];
            b.k++; b.expected += q; b.variance += q * (1 - q); b.accepted += accepted;
            Band& e = steep[std::min<size_t>(5, (size_t)(q * 6))];
            e.k++; e.expected += q; e.variance += q * (1 - q); e.accepted += accepted;
            count("worsening proposals");
        }
        observe(Hash().add(o.result).add(start).h, N > 3);
    }
    auto judge = [&](const Band& b, const std::string& name)
    {
        if (b.variance < 12) return;
        double z = std::fabs(b.accepted - b.expected) / std::sqrt(b.variance);
        check(z < 7.5, "acceptance-rate", [&] { return how + ": " + name + ", " + num(b.accepted) + " of " + std::to_string(b.k) + " worsening proposals were taken, " + num(b.expected) + " expected"; });
        count("acceptance rates tested");
        peak("z times 100 of acceptance", (uint64_t)(z * 100));
    };
    for (size_t i = 0; i < bands.size(); i++) judge(bands[i], "in tenth " + std::to_string(i + 1) + " of the run");
    for (size_t i = 0; i < steep.size(); i++) judge(steep[i], "probability class " + std::to_string(i));
    long total = 0;
    for (long c : chosen) total += c;
    if (total >= 500)
    {
        double z = n > 1 ? chi2_uniform_z(chosen) : 0, y = chi2_uniform_z(cells);
        check(z < 7.5, "coordinate-choice", [&] { return how + ": coordinates changed " + show(chosen) + " times"; });
        check(y < 7.5, "proposal-law", [&] { return how + ": new coordinates by tenths of the range " + show(cells); });
        count("proposal laws tested");
    }
}
}
K52_MAIN
