// Objectives with an evaluation log, and factories for the continuous optimizers.
#ifndef K52_VERIF_OPT_RUN_H
#define K52_VERIF_OPT_RUN_H
#include "harness.h"
#include <k52/common/random.h>
#include <k52/optimization/bounded_nelder_mead.h>
#include <k52/optimization/conjugate_gradient_method.h>
#include <k52/optimization/continuous_objective_function.h>
#include <k52/optimization/hleborodov_rosenbrock_method.h>
#include <k52/optimization/hooke_jeeves_method.h>
#include <k52/optimization/params/continuous_parameters_array.h>
#include <k52/optimization/random_search.h>
#include <k52/optimization/simulated_annealing.h>
#include <k52/optimization/steepest_descent_method.h>
#include <boost/shared_ptr.hpp>
#include <atomic>
#include <mutex>

namespace opt
{
using namespace k52::optimization;
typedef std::vector<double> Point;

struct TooMuchWork : std::runtime_error { TooMuchWork() : std::runtime_error("evaluation cap reached") {} };
struct Trace
{
    std::mutex m;
    std::vector<Point> points;
    std::vector<double> values;
    long count = 0, cap = 1000000;
    bool keep = true;
    void clear() { points.clear(); values.clear(); count = 0; }
};

// a function of a point: shape, rotation and translation
struct Shape
{
    int kind = 0;
    size_t n = 2;
    Point center;
    std::vector<Point> matrix;      // quadratic form
    double offset = 0, scale = 1;
    uint64_t salt = 0;
    double value(const Point& x) const
    {
        double s = 0;
        switch (kind)
        {
        case 0:     // quadratic
        {
            for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) s += (x[i] - center[i]) * matrix[i][j] * (x[j] - center[j]);
            break;
        }
        case 1: for (size_t i = 0; i < n; i++) s += std::fabs(x[i] - center[i]) * (double)(i + 1); break;
        case 2: for (size_t i = 0; i < n; i++) s += std::fabs(std::floor((x[i] - center[i]) * 2)); break;                       // steps
        case 3: for (size_t i = 0; i < n; i++) { double d = x[i] - center[i]; s += d * d + 3 * (1 - std::cos(5 * d)); } break;   // many minima
        case 4: for (size_t i = 0; i < n; i++) { double d = x[i] - center[i]; s += std::min(d * d, 4.0); } break;                // flat outside
        case 5: s = 1; break;
        case 6: for (size_t i = 0; i + 1 < n; i++) { double a = x[i + 1] - x[i] * x[i], b = 1 - x[i]; s += 100 * a * a + b * b; } if (n == 1) s = x[0] * x[0] * x[0] * x[0]; break;
        case 7: for (size_t i = 0; i < n; i++) s += std::atan(x[i] - center[i]); break;                                          // no minimum, bounded
        case 8: for (size_t i = 0; i < n; i++) s = std::max(s, std::fabs(x[i] - center[i])); break;
        case 9:     // unrelated values in cells, bounded
        {
            uint64_t h = salt;
            for (size_t i = 0; i < n; i++) { double c = std::floor(x[i] * 3); if (c > 1e15) c = 1e15; if (c < -1e15) c = -1e15; h = hv::mix(h ^ (uint64_t)(int64_t)c * 2654435761ULL); }
            s = (double)(h % 1000) / 100;
            for (size_t i = 0; i < n; i++) s += 0.01 * std::min(1e6, x[i] * x[i]);
            break;
        }
        default: for (size_t i = 0; i < n; i++) s += -(x[i] - center[i]); break;                                                 // linear
        }
        return s * scale + offset;
    }
    std::string show() const
    {
        static const char* names[] = {"quadratic", "absolute", "steps", "multimodal", "flat outside", "constant", "rosenbrock", "arctan", "maximum", "cells", "linear"};
        return std::string(names[kind > 9 ? 10 : kind]) + " around " + hv::show(center) + " scale " + hv::num(scale) + " offset " + hv::num(offset);
    }
};
// random orthogonal basis, eigenvalues 1..condition
inline void make_quadratic(hv::Rng& rng, Shape& s, double condition)
{
    size_t n = s.n;
    std::vector<Point> q;
    while (q.size() < n)
    {
        Point v(n);
        for (double& x : v) x = rng.normal();
        for (auto& u : q) { double d = 0; for (size_t i = 0; i < n; i++) d += u[i] * v[i]; for (size_t i = 0; i < n; i++) v[i] -= d * u[i]; }
        double l = 0; for (double x : v) l += x * x;
        l = std::sqrt(l);
        if (l < 0.1) continue;
        for (double& x : v) x /= l;
        q.push_back(v);
    }
    s.matrix.assign(n, Point(n, 0));
    for (size_t k = 0; k < n; k++)
    {
        double e = n == 1 ? rng.uni(1, condition) : k == 0 ? 1 : k == 1 ? condition : rng.uni(1, condition);
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) s.matrix[i][j] += e * q[k][i] * q[k][j];
    }
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) s.matrix[j][i] = s.matrix[i][j];
}

struct Function : ContinuousObjectiveFunction
{
    boost::shared_ptr<Shape> shape;
    boost::shared_ptr<Trace> trace;
    double sign;
    long throw_at;
    Function(boost::shared_ptr<Shape> s, boost::shared_ptr<Trace> t, double sg = 1, long at = -1) : shape(s), trace(t), sign(sg), throw_at(at) {}
    double operator()(const std::vector<double>& x) const
    {
        double v = sign * shape->value(x);
        std::lock_guard<std::mutex> g(trace->m);
        long k = trace->count++;
        if (trace->keep) { trace->points.push_back(x); trace->values.push_back(v); }
        if (k == throw_at) throw std::domain_error("objective failure 4711");
        if (trace->count > trace->cap) throw TooMuchWork();
        return v;
    }
    Function* Clone() const { return new Function(shape, trace, sign, throw_at); }
};

enum Kind { HJ, HR, CG, SD, NM };
struct Config
{
    Kind kind = HJ;
    double a = 0, b = 0, c = 0, d = 0;
    size_t n = 0;
    boost::shared_ptr<ContinuousOptimizer> make() const
    {
        ContinuousOptimizer* o = nullptr;
        switch (kind)
        {
        case HJ: o = new HookeJeevesMethod(a, b, n, c, d); break;
        case HR: o = new HleborodovRosenbrockMethod(a, n, b, c); break;
        case CG: o = new ConjugateGradientMethod(a, b, n); break;
        case SD: o = new SteepestDescentMethod(a, n, b); break;
        case NM: o = new BoundedNelderMead(a, b, c, d); break;
        }
        return boost::shared_ptr<ContinuousOptimizer>(o);
    }
    std::string show() const
    {
        static const char* names[] = {"HookeJeeves", "Rosenbrock", "ConjugateGradient", "SteepestDescent", "NelderMead"};
        return std::string(names[kind]) + "(" + hv::num(a) + "," + hv::num(b) + "," + hv::num(c) + "," + hv::num(d) + ";" + std::to_string(n) + ")";
    }
};
inline Config random_config(hv::Rng& rng, Kind k)
{
    Config c;
    c.kind = k;
    switch (k)
    {
    case HJ: c.a = rng.uni(1, 2.5); c.b = rng.uni(0.05, 2); c.n = (size_t)rng.range(1, 200); c.c = std::pow(10, -(rng.chance(0.7) ? rng.uni(1, 6) : rng.uni(6, 13))); c.d = rng.uni(1.5, 4); break;
    case HR: c.a = std::pow(10, -(rng.chance(0.7) ? rng.uni(1, 6) : rng.uni(6, 13))); c.n = (size_t)rng.range(1, 200); c.b = rng.uni(0.01, 1); c.c = rng.uni(0.5, 5); break;
    case CG: c.a = std::pow(10, -rng.uni(2, 5)); c.b = std::pow(10, -rng.uni(3, 5)); c.n = (size_t)rng.range(1, 60); break;
    case SD: c.a = std::pow(10, -rng.uni(3, 6)); c.n = (size_t)rng.range(1, 60); c.b = std::pow(10, -(rng.chance(0.8) ? rng.uni(3, 9) : rng.uni(9, 14))); break;
    case NM: c.a = rng.uni(0.05, 3); c.b = std::pow(10, -rng.uni(1, 9)); c.c = -rng.uni(3, 10); c.d = rng.uni(3, 10); break;
    }
    return c;
}
struct Outcome
{
    Point result;
    std::vector<Point> points;
    std::vector<double> values;
    std::string thrown;
    double start_value = 0;
};
inline Outcome optimize(ContinuousOptimizer& o, boost::shared_ptr<Shape> s, const Point& start, bool maximize, double sign, long cap = 1000000, long throw_at = -1, bool keep = true)
{
    Outcome r;
    boost::shared_ptr<Trace> t(new Trace());
    t->cap = cap; t->keep = keep;
    Function f(s, t, sign, throw_at);
    ContinuousParametersArray p(start.size());
    p.SetValues(start);
    try { o.Optimize(static_cast<const IObjectiveFunction&>(f), static_cast<IParameters*>(&p), maximize); }
    catch (const TooMuchWork&) { r.thrown = "too much work"; }
    catch (const std::exception& e) { r.thrown = e.what(); }
    r.result = p.GetValues();
    r.points.swap(t->points); r.values.swap(t->values);
    unlink("polygon.plot");
    return r;
}
inline bool finite(const Point& p) { for (double x : p) if (!(x - x == 0)) return false; return true; }
}
#endif
