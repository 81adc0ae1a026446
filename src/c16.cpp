// C16: encodings of discrete parameters. C17: independence, atomicity and composition of parameter objects.
#include "harness.h"
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <k52/optimization/params/continuous_parameters_array.h>
#include <k52/optimization/params/double_parameter.h>
#include <k52/optimization/params/double_parameters_array.h>
#include <k52/optimization/params/int_parameter.h>
#include <atomic>
#include <memory>
#include <thread>
using namespace hv;
using namespace k52::optimization;

namespace
{
typedef ChromosomeType Genes;
std::string text(const Genes& g) { std::string s; for (bool b : g) s += b ? '1' : '0'; return s.size() > 80 ? s.substr(0, 80) + "..." : s; }
Genes encode(const IDiscreteParameters& p) { Genes g(p.GetChromosomeSize()); p.SetChromosome(g.begin(), g.end()); return g; }
void decode(IDiscreteParameters& p, const Genes& g) { p.SetFromChromosome(g.begin(), g.end()); }
Genes random_genes(Rng& rng, size_t n)
{
    Genes g(n);
    int k = (int)rng.range(0, 5);
    for (size_t i = 0; i < n; i++) g[i] = k == 0 ? false : k == 1 ? true : rng.chance(0.5);
    if (k == 2 && n) { std::fill(g.begin(), g.end(), true); g[rng.u64() % n] = false; }
    return g;
}

void int_bounds(Rng& rng, int& lo, int& hi)
{
    const int64_t MIN = std::numeric_limits<int>::min(), MAX = std::numeric_limits<int>::max();
    int64_t a, b;
    switch (rng.range(0, 5))
    {
    case 0: a = rng.range(-40, 40); b = a + rng.range(0, 70); break;
    case 1: a = rng.range(-40, 40); b = a + (1LL << rng.range(0, 10)) - rng.range(0, 1); break;
    case 2: { int64_t w = (1LL << rng.range(0, 32)) - rng.range(0, 2); if (w < 0) w = 0; if (w > MAX - MIN) w = MAX - MIN; a = rng.range(MIN, MAX - w); b = a + w; break; }
    case 3: a = MIN; b = rng.chance(0.3) ? MAX : rng.range(MIN, MAX); break;
    case 4: b = MAX; a = rng.range(MIN, MAX); break;
    default: a = rng.range(MIN, MAX); b = rng.range(MIN, MAX); if (a > b) std::swap(a, b); break;
    }
    if (b > MAX) b = MAX;
    lo = (int)a; hi = (int)b;
}

K52_TASK(integer, "integer")
{
    int lo, hi;
    int_bounds(rng, lo, hi);
    int64_t width = (int64_t)hi - lo;
    std::string who = "IntParameter [" + std::to_string(lo) + "," + std::to_string(hi) + "]";
    IntParameter a(lo, hi);
    check(a.get_value() == lo && a.get_min_value() == lo && a.get_max_value() == hi && a.CheckConstraints(), "int-initial", [&] { return who + " starts as " + std::to_string(a.get_value()); });
    size_t n = a.GetChromosomeSize();
    IntParameter b(lo, hi);
    std::map<Genes, int> codes;
    auto value = [&](int v)
    {
        a.set_value(v);
        Genes g = encode(a);
        check(g.size() == n && a.get_value() == v, "int-encode-changed", [&] { return who + " value " + std::to_string(v); });
        decode(b, g);
        check(b.get_value() == v, "int-roundtrip", [&] { return who + ": " + std::to_string(v) + " encodes as " + text(g) + " which decodes as " + std::to_string(b.get_value()); });
        check(b.CheckConstraints(), "int-constraints", [&] { return who + ": in-range value " + std::to_string(v) + " violates constraints"; });
        auto r = codes.insert({g, v});
        check(r.first->second == v, "int-shared-code", [&] { return who + ": " + std::to_string(v) + " and " + std::to_string(r.first->second) + " share the chromosome " + text(g); });
        IntParameter c(v, lo, hi);
        check(c.get_value() == v && encode(c) == g, "int-construct", [&] { return who + ": constructed with " + std::to_string(v) + " holds " + std::to_string(c.get_value()); });
        count("values round-tripped");
    };
    auto genes = [&](const Genes& g)
    {
        decode(a, g);
        int v = a.get_value();
        check(encode(a) == g, "int-code-roundtrip", [&] { return who + ": chromosome " + text(g) + " decodes as " + std::to_string(v) + " which encodes as " + text(encode(a)); });
        check(a.CheckConstraints() == (v >= lo && v <= hi), "int-constraints", [&] { return who + ": decoded value " + std::to_string(v) + " constraints " + std::to_string(a.CheckConstraints()); });
        count("chromosomes round-tripped");
    };
    if (width <= 300) for (int64_t v = lo; v <= hi; v++) value((int)v);
    else
    {
        value(lo); value(hi); value(lo + 1); value(hi - 1); value((int)(lo + width / 2));
        for (int k = 0; k < 32; k++) if ((1LL << k) <= width) { value((int)(lo + (1LL << k))); value((int)(lo + (1LL << k) - 1)); value((int)(hi - (1LL << k))); }
        for (int i = 0; i < 40; i++) value((int)rng.range(lo, hi));
        if (lo <= 0 && hi >= 0) value(0);
    }
    if (n <= 8) for (long x = 0; x < (1L << n); x++) { Genes g(n); for (size_t i = 0; i < n; i++) g[i] = x >> i & 1; genes(g); }
    else for (int i = 0; i < 60; i++) genes(random_genes(rng, n));
    // values outside the bounds violate the constraints
    for (int64_t v : {(int64_t)lo - 1, (int64_t)hi + 1, (int64_t)std::numeric_limits<int>::min(), (int64_t)std::numeric_limits<int>::max(), rng.range(std::numeric_limits<int>::min(), std::numeric_limits<int>::max())})
    {
        if (v < std::numeric_limits<int>::min() || v > std::numeric_limits<int>::max()) continue;
        a.set_value((int)v);
        check(a.CheckConstraints() == (v >= lo && v <= hi), "int-constraints", [&] { return who + ": value " + std::to_string(v) + " constraints " + std::to_string(a.CheckConstraints()); });
    }
    for (size_t bad : {n + 1, n ? n - 1 : n + 2, (size_t)(n + 32), (size_t)0})
    {
        if (bad == n) continue;
        Genes g(bad);
        must_throw("wrong-length", who + " encoded into " + std::to_string(bad) + " genes", [&] { a.SetChromosome(g.begin(), g.end()); });
        must_throw("wrong-length", who + " decoded from " + std::to_string(bad) + " genes", [&] { a.SetFromChromosome(g.begin(), g.end()); });
    }
    if (lo < hi)
    {
        must_throw("inverted-bounds", who + " inverted", [&] { IntParameter x(hi, lo); });
        must_throw("inverted-bounds", who + " inverted", [&] { IntParameter x(lo, hi, lo); });
    }
    observe(Hash().add(lo).add(hi).h, width > 0);
    if (Log::get().wants_sample() && width > 300) Log::get().sample(who + ", " + std::to_string(n) + " genes, " + std::to_string(codes.size()) + " values");
}

// bounds and precision such that the grid is resolvable in double
void double_setup(Rng& rng, double& lo, double& hi, double& prec)
{
    for (;;)
    {
        switch (rng.range(0, 3))
        {
        case 0: lo = (double)rng.range(-20, 20); hi = lo + (double)rng.range(1, 40); break;
        case 1: lo = rng.uni(-1000, 1000); hi = lo + std::pow(10, rng.uni(-3, 4)); break;
        case 2: lo = rng.normal() * std::pow(10, rng.uni(-6, 6)); hi = lo + std::pow(10, rng.uni(-6, 6)); break;
        default: lo = -rng.uni(0, 1) * std::pow(10, rng.uni(-2, 3)); hi = rng.uni(0.001, 1) * std::pow(10, rng.uni(-2, 3)); break;
        }
        if (!(hi > lo)) continue;
        double steps;
        switch (rng.range(0, 4))
        {
        case 0: steps = (double)rng.range(1, 300); break;
        case 1: steps = std::ldexp(1.0, (int)rng.range(0, 30)) + (double)rng.range(-1, 1); break;
        case 2: steps = rng.uni(0.3, 100); break;
        case 3: prec = std::pow(10, -(double)rng.range(0, 6)); steps = (hi - lo) / prec; break;
        default: steps = std::pow(10, rng.uni(0, 9)); break;
        }
        if (steps < 0.2 || steps > 2147483000.0) continue;
        if (std::fabs(steps - (hi - lo) / prec) > 1e-9 * steps) prec = (hi - lo) / steps;
        if (prec < 1e-11 * std::max(std::fabs(lo), std::fabs(hi))) continue;
        return;
    }
}

K52_TASK(real, "real")
{
    double lo, hi, prec;
    double_setup(rng, lo, hi, prec);
    double first = rng.chance(0.3) ? lo : rng.chance(0.3) ? hi : rng.uni(lo, hi);
    if (first > hi) first = hi;
    std::string who = "DoubleParameter [" + num(lo) + "," + num(hi) + "] precision " + num(prec);
    DoubleParameter a(first, lo, hi, prec), b(lo, lo, hi, prec);
    double p = a.get_actual_precision(), big = std::max(std::fabs(lo), std::fabs(hi));
    double slack = p * 1e-6 + big * 4e-16;
    check(p > 0 && p <= prec * (1 + 1e-12), "real-precision", [&] { return who + ": actual precision " + num(p); });
    check(a.get_min_value() == lo && a.get_max_value() == hi && a.CheckConstraints(), "real-initial", who.c_str());
    check(std::fabs(a.GetValue() - first) <= p + slack, "real-initial", [&] { return who + " constructed with " + num(first) + " holds " + num(a.GetValue()); });
    size_t n = a.GetChromosomeSize();
    int elements = rng.chance(0.05) ? (int)rng.range(6, 200) : (int)rng.range(1, 5);
    DoubleParametersArray arr(lo, hi, prec, (size_t)elements), arr2(lo, hi, prec, (size_t)elements);
    check(std::fabs(arr.get_actual_precision() - p) <= p * 1e-12 && arr.get_min_value() == lo && arr.get_max_value() == hi && arr.get_number_of_parameters() == (size_t)elements
          && arr.GetChromosomeSize() == n * (size_t)elements, "array-settings", [&] { return who + " as array of " + std::to_string(elements); });
    auto value = [&](double v)
    {
        a.SetValue(v);
        double held = a.GetValue();
        Genes g = encode(a);
        check(a.GetValue() == held, "real-encode-changed", who.c_str());
        decode(b, g);
        double r = b.GetValue();
        check(r == held, "real-roundtrip", [&] { return who + ": " + num(held) + " decodes as " + num(r); });
        check(std::fabs(r - v) <= p + slack, "real-error", [&] { return who + ": " + num(v) + " comes back as " + num(r) + ", actual precision " + num(p); });
        check(r >= lo && r <= hi && b.CheckConstraints() && a.CheckConstraints(), "real-range", [&] { return who + ": " + num(v) + " comes back as " + num(r); });
        if (v == lo || v == hi) check(r == v, "real-ends", [&] { return who + ": bound " + num(v) + " comes back as " + num(r); });
        count("values round-tripped");
    };
    value(lo); value(hi); value(std::nextafter(lo, hi)); value(std::nextafter(hi, lo));
    for (int i = 0; i < 30; i++) value(std::min(hi, rng.uni(lo, hi)));
    for (int i = 0; i < 20; i++)
    {
        // grid nodes, their neighbours and ties
        double k = std::floor(rng.uni() * (hi - lo) / p), v = lo + k * p + (rng.chance(0.5) ? 0 : rng.chance(0.5) ? 0.5 * p : rng.uni(-1e-9, 1e-9) * p);
        if (v >= lo && v <= hi) value(v);
    }
    bool saw_lo = false, saw_hi = false;
    auto genes = [&](const Genes& g)
    {
        decode(a, g);
        double v = a.GetValue();
        check(v >= lo && v <= hi && a.CheckConstraints(), "real-range", [&] { return who + ": chromosome " + text(g) + " decodes to " + num(v); });
        check(encode(a) == g, "real-code-roundtrip", [&] { return who + ": chromosome " + text(g) + " decodes to " + num(v) + " which encodes as " + text(encode(a)); });
        saw_lo |= v == lo; saw_hi |= v == hi;
        count("chromosomes round-tripped");
    };
    if (n <= 9)
    {
        for (long x = 0; x < (1L << n); x++) { Genes g(n); for (size_t i = 0; i < n; i++) g[i] = x >> i & 1; genes(g); }
        check(saw_lo && saw_hi, "real-ends", [&] { return who + ": no chromosome decodes to " + (saw_lo ? "the upper" : "the lower") + " bound"; });
    }
    else for (int i = 0; i < 60; i++) genes(random_genes(rng, n));
    // the same through the array
    for (int i = 0; i < 6; i++)
    {
        std::vector<double> v((size_t)elements);
        for (double& x : v) { int k = (int)rng.range(0, 5); x = k == 0 ? lo : k == 1 ? hi : std::min(hi, rng.uni(lo, hi)); }
        arr.SetValues(v);
        check(arr.get_values() == v, "array-values", [&] { return who + ": array set to " + show(v) + " holds " + show(arr.get_values()); });
        Genes g = encode(arr);
        check(arr.get_values() == v, "array-encode-changed", [&] { return who + ": encoding changed the values"; });
        decode(arr2, g);
        std::vector<double> r = arr2.get_values();
        check(r.size() == v.size(), "array-size", who.c_str());
        for (size_t j = 0; j < v.size(); j++)
        {
            check(std::fabs(r[j] - v[j]) <= p + slack && r[j] >= lo && r[j] <= hi, "array-error", [&] { return who + ": array " + show(v) + " comes back as " + show(r); });
            if (v[j] == lo || v[j] == hi) check(r[j] == v[j], "array-ends", [&] { return who + ": array " + show(v) + " comes back as " + show(r); });
        }
        check(arr2.CheckConstraints(), "array-constraints", who.c_str());
        Genes q = random_genes(rng, g.size());
        decode(arr2, q);
        check(encode(arr2) == q && arr2.CheckConstraints(), "array-code-roundtrip", [&] { return who + ": array chromosome " + text(q) + " decodes to " + show(arr2.get_values()) + " which encodes as " + text(encode(arr2)); });
        for (double x : arr2.get_values()) check(x >= lo && x <= hi, "array-range", [&] { return who + ": array chromosome decodes to " + num(x); });
        count("values round-tripped", v.size());
    }
    for (size_t bad : {n + 1, n - 1, n * 2 + 1})
    {
        Genes g(bad);
        must_throw("wrong-length", who + " encoded into " + std::to_string(bad) + " genes", [&] { a.SetChromosome(g.begin(), g.end()); });
        must_throw("wrong-length", who + " decoded from " + std::to_string(bad) + " genes", [&] { a.SetFromChromosome(g.begin(), g.end()); });
        if (bad != n * (size_t)elements)
        {
            must_throw("wrong-length", who + " array encoded into " + std::to_string(bad) + " genes", [&] { arr.SetChromosome(g.begin(), g.end()); });
            must_throw("wrong-length", who + " array decoded from " + std::to_string(bad) + " genes", [&] { arr.SetFromChromosome(g.begin(), g.end()); });
        }
    }
    double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
    must_throw("inverted-bounds", who + " inverted", [&] { DoubleParameter x(lo, hi, lo, prec); });
    must_throw("inverted-bounds", who + " empty", [&] { DoubleParameter x(lo, lo, lo, prec); });
    must_throw("inverted-bounds", who + " array inverted", [&] { DoubleParametersArray x(hi, lo, prec, 2); });
    must_throw("start-outside", who, [&] { DoubleParameter x(hi + (hi - lo), lo, hi, prec); });
    must_throw("start-outside", who, [&] { DoubleParameter x(lo - (hi - lo), lo, hi, prec); });
    must_throw("start-outside", who, [&] { DoubleParameter x(nan, lo, hi, prec); });
    for (double bad : {0.0, -prec, nan, (hi - lo) * 1e-12, -inf})
    {
        must_throw("unattainable-precision", who + " with precision " + num(bad), [&] { DoubleParameter x(lo, lo, hi, bad); });
        must_throw("unattainable-precision", who + " array with precision " + num(bad), [&] { DoubleParametersArray x(lo, hi, bad, 1); });
    }
    observe(Hash().add(lo).add(hi).add(prec).h);
    if (Log::get().wants_sample()) Log::get().sample(who + ", " + std::to_string(n) + " genes, actual precision " + num(p));
}

// ------------------------------------------------------------------ C17
// A tree of parameters and, beside it, leaves of its own that model it
struct Node
{
    enum Kind { INT, REAL, ARRAY, COMPOSITE } kind;
    IDiscreteParameters::shared_ptr real;    // the object under test (only the root's and suppliers')
    IDiscreteParameters::shared_ptr leaf;    // independent model of a leaf
    std::vector<Node> parts;
    uint64_t seed = 0;                       // makes the model leaf again
};
IDiscreteParameters::shared_ptr make_leaf(Rng& rng, Node::Kind k, uint64_t seed)
{
    Rng r(seed);
    if (k == Node::INT) { int lo = (int)r.range(-100, 100), hi = lo + (int)r.range(0, 200); return IDiscreteParameters::shared_ptr(new IntParameter((int)r.range(lo, hi), lo, hi)); }
    double lo = r.uni(-10, 10), hi = lo + r.uni(0.1, 20), p = (hi - lo) / (double)r.range(1, 500);
    if (k == Node::REAL) return IDiscreteParameters::shared_ptr(new DoubleParameter(r.uni(lo, hi), lo, hi, p));
    size_t n = r.chance(0.05) ? (size_t)r.range(5, 150) : (size_t)r.range(0, 4);
    DoubleParametersArray* a = new DoubleParametersArray(lo, hi, p, n);
    IDiscreteParameters::shared_ptr s(a);
    std::vector<double> v(n);
    for (double& x : v) x = r.uni(lo, hi);
    if (r.chance(0.8)) a->SetValues(v);   // else zeros, possibly outside the bounds
    return s;
}
// the model does not rely on Clone: another leaf with the same settings and values
IDiscreteParameters::shared_ptr copy_leaf(const Node& n)
{
    Rng unused(0);
    IDiscreteParameters::shared_ptr c = make_leaf(unused, n.kind, n.seed);
    if (n.kind == Node::INT) dynamic_cast<IntParameter&>(*c).set_value(dynamic_cast<IntParameter&>(*n.leaf).get_value());
    else if (n.kind == Node::REAL) dynamic_cast<DoubleParameter&>(*c).SetValue(dynamic_cast<DoubleParameter&>(*n.leaf).GetValue());
    else
    {
        DoubleParametersArray& a = dynamic_cast<DoubleParametersArray&>(*c);
        std::vector<double> v = dynamic_cast<DoubleParametersArray&>(*n.leaf).get_values();
        if (a.get_values() != v) a.SetValues(v);
    }
    return c;
}
Node make_node(Rng& rng, int depth)
{
    Node n;
    n.kind = depth == 0 ? (Node::Kind)rng.range(0, 2) : rng.chance(0.6) ? Node::COMPOSITE : (Node::Kind)rng.range(0, 2);
    if (n.kind != Node::COMPOSITE)
    {
        uint64_t s = rng.u64();
        n.seed = s;
        n.real = make_leaf(rng, n.kind, s);
        n.leaf = make_leaf(rng, n.kind, s);
        return n;
    }
    CompositeDiscreteParameters* c = new CompositeDiscreteParameters();
    n.real.reset(c);
    std::function<Node(const Node&)> copy = [&](const Node& x) { Node y; y.kind = x.kind; y.seed = x.seed; y.real = x.real; if (x.leaf) y.leaf = copy_leaf(x); for (const Node& q : x.parts) y.parts.push_back(copy(q)); return y; };
    if (rng.chance(0.3))
    {
        Node one = make_node(rng, depth - 1);
        size_t times = rng.chance(0.05) ? (size_t)rng.range(5, 40) : (size_t)rng.range(0, 4);
        c->Initialize(one.real, times);
        for (size_t i = 0; i < times; i++)
        {
            // own model leaves for each copy
            n.parts.push_back(copy(one));
        }
    }
    else
    {
        size_t k = (size_t)rng.range(0, 4);
        std::vector<IDiscreteParameters::shared_ptr> v;
        bool repeats = rng.chance(0.3);
        if (repeats && rng.chance(0.3)) k = (size_t)rng.range(5, 30);
        for (size_t i = 0; i < k; i++) if (i && repeats && rng.chance(0.7))
        {
            // the same object given as several parts
            Node again = copy(n.parts[rng.chance(0.5) ? i - 1 : (size_t)rng.range(0, (int64_t)i - 1)]);
            v.push_back(again.real); n.parts.push_back(again);
        }
        else { n.parts.push_back(make_node(rng, depth - 1)); v.push_back(n.parts.back().real); }
        c->Initialize(v);
    }
    return n;
}
Genes model_genes(const Node& n)
{
    if (n.kind != Node::COMPOSITE) return encode(*n.leaf);
    Genes g;
    for (const Node& p : n.parts) { Genes q = model_genes(p); g.insert(g.end(), q.begin(), q.end()); }
    return g;
}
void model_decode(Node& n, Genes::const_iterator& at)
{
    if (n.kind != Node::COMPOSITE)
    {
        Genes g(at, at + (long)n.leaf->GetChromosomeSize());
        at += (long)g.size();
        decode(*n.leaf, g);
        return;
    }
    for (Node& p : n.parts) model_decode(p, at);
}
bool model_ok(const Node& n)
{
    if (n.kind != Node::COMPOSITE) return n.leaf->CheckConstraints();
    for (const Node& p : n.parts) if (!model_ok(p)) return false;
    return true;
}
std::string values(const IDiscreteParameters& p)
{
    if (auto i = dynamic_cast<const IntParameter*>(&p)) return std::to_string(i->get_value()) + " in [" + std::to_string(i->get_min_value()) + "," + std::to_string(i->get_max_value()) + "]";
    if (auto d = dynamic_cast<const DoubleParameter*>(&p)) return num(d->GetValue()) + " in [" + num(d->get_min_value()) + "," + num(d->get_max_value()) + "]/" + num(d->get_actual_precision());
    if (auto a = dynamic_cast<const DoubleParametersArray*>(&p)) return show(a->get_values(), 100) + " in [" + num(a->get_min_value()) + "," + num(a->get_max_value()) + "]/" + num(a->get_actual_precision());
    return "?";
}
void compare(const IDiscreteParameters& p, const Node& m, const std::string& who)
{
    Genes want = model_genes(m);
    check(p.GetChromosomeSize() == want.size(), "composite-size", [&] { return who + ": chromosome size " + std::to_string(p.GetChromosomeSize()) + " instead of " + std::to_string(want.size()); });
    Genes got = encode(p);
    check(got == want, "chromosome", [&] { return who + ": chromosome " + text(got) + " instead of " + text(want); });
    check(p.CheckConstraints() == model_ok(m), "constraint-answer", [&] { return who + ": constraints answer " + std::to_string(p.CheckConstraints()); });
    if (m.kind == Node::COMPOSITE)
    {
        const CompositeDiscreteParameters& c = dynamic_cast<const CompositeDiscreteParameters&>(p);
        check(c.GetNumberOfParameters() == m.parts.size(), "composite-parts", who.c_str());
        for (size_t i = 0; i < m.parts.size(); i++) compare(*c.GetParameter(i), m.parts[i], who + "/" + std::to_string(i));
        must_throw("composite-index", who, [&] { c.GetParameter(m.parts.size()); });
        must_throw("composite-index", who, [&] { c.GetParameter((size_t)-1); });
    }
    else check(values(p) == values(*m.leaf), "values", [&] { return who + ": " + values(p) + " instead of " + values(*m.leaf); });
    count("parameters compared");
}
Node copy_model(const Node& x)
{
    Node y; y.kind = x.kind; y.seed = x.seed;
    if (x.leaf) y.leaf = copy_leaf(x);
    for (const Node& q : x.parts) y.parts.push_back(copy_model(q));
    return y;
}
// changes every object the parts were made from; nothing of that may show
void scramble(Rng& rng, Node& n)
{
    for (Node& p : n.parts) { if (p.real && p.real->GetChromosomeSize()) decode(*p.real, random_genes(rng, p.real->GetChromosomeSize())); scramble(rng, p); }
}

K52_TASK(tree, "tree")
{
    Node root = make_node(rng, (int)rng.range(0, 3));
    std::vector<std::pair<IDiscreteParameters::shared_ptr, Node>> objects;
    objects.push_back({root.real, copy_model(root)});
    scramble(rng, root);
    Hash h;
    int steps = (int)rng.range(3, 20);
    for (int s = 0; s < steps; s++)
    {
        size_t o = rng.u64() % objects.size();
        IDiscreteParameters& p = *objects[o].first;
        Node& m = objects[o].second;
        int op = (int)rng.range(0, 9);
        h.add(op).add((uint64_t)o);
        if (op < 3)
        {
            Genes g = random_genes(rng, p.GetChromosomeSize());
            decode(p, g);
            Genes::const_iterator at = g.begin();
            model_decode(m, at);
            h.add((uint64_t)std::count(g.begin(), g.end(), true));
        }
        else if (op == 3 && objects.size() < 6)
        {
            IDiscreteParameters::shared_ptr c(p.Clone());
            objects.push_back({c, copy_model(m)});
            count("clones");
        }
        else if (op == 4)
        {
            size_t n = p.GetChromosomeSize();
            Genes g = random_genes(rng, rng.chance(0.5) ? n + (size_t)rng.range(1, 9) : n ? n - 1 : 1);
            must_throw("wrong-length", "decoding the wrong length", [&] { p.SetFromChromosome(g.begin(), g.end()); });
            Genes keep = g;
            must_throw("wrong-length", "encoding into the wrong length", [&] { p.SetChromosome(g.begin(), g.end()); });
        }
        else if (op == 5 && m.kind == Node::ARRAY)
        {
            DoubleParametersArray& a = dynamic_cast<DoubleParametersArray&>(p);
            DoubleParametersArray& ma = dynamic_cast<DoubleParametersArray&>(*m.leaf);
            std::vector<double> v(a.get_number_of_parameters());
            for (double& x : v) x = rng.uni(a.get_min_value(), a.get_max_value());
            int k = (int)rng.range(0, 3);
            std::vector<double> bad = v;
            if (k == 0) bad.push_back(a.get_min_value());
            else if (k == 1 && !bad.empty()) bad[rng.u64() % bad.size()] = rng.chance(0.5) ? a.get_max_value() + 1 : a.get_min_value() - 1;
            else if (k == 2 && !bad.empty()) bad[rng.u64() % bad.size()] = std::numeric_limits<double>::quiet_NaN();
            if (k == 0 || (k < 3 && !bad.empty())) { must_throw("bad-values", "array accepted " + show(bad), [&] { a.SetValues(bad); }); count("rejected assignments"); }
            else { a.SetValues(v); ma.SetValues(v); }
        }
        else if (op == 5 && m.kind == Node::INT)
        {
            int v = (int)rng.range(-400, 400);
            dynamic_cast<IntParameter&>(p).set_value(v); dynamic_cast<IntParameter&>(*m.leaf).set_value(v);
            // out of range values cannot be encoded faithfully: back into the range before comparing chromosomes
            check(p.CheckConstraints() == (v >= dynamic_cast<IntParameter&>(p).get_min_value() && v <= dynamic_cast<IntParameter&>(p).get_max_value()), "constraint-answer", "");
        }
        else if (op == 5 && m.kind == Node::REAL)
        {
            DoubleParameter& d = dynamic_cast<DoubleParameter&>(p);
            double v = rng.uni(d.get_min_value(), d.get_max_value());
            d.SetValue(v); dynamic_cast<DoubleParameter&>(*m.leaf).SetValue(v);
        }
        else if (op == 5 && m.kind == Node::COMPOSITE)
        {
            CompositeDiscreteParameters& c = dynamic_cast<CompositeDiscreteParameters&>(p);
            IDiscreteParameters::shared_ptr other(new IntParameter(0, 1 << rng.range(0, 20)));
            must_throw("second-initialisation", "a composite was initialised twice", [&] { if (rng.chance(0.5)) c.Initialize(other, (size_t)rng.range(0, 40)); else c.Initialize(std::vector<IDiscreteParameters::shared_ptr>(3, other)); });
            count("rejected assignments");
        }
        else if (op == 6 && objects.size() > 1) { objects.erase(objects.begin() + (long)o); count("destroyed"); }
        // all objects, including those not touched
        if (rng.chance(0.5)) for (size_t i = 0; i < objects.size(); i++) compare(*objects[i].first, objects[i].second, "object " + std::to_string(i) + " step " + std::to_string(s));
    }
    for (size_t i = 0; i < objects.size(); i++) compare(*objects[i].first, objects[i].second, "object " + std::to_string(i) + " at the end");
    observe(h.h);
    if (Log::get().wants_sample()) Log::get().sample("tree with " + std::to_string(root.parts.size()) + " parts at the root, chromosome of " + std::to_string(objects[0].first->GetChromosomeSize()) + " genes, " + std::to_string(steps) + " operations");
    // unusable before initialisation
    CompositeDiscreteParameters raw;
    must_throw("uninitialised", "CheckConstraints of an uninitialised composite", [&] { raw.CheckConstraints(); });
    must_throw("uninitialised", "GetChromosomeSize of an uninitialised composite", [&] { raw.GetChromosomeSize(); });
    must_throw("uninitialised", "Clone of an uninitialised composite", [&] { delete raw.Clone(); });
    Genes none;
    must_throw("uninitialised", "SetFromChromosome of an uninitialised composite", [&] { raw.SetFromChromosome(none.begin(), none.end()); });
}

// an object and its clones, each used by its own thread: nothing is shared between them, so ThreadSanitizer has nothing to report and no value is mixed up
K52_TASK(clones, "clones")
{
    Node root = make_node(rng, (int)rng.range(0, 2));
    size_t n = root.real->GetChromosomeSize();
    size_t threads = (size_t)rng.range(2, 3);
    std::vector<IDiscreteParameters::shared_ptr> objects(1, root.real);
    for (size_t i = 1; i < threads; i++) objects.push_back(IDiscreteParameters::shared_ptr(objects[rng.u64() % objects.size()]->Clone()));
    std::vector<std::vector<Genes>> sets(threads);
    std::vector<Node> models;
    for (size_t i = 0; i < threads; i++) { models.push_back(copy_model(root)); for (int k = 0; k < 4; k++) sets[i].push_back(random_genes(rng, n)); }
    std::vector<std::string> wrong(threads);
    std::vector<std::thread> run;
    std::atomic<int> ready(0);
    std::vector<std::vector<double>> vs(threads);
    for (size_t i = 0; i < threads; i++)
        if (auto a = dynamic_cast<DoubleParametersArray*>(objects[i].get())) for (size_t k = 0; k < a->get_number_of_parameters(); k++) vs[i].push_back(rng.uni(a->get_min_value(), a->get_max_value()));
    for (size_t i = 0; i < threads; i++) run.emplace_back([&, i]
    {
        ready++;
        while (ready < (int)threads) std::this_thread::yield();
        IDiscreteParameters& p = *objects[i];
        Node& m = models[i];
        for (int k = 0; k < 12; k++)
        {
            if (auto a = dynamic_cast<DoubleParametersArray*>(&p)) if (k % 3 == 1) { a->SetValues(vs[i]); dynamic_cast<DoubleParametersArray&>(*m.leaf).SetValues(vs[i]); }
            if (k % 3 != 1) { const Genes& g = sets[i][(size_t)k % 4]; decode(p, g); Genes::const_iterator at = g.begin(); model_decode(m, at); }
            if (encode(p) != model_genes(m) || p.CheckConstraints() != model_ok(m)) wrong[i] = "step " + std::to_string(k);
            if (k == 5) { IDiscreteParameters::shared_ptr c(p.Clone()); if (encode(*c) != model_genes(m)) wrong[i] = "clone at step " + std::to_string(k); }
        }
    });
    for (std::thread& t : run) t.join();
    for (size_t i = 0; i < threads; i++) check(wrong[i].empty(), "clones-interfere", [&] { return "thread " + std::to_string(i) + " of " + std::to_string(threads) + ", " + wrong[i]; });
    count("concurrent clones", threads);
    Hash h;
    for (size_t i = 0; i < threads; i++) for (const Genes& g : sets[i]) h.add((uint64_t)std::count(g.begin(), g.end(), true)).add((uint64_t)g.size());
    observe(h.h, n > 0);
}

K52_TASK(meta, "meta")
{
    // parameters of one kind whose settings come from a small set
    int kind = (int)rng.range(0, 2);
    Hash h;
    auto ints = [&](int& lo, int& hi) { lo = (int)rng.range(-1, 1); hi = (int)rng.range(2, 4); };
    auto reals = [&](double& lo, double& hi, double& p) { lo = (double)rng.range(-1, 0); hi = (double)rng.range(1, 2); p = rng.chance(0.5) ? 0.25 : 0.125; };
    IDiscreteParameters::shared_ptr a, b; bool same = false; std::string t;
    if (kind == 2)
    {
        // arrays whose chromosomes have one length, made up differently
        int n1 = (int)rng.range(1, 6), bits1 = (int)rng.range(2, 6), genes = n1 * bits1;
        double lo = rng.chance(0.5) ? 0 : rng.uni(-5, 5), hi = lo + (rng.chance(0.5) ? 1 : rng.uni(0.1, 9));
        DoubleParametersArray x(lo, hi, (hi - lo) / ((1 << bits1) - 1) * 1.001, (size_t)n1);
        for (int n2 = 1; n2 <= genes; n2++)
        {
            if (genes % n2 || genes / n2 > 20) continue;
            DoubleParametersArray y(lo, hi, (hi - lo) / (double)((1 << (genes / n2)) - 1) * 1.001, (size_t)n2);
            if (x.GetChromosomeSize() != y.GetChromosomeSize()) continue;
            bool expected = n1 == n2 && x.get_actual_precision() == y.get_actual_precision();
            check(x.HasSameMetaParameters(&y) == expected && y.HasSameMetaParameters(&x) == expected, "meta-parameters", [&] { return "arrays in " + num(lo) + ".." + num(hi) + " of " + std::to_string(n1) + " and " + std::to_string(n2) + " numbers, both of " + std::to_string(x.GetChromosomeSize()) + " genes"; });
            count("arrays of equal length compared");
        }
    }
    for (int i = 0; i < 20; i++)
    {
        if (kind == 0)
        {
            int l1, h1, l2, h2; ints(l1, h1); ints(l2, h2);
            a.reset(new IntParameter((int)rng.range(l1, h1), l1, h1)); b.reset(new IntParameter((int)rng.range(l2, h2), l2, h2));
            same = l1 == l2 && h1 == h2;
        }
        else
        {
            double l1, h1, p1, l2, h2, p2; reals(l1, h1, p1); reals(l2, h2, p2);
            size_t n1 = (size_t)rng.range(1, 2), n2 = (size_t)rng.range(1, 2);
            if (kind == 1) { a.reset(new DoubleParameter(rng.uni(l1, h1), l1, h1, p1)); b.reset(new DoubleParameter(rng.uni(l2, h2), l2, h2, p2)); n1 = n2; }
            else { a.reset(new DoubleParametersArray(l1, h1, p1, n1)); b.reset(new DoubleParametersArray(l2, h2, p2, n2)); }
            double a1 = kind == 1 ? dynamic_cast<DoubleParameter&>(*a).get_actual_precision() : dynamic_cast<DoubleParametersArray&>(*a).get_actual_precision();
            double a2 = kind == 1 ? dynamic_cast<DoubleParameter&>(*b).get_actual_precision() : dynamic_cast<DoubleParametersArray&>(*b).get_actual_precision();
            same = l1 == l2 && h1 == h2 && a1 == a2 && n1 == n2;
        }
        check(a->HasSameMetaParameters(b.get()) == same && b->HasSameMetaParameters(a.get()) == same, "meta-parameters", [&] { return values(*a) + " and " + values(*b) + ": expected " + std::to_string(same) + ", got " + std::to_string(a->HasSameMetaParameters(b.get())) + "/" + std::to_string(b->HasSameMetaParameters(a.get())); });
        check(a->HasSameMetaParameters(a.get()), "meta-parameters", "a parameter differs from itself");
        IDiscreteParameters::shared_ptr c(a->Clone());
        check(a->HasSameMetaParameters(c.get()) && c->HasSameMetaParameters(a.get()), "meta-parameters", [&] { return values(*a) + " differs from its clone"; });
        count(same ? "equal meta-parameters" : "different meta-parameters");
        IDiscreteParameters::shared_ptr other(kind == 0 ? (IDiscreteParameters*)new DoubleParameter(0, 0, 1, 0.1) : new IntParameter(0, 1));
        must_throw("meta-kind", "compared with another kind", [&] { a->HasSameMetaParameters(other.get()); });
        h.add(values(*a)).add(values(*b));
    }
    observe(h.h);
}

K52_TASK(continuous, "continuous")
{
    size_t n = (size_t)rng.range(0, 12);
    auto vec = [&](size_t k) { std::vector<double> v(k); for (double& x : v) x = rng.chance(0.1) ? std::numeric_limits<double>::infinity() : rng.chance(0.1) ? -0.0 : rng.normal() * 1e3; return v; };
    std::vector<double> v = vec(n);
    ContinuousParametersArray p(v), q(n);
    check(p.GetValues() == v && q.GetValues() == std::vector<double>(n), "continuous-initial", "");
    std::vector<std::pair<boost::shared_ptr<ContinuousParametersArray>, std::vector<double>>> all;
    all.push_back({boost::shared_ptr<ContinuousParametersArray>(p.Clone()), v});
    Hash h;
    for (int s = 0; s < 20; s++)
    {
        size_t o = rng.u64() % all.size();
        int op = (int)rng.range(0, 3);
        h.add(op);
        if (op == 0) { std::vector<double> w = vec(n), keep = w; all[o].first->SetValues(w); all[o].second = keep; w.assign(n, 1.5); h.add(keep); }
        else if (op == 1) { std::vector<double> w = vec(rng.chance(0.5) ? n + 1 : n ? n - 1 : 3); must_throw("wrong-size", "", [&] { all[o].first->SetValues(w); }); count("rejected assignments"); }
        else if (op == 2 && all.size() < 5) { std::vector<double> keep = all[o].second; all.push_back({boost::shared_ptr<ContinuousParametersArray>(all[o].first->Clone()), keep}); count("clones"); }
        else all[o].first->CheckConstraints();
        for (auto& x : all)
        {
            std::vector<double> got = x.first->GetValues();
            check(got == x.second, "continuous-values", [&] { return show(got) + " instead of " + show(x.second); });
            got.assign(got.size(), 3);
            check(x.first->CheckConstraints(), "continuous-constraints", "");
            count("parameters compared");
        }
    }
    check(p.GetValues() == v, "continuous-values", "the original changed with its clone");
    observe(h.h);
}
}
K52_MAIN
