// C20: individuals of the genetic algorithm. C21: mutation operators.
#include "ga_run.h"
#include "stats.h"
#include <k52/optimization/individual.h>
#include <iomanip>
#include <memory>
using namespace hv;
using namespace ga;

namespace
{
struct Setup { Setup() { case_setup() = [](uint64_t s) { k52::common::Random::Instance(); srand((unsigned)s); }; } } setup;
const double Z = 7.5;

// flips a prepared set of genes at each call
struct Scripted : IMutator
{
    Rng rng;
    double p;
    std::vector<Genes> before, after;
    Scripted(uint64_t s, double q) : rng(s), p(q) {}
    void ApplyNewMutationContext(const MutationContext&) {}
    void MutateChromosome(ChromosomeType* c)
    {
        before.push_back(*c);
        for (size_t i = 0; i < c->size(); i++) if (rng.chance(p)) (*c)[i] = !(*c)[i];
        after.push_back(*c);
    }
};

struct Model
{
    std::shared_ptr<Individual> ind;
    Genes genes;
    bool has = false;
    double fitness = 0;
    int times = 0;
};

K52_TASK(individuals, "individuals")
{
    Space sp = random_space(rng);
    if (sp.kind == 0 && sp.lo == sp.hi) sp.hi += 2;
    IDiscreteParameters::shared_ptr judge = sp.make();
    size_t n = judge->GetChromosomeSize();
    auto valid = [&](const Genes& g) { Monitoring m; judge->SetFromChromosome(g.begin(), g.end()); return judge->CheckConstraints(); };
    auto values = [&](const IDiscreteParameters* p)
    {
        std::string s;
        if (sp.kind == 0) s = std::to_string(dynamic_cast<const IntParameter*>(p)->get_value());
        else if (sp.kind == 1) { for (double d : dynamic_cast<const DoubleParametersArray*>(p)->get_values()) s += num(d) + ","; }
        else
        {
            const CompositeDiscreteParameters* c = dynamic_cast<const CompositeDiscreteParameters*>(p);
            for (size_t i = 0; i < c->GetNumberOfParameters(); i++)
            {
                IDiscreteParameters::shared_ptr q = c->GetParameter(i);
                if (const IntParameter* ip = dynamic_cast<const IntParameter*>(q.get())) s += std::to_string(ip->get_value()) + ",";
                if (const DoubleParameter* dp = dynamic_cast<const DoubleParameter*>(q.get())) s += num(dp->GetValue()) + ",";
            }
        }
        return s;
    };
    std::vector<Model> all;
    std::string last, history;
    auto verify = [&](const Model& m, size_t i)
    {
        Monitoring mon;
        const Individual& x = *m.ind;
        auto who = [&] { return sp.show() + ", individual " + std::to_string(i) + " after " + last; };
        check(x.GetChromosome() == m.genes, "chromosome", [&] { return who() + ": chromosome " + text(x.GetChromosome()) + ", expected " + text(m.genes); });
        judge->SetFromChromosome(m.genes.begin(), m.genes.end());
        const IDiscreteParameters* p = x.GetParametersAccordingToChromosome();
        check(values(p) == values(judge.get()) && encode(*p) == m.genes, "parameters-out-of-step", [&] { return who() + ": chromosome " + text(m.genes) + " decodes to " + values(judge.get()) + " but the parameters are " + values(p); });
        check(x.IsValid() == judge->CheckConstraints(), "validity", [&] { return who() + ": IsValid() " + std::to_string(x.IsValid()); });
        check(x.HasFitness() == m.has, "has-fitness", [&] { return who() + (m.has ? ": fitness was lost" : ": reports a fitness that was not set for this state"); });
        if (m.has) check(x.get_fitness() == m.fitness && x.get_individual_statistics().fitness == m.fitness, "fitness", [&] { return who() + ": fitness " + num(x.get_fitness()) + " instead of " + num(m.fitness); });
        else must_throw("fitness-unset", who() + ": fitness asked although none is set", [&] { x.get_fitness(); });
        check(x.get_times_chosen_for_crossover() == m.times && (!m.has || x.get_individual_statistics().times_chosen_for_crossover == m.times), "times-chosen", [&] { return who() + ": chosen " + std::to_string(x.get_times_chosen_for_crossover()) + " times instead of " + std::to_string(m.times); });
        count("individuals compared");
    };
    auto fresh = [&]
    {
        Model m;
        IDiscreteParameters::shared_ptr p = sp.make();
        Genes g(n);
        for (size_t i = 0; i < n; i++) g[i] = rng.chance(0.5);
        p->SetFromChromosome(g.begin(), g.end());
        if (rng.chance(0.5)) m.ind.reset(new Individual(p.get()));
        else { m.ind.reset(new Individual()); m.ind->Initialize(p.get()); }
        m.genes = g;
        Genes zero(n);
        p->SetFromChromosome(zero.begin(), zero.end());        // the caller's object is not ours
        all.push_back(m);
    };
    {
        Individual empty;
        must_throw("uninitialised", "an uninitialised individual gave a chromosome", [&] { empty.GetChromosome(); });
        must_throw("uninitialised", "an uninitialised individual was randomised", [&] { empty.SetRandomChromosome(); });
        must_throw("uninitialised", "an uninitialised individual gave parameters", [&] { empty.GetParametersAccordingToChromosome(); });
        must_throw("uninitialised", "an uninitialised individual reported validity", [&] { empty.IsValid(); });
        check(!empty.HasFitness(), "has-fitness", "an uninitialised individual has a fitness");
    }
    last = "initialisation";
    for (int i = 0; i < 3; i++) { fresh(); verify(all.back(), all.size() - 1); }
    int steps = (int)rng.range(5, 40);
    for (int s = 0; s < steps; s++)
    {
        size_t i = rng.u64() % all.size();
        Model& m = all[i];
        int op = (int)rng.range(0, 12);
        history += (char)('a' + op);
        switch (op)
        {
        case 0:
        {
            last = "randomisation";
            rejections().take();
            int bad = m.ind->SetRandomChromosome();
            std::pair<long, long> seen = rejections().take();
            m.genes = m.ind->GetChromosome(); m.has = false;
            check(m.genes.size() == n && valid(m.genes), "randomised-invalid", [&] { return sp.show() + ": randomised to " + text(m.genes) + " which violates the constraints"; });
            if (sp.kind == 3) check(seen.first <= bad && bad <= seen.second, "invalid-count", [&] { return sp.show() + ": randomisation reported " + std::to_string(bad) + " invalid tries, " + std::to_string(seen.first) + " were seen"; });
            else check(bad >= 0, "invalid-count", "negative number of invalid tries");
            break;
        }
        case 1: case 2:
        {
            size_t j = rng.u64() % all.size();
            if (j == i) break;
            last = "crossover";
            Model& o = all[j];
            bool ok = m.ind->Crossover(o.ind.get());
            rejections().take();
            Genes a = m.ind->GetChromosome(), b = o.ind->GetChromosome();
            check(a.size() == n && b.size() == n, "crossover-length", "crossover changed the chromosome's length");
            bool found = false;
            for (size_t cut = 0; cut <= n && !found; cut++)
            {
                bool fits = true;
                for (size_t k = 0; k < n && fits; k++) fits = k < cut ? a[k] == m.genes[k] && b[k] == o.genes[k] : a[k] == o.genes[k] && b[k] == m.genes[k];
                found = fits;
            }
            check(found, "crossover-genes", [&] { return sp.show() + ": " + text(m.genes) + " and " + text(o.genes) + " became " + text(a) + " and " + text(b); });
            check(ok == (valid(a) && valid(b)), "crossover-answer", [&] { return sp.show() + ": crossover answered " + std::to_string(ok) + " for children " + text(a) + " and " + text(b); });
            m.genes = a; o.genes = b; m.has = o.has = false;
            verify(o, j);
            count("crossovers");
            break;
        }
        case 3:
        {
            last = "mutation";
            double p = rng.chance(0.2) ? 0 : rng.uni(0.05, 0.6);
            if (p == 0 && !valid(m.genes)) p = 0.5;     // would never become valid
            boost::shared_ptr<Scripted> sc(new Scripted(rng.u64(), p));
            int bad = m.ind->Mutate(sc);
            check(!sc->after.empty() && sc->before[0] == m.genes, "mutation-start", "mutation did not start from the individual's chromosome");
            for (size_t k = 1; k < sc->before.size(); k++) check(sc->before[k] == sc->after[k - 1], "mutation-start", "a repeated mutation did not continue from the last one");
            long want = 0;
            for (auto& g : sc->after) want += !valid(g);
            check(valid(sc->after.back()) && bad == want && want == (long)sc->after.size() - 1, "mutation-count", [&] { return sp.show() + ": mutation reported " + std::to_string(bad) + " invalid tries of " + std::to_string(sc->after.size()) + " calls, " + std::to_string(want) + " were invalid"; });
            m.genes = sc->after.back(); m.has = false;
            count("mutations");
            break;
        }
        case 4: case 5:
        {
            last = "set fitness";
            double f = rng.chance(0.2) ? 0 : std::pow(10, rng.uni(-8, 12));
            m.ind->set_fitness(f);
            m.has = true; m.fitness = f;
            break;
        }
        case 6:
            last = "negative fitness";
            must_throw("negative-fitness", "a negative fitness", [&] { m.ind->set_fitness(-rng.uni(1e-9, 10)); });
            break;
        case 7:
        {
            last = "copy";
            Model c = m;
            c.ind.reset(new Individual(*m.ind));
            all.push_back(c);
            if (rng.chance(0.5)) { Individual& self = *all[i].ind; const Individual& alias = self; self = alias; }
            break;
        }
        case 8:
        {
            last = "assignment";
            size_t j = rng.u64() % all.size();
            if (i != j && rng.chance(0.3))
            {
                // the target comes from another space, with the same genes whenever it can hold them
                Space other = random_space(rng);
                if (sp.kind == 0 && rng.chance(0.7)) { other = sp; int shift = (int)rng.range(-1000, 1000); if ((int64_t)sp.hi + shift <= 2147483647) { other.lo += shift; other.hi += shift; } }
                IDiscreteParameters::shared_ptr q = other.make();
                if (q->GetChromosomeSize() == n) { q->SetFromChromosome(m.genes.begin(), m.genes.end()); count("assignments over other spaces with the same genes"); }
                all[j].ind.reset(new Individual(q.get()));
                if (rng.chance(0.3)) all[j].ind->set_fitness(1);
            }
            *all[j].ind = *m.ind;
            std::shared_ptr<Individual> keep = all[j].ind;
            all[j] = m;
            all[j].ind = keep;
            verify(all[j], j);
            break;
        }
        case 9:
        {
            if (!m.has) { must_throw("fitness-unset", "an individual without fitness was written", [&] { std::ostringstream o; o << *m.ind; }); break; }
            last = "writing and reading";
            std::ostringstream o;
            int digits = rng.chance(0.5) ? 17 : (int)rng.range(3, 16);
            o << std::setprecision(digits);
            size_t reps = 1 + rng.u64() % 3;
            std::vector<size_t> who(1, i);
            for (size_t k = 1; k < reps; k++) who.push_back(rng.u64() % all.size());
            for (size_t k = 0; k < who.size(); k++) { if (!all[who[k]].has) { all[who[k]].ind->set_fitness(2.5); all[who[k]].has = true; all[who[k]].fitness = 2.5; } o << *all[who[k]].ind; }
            std::istringstream in(o.str());
            std::vector<size_t> to;
            for (size_t k = 0; k < who.size(); k++)
            {
                fresh();
                in >> *all.back().ind;
                check(!in.fail(), "read-failed", [&] { return "reading back failed:\n" + o.str(); });
                const Model& w = all[who[k]];
                Model& t = all.back();
                t.genes = w.genes; t.has = true;
                double got = t.ind->HasFitness() ? t.ind->get_fitness() : -1;
                check(std::fabs(got - w.fitness) <= (digits == 17 ? 0 : 2 * std::pow(10, -digits + 1)) * w.fitness, "read-fitness", [&] { return "fitness " + num(w.fitness) + " written with " + std::to_string(digits) + " digits was read back as " + num(got); });
                t.fitness = got;
                verify(t, all.size() - 1);
            }
            count("individuals read back", who.size());
            break;
        }
        case 10:
        {
            last = "rejected reading";
            Genes g(n);
            for (size_t k = 0; k < n; k++) g[k] = rng.chance(0.5);
            std::string t = text(g), fit = "3.5";
            switch (rng.range(0, 4))
            {
            case 0: t += rng.chance(0.5) ? '1' : '0'; break;
            case 1: if (t.size() > 1) t.erase(t.size() - 1); else t += "01"; break;
            case 2: t[rng.u64() % t.size()] = "23a.x-"[rng.u64() % 6]; break;
            case 3: fit = "-1"; break;
            default: t = ""; fit = ""; break;
            }
            std::istringstream in(t.empty() ? "" : "Chromosome:\t" + t + "\tFitness:\t" + fit + "\n");
            must_throw("malformed-accepted", sp.show() + ": malformed individual " + t + " with fitness " + fit, [&] { in >> *m.ind; });
            break;
        }
        case 11:
            last = "counting";
            if (rng.chance(0.3)) { m.ind->ResetTimesChosenForCrossover(); m.times = 0; }
            else { m.ind->IncreaseTimesChosenForCrossover(); m.times++; }
            break;
        default:
            last = "destruction";
            if (all.size() > 3) all.erase(all.begin() + (long)i);
            break;
        }
        for (size_t k = 0; k < all.size(); k++) verify(all[k], k);
        if (all.size() > 8) all.erase(all.begin() + (long)(rng.u64() % all.size()));
    }
    count("operations", (uint64_t)steps);
    if (Log::get().wants_sample()) Log::get().sample(sp.show() + " history " + history);
    Hash h; h.add(sp.show()).add(history);
    for (auto& m : all) h.add(text(m.genes));
    observe(h.h, steps > 5);
}

K52_TASK(cut, "cut")
{
    int bits = (int)rng.range(2, 12), arrays = (int)rng.range(1, rng.chance(0.1) ? 14 : 4);
    std::vector<IDiscreteParameters::shared_ptr> parts;
    for (int i = 0; i < arrays; i++) parts.push_back(IDiscreteParameters::shared_ptr(new IntParameter(0, (1 << bits) - 1)));
    CompositeDiscreteParameters c;
    c.Initialize(parts);
    size_t n = c.GetChromosomeSize();
    Genes zeros(n, false), ones(n, true);
    long trials = 300 * (long)n;
    std::vector<long> cuts(n, 0);
    c.SetFromChromosome(zeros.begin(), zeros.end());
    Individual a(&c);
    c.SetFromChromosome(ones.begin(), ones.end());
    Individual b(&c);
    for (long t = 0; t < trials; t++)
    {
        Individual x(a), y(b);
        check(x.Crossover(&y), "crossover-answer", "crossover of unconstrained individuals answered false");
        const Genes& g = x.GetChromosome();
        size_t k = 0;
        while (k < n && !g[k]) k++;
        check(k < n, "no-cut", "crossover exchanged nothing between all-zero and all-one parents");
        cuts[k]++;
    }
    double z = chi2_uniform_z(cuts);
    check(z < Z, "cut-distribution", [&] { return "cut points over " + std::to_string(n) + " genes: " + show(cuts, 60); });
    count("cuts", (uint64_t)trials);
    observe(Hash().add(cuts).h);
}

// ------------------------------------------------------------------ C21
MutationContext context(int k, int n) { MutationContext c; c.current_generation = k; c.max_number_of_generations = n; return c; }

K52_TASK(linear, "linear")
{
    auto prob = [&] { int k = (int)rng.range(0, 6); return k == 0 ? 0.0 : k == 1 ? 1.0 : k == 2 ? rng.uni(0, 0.03) : k == 3 ? 1 - rng.uni(0, 0.03) : rng.uni(); };
    double a = prob(), b = prob();
    LinearMutator m(a, b);
    IMutator& im = m;
    int n = rng.chance(0.2) ? (int)rng.range(1, 2) : rng.chance(0.2) ? (int)std::pow(10, rng.uni(2, 8)) : (int)rng.range(1, 200);
    int changes = (int)rng.range(1, 5);
    for (int c = 0; c < changes; c++)
    {
        int k = rng.chance(0.3) ? 0 : rng.chance(0.3) ? n - 1 : (int)rng.range(0, n - 1);
        double p = n == 1 ? a : a + (b - a) * (double)k / (double)(n - 1);
        im.ApplyNewMutationContext(context(k, n));
        size_t len = (size_t)(rng.chance(0.1) ? rng.range(60, 2000) : rng.range(1, 60));
        long flips = 0, total = 0, both = 0, pairs = 0;
        std::vector<long> at(len, 0);
        int rounds = (int)(8000 / len);
        std::vector<bool> previous;
        for (int r = 0; r < rounds; r++)
        {
            Genes g(len);
            for (size_t i = 0; i < len; i++) g[i] = rng.chance(0.5);
            Genes h = g;
            im.MutateChromosome(&h);
            check(h.size() == len, "length-changed", "mutation changed the chromosome's length");
            for (size_t i = 0; i < len; i++)
            {
                bool f = h[i] != g[i];
                flips += f; at[i] += f; total++;
                if (i) { pairs++; both += f && h[i - 1] != g[i - 1]; }
            }
        }
        std::string who = "linear mutator " + num(a) + ".." + num(b) + " at generation " + std::to_string(k) + " of " + std::to_string(n) + " on " + std::to_string(len) + " genes";
        if (p == 0) check(flips <= 1, "flips-at-0", [&] { return who + ": " + std::to_string(flips) + " flips"; });
        else if (p == 1) check(flips == total, "no-flips-at-1", [&] { return who + ": " + std::to_string(flips) + " of " + std::to_string(total); });
        else
        {
            check(binom_z((double)flips, (double)total, p) < Z || (total * std::min(p, 1 - p) < 30 && std::fabs((double)flips - (double)total * p) < 50), "flip-rate", [&] { return who + ": " + std::to_string(flips) + " of " + std::to_string(total) + " flipped, probability " + num(p); });
            for (size_t i = 0; i < len; i++)
                if (rounds * std::min(p, 1 - p) > 30) check(binom_z((double)at[i], rounds, p) < Z, "flip-rate-position", [&] { return who + ": gene " + std::to_string(i) + " flipped " + std::to_string(at[i]) + " of " + std::to_string(rounds) + " times, probability " + num(p); });
            // neighbours are independent (pairs overlap: variance at most three times the binomial one)
            if (pairs * p * p > 50 && pairs * (1 - p * p) > 50) check(binom_z((double)both, (double)pairs, p * p) < 1.75 * Z, "flip-dependence", [&] { return who + ": " + std::to_string(both) + " neighbours flipped together of " + std::to_string(pairs) + ", expected " + num((double)pairs * p * p); });
        }
        count("genes considered", (uint64_t)total);
        count("genes flipped", (uint64_t)flips);
        observe(Hash().add(p).add((uint64_t)flips).h, p > 0 && p < 1);
    }
    Genes none;
    im.MutateChromosome(&none);
    for (double bad : {-0.01, 1.01, -1.0, 2.0, -rng.uni(1e-12, 5), 1 + rng.uni(1e-12, 5)})
    {
        must_throw("bad-probability", "start probability " + num(bad), [&] { LinearMutator x(bad, 0.5); });
        must_throw("bad-probability", "end probability " + num(bad), [&] { LinearMutator x(0.5, bad); });
    }
}

K52_TASK(flipbit, "flipbit")
{
    double p;
    switch (rng.chance(0.03) ? 5 : rng.range(0, 4))
    {
    case 5: p = rng.uni(0.0007, 0.005); break;
    case 0: p = 0.5; break;
    case 1: p = 1.0 / (double)rng.range(2, 60); break;
    case 2: p = rng.uni(0.3, 0.5); break;
    default: p = rng.uni(0.005, 0.5); break;
    }
    double md = std::floor(1 / p);
    long m = (long)md;
    FlipBitMutator fm(p);
    IMutator& im = fm;
    long width = (m + 199) / 200;      // rare distances are tested together
    long target = width > 1 ? 4000 : 40 * m > 3000 ? 40 * m : 3000, flips = 0, gap = 0, total = 0, changes = 0;
    std::vector<long> gaps((size_t)(m / width), 0);
    long even = 0, prev_gap = -1;
    double cross = 0;
    while (flips < target)
    {
        if (rng.chance(0.05)) { im.ApplyNewMutationContext(context((int)rng.range(0, 9), 10)); changes++; }
        size_t len = (size_t)rng.range(0, rng.chance(0.1) ? 300 : width > 1 ? 3000 : 30);
        Genes g(len);
        for (size_t i = 0; i < len; i++) g[i] = rng.chance(0.5);
        Genes h = g;
        im.MutateChromosome(&h);
        check(h.size() == len, "length-changed", "mutation changed the chromosome's length");
        for (size_t i = 0; i < len; i++)
        {
            total++; gap++;
            if (h[i] == g[i])
            {
                check(gap < m, "gap-too-long", [&] { return "flip-bit mutator " + num(p) + ": " + std::to_string(gap) + " genes without a flip, at most " + std::to_string(m - 1) + " may be skipped"; });
                continue;
            }
            if ((gap - 1) / width < (long)gaps.size()) gaps[(size_t)((gap - 1) / width)]++;
            if (prev_gap >= 0) cross += ((double)gap - (m + 1) / 2.0) * ((double)prev_gap - (m + 1) / 2.0);
            prev_gap = gap;
            flips++; even += i % 2 == 0;
            gap = 0;
        }
    }
    std::string who = "flip-bit mutator " + num(p) + " (distances 1.." + std::to_string(m) + ")";
    double z = chi2_uniform_z(gaps);
    check(z < Z, "gap-distribution", [&] { return who + ": distances " + show(gaps, 70); });
    double mean = (m + 1) / 2.0, var = ((double)m * m - 1) / 12;
    check(std::fabs((double)total - flips * mean) < Z * std::sqrt(flips * var) + 2 * m, "flip-density", [&] { return who + ": " + std::to_string(flips) + " flips in " + std::to_string(total) + " genes"; });
    check(std::fabs(cross) < Z * var * std::sqrt((double)flips), "gap-dependence", [&] { return who + ": successive distances correlate, " + num(cross); });
    count("genes considered", (uint64_t)total);
    count("genes flipped", (uint64_t)flips);
    observe(Hash().add(p).add(gaps).h);
    if (Log::get().wants_sample()) Log::get().sample(who + ": " + std::to_string(flips) + " flips in " + std::to_string(total) + " genes");
    for (double bad : {0.51, 1.0, 2.0, -0.5, -1e-9, std::numeric_limits<double>::quiet_NaN(), rng.uni(0.5000001, 3), -rng.uni(0, 3)})
        must_throw("bad-probability", "flip-bit probability " + num(bad), [&] { FlipBitMutator x(bad); });
    if (rng.chance(0.04))
    {
        // rare events in long chromosomes
        double q = std::pow(10, -rng.uni(3.5, 5.5)), most = std::floor(1 / q);
        FlipBitMutator t(q);
        size_t len = (size_t)std::min(4e6, 20 * most);
        long f = 0, seen = 0, last_flip = -1, longest = 0;
        while (f < 400 && seen < 60000000)
        {
            Genes g(len);
            t.MutateChromosome(&g);
            for (size_t i = 0; i < len; i++, seen++) if (g[i]) { longest = std::max(longest, seen - last_flip); last_flip = seen; f++; }
        }
        longest = std::max(longest, seen - last_flip);
        double mean_q = (most + 1) / 2, expected_q = (double)seen / mean_q;      // the variance of the number of flips in a renewal process: a third of its mean
        check(std::fabs((double)f - expected_q) < Z * std::sqrt(expected_q / 3) + 3 + expected_q * 0.01, "flip-density", [&] { return "flip-bit mutator " + num(q) + ": " + std::to_string(f) + " flips in " + std::to_string(seen) + " genes"; });
        check(longest <= (long)most, "gap-too-long", [&] { return "flip-bit mutator " + num(q) + ": " + std::to_string(longest) + " genes up to a flip"; });
        // half of the distances exceed half of the longest one
        check(longest > (long)(0.8 * most), "gap-distribution", [&] { return "flip-bit mutator " + num(q) + ": no distance above " + std::to_string(longest); });
        count("flips of rare mutations", (uint64_t)f);
        count("genes considered", (uint64_t)seen);
    }
    // very small probabilities are admissible
    for (double tiny : {1e-9, 1e-12, 1e-300, rng.uni(1e-8, 1e-6)})
    {
        FlipBitMutator t(tiny);
        Genes g(50), h(50);
        t.MutateChromosome(&h);
        long f = 0;
        for (size_t i = 0; i < 50; i++) f += g[i] != h[i];
        check(f <= 2, "tiny-probability", [&] { return "flip-bit probability " + num(tiny) + ": " + std::to_string(f) + " of 50 genes flipped"; });
    }
}
}
K52_MAIN
