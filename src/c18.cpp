// Genetic algorithm: C18 best individual, C19 fitness cache, C22 generations/statistics/files, C30 parallel = sequential, C35 descent of generations.
#include "ga_run.h"
#include <k52/optimization/params/continuous_parameters_array.h>
#include <k52/optimization/random_search.h>
#include <k52/optimization/hooke_jeeves_method.h>
#include <algorithm>
using namespace hv;
using namespace ga;

namespace
{
struct Setup { Setup() { case_setup() = [](uint64_t s) { k52::common::Random::Instance(); srand((unsigned)s); }; } } setup;

std::string where(const RunSpec& s, size_t n) { return s.show() + ", generation " + std::to_string(n); }
uint64_t run_hash(const Run& r)
{
    Hash h;
    h.add(r.result).add(r.thrown);
    for (auto& g : r.generations) h.add(g.average).add(g.best).add(g.best_genes);
    return h.h;
}
void note(const std::vector<RunSpec>& specs, const std::vector<Run>& runs)
{
    for (size_t i = 0; i < runs.size(); i++)
    {
        count("runs");
        count("generations", runs[i].generations.size());
        count("evaluations", runs[i].all().size());
        for (auto& g : runs[i].generations) { count("invalid chromosomes", (uint64_t)g.invalid); count("cache hits", (uint64_t)g.hits); count("individuals read back", g.population.size()); }
        if (Log::get().wants_sample() && runs[i].generations.size() > 1)
            Log::get().sample(specs[i].show() + ": " + std::to_string(runs[i].generations.size()) + " generations, " + std::to_string(runs[i].all().size()) + " evaluations, result " + runs[i].result);
    }
}
void completed(const RunSpec& s, const Run& r)
{
    check(r.thrown.empty(), "run-threw", [&] { return s.show() + " threw " + r.thrown; });
}

// A population file for s as another program may have left it: members of the space with the fitness some other objective gave them.
bool foreign_population(Rng& rng, RunSpec& s)
{
    if (s.space.kind == 0 && s.space.lo == s.space.hi) s.space.hi += 3;      // files hold at least one gene
    IDiscreteParameters::shared_ptr p = s.space.make();
    std::vector<std::string> members;
    for (int tries = 0; (int)members.size() < s.pop && tries < 200 * s.pop; tries++)
    {
        if (!members.empty() && rng.chance(0.2)) { members.push_back(rng.pick(members)); continue; }
        Genes g(p->GetChromosomeSize());
        for (size_t i = 0; i < g.size(); i++) g[i] = rng.chance(0.4);
        p->SetFromChromosome(g.begin(), g.end());
        if (p->CheckConstraints()) members.push_back(text(g));
    }
    rejections().take();
    if ((int)members.size() < s.pop) return false;
    s.file = "start.txt";
    std::ofstream f(s.file);
    f << "Population_size: \n" << s.pop << "\nChromosome_size: \n" << members[0].size() << "\n";
    double same = rng.chance(0.3) ? rng.uni(0, 2000) : -1;
    for (const std::string& m : members) f << "Chromosome:\t" << m << "\tFitness:\t" << (same >= 0 ? same : rng.chance(0.2) ? 0 : rng.uni(0, 5000)) << "\n";
    count("population files of another objective");
    return true;
}

// ------------------------------------------------------------------ C18
void check_best(const RunSpec& s, const Run& r)
{
    auto all = r.all();
    for (size_t k = 0; k <= r.generations.size(); k++)
        for (auto& e : (k < r.generations.size() ? r.generations[k] : r.tail).evaluated)
            check(e.second, "invalid-evaluated", [&] { return where(s, k) + ": objective evaluated at " + e.first + " which violates the constraints"; });
    if (s.throw_at >= 0 && s.throw_at < (long)all.size())
    {
        check(r.thrown == "objective", "failure-lost", [&] { return s.show() + ": the objective threw at evaluation " + std::to_string(s.throw_at) + " but the run " + (r.thrown.empty() ? "returned normally" : "threw " + r.thrown); });
        count("failing objectives");
        return;
    }
    completed(s, r);
    double best = -1, reported = -1;
    std::set<std::string> seen;
    for (size_t k = 0; k < r.generations.size(); k++)
    {
        const Generation& g = r.generations[k];
        for (size_t i = 0; i < g.evaluated.size(); i++) { best = std::max(best, g.values[i]); seen.insert(g.evaluated[i].first); }
        check(g.best >= reported, "best-decreased", [&] { return where(s, k) + ": best fitness " + num(g.best) + " after " + num(reported); });
        reported = g.best;
        check(g.best == objective_value(s.objective, genes_of(g.best_genes)), "best-mismatch", [&] { return where(s, k) + ": reported best " + num(g.best) + " but the reported parameters " + g.best_genes + " are worth " + num(objective_value(s.objective, genes_of(g.best_genes))); });
        check(g.best == best, "best-not-maximum", [&] { return where(s, k) + ": reported best " + num(g.best) + ", best evaluated so far " + num(best); });
        check(g.best_valid && seen.count(g.best_genes), "best-not-evaluated", [&] { return where(s, k) + ": reported best parameters " + g.best_genes + " were not evaluated or violate the constraints"; });
    }
    for (size_t i = 0; i < r.tail.evaluated.size(); i++) { best = std::max(best, r.tail.values[i]); seen.insert(r.tail.evaluated[i].first); }
    check(r.result_valid, "result-invalid", [&] { return s.show() + ": result " + r.result + " violates the constraints"; });
    check(seen.count(r.result), "result-not-evaluated", [&] { return s.show() + ": result " + r.result + " was never evaluated in this run"; });
    check(objective_value(s.objective, genes_of(r.result)) == best, "result-not-best", [&] { return s.show() + ": result " + r.result + " is worth " + num(objective_value(s.objective, genes_of(r.result))) + ", the best evaluated " + num(best); });
}
K52_TASK(best, "best")
{
    std::vector<RunSpec> specs(1 + (rng.chance(0.4) ? rng.u64() % 3 : 0));
    for (RunSpec& s : specs)
    {
        s = random_spec(rng);
        if (&s != &specs[0])
        {
            RunSpec f = specs[0];
            f.space = rng.chance(0.4) ? s.space : f.space; f.objective = s.objective;
            s = f;
        }
        s.callback = specs[0].callback = rng.chance(0.8);
        s.save = false;
        s.throw_at = rng.chance(0.15) ? rng.range(0, s.pop * s.gens) : -1;
    }
    for (RunSpec& s : specs) s.callback = specs[0].callback;
    bool file = specs.size() == 1 && rng.chance(0.15) && foreign_population(rng, specs[0]);
    Variant v;
    v.threads = (unsigned)rng.range(1, 6);
    std::vector<Run> runs = execute(specs, v);
    if (file) unlink(specs[0].file.c_str());
    for (size_t i = 0; i < specs.size(); i++) { check_best(specs[i], runs[i]); observe(run_hash(runs[i]), runs[i].all().size() > 2); }
    note(specs, runs);
    if (rng.chance(0.05))
    {
        RunSpec s = specs[0];
        GeneticAlgorithm::shared_ptr alg = GeneticAlgorithm::Create(2, 0, 1, make_mutator(s));
        Objective f(0, -1, 0);
        IDiscreteParameters::shared_ptr p = s.space.make();
        must_throw("minimisation-accepted", "minimisation", [&] { alg->Optimize(f, p.get(), false); });
    }
}

// ------------------------------------------------------------------ C19
void same_course(const std::string& what, const RunSpec& s, const Run& a, const Run& b, const std::string& key)
{
    check(a.thrown == b.thrown, key, [&] { return s.show() + ", " + what + ": one run ends with '" + a.thrown + "', the other with '" + b.thrown + "'"; });
    check(a.generations.size() == b.generations.size(), key, [&] { return s.show() + ", " + what + ": " + std::to_string(a.generations.size()) + " generations against " + std::to_string(b.generations.size()); });
    for (size_t k = 0; k < a.generations.size(); k++)
    {
        const Generation &x = a.generations[k], &y = b.generations[k];
        check(x.file_text == y.file_text, key, [&] { return where(s, k) + ", " + what + ": different populations\n" + x.file_text.substr(0, 600) + "\nagainst\n" + y.file_text.substr(0, 600); });
        check(x.average == y.average && x.best == y.best && x.best_genes == y.best_genes && x.invalid == y.invalid && x.number == y.number && x.stats == y.stats, key, [&]
              { return where(s, k) + ", " + what + ": average " + num(x.average) + " best " + num(x.best) + " at " + x.best_genes + " invalid " + std::to_string(x.invalid) + " against average " + num(y.average) + " best " + num(y.best) + " at " + y.best_genes + " invalid " + std::to_string(y.invalid); });
    }
    check(a.result == b.result, key, [&] { return s.show() + ", " + what + ": result " + a.result + " against " + b.result; });
}
K52_TASK(cache, "cache")
{
    std::vector<RunSpec> specs(1 + rng.u64() % 3);
    RunSpec first = random_spec(rng);
    if (first.objective == 2) first.objective = 3;
    first.throw_at = -1;
    for (RunSpec& s : specs)
    {
        RunSpec o = random_spec(rng);
        s = first;
        if (&s != &specs[0]) { s.objective = o.objective; if (rng.chance(0.5)) s.space = o.space; if (rng.chance(0.15)) s.throw_at = rng.range(0, s.pop * s.gens); }
    }
    bool file = rng.chance(0.2) && foreign_population(rng, first);
    if (file) for (RunSpec& s : specs) { s.space = first.space; s.file = first.file; }
    Variant v;
    v.threads = (unsigned)rng.range(1, 4);
    double limits[3] = {0, rng.chance(0.5) ? 1e-9 : std::pow(10, rng.uni(-4, -2.5)), 50};
    std::vector<std::vector<Run> > runs;
    for (double limit : limits)
    {
        for (RunSpec& s : specs) s.cache = limit;
        // with an ample cache failures come at other evaluations: compared only where nobody throws
        runs.push_back(execute(specs, v));
    }
    if (file) unlink(first.file.c_str());
    for (size_t i = 0; i < specs.size(); i++)
    {
        bool failed = false;
        for (size_t c = 0; c < 3; c++) if (!runs[c][i].thrown.empty()) failed = true;
        if (failed)
        {
            check(specs[i].throw_at >= 0, "run-threw", [&] { return specs[i].show() + " threw " + runs[0][i].thrown + "/" + runs[1][i].thrown + "/" + runs[2][i].thrown; });
            count("failing objectives");
            break;      // from here on the random streams differ
        }
        for (size_t c = 1; c < 3; c++) same_course("cache limit " + num(limits[c]) + " MB against none, run " + std::to_string(i), specs[i], runs[0][i], runs[c][i], "cache-changed-run");
        for (size_t c = 0; c < 3; c++)
        {
            std::set<std::string> before;
            for (size_t k = 0; k < runs[c][i].generations.size(); k++)
            {
                const Generation& g = runs[c][i].generations[k];
                check(g.hits + (long)g.evaluated.size() == specs[i].pop, "hits-and-evaluations", [&] { return where(specs[i], k) + " cache " + num(limits[c]) + ": " + std::to_string(g.hits) + " hits and " + std::to_string(g.evaluated.size()) + " evaluations for " + std::to_string(specs[i].pop) + " individuals"; });
                if (c == 0) check(g.hits == 0, "hits-without-cache", [&] { return where(specs[i], k) + ": " + std::to_string(g.hits) + " cache hits without cache"; });
                if (c == 2)
                    for (auto& e : g.evaluated) check(!before.count(e.first), "evaluated-again", [&] { return where(specs[i], k) + ": " + e.first + " evaluated again although it was cached"; });
                for (auto& e : g.evaluated) before.insert(e.first);
            }
            check(runs[c][i].tail.evaluated.empty(), "evaluations-after-end", "evaluations after the last generation was reported");
        }
        count("cached courses compared", 2);
        observe(run_hash(runs[0][i]), runs[2][i].all().size() < runs[0][i].all().size());
    }
    note(specs, runs[1]); note(specs, runs[2]);
}

// ------------------------------------------------------------------ C22
void check_generations(const RunSpec& s, const Run& r, bool file_precision = true)
{
    completed(s, r);
    size_t expect = (size_t)s.gens;
    for (size_t k = 0; k < r.generations.size(); k++)
    {
        const Generation& g = r.generations[k];
        check(g.number == k, "generation-number", [&] { return where(s, k) + ": reported as number " + std::to_string(g.number); });
        check((int)g.population.size() == s.pop, "population-file", [&] { return where(s, k) + ": the saved file holds " + std::to_string(g.population.size()) + " individuals"; });
        double sum = 0, best = 0;
        std::multiset<std::string> have, evaluated;
        for (auto& i : g.population)
        {
            double v = objective_value(s.objective, genes_of(i.first));
            sum += v; best = std::max(best, v);
            have.insert(i.first);
            if (file_precision) check(std::fabs(i.second - v) <= 1e-5 * std::fabs(v), "saved-fitness", [&] { return where(s, k) + ": " + i.first + " saved with fitness " + num(i.second) + ", worth " + num(v); });
        }
        double mean = sum / s.pop;
        check(std::fabs(g.average - mean) <= 1e-9 * std::fabs(mean), "average-fitness", [&] { return where(s, k) + ": average " + num(g.average) + ", population mean " + num(mean); });
        check(g.best >= best, "best-below-population", [&] { return where(s, k) + ": best " + num(g.best) + " but the population holds " + num(best); });
        for (auto& e : g.evaluated) evaluated.insert(e.first);
        check((int)g.evaluated.size() <= s.pop, "too-many-evaluations", [&] { return where(s, k) + ": " + std::to_string(g.evaluated.size()) + " evaluations"; });
        for (auto& e : evaluated) check(evaluated.count(e) <= have.count(e), "evaluated-outside-population", [&] { return where(s, k) + ": evaluated " + e + " more often than the population holds it"; });
        if (s.cache <= 0) check(evaluated == have, "population-evaluations", [&] { return where(s, k) + ": evaluated points are not the population"; });
        if (s.space.kind == 3)
        {
            check(g.rejected <= g.invalid && g.invalid <= g.checks_failed, "invalid-count", [&] { return where(s, k) + ": " + std::to_string(g.invalid) + " invalid chromosomes reported, " + std::to_string(g.rejected) + " seen"; });
            count("invalid counts compared");
        }
        if (g.best >= s.stop && expect > k + 1) expect = k + 1;
        if (k + 1 > expect) fail("no-stop", where(s, k) + ": goes on although the best fitness " + num(g.best) + " had reached the stop criterion");
    }
    check(r.generations.size() == expect, "generation-count", [&] { return s.show() + ": " + std::to_string(r.generations.size()) + " generations, expected " + std::to_string(expect); });
    check(r.tail.evaluated.empty(), "evaluations-after-end", "evaluations after the last generation was reported");
}
void random_initial(Rng& rng, RunSpec& s)
{
    if (s.space.kind == 2) s.space.kind = 3;        // plain composites cannot be compared
    IDiscreteParameters::shared_ptr p = s.space.make();
    while ((int)s.initial.size() < s.pop)
    {
        Genes g(p->GetChromosomeSize());
        for (size_t i = 0; i < g.size(); i++) g[i] = rng.chance(0.5);
        p->SetFromChromosome(g.begin(), g.end());
        if (p->CheckConstraints()) s.initial.push_back(text(g));
    }
}
std::multiset<std::string> members(const Generation& g) { std::multiset<std::string> m; for (auto& i : g.population) m.insert(i.first); return m; }

K52_TASK(generations, "generations")
{
    Variant v;
    v.threads = (unsigned)rng.range(1, 4);
    RunSpec s = random_spec(rng);
    switch (rng.range(0, 3))
    {
    case 0: if (rng.chance(0.3)) foreign_population(rng, s); break;
    case 1:                 // the caller's own first generation
    {
        random_initial(rng, s);
        break;
    }
    case 2:                 // a saved generation starts another run
    {
        if (s.space.kind == 0 && s.space.lo == s.space.hi) s.space.hi += 3;      // files hold at least one gene
        std::vector<Run> a = execute({s}, v);
        check_generations(s, a[0]);
        size_t k = rng.u64() % a[0].generations.size();
        std::string name = "start.txt";
        { std::ofstream f(name); f << a[0].generations[k].file_text; }
        RunSpec t = s;
        t.file = name; t.gens = (int)rng.range(1, 5); t.elite = (int)rng.range(0, 2); t.objective = rng.chance(0.5) ? s.objective : (int)rng.range(0, 8);
        std::vector<Run> b = execute({t}, v);
        unlink(name.c_str());
        check_generations(t, b[0]);
        for (size_t i = 0; i < (size_t)s.pop; i++)
            check(b[0].generations[0].population[i].first == a[0].generations[k].population[i].first, "loaded-population", [&] { return where(t, 0) + ": individual " + std::to_string(i) + " loaded as " + b[0].generations[0].population[i].first + ", saved as " + a[0].generations[k].population[i].first; });
        count("populations reloaded");
        observe(run_hash(b[0]), true);
        note({t}, b);
        return;
    }
    default:                // one algorithm object for several runs
    {
        int start = (int)rng.range(0, 5);           // 0: from a file, 1: from an initial set
        if (start == 0 && !foreign_population(rng, s)) start = 2;
        if (start == 1) { random_initial(rng, s); s.set_again = rng.chance(0.3); }
        std::vector<RunSpec> specs(2 + rng.u64() % 2, s);
        for (RunSpec& x : specs) if (&x != &specs[0])
        {
            RunSpec o = random_spec(rng);
            x.objective = o.objective;
            if (start > 1 && rng.chance(0.5)) x.space = o.space;
        }
        if (rng.chance(0.3)) specs[0].throw_at = rng.range(0, s.pop * s.gens);
        std::vector<Run> a = execute(specs, v);
        v.reuse = false;
        std::vector<Run> b = execute(specs, v);
        if (start == 0) unlink(s.file.c_str());
        for (size_t i = 0; i < specs.size(); i++)
        {
            if (start == 1 && !a[i].generations.empty())
                check(members(a[i].generations[0]) == std::multiset<std::string>(s.initial.begin(), s.initial.end()), "initial-set", [&] { return where(specs[i], 0) + ": the first generation of run " + std::to_string(i) + " of one object is not the initial set"; });
            if (specs[i].throw_at < 0) check_generations(specs[i], a[i]);
            same_course("run " + std::to_string(i) + " on a used algorithm object against a fresh one", specs[i], a[i], b[i], "reuse-changed-run");
            for (size_t k = 0; k < a[i].generations.size(); k++)
                check(a[i].generations[k].hits == b[i].generations[k].hits, "reuse-changed-run", [&] { return where(specs[i], k) + ": " + std::to_string(a[i].generations[k].hits) + " cache hits on a used object, " + std::to_string(b[i].generations[k].hits) + " on a fresh one"; });
            observe(run_hash(a[i]), a[i].generations.size() > 1);
        }
        count("reused runs compared", specs.size());
        note(specs, a);
        return;
    }
    }
    std::vector<Run> a = execute({s}, v);
    if (!s.file.empty()) unlink(s.file.c_str());
    check_generations(s, a[0]);
    if (!s.initial.empty())
    {
        std::multiset<std::string> want(s.initial.begin(), s.initial.end());
        check(members(a[0].generations[0]) == want, "initial-set", [&] { return where(s, 0) + ": the first generation is not the initial set"; });
        count("initial sets compared");
    }
    observe(run_hash(a[0]), a[0].generations.size() > 1);
    note({s}, a);
}

void dummy(GenerationStatistics) {}
K52_TASK(refusals, "refusals")
{
    Space sp = random_space(rng);
    if (sp.kind == 2) sp.kind = 3;
    auto mut = [&] { return IMutator::shared_ptr(new LinearMutator(0.1, 0.1)); };
    Objective f(3, -1, 0);
    IDiscreteParameters::shared_ptr p = sp.make();
    // settings that give no algorithm
    int bad_pop = (int)rng.range(0, 2) == 0 ? -(int)rng.range(0, 20) : 2 * (int)rng.range(-10, 20) + 1;
    check(!GeneticAlgorithm::Create(bad_pop, 0, 3, mut()), "bad-population-size", [&] { return "population size " + std::to_string(bad_pop) + " accepted"; });
    check(!GeneticAlgorithm::Create(0, 0, 3, mut()), "bad-population-size", "population size 0 accepted");
    int bad_gen = -(int)rng.range(0, 1000);
    check(!GeneticAlgorithm::Create(4, 0, bad_gen, mut()), "bad-generations", [&] { return std::to_string(bad_gen) + " generations accepted"; });
    check(!GeneticAlgorithm::Create(4, 0, 3, IMutator::shared_ptr()), "no-mutator", "a missing mutator was accepted");
    int pop = 2 * (int)rng.range(1, 5);
    GeneticAlgorithm::shared_ptr alg = GeneticAlgorithm::Create(pop, 0, 2, mut());
    check(!!alg, "good-settings-refused", [&] { return "population " + std::to_string(pop) + " refused"; });
    // initial sets
    for (int n : {0, pop - 1, pop + 1, 2 * pop})
    {
        std::vector<IDiscreteParameters::shared_ptr> v;
        for (int i = 0; i < n; i++) v.push_back(sp.make());
        must_throw("initial-set-size", std::to_string(n) + " initial parameters for a population of " + std::to_string(pop), [&] { alg->SetInitialParameters(v); alg->Optimize(f, p.get(), true); });
    }
    {
        Space other = sp;
        other.kind = sp.kind == 0 ? 1 : 0;
        std::vector<IDiscreteParameters::shared_ptr> v;
        for (int i = 0; i < pop; i++) v.push_back(sp.make());
        v[rng.u64() % v.size()] = other.make();
        must_throw("initial-set-type", "an initial set with parameters of another type", [&] { alg->SetInitialParameters(v); alg->Optimize(f, p.get(), true); });
    }
    if (sp.kind < 2)
    {
        Space other = sp;
        if (sp.kind == 0) { if (rng.chance(0.5)) other.lo--; else other.hi -= sp.hi > sp.lo ? 1 : 0, other.lo -= sp.hi > sp.lo ? 0 : 1; }
        else { if (rng.chance(0.5)) other.dlo -= 1; else other.dims++; }
        std::vector<IDiscreteParameters::shared_ptr> v;
        for (int i = 0; i < pop; i++) v.push_back(sp.make());
        v[rng.u64() % v.size()] = other.make();
        must_throw("initial-set-meta", sp.show() + " with an initial set containing " + other.show(), [&] { alg->SetInitialParameters(v); alg->Optimize(f, p.get(), true); });
    }
    if (sp.kind == 0)
    {
        // initial parameters holding a value outside of their bounds
        std::vector<IDiscreteParameters::shared_ptr> v;
        for (int i = 0; i < pop; i++) v.push_back(sp.make());
        size_t k = rng.u64() % v.size(), all = rng.chance(0.3);
        for (size_t i = 0; i < v.size(); i++)
        {
            if (i != k && !all) continue;
            if (IntParameter* x = dynamic_cast<IntParameter*>(v[i].get())) x->set_value(sp.hi + (int)rng.range(1, 40));
        }
        bool broken = false;
        for (auto& q : v) broken = broken || !q->CheckConstraints();
        if (broken)
        {
            must_throw("initial-set-constraints", sp.show() + " with an initial set violating the constraints", [&] { alg->SetInitialParameters(v); alg->Optimize(f, p.get(), true); });
            count("invalid initial sets");
        }
    }
    // population files
    size_t n = p->GetChromosomeSize();
    auto header = [&](long a, long b) { return "Population_size: \n" + std::to_string(a) + "\nChromosome_size: \n" + std::to_string(b) + "\n"; };
    std::vector<std::string> lines;
    while ((int)lines.size() < pop)
    {
        Genes g(n);
        for (size_t i = 0; i < n; i++) g[i] = rng.chance(0.5);
        IDiscreteParameters::shared_ptr q = sp.make();
        q->SetFromChromosome(g.begin(), g.end());
        if (q->CheckConstraints()) lines.push_back("Chromosome:\t" + text(g) + "\tFitness:\t1\n");
    }
    auto attempt = [&](const std::string& content, bool missing)
    {
        if (!missing) { std::ofstream o("pop.txt"); o << content; }
        GeneticAlgorithm::shared_ptr a = GeneticAlgorithm::Create(pop, 0, 2, mut(), 0, 1e300, missing ? "no-such-file.txt" : "pop.txt");
        int r = outcome([&] { a->Optimize(f, p.get(), true); });
        unlink("pop.txt");
        return r;
    };
    auto join = [&](std::vector<std::string> l) { std::string s; for (auto& x : l) s += x; return s; };
    if (n > 0)
    {
        check(attempt(header(pop, (long)n) + join(lines), false) == 0, "good-file-refused", [&] { return "population file refused:\n" + header(pop, (long)n) + join(lines); });
        std::vector<std::pair<std::string, std::string> > bad;
        bad.push_back({"population size", header(pop + 2, (long)n) + join(lines) + lines[0] + lines[0]});
        bad.push_back({"population size", header(pop - 1, (long)n) + join(lines)});
        bad.push_back({"chromosome size", header(pop, (long)n + 1) + join(lines)});
        bad.push_back({"empty file", ""});
        std::vector<std::string> l = lines;
        size_t k = rng.u64() % l.size(), at = 12 + rng.u64() % n;
        l[k][at] = "2xX-. "[rng.u64() % 6];
        bad.push_back({"strange gene", header(pop, (long)n) + join(l)});
        l = lines; l[k].insert(at, "1");
        bad.push_back({"long chromosome", header(pop, (long)n) + join(l)});
        l = lines; if (n > 1) l[k].erase(at, 1); else l[k].erase(0, l[k].size());
        bad.push_back({"short chromosome", header(pop, (long)n) + join(l)});
        l = lines; l.resize(k);
        bad.push_back({"truncated file", header(pop, (long)n) + join(l)});
        l = lines; l[k] = l[k].substr(0, l[k].size() - 2) + "-3\n";
        bad.push_back({"negative fitness", header(pop, (long)n) + join(l)});
        for (int i = 0; i < 200; i++)
        {
            Genes g(n);
            for (size_t j = 0; j < n; j++) g[j] = rng.chance(0.5);
            IDiscreteParameters::shared_ptr q = sp.make();
            q->SetFromChromosome(g.begin(), g.end());
            if (q->CheckConstraints()) continue;
            l = lines; l[k] = "Chromosome:\t" + text(g) + "\tFitness:\t1\n";
            bad.push_back({"invalid individual", header(pop, (long)n) + join(l)});
            count("files with invalid individuals");
            break;
        }
        for (auto& b : bad)
        {
            check(attempt(b.second, false) == 1, "bad-file-accepted", [&] { return sp.show() + ": a population file with " + b.first + " was accepted:\n" + b.second; });
            count("files refused");
        }
    }
    check(attempt("", true) == 1, "missing-file-accepted", "a missing population file was accepted");
    observe(Hash().add(sp.show()).add(pop).add(bad_pop).add(bad_gen).h);
}

// ------------------------------------------------------------------ C35
K52_TASK(descent, "descent")
{
    RunSpec s = random_spec(rng);
    if (s.gens < 2) s.gens = 3;
    if (s.objective == 2 && rng.chance(0.7)) s.objective = 3;
    Variant v;
    v.threads = (unsigned)rng.range(1, 4);
    std::vector<Run> runs = execute({s}, v);
    const Run& r = runs[0];
    completed(s, r);
    IDiscreteParameters::shared_ptr p = s.space.make();
    auto valid = [&](const std::string& g) { Monitoring m; Genes x = genes_of(g); p->SetFromChromosome(x.begin(), x.end()); return p->CheckConstraints(); };
    for (size_t k = 0; k + 1 < r.generations.size(); k++)
    {
        const Generation &g = r.generations[k], &next = r.generations[k + 1];
        if (g.population.size() != (size_t)s.pop || next.population.size() != (size_t)s.pop) fail("population-file", where(s, k) + ": saved population incomplete");
        check(next.contexts.size() == 1 && next.contexts[0].first == (int)k && next.contexts[0].second == s.gens, "mutation-context", [&] { return where(s, k) + ": the mutator was told " + std::to_string(next.contexts.size()) + " contexts, first " + (next.contexts.empty() ? std::string("none") : std::to_string(next.contexts[0].first) + " of " + std::to_string(next.contexts[0].second)); });
        // mutation calls grouped by individual
        std::vector<std::string> pre, post;
        size_t failures = 0;
        bool open = false;
        for (auto& m : next.mutations)
        {
            if (!open) { pre.push_back(m.first); post.push_back(m.second); }
            else
            {
                check(m.first == post.back(), "mutation-sequence", [&] { return where(s, k) + ": repeated mutation starts from " + m.first + " instead of " + post.back(); });
                post.back() = m.second;
            }
            open = !valid(m.second);
            failures += open;
        }
        check(!open && pre.size() == (size_t)s.pop, "mutation-sequence", [&] { return where(s, k) + ": " + std::to_string(pre.size()) + " individuals mutated, last one " + (open ? "invalid" : "valid"); });
        for (size_t i = 0; i < post.size(); i++)
            check(next.population[i].first == post[i], "mutant-lost", [&] { return where(s, k + 1) + ": individual " + std::to_string(i) + " is " + next.population[i].first + " but left mutation as " + post[i]; });
        // elites
        std::vector<double> fit;
        std::multiset<std::string> have;
        for (auto& i : g.population) { fit.push_back(objective_value(s.objective, genes_of(i.first))); have.insert(i.first); }
        std::vector<double> sorted = fit;
        std::sort(sorted.rbegin(), sorted.rend());
        size_t elite = std::min((size_t)s.elite * 2, (size_t)s.pop);
        std::multiset<std::string> copied;
        for (size_t i = 0; i < elite; i++)
        {
            copied.insert(pre[i]);
            double x = objective_value(s.objective, genes_of(pre[i]));
            check(x == sorted[i] && copied.count(pre[i]) <= have.count(pre[i]), "elite", [&] { return where(s, k) + ": carried over as number " + std::to_string(i) + " is " + pre[i] + " worth " + num(x) + ", number " + std::to_string(i) + " of the population is worth " + num(sorted[i]); });
        }
        count("elites compared", elite);
        // children
        std::vector<std::string> parents(have.begin(), have.end());
        parents.erase(std::unique(parents.begin(), parents.end()), parents.end());
        for (size_t i = elite; i + 1 < (size_t)s.pop; i += 2)
        {
            const std::string &a = pre[i], &b = pre[i + 1];
            check(valid(a) && valid(b), "invalid-child", [&] { return where(s, k) + ": children " + a + ", " + b + " violate the constraints"; });
            bool found = false;
            size_t n = a.size();
            for (auto& x : parents)
            {
                size_t pa = 0; while (pa < n && a[pa] == x[pa]) pa++;          // longest common prefix of child and first parent
                for (auto& y : parents)
                {
                    size_t pb = 0; while (pb < n && b[pb] == y[pb]) pb++;
                    size_t sa = n; while (sa > 0 && a[sa - 1] == y[sa - 1]) sa--;
                    size_t sb = n; while (sb > 0 && b[sb - 1] == x[sb - 1]) sb--;
                    if (std::max(sa, sb) <= std::min(pa, pb) && (n == 0 || std::max(sa, sb) < n || true)) { found = true; break; }
                }
                if (found) break;
            }
            check(found, "no-parents", [&] { return where(s, k) + ": no two parents with one cut give " + a + " and " + b + "\n" + g.file_text; });
            count("children explained", 2);
        }
        // how often each individual was chosen
        long crossings = (long)(s.pop - (int)elite) / 2 + next.invalid - (long)failures, chosen = 0;
        std::multiset<double> stat, want(fit.begin(), fit.end());
        for (auto& x : next.stats) { stat.insert(x.first); chosen += x.second; check(x.second >= 0, "times-chosen", "negative number of choices"); }
        check(stat == want, "individual-statistics", [&] { return where(s, k + 1) + ": individual statistics do not list the fitness of the previous generation"; });
        check(chosen == 2 * crossings, "times-chosen", [&] { return where(s, k + 1) + ": individuals chosen " + std::to_string(chosen) + " times for " + std::to_string(crossings) + " crossings"; });
        for (size_t i = 1; i < next.stats.size(); i++) check(next.stats[i].second <= next.stats[i - 1].second, "statistics-order", "individual statistics are not ordered by how often they were chosen");
        count("transitions");
    }
    observe(run_hash(r), r.generations.size() > 1);
    note({s}, runs);
}

K52_TASK(roulette, "roulette")
{
    RunSpec s = random_spec(rng);
    s.space.kind = rng.chance(0.7) ? 1 : 3;
    s.space.dims = 2; s.space.prec = 1e-3;
    static const int kinds[] = {0, 1, 3, 6, 7, 8};
    s.objective = kinds[rng.u64() % 6];
    s.pop = 2 * (int)rng.range(2, 30); s.elite = (int)rng.range(0, 1); s.gens = 60; s.stop = 1e300; s.cache = 0;
    s.mutator = 0; s.mp0 = s.mp1 = 0.3;
    // in small populations one choice that influences another shows
    bool small = rng.chance(0.4);
    if (small) { s.pop = 2 * (int)rng.range(1, 3); s.elite = 0; s.gens = 500; s.space.kind = 1; s.space.dims = 1; }
    double together = 0, together_var = 0;
    Variant v;
    std::vector<Run> runs = execute({s}, v);
    const Run& r = runs[0];
    completed(s, r);
    double z[2] = {0, 0}, var[2] = {0, 0};
    long total = 0;
    for (size_t k = 0; k + 1 < r.generations.size(); k++)
    {
        const Generation& next = r.generations[k + 1];
        double sum = 0, top = 0; long t = 0;
        for (auto& x : next.stats) { sum += x.first; top = std::max(top, x.first); t += x.second; }
        if (sum <= 0) continue;
        for (auto& x : next.stats) check(x.first > 0 || x.second == 0, "hopeless-chosen", [&] { return where(s, k) + ": an individual of fitness 0 was chosen " + std::to_string(x.second) + " times"; });
        for (int w = 0; w < 2; w++)
        {
            double m = 0, q = 0, have = 0;
            for (auto& x : next.stats)
            {
                double u = x.first / top, p = x.first / sum;
                if (w) u = u * u;
                m += p * u; q += p * u * u; have += x.second * u;
            }
            z[w] += have - t * m; var[w] += t * std::max(0.0, q - m * m);
        }
        total += t;
        // how often two choices of a generation were the same individual
        double S = 0, T = 0, same = 0, n = (double)t;
        for (auto& x : next.stats) { double p = x.first / sum, c = (double)x.second; S += p * p; T += p * p * p; same += c * (c - 1) / 2; }
        together += same - n * (n - 1) / 2 * S;
        together_var += std::max(0.0, n * (n - 1) / 2 * (S - S * S) + n * (n - 1) * (n - 2) * (T - S * S));
    }
    if (together_var > 20)
    {
        double d = together / std::sqrt(together_var);
        check(std::fabs(d) < 7.5, "choices-depend", [&] { return s.show() + ": two choices of a generation are the same individual " + num(d) + " sigma away from what independent choices give, over " + std::to_string(total) + " choices"; });
        count("independence statistics");
        peak("thousandths of a sigma, equal choices", (uint64_t)(std::fabs(d) * 1000));
    }
    for (int w = 0; w < 2; w++)
        if (var[w] > 20)
        {
            double d = z[w] / std::sqrt(var[w]);
            check(std::fabs(d) < 7.5, "selection-bias", [&] { return s.show() + ": selection pressure deviates by " + num(d) + " sigma over " + std::to_string(total) + " choices"; });
            count("selection statistics");
        }
    count("choices", (uint64_t)total);
    observe(run_hash(r));
    note({s}, runs);
}

// ------------------------------------------------------------------ C30
K52_TASK(parallel_ga, "parallel-ga")
{
    std::vector<RunSpec> specs(1 + (rng.chance(0.3) ? 1 : 0), random_spec(rng));
    RunSpec& s = specs[0];
    if (s.objective == 2) s.objective = 3;
    if (specs.size() > 1) specs[1].objective = (int)rng.range(0, 8);
    std::vector<std::vector<Run> > runs;
    std::vector<std::string> names;
    for (int i = 0; i < 3; i++)
    {
        Variant v;
        v.threads = i == 0 ? 1 : (unsigned)rng.range(2, 12);
        v.perturb = i == 0 ? 0 : (int)rng.range(1, 3);
        for (RunSpec& x : specs) x.delays = i == 0 ? 0 : 1 + (int)rng.range(1, 100);
        hv::perturb_seed = rng.u64();
        runs.push_back(execute(specs, v));
        names.push_back(std::to_string(v.threads) + " threads, perturbation " + std::to_string(v.perturb));
    }
    for (size_t k = 0; k < specs.size(); k++)
        for (size_t i = 0; i < 3; i++)
        {
            if (i) same_course(names[i] + " against " + names[0], specs[k], runs[0][k], runs[i][k], "parallel-changed-run");
            for (size_t n = 0; n < runs[i][k].generations.size(); n++)
            {
                const Generation &a = runs[0][k].generations[n], &b = runs[i][k].generations[n];
                for (auto& x : b.population) check(std::fabs(x.second - objective_value(specs[k].objective, genes_of(x.first))) <= 1e-5 * std::fabs(x.second), "foreign-fitness", [&]
                                                   { return where(specs[k], n) + ", " + names[i] + ": " + x.first + " has fitness " + num(x.second) + ", worth " + num(objective_value(specs[k].objective, genes_of(x.first))); });
                std::multiset<std::string> ea, eb;
                bool order = true;
                for (size_t j = 0; j < a.evaluated.size(); j++) ea.insert(a.evaluated[j].first);
                for (size_t j = 0; j < b.evaluated.size(); j++) { eb.insert(b.evaluated[j].first); if (j < a.evaluated.size() && a.evaluated[j].first != b.evaluated[j].first) order = false; }
                check(ea == eb, "parallel-evaluations", [&] { return where(specs[k], n) + ", " + names[i] + ": other points evaluated than sequentially"; });
                if (i && !order) count("generations evaluated in another order");
                if (i) { Hash h; for (auto& e : b.evaluated) h.add(e.first); observe(h.h, !order); }
            }
        }
    count("parallel runs compared", 2 * specs.size());
    note(specs, runs[1]);
}

struct SearchF : ContinuousObjectiveFunction
{
    int kind, delays;
    SearchF(int k, int d) : kind(k), delays(d) {}
    static std::string& log() { static std::string* s = new std::string; return *s; }
    double operator()(const std::vector<double>& x) const
    {
        static std::atomic<long> n(0);
        long i = n++;
        if (delays) { hv::perturb_point(); if (i % 5 == 0) usleep(1 + (unsigned)(mix((uint64_t)i + (uint64_t)delays) % 200)); }
        double s = 0;
        for (size_t j = 0; j < x.size(); j++) s += kind == 0 ? (x[j] - 0.7) * (x[j] - 0.7) : kind == 1 ? std::floor(x[j] * 2) : std::sin(3 * x[j]) + 0.1 * x[j];
        std::string l;
        for (double v : x) l += num(v) + ",";
        static std::mutex m;
        std::lock_guard<std::mutex> g(m);
        log() += l + "\n";
        return s;
    }
    SearchF* Clone() const { return new SearchF(kind, delays); }
};
K52_TASK(parallel_search, "parallel-search")
{
    int kind = (int)rng.range(0, 2), inner = (int)rng.range(0, 1);
    size_t dims = (size_t)rng.range(1, 4), points = (size_t)rng.range(1, inner ? 12 : 60);
    bool maximize = rng.chance(0.5) && !(inner && kind == 0);
    double lo = rng.uni(-5, 0), hi = lo + rng.uni(0.5, 6);
    std::vector<std::multiset<std::string> > evals;
    std::vector<std::string> orders, results, names;
    for (int i = 0; i < 3; i++)
    {
        unsigned threads = i == 0 ? 1 : (unsigned)rng.range(2, 12);
        int perturb = i == 0 ? 0 : (int)rng.range(1, 3), delays = i == 0 ? 0 : (int)rng.range(1, 100);
        hv::perturb_seed = rng.u64();
        std::string s = in_child([&]
        {
            hv::hardware_threads = threads;
            hv::perturb_level = perturb;
            SearchF f(kind, delays);
            HookeJeevesMethod hj(1.5, 0.5, 15, 1e-2, 2);
            k52::optimization::RandomSearch rs(points, lo, hi, inner ? &hj : nullptr);
            ContinuousParametersArray p(dims);
            p.SetValues(std::vector<double>(dims, 0.5 * (lo + hi)));
            rs.Optimize(f, &p, maximize);
            std::string r;
            for (double v : p.GetValues()) r += num(v) + ",";
            return r + "\n" + SearchF::log();
        });
        size_t nl = s.find('\n');
        check(nl != std::string::npos, "run-incomplete", "the search's process ended early");
        results.push_back(s.substr(0, nl));
        orders.push_back(s.substr(nl + 1));
        std::istringstream in(orders.back());
        std::string l;
        std::multiset<std::string> e;
        while (std::getline(in, l)) e.insert(l);
        evals.push_back(e);
        names.push_back(std::to_string(threads) + " threads, perturbation " + std::to_string(perturb));
    }
    std::string what = "random search of " + std::to_string(points) + " points, kind " + std::to_string(kind) + (inner ? " with Hooke-Jeeves" : "") + (maximize ? " maximising" : " minimising");
    for (int i = 1; i < 3; i++)
    {
        check(results[i] == results[0], "parallel-changed-search", [&] { return what + ", " + names[i] + ": result " + results[i] + " against " + results[0]; });
        check(evals[i] == evals[0], "parallel-evaluations", [&] { return what + ", " + names[i] + ": other points evaluated"; });
        if (orders[i] != orders[0]) count("searches evaluated in another order");
        observe(hstr(orders[i]), orders[i] != orders[0]);
    }
    count("parallel runs compared", 2);
    count("search evaluations", evals[0].size());
}
}
K52_MAIN
