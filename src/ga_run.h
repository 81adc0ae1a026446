// Runs of the genetic algorithm in child processes (identical process state for every variant of a run); everything they did comes back as a log.
#ifndef K52_VERIF_GA_RUN_H
#define K52_VERIF_GA_RUN_H
#include "harness.h"
#include "perturb.h"
#include "watch.h"
#include <k52/common/random.h>
#include <k52/optimization/discrete_objective_function.h>
#include <k52/optimization/flip_bit_mutator.h>
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/linear_mutator.h>
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <k52/optimization/params/double_parameter.h>
#include <k52/optimization/params/double_parameters_array.h>
#include <k52/optimization/params/int_parameter.h>
#include <atomic>
#include <fstream>
#include <mutex>
#include <set>
#include <sys/wait.h>

namespace ga
{
using namespace k52::optimization;
typedef ChromosomeType Genes;
inline std::string text(const Genes& g) { std::string s(g.size(), '0'); for (size_t i = 0; i < g.size(); i++) if (g[i]) s[i] = '1'; return s; }
inline Genes genes_of(const std::string& s) { Genes g(s.size()); for (size_t i = 0; i < s.size(); i++) g[i] = s[i] == '1'; return g; }
inline Genes encode(const IDiscreteParameters& p) { Genes g(p.GetChromosomeSize()); p.SetChromosome(g.begin(), g.end()); return g; }

inline bool& monitoring() { static thread_local bool m = false; return m; }
struct Monitoring { bool old; Monitoring() : old(monitoring()) { monitoring() = true; } ~Monitoring() { monitoring() = old; } };
// Invalid tries seen through the constraint checks. How often one try is checked is the library's business: `calls` counts
// every failed check, `tries` those that belong to one pair of children or one state of an individual once.
struct Rejections
{
    std::mutex m;
    long calls = 0, tries = 0;
    std::set<const void*> open;         // objects found invalid in the try under way
    void failed(const void* o)
    {
        if (monitoring()) return;
        std::lock_guard<std::mutex> g(m);
        calls++;
        if (open.empty()) tries++;
        open.insert(o);
    }
    void decoded(const void* o) { if (monitoring()) return; std::lock_guard<std::mutex> g(m); if (open.count(o)) open.clear(); }
    void next() { if (monitoring()) return; std::lock_guard<std::mutex> g(m); open.clear(); }
    std::pair<long, long> take() { std::lock_guard<std::mutex> g(m); std::pair<long, long> r(tries, calls); tries = calls = 0; open.clear(); return r; }
};
inline Rejections& rejections() { static Rejections* r = new Rejections; return *r; }
// composite parameters with a constraint over all genes
class Constrained : public CompositeDiscreteParameters
{
public:
    int rule;
    explicit Constrained(int r) : rule(r) {}
    void SetFromChromosome(Genes::const_iterator from, Genes::const_iterator to) { CompositeDiscreteParameters::SetFromChromosome(from, to); rejections().decoded(this); }
    Constrained* Clone() const
    {
        rejections().next();
        std::vector<IDiscreteParameters::shared_ptr> parts(GetNumberOfParameters());
        for (size_t i = 0; i < parts.size(); i++) parts[i] = GetParameter(i);
        Constrained* c = new Constrained(rule);
        c->Initialize(parts);
        return c;
    }
    bool HasSameMetaParameters(const IDiscreteParameters* p) const
    {
        const Constrained* c = dynamic_cast<const Constrained*>(p);
        return c && c->rule == rule && c->GetChromosomeSize() == GetChromosomeSize();
    }
    bool CheckConstraints() const
    {
        bool ok = CompositeDiscreteParameters::CheckConstraints();
        if (ok && rule)
        {
            Genes g = encode(*this);
            size_t ones = 0;
            for (bool b : g) ones += b;
            if (rule == 1) ok = ones * 5 <= g.size() * 3;              // not too many ones
            else if (rule == 2) ok = g.empty() || !(g[0] && g[g.size() - 1]);
            else ok = ones % 2 == 0;
        }
        if (!ok) rejections().failed(this);
        return ok;
    }
};

struct Space
{
    int kind = 0, lo = 0, hi = 1, dims = 1, rule = 0;
    double dlo = 0, dhi = 1, prec = 0.1;
    std::string show() const
    {
        std::ostringstream o;
        if (kind == 0) o << "int[" << lo << "," << hi << "]";
        else if (kind == 1) o << "double[" << dlo << "," << dhi << "]/" << prec << "x" << dims;
        else o << (kind == 2 ? "composite" : "constrained") << "(int[" << lo << "," << hi << "],double[" << dlo << "," << dhi << "]/" << prec << "x" << dims << ") rule " << rule;
        return o.str();
    }
    IDiscreteParameters::shared_ptr make() const
    {
        if (kind == 0) return IDiscreteParameters::shared_ptr(new IntParameter(lo, hi));
        if (kind == 1) return IDiscreteParameters::shared_ptr(new DoubleParametersArray(dlo, dhi, prec, (size_t)dims));
        std::vector<IDiscreteParameters::shared_ptr> parts;
        parts.push_back(IDiscreteParameters::shared_ptr(new IntParameter(lo, hi)));
        for (int i = 0; i < dims; i++) parts.push_back(IDiscreteParameters::shared_ptr(new DoubleParameter(dlo, dlo, dhi, prec)));
        CompositeDiscreteParameters* c = kind == 2 ? new CompositeDiscreteParameters() : new Constrained(rule);
        c->Initialize(parts);
        return IDiscreteParameters::shared_ptr(c);
    }
};
inline Space random_space(hv::Rng& rng)
{
    Space s;
    s.kind = (int)rng.range(0, 5);
    if (s.kind > 3) s.kind = 3;
    s.lo = (int)rng.range(-1000, 1000);
    static const int widths[] = {0, 1, 2, 4, 6, 7, 15, 25, 100, 255, 600, 1000000, 2000000000};
    int64_t hi = (int64_t)s.lo + widths[rng.u64() % (s.kind == 0 ? 13 : 10)];
    s.hi = hi > 2147483647 ? 2147483647 : (int)hi;
    s.dims = (int)rng.range(1, 4);
    s.dlo = rng.uni(-10, 5); s.dhi = s.dlo + rng.uni(0.5, 20);
    s.prec = rng.chance(0.3) ? 0.5 : std::pow(10, -rng.uni(0, 3));
    s.rule = (int)rng.range(0, 3);
    if (rng.chance(0.06))       // long chromosomes
    {
        s.kind = (int)rng.range(1, 3);
        s.dims = (int)rng.range(5, 30);
        s.prec = (s.dhi - s.dlo) * std::pow(2, -rng.uni(1, rng.chance(0.3) ? 25 : 8));
        hv::count("long chromosomes");
    }
    return s;
}

inline double objective_value(int kind, const Genes& g)
{
    uint64_t h = 0x12345 + (uint64_t)kind;
    size_t ones = 0;
    for (bool b : g) { h = hv::mix(h * 3 + (b ? 1 : 2)); ones += b; }
    switch (kind)
    {
    case 0: return (double)ones;
    case 1: return (double)(h % 5);
    case 2: return 0;
    case 3: return (double)(h >> 11) / 9007199254740992.0 * 100;
    case 4: return h % 40 == 0 ? 1000.0 : 1e-3;
    case 5: return std::ldexp((double)(h >> 12), (int)(h % 20) - 30);
    case 6: { double s = 0, w = 1; for (bool b : g) { s += b ? w : 0; w *= 0.75; } return s; }
    case 7: return (double)(g.size() - ones) * 2 + 1;
    case 9: return 1e9 + (double)ones;                                      // differences beyond single precision
    case 10: return 1 + (double)(h % 97) * 1e-13;                           // differences of a few hundred units in the last place
    case 11: return (double)(h % 97) * 1e-12;                               // all of them small
    case 12: return std::ldexp(1 + (double)(h % 1000) / 1000, 900);         // very large
    default: return 1 + (double)(h % 1000) / 3;
    }
}

struct RunSpec
{
    Space space;
    int objective = 0, pop = 2, elite = 0, gens = 1, mutator = 0;
    double mp0 = 0, mp1 = 0, cache = 0, stop = 1e300;
    std::string file;                       // population to start from
    std::vector<std::string> initial;       // initial parameters (genes)
    long throw_at = -1;                     // the evaluation that throws
    bool callback = true, save = true;
    bool set_again = true;                  // initial parameters given before every run of one object, else before the first only
    int delays = 0;
    std::string show() const
    {
        std::ostringstream o;
        o << space.show() << " objective " << objective << " pop " << pop << " elite " << elite << " gens " << gens << " mutator " << mutator << "(" << mp0 << "," << mp1 << ") cache " << cache << " stop " << stop
          << (file.empty() ? "" : " from file") << (initial.empty() ? "" : " from initial set") << (throw_at >= 0 ? " throwing at " + std::to_string(throw_at) : "");
        return o.str();
    }
};

struct Generation
{
    size_t number = 0;
    double average = 0, best = 0;
    int hits = 0, invalid = 0;
    long rejected = 0, checks_failed = 0;   // invalid tries and failed constraint checks the monitor saw
    std::string best_genes;
    bool best_valid = false;
    std::vector<std::pair<double, int> > stats;
    std::vector<std::pair<std::string, double> > population;    // from the saved file
    std::string file_text;
    // what happened since the previous generation
    std::vector<std::pair<std::string, bool> > evaluated;       // genes, valid
    std::vector<double> values;
    // mutations leading to this generation
    std::vector<std::pair<std::string, std::string> > mutations;
    std::vector<std::pair<int, int> > contexts;
};
struct Run
{
    std::vector<Generation> generations;
    Generation tail;                        // what happened after the last callback
    std::string result;                     // genes of the caller's parameters
    bool result_valid = false;
    std::string thrown;
    std::vector<std::pair<std::string, double> > all() const
    {
        std::vector<std::pair<std::string, double> > r;
        for (size_t k = 0; k <= generations.size(); k++)
        {
            const Generation& g = k < generations.size() ? generations[k] : tail;
            for (size_t i = 0; i < g.evaluated.size(); i++) r.push_back({g.evaluated[i].first, g.values[i]});
        }
        return r;
    }
};

// ------------------------------------------------------------------ in the child
struct Recorder
{
    std::mutex m;
    std::string out;
    std::atomic<long> evals{0};
    const RunSpec* spec = nullptr;
    std::vector<std::string> saved;
    void line(const std::string& s) { std::lock_guard<std::mutex> g(m); out += s; out += '\n'; }
    static Recorder& get() { static Recorder* r = new Recorder; return *r; }
};
struct ObjectiveFailure : std::runtime_error { ObjectiveFailure() : std::runtime_error("objective failure 4711") {} };
inline std::string d2s(double d) { return hv::num(d); }
struct Objective : DiscreteObjectiveFunction
{
    int kind; long throw_at; int delays;
    Objective(int k, long t, int d) : kind(k), throw_at(t), delays(d) {}
    double operator()(const IDiscreteParameters* const p) const
    {
        Monitoring mon;
        long n = Recorder::get().evals++;
        if (delays) { hv::perturb_point(); if (n % 7 == 0 && delays > 1) usleep(1 + (unsigned)(hv::mix((uint64_t)n * 31 + (uint64_t)delays) % 300)); }
        Genes g = encode(*p);
        bool valid = p->CheckConstraints();
        double v = objective_value(kind, g);
        Recorder::get().line("E " + (g.empty() ? std::string("-") : text(g)) + " " + d2s(v) + " " + (valid ? "1" : "0"));
        if (n == throw_at) throw ObjectiveFailure();
        return v;
    }
    Objective* Clone() const { return new Objective(kind, throw_at, delays); }
};
struct LoggedMutator : IMutator
{
    IMutator::shared_ptr inner;
    explicit LoggedMutator(IMutator::shared_ptr i) : inner(i) {}
    void ApplyNewMutationContext(const MutationContext& c)
    {
        Recorder::get().line("X " + std::to_string(c.current_generation) + " " + std::to_string(c.max_number_of_generations));
        inner->ApplyNewMutationContext(c);
    }
    void MutateChromosome(ChromosomeType* c)
    {
        std::string pre = text(*c);
        inner->MutateChromosome(c);
        Recorder::get().line("M -" + pre + " -" + text(*c));
    }
};
inline void on_generation(GenerationStatistics st)
{
    Monitoring mon;
    Recorder& r = Recorder::get();
    std::pair<long, long> rejected = rejections().take();
    const IDiscreteParameters* p = dynamic_cast<const IDiscreteParameters*>(st.get_best_parameters());
    std::string s = "G " + std::to_string(st.get_number_of_generation()) + " " + d2s(st.get_average_fitness()) + " " + d2s(st.get_best_fitness()) + " " + std::to_string(st.get_cache_hits()) + " " +
        std::to_string(st.get_invalid_chromosomes()) + " " + std::to_string(rejected.first) + " " + std::to_string(rejected.second) + " -" + text(encode(*p)) + " " + (p->CheckConstraints() ? "1" : "0");
    std::list<IndividualStatistics> l = st.get_all_individuals_statistics();
    for (const IndividualStatistics& i : l) s += " " + d2s(i.fitness) + ":" + std::to_string(i.times_chosen_for_crossover);
    r.line(s);
    if (r.spec->save)
    {
        std::string name = "population." + std::to_string(r.saved.size());
        // what the file held before must not matter
        if (r.saved.size() % 3 == 1) { std::ofstream f(name); for (int i = 0; i < 5000; i++) f << "Chromosome:\t01\tFitness:\t1\n"; }
        if (r.saved.size() % 3 == 2) st.SaveCurrentPopulationToFile(name);
        st.SaveCurrentPopulationToFile(name);
        r.saved.push_back(name);
    }
}
inline IMutator::shared_ptr make_mutator(const RunSpec& s)
{
    IMutator::shared_ptr m;
    if (s.mutator == 0) m.reset(new LinearMutator(s.mp0, s.mp1));
    else m.reset(new FlipBitMutator(s.mp0));
    return IMutator::shared_ptr(new LoggedMutator(m));
}

// In the child: runs the specs one after another; reuse: all on one algorithm object. The mutator is that of the first spec.
inline void child_runs(const std::vector<RunSpec>& specs, bool reuse)
{
    Recorder& r = Recorder::get();
    IMutator::shared_ptr mutator = make_mutator(specs[0]);
    GeneticAlgorithm::shared_ptr one;
    for (const RunSpec& s : specs)
    {
        r.spec = &s;
        r.saved.clear();
        r.evals = 0;
        rejections().take();
        GeneticAlgorithm::shared_ptr alg = one;
        const bool fresh = !one;
        IDiscreteParameters::shared_ptr p = s.space.make();
        Objective f(s.objective, s.throw_at, s.delays);
        try
        {
            if (!alg)
            {
                alg = GeneticAlgorithm::Create(s.pop, s.elite, s.gens, mutator, s.cache, s.stop, s.file);
                if (!alg) throw std::runtime_error("no algorithm created");
                if (s.callback) alg->OnNextGenerationReadyConnect(on_generation);
                if (reuse) one = alg;
            }
            if (!s.initial.empty() && (fresh || s.set_again))
            {
                std::vector<IDiscreteParameters::shared_ptr> v(s.initial.size());
                for (size_t i = 0; i < v.size(); i++)
                {
                    Genes g = genes_of(s.initial[i]);
                    v[i] = s.space.make();
                    v[i]->SetFromChromosome(g.begin(), g.end());
                }
                alg->SetInitialParameters(v);
                // the caller's own objects may change afterwards
                for (size_t i = 0; i < v.size(); i++) { Genes g(v[i]->GetChromosomeSize(), false); v[i]->SetFromChromosome(g.begin(), g.end()); }
            }
            alg->Optimize(f, p.get(), true);
        }
        catch (const ObjectiveFailure& e) { r.line("T objective"); }
        catch (const std::exception& e) { std::string w = e.what(); for (char& c : w) if (c == '\n') c = ' '; r.line("T std " + w); }
        catch (...) { r.line("T unknown"); }
        {
            Monitoring mon;
            r.line("R -" + text(encode(*p)) + " " + (p->CheckConstraints() ? "1" : "0"));
        }
        for (size_t i = 0; i < r.saved.size(); i++)
        {
            std::ifstream in(r.saved[i]);
            std::string l;
            r.line("F " + std::to_string(i));
            while (std::getline(in, l)) r.line("L" + l);
            unlink(r.saved[i].c_str());
        }
        r.line("D");
    }
}

// Forks, runs body in the child and returns the child's text.
template <class F> std::string in_child(F body)
{
    int fds[2];
    if (pipe(fds)) _exit(3);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) _exit(3);
    if (pid == 0)
    {
        close(fds[0]);
        int null = open("/dev/null", O_WRONLY);
        dup2(null, 1);
        hv::start_watchdog();
        std::string s = body();
        const char* p = s.data(); size_t n = s.size();
        while (n > 0) { ssize_t w = write(fds[1], p, n); if (w <= 0) _exit(3); p += w; n -= (size_t)w; }
        _exit(0);
    }
    close(fds[1]);
    std::string s;
    char buf[65536];
    ssize_t n;
    while ((n = read(fds[0], buf, sizeof buf)) > 0) s.append(buf, (size_t)n);
    close(fds[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(98); }
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    return s;
}

inline std::vector<Run> parse(const std::string& s)
{
    std::vector<Run> runs;
    Run run;
    Generation cur;
    std::istringstream in(s);
    std::string l;
    long file = -1;
    while (std::getline(in, l))
    {
        std::istringstream f(l.substr(1));
        std::string a, b;
        switch (l[0])
        {
        case 'E': { std::string v, ok; f >> a >> v >> ok; cur.evaluated.push_back({a == "-" ? "" : a, ok == "1"}); cur.values.push_back(strtod(v.c_str(), nullptr)); break; }
        case 'X': { int x, y; f >> x >> y; cur.contexts.push_back({x, y}); break; }
        case 'M': f >> a >> b; cur.mutations.push_back({a.substr(1), b.substr(1)}); break;
        case 'G':
        {
            std::string av, be, ok;
            f >> cur.number >> av >> be >> cur.hits >> cur.invalid >> cur.rejected >> cur.checks_failed >> a >> ok;
            cur.average = strtod(av.c_str(), nullptr); cur.best = strtod(be.c_str(), nullptr);
            cur.best_genes = a.substr(1); cur.best_valid = ok == "1";
            while (f >> b) { size_t c = b.find(':'); cur.stats.push_back({strtod(b.substr(0, c).c_str(), nullptr), atoi(b.c_str() + c + 1)}); }
            run.generations.push_back(cur);
            cur = Generation();
            break;
        }
        case 'T': run.thrown = l.substr(2); break;
        case 'R': f >> a >> b; run.result = a.substr(1); run.result_valid = b == "1"; break;
        case 'F': f >> file; break;
        case 'L':
            if (file >= 0 && file < (long)run.generations.size())
            {
                Generation& g = run.generations[(size_t)file];
                g.file_text += l.substr(1) + "\n";
                if (l.compare(1, 11, "Chromosome:") == 0)
                {
                    std::string rest = l.substr(12);
                    size_t tab = rest.find('\t', 1), last = rest.rfind('\t');
                    g.population.push_back({rest.substr(1, tab == std::string::npos ? 0 : tab - 1), strtod(rest.c_str() + (last == std::string::npos ? 0 : last), nullptr)});
                }
            }
            break;
        case 'D': run.tail = cur; runs.push_back(run); run = Run(); cur = Generation(); file = -1; break;
        }
    }
    return runs;
}

struct Variant { unsigned threads = 2; int perturb = 0; bool reuse = true; };
inline std::vector<Run> execute(const std::vector<RunSpec>& specs, const Variant& v)
{
    std::string s = in_child([&]
    {
        hv::hardware_threads = v.threads;
        hv::perturb_level = v.perturb;
        child_runs(specs, v.reuse);
        return Recorder::get().out;
    });
    std::vector<Run> r = parse(s);
    if (r.size() != specs.size()) hv::fail("run-incomplete", "the algorithm's process ended before its runs were over");
    return r;
}

inline RunSpec random_spec(hv::Rng& rng)
{
    RunSpec s;
    s.space = random_space(rng);
    s.objective = (int)rng.range(0, 12);
    s.pop = 2 * (int)rng.range(1, rng.chance(0.2) ? 20 : 7);
    s.elite = rng.chance(0.4) ? 0 : (int)rng.range(1, std::max(1, s.pop / 2));
    s.gens = (int)rng.range(1, rng.chance(0.2) ? 25 : 9);
    // now and then many individuals or many generations
    if (rng.chance(0.015)) { s.pop = 2 * (int)rng.range(100, 220); s.elite = rng.chance(0.5) ? 0 : (int)rng.range(1, s.pop / 2); s.gens = (int)rng.range(1, 3); }
    else if (rng.chance(0.01)) { s.pop = 2 * (int)rng.range(1, 3); s.elite = (int)rng.range(0, 1); s.gens = (int)rng.range(50, rng.chance(0.3) ? 700 : 160); }
    s.mutator = (int)rng.range(0, 1);
    if (s.mutator == 0)
    {
        auto p = [&] { int k = (int)rng.range(0, 5); return k == 0 ? 0.0 : k == 1 ? 1.0 : rng.uni(0, 0.3); };
        s.mp0 = p(); s.mp1 = p();
    }
    else s.mp0 = rng.chance(0.3) ? 0.5 : rng.uni(0.01, 0.5);
    static const double caches[] = {0, -1, 1e-9, 0.0002, 0.001, 0.01, 50};
    s.cache = caches[rng.u64() % 7];
    if (rng.chance(0.4)) { static const double stops[] = {0, 1, 3, 5, 60, 1000}; s.stop = stops[rng.u64() % 6]; }
    return s;
}
}
#endif
