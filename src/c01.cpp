// C01: hostile programs. Random sequences of public calls with valid and hostile arguments over live objects of all
// modules; the sanitizers (and valgrind's memcheck in the other build) are the oracle. Every returned value is branched on,
// so that uninitialised ones are seen by memcheck.
#include "harness.h"
#include <boost/bind.hpp>
#include <boost/thread.hpp>
#include <k52/common/cache.h>
#include <k52/common/floating_point.h>
#include <k52/common/helpers.h>
#include <k52/common/random.h>
#include <k52/common/settings_manager.h>
#include <k52/dsp/akima_spline.h>
#include <k52/dsp/akima_wavelet_function.h>
#include <k52/dsp/cwt.h>
#include <k52/dsp/haar_wavelet_function.h>
#include <k52/dsp/mhat_wavelet_function.h>
#include <k52/dsp/morlet_wavelet_function.h>
#include <k52/dsp/transform/circular_convolution.h>
#include <k52/dsp/transform/fast_fourier_transform.h>
#include <k52/dsp/transform/fourier_based_circular_convolution.h>
#include <k52/dsp/transform/fourier_transform.h>
#include <k52/dsp/transform/inverse_fourier_transform.h>
#include <k52/dsp/transform/wavelet/fast_wavelet_transform.h>
#include <k52/dsp/transform/wavelet/linear_scale.h>
#include <k52/dsp/transform/wavelet/logarithmic_scale.h>
#include <k52/optimization/bounded_nelder_mead.h>
#include <k52/optimization/conjugate_gradient_method.h>
#include <k52/optimization/continuous_objective_function.h>
#include <k52/optimization/discrete_objective_function.h>
#include <k52/optimization/flip_bit_mutator.h>
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/grid_search.h>
#include <k52/optimization/hleborodov_rosenbrock_method.h>
#include <k52/optimization/hooke_jeeves_method.h>
#include <k52/optimization/individual.h>
#include <k52/optimization/linear_mutator.h>
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <k52/optimization/params/continuous_parameters_array.h>
#include <k52/optimization/params/double_parameter.h>
#include <k52/optimization/params/double_parameters_array.h>
#include <k52/optimization/params/int_parameter.h>
#include <k52/optimization/random_search.h>
#include <k52/optimization/simulated_annealing.h>
#include <k52/optimization/steepest_descent_method.h>
#include <k52/parallel/mpi/identifyable_objects_manager.h>
#include <k52/parallel/worker_pool_factory.h>
#include <parallel/sequential_worker_pool.h>
#include <parallel/thread/thread_safe_queue.h>
#include <parallel/thread/thread_worker_pool.h>
#include <climits>
#include <signal.h>
#include <sys/time.h>
#include <fstream>
#include <memory>
#include "watch.h"
using namespace hv;
using namespace k52::dsp;
using namespace k52::optimization;
using namespace k52::parallel;
using k52::common::Random; using k52::common::FloatingPoint; using k52::SettingsManager;
typedef std::vector<double> Point;
typedef std::complex<double> cd;

namespace
{
// a call that computes for very long without evaluating anything
void too_long(int)
{
    static const char text[] = "V {\"case\":-1,\"key\":\"endless-call\",\"detail\":\"a program of public calls used 40 s of processor time\"}\n";
    if (write(Log::get().fd, text, sizeof text - 1)) {}
    _exit(0);
}
struct Setup
{
    Setup()
    {
        signal(SIGVTALRM, too_long);
        case_setup() = [](uint64_t s) { itimerval t = {{0, 0}, {40, 0}}; setitimer(ITIMER_VIRTUAL, &t, nullptr); Random::Instance(); srand((unsigned)s); };
    }
} setup;
volatile long positive = 0;
// branches on the value
void use(double x) { if (x > 0) positive = positive + 1; }
void use(long x) { if (x > 0) positive = positive + 1; }
void use(int x) { use((long)x); }
void use(size_t x) { use((long)x); }
void use(bool x) { use((long)x); }
void use(const cd& x) { use(x.real()); use(x.imag()); }
void use(const std::string& s) { for (char c : s) use((int)c); }
template <class T> void use(const std::vector<T>& v) { for (const auto& x : v) use((T)x); }

struct Args
{
    Rng& rng;
    double hostility;       // probability of a hostile value
    double large;           // probability of a much larger size
    int growth;
    double real()
    {
        static const double odd[] = {0, -0.0, 1, -1, 0.5, 1e-300, 5e-324, 1e300, -1e300, 1.7976931348623157e308, INFINITY, -INFINITY, NAN, 1e-10, 2147483647.0, -2147483648.0, 4294967296.0, 1e17};
        return rng.chance(hostility) ? odd[rng.range(0, 17)] : rng.chance(0.3) ? (double)rng.range(-5, 9) : rng.uni(-10, 10);
    }
    double positive_real() { double x = real(); return rng.chance(hostility) ? x : std::fabs(x) + 1e-3; }
    int integer()
    {
        static const int odd[] = {0, -1, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 1 << 30, -65536};
        return rng.chance(hostility) ? odd[rng.range(0, 7)] : (int)rng.range(-20, 60);
    }
    int small() { return rng.chance(hostility) ? (int)rng.range(-3, 1) : (int)rng.range(1, 8); }
    size_t size(size_t most = 24) { return (size_t)(large > 0 && rng.chance(large) ? rng.range((int64_t)most, (int64_t)most * growth) : rng.chance(0.15) ? 0 : rng.chance(0.2) ? 1 : rng.range(0, (int64_t)most)); }
    Point point(size_t n) { Point p(n); for (double& x : p) x = real(); return p; }
    Point tame(size_t n) { Point p(n); for (double& x : p) x = rng.uni(-5, 5); return p; }
    std::vector<cd> signal(size_t n) { std::vector<cd> p(n); for (cd& x : p) x = cd(real(), real()); return p; }
    std::string word()
    {
        static const char* w[] = {"a", "", "a.b", "..", ".", "a..b", "key", "\n", "a=b", "--", "x.y.z", "<", "1"};
        return w[rng.range(0, 12)];
    }
    template <class T> T& one(std::vector<T>& v) { return v[rng.u64() % v.size()]; }
};
struct Program
{
    Args a;
    std::vector<std::pair<const char*, std::function<void()> > > ops;
    Hash h;
    Program(Rng& r, double hostile) : a{r, hostile, 0, 2} {}
    void op(const char* name, std::function<void()> f) { ops.push_back({name, f}); }
    void run(long steps)
    {
        for (long i = 0; i < steps; i++)
        {
            auto& o = ops[a.rng.u64() % ops.size()];
            h.add(std::string(o.first));
            try { o.second(); count("calls completed"); h.add(1); }
            catch (const Violation&) { throw; }
            catch (const std::exception&) { count("calls that threw"); h.add(2); }
            catch (const char*) { count("calls that threw"); h.add(3); }
            count(std::string("ops ") + o.first);
        }
    }
};
bool in_valgrind() { const char* p = getenv("LD_PRELOAD"); return p && strstr(p, "vgpreload"); }
double hostility(Rng& rng) { static const double h[] = {0, 0.03, 0.12, 0.5}; return h[rng.range(0, 3)]; }
template <class T> void keep(std::vector<T>& v, const T& x, Rng& rng, size_t most = 6)
{
    if (!x) return;
    if (v.size() < most) v.push_back(x); else v[rng.u64() % v.size()] = x;
}

// ------------------------------------------------------------------ common
K52_TASK(common_program, "common")
{
    Program p(rng, hostility(rng));
    Args& a = p.a;
    Random& r = Random::Instance();
    typedef k52::common::Cache<std::string, std::vector<double> > Cache;
    std::vector<Cache::shared_ptr> caches;
    std::vector<std::shared_ptr<SettingsManager> > settings;
    p.op("random base", [&] { use(r.GetBaseRandomQuantity()); use(r.GetRandomBool()); });
    p.op("random continuous", [&] { use(r.GetContinuousRandomQuantity(a.real(), a.real())); });
    p.op("random vector", [&] { use(r.GenerateRandomVector(a.size(), a.real(), a.real())); });
    p.op("random discrete", [&] { use(r.GetUniformlyDistributedDiscreteRandomQuantity(a.integer(), a.integer())); });
    p.op("random event", [&] { use(r.CheckEventOutcome(rng.chance(0.5) ? rng.uni() : a.real())); });
    p.op("cache create", [&] { keep(caches, Cache::Create(rng.chance(0.5) ? 1e-3 : a.real()), rng); });
    auto key = [&] { return "k" + std::to_string(rng.range(0, 30)); };
    p.op("cache add", [&] { if (!caches.empty()) a.one(caches)->AddValue(key(), a.point(a.size())); });
    p.op("cache add many", [&] { if (caches.empty()) return; std::vector<Cache::CacheRecord> v; for (size_t i = a.size(); i > 0; i--) v.push_back(Cache::CacheRecord(key(), a.point(a.size()))); a.one(caches)->AddValues(v); });
    p.op("cache get", [&] { if (caches.empty()) return; auto& c = a.one(caches); std::string k = key(); use(c->IsCached(k)); use(c->GetCachedValue(k)); });
    p.op("settings from arguments", [&]
    {
        std::vector<std::string> w;
        for (size_t i = a.size(6); i > 0; i--) w.push_back((rng.chance(0.7) ? "--" : "") + a.word() + (rng.chance(0.7) ? "=" + a.word() : ""));
        std::vector<const char*> c;
        for (auto& s : w) c.push_back(s.c_str());
        c.push_back("");
        settings.push_back(std::make_shared<SettingsManager>((int)w.size(), &c[0]));
    });
    p.op("settings from a file", [&]
    {
        std::ofstream f("s.xml");
        static const char* text[] = {"<a>1</a>", "<a><b>x</b><b/></a>", "<a", "", "<a>&amp;</a>", "<a>&#99999999;</a>", "<!--", "<?xml version='1.0'?><k v=\"3\">7</k>", "\xff\xfe", "<a><![CDATA[ ]]></a>"};
        f << text[rng.range(0, 9)];
        f.close();
        settings.push_back(std::make_shared<SettingsManager>(std::string(rng.chance(0.8) ? "s.xml" : "missing")));
    });
    p.op("settings put", [&] { if (settings.empty()) return; SettingsManager& s = *a.one(settings); std::string n = a.word(); switch (rng.range(0, 2)) { case 0: s.put(n, a.real()); break; case 1: s.put(n, a.integer()); break; default: s.put(n, a.word()); } });
    p.op("settings get", [&] { if (settings.empty()) return; SettingsManager& s = *a.one(settings); std::string n = a.word(); switch (rng.range(0, 3)) { case 0: use(s.get<double>(n)); break; case 1: use(s.get<int>(n, 3)); break; case 2: use(s.get<bool>(n)); break; default: use(s.get<std::string>(n, std::string("d"))); } });
    p.op("floating point", [&] { use(FloatingPoint::AreEqual(a.real(), a.real())); use(FloatingPoint::IsZero(a.real())); use(FloatingPoint::AreEqual(a.point(a.size()), a.point(a.size()))); });
    p.op("helpers", [&] { use(k52::common::Helpers::Conjugate(a.signal(a.size()))); k52::common::Helpers::PrintVector(a.point(a.size())); });
    p.run(rng.range(10, 120));
    observe(p.h.h);
}

// ------------------------------------------------------------------ dsp
struct Odd : IWavelet { Args a; explicit Odd(Args b) : a(b) {} cd GetValue(double t) { if (a.rng.chance(0.002)) throw std::runtime_error("wavelet"); return cd(a.real(), t); } };
struct OddScale : IScale { Point s; std::vector<double> GetScales() const { return s; } };
// asked for no value at NaN: std::polar of NaN, one of the ways to write this function, is not allowed there
struct Morlet : MorletWaveletFunction { std::complex<double> GetValue(double t) { return t != t ? std::complex<double>(t, t) : MorletWaveletFunction::GetValue(t); } };
K52_TASK(dsp_program, "dsp")
{
    Program p(rng, hostility(rng));
    Args& a = p.a;
    a.large = rng.chance(0.5) && !in_valgrind() ? 0.06 : 0;
    std::vector<Point> knots;
    std::vector<IFourierTransform::shared_ptr> ft;
    std::vector<std::shared_ptr<InverseFourierTransform> > inv;
    std::vector<ICircularConvolution::shared_ptr> conv;
    std::vector<AkimaSpline::shared_ptr> splines;
    std::vector<boost::shared_ptr<IWavelet> > waves;
    std::vector<boost::shared_ptr<SplineBased> > based;
    std::vector<IScale::shared_ptr> scales;
    std::vector<std::shared_ptr<FastWaveletTransform> > fwt;
    std::vector<Wavelet::shared_ptr> cwt;
    p.op("fft create", [&] { keep(ft, IFourierTransform::shared_ptr(new FastFourierTransform(a.size(rng.chance(a.large) ? 200 : 40))), rng); });
    p.op("ft create", [&] { keep(ft, IFourierTransform::shared_ptr(new FourierTransform()), rng); });
    p.op("inverse create", [&] { if (!ft.empty()) keep(inv, std::make_shared<InverseFourierTransform>(a.one(ft)), rng); });
    p.op("transform", [&] { if (!ft.empty()) use(a.one(ft)->Transform(a.signal(a.size(40)))); });
    p.op("inverse transform", [&] { if (!inv.empty()) use(a.one(inv)->Transform(a.signal(a.size(40)))); });
    p.op("convolution create", [&] { if (ft.empty() || rng.chance(0.3)) keep(conv, ICircularConvolution::shared_ptr(new CircularConvolution()), rng); else keep(conv, ICircularConvolution::shared_ptr(new FourierBasedCircularConvolution(a.one(ft))), rng); });
    p.op("convolution", [&] { if (conv.empty()) return; size_t n = a.size(40); use(a.one(conv)->EvaluateConvolution(a.signal(n), a.signal(rng.chance(0.8) ? n : a.size(40)))); });
    p.op("spline create", [&] { keep(splines, AkimaSpline::Create(), rng); });
    p.op("spline initialize", [&]
    {
        if (splines.empty()) return;
        a.growth = 14; size_t n = a.size(12); a.growth = 2; Point x = a.point(n);
        if (rng.chance(0.8)) { x = a.tame(n); std::sort(x.begin(), x.end()); if (n > 1 && rng.chance(a.hostility)) x[rng.u64() % n] = a.real(); }
        knots.push_back(x);
        AkimaSpline::shared_ptr s = a.one(splines);
        s->Initialize(x, a.point(rng.chance(0.9) ? n : a.size(12)));
        for (double k : x) use(s->Value(k));
    });
    p.op("spline at knots", [&] { if (splines.empty() || knots.empty()) return; AkimaSpline::shared_ptr s = a.one(splines); for (double k : a.one(knots)) use(s->Value(k)); });
    p.op("spline value", [&] { if (!splines.empty()) for (int i = 0; i < 5; i++) use(a.one(splines)->Value(rng.uni(-6, 6))); });
    p.op("spline odd value", [&] { if (!splines.empty()) use(a.one(splines)->Value(a.real())); });
    p.op("wavelet create", [&]
    {
        switch (rng.range(0, 4))
        {
        case 0: keep(waves, IWavelet::shared_ptr(new HaarWaveletFunction()), rng); break;
        case 1: keep(waves, IWavelet::shared_ptr(new MhatWaveletFunction()), rng); break;
        case 2: keep(waves, IWavelet::shared_ptr(new Morlet()), rng); break;
        case 3: keep(waves, IWavelet::shared_ptr(new Odd(a)), rng); break;
        default: { a.growth = 14; size_t n = a.size(16); a.growth = 2; AkimaWavelet::shared_ptr w = AkimaWavelet::CreateAkimaWavelet(a.point(n), a.point(rng.chance(0.9) ? n : a.size())); keep(based, boost::shared_ptr<SplineBased>(w), rng); keep(waves, IWavelet::shared_ptr(w), rng); }
        }
    });
    p.op("wavelet value", [&] { if (!waves.empty()) use(a.one(waves)->GetValue(a.real())); });
    p.op("wavelet init again", [&] { if (!based.empty()) { size_t n = a.size(16); a.one(based)->Init(a.point(n), a.point(n)); } });
    p.op("linear scale", [&] { keep(scales, IScale::shared_ptr(new LinearScale(a.positive_real(), a.positive_real(), a.size())), rng); });
    p.op("odd logarithmic scale", [&] { int lo = a.integer(), hi = a.integer(); if (hi < 3000 || lo < -3000) keep(scales, IScale::shared_ptr(new LogarithmicScale(lo, hi)), rng); });
    p.op("logarithmic scale", [&] { int lo = (int)rng.range(-8, 8); keep(scales, IScale::shared_ptr(new LogarithmicScale(lo, rng.chance(0.8) ? lo + (int)rng.range(0, 6) : (int)rng.range(-10, 10))), rng); });
    p.op("own scale", [&] { OddScale* s = new OddScale; s->s = a.point(a.size(5)); keep(scales, IScale::shared_ptr(s), rng); });
    p.op("scales", [&] { if (!scales.empty()) use(a.one(scales)->GetScales()); });
    p.op("fwt create", [&] { if (!scales.empty()) keep(fwt, std::make_shared<FastWaveletTransform>(a.one(scales), a.size(40), rng.chance(0.5) ? -1 : rng.chance(0.5) ? rng.uni(0, 0.01) : a.real()), rng); });
    p.op("fwt transform", [&] { if (fwt.empty() || waves.empty()) return; auto r = a.one(fwt)->Transform(a.signal(a.size(40)), a.one(waves)); for (auto& v : r) use(v); });
    p.op("fwt one scale", [&] { if (fwt.empty() || waves.empty()) return; use(a.one(fwt)->TransformOneScale(a.signal(a.size(40)), a.one(waves), a.positive_real())); });
    // lengths and counts: any that fit into memory
    auto length = [&](int most) { static const int odd[] = {0, -1, INT_MIN, INT_MIN + 1, -65536, 1, 2, 3}; return rng.chance(a.hostility) ? odd[rng.range(0, 7)] : (int)rng.range(1, most); };
    auto kind = [&] { return rng.chance(0.5) ? Wavelet::Log : Wavelet::Linear; };
    p.op("cwt build", [&] { if (waves.empty()) return; int lo = (int)rng.range(1, 8); keep(cwt, Wavelet::BuildWavelet(a.one(waves), lo, lo + (int)rng.range(1, 30), (int)rng.range(1, 8), kind()), rng); });
    p.op("cwt odd build", [&] { if (waves.empty()) return; keep(cwt, Wavelet::BuildWavelet(a.one(waves), length(8), length(40), length(8), kind()), rng); });
    p.op("cwt change", [&] { if (cwt.empty()) return; Wavelet& w = *a.one(cwt); int lo = (int)rng.range(1, 8); w.min_lenght(lo); w.max_lenght(lo + (int)rng.range(1, 30)); w.count((int)rng.range(1, 8)); w.createWavelet(kind()); });
    p.op("cwt count", [&] { if (!cwt.empty()) a.one(cwt)->count(length(12)); });
    p.op("cwt longest", [&] { if (!cwt.empty()) a.one(cwt)->max_lenght(length(60)); });
    p.op("cwt shortest", [&] { if (!cwt.empty()) a.one(cwt)->min_lenght(length(20)); });
    p.op("cwt base", [&] { if (!cwt.empty() && !waves.empty()) a.one(cwt)->base_function(a.one(waves)); });
    p.op("cwt create", [&] { if (!cwt.empty()) a.one(cwt)->createWavelet(kind()); });
    p.op("cwt transform", [&] { if (cwt.empty()) return; auto r = ContiniousWaveletTransformation(a.point(a.size(30)), a.one(cwt), a.small()); for (auto& v : r) use(v); });
    p.op("cwt transform watched", [&] { if (cwt.empty()) return; auto r = ContiniousWaveletTransformation(a.point(a.size(30)), a.one(cwt), a.small(), (void (*)(double))[](double x) { use(x); }); for (auto& v : r) use(v); });
    p.run(rng.range(20, 150));
    observe(p.h.h);
}

// ------------------------------------------------------------------ parameters, individuals, mutators, genetic algorithm
struct OddMutator : IMutator
{
    Args a; explicit OddMutator(Args b) : a(b) {}
    void ApplyNewMutationContext(const MutationContext& c) { use(c.current_generation); use(c.max_number_of_generations); }
    void MutateChromosome(ChromosomeType* c)
    {
        if (a.rng.chance(0.01)) throw std::runtime_error("mutator");
        for (size_t i = 0; i < c->size(); i++) if (a.rng.chance(0.2)) (*c)[i] = !(*c)[i];
    }
};
struct OddFitness : DiscreteObjectiveFunction
{
    int kind; mutable boost::mutex m; mutable long calls = 0; long throws_at;
    OddFitness(int k, long t) : kind(k), throws_at(t) {}
    double operator()(const IDiscreteParameters* const p) const
    {
        boost::mutex::scoped_lock l(m);
        if (++calls == throws_at || calls > 5000) throw std::runtime_error("objective");
        ChromosomeType c(p->GetChromosomeSize());
        p->SetChromosome(c.begin(), c.end());
        double s = 0;
        for (size_t i = 0; i < c.size(); i++) s += c[i] ? (double)(i % 7 + 1) : 0.5;
        switch (kind) { case 0: return s; case 1: return 0; case 2: return 1e300 * s; case 3: return (calls % 5) * s; case 4: return -s; case 5: return calls % 7 ? s : NAN; case 6: return calls % 7 ? s : INFINITY; default: return 1e-320 * s; }
    }
    OddFitness* Clone() const { return new OddFitness(kind, throws_at); }
};
void on_generation(GenerationStatistics s)
{
    use(s.get_best_fitness()); use(s.get_average_fitness()); use((long)s.get_number_of_generation()); use(s.get_cache_hits()); use(s.get_invalid_chromosomes());
    for (auto& i : s.get_all_individuals_statistics()) { use(i.fitness); use(i.times_chosen_for_crossover); }
    use(s.get_best_parameters()->CheckConstraints());
}
K52_TASK(ga_program, "genetic")
{
    Program p(rng, hostility(rng));
    Args& a = p.a;
    typedef IDiscreteParameters::shared_ptr Par;
    std::vector<Par> ps;
    std::vector<std::shared_ptr<Individual> > ind;
    std::vector<IMutator::shared_ptr> mut;
    std::vector<GeneticAlgorithm::shared_ptr> gas;
    auto genes = [&](size_t n) { ChromosomeType c(n); for (size_t i = 0; i < n; i++) c[i] = rng.chance(0.5); return c; };
    p.op("int parameter", [&] { int x = a.integer(), y = a.integer(); if (rng.chance(0.8) && x > y) std::swap(x, y); keep(ps, Par(new IntParameter(x, y)), rng); if (rng.chance(0.5)) keep(ps, Par(new IntParameter(a.integer(), x, y)), rng); });
    p.op("double parameter", [&] { double x = a.real(), y = a.real(); if (rng.chance(0.8) && x > y) std::swap(x, y); keep(ps, Par(new DoubleParameter(rng.chance(0.7) ? x : a.real(), x, y, a.positive_real() * 0.1)), rng); });
    p.op("empty double parameter", [&] { keep(ps, Par(new DoubleParameter()), rng); });
    p.op("double array", [&] { double x = a.real(), y = a.real(); if (rng.chance(0.8) && x > y) std::swap(x, y); keep(ps, Par(new DoubleParametersArray(x, y, a.positive_real() * 0.1, a.size(6))), rng); });
    p.op("composite", [&]
    {
        boost::shared_ptr<CompositeDiscreteParameters> c(new CompositeDiscreteParameters);
        if (!ps.empty() && rng.chance(0.9))
        {
            if (rng.chance(0.5)) c->Initialize(a.one(ps), a.size(4));
            else { std::vector<Par> v; for (size_t i = a.size(4); i > 0; i--) v.push_back(a.one(ps)); c->Initialize(v); }
        }
        if (c->GetNumberOfParameters() > 12) return;
        if (c->GetNumberOfParameters() && c->GetChromosomeSize() > 400) return;
        keep(ps, Par(c), rng);
    });
    p.op("composite part", [&] { if (ps.empty()) return; if (auto* c = dynamic_cast<CompositeDiscreteParameters*>(a.one(ps).get())) { Par q = c->GetParameter(rng.chance(0.2) ? (size_t)-1 : a.size(5)); use(q->CheckConstraints()); if (rng.chance(0.3)) c->Initialize(q, 2); } });
    p.op("clone", [&] { if (!ps.empty()) keep(ps, Par(a.one(ps)->Clone()), rng); });
    p.op("encode", [&] { if (ps.empty()) return; Par q = a.one(ps); size_t n = q->GetChromosomeSize(); if (rng.chance(0.15)) n = a.size(30); ChromosomeType c(n); q->SetChromosome(c.begin(), c.end()); for (bool b : c) use(b); });
    p.op("decode", [&] { if (ps.empty()) return; Par q = a.one(ps); size_t n = q->GetChromosomeSize(); if (rng.chance(0.15)) n = a.size(30); ChromosomeType c = genes(n); q->SetFromChromosome(c.begin(), c.end()); use(q->CheckConstraints()); });
    p.op("compare", [&] { if (!ps.empty()) use(a.one(ps)->HasSameMetaParameters(a.one(ps).get())); });
    p.op("values", [&]
    {
        if (ps.empty()) return;
        IDiscreteParameters* q = a.one(ps).get();
        if (auto* i = dynamic_cast<IntParameter*>(q)) { use(i->get_value()); use(i->get_min_value()); use(i->get_max_value()); i->set_value(a.integer()); }
        if (auto* d = dynamic_cast<DoubleParameter*>(q)) { use(d->get_min_value()); use(d->get_max_value()); use(d->get_actual_precision()); use(d->GetValue()); d->SetValue(a.real()); }
        if (auto* d = dynamic_cast<DoubleParametersArray*>(q)) { use(d->get_min_value()); use(d->get_max_value()); use(d->get_actual_precision()); use(d->get_number_of_parameters()); use(d->get_values()); d->SetValues(a.point(rng.chance(0.7) ? d->get_number_of_parameters() : a.size())); }
        use(q->CheckConstraints());
    });
    p.op("individual", [&] { if (ps.empty() || rng.chance(0.1)) keep(ind, std::make_shared<Individual>(), rng); else keep(ind, std::make_shared<Individual>(a.one(ps).get()), rng); });
    p.op("individual copy", [&] { if (ind.empty()) return; if (rng.chance(0.5)) keep(ind, std::make_shared<Individual>(*a.one(ind)), rng); else *a.one(ind) = *a.one(ind); });
    p.op("individual initialize", [&] { if (ind.empty() || ps.empty()) return; auto x = std::make_shared<Individual>(); x->Initialize(a.one(ps).get()); keep(ind, x, rng); });
    // a random chromosome of a parameter that no chromosome satisfies would be drawn for ever
    auto satisfiable = [&](const IDiscreteParameters* q)
    {
        std::unique_ptr<IDiscreteParameters> c(q->Clone());
        for (int i = 0; i < 20; i++) { ChromosomeType g = genes(c->GetChromosomeSize()); c->SetFromChromosome(g.begin(), g.end()); if (c->CheckConstraints()) return true; }
        return false;
    };
    p.op("randomize", [&] { if (ind.empty()) return; Individual& x = *a.one(ind); if (satisfiable(x.GetParametersAccordingToChromosome())) use(x.SetRandomChromosome()); });
    p.op("crossover", [&] { if (ind.empty()) return; Individual& x = *a.one(ind); Individual& y = *a.one(ind); use(x.Crossover(&y)); });
    p.op("mutator", [&] { switch (rng.range(0, 3)) { case 0: keep(mut, IMutator::shared_ptr(new FlipBitMutator(rng.chance(0.5) ? rng.uni(0.01, 0.5) : a.real())), rng); break; case 1: keep(mut, IMutator::shared_ptr(new OddMutator(a)), rng); break; default: keep(mut, IMutator::shared_ptr(new LinearMutator(rng.chance(0.8) ? rng.uni() : a.real(), rng.chance(0.8) ? rng.uni() : a.real())), rng); } });
    p.op("mutation context", [&] { if (mut.empty()) return; MutationContext c; c.current_generation = rng.chance(0.8) ? (int)rng.range(0, 10) : a.small(); c.max_number_of_generations = rng.chance(0.8) ? (int)rng.range(1, 12) : a.small(); a.one(mut)->ApplyNewMutationContext(c); });
    p.op("mutate genes", [&] { if (mut.empty()) return; ChromosomeType c = genes(a.size(70)); a.one(mut)->MutateChromosome(&c); for (bool b : c) use(b); });
    p.op("mutate individual", [&] { if (mut.empty() || ind.empty()) return; Individual& x = *a.one(ind); if (satisfiable(x.GetParametersAccordingToChromosome()) && x.IsValid()) { FlipBitMutator m(0.3); use(x.Mutate(IMutator::shared_ptr(new OddMutator(a)))); } });
    p.op("individual queries", [&] { if (ind.empty()) return; Individual& x = *a.one(ind); use(x.HasFitness()); use(x.get_times_chosen_for_crossover()); x.IncreaseTimesChosenForCrossover(); if (rng.chance(0.3)) x.ResetTimesChosenForCrossover(); if (rng.chance(0.5)) x.set_fitness(a.real()); use(x.IsValid()); for (bool b : x.GetChromosome()) use(b); use(x.get_individual_statistics().fitness); use(x.get_fitness()); });
    p.op("individual stream", [&]
    {
        if (ind.empty()) return;
        std::ostringstream o;
        o << *a.one(ind);
        std::string s = o.str();
        use(s);
        for (int i = (int)rng.range(0, 3); i > 0 && !s.empty(); i--) { size_t k = rng.u64() % s.size(); if (rng.chance(0.5)) s.erase(k, 1 + rng.u64() % 3); else s[k] = "01 \nx-e9"[rng.range(0, 7)]; }
        std::istringstream in(rng.chance(0.1) ? a.word() : s);
        in >> *a.one(ind);
    });
    p.op("ga create", [&] { if (mut.empty() && rng.chance(0.9)) return; GeneticAlgorithm::shared_ptr g = GeneticAlgorithm::Create(rng.chance(0.8) ? 2 * (int)rng.range(1, 5) : a.integer() % 60, rng.chance(0.8) ? (int)rng.range(0, 2) : (int)rng.range(-3, 3), rng.chance(0.8) ? (int)rng.range(1, 4) : a.small(), mut.empty() ? IMutator::shared_ptr() : a.one(mut), rng.chance(0.5) ? rng.uni(0, 0.01) : a.real(), rng.chance(0.5) ? 1e9 : a.real(), rng.chance(0.8) ? "" : "population.txt"); if (g) { if (rng.chance(0.6)) g->OnNextGenerationReadyConnect(on_generation); keep(gas, g, rng, 3); } });
    p.op("ga initial parameters", [&] { if (gas.empty() || ps.empty()) return; std::vector<Par> v; size_t n = 2 * a.size(5); Par q = a.one(ps); for (size_t i = 0; i < n; i++) v.push_back(rng.chance(0.97) ? q : a.one(ps)); a.one(gas)->SetInitialParameters(v); });
    p.op("ga population file", [&] { std::ofstream f("population.txt"); f << "Population_size: \n" << rng.range(0, 6) << "\nChromosome_size: \n" << rng.range(0, 9) << "\n"; for (int i = (int)rng.range(0, 20); i > 0; i--) f << rng.range(0, 1) << (rng.chance(0.8) ? " " : "\n"); });
    p.op("ga optimize", [&]
    {
        if (gas.empty() || ps.empty()) return;
        Par q = a.one(ps);
        if (!q->GetChromosomeSize() || !satisfiable(q.get())) return;
        OddFitness f((int)rng.range(0, 7), rng.chance(0.2) ? rng.range(1, 40) : -1);
        a.one(gas)->Optimize(f, q.get(), rng.chance(0.97));
        use(q->CheckConstraints());
    });
    // a population file that nearly fits the algorithm it is given to
    p.op("ga from file", [&]
    {
        if (mut.empty() || ps.empty()) return;
        Par q = a.one(ps);
        size_t n = q->GetChromosomeSize();
        if (!n || n > 200 || !satisfiable(q.get())) return;
        int size = 2 * (int)rng.range(1, 4), written = size + (rng.chance(0.5) ? 0 : (int)rng.range(-3, 12)), genes_written = (int)n + (rng.chance(0.7) ? 0 : (int)rng.range(-3, 8)), rows = written + (rng.chance(0.7) ? 0 : (int)rng.range(-3, 6));
        {
            std::ofstream f("population.txt");
            f << "Population_size: \n" << written << "\nChromosome_size: \n" << genes_written << "\n";
            for (int i = 0; i < rows; i++)
            {
                f << "Chromosome:\t";
                for (int k = rng.chance(0.97) ? 0 : -1; k < genes_written; k++) f << rng.range(0, 1);
                f << (rng.chance(0.97) ? "\tFitness:\t" : " ") << (rng.chance(0.95) ? num(rng.uni(0, 9)) : std::string("x")) << "\n";
            }
        }
        GeneticAlgorithm::shared_ptr g = GeneticAlgorithm::Create(size, 1, 2, a.one(mut), -1, 1e9, "population.txt");
        OddFitness f((int)rng.range(0, 7), -1);
        g->Optimize(f, q.get(), true);
    });
    p.op("ga generic", [&] { if (gas.empty() || ps.empty()) return; use(a.one(gas)->get_name()); gas[0]->Clone(); });
    p.run(rng.range(20, 160));
    observe(p.h.h);
}

// ------------------------------------------------------------------ continuous optimizers
struct OddObjective : ContinuousObjectiveFunction
{
    int kind; uint64_t seed; mutable boost::mutex m; mutable long calls = 0; long cap;
    OddObjective(int k, uint64_t s, long c) : kind(k), seed(s), cap(c) {}
    double operator()(const Point& p) const
    {
        boost::mutex::scoped_lock l(m);
        if (++calls > cap) throw std::runtime_error("objective");
        Rng r(mix(seed ^ (uint64_t)calls));
        double s = 0;
        for (double x : p) { use(x); s += (x - 1) * (x - 1); }
        switch (kind)
        {
        case 0: case 1: return s;
        case 2: return r.normal();
        case 3: return 0;
        case 4: return calls % 9 ? s : NAN;
        case 5: return calls % 9 ? s : (r.chance(0.5) ? INFINITY : -INFINITY);
        case 6: return 1e300 * r.normal();
        case 7: return -(double)calls;          // always better
        case 8: return NAN;
        default: return 1e-315 * s;
        }
    }
    OddObjective* Clone() const { return new OddObjective(kind, seed, cap); }
};
K52_TASK(optimizer_program, "optimizers")
{
    Program p(rng, hostility(rng));
    Args& a = p.a;
    std::vector<boost::shared_ptr<IOptimizer> > all, os;  // RandomSearch only points at its inner optimizer: the caller keeps it alive
    std::vector<boost::shared_ptr<ContinuousParametersArray> > ps;
    auto tiny = [&] { return rng.chance(a.hostility) ? a.real() : std::pow(10, -rng.uni(1, 8)); };
    auto iterations = [&] { return (size_t)(rng.chance(0.1) ? 0 : rng.range(1, 60)); };
    p.op("parameters", [&] { keep(ps, rng.chance(0.5) ? boost::shared_ptr<ContinuousParametersArray>(new ContinuousParametersArray(a.point(a.size(6)))) : boost::shared_ptr<ContinuousParametersArray>(new ContinuousParametersArray(a.size(6))), rng); });
    p.op("parameters values", [&] { if (ps.empty()) return; auto q = a.one(ps); use(q->GetValues()); use(q->CheckConstraints()); q->SetValues(a.point(a.size(6))); });
    p.op("parameters clone", [&] { if (!ps.empty()) keep(ps, boost::shared_ptr<ContinuousParametersArray>(a.one(ps)->Clone()), rng); });
    p.op("create optimizer", [&]
    {
        IOptimizer* o = 0;
        switch (rng.range(0, 6))
        {
        case 0: o = new HookeJeevesMethod(a.positive_real(), a.positive_real(), iterations(), std::pow(10, -rng.uni(1, 8)), rng.uni(1.2, 9)); break;  // its only end is a step below the precision
        case 1: o = new HleborodovRosenbrockMethod(tiny(), iterations(), a.positive_real(), a.positive_real()); break;
        case 2: o = new ConjugateGradientMethod(tiny(), tiny(), iterations()); break;
        case 3: o = new SteepestDescentMethod(tiny(), iterations(), tiny()); break;
        case 4: o = new BoundedNelderMead(a.positive_real(), tiny(), a.real(), a.real()); break;
        case 5: o = new SimulatedAnnealing(iterations(), a.real(), a.real()); break;
        default: if (rng.chance(0.5)) o = new RandomSearch(a.size(20), a.real(), a.real(), os.empty() || rng.chance(0.5) ? NULL : dynamic_cast<ContinuousOptimizer*>(a.one(os).get()));
                 else { double lo = rng.uni(-3, 3); o = new GridSearch(rng.chance(0.8) ? rng.uni(0.4, 1.5) : a.positive_real() + 0.5, lo, rng.chance(0.8) ? lo + rng.uni(0, 3) : lo - 1); } break;
        }
        all.push_back(boost::shared_ptr<IOptimizer>(o));
        keep(os, all.back(), rng);
    });
    p.op("clone optimizer", [&] { if (os.empty()) return; all.push_back(boost::shared_ptr<IOptimizer>(a.one(os)->Clone())); keep(os, all.back(), rng); });
    p.op("name", [&] { if (!os.empty()) use(a.one(os)->get_name()); });
    p.op("optimize", [&]
    {
        if (os.empty() || ps.empty()) return;
        OddObjective f((int)rng.range(0, 9), rng.u64(), rng.chance(0.2) ? rng.range(0, 30) : 1500);
        auto q = a.one(ps);
        IObjectiveFunction* g = &f;
        a.one(os)->Optimize(*g, static_cast<IParameters*>(q.get()), rng.chance(0.5));
        use(q->GetValues());
        count("optimizations completed");
    });
    p.op("optimize wrong kinds", [&]
    {
        if (os.empty()) return;
        OddFitness d(0, -1); OddObjective f(0, 1, 100);
        IntParameter i(0, 5);
        ContinuousParametersArray c(2);
        if (rng.chance(0.5)) a.one(os)->Optimize(static_cast<const IObjectiveFunction&>(d), static_cast<IParameters*>(&c), false);
        else a.one(os)->Optimize(static_cast<const IObjectiveFunction&>(f), static_cast<IParameters*>(&i), false);
    });
    p.run(rng.range(10, 60));
    unlink("polygon.plot");
    observe(p.h.h);
}

// ------------------------------------------------------------------ parallel
struct Outcome : ITaskResult { std::vector<int> v; Outcome() : v(3, 7) {} };
struct Job : ITask
{
    int kind; explicit Job(int k) : kind(k) {}
    ITaskResult* Perform() const { if (kind == 1) throw std::runtime_error("task"); if (kind == 2) throw 5; if (kind == 3) return NULL; return new Outcome; }
};
struct Thing : k52::common::ICloneable { std::vector<int> v; Thing() : v(4, 1) {} Thing* Clone() const { return new Thing; } };
struct Thing2 : Thing { Thing2* Clone() const { return new Thing2; } };
K52_TASK(parallel_program, "parallel")
{
    Program p(rng, hostility(rng));
    Args& a = p.a;
    std::vector<IWorkerPool::shared_ptr> pools;
    bool some_throw = rng.chance(0.4);
    k52::parallel::mpi::IdentifyableObjectsManager& m = k52::parallel::mpi::IdentifyableObjectsManager::Instance();
    thread::ThreadSafeQueue<std::string> queue;
    std::vector<WorkerStatistics> stats;
    p.op("pool", [&]
    {
        switch (rng.range(0, 3))
        {
        case 0: keep(pools, WorkerPoolFactory::CreateBestWorkerPool(), rng, 3); break;
        case 1: { WorkerPoolFactory::WorkerPoolType t = (WorkerPoolFactory::WorkerPoolType)rng.range(0, 2); use(WorkerPoolFactory::CanCreateWorkerPool(t)); keep(pools, WorkerPoolFactory::CreateWorkerPool(t), rng, 3); break; }
        case 2: keep(pools, IWorkerPool::shared_ptr(new thread::ThreadWorkerPool()), rng, 3); break;
        default: keep(pools, IWorkerPool::shared_ptr(new SequentialWorkerPool), rng, 3);
        }
    });
    p.op("destroy pool", [&] { if (!pools.empty()) pools.erase(pools.begin() + (long)(rng.u64() % pools.size())); });
    p.op("tasks", [&]
    {
        if (pools.empty()) return;
        std::vector<std::unique_ptr<Job> > own;
        std::vector<const ITask*> t;
        for (size_t i = a.size(20); i > 0; i--) { own.emplace_back(new Job(some_throw && rng.chance(0.1) ? (int)rng.range(1, 2) : rng.chance(0.1) ? 3 : 0)); t.push_back(own.back().get()); if (rng.chance(0.2)) t.push_back(own.back().get()); }
        std::vector<ITaskResult::shared_ptr> r;
        try { r = a.one(pools)->DoTasks(t); } catch (int) { throw std::runtime_error("int"); }
        for (auto& x : r) if (x) use(static_cast<Outcome*>(x.get())->v);
    });
    p.op("pool queries", [&] { if (pools.empty()) return; auto q = a.one(pools); use(q->IsValid()); for (auto& s : q->GetStatistics()) { use(s.get_counted()); use(s.get_errors()); use(s.get_id()); } });
    p.op("statistics", [&] { if (rng.chance(0.3)) stats.push_back(WorkerStatistics()); else stats.push_back(WorkerStatistics(a.small(), a.small(), a.small())); WorkerStatistics& s = stats.back(); s.IncreaseCounted(); s.IncreaseErrors(); use(s.get_counted()); use(s.get_errors()); use(s.get_id()); });
    p.op("registry", [&] { Thing t; Thing2 u; const k52::common::ICloneable* o; if (rng.chance(0.5)) m.RegisterObject(t); if (rng.chance(0.3)) m.RegisterObject(u); o = m.GetObject(rng.chance(0.5) ? m.GetId(t) : rng.chance(0.5) ? m.GetId(u) : a.word()); if (o) use(static_cast<const Thing*>(o)->v); });
    p.op("queue", [&] { std::string s; use(queue.IsEmpty()); if (rng.chance(0.5)) queue.Push(a.word()); if (rng.chance(0.4) && queue.TryPop(s)) use(s); if (!queue.IsEmpty()) { queue.WaitAndPop(s); use(s); } });
    p.run(rng.range(10, 60));
    observe(p.h.h);
}
}
int main(int argc, char** argv) { if (argc > 1 && !strcmp(argv[1], "parallel")) hv::start_watchdog(); return harness_main(argc, argv); }
