// C02: workloads for ThreadSanitizer through the library's own parallelism and independent objects in threads.
#include <algorithm>
#include "pool_tasks.h"
#include <fstream>
#include <k52/common/random.h>
#include <k52/common/floating_point.h>
#include <k52/dsp/akima_spline.h>
#include <k52/dsp/akima_wavelet_function.h>
#include <k52/dsp/cwt.h>
#include <k52/dsp/haar_wavelet_function.h>
#include <k52/dsp/mhat_wavelet_function.h>
#include <k52/dsp/morlet_wavelet_function.h>
#include <k52/dsp/wavelet.h>
#include <k52/dsp/transform/fast_fourier_transform.h>
#include <k52/dsp/transform/fourier_based_circular_convolution.h>
#include <k52/dsp/transform/fourier_transform.h>
#include <k52/dsp/transform/inverse_fourier_transform.h>
#include <k52/dsp/transform/circular_convolution.h>
#include <k52/dsp/transform/wavelet/fast_wavelet_transform.h>
#include <k52/dsp/transform/wavelet/linear_scale.h>
#include <k52/dsp/transform/wavelet/logarithmic_scale.h>
#include <k52/optimization/bounded_nelder_mead.h>
#include <k52/optimization/conjugate_gradient_method.h>
#include <k52/optimization/continuous_objective_function.h>
#include <k52/optimization/discrete_objective_function.h>
#include <k52/optimization/flip_bit_mutator.h>
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/grid_search.h>
#include <k52/optimization/hleborodov_rosenbrock_method.h>
#include <k52/common/cache.h>
#include <k52/common/helpers.h>
#include <k52/common/settings_manager.h>
#include <k52/optimization/hooke_jeeves_method.h>
#include <k52/optimization/individual.h>
#include <k52/optimization/linear_mutator.h>
#include <k52/optimization/random_search.h>
#include <k52/optimization/steepest_descent_method.h>
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <k52/optimization/params/continuous_parameters_array.h>
#include <k52/optimization/params/double_parameter.h>
#include <k52/optimization/params/double_parameters_array.h>
#include <k52/optimization/params/int_parameter.h>
using namespace pt;
using namespace k52::dsp;
using namespace k52::optimization;

namespace
{
typedef std::vector<std::complex<double>> CV;
CV seq(Rng& r, size_t n) { CV v(n); for (auto& x : v) x = std::complex<double>(r.normal(), r.normal()); return v; }

typedef hv::Gate ThreadGate;

void in_threads(Rng& rng, int n, const std::function<void(int, Rng&)>& f)
{
    std::vector<uint64_t> seeds;
    for (int i = 0; i < n; i++) seeds.push_back(rng.u64());
    ThreadGate gate(n);
    std::vector<std::thread> th;
    for (int i = 0; i < n; i++)
        th.emplace_back([&, i]() {
            Rng mine(seeds[i]);
            gate.wait();
            try { f(i, mine); }
            catch (const hv::Violation&) {}
            catch (const std::exception& e) { hv::violation("unexpected-exception", e.what()); }
        });
    for (auto& t : th) t.join();
}

// threads of the previous case may still be in the process table
struct Settle { Settle() { hv::case_setup() = [](uint64_t) { hv::start_watchdog(); static int base = hv::thread_count(); hv::threads_down_to(base); }; } } settle;
K52_TASK(pool, "pool")
{
    hv::start_watchdog();
    int base = hv::thread_count();
    hv::hardware_threads = (unsigned)rng.range(2, 6);
    {
        PerturbationGuard g(rng);
        int pools = (int)rng.range(1, 2), callers = (int)rng.range(1, 4);
        std::vector<IWorkerPool::shared_ptr> p;
        for (int i = 0; i < pools; i++) p.push_back(rng.chance(0.7) ? WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool) : WorkerPoolFactory::CreateBestWorkerPool());
        in_threads(rng, callers, [&](int c, Rng& mine) {
            for (int b = 0; b < 4; b++)
            {
                Batch x(mine, mine.range(0, 40), (c * 10 + b) * 1000L, 0, 60);
                auto r = p[mine.u64() % p.size()]->DoTasks(x.list);
                // results are read in the submitter without further synchronisation
                for (auto& q : r) if (q) { long s = 0; for (long v : static_cast<Result*>(q.get())->payload) s += v; (void)s; }
                hv::count("batches"); hv::count("tasks", (uint64_t)x.list.size());
                hv::observe(x.order_hash());
            }
        });
        if (rng.chance(0.3)) { WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool); hv::count("pools destroyed unused"); }
        if (rng.chance(0.5)) p.clear();
    }
    hv::threads_down_to(base);
}

// each thread creates, uses and destroys its own objects
K52_TASK(objects, "objects")
{
    hv::start_watchdog();
    PerturbationGuard g(rng);
    int n = (int)rng.range(2, 6);
    int focus = (int)rng.range(0, 12);
    in_threads(rng, n, [&](int, Rng& mine) {
        int ops = (int)mine.range(2, 6);
        static const size_t lengths[] = {1, 2, 3, 4, 5, 8, 12, 16};
        for (int o = 0; o < ops; o++)
        {
            int k = mine.chance(0.5) ? focus : (int)mine.range(0, 12);
            size_t len = lengths[mine.range(0, 7)];
            switch (k)
            {
            case 0: case 1:
            {
                FastFourierTransform f(len);
                for (int i = 0; i < 3; i++) f.Transform(seq(mine, len));
                break;
            }
            case 2:
            {
                IFourierTransform::shared_ptr f(mine.chance(0.5) ? (IFourierTransform*)new FastFourierTransform(len) : new FourierTransform());
                InverseFourierTransform inv(f);
                inv.Transform(f->Transform(seq(mine, len)));
                break;
            }
            case 3:
            {
                FourierBasedCircularConvolution a(IFourierTransform::shared_ptr(new FastFourierTransform(len)));
                CV x = seq(mine, len), y = seq(mine, len);
                a.EvaluateConvolution(x, y);
                CircularConvolution b;
                b.EvaluateConvolution(x, y);
                break;
            }
            case 4:
            {
                std::vector<double> kx, ky;
                size_t m = (size_t)mine.range(5, 9);
                for (size_t i = 0; i < m; i++) { kx.push_back((double)i); ky.push_back(mine.normal()); }
                Spline::shared_ptr s = AkimaSpline::Create();
                s->Initialize(kx, ky);
                for (int i = 0; i < 10; i++) s->Value(mine.uni(0, (double)m - 1));
                break;
            }
            case 5:
            {
                IWavelet::shared_ptr w(mine.chance(0.5) ? (IWavelet*)new MhatWaveletFunction() : mine.chance(0.5) ? (IWavelet*)new MorletWaveletFunction() : new HaarWaveletFunction());
                IScale::shared_ptr sc(new LinearScale(1, 4, 3));
                FastWaveletTransform t(sc, len, mine.chance(0.5) ? 0 : 0.01);
                t.Transform(seq(mine, len), w);
                t.Transform(seq(mine, len), w);
                break;
            }
            case 6:
            {
                IWavelet::shared_ptr f(new MorletWaveletFunction());
                Wavelet::shared_ptr w = Wavelet::BuildWavelet(f, 2, 8, 3);
                std::vector<double> x(12);
                for (double& v : x) v = mine.normal();
                ContiniousWaveletTransformation(x, w);
                break;
            }
            case 7:
            {
                DoubleParametersArray a(-5, 5, 0.01, 4);
                std::vector<double> v(4);
                for (double& q : v) q = mine.uni(-4, 4);
                a.SetValues(v);
                ChromosomeType c(a.GetChromosomeSize());
                a.SetChromosome(c.begin(), c.end());
                boost::shared_ptr<DoubleParametersArray> b(a.Clone());
                b->SetFromChromosome(c.begin(), c.end());
                b->CheckConstraints();
                IntParameter i(3, -10, 10);
                boost::shared_ptr<IntParameter> j(i.Clone());
                CompositeDiscreteParameters comp;
                comp.Initialize(IDiscreteParameters::shared_ptr(new DoubleParameter(0.5, 0, 1, 0.1)), 3);
                ChromosomeType cc(comp.GetChromosomeSize());
                comp.SetChromosome(cc.begin(), cc.end());
                comp.SetFromChromosome(cc.begin(), cc.end());
                break;
            }
            case 8:
            {
                std::vector<double> v(8);
                for (double& q : v) q = mine.normal();
                IWavelet::shared_ptr w = AkimaWavelet::CreateAkimaWavelet(v, v);
                for (int i = 0; i < 10; i++) w->GetValue(mine.uni(-4, 4));
                break;
            }
            case 9:
            {
                typedef k52::common::Cache<int, double> C;
                C::shared_ptr c = C::Create(0.0005);
                for (int i = 0; i < 40; i++) { c->AddValue((int)mine.range(0, 50), i); if (c->IsCached(i)) c->GetCachedValue(i); }
                const char* arguments[] = {"program", "--name=value", "--number=3"};
                k52::SettingsManager settings(3, arguments);
                settings.put("a.b", mine.uni());
                settings.get<double>("a.b");
                settings.get<int>("number", 1);
                settings.get<std::string>("missing", "x");
                CV x = seq(mine, 5);
                k52::common::Helpers::Conjugate(x);
                k52::common::FloatingPoint::AreEqual(std::vector<double>(3, 1.), std::vector<double>(3, 1.));
                break;
            }
            case 10:
            {
                DoubleParametersArray a(-5, 5, 0.01, 2);
                Individual one(&a), two(&a);
                one.set_fitness(mine.uni());
                two = one;
                std::stringstream text;
                text << one;
                text >> two;
                one.GetParametersAccordingToChromosome();
                one.IncreaseTimesChosenForCrossover();
                one.get_individual_statistics();
                Individual three(two);
                three.IsValid();
                break;
            }
            case 11:
            {
                IScale::shared_ptr sc(mine.chance(0.5) ? (IScale*)new LogarithmicScale(-1, 2) : new LinearScale(1, 5, 4));
                sc->GetScales();
                IWavelet::shared_ptr f(mine.chance(0.5) ? (IWavelet*)new HaarWaveletFunction() : new MhatWaveletFunction());
                Wavelet::shared_ptr w = Wavelet::BuildWavelet(f, 2, 8, 3, mine.chance(0.5) ? Wavelet::Log : Wavelet::Linear);
                std::vector<double> x(12, 1.);
                ContiniousWaveletTransformation(x, w, 2);
                break;
            }
            default:
            {
                struct F : ContinuousObjectiveFunction
                {
                    double operator()(const std::vector<double>& x) const { double s = 0; for (size_t i = 0; i < x.size(); i++) s += (x[i] - 0.3) * (x[i] - 0.3) * (double)(i + 1); return s; }
                    F* Clone() const { return new F(); }
                } f;
                boost::shared_ptr<ContinuousOptimizer> opt;
                int w = (int)mine.range(0, 5);
                size_t dim = (size_t)mine.range(1, 4);
                ContinuousParametersArray p(dim);
                p.SetValues(std::vector<double>(dim, mine.uni(-1, 1)));
                if (w == 5)
                {
                    GridSearch grid(0.5, -1, 1);
                    static_cast<IOptimizer&>(grid).Optimize(f, &p, false);
                    break;
                }
                if (w == 0) opt.reset(new HookeJeevesMethod(2, 0.5, 50, 1e-3, 2));
                else if (w == 1) opt.reset(new HleborodovRosenbrockMethod(1e-3, 50, 0.1, 10));
                else if (w == 2) opt.reset(new ConjugateGradientMethod(1e-3, 1e-5, 30));
                else if (w == 3) opt.reset(new SteepestDescentMethod(1e-5, 20, 1e-6));
                else opt.reset(new BoundedNelderMead(0.5, 1e-2, -3, 3));
                if (mine.chance(0.3)) opt.reset(dynamic_cast<ContinuousOptimizer*>(opt->Clone()));
                opt->Optimize(f, &p, mine.chance(0.2) && w == 4);
                boost::shared_ptr<IOptimizer> c(opt->Clone());
                break;
            }
            }
            hv::count("objects used");
        }
    });
    hv::observe(hv::Hash().add(focus).add(n).add(rng.u64()).h);
}

std::atomic<long> evaluations(0);
struct DiscreteF : DiscreteObjectiveFunction
{
    double operator()(const IDiscreteParameters* const p) const
    {
        hv::perturb_point();
        evaluations.fetch_add(1, std::memory_order_relaxed);
        ChromosomeType c(p->GetChromosomeSize());
        p->SetChromosome(c.begin(), c.end());
        std::vector<double> v = static_cast<const DoubleParametersArray*>(p)->get_values();
        double s = 100;
        for (double x : v) s -= x * x;
        return s > 0 ? s : 0;
    }
    DiscreteF* Clone() const { return new DiscreteF(); }
};
void on_generation(GenerationStatistics s) { s.get_all_individuals_statistics(); s.get_best_parameters(); }

K52_TASK(ga, "ga")
{
    hv::start_watchdog();
    hv::hardware_threads = (unsigned)rng.range(2, 6);
    k52::common::Random::Instance(); srand((unsigned)rng.u64());
    PerturbationGuard g(rng);
    DiscreteF f;
    IMutator::shared_ptr m(rng.chance(0.5) ? (IMutator*)new FlipBitMutator(0.1) : new LinearMutator(0.1, 0.01));
    GeneticAlgorithm::shared_ptr ga = GeneticAlgorithm::Create((int)rng.range(2, 12) * 2, (int)rng.range(0, 2), (int)rng.range(1, 6), m, rng.chance(0.5) ? 0 : 0.01);
    if (rng.chance(0.5)) ga->OnNextGenerationReadyConnect(on_generation);
    DoubleParametersArray p(-3, 3, 0.01, (size_t)rng.range(1, 3));
    ga->Optimize(f, &p, true);
    hv::count("objective evaluations", evaluations.exchange(0));
    hv::observe(hv::Hash().add(p.get_values()).add(rng.u64()).h);
}

struct ContinuousF : ContinuousObjectiveFunction
{
    int shape;
    explicit ContinuousF(int s) : shape(s) {}
    double operator()(const std::vector<double>& x) const
    {
        hv::perturb_point();
        evaluations.fetch_add(1, std::memory_order_relaxed);
        double s = 0;
        for (size_t i = 0; i < x.size(); i++) s += shape ? std::fabs(x[i]) : x[i] * x[i] * (double)(i + 1);
        return s;
    }
    ContinuousF* Clone() const { return new ContinuousF(shape); }
};
K52_TASK(search, "search")
{
    hv::start_watchdog();
    hv::hardware_threads = (unsigned)rng.range(2, 6);
    k52::common::Random::Instance(); srand((unsigned)rng.u64());
    PerturbationGuard g(rng);
    ContinuousF f((int)rng.range(0, 1));
    boost::shared_ptr<ContinuousOptimizer> inner;
    int k = (int)rng.range(0, 5);
    if (k == 5) inner.reset(new BoundedNelderMead(0.5, 1e-2, -2, 2));
    if (k == 1) inner.reset(new HookeJeevesMethod(2, 0.5, 50, 1e-3, 2));
    if (k == 2) inner.reset(new HleborodovRosenbrockMethod(1e-3, 50, 0.1, 10));
    if (k == 3) inner.reset(new ConjugateGradientMethod(1e-3, 1e-5, 20));
    if (k == 4) inner.reset(new SteepestDescentMethod(1e-5, 10, 1e-6));
    RandomSearch rs((size_t)rng.range(1, 20), -2, 2, inner.get());
    ContinuousParametersArray p(2);
    p.SetValues(std::vector<double>(2, 1.0));
    rs.Optimize(f, &p, false);
    hv::count("objective evaluations", evaluations.exchange(0));
    hv::observe(hv::Hash().add(p.GetValues()).add(rng.u64()).h);
}
}
K52_MAIN
