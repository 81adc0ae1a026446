// MPI pool and transferable objects (C07). Every process of the job runs this program; only rank 0 runs cases.
#include "harness.h"
#include <boost/mpi.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/bind.hpp>
#include <k52/common/random.h>
#include <k52/parallel/mpi/constants.h>
#include <k52/parallel/mpi/i_mpi_task.h>
#include <k52/parallel/mpi/identifyable_objects_manager.h>
#include <k52/parallel/worker_pool_factory.h>
#include <k52/optimization/bounded_nelder_mead.h>
#include <k52/optimization/conjugate_gradient_method.h>
#include <k52/optimization/continuous_objective_function.h>
#include <k52/optimization/discrete_objective_function.h>
#include <k52/optimization/flip_bit_mutator.h>
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/hleborodov_rosenbrock_method.h>
#include <k52/optimization/hooke_jeeves_method.h>
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <k52/optimization/params/continuous_parameters_array.h>
#include <k52/optimization/params/double_parameter.h>
#include <k52/optimization/params/double_parameters_array.h>
#include <k52/optimization/params/int_parameter.h>
#include <k52/optimization/random_search.h>
#include <k52/optimization/steepest_descent_method.h>
#include <fstream>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
using namespace hv;
using namespace k52::optimization;
using k52::parallel::IWorkerPool; using k52::parallel::ITask; using k52::parallel::ITaskResult; using k52::parallel::WorkerPoolFactory; using k52::parallel::WorkerStatistics;
using k52::parallel::mpi::AsyncCallChain; using k52::parallel::mpi::IMpiTask; using k52::parallel::mpi::IMpiTaskResult; using k52::parallel::mpi::IdentifyableObjectsManager;
namespace kc = k52::parallel::mpi::constants;
typedef std::vector<double> Point;
namespace
{
int my_rank = -1, processes = 0;
IWorkerPool::shared_ptr pool;
boost::shared_ptr<RandomSearch> searching;
boost::shared_ptr<ContinuousOptimizer> inner;
GeneticAlgorithm::shared_ptr genetic;
long search_points = 0; double search_lo = 0, search_hi = 0;
int ga_population = 0, ga_generations = 0, ga_elites = 0;
long first_case = 0;

void log_line(const std::string& s)
{
    static int fd = open(("rank-" + std::to_string(my_rank) + ".log").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    std::string l = s + "\n";
    if (write(fd, l.data(), l.size()) != (ssize_t)l.size()) _exit(3);
}
// new lines of a rank's log
std::vector<std::string> new_lines(int rank)
{
    static std::map<int, std::streamoff> at;
    std::vector<std::string> r;
    std::ifstream in("rank-" + std::to_string(rank) + ".log");
    in.seekg(at[rank]);
    std::string l;
    while (std::getline(in, l)) { r.push_back(l); at[rank] += (std::streamoff)l.size() + 1; }
    return r;
}

// runs in a forked copy that uses no MPI
template <class F> std::string in_child(F body)
{
    int fds[2];
    if (pipe(fds)) _exit(3);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) _exit(3);
    if (pid == 0)
    {
        close(fds[0]);
        int null = open("/dev/null", O_WRONLY);
        dup2(null, 1);
        std::string s;
        try { s = body(); } catch (const Violation&) { s = "violation"; } catch (const std::exception& e) { s = std::string("exception ") + e.what(); }
        const char* p = s.data(); size_t n = s.size();
        while (n > 0) { ssize_t w = write(fds[1], p, n); if (w <= 0) _exit(3); p += w; n -= (size_t)w; }
        _exit(0);
    }
    close(fds[1]);
    std::string s;
    char buf[65536];
    ssize_t n;
    while ((n = read(fds[0], buf, sizeof buf)) > 0) s.append(buf, (size_t)n);
    close(fds[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(98); }
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    return s;
}
// ------------------------------------------------------------------ a task of our own
struct Echo : IMpiTaskResult
{
    long id = -1; int rank = -1, parts = 1;
    std::vector<double> numbers, more;
    std::string text;
    boost::mpi::communicator* c = nullptr; int source = 0;
    boost::optional<boost::mpi::request> get_id() { return c->irecv(source, kc::kCommonTag, id); }
    boost::optional<boost::mpi::request> get_rank() { return c->irecv(source, kc::kCommonTag, rank); }
    boost::optional<boost::mpi::request> get_numbers() { c->recv(source, kc::kCommonTag, numbers); return boost::optional<boost::mpi::request>(); }
    boost::optional<boost::mpi::request> get_text() { return c->irecv(source, kc::kCommonTag, text); }
    boost::optional<boost::mpi::request> get_more() { c->recv(source, kc::kCommonTag, more); return boost::optional<boost::mpi::request>(); }
    AsyncCallChain::shared_ptr ReceiveAsync(boost::mpi::communicator* comm, int s)
    {
        c = comm; source = s;
        AsyncCallChain::shared_ptr chain = AsyncCallChain::CreateAsyncCallChain(boost::bind(&Echo::get_id, this));
        if (parts > 1) chain->Add(boost::bind(&Echo::get_rank, this));
        if (parts > 2) chain->Add(boost::bind(&Echo::get_numbers, this));
        if (parts > 3) chain->Add(boost::bind(&Echo::get_text, this));
        if (parts > 4) chain->Add(boost::bind(&Echo::get_more, this));
        return chain;
    }
    void Send(boost::mpi::communicator* comm)
    {
        comm->send(kc::kServerRank, kc::kCommonTag, id);
        if (parts > 1) comm->send(kc::kServerRank, kc::kCommonTag, rank);
        if (parts > 2) comm->send(kc::kServerRank, kc::kCommonTag, numbers);
        if (parts > 3) comm->send(kc::kServerRank, kc::kCommonTag, text);
        if (parts > 4) comm->send(kc::kServerRank, kc::kCommonTag, more);
    }
};
void pause_us(long us) { if (us <= 0) return; timespec t = {us / 1000000, us % 1000000 * 1000}; nanosleep(&t, nullptr); }
struct EchoTask : IMpiTask
{
    long id = -1; int parts = 1; long micros = 0;
    std::vector<double> numbers;
    std::string text;
    Echo* Perform() const
    {
        log_line("P " + std::to_string(id));
        pause_us(micros);
        Echo* r = new Echo;
        r->id = id * 3 + 1; r->rank = my_rank; r->parts = parts;
        r->numbers = numbers;
        for (double& x : r->numbers) x = x * 2 + 1;
        r->text = text + text;
        r->more.assign(numbers.rbegin(), numbers.rend());
        return r;
    }
    IMpiTaskResult::shared_ptr CreateEmptyResult() const { Echo* e = new Echo; e->parts = parts; return IMpiTaskResult::shared_ptr(e); }
    EchoTask* Clone() const { EchoTask* t = new EchoTask; copy_to(t); return t; }
    void copy_to(EchoTask* t) const { t->id = id; t->parts = parts; t->micros = micros; t->numbers = numbers; t->text = text; }
    void Send(boost::mpi::communicator* c, int target) const
    {
        c->send(target, kc::kCommonTag, id); c->send(target, kc::kCommonTag, parts); c->send(target, kc::kCommonTag, micros);
        c->send(target, kc::kCommonTag, numbers); c->send(target, kc::kCommonTag, text);
    }
    void Receive(boost::mpi::communicator* c, int source)
    {
        c->recv(source, kc::kCommonTag, id); c->recv(source, kc::kCommonTag, parts); c->recv(source, kc::kCommonTag, micros);
        c->recv(source, kc::kCommonTag, numbers); c->recv(source, kc::kCommonTag, text);
    }
};
struct OtherTask : EchoTask         // another class with the same content
{
    OtherTask* Clone() const { OtherTask* t = new OtherTask; copy_to(t); return t; }
    Echo* Perform() const { Echo* e = EchoTask::Perform(); e->text = "other" + e->text; e->id = -e->id; return e; }
};
struct LocalResult : ITaskResult {};
struct LocalTask : ITask { ITaskResult* Perform() const { return new LocalResult; } };

struct Bookkeeping
{
    std::map<int, long> total;      // per rank
    void check_statistics()
    {
        std::vector<WorkerStatistics> s = pool->GetStatistics();
        std::multiset<long> a, b;
        long sum = 0, expected = 0;
        for (auto& w : s) if (w.get_counted()) { a.insert((long)w.get_counted()); sum += (long)w.get_counted(); }
        for (auto& t : total) if (t.second) { b.insert(t.second); expected += t.second; }
        check(sum == expected, "statistics-sum", [&] { return "statistics count " + std::to_string(sum) + " tasks, " + std::to_string(expected) + " were performed"; });
        check(a == b, "statistics-per-worker", [&] { std::string t; for (auto& w : s) t += std::to_string(w.get_id()) + ":" + std::to_string(w.get_counted()) + " "; return "statistics " + t + ", performed " + show(std::vector<long>(b.begin(), b.end())); });
        count("statistics compared");
    }
};
Bookkeeping& books() { static Bookkeeping b; return b; }
K52_TASK(tasks_case, "tasks")
{
    static long next_id = 1;
    if (!pool) fail("no-pool", "no MPI pool");
    if (processes < 2)
    {
        EchoTask t; t.id = 1;
        std::vector<const ITask*> ts(1, &t);
        check(!pool->IsValid(), "valid-alone", "the MPI pool claims to be valid with no other process");
        must_throw("alone", "tasks on a pool of one process", [&] { pool->DoTasks(ts); });
        observe(Hash().add((uint64_t)index).h, false);
        return;
    }
    check(pool->IsValid(), "not-valid", "the MPI pool is not valid");
    check(!WorkerPoolFactory::CanCreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool), "second-pool", "a second MPI pool is offered");
    if (rng.chance(0.2)) must_throw("second-pool", "second MPI pool", [&] { WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool); });
    int batches = (int)rng.range(1, 3);
    std::string course;
    int budget = 1500;
    for (int b = 0; b < batches; b++)
    {
        long n = rng.chance(0.1) ? 0 : rng.chance(0.2) ? rng.range(1, processes) : rng.range(1, 40);
        int style = (int)rng.range(0, 3);
        std::vector<boost::shared_ptr<EchoTask> > own;
        std::vector<bool> other;
        for (long i = 0; i < n; i++)
        {
            other.push_back(rng.chance(0.3));
            boost::shared_ptr<EchoTask> t(other.back() ? new OtherTask : new EchoTask);
            t->id = next_id++;
            // the server polls with delays of 1, 10, 100, 1000 ms, one per part
            static const int costs[] = {0, 1, 11, 111, 1111, 2111};
            t->parts = rng.chance(0.5) ? 1 : (int)rng.range(1, 5);
            if (costs[t->parts] > budget) t->parts = 1 + (budget > 11);
            budget -= costs[t->parts];
            t->micros = style == 0 ? 0 : style == 1 ? rng.range(0, 3000) : style == 2 ? (i == 0 ? 15000 : 0) : (rng.chance(0.15) ? 8000 : 0);
            t->numbers.resize((size_t)(rng.chance(0.05) ? rng.range(1000, 20000) : rng.range(0, 6)));
            for (double& x : t->numbers) x = rng.uni(-9, 9);
            t->text.assign((size_t)rng.range(0, 12), (char)('a' + rng.range(0, 25)));
            own.push_back(t);
        }
        std::vector<const ITask*> ts;
        for (auto& t : own) ts.push_back(t.get());
        std::string how = std::to_string(n) + " tasks on " + std::to_string(processes) + " processes, batch " + std::to_string(b);
        if (n && rng.chance(0.15))
        {
            LocalTask lt;
            std::vector<const ITask*> mixed = ts;
            mixed.insert(mixed.begin() + rng.range(0, n), &lt);
            must_throw("foreign-task", how + " and one that is no MPI task", [&] { pool->DoTasks(mixed); });
            count("foreign tasks refused");
            bool performed = false;
            for (int r = 1; r < processes; r++) for (auto& l : new_lines(r)) if (l[0] == 'P') performed = true;
            check(!performed, "refused-but-performed", [&] { return how + ": refused because of one task, but others were performed"; });
        }
        std::vector<ITaskResult::shared_ptr> rs = pool->DoTasks(ts);
        check((long)rs.size() == n, "result-count", [&] { return how + ": " + std::to_string(rs.size()) + " results"; });
        std::map<long, std::vector<int> > performed;
        for (int r = 0; r < processes; r++) for (auto& l : new_lines(r)) if (l[0] == 'P') { performed[atol(l.c_str() + 2)].push_back(r); books().total[r]++; }
        std::set<ITaskResult*> distinct;
        std::set<int> used;
        for (long i = 0; i < n; i++)
        {
            Echo* e = dynamic_cast<Echo*>(rs[(size_t)i].get());
            const EchoTask& t = *own[(size_t)i];
            check(e != nullptr, "no-result", [&] { return how + ": task " + std::to_string(i) + " has no result"; });
            check(distinct.insert(e).second, "shared-result", [&] { return how + ": two tasks share a result"; });
            std::string which = how + ": task " + std::to_string(i);
            long want = other[(size_t)i] ? -(t.id * 3 + 1) : t.id * 3 + 1;
            check(e->id == want, "foreign-result", [&] { return which + " got " + std::to_string(e->id) + " instead of " + std::to_string(want); });
            auto& by = performed[t.id];
            check(by.size() == 1, "not-exactly-once", [&] { return which + " was performed " + std::to_string(by.size()) + " times"; });
            check(by[0] != 0, "performed-by-server", [&] { return which + " was performed by the server"; });
            used.insert(by[0]);
            if (t.parts > 1) check(e->rank == by[0], "result-part", [&] { return which + ": second part says rank " + std::to_string(e->rank) + ", performed by " + std::to_string(by[0]); });
            if (t.parts > 2) { std::vector<double> w = t.numbers; for (double& x : w) x = x * 2 + 1; check(e->numbers == w, "result-part", [&] { return which + ": numbers " + show(e->numbers) + " instead of " + show(w); }); }
            if (t.parts > 3) check(e->text == (other[(size_t)i] ? "other" : "") + t.text + t.text, "result-part", [&] { return which + ": text " + e->text; });
            if (t.parts > 4) check(e->more == std::vector<double>(t.numbers.rbegin(), t.numbers.rend()), "result-part", [&] { return which + ": last part " + show(e->more); });
            course += std::to_string(by[0]) + ",";
        }
        check((long)performed.size() == n, "other-tasks-performed", [&] { return how + ": " + std::to_string(performed.size()) + " tasks were performed"; });
        books().check_statistics();
        count("batches"); count("tasks", (uint64_t)n);
        peak("workers used at once", used.size());
    }
    observe(Hash().add(course).h, course.size() > 4);
    if (Log::get().wants_sample()) Log::get().sample("ranks that performed the tasks: " + course);
}

// ------------------------------------------------------------------ transferring objects
double valley(const Point& p)
{
    double s = 0;
    for (size_t i = 0; i < p.size(); i++) s += (double)(i + 1) * (p[i] - 1.25 + 0.5 * (double)i) * (p[i] - 1.25 + 0.5 * (double)i) + 0.3 * (1 - std::cos(3 * p[i]));
    return s;
}
struct Valley : ContinuousObjectiveFunction
{
    static bool logging;
    double operator()(const Point& p) const { double v = valley(p); if (logging) log_line("E " + show(p)); return v; }
    Valley* Clone() const { return new Valley; }
};
bool Valley::logging = false;
struct Fingerprint : ContinuousObjectiveFunction        // counts and hashes the points of a run
{
    Hash* h; long* n;
    Fingerprint(Hash* a, long* b) : h(a), n(b) {}
    double operator()(const Point& p) const { h->add(p); if (++*n > 20000) throw std::runtime_error("too much work"); return valley(p); }
    Fingerprint* Clone() const { return new Fingerprint(h, n); }
};
boost::shared_ptr<IParameters> prototype(int kind)
{
    switch (kind)
    {
    case 0: return boost::shared_ptr<IParameters>(new ContinuousParametersArray(1));
    case 1: return boost::shared_ptr<IParameters>(new IntParameter(-37, 90));
    case 2: return boost::shared_ptr<IParameters>(new DoubleParameter(0, -1, 2.5, 0.01));
    case 3: return boost::shared_ptr<IParameters>(new DoubleParametersArray(-3, 5, 0.125, 4));
    default:
    {
        CompositeDiscreteParameters* c = new CompositeDiscreteParameters;
        std::vector<IDiscreteParameters::shared_ptr> l;
        l.push_back(IntParameter::shared_ptr(new IntParameter(0, 9)));
        l.push_back(DoubleParameter::shared_ptr(new DoubleParameter(0, 0, 1, 0.05)));
        l.push_back(DoubleParametersArray::shared_ptr(new DoubleParametersArray(-1, 1, 0.01, 2)));
        l.push_back(IntParameter::shared_ptr(new IntParameter(-5, -5)));
        c->Initialize(l);
        return boost::shared_ptr<IParameters>(c);
    }
    }
}
Point describe(const IParameters* p)
{
    if (auto c = dynamic_cast<const ContinuousParametersArray*>(p)) return c->GetValues();
    if (auto i = dynamic_cast<const IntParameter*>(p)) return Point(1, i->get_value());
    if (auto d = dynamic_cast<const DoubleParameter*>(p)) return Point(1, d->GetValue());
    if (auto a = dynamic_cast<const DoubleParametersArray*>(p)) return a->get_values();
    Point r;
    auto c = dynamic_cast<const CompositeDiscreteParameters*>(p);
    if (!c) return Point(1, NAN);
    for (size_t i = 0; i < c->GetNumberOfParameters(); i++) { Point x = describe(c->GetParameter(i).get()); r.insert(r.end(), x.begin(), x.end()); }
    return r;
}
boost::shared_ptr<ContinuousOptimizer> random_optimizer(Rng& rng, int kind)
{
    ContinuousOptimizer* o;
    switch (kind)
    {
    case 0: o = new HookeJeevesMethod(rng.uni(1, 2.5), rng.uni(0.05, 2), (size_t)rng.range(1, 200), std::pow(10, -rng.uni(1, 6)), rng.uni(1.5, 4)); break;
    case 1: o = new HleborodovRosenbrockMethod(std::pow(10, -rng.uni(1, 6)), (size_t)rng.range(1, 200), rng.uni(0.01, 1), rng.uni(0.5, 5)); break;
    case 2: o = new ConjugateGradientMethod(std::pow(10, -rng.uni(2, 5)), std::pow(10, -rng.uni(3, 5)), (size_t)rng.range(1, 60)); break;
    case 3: o = new SteepestDescentMethod(std::pow(10, -rng.uni(3, 6)), (size_t)rng.range(1, 60), std::pow(10, -rng.uni(3, 9))); break;
    default: o = new BoundedNelderMead(rng.uni(0.05, 3), std::pow(10, -rng.uni(1, 9)), -rng.uni(3, 10), rng.uni(3, 10));
    }
    return boost::shared_ptr<ContinuousOptimizer>(o);
}
const char* optimizer_name(int k) { static const char* n[] = {"HookeJeeves", "Rosenbrock", "ConjugateGradient", "SteepestDescent", "NelderMead"}; return n[k]; }
// course of a run: hash, work, result
Point run_of(ContinuousOptimizer& o, const Point& start, bool maximize)
{
    Hash h; long n = 0;
    Fingerprint f(&h, &n);
    ContinuousParametersArray p(start.size());
    p.SetValues(start);
    double failed = 0;
    try { o.Optimize(static_cast<const IObjectiveFunction&>(f), static_cast<IParameters*>(&p), maximize); } catch (const std::exception&) { failed = 1; }
    Point r = p.GetValues();
    r.push_back((double)n); r.push_back((double)(h.h >> 12)); r.push_back(failed);
    unlink("polygon.plot");
    return r;
}
struct TransferResult : IMpiTaskResult
{
    Point seen;                                 // what the worker saw
    boost::shared_ptr<IParameters> back;        // what came back
    boost::mpi::communicator* c = nullptr; int source = 0, kind = 0; bool parameters = true;
    boost::optional<boost::mpi::request> get_seen() { c->recv(source, kc::kCommonTag, seen); return boost::optional<boost::mpi::request>(); }
    boost::optional<boost::mpi::request> get_back() { back = prototype(kind); back->Receive(c, source); return boost::optional<boost::mpi::request>(); }
    AsyncCallChain::shared_ptr ReceiveAsync(boost::mpi::communicator* comm, int s)
    {
        c = comm; source = s;
        AsyncCallChain::shared_ptr chain = AsyncCallChain::CreateAsyncCallChain(boost::bind(&TransferResult::get_seen, this));
        if (parameters) chain->Add(boost::bind(&TransferResult::get_back, this));
        return chain;
    }
    void Send(boost::mpi::communicator* comm) { comm->send(kc::kServerRank, kc::kCommonTag, seen); if (parameters) back->Send(comm, kc::kServerRank); }
};
struct TransferTask : IMpiTask
{
    int kind = 0; bool parameters = true, maximize = false;
    boost::shared_ptr<IParameters> p;
    boost::shared_ptr<ContinuousOptimizer> o;
    Point start;
    TransferResult* Perform() const
    {
        log_line("P 0");
        TransferResult* r = new TransferResult;
        r->kind = kind; r->parameters = parameters;
        if (parameters) { r->seen = describe(p.get()); r->back.reset(p->Clone()); }
        else r->seen = run_of(*o, start, maximize);
        return r;
    }
    IMpiTaskResult::shared_ptr CreateEmptyResult() const { TransferResult* r = new TransferResult; r->kind = kind; r->parameters = parameters; return IMpiTaskResult::shared_ptr(r); }
    TransferTask* Clone() const { TransferTask* t = new TransferTask; t->kind = kind; t->parameters = parameters; t->maximize = maximize; t->start = start; return t; }
    void Send(boost::mpi::communicator* c, int target) const
    {
        c->send(target, kc::kCommonTag, kind); c->send(target, kc::kCommonTag, parameters); c->send(target, kc::kCommonTag, maximize); c->send(target, kc::kCommonTag, start);
        if (parameters) p->Send(c, target); else o->Send(c, target);
    }
    void Receive(boost::mpi::communicator* c, int source)
    {
        c->recv(source, kc::kCommonTag, kind); c->recv(source, kc::kCommonTag, parameters); c->recv(source, kc::kCommonTag, maximize); c->recv(source, kc::kCommonTag, start);
        if (parameters) { p = prototype(kind); p->Receive(c, source); }
        else { Rng other(99); o = random_optimizer(other, kind); o->Receive(c, source); }
    }
};
K52_TASK(transfer_case, "transfer")
{
    long n = rng.range(1, 8);
    std::vector<boost::shared_ptr<TransferTask> > own;
    std::vector<const ITask*> ts;
    for (long i = 0; i < n; i++)
    {
        boost::shared_ptr<TransferTask> t(new TransferTask);
        t->parameters = rng.chance(0.5);
        t->kind = (int)rng.range(0, 4);
        t->maximize = rng.chance(0.3);
        if (t->parameters)
        {
            t->p = prototype(t->kind);
            if (t->kind == 0)
            {
                Point v((size_t)(rng.chance(0.1) ? rng.range(100, 5000) : rng.range(0, 9)));
                for (double& x : v) { static const double odd[] = {0, -0.0, 1e308, -1e-320, 0.1}; x = rng.chance(0.2) ? odd[rng.range(0, 4)] : rng.uni(-1e3, 1e3); }
                t->p.reset(new ContinuousParametersArray(v.size()));
                static_cast<ContinuousParametersArray*>(t->p.get())->SetValues(v);
            }
            else
            {
                IDiscreteParameters* d = static_cast<IDiscreteParameters*>(dynamic_cast<IDiscreteParameters*>(t->p.get()));
                std::vector<bool> ch(d->GetChromosomeSize());
                for (int tries = 0; tries < 50; tries++)
                {
                    int style = (int)rng.range(0, 3);
                    for (size_t k = 0; k < ch.size(); k++) ch[k] = style == 0 ? false : style == 1 ? true : rng.chance(0.5);
                    d->SetFromChromosome(ch.begin(), ch.end());
                    if (d->CheckConstraints()) break;
                }
                if (!d->CheckConstraints()) { std::fill(ch.begin(), ch.end(), false); d->SetFromChromosome(ch.begin(), ch.end()); }
            }
        }
        else
        {
            t->o = random_optimizer(rng, t->kind);
            t->start.resize((size_t)rng.range(1, 4));
            for (double& x : t->start) x = rng.uni(-3, 3);
        }
        own.push_back(t);
        ts.push_back(t.get());
    }
    std::vector<ITaskResult::shared_ptr> rs = pool->DoTasks(ts);
    check((long)rs.size() == n, "result-count", "another number of results");
    Hash h;
    for (long i = 0; i < n; i++)
    {
        TransferTask& t = *own[(size_t)i];
        TransferResult* r = dynamic_cast<TransferResult*>(rs[(size_t)i].get());
        check(r != nullptr, "no-result", "a task has no result");
        static const char* names[] = {"continuous array", "integer", "real", "real array", "composite"};
        Point want = t.parameters ? describe(t.p.get()) : run_of(*t.o, t.start, t.maximize);
        std::string what = t.parameters ? std::string("parameters of kind ") + names[t.kind] : std::string("optimizer ") + optimizer_name(t.kind);
        auto same = [](const Point& a, const Point& b) { return a.size() == b.size() && (a.empty() || !memcmp(&a[0], &b[0], a.size() * sizeof(double))); };
        check(same(r->seen, want), "transfer:" + what, [&] { return what + ": the worker " + (t.parameters ? "received " : "ran ") + show(r->seen) + ", sent " + show(want); });
        if (t.parameters) { Point b = describe(r->back.get()); check(same(b, want), "transfer-back:" + what, [&] { return what + ": came back as " + show(b) + ", sent " + show(want); }); count("parameters transferred"); }
        else count("optimizers transferred");
        h.add(want);
    }
    observe(h.h);
}

// ------------------------------------------------------------------ distributed searches against local ones
K52_TASK(search_case, "search")
{
    size_t n = (size_t)rng.range(1, 4);
    bool maximize = rng.chance(0.3);
    uint64_t seed = rng.u64();
    Valley f;
    auto go = [&](RandomSearch& s)
    {
        srand((unsigned)seed);
        ContinuousParametersArray p(n);
        p.SetValues(Point(n, 0.5));
        std::string thrown;
        outcome([&] { s.Optimize(static_cast<const IObjectiveFunction&>(f), static_cast<IParameters*>(&p), maximize); }, &thrown);
        if (!thrown.empty()) fail("exception", "search: " + thrown);
        return p.GetValues();
    };
    for (int r = 0; r < processes; r++) new_lines(r);
    Valley::logging = true;
    Point far = go(*searching);
    std::vector<long> per((size_t)processes, 0);
    std::set<std::string> points;
    for (int r = 0; r < processes; r++) for (auto& l : new_lines(r)) if (l[0] == 'E') { per[(size_t)r]++; points.insert(l); }
    Valley::logging = false;
    RandomSearch local((size_t)search_points, search_lo, search_hi, inner.get());
    Point near = go(local);
    std::string what = std::string("random search of ") + std::to_string(search_points) + " points in dimension " + std::to_string(n) + (inner ? " with " + inner->get_name() : "") + " on " + std::to_string(processes) + " processes";
    check(far == near, "distributed-changed-search", [&] { return what + ": result " + show(far) + ", locally " + show(near); });
    if (!inner)
    {
        long sum = 0;
        for (long x : per) sum += x;
        check(sum == search_points && (long)points.size() == search_points, "evaluations", [&] { return what + ": evaluations by rank " + show(per); });
        check(per[0] == 0, "evaluated-by-server", [&] { return what + ": evaluations by rank " + show(per); });
    }
    else
    {
        check(per[0] <= search_points, "evaluated-by-server", [&] { return what + ": evaluations by rank " + show(per); });
        count("inner searches compared");
    }
    count("searches compared");
    observe(Hash().add(far).add(seed).h);
}
struct Riddle : DiscreteObjectiveFunction
{
    double operator()(const IDiscreteParameters* const p) const
    {
        log_line("E");
        Point x = describe(p);
        double s = 0;
        for (size_t i = 0; i < x.size(); i++) s += std::cos(x[i] * (double)(i + 1)) + 1 + 0.01 * x[i];
        return s;
    }
    Riddle* Clone() const { return new Riddle; }
};
std::string generations_text;
void on_generation(GenerationStatistics s)
{
    generations_text += num(s.get_best_fitness()) + "/" + num(s.get_average_fitness()) + ";";
}
GeneticAlgorithm::shared_ptr make_ga()
{
    static IMutator::shared_ptr mutator(new FlipBitMutator(0.05));   // has a state of its own, drawn at construction
    GeneticAlgorithm::shared_ptr g = GeneticAlgorithm::Create(ga_population, ga_elites, ga_generations, mutator);
    g->OnNextGenerationReadyConnect(on_generation);
    return g;
}
K52_TASK(ga_case, "genetic")
{
    uint64_t seed = rng.u64();
    int kind = (int)rng.range(2, 4);
    Riddle f;
    auto go = [&](GeneticAlgorithm& g)
    {
        srand((unsigned)seed);
        generations_text.clear();
        boost::shared_ptr<IParameters> p = prototype(kind);
        std::string thrown;
        outcome([&] { g.Optimize(f, dynamic_cast<IDiscreteParameters*>(p.get()), true); }, &thrown);
        if (!thrown.empty()) fail("exception", "genetic algorithm: " + thrown);
        return describe(p.get());
    };
    // the local run starts from the same state of the random source: in a copy of this process
    std::string near = in_child([&] { GeneticAlgorithm::shared_ptr local = make_ga(); return show(go(*local), 1000) + " " + generations_text; });
    for (int r = 0; r < processes; r++) new_lines(r);
    Point far = go(*genetic);
    std::string far_course = generations_text;
    std::vector<long> per((size_t)processes, 0);
    for (int r = 0; r < processes; r++) per[(size_t)r] = (long)new_lines(r).size();
    std::string what = "genetic algorithm on " + std::to_string(processes) + " processes";
    check(per[0] == 0, "evaluated-by-server", [&] { return what + ": evaluations by rank " + show(per); });
    std::string all = show(far, 1000) + " " + far_course;
    check(all == near, "distributed-changed-course", [&] { return what + ": result and generations " + all + ", locally " + near; });
    long sum = 0;
    for (long x : per) sum += x;
    count("evaluations on other processes", (uint64_t)sum);
    count("runs compared");
    observe(Hash().add(far_course).h);
}
}
void ended() { if (my_rank > 0) log_line("X"); }

int main(int argc, char** argv)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    const char* r = getenv("OMPI_COMM_WORLD_RANK"); const char* s = getenv("OMPI_COMM_WORLD_SIZE");
    my_rank = r ? atoi(r) : 0; processes = s ? atoi(s) : 1;
    std::string task = argc > 1 ? argv[1] : "";
    uint64_t seed = 1;
    for (int i = 2; i + 1 < argc; i++) { if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[i + 1], nullptr, 10); if (!strcmp(argv[i], "--from")) first_case = atol(argv[i + 1]); }
    log_line("S");
    atexit(ended);
    IdentifyableObjectsManager& m = IdentifyableObjectsManager::Instance();
    m.RegisterObject(EchoTask()); m.RegisterObject(OtherTask()); m.RegisterObject(TransferTask());
    m.RegisterObject(Valley()); m.RegisterObject(Riddle());
    Rng conf(mix(mix(seed) ^ hstr(task) ^ mix((uint64_t)first_case + 5)));
    int kind = (int)conf.range(2, 4);
    for (int k = 0; k < 5; k++) m.RegisterObject(*prototype(k));
    (void)kind;
    case_setup() = [](uint64_t s) { k52::common::Random::Instance(); srand((unsigned)s); };
    k52::common::Random::Instance();
    for (int k = 0; k < 4; k++) { Rng o(77); m.RegisterObject(*random_optimizer(o, k)); }
    // only rank 0 gets past the creation of the pool
    if (task == "search")
    {
        Valley::logging = true;
        search_points = conf.range(1, 40); search_lo = conf.uni(-4, 0); search_hi = search_lo + conf.uni(1, 5);
        if (conf.chance(0.7)) { Rng o(conf.u64()); inner = random_optimizer(o, (int)conf.range(0, 4)); search_points = conf.range(1, 8); }
        searching.reset(new RandomSearch((size_t)search_points, search_lo, search_hi, inner.get()));
    }
    else if (task == "genetic")
    {
        ga_population = 2 * (int)conf.range(1, 8); ga_elites = (int)conf.range(0, ga_population / 2); ga_generations = (int)conf.range(1, 5);
        genetic = make_ga();
    }
    else pool = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool);
    if (my_rank != 0) { log_line("W"); return 3; }
    int rc = harness_main(argc, argv);
    if (rc) return rc;
    // destruction of the pool ends the workers
    pool.reset(); searching.reset(); genetic.reset();
    for (int r = 1; r < processes; r++)
    {
        bool gone = false;
        for (int i = 0; i < 2000 && !gone; i++)
        {
            std::ifstream in("rank-" + std::to_string(r) + ".log");
            std::string l;
            while (std::getline(in, l)) if (l == "X") gone = true;
            if (!gone) pause_us(10000);
        }
        if (!gone) violation("worker-left", "the process of rank " + std::to_string(r) + " did not end when the pool was destroyed");
    }
    return 0;
}
