// C03: results in slots, each task once. C04: throwing tasks. C05: creation and shutdown.
#include <algorithm>
#include "pool_tasks.h"
#include <parallel/thread/thread_worker_pool_templated.h>
using namespace pt;

namespace
{
int pick_hw(Rng& rng) { static const int h[] = {2, 2, 3, 4, 4, 6, 8, 16}; return h[rng.range(0, 7)]; }

void one_batch(IWorkerPool& pool, const std::string& who, Rng& rng, long n, long id, bool quiet = false)
{
    Batch b(rng, n, id);
    std::vector<ITaskResult::shared_ptr> r = pool.DoTasks(b.list);
    long end = stamp()++;
    b.check_performed(who, end);
    b.check_results(who, r);
    hv::count("batches"); hv::count("tasks performed", n);
    hv::count("overlapping tasks", b.overlap());
    hv::peak("threads used by a batch", b.threads_used());
    hv::observe(b.order_hash(), n > 1);
    if (!quiet && n > 3 && hv::Log::get().wants_sample()) hv::Log::get().sample(who + ": " + b.text + ", threads used " + std::to_string(b.threads_used()));
}
long pick_n(Rng& rng) { int k = (int)rng.range(0, 9); return k == 0 ? 0 : k == 1 ? 1 : k < 7 ? rng.range(2, 24) : rng.range(25, hv::Log::get().thorough ? 600 : 300); }

// threads of the previous case may still be in the process table
struct Settle { Settle() { hv::case_setup() = [](uint64_t) { hv::start_watchdog(); static int base = hv::thread_count(); hv::threads_down_to(base); }; } } settle;
K52_TASK(slots, "slots")
{
    hv::start_watchdog();
    hv::hardware_threads = pick_hw(rng);
    int kind = (int)rng.range(0, 5);
    IWorkerPool::shared_ptr pool = kind == 0 ? WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool)
        : kind == 1 ? WorkerPoolFactory::CreateBestWorkerPool() : WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool);
    std::string who = kind == 0 ? "sequential pool" : kind == 1 ? "best pool" : "thread pool";
    PerturbationGuard g(rng);
    {
        int batches = (int)rng.range(1, 6);
        for (int i = 0; i < batches; i++) one_batch(*pool, who, rng, pick_n(rng), i * 1000000L);
    }
    hv::check(live_results() == 0, "result-leak", [&]() { return who + ": " + std::to_string((long)live_results()) + " results alive after all batches were dropped"; });
    pool.reset();
    hv::check(live_results() == 0, "result-leak", [&]() { return who + ": results alive after the pool is gone"; });
}

K52_TASK(callers, "callers")
{
    hv::start_watchdog();
    hv::hardware_threads = pick_hw(rng);
    IWorkerPool::shared_ptr pool = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool);
    PerturbationGuard g(rng);
    int callers = (int)rng.range(2, 4), batches = (int)rng.range(1, 8);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < callers; i++) seeds.push_back(rng.u64());
    std::vector<std::thread> th;
    for (int c = 0; c < callers; c++)
        th.emplace_back([&, c]() {
            Rng mine(seeds[c]);
            try { for (int i = 0; i < batches; i++) one_batch(*pool, "caller " + std::to_string(c) + " of " + std::to_string(callers), mine, mine.range(0, 30), (c * 100 + i) * 1000000L, true); }
            catch (const hv::Violation&) {}
            catch (const std::exception& e) { hv::violation("unexpected-exception", e.what()); }
        });
    for (auto& t : th) t.join();
    hv::count("concurrent callers", callers);
    hv::check(live_results() == 0, "result-leak", "results alive after all callers are done");
}

// the templated pool under the thread pool: any number of workers, tasks as values
struct Unit
{
    std::atomic<long>* counter;
    Unit() : counter(nullptr) {}
    explicit Unit(std::atomic<long>* c) : counter(c) {}
    void DoTask() { hv::perturb_point(); (*counter)++; hv::perturb_point(); }
};
K52_TASK(templated, "templated")
{
    hv::start_watchdog();
    int n = (int)rng.range(1, 12);
    PerturbationGuard g(rng);
    k52::parallel::thread::ThreadWorkerPoolTemplated<Unit> pool(n);
    hv::check(pool.get_number_of_workers() == n, "worker-count", "get_number_of_workers differs from what was asked");
    int batches = (int)rng.range(1, 10);
    for (int b = 0; b < batches; b++)
    {
        long k = pick_n(rng);
        std::vector<std::atomic<long>> c(k);
        std::queue<Unit> q;
        for (long i = 0; i < k; i++) { c[i] = 0; q.push(Unit(&c[i])); }
        pool.DoTasks(q);
        for (long i = 0; i < k; i++)
        {
            long v = c[i];
            hv::check(v == 1, "task-count", [&]() { return "templated pool of " + std::to_string(n) + " workers: task " + std::to_string(i) + " of " + std::to_string(k) + " done " + std::to_string(v) + " times on return"; });
        }
        hv::count("batches"); hv::count("tasks performed", k);
    }
    hv::observe(hv::Hash().add(n).add(batches).add(rng.u64()).h);
}

// batches larger than any counter of 16 bits
struct Tiny : ITask
{
    mutable std::atomic<int> n; mutable std::atomic<ITaskResult*> r;
    Tiny() : n(0), r(nullptr) {}
    virtual ITaskResult* Perform() const { n++; ITaskResult* x = new ITaskResult(); r = x; return x; }
};
K52_TASK(huge, "huge")
{
    hv::start_watchdog();
    hv::hardware_threads = (unsigned)rng.range(2, 4);
    long k = 65536 + (rng.chance(0.5) ? rng.range(1, 5) : rng.range(0, 40000));
    int kind = (int)rng.range(0, 2);
    if (kind == 0)
    {
        k52::parallel::thread::ThreadWorkerPoolTemplated<Unit> pool((int)rng.range(1, 4));
        std::vector<std::atomic<long>> c(k);
        std::queue<Unit> q;
        for (long i = 0; i < k; i++) { c[i] = 0; q.push(Unit(&c[i])); }
        pool.DoTasks(q);
        for (long i = 0; i < k; i++)
        {
            long v = c[i];
            hv::check(v == 1, "task-count", [&]() { return "templated pool: task " + std::to_string(i) + " of " + std::to_string(k) + " done " + std::to_string(v) + " times on return"; });
        }
    }
    else
    {
        IWorkerPool::shared_ptr pool = WorkerPoolFactory::CreateWorkerPool(kind == 1 ? WorkerPoolFactory::kSequentialWorkerPool : WorkerPoolFactory::kThreadWorkerPool);
        std::vector<Tiny> own(k);
        std::vector<const ITask*> list;
        for (auto& t : own) list.push_back(&t);
        std::vector<ITaskResult::shared_ptr> r = pool->DoTasks(list);
        hv::check((long)r.size() == k, "result-count", [&]() { return std::to_string(r.size()) + " results of " + std::to_string(k) + " tasks"; });
        for (long i = 0; i < k; i++)
        {
            int v = own[i].n;
            hv::check(v == 1, "task-count", [&]() { return "task " + std::to_string(i) + " of " + std::to_string(k) + " done " + std::to_string(v) + " times on return"; });
            hv::check(r[i].get() == own[i].r, "wrong-slot", [&]() { return "result " + std::to_string(i) + " of " + std::to_string(k) + " is not the one its task produced"; });
        }
    }
    hv::count("batches"); hv::count("huge batches"); hv::count("tasks performed", k);
    hv::observe(hv::Hash().add((int)k).add(kind).h);
}

// ------------------------------------------------------------------ C04
K52_TASK(throwing, "throwing")
{
    hv::start_watchdog();
    hv::hardware_threads = pick_hw(rng);
    bool seq = rng.chance(0.2);
    IWorkerPool::shared_ptr pool = WorkerPoolFactory::CreateWorkerPool(seq ? WorkerPoolFactory::kSequentialWorkerPool : WorkerPoolFactory::kThreadWorkerPool);
    std::string who = seq ? "sequential pool" : "thread pool";
    int threads = hv::thread_count();
    {
        PerturbationGuard g(rng);
        int batches = (int)rng.range(1, 8);
        for (int i = 0; i < batches; i++)
        {
            double rate = rng.chance(0.2) ? 1.0 : rng.chance(0.5) ? rng.uni() : rng.uni(0, 0.1);
            if (rng.chance(0.25)) rate = 0;
            long n = rng.chance(0.1) ? 1 : rng.range(1, 60);
            Batch b(rng, n, i * 1000000L, rate);
            if (b.throwing == 0) { hv::count("clean batches after failures"); }
            std::vector<ITaskResult::shared_ptr> r;
            Caught c = catch_kind([&]() { r = pool->DoTasks(b.list); });
            long end = stamp()++;
            hv::count("batches");
            if (b.throwing)
            {
                hv::count("batches with failures"); hv::count("failing tasks", b.throwing);
                hv::check(c.kind != NOTHING || c.unknown, "exception-swallowed", [&]() { return who + ": " + b.text + ": the call returned normally"; });
                hv::check(!c.unknown, "exception-type", [&]() { return who + ": " + b.text + ": an exception of a type no task threw reached the caller: " + c.text; });
                bool found = false;
                for (auto& t : b.own) if (t->throws == c.kind && (c.id == -1 || c.id == t->id)) found = true;
                hv::check(found, "exception-type", [&]() { return who + ": " + b.text + ": caller got " + throw_name(c.kind) + " (" + std::to_string(c.id) + ") which no task of the batch threw"; });
                hv::check(r.empty(), "results-of-failed-batch", "results were assigned although the call threw");
                if (seq)
                {
                    bool stopped = false;
                    for (auto& t : b.list)
                    {
                        const Task* x = static_cast<const Task*>(t);
                        hv::check((long)x->events.size() <= b.times.at(t), "task-count", [&]() { return who + ": task " + std::to_string(x->id) + " performed too often"; });
                        if (!stopped) hv::check(x->events.size() >= 1, "task-count", [&]() { return who + ": task " + std::to_string(x->id) + " before the failing one was not performed"; });
                        if (x->throws) stopped = true;
                    }
                }
                else b.check_performed(who, end);
            }
            else
            {
                hv::check(c.kind == NOTHING && !c.unknown, "stale-exception", [&]() { return who + ": a batch without failing tasks threw " + (c.unknown ? c.text : throw_name(c.kind)) + " (" + b.text + ")"; });
                b.check_performed(who, end);
                b.check_results(who, r);
            }
            r.clear();
            hv::check(live_results() == 0, "result-leak", [&]() { return who + ": " + std::to_string((long)live_results()) + " results alive after a batch with " + std::to_string(b.throwing) + " failing tasks was dropped"; });
            hv::observe(hv::Hash().add(b.order_hash()).add(b.throwing).add((int)c.kind).h, b.throwing > 0);
            if (b.throwing && n > 3 && hv::Log::get().wants_sample()) hv::Log::get().sample(who + ": " + b.text + ", caller got " + throw_name(c.kind));
        }
        int now = hv::thread_count();
        hv::check(now == threads, "worker-lost", [&]() { return who + ": " + std::to_string(now) + " threads after the batches, " + std::to_string(threads) + " before"; });
        // the whole pool still works
        one_batch(*pool, who + " after failures", rng, 12, 900000000L);
    }
    if (!seq && rng.chance(0.05))
        hv::check(can_meet(*pool, threads - 1), "worker-lost", [&]() { return "after the failing batches " + std::to_string(threads - 1) + " tasks can no longer run on the " + std::to_string(threads - 1) + " threads of the pool"; });
}

K52_TASK(throwing_callers, "throwing-callers")
{
    hv::start_watchdog();
    hv::hardware_threads = pick_hw(rng);
    IWorkerPool::shared_ptr pool = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool);
    PerturbationGuard g(rng);
    int callers = (int)rng.range(2, 4);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < callers; i++) seeds.push_back(rng.u64());
    std::vector<std::thread> th;
    for (int c = 0; c < callers; c++)
        th.emplace_back([&, c]() {
            Rng mine(seeds[c]);
            std::string who = "caller " + std::to_string(c);
            try
            {
                for (int i = 0; i < 5; i++)
                {
                    Batch b(mine, mine.range(1, 20), (c * 100 + i) * 100000L, c == 0 ? 0 : mine.uni(0, 0.4));
                    std::vector<ITaskResult::shared_ptr> r;
                    Caught k = catch_kind([&]() { r = pool->DoTasks(b.list); });
                    long end = stamp()++;
                    b.check_performed(who, end);
                    if (!b.throwing) { hv::check(k.kind == NOTHING && !k.unknown, "stale-exception", "a caller whose tasks do not throw got an exception"); b.check_results(who, r); }
                    else
                    {
                        hv::count("batches with failures");
                        bool found = false;
                        for (auto& t : b.own) if (!k.unknown && k.kind != NOTHING && t->throws == k.kind && (k.id == -1 || k.id == t->id)) found = true;
                        hv::check(found, "exception-type", [&]() { return who + " got " + (k.unknown ? k.text : throw_name(k.kind)) + " which none of its tasks threw"; });
                    }
                    hv::observe(hv::Hash().add(b.order_hash()).add(b.throwing).h, b.throwing > 0);
                }
            }
            catch (const hv::Violation&) {}
            catch (const std::exception& e) { hv::violation("unexpected-exception", e.what()); }
        });
    for (auto& t : th) t.join();
    hv::check(live_results() == 0, "result-leak", "results alive after all callers are done");
}

// ------------------------------------------------------------------ C05
K52_TASK(factory, "factory")
{
    hv::start_watchdog();
    typedef WorkerPoolFactory F;
    int base = hv::thread_count();
    unsigned hw = (unsigned)rng.range(1, 9);
    hv::hardware_threads = hw;
    int kinds[] = {F::kThreadWorkerPool, F::kMpiWorkerPool, F::kSequentialWorkerPool, 7};
    for (int k : kinds)
    {
        bool can = F::CanCreateWorkerPool((F::WorkerPoolType)k);
        IWorkerPool::shared_ptr p;
        std::string what;
        int o = hv::outcome([&]() { p = F::CreateWorkerPool((F::WorkerPoolType)k); }, &what);
        hv::check(can == (o == 0 && p), "factory-answer", [&]() { return "kind " + std::to_string(k) + ": CanCreate says " + (can ? "yes" : "no") + ", creation " + (o == 0 && p ? "succeeded" : "failed: " + what); });
        hv::check(o != 2, "factory-answer", "creation threw something that is not a std::exception");
        if (k == F::kThreadWorkerPool || k == F::kSequentialWorkerPool) hv::check(can, "factory-answer", [&]() { return "kind " + std::to_string(k) + " is built in but cannot be created"; });
        if (k == F::kMpiWorkerPool || k == 7) hv::check(!can, "factory-answer", [&]() { return "kind " + std::to_string(k) + " is not built in but can be created"; });
        if (!p) { hv::count("refusals"); continue; }
        int threads = hv::thread_count() - base;
        bool valid = p->IsValid();
        std::string who = (k == F::kThreadWorkerPool ? "thread pool with " : "sequential pool with ") + std::to_string(threads) + " threads";
        if (k == F::kSequentialWorkerPool) hv::check(threads == 0 && valid, "sequential-pool", [&]() { return who + ", valid: " + std::to_string(valid); });
        else
        {
            hv::check(threads >= 1, "thread-pool-threads", "a thread pool was created without any thread");
            hv::check(valid == (threads >= 2), "thread-pool-validity", [&]() { return who + " says valid: " + std::to_string(valid); });
        }
        if (valid) one_batch(*p, who, rng, rng.range(0, 10), 0);
        else hv::must_throw("invalid-pool", who + " accepted tasks although it is not valid", [&]() { Batch b(rng, 3, 0); p->DoTasks(b.list); });
        hv::count("pools created");
        p.reset();
        hv::check(hv::threads_down_to(base), "thread-left-behind", [&]() { return who + ": " + std::to_string(hv::thread_count() - base) + " threads left after destruction"; });
    }
    // how many threads a thread pool has here decides what the best pool must be able to do
    IWorkerPool::shared_ptr best;
    int o = hv::outcome([&]() { best = F::CreateBestWorkerPool(); });
    hv::check(o == 0 && best, "best-pool", "no best pool");
    int threads = hv::thread_count() - base;
    hv::check(best->IsValid(), "best-pool", "the best pool is not valid");
    if (hw >= 2)
    {
        hv::check(can_meet(*best, 2), "best-pool-not-parallel", [&]() { return "with " + std::to_string(hw) + " hardware threads the best pool (" + std::to_string(threads) + " threads) does not run two tasks at the same time"; });
        hv::count("two tasks met");
    }
    one_batch(*best, "best pool", rng, rng.range(0, 20), 0);
    best.reset();
    hv::check(hv::threads_down_to(base), "thread-left-behind", "threads of the best pool left after destruction");
    hv::observe(hv::Hash().add((int)hw).add(threads).add(rng.u64()).h);
}

K52_TASK(lifecycle, "lifecycle")
{
    hv::start_watchdog();
    typedef WorkerPoolFactory F;
    int base = hv::thread_count();
    {
        PerturbationGuard g(rng);
        std::vector<IWorkerPool::shared_ptr> pools;
        std::vector<std::unique_ptr<k52::parallel::thread::ThreadWorkerPoolTemplated<Unit>>> raw;
        hv::Hash h;
        int steps = (int)rng.range(3, 14);
        for (int s = 0; s < steps; s++)
        {
            int a = (int)rng.range(0, 6);
            h.add(a);
            if (a <= 1 && pools.size() < 6)
            {
                hv::hardware_threads = (unsigned)rng.range(2, 8);
                pools.push_back(F::CreateWorkerPool(rng.chance(0.9) ? F::kThreadWorkerPool : F::kSequentialWorkerPool));
                hv::count("pools created");
                if (rng.chance(0.3)) { pools.pop_back(); hv::count("destroyed straight after creation"); }
            }
            else if (a == 2 && raw.size() < 4)
            {
                int n = (int)rng.range(-3, 10);
                h.add(n);
                if (n <= 0)
                {
                    bool bad = false;
                    try { k52::parallel::thread::ThreadWorkerPoolTemplated<Unit> p(n); } catch (const std::exception&) { bad = true; }
                    hv::check(bad, "bad-worker-count", [&]() { return std::to_string(n) + " workers accepted"; });
                    hv::count("refusals");
                }
                else
                {
                    int before = hv::thread_count();
                    raw.emplace_back(new k52::parallel::thread::ThreadWorkerPoolTemplated<Unit>(n));
                    int after = hv::thread_count();
                    // threads of pools destroyed before may still be leaving the process table
                    if (before == base) hv::check(after - before == n, "worker-count", [&]() { return std::to_string(n) + " workers asked, " + std::to_string(after - before) + " threads started"; });
                    hv::count("pools created");
                }
            }
            else if (a == 3 && !pools.empty()) one_batch(*rng.pick(pools), "pool", rng, rng.range(0, 30), s * 1000L);
            else if (a == 4 && !raw.empty())
            {
                auto& p = raw[rng.u64() % raw.size()];
                std::vector<std::atomic<long>> c(10);
                std::queue<Unit> q;
                for (auto& x : c) { x = 0; q.push(Unit(&x)); }
                p->DoTasks(q);
                for (auto& x : c) hv::check(x == 1, "task-count", "task of a templated pool not done exactly once");
            }
            else if (a == 5)
            {
                if (!pools.empty() && rng.chance(0.7)) { size_t i = rng.u64() % pools.size(); pools.erase(pools.begin() + i); hv::count("pools destroyed"); }
                else if (!raw.empty()) { raw.erase(raw.begin() + rng.u64() % raw.size()); hv::count("pools destroyed"); }
            }
            else if (a == 6) usleep(rng.range(0, 500));
        }
        if (rng.chance(0.3) && pools.size() > 1)
        {
            // several threads destroy their pools at the same time
            std::vector<std::thread> th;
            for (auto& p : pools) { IWorkerPool::shared_ptr* q = &p; th.emplace_back([q]() { q->reset(); }); }
            for (auto& t : th) t.join();
            hv::count("concurrent destructions", pools.size());
        }
        hv::count("pools destroyed", pools.size() + raw.size());
        pools.clear(); raw.clear();
        hv::observe(h.add(rng.u64()).h);
    }
    hv::check(hv::threads_down_to(base), "thread-left-behind", [&]() { return std::to_string(hv::thread_count() - base) + " threads left after all pools were destroyed"; });
}

// the system refuses a further thread while a pool is being created
K52_TASK(shortage, "shortage")
{
    hv::start_watchdog();
    typedef WorkerPoolFactory F;
    int base = hv::thread_count();
    hv::Hash h;
    {
        PerturbationGuard g(rng);
        std::vector<IWorkerPool::shared_ptr> pools;
        hv::hardware_threads = (unsigned)rng.range(2, 8);
        if (rng.chance(0.4)) pools.push_back(F::CreateWorkerPool(F::kThreadWorkerPool));
        for (int k = (int)rng.range(1, 4); k > 0; k--)
        {
            unsigned n = (unsigned)rng.range(2, 12);
            hv::hardware_threads = n;
            long allowed = rng.range(0, (int64_t)n);
            unsigned long before = hv::threads_refused;
            int kind = (int)rng.range(0, 2);
            IWorkerPool::shared_ptr p;
            std::unique_ptr<k52::parallel::thread::ThreadWorkerPoolTemplated<Unit>> raw;
            hv::threads_until_shortage = allowed;
            int o = hv::outcome([&]()
            {
                if (kind == 0) p = F::CreateWorkerPool(F::kThreadWorkerPool);
                else if (kind == 1) p = F::CreateBestWorkerPool();
                else raw.reset(new k52::parallel::thread::ThreadWorkerPoolTemplated<Unit>((int)n));
            });
            hv::threads_until_shortage = -1;
            bool refused = hv::threads_refused != before;
            h.add((int)n).add((int)allowed).add(kind).add(o);
            hv::check(o != 2, "shortage-exception", "a pool that got too few threads threw something that is not a std::exception");
            if (!refused) hv::check(o == 0, "shortage-exception", "creation failed although every thread was started");
            else hv::count("thread starts refused");
            if (o == 0)
            {
                hv::count("pools created");
                if (p && p->IsValid()) one_batch(*p, "pool", rng, rng.range(0, 20), 0);
            }
            else hv::count("refusals");
            if (!pools.empty()) one_batch(*pools[0], "pool created before a failed creation", rng, rng.range(0, 20), 0);
        }
        hv::hardware_threads = 4;
        IWorkerPool::shared_ptr p = F::CreateWorkerPool(F::kThreadWorkerPool);
        one_batch(*p, "pool created after failed creations", rng, rng.range(1, 20), 0);
    }
    hv::check(hv::threads_down_to(base), "thread-left-behind", [&]() { return std::to_string(hv::thread_count() - base) + " threads left, pools could not be created for want of threads"; });
    hv::observe(h.h);
}

// a worker that is still busy letting go of its last task when the pool is destroyed
struct Lingering
{
    bool slow;
    static std::atomic<int>& busy() { static std::atomic<int> n(0); return n; }
    static std::atomic<int>& delay() { static std::atomic<int> n(0); return n; }
    Lingering() : slow(false) {}
    Lingering(const Lingering&) : slow(false) {}
    Lingering& operator=(const Lingering&) { return *this; }
    void DoTask() { slow = true; busy()++; }
    ~Lingering() { if (!slow) return; usleep(delay()); busy()--; }
};
K52_TASK(slow_shutdown, "slow-shutdown")
{
    hv::start_watchdog();
    int base = hv::thread_count();
    int workers = (int)rng.range(1, 6), tasks = (int)rng.range(1, 4);
    Lingering::delay() = rng.chance(0.5) ? 2500000 : (int)rng.range(100000, 1500000);
    bool waited = false;
    {
        k52::parallel::thread::ThreadWorkerPoolTemplated<Lingering> pool(workers);
        std::queue<Lingering> q;
        for (int i = 0; i < std::min(tasks, workers); i++) q.push(Lingering());
        pool.DoTasks(q);
        waited = Lingering::busy() > 0;
    }
    hv::check(Lingering::busy() == 0, "thread-left-behind", [&]() { return "a worker was still running when the destructor of its pool of " + std::to_string(workers) + " returned"; });
    hv::check(hv::threads_down_to(base), "thread-left-behind", [&]() { return std::to_string(hv::thread_count() - base) + " threads left after a pool with busy workers was destroyed"; });
    if (waited) hv::count("busy workers awaited");
    hv::count("pools created"); hv::count("pools destroyed");
    hv::observe(hv::Hash().add(workers).add(tasks).add((int)Lingering::delay()).h);
}
}
K52_MAIN
