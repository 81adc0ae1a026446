// Observable tasks for the worker pools and the checks on what a batch did.
#ifndef K52_VERIF_POOL_TASKS_H
#define K52_VERIF_POOL_TASKS_H
#include "watch.h"
#include "perturb.h"
#include <k52/parallel/i_task.h>
#include <k52/parallel/i_worker_pool.h>
#include <k52/parallel/worker_pool_factory.h>

namespace pt
{
using hv::Rng;
using k52::parallel::ITask;
using k52::parallel::ITaskResult;
using k52::parallel::IWorkerPool;
using k52::parallel::WorkerPoolFactory;

inline std::atomic<long>& live_results() { static std::atomic<long> n(0); return n; }
inline std::atomic<long>& stamp() { static std::atomic<long> n(0); return n; }

struct Result : ITaskResult
{
    long id; std::vector<long> payload;
    explicit Result(long i) : id(i), payload(5, i) { live_results().fetch_add(1, std::memory_order_relaxed); }
    ~Result() { live_results().fetch_sub(1, std::memory_order_relaxed); }
};

enum Throws { NOTHING, STD_RUNTIME, STD_LOGIC, STD_ALLOC, STD_RANGE, CUSTOM, CUSTOM_STD, INT, CSTRING, THROW_KINDS };
struct CustomError { long id; explicit CustomError(long i) : id(i) {} };
struct CustomStdError : std::exception { long id; std::string text; explicit CustomStdError(long i) : id(i), text("custom " + std::to_string(i)) {} const char* what() const noexcept { return text.c_str(); } };

struct Event { long start, end; int tid; ITaskResult* result; bool threw; };

class Task : public ITask
{
public:
    long id; int work; Throws throws; bool null_result;
    mutable std::mutex m;
    mutable std::vector<Event> events;
    Task(long i, int w, Throws t = NOTHING, bool n = false) : id(i), work(w), throws(t), null_result(n) {}
    virtual ITaskResult* Perform() const
    {
        Event e;
        e.start = stamp().fetch_add(1, std::memory_order_relaxed); e.tid = hv::os_tid(); e.result = nullptr; e.threw = throws != NOTHING;
        hv::perturb_point();
        if (work < 0) usleep(-work);
        else if (work > 0) for (volatile int i = 0; i < work; i = i + 1) {}
        if (throws == NOTHING && !null_result) e.result = new Result(id);
        e.end = stamp().fetch_add(1, std::memory_order_relaxed);
        { std::lock_guard<std::mutex> g(m); events.push_back(e); }
        hv::perturb_point();
        switch (throws)
        {
        case STD_RUNTIME: throw std::runtime_error("task " + std::to_string(id));
        case STD_LOGIC: throw std::logic_error("task " + std::to_string(id));
        case STD_RANGE: throw std::out_of_range("task " + std::to_string(id));
        case STD_ALLOC: throw std::bad_alloc();
        case CUSTOM: throw CustomError(id);
        case CUSTOM_STD: throw CustomStdError(id);
        case INT: throw (int)id;
        case CSTRING: throw "text thrown by a task";
        default: break;
        }
        return e.result;
    }
};
inline const char* throw_name(Throws t)
{
    static const char* n[] = {"nothing", "runtime_error", "logic_error", "bad_alloc", "out_of_range", "custom class", "custom std::exception", "int", "const char*"};
    return n[t];
}

struct Caught { Throws kind = NOTHING; long id = -1; bool unknown = false; std::string text; };
template <class F> Caught catch_kind(F f)
{
    Caught c;
    auto id_of = [](const char* w) { return strncmp(w, "task ", 5) ? -2L : atol(w + 5); };
    try { f(); }
    catch (const CustomStdError& e) { c.kind = CUSTOM_STD; c.id = e.id; if (e.text != "custom " + std::to_string(e.id)) c.id = -2; }
    catch (const CustomError& e) { c.kind = CUSTOM; c.id = e.id; }
    catch (const std::out_of_range& e) { c.kind = STD_RANGE; c.id = id_of(e.what()); }
    catch (const std::logic_error& e) { c.kind = STD_LOGIC; c.id = id_of(e.what()); c.text = e.what(); }
    catch (const std::runtime_error& e) { c.kind = STD_RUNTIME; c.id = id_of(e.what()); c.text = e.what(); }
    catch (const std::bad_alloc&) { c.kind = STD_ALLOC; }
    catch (int i) { c.kind = INT; c.id = i; }
    catch (const char*) { c.kind = CSTRING; }
    catch (const std::exception& e) { c.unknown = true; c.text = e.what(); }
    catch (...) { c.unknown = true; c.text = "unknown type"; }
    return c;
}

struct Batch
{
    std::vector<std::unique_ptr<Task>> own;
    std::vector<const ITask*> list;
    std::map<const ITask*, long> times;
    std::string text;
    int throwing = 0;
    Batch(Rng& rng, long n, long first_id, double throw_rate = 0, int max_work_us = 200)
    {
        int style = (int)rng.range(0, 3);
        double repeat = rng.chance(0.2) ? rng.uni(0, 0.5) : 0, nulls = rng.chance(0.2) ? rng.uni(0, 0.3) : 0;
        for (long i = 0; i < n; i++)
        {
            const ITask* t;
            if (!list.empty() && rng.chance(repeat)) t = rng.pick(list);
            else
            {
                int w = style == 0 ? 0 : style == 1 ? (int)rng.range(0, 3000) : style == 2 ? (rng.chance(0.2) ? -(int)rng.range(1, max_work_us) : 0)
                        : (i == 0 || rng.chance(0.05) ? -max_work_us * 4 : 0);
                Throws k = NOTHING;
                if (rng.chance(throw_rate)) k = (Throws)rng.range(1, THROW_KINDS - 1);
                own.emplace_back(new Task(first_id + i, w, k, rng.chance(nulls)));
                t = own.back().get();
            }
            if (static_cast<const Task*>(t)->throws) throwing++;
            list.push_back(t);
            times[t]++;
        }
        text = std::to_string(n) + " tasks, work style " + std::to_string(style) + ", " + std::to_string(throwing) + " throwing";
    }
    uint64_t order_hash() const
    {
        std::vector<std::pair<long, uint64_t>> ev;
        std::map<int, int> names;
        for (auto& t : own) for (auto& e : t->events) { ev.push_back({e.start, (uint64_t)t->id * 2}); ev.push_back({e.end, (uint64_t)t->id * 2 + 1}); }
        std::sort(ev.begin(), ev.end());
        hv::Hash h; for (auto& e : ev) h.add((uint64_t)(e.second - 2 * (own.empty() ? 0 : own[0]->id)));
        return h.h;
    }
    int threads_used() const
    {
        std::set<int> s;
        for (auto& t : own) for (auto& e : t->events) s.insert(e.tid);
        return (int)s.size();
    }
    int overlap() const
    {
        std::vector<std::pair<long, long>> iv;
        for (auto& t : own) for (auto& e : t->events) iv.push_back({e.start, e.end});
        std::sort(iv.begin(), iv.end());
        int n = 0; long end = -1;
        for (auto& x : iv) { n += x.first < end; end = std::max(end, x.second); }
        return n;
    }
    // every task done exactly once per occurrence
    void check_performed(const std::string& who, long call_end) const
    {
        for (auto& t : own)
        {
            std::lock_guard<std::mutex> g(t->m);
            long want = times.at(t.get());
            hv::check((long)t->events.size() == want, "task-count", [&]() {
                return who + ": task " + std::to_string(t->id) + " listed " + std::to_string(want) + " times was performed " + std::to_string(t->events.size()) + " times (" + text + ")"; });
            for (auto& e : t->events)
                hv::check(e.end < call_end, "returned-early", [&]() { return who + ": the call returned before task " + std::to_string(t->id) + " was finished (" + text + ")"; });
        }
    }
    void check_results(const std::string& who, const std::vector<ITaskResult::shared_ptr>& r) const
    {
        hv::check(r.size() == list.size(), "result-list-length", [&]() { return who + ": " + std::to_string(r.size()) + " results for " + std::to_string(list.size()) + " tasks"; });
        std::map<const ITask*, std::multiset<ITaskResult*>> got;
        for (size_t i = 0; i < r.size(); i++)
        {
            const Task* t = static_cast<const Task*>(list[i]);
            got[t].insert(r[i].get());
            if (t->null_result) { hv::check(!r[i], "result-slot", [&]() { return who + ": slot " + std::to_string(i) + " should hold the task's null result"; }); continue; }
            hv::check(!!r[i], "result-slot", [&]() { return who + ": slot " + std::to_string(i) + " of " + std::to_string(r.size()) + " is empty (" + text + ")"; });
            Result* x = dynamic_cast<Result*>(r[i].get());
            hv::check(x && x->id == t->id && x->payload == std::vector<long>(5, t->id), "result-slot", [&]() {
                return who + ": slot " + std::to_string(i) + " of " + std::to_string(r.size()) + " holds the result of task " + (x ? std::to_string(x->id) : "?") + " instead of " + std::to_string(t->id) + " (" + text + ")"; });
        }
        for (auto& e : got)
        {
            const Task* t = static_cast<const Task*>(e.first);
            std::multiset<ITaskResult*> made;
            for (auto& v : t->events) made.insert(v.result);
            hv::check(made == e.second, "result-identity", [&]() { return who + ": task " + std::to_string(t->id) + "'s slots do not hold exactly the objects it produced (" + text + ")"; });
        }
    }
};

// two tasks that wait for each other: only end with both seen if they run at the same time
struct Meeting
{
    std::atomic<int> present; int expected; std::atomic<int> met;
    explicit Meeting(int n) : present(0), expected(n), met(0) {}
};
class MeetTask : public ITask
{
public:
    Meeting& where;
    explicit MeetTask(Meeting& w) : where(w) {}
    virtual ITaskResult* Perform() const
    {
        where.present++;
        for (int i = 0; i < 20000 && where.present < where.expected; i++) usleep(1000);
        if (where.present >= where.expected) where.met++;
        return new Result(where.expected);
    }
};
inline bool can_meet(IWorkerPool& pool, int n)
{
    Meeting m(n);
    std::vector<std::unique_ptr<MeetTask>> t;
    std::vector<const ITask*> l;
    for (int i = 0; i < n; i++) { t.emplace_back(new MeetTask(m)); l.push_back(t.back().get()); }
    pool.DoTasks(l);
    return m.met == n;
}

inline void perturbation(Rng& rng)
{
    hv::perturb_seed = rng.u64();
    hv::perturb_level = (int)rng.range(0, 3);
}
inline void perturbation_report()
{
    hv::perturb_level = 0;
    hv::count("spurious wake-ups injected", hv::perturb_spurious.exchange(0));
    hv::count("extra wake-ups injected", hv::perturb_broadcasts.exchange(0));
}
struct PerturbationGuard { explicit PerturbationGuard(Rng& r) { perturbation(r); } ~PerturbationGuard() { perturbation_report(); } };
}
#endif
