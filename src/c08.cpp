// C08: worker statistics and the registry of transferable objects against models.
#include "pool_tasks.h"
#include <parallel/statistics_aggregator.h>
#include <k52/parallel/worker_statistics.h>
#include <k52/parallel/mpi/identifyable_objects_manager.h>
using namespace pt;
using k52::parallel::StatisticsAggregator;
using k52::parallel::WorkerStatistics;
using k52::parallel::mpi::IdentifyableObjectsManager;
using k52::common::ICloneable;

namespace
{
void compare(const std::map<int, std::pair<int, int>>& model, const std::vector<WorkerStatistics>& got, const std::string& who)
{
    std::map<int, std::pair<int, int>> m;
    for (const WorkerStatistics& s : got)
    {
        hv::check(!m.count(s.get_id()), "statistics-id-twice", [&]() { return who + ": id " + std::to_string(s.get_id()) + " reported twice"; });
        m[s.get_id()] = {s.get_counted(), s.get_errors()};
    }
    hv::check(m == model, "statistics", [&]() {
        std::string t = who + ": expected";
        for (auto& e : model) t += " " + std::to_string(e.first) + ":" + std::to_string(e.second.first) + "/" + std::to_string(e.second.second);
        t += ", reported";
        for (auto& e : m) t += " " + std::to_string(e.first) + ":" + std::to_string(e.second.first) + "/" + std::to_string(e.second.second);
        return t; });
    hv::count("statistics compared");
}

K52_TASK(aggregator, "aggregator")
{
    StatisticsAggregator a;
    StatisticsAggregator other;
    std::map<int, std::pair<int, int>> model;
    std::vector<int> ids;
    bool longer = rng.chance(0.05);
    int k = (int)rng.range(1, longer ? 300 : 8);
    for (int i = 0; i < k; i++) ids.push_back(rng.chance(0.2) ? (int)rng.range(std::numeric_limits<int>::min(), std::numeric_limits<int>::max()) : (int)rng.range(-2, longer ? 300 : 9));
    int steps = (int)rng.range(0, longer ? 5000 : 300);
    hv::Hash h;
    for (int i = 0; i < steps; i++)
    {
        int id = rng.pick(ids), op = (int)rng.range(0, 9);
        h.add(id).add(op);
        if (longer && op == 9 && !rng.chance(0.02)) op = 0;
        if (op < 5) { a.RegisterCount(id); model[id].first++; }
        else if (op < 8) { a.RegisterError(id); model[id].second++; }
        else if (op == 8) { other.RegisterCount(id); }
        else compare(model, a.GetStatistics(), "aggregator after " + std::to_string(i) + " registrations");
    }
    compare(model, a.GetStatistics(), "aggregator");
    // the statistics object itself
    int c = (int)rng.range(-5, 1000), e = (int)rng.range(-5, 1000), id = (int)rng.range(-5, 1000);
    WorkerStatistics w(c, e, id);
    int up = (int)rng.range(0, 20), ue = (int)rng.range(0, 20);
    for (int i = 0; i < up; i++) w.IncreaseCounted();
    for (int i = 0; i < ue; i++) w.IncreaseErrors();
    hv::check(w.get_counted() == c + up && w.get_errors() == e + ue && w.get_id() == id, "statistics-object", [&]() {
        return "statistics(" + std::to_string(c) + "," + std::to_string(e) + "," + std::to_string(id) + ") increased " + std::to_string(up) + "/" + std::to_string(ue) + " times: "
            + std::to_string(w.get_counted()) + "," + std::to_string(w.get_errors()) + "," + std::to_string(w.get_id()); });
    WorkerStatistics d;
    hv::check(d.get_counted() == 0 && d.get_errors() == 0, "statistics-object", "fresh statistics are not zero");
    hv::observe(h.h, steps > 0);
}

K52_TASK(sequential, "sequential")
{
    IWorkerPool::shared_ptr pool = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool), second = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool);
    long done = 0, id = 0;
    hv::Hash h;
    bool longer = rng.chance(0.03);
    int batches = (int)rng.range(0, longer ? 80 : 8);
    for (int b = 0; b <= batches; b++)
    {
        std::vector<WorkerStatistics> s = pool->GetStatistics();
        hv::check(s.size() == 1 && s[0].get_counted() == done && s[0].get_errors() == 0, "sequential-statistics", [&]() {
            return "sequential pool completed " + std::to_string(done) + " tasks, reports " + (s.empty() ? "nothing" : std::to_string(s[0].get_counted()) + " and " + std::to_string(s[0].get_errors()) + " errors"); });
        hv::count("statistics compared");
        if (b == batches) break;
        Batch x(rng, rng.range(0, rng.chance(0.02) ? 700 : 20), id, rng.chance(0.3) ? rng.uni(0, 0.2) : 0, 1);
        id += 1000;
        hv::Hash k;
        if (x.throwing)
        {
            Caught c = catch_kind([&]() { pool->DoTasks(x.list); });
            for (auto& t : x.own) for (auto& e : t->events) done += !e.threw;
            hv::count("batches with failures");
        }
        else { pool->DoTasks(x.list); done += (long)x.list.size(); }
        h.add((int)x.list.size()).add(x.throwing);
        if (rng.chance(0.3)) { Batch y(rng, 3, id, 0, 1); second->DoTasks(y.list); }
    }
    hv::observe(h.h, done > 0);
}

// ------------------------------------------------------------------ registry
std::atomic<long> live_objects(0);
struct Base : ICloneable
{
    long value; std::vector<long> data;
    explicit Base(long v) : value(v), data(3, v) { live_objects++; }
    Base(const Base& b) : ICloneable(), value(b.value), data(b.data) { live_objects++; }
    ~Base() { live_objects--; }
};
struct A : Base { explicit A(long v) : Base(v) {} virtual A* Clone() const { return new A(*this); } };
struct B : Base { explicit B(long v) : Base(v) {} virtual B* Clone() const { return new B(*this); } };
struct C : A { explicit C(long v) : A(v) {} virtual C* Clone() const { return new C(*this); } };
template <int N> struct T : Base { explicit T(long v) : Base(v) {} virtual T* Clone() const { return new T(*this); } };
// types with long names that differ early, late or in the middle
template <class X, class Y> struct Pair : Base { explicit Pair(long v) : Base(v) {} virtual Pair* Clone() const { return new Pair(*this); } };
template <class X, int N> struct Wrapped {};
struct A_type_with_a_name_that_takes_more_than_thirty_characters {};
struct A_type_with_a_name_that_takes_more_than_thirty_charactert {};
typedef Wrapped<Wrapped<Wrapped<A_type_with_a_name_that_takes_more_than_thirty_characters, 7>, 8>, 9> Long1;
typedef Wrapped<Wrapped<Wrapped<A_type_with_a_name_that_takes_more_than_thirty_charactert, 7>, 8>, 9> Long2;
template <int N, class X> struct Deep { typedef Wrapped<typename Deep<N - 1, X>::type, 1000 + N> type; };
template <class X> struct Deep<0, X> { typedef X type; };
typedef Deep<60, Long1>::type Very1;      // several hundred characters
typedef Deep<60, Long2>::type Very2;
Base* make(int type, long v)
{
    switch (type)
    {
    case 0: return new A(v);
    case 1: return new B(v);
    case 2: return new C(v);
    case 3: return new T<1>(v);
    case 4: return new T<11>(v);
    case 5: return new Pair<Long1, Long2>(v);
    case 6: return new Pair<Long1, Long1>(v);
    case 7: return new Pair<Long2, Long2>(v);
    case 8: return new Pair<Very1, Very2>(v);
    case 9: return new Pair<Very1, Very1>(v);
    case 10: return new Pair<Very2, Very1>(v);
    case 11: return new Pair<Wrapped<Very1, 1>, int>(v);
    case 12: return new Pair<Wrapped<Very1, 2>, int>(v);
    default: return new T<111>(v);
    }
}
const int TYPES = 14;
// what was registered survives between cases: the registry is one per process
std::map<std::string, std::pair<int, long>> registered;

K52_TASK(registry, "registry")
{
    IdentifyableObjectsManager& m = IdentifyableObjectsManager::Instance();
    hv::check(&m == &IdentifyableObjectsManager::Instance(), "registry-instance", "two registries");
    std::vector<std::string> ids;
    for (int t = 0; t < TYPES; t++)
    {
        std::unique_ptr<Base> x(make(t, 1)), y(make(t, 2));
        std::string i = IdentifyableObjectsManager::GetId(*x);
        hv::check(i == IdentifyableObjectsManager::GetId(*y), "registry-id", "two objects of one type have different identifiers");
        for (const std::string& o : ids) hv::check(o != i, "registry-id", [&]() { return "two types share the identifier " + i; });
        ids.push_back(i);
    }
    hv::Hash h;
    int steps = (int)rng.range(1, 120);
    for (int s = 0; s < steps; s++)
    {
        int op = (int)rng.range(0, 9), t = (int)rng.range(0, TYPES - 1);
        // the first case of a process leaves some types out, so that unknown ones exist
        if (index % 8 < 4 && t > 2 && t % 3 && op < 2) op = 9;
        h.add(op).add(t);
        if (op < 2)
        {
            std::unique_ptr<Base> x(make(t, rng.range(0, 1000000)));
            long v = x->value;
            m.RegisterObject(*x);
            registered[ids[t]] = {t, v};
            // later changes of the original must not show
            x->value = -77; x->data.assign(3, -77);
            if (rng.chance(0.5)) x.reset();
            hv::count("registrations");
        }
        else if (op < 7)
        {
            auto f = registered.find(ids[t]);
            const ICloneable* o = nullptr;
            std::string what;
            int r = hv::outcome([&]() { o = m.GetObject(ids[t]); }, &what);
            if (f == registered.end())
            {
                hv::check(r == 1, "registry-unknown", [&]() { return "unregistered type was answered with " + std::string(o ? "an object" : "null"); });
                hv::count("unknown identifiers");
                continue;
            }
            hv::check(r == 0 && o, "registry-lookup", [&]() { return "registered type not found: " + what; });
            const Base* b = dynamic_cast<const Base*>(o);
            hv::check(b && IdentifyableObjectsManager::GetId(*o) == ids[t] && b->value == f->second.second && b->data == std::vector<long>(3, f->second.second), "registry-lookup", [&]() {
                return "lookup gives value " + (b ? std::to_string(b->value) : "?") + " instead of the last registered " + std::to_string(f->second.second); });
            std::unique_ptr<ICloneable> c(o->Clone());
            hv::check(IdentifyableObjectsManager::GetId(*c) == ids[t], "registry-id", "a clone has another identifier");
            hv::count("lookups");
        }
        else
        {
            std::string bad = rng.chance(0.2) ? "" : rng.chance(0.5) ? ids[t] + "x" : "unknown" + std::to_string(rng.range(0, 20));
            int r = hv::outcome([&]() { m.GetObject(bad); });
            hv::check(r == 1, "registry-unknown", [&]() { return "identifier '" + bad + "' was answered"; });
            r = hv::outcome([&]() { m.GetObject(bad); });
            hv::check(r == 1, "registry-unknown", [&]() { return "identifier '" + bad + "' was answered the second time"; });
            hv::count("unknown identifiers");
        }
        long expected = (long)registered.size();
        hv::peak("registered types", expected);
        hv::check(live_objects >= expected, "registry-objects", [&]() { return std::to_string((long)live_objects) + " objects alive, " + std::to_string(expected) + " types registered"; });
    }
    hv::observe(h.h);
}
}
K52_MAIN
