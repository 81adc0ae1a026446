// C32: every cache answer is compared with a shadow model over random histories with eviction pressure.
#include "harness.h"
#include <k52/common/cache.h>
#include <complex>
using namespace hv;

template <class K> K make_key(int i);
template <> int make_key<int>(int i) { return i * 7 - 3; }
template <> std::string make_key<std::string>(int i) { return std::string((size_t)(i % 5), 'k') + std::to_string(i); }
template <> std::vector<bool> make_key<std::vector<bool> >(int i)
{
    // short ones, and long ones that differ far from their ends
    std::vector<bool> r(i % 2 ? 14 : 150);
    for (int b = 0; b < 14; b++) r[(size_t)(i % 2 ? b : 10 * b + 3)] = (i >> b) & 1;
    return r;
}
template <class V> V make_value(uint64_t x);
template <> double make_value<double>(uint64_t x) { return (double)(x % 1000003) / 7; }
template <> std::string make_value<std::string>(uint64_t x) { return "v" + std::to_string(x); }
template <> std::vector<std::complex<double> > make_value<std::vector<std::complex<double> > >(uint64_t x)
{
    return std::vector<std::complex<double> >(x % 4, std::complex<double>((double)(x % 997), -1));
}

template <class K, class V> void history(Rng& rng, const char* name)
{
    typedef k52::common::Cache<K, V> C;
    const double entry = (double)(sizeof(typename C::cache_map_type::key_type) + sizeof(typename C::cache_map_type::value_type));
    // limit in entries; 0 means a limit smaller than one entry
    int capacity = rng.chance(0.15) ? 0 : (int)rng.range(1, 40);
    bool larger = rng.chance(0.03);
    if (larger) capacity = (int)rng.range(41, 3000);
    bool ample = rng.chance(0.2);
    double limit = ample ? 1.0 : (capacity == 0 ? 1e-9 : (capacity * entry + entry * 0.5) / 1048576.0);
    int universe = (int)rng.range(1, larger ? 9000 : rng.chance(0.5) ? 12 : 120);
    typename C::shared_ptr cache = C::Create(limit);
    check((bool)cache, "no-cache", [&] { return "no cache object for limit " + num(limit); });

    std::map<int, V> model;          // last value added per key
    std::set<int> touched;           // keys ever added or asked for
    std::map<int, bool> certain;     // keys that must be present now
    int last_batch = 0;
    Hash h; h.add(capacity).add((int)ample).add(universe);
    uint64_t vid = rng.u64() >> 8;
    uint64_t evictions_seen = 0, hits = 0;
    int ops = (int)rng.range(20, larger ? 6000 : 250);
    if (larger) count("larger caches");
    double w_add = rng.uni(0.05, 0.6), w_use = rng.uni(0, 0.5);
    auto limit_never_reached = [&] { return (double)touched.size() * entry / 1048576 <= limit; };
    auto ctx = [&](int k) { return std::string(name) + " limit " + num(limit) + " key " + std::to_string(k) + " after " + std::to_string(model.size()) + " keys added"; };
    auto lookup = [&](int k, bool use_get_first)
    {
        bool had = model.count(k) > 0;
        touched.insert(k);
        bool cached;
        if (use_get_first)
        {
            V v = V(); std::string w;
            int o = outcome([&] { v = cache->GetCachedValue(make_key<K>(k)); }, &w);
            check(o != 2, "wrong-exception", [&] { return ctx(k); });
            cached = o == 0;
            if (cached)
            {
                check(had, "value-from-nowhere", [&] { return ctx(k); });
                check(v == model[k], "wrong-value", [&] { return ctx(k); });
            }
            bool again = cache->IsCached(make_key<K>(k));
            check(again == cached, "failed-get-changes-answer", [&] { return ctx(k) + (cached ? " got, then not cached" : " not got, then cached"); });
        }
        else
        {
            cached = cache->IsCached(make_key<K>(k));
            if (cached)
            {
                check(had, "cached-without-add", [&] { return ctx(k); });
                V v = V();
                check(outcome([&] { v = cache->GetCachedValue(make_key<K>(k)); }) == 0, "cached-but-get-throws", [&] { return ctx(k); });
                check(v == model[k], "wrong-value", [&] { return ctx(k); });
            }
            else
                check(outcome([&] { cache->GetCachedValue(make_key<K>(k)); }) == 1, "uncached-get-does-not-throw", [&] { return ctx(k); });
        }
        if (cached) hits++;
        if (had && !cached)
        {
            evictions_seen++;
            check(!certain.count(k), "evicted-without-addition", [&] { return ctx(k); });
            check(!limit_never_reached(), "evicted-below-limit", [&] { return ctx(k) + ", " + std::to_string(touched.size()) + " keys touched, entry " + num(entry); });
            model.erase(k);
        }
        if (cached) certain[k] = true;
    };
    for (int i = 0; i < ops; i++)
    {
        double u = rng.uni();
        if (u < w_add)
        {
            int k = (int)rng.range(0, universe - 1);
            V v = make_value<V>(++vid);
            check(outcome([&] { cache->AddValue(make_key<K>(k), v); }) == 0, "add-fails", [&] { return ctx(k); });
            model[k] = v; touched.insert(k); certain.clear(); certain[k] = true; last_batch = 1;
            if (rng.chance(0.7)) lookup(k, rng.chance(0.5));
            h.add(k);
        }
        else if (u < w_add + 0.05)
        {
            std::vector<typename C::CacheRecord> rec;
            int n = (int)rng.range(0, 6);
            certain.clear();
            for (int j = 0; j < n; j++)
            {
                int k = (int)rng.range(0, universe - 1);
                V v = make_value<V>(++vid);
                rec.push_back(typename C::CacheRecord(make_key<K>(k), v));
                model[k] = v; touched.insert(k); certain[k] = true;
            }
            last_batch = n;
            check(outcome([&] { cache->AddValues(rec); }) == 0, "add-fails", [&] { return ctx(-1); });
            auto cc = certain;
            if (rng.chance(0.7)) for (auto& c : cc) lookup(c.first, rng.chance(0.5));
            h.add(n);
        }
        else if (u < w_add + 0.05 + w_use && !model.empty())
        {
            auto it = model.begin();
            std::advance(it, (long)rng.range(0, (int64_t)model.size() - 1));
            lookup(it->first, rng.chance(0.5));
        }
        else lookup((int)rng.range(0, universe + 3), rng.chance(0.5));
    }
    // what is held now respects the limit, up to the latest addition
    int present = 0;
    for (int k = 0; k < universe; k++) if (cache->IsCached(make_key<K>(k))) { present++; check(model.count(k), "cached-without-add", [&] { return ctx(k); }); }
    check((double)present * entry / 1048576 <= limit + (last_batch + 1) * entry / 1048576, "limit-ignored",
          [&] { return std::string(name) + ": " + std::to_string(present) + " entries of " + num(entry) + " bytes held with limit " + num(limit) + " MB"; });
    count("operations", (uint64_t)ops); count("hits", hits); count("evictions seen", evictions_seen);
    Log::get().sample(std::string(name) + " limit=" + num(limit) + "MB universe=" + std::to_string(universe) + " ops=" + std::to_string(ops) + " hits=" + std::to_string(hits) + " evicted=" + std::to_string(evictions_seen));
    observe(h.add(hits).h, hits > 0);
}

K52_TASK(hist, "history")
{
    switch (index % 4)
    {
    case 0: history<int, double>(rng, "int->double"); break;
    case 1: history<std::string, std::string>(rng, "string->string"); break;
    case 2: history<std::vector<bool>, double>(rng, "bits->double"); break;
    default: history<int, std::vector<std::complex<double> > >(rng, "int->complex vector"); break;
    }
    double bad[] = {0.0, -0.0, -1e-300, -5, -std::numeric_limits<double>::infinity()};
    check(!k52::common::Cache<int, double>::Create(bad[index % 5]), "cache-for-non-positive-limit", "Create gave an object");
    int keep = 0; (void)keep;
}
// a large limit and many keys
K52_TASK(large, "large")
{
    typedef k52::common::Cache<int, double> C;
    const double entry = (double)(sizeof(C::cache_map_type::key_type) + sizeof(C::cache_map_type::value_type));
    int n = (int)rng.range(2000, 6000);
    double limit = n * entry / 1048576;
    C::shared_ptr c = C::Create(limit);
    std::vector<double> v((size_t)n);
    for (int i = 0; i < n; i++) { v[(size_t)i] = rng.uni(); c->AddValue(i, v[(size_t)i]); }
    for (int i = 0; i < n; i++)
    {
        check(c->IsCached(i), "evicted-below-limit", [&] { return std::to_string(i) + " of " + std::to_string(n) + " entries, limit exactly that many"; });
        check(c->GetCachedValue(i) == v[(size_t)i], "wrong-value", "large cache");
    }
    int total = 3 * n;
    for (int i = n; i < total; i++)
    {
        c->AddValue(i, i * 0.5);
        check(c->IsCached(i) && c->GetCachedValue(i) == i * 0.5, "just-added-missing", [&] { return std::to_string(i); });
    }
    int present = 0;
    for (int i = 0; i < total; i++)
        if (c->IsCached(i)) { present++; check(c->GetCachedValue(i) == (i < n ? v[(size_t)i] : i * 0.5), "wrong-value", "large cache"); }
    check(present <= n + 2, "limit-ignored", [&] { return std::to_string(present) + " entries held, limit allows " + std::to_string(n); });
    count("operations", (uint64_t)(2 * total)); count("hits", (uint64_t)present); count("evictions seen", (uint64_t)(total - present));
    observe(Hash().add(n).h);
}
K52_MAIN
