// Harness shared by all monitors: deterministic per-case randomness, violation/observation log.
#ifndef K52_VERIF_HARNESS_H
#define K52_VERIF_HARNESS_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace hv
{

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline uint64_t hstr(const std::string& s)
{
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return mix(h);
}
struct Hash
{
    uint64_t h = 88172645463325252ULL;
    Hash& add(uint64_t v) { h = mix(h ^ mix(v)); return *this; }
    Hash& add(double d) { uint64_t u; memcpy(&u, &d, 8); return add(u); }
    Hash& add(long v) { return add((uint64_t)v); }
    Hash& add(int v) { return add((uint64_t)(int64_t)v); }
    Hash& add(const std::string& s) { return add(hstr(s)); }
    template <class T> Hash& add(const std::vector<T>& v)
    {
        add((uint64_t)v.size());
        for (size_t i = 0; i < v.size(); i++) add((T)v[i]);
        return *this;
    }
    Hash& add(bool b) { return add((uint64_t)b); }
};

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t u64() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
    // [0,1)
    double uni() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    // inclusive
    int64_t range(int64_t a, int64_t b)
    {
        uint64_t n = (uint64_t)b - (uint64_t)a + 1;
        if (n == 0) return (int64_t)u64();
        return (int64_t)((uint64_t)a + u64() % n);
    }
    bool chance(double p) { return uni() < p; }
    double normal()
    {
        double u = uni(), v = uni();
        if (u < 1e-300) u = 1e-300;
        return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
    }
    template <class T> const T& pick(const std::vector<T>& v) { return v[u64() % v.size()]; }
};

inline std::string json_escape(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}
inline std::string jstr(const std::string& s) { return "\"" + json_escape(s) + "\""; }
inline std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
template <class V> std::string show(const V& v, size_t limit = 16)
{
    std::ostringstream o;
    o.precision(17);
    o << "[";
    for (size_t i = 0; i < v.size() && i < limit; i++) o << (i ? "," : "") << v[i];
    if (v.size() > limit) o << ",... (" << v.size() << ")";
    o << "]";
    return o.str();
}

struct Violation {};   // thrown by fail() to end a case

class Log
{
public:
    static Log& get() { static Log* l = new Log; return *l; }
    int fd = -1;
    long current = -1;
    bool thorough = false;
    std::mutex m;
    uint64_t evals = 0;
    long nviol = 0;
    std::unordered_set<uint64_t> seen;
    std::map<std::string, uint64_t> counters;
    std::vector<std::string> samples;
    size_t max_samples = 3;

    void raw(const std::string& s)
    {
        const char* p = s.data(); size_t n = s.size();
        while (n > 0) { ssize_t w = ::write(fd, p, n); if (w <= 0) _exit(3); p += w; n -= (size_t)w; }
    }
    void begin_case(long i) { current = i; raw("C " + std::to_string(i) + "\n"); }
    void violation(const std::string& key, const std::string& detail)
    {
        std::lock_guard<std::mutex> g(m);
        nviol++;
        if (nviol > 50) return;
        raw("V {\"case\":" + std::to_string(current) + ",\"key\":" + jstr(key) + ",\"detail\":" + jstr(detail.substr(0, 3000)) + "}\n");
    }
    // one checked execution; h identifies the distinct behaviour
    void observe(uint64_t h, bool nontrivial = true)
    {
        std::lock_guard<std::mutex> g(m);
        evals++;
        if (nontrivial && seen.size() < 400000) seen.insert(h);
    }
    void count(const std::string& n, uint64_t k = 1) { std::lock_guard<std::mutex> g(m); counters[n] += k; }
    void peak(const std::string& n, uint64_t k) { std::lock_guard<std::mutex> g(m); uint64_t& c = counters["max " + n]; if (k > c) c = k; }
    void sample(const std::string& text)
    {
        std::lock_guard<std::mutex> g(m);
        if (samples.size() < max_samples) samples.push_back(text.substr(0, 600));
    }
    bool wants_sample() { return samples.size() < max_samples; }
    void finish()
    {
        std::string o = "E {\"evals\":" + std::to_string(evals) + ",\"counters\":{";
        bool f = true;
        for (auto& c : counters) { o += (f ? "" : ",") + jstr(c.first) + ":" + std::to_string(c.second); f = false; }
        o += "},\"samples\":[";
        f = true;
        for (auto& s : samples) { o += (f ? "" : ",") + jstr(s); f = false; }
        o += "]}\n";
        std::string hs = "O";
        char b[20];
        for (uint64_t h : seen) { snprintf(b, sizeof b, " %llx", (unsigned long long)h); hs += b; }
        raw(hs + "\n" + o);
    }
};

inline void violation(const std::string& key, const std::string& detail) { Log::get().violation(key, detail); }
[[noreturn]] inline void fail(const std::string& key, const std::string& detail) { violation(key, detail); throw Violation(); }
inline void check(bool ok, const std::string& key, const std::function<std::string()>& detail) { if (!ok) fail(key, detail()); }
inline void check(bool ok, const std::string& key, const char* detail) { if (!ok) fail(key, detail); }
inline void observe(uint64_t h, bool nt = true) { Log::get().observe(h, nt); }
inline void count(const std::string& n, uint64_t k = 1) { Log::get().count(n, k); }
inline void peak(const std::string& n, uint64_t k) { Log::get().peak(n, k); }

// Runs f, returns: 0 completed, 1 threw std::exception, 2 threw something else
template <class F> int outcome(F f, std::string* what = nullptr)
{
    try { f(); return 0; }
    catch (const Violation&) { throw; }
    catch (const std::exception& e) { if (what) *what = e.what(); return 1; }
    catch (...) { if (what) *what = "non-std exception"; return 2; }
}
template <class F> void must_throw(const std::string& key, const std::string& detail, F f)
{
    if (outcome(f) != 1) fail(key, detail + ": no std::exception thrown");
    count("rejections observed");
}

typedef std::function<void(Rng&, long)> CaseFn;
struct Task { std::string name; CaseFn fn; };
inline std::vector<Task>& tasks() { static std::vector<Task> t; return t; }
struct Register { Register(const std::string& n, CaseFn f) { tasks().push_back({n, f}); } };
#define K52_TASK(ident, name) static void ident(hv::Rng& rng, long index); \
    static hv::Register reg_##ident(name, ident); \
    static void ident(hv::Rng& rng, long index)

inline std::function<void(uint64_t)>& case_setup() { static std::function<void(uint64_t)> f; return f; }

extern "C" int __lsan_do_recoverable_leak_check(void) __attribute__((weak));

inline int harness_main(int argc, char** argv)
{
    std::string task, out; long from = 0, to = 0; uint64_t seed = 1; bool leak = false;
    if (argc < 2) return 3;
    task = argv[1];
    for (int i = 2; i < argc; i++)
    {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
        else if (a == "--from") from = atol(argv[++i]);
        else if (a == "--to") to = atol(argv[++i]);
        else if (a == "--out") out = argv[++i];
        else if (a == "--leakcheck") leak = true;
        else if (a == "--thorough") Log::get().thorough = true;
        else return 3;
    }
    CaseFn* fn = nullptr;
    for (auto& t : tasks()) if (t.name == task) fn = &t.fn;
    if (!fn) { fprintf(stderr, "no task %s\n", task.c_str()); return 3; }
    Log& log = Log::get();
    log.fd = ::open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (log.fd < 0) return 3;
    for (long i = from; i < to; i++)
    {
        log.begin_case(i);
        uint64_t cs = mix(mix(seed) ^ hstr(task) ^ mix((uint64_t)i + 77));
        Rng rng(cs);
        if (case_setup()) case_setup()(cs);
        try { (*fn)(rng, i); }
        catch (const Violation&) {}
        catch (const std::exception& e) { violation("unexpected-exception", std::string("case ended with exception: ") + e.what()); }
        if (leak && __lsan_do_recoverable_leak_check && __lsan_do_recoverable_leak_check())
        {
            violation("sanitizer-leak", "LeakSanitizer: memory leaked by this case (see replay)");
            break;
        }
        if (log.nviol > 20) break;
    }
    log.finish();
    return 0;
}

} // namespace hv

#define K52_MAIN int main(int argc, char** argv) { return hv::harness_main(argc, argv); }
#endif
