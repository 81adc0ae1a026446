// Deadlock watchdog and OS-level thread accounting.
#ifndef K52_VERIF_WATCH_H
#define K52_VERIF_WATCH_H
#include "harness.h"
#include <dirent.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <atomic>
#include <chrono>
#include <thread>
namespace hv
{
inline int os_tid() { return (int)syscall(SYS_gettid); }

// threads that are not the program's own (a sanitizer's helper, the watchdog)
inline std::set<int>& foreign_threads() { static std::set<int>* s = new std::set<int>; return *s; }

inline std::vector<int> list_threads()
{
    std::vector<int> r;
    DIR* d = opendir("/proc/self/task");
    if (!d) return r;
    while (dirent* e = readdir(d)) if (e->d_name[0] != '.') { int t = atoi(e->d_name); if (!foreign_threads().count(t)) r.push_back(t); }
    closedir(d);
    return r;
}
inline int thread_count() { return (int)list_threads().size(); }

// "state voluntary nonvoluntary", empty if the thread is gone
inline std::string thread_state(int tid, char& state)
{
    char p[64], buf[4096];
    snprintf(p, sizeof p, "/proc/self/task/%d/status", tid);
    int fd = open(p, O_RDONLY);
    state = 'X';
    if (fd < 0) return "";
    ssize_t n = read(fd, buf, sizeof buf - 1);
    close(fd);
    if (n <= 0) return "";
    buf[n] = 0;
    const char* s = strstr(buf, "\nState:");
    const char* v = strstr(buf, "\nvoluntary_ctxt_switches:");
    if (!s || !v) return "";
    s += 7; while (*s == ' ' || *s == '\t') s++;
    state = *s;
    return std::string(1, *s) + std::string(v);
}

inline void start_watchdog(int seconds = 12)
{
    static bool started = false;
    if (started) return;
    started = true;
    int me = os_tid();
    // a sanitizer starts its helper thread with the first thread of the program
    std::thread([]() {}).join();
    for (int t : list_threads()) if (t != me) foreign_threads().insert(t);
    static std::atomic<int> wd(0), go(0);
    std::thread([seconds]() {
        int own = os_tid();
        wd = own;
        while (!go) std::this_thread::yield();
        std::map<int, std::string> last;
        int still = 0;
        for (;;)
        {
            usleep(500000);
            std::map<int, std::string> now;
            bool asleep = true;
            for (int t : list_threads())
            {
                if (t == own) continue;
                char st;
                std::string s = thread_state(t, st);
                if (s.empty() || st != 'S') asleep = false;
                now[t] = s;
            }
            if (asleep && now == last) still++; else still = 0;
            last = now;
            if (still >= 2 * seconds)
            {
                violation("deadlock", "all " + std::to_string(now.size()) + " threads have been blocked without any progress for " + std::to_string(seconds) + " s");
                Log::get().finish();
                _exit(0);
            }
        }
    }).detach();
    while (!wd) std::this_thread::yield();
    foreign_threads().insert(wd);
    go = 1;
}

// threads start together; one that waits for long sleeps, so that the watchdog sees a blocked program
struct Gate
{
    std::atomic<int> n; int total;
    explicit Gate(int t) : n(0), total(t) {}
    void wait()
    {
        if (++n >= total) { syscall(SYS_futex, &n, FUTEX_WAKE_PRIVATE, 1 << 30, nullptr, nullptr, 0); return; }
        for (int i = 0; n < total; i++)
        {
            if (i < 20000) { std::this_thread::yield(); continue; }
            int v = n;
            if (v < total) syscall(SYS_futex, &n, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
        }
    }
};

// waits until the process has at most n threads of its own
inline bool threads_down_to(int n, double seconds = 8)
{
    for (int i = 0; i < (int)(seconds * 1000); i++)
    {
        if (thread_count() <= n) return true;
        usleep(1000);
    }
    return false;
}
}
#endif
