// Schedule perturbation: linked in front of the pthread operations with -Wl,--wrap.
// Only behaviour the operations may legally show is added: delays, spurious wake-ups of condition
// waits and signals that wake more than one waiter.
#include "perturb.h"
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <atomic>

namespace hv
{
std::atomic<int> perturb_level(0);
std::atomic<unsigned long> perturb_seed(1), perturb_events(0), perturb_spurious(0), perturb_broadcasts(0);
std::atomic<long> threads_until_shortage(-1);
std::atomic<unsigned long> threads_refused(0);
std::atomic<unsigned> hardware_threads(0);
static std::atomic<unsigned long> thread_counter(0);

static unsigned long next_random()
{
    static thread_local unsigned long s = 0;
    static thread_local unsigned long from = 0;
    unsigned long seed = perturb_seed.load(std::memory_order_relaxed);
    if (s == 0 || from != seed)
    {
        from = seed;
        s = seed * 0x9e3779b97f4a7c15UL + (thread_counter.fetch_add(1, std::memory_order_relaxed) + 1) * 0xbf58476d1ce4e5b9UL;
        if (s == 0) s = 1;
    }
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    return s >> 11;
}

void perturb_point()
{
    int level = perturb_level.load(std::memory_order_relaxed);
    if (level == 0) return;
    unsigned long r = next_random();
    unsigned long k = r % 64;
    r /= 64;
    if (level == 1) { if (k < 8) sched_yield(); return; }
    if (level == 2)
    {
        if (k < 16) sched_yield();
        else if (k < 24) for (volatile unsigned i = 0; i < r % 2000; i = i + 1) {}
        else if (k < 26) usleep(r % 60);
        return;
    }
    if (k < 12) sched_yield();
    else if (k < 24) usleep(r % 150);
    else if (k < 25) usleep(r % 3000);
}
}

extern "C"
{
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_signal(pthread_cond_t*);
unsigned __real__ZN5boost6thread20hardware_concurrencyEv();
bool __real__ZN5boost6thread21start_thread_noexceptEv(void*);

int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    hv::perturb_point();
    return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    int r = __real_pthread_mutex_unlock(m);
    hv::perturb_point();
    return r;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (hv::perturb_level.load(std::memory_order_relaxed) > 0)
    {
        hv::perturb_events.fetch_add(1, std::memory_order_relaxed);
        if (hv::next_random() % 8 == 0)
        {
            hv::perturb_spurious.fetch_add(1, std::memory_order_relaxed);
            __real_pthread_mutex_unlock(m);
            hv::perturb_point();
            __real_pthread_mutex_lock(m);
            return 0;
        }
    }
    return __real_pthread_cond_wait(c, m);
}
int __wrap_pthread_cond_signal(pthread_cond_t* c)
{
    hv::perturb_point();
    if (hv::perturb_level.load(std::memory_order_relaxed) > 0 && hv::next_random() % 8 == 0)
    {
        hv::perturb_broadcasts.fetch_add(1, std::memory_order_relaxed);
        return pthread_cond_broadcast(c);
    }
    return __real_pthread_cond_signal(c);
}
bool __wrap__ZN5boost6thread21start_thread_noexceptEv(void* t)
{
    if (hv::threads_until_shortage.load() >= 0 && hv::threads_until_shortage.fetch_sub(1) <= 0)
    {
        hv::threads_until_shortage = 0;
        hv::threads_refused++;
        return false;
    }
    return __real__ZN5boost6thread21start_thread_noexceptEv(t);
}
unsigned __wrap__ZN5boost6thread20hardware_concurrencyEv()
{
    unsigned h = hv::hardware_threads.load();
    return h ? h : __real__ZN5boost6thread20hardware_concurrencyEv();
}
}
