// C06: linearizability of the blocking queue, observed on small and large concurrent histories.
#include "watch.h"
#include "perturb.h"
#include <boost/shared_ptr.hpp>
#include <parallel/thread/thread_safe_queue.h>
#include <algorithm>

namespace
{
using hv::Rng;
// element with an owned payload, so that torn or double pops show up as memory errors too
struct Item
{
    std::string text;
    long value;
    boost::shared_ptr<long> own;
    Item() : value(-1) {}
    explicit Item(long v) : text("element number " + std::to_string(v)), value(v), own(new long(v)) {}
    bool intact() const { return own && *own == value && text == "element number " + std::to_string(value); }
};
typedef k52::parallel::thread::ThreadSafeQueue<Item> Queue;

enum Kind { PUSH, WAITPOP, TRYPOP, EMPTY };
struct Op
{
    Kind kind; long value;      // value pushed / popped
    bool ok;                    // trypop success / emptiness answer
    long start, end; int thread;
};
const char* NAMES[] = {"push", "waitpop", "trypop", "isempty"};

std::string show(const std::vector<Op>& h)
{
    std::ostringstream o;
    for (const Op& x : h)
        o << "[" << x.start << "," << x.end << "] t" << x.thread << " " << NAMES[x.kind] << "(" << x.value << ")" << (x.kind >= TRYPOP ? (x.ok ? "=true" : "=false") : "") << "; ";
    return o.str();
}

// Wing-Gong search for a linearization
struct Checker
{
    const std::vector<Op>& h;
    std::unordered_set<uint64_t> dead;
    uint64_t states = 0;
    std::vector<long> queue;   // content, front at head
    size_t head = 0;
    explicit Checker(const std::vector<Op>& x) : h(x) {}
    bool go(uint64_t done)
    {
        if (done == (h.size() == 64 ? ~0ULL : (1ULL << h.size()) - 1)) return true;
        hv::Hash k; k.add(done);
        for (size_t i = head; i < queue.size(); i++) k.add((uint64_t)queue[i]);
        if (dead.count(k.h)) return false;
        states++;
        long min_end = std::numeric_limits<long>::max();
        for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1)) min_end = std::min(min_end, h[i].end);
        for (size_t i = 0; i < h.size(); i++)
        {
            if (done >> i & 1 || h[i].start > min_end) continue;
            const Op& x = h[i];
            bool empty = head == queue.size();
            if (x.kind == PUSH)
            {
                queue.push_back(x.value);
                if (go(done | 1ULL << i)) return true;
                queue.pop_back();
            }
            else if (x.kind == WAITPOP || (x.kind == TRYPOP && x.ok))
            {
                if (empty || queue[head] != x.value) continue;
                head++;
                if (go(done | 1ULL << i)) return true;
                head--;
            }
            else if (x.kind == TRYPOP ? empty : empty == x.ok)
            {
                if (go(done | 1ULL << i)) return true;
            }
        }
        dead.insert(k.h);
        return false;
    }
};

std::atomic<long> clk(0);

void run_ops(Queue& q, std::vector<Op>& ops, Rng& rng, int pause)
{
    for (Op& x : ops)
    {
        if (pause) { if (rng.chance(0.3)) usleep(rng.range(0, pause)); else if (rng.chance(0.3)) std::this_thread::yield(); }
        if (x.kind == PUSH)
        {
            Item it(x.value);
            x.start = clk.fetch_add(1, std::memory_order_relaxed);
            q.Push(it);
            x.end = clk.fetch_add(1, std::memory_order_relaxed);
            continue;
        }
        Item it;
        x.start = clk.fetch_add(1, std::memory_order_relaxed);
        if (x.kind == WAITPOP) q.WaitAndPop(it);
        else if (x.kind == TRYPOP) x.ok = q.TryPop(it);
        else x.ok = q.IsEmpty();
        x.end = clk.fetch_add(1, std::memory_order_relaxed);
        if (x.kind == WAITPOP || (x.kind == TRYPOP && x.ok))
        {
            x.value = it.value;
            if (!it.intact()) hv::violation("queue-element-damaged", "popped element " + std::to_string(it.value) + " is not what was pushed");
        }
        else if (x.kind == TRYPOP && it.value != -1)
            hv::violation("queue-failed-pop-wrote", "a failed TryPop stored an element");
    }
}

using hv::Gate;
K52_TASK(linear, "linear")
{
    hv::start_watchdog();
    hv::perturb_seed = rng.u64();
    int T = (int)rng.range(2, 4), rounds = hv::Log::get().thorough ? 300 : 200;
    std::vector<std::vector<std::vector<Op>>> plan(rounds, std::vector<std::vector<Op>>(T));
    long value = 1;
    std::vector<int> pauses(rounds);
    for (int r = 0; r < rounds; r++)
    {
        int n = (int)rng.range(4, T * 5), pushes = 0, pops = 0;
        double pp = rng.uni(0.3, 0.7), pw = rng.uni();
        std::vector<Kind> kinds;
        for (int i = 0; i < n; i++)
        {
            Kind k = rng.chance(pp) ? PUSH : rng.chance(0.2) ? EMPTY : rng.chance(pw) ? WAITPOP : TRYPOP;
            pushes += k == PUSH; pops += k == WAITPOP || k == TRYPOP;
            kinds.push_back(k);
        }
        while (pops > pushes) { kinds.push_back(PUSH); pushes++; }
        // a thread waiting for its own later push would rightly block for ever: each thread's pushes come
        // from other threads unless they precede; simplest: one thread gets only pushes, and at least as
        // many as there are blocking pops that could starve
        for (size_t i = 0; i < kinds.size(); i++)
        {
            Op x; x.kind = kinds[i]; x.value = x.kind == PUSH ? value++ : -1; x.ok = false; x.start = x.end = 0;
            x.thread = (int)rng.range(0, T - 1);
            plan[r][x.thread].push_back(x);
        }
        // pushes first in threads that also pop blockingly, half of the time in random order but then with
        // the pushes of that round moved to thread 0, which never blocks
        if (rng.chance(0.5))
            for (int t = 0; t < T; t++)
                std::stable_sort(plan[r][t].begin(), plan[r][t].end(), [](const Op& a, const Op& b) { return (a.kind == PUSH) > (b.kind == PUSH); });
        else
        {
            std::vector<Op> zero;
            for (int t = 0; t < T; t++)
            {
                std::vector<Op> keep;
                for (Op& x : plan[r][t])
                {
                    if (x.kind == PUSH) { x.thread = 0; zero.push_back(x); }
                    else if (t == 0) { if (x.kind == WAITPOP) x.kind = TRYPOP; zero.push_back(x); }
                    else keep.push_back(x);
                }
                plan[r][t] = keep;
            }
            for (size_t i = zero.size(); i > 1; i--) std::swap(zero[i - 1], zero[rng.u64() % i]);
            plan[r][0] = zero;
        }
        pauses[r] = rng.chance(0.5) ? 0 : (int)rng.range(1, 120);
    }
    std::vector<std::unique_ptr<Queue>> queues;
    for (int r = 0; r < rounds; r++) queues.emplace_back(new Queue);
    std::vector<std::unique_ptr<Gate>> gates;
    for (int r = 0; r < rounds; r++) gates.emplace_back(new Gate(T));
    hv::perturb_level = (int)rng.range(0, 3);
    std::vector<uint64_t> seeds;
    for (int t = 0; t < T; t++) seeds.push_back(rng.u64());
    std::vector<std::thread> th;
    for (int t = 0; t < T; t++)
        th.emplace_back([&, t]() {
            Rng mine(seeds[t]);
            for (int r = 0; r < rounds; r++) { gates[r]->wait(); run_ops(*queues[r], plan[r][t], mine, pauses[r]); }
        });
    for (std::thread& t : th) t.join();
    hv::perturb_level = 0;
    for (int r = 0; r < rounds; r++)
    {
        std::vector<Op> h;
        int overlap = 0;
        for (int t = 0; t < T; t++)
            for (Op& x : plan[r][t]) h.push_back(x);
        std::sort(h.begin(), h.end(), [](const Op& a, const Op& b) { return a.start < b.start; });
        for (size_t i = 0; i + 1 < h.size(); i++) overlap += h[i + 1].start < h[i].end;
        hv::Hash k;
        std::map<long, int> rank;
        std::vector<std::pair<long, int>> ev;
        for (size_t i = 0; i < h.size(); i++) { ev.push_back({h[i].start, (int)i}); ev.push_back({h[i].end, (int)i + 1000}); if (h[i].kind == PUSH) rank[h[i].value] = (int)i; }
        std::sort(ev.begin(), ev.end());
        for (auto& e : ev) k.add(e.second);
        for (const Op& x : h) k.add((int)x.kind).add(x.ok).add(x.value > 0 ? rank[x.value] : -1).add(x.thread);
        Checker c(h);
        bool ok = c.go(0);
        hv::count("histories checked"); hv::count("operations", h.size()); hv::count("overlapping operations", overlap);
        hv::count("linearization states", c.states);
        hv::peak("states of one history", c.states);
        hv::observe(k.h, overlap > 0);
        if (hv::Log::get().wants_sample() && overlap > 4) hv::Log::get().sample(show(h));
        hv::check(ok, "not-linearizable", [&]() { return "no order of these operations is a FIFO queue's: " + show(h); });
        // what is left comes out in push order, then the queue is empty
        std::set<long> out; std::vector<Op> left;
        for (const Op& x : h) if (x.kind == PUSH) out.insert(x.value);
        for (const Op& x : h) if ((x.kind == WAITPOP || (x.kind == TRYPOP && x.ok))) out.erase(x.value);
        Queue& q = *queues[r];
        size_t n = 0;
        while (!q.IsEmpty())
        {
            Item it;
            if (n > out.size()) break;
            Op x; x.kind = TRYPOP; x.ok = q.TryPop(it); x.value = it.value; x.thread = 9; x.start = clk++; x.end = clk++;
            hv::check(x.ok && it.intact() && out.count(it.value), "queue-leftover", [&]() { return "draining gave " + std::to_string(it.value) + " after " + show(h); });
            h.push_back(x); n++;
        }
        hv::check(n == out.size(), "queue-lost-element", [&]() { return std::to_string(out.size() - n) + " elements lost: " + show(h); });
        if (h.size() <= 60)
        {
            Checker c2(h);
            hv::check(c2.go(0), "not-linearizable", [&]() { return "no order of these operations (with the final drain) is a FIFO queue's: " + show(h); });
        }
    }
    hv::count("spurious wake-ups injected", hv::perturb_spurious.exchange(0));
    hv::count("waits entered", hv::perturb_events.exchange(0));
}

// long histories: every element once, per-producer order, real-time order by a sweep
K52_TASK(stress, "stress")
{
    hv::start_watchdog();
    hv::perturb_seed = rng.u64();
    int P = (int)rng.range(1, 4), C = (int)rng.range(1, 4);
    long per = rng.range(50, hv::Log::get().thorough ? 3000 : 800);
    Queue q;
    std::vector<std::vector<Op>> push(P), pop(C);
    long total = per * P;
    std::vector<long> quota(C, total / C);
    quota[0] += total - (total / C) * C;
    int style = (int)rng.range(0, 2);   // consumers: blocking, polling, mixed
    int throttle = (int)rng.range(0, 3);
    hv::perturb_level = (int)rng.range(0, 3);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < P + C; i++) seeds.push_back(rng.u64());
    Gate gate(P + C);
    std::atomic<long> popped(0), producing(P);
    std::vector<std::thread> th;
    for (int p = 0; p < P; p++)
        th.emplace_back([&, p]() {
            Rng mine(seeds[p]);
            gate.wait();
            for (long i = 0; i < per; i++)
            {
                Op x; x.kind = PUSH; x.value = p * 1000000L + i; x.thread = p; x.ok = true;
                Item it(x.value);
                if (throttle == 1 && mine.chance(0.02)) usleep(mine.range(0, 200));
                x.start = clk.fetch_add(1, std::memory_order_relaxed);
                q.Push(it);
                x.end = clk.fetch_add(1, std::memory_order_relaxed);
                push[p].push_back(x);
            }
            producing--;
        });
    for (int c = 0; c < C; c++)
        th.emplace_back([&, c]() {
            Rng mine(seeds[P + c]);
            gate.wait();
            time_t since = 0; long seen = -1;
            for (long i = 0; i < quota[c];)
            {
                Item it;
                Op x; x.kind = WAITPOP; x.thread = 100 + c; x.ok = true;
                if (throttle == 2 && mine.chance(0.02)) usleep(mine.range(0, 200));
                bool block = style == 0 || (style == 2 && mine.chance(0.5));
                x.start = clk.fetch_add(1, std::memory_order_relaxed);
                if (block) q.WaitAndPop(it);
                else if (!q.TryPop(it))
                {
                    long end = clk.fetch_add(1, std::memory_order_relaxed);
                    (void)end;
                    std::this_thread::yield();
                    if (producing == 0)
                    {
                        long now = popped; time_t t = time(nullptr);
                        if (now != seen) { seen = now; since = t; }
                        else if (t - since > 15)
                        {
                            hv::violation("queue-lost-element", "all elements were pushed, " + std::to_string(total - now) + " of " + std::to_string(total) + " have not been popped, yet the queue has given none for 15 s");
                            hv::Log::get().finish();
                            _exit(0);
                        }
                    }
                    continue;
                }
                x.end = clk.fetch_add(1, std::memory_order_relaxed);
                x.value = it.value;
                if (!it.intact()) hv::violation("queue-element-damaged", "popped element " + std::to_string(it.value) + " is not what was pushed");
                pop[c].push_back(x);
                popped.fetch_add(1, std::memory_order_relaxed);
                i++;
            }
        });
    for (std::thread& t : th) t.join();
    hv::perturb_level = 0;
    std::map<long, const Op*> in, out;
    for (auto& v : push) for (Op& x : v) in[x.value] = &x;
    for (auto& v : pop)
        for (Op& x : v)
        {
            hv::check(in.count(x.value), "queue-invented-element", [&]() { return "popped " + std::to_string(x.value) + " which was never pushed"; });
            hv::check(!out.count(x.value), "queue-duplicate-pop", [&]() { return "element " + std::to_string(x.value) + " popped twice"; });
            out[x.value] = &x;
            hv::check(x.end > in[x.value]->start, "queue-pop-before-push", [&]() { return "element " + std::to_string(x.value) + " popped before its push began"; });
        }
    hv::check(q.IsEmpty(), "queue-not-empty", "all pushed elements were popped but the queue is not empty");
    // FIFO in real time: if push(a) ended before push(b) began, pop(b) must not end before pop(a) begins
    // sweep over pushes by start; among pushes ended before it, the latest pop start must not exceed pop(b).end
    std::vector<std::pair<const Op*, const Op*>> v;
    for (auto& e : in) v.push_back({e.second, out[e.first]});
    std::vector<std::pair<const Op*, const Op*>> by_end = v, by_start = v;
    std::sort(by_end.begin(), by_end.end(), [](auto& a, auto& b) { return a.first->end < b.first->end; });
    std::sort(by_start.begin(), by_start.end(), [](auto& a, auto& b) { return a.first->start < b.first->start; });
    size_t j = 0; const Op* latest = nullptr; long pairs = 0;
    hv::Hash k;
    for (auto& b : by_start)
    {
        while (j < by_end.size() && by_end[j].first->end < b.first->start)
        {
            if (!latest || by_end[j].second->start > latest->start) latest = by_end[j].second;
            j++;
        }
        if (latest)
        {
            pairs++;
            hv::check(latest->start < b.second->end, "not-fifo", [&]() {
                return "element " + std::to_string(b.first->value) + " (push began at " + std::to_string(b.first->start) + ") was popped by " + std::to_string(b.second->end)
                    + ", before the pop of the earlier pushed " + std::to_string(latest->value) + " began at " + std::to_string(latest->start); });
        }
        k.add((uint64_t)(b.second->thread)).add(b.second->start - b.first->start < 8);
    }
    hv::count("elements through the queue", total); hv::count("ordered pairs checked", pairs);
    hv::count("spurious wake-ups injected", hv::perturb_spurious.exchange(0));
    hv::observe(k.h);
}
}
K52_MAIN
