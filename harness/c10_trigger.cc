// C10: Trigger: atomic flag, no lost wake-ups, safe destruction
#include "perturb.h"
#include <gul14/Trigger.h>
#include <gul14/time_util.h>
#include <algorithm>
#include <chrono>
#include <memory>
#include <sys/syscall.h>
#include <thread>
#include <time.h>
using namespace vm;
using gul14::Trigger;
static void nap_us(unsigned us) { struct timespec ts = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; ::nanosleep(&ts, nullptr); }
template <typename P> static void await(const P& p) { for (unsigned i = 0; !p(); ++i) nap_us(i < 100 ? 20 : 200); }
// All synchronization of the harness itself is relaxed where races of the library could be hidden
enum Op { set_, reset_, read_, wait_, wait0, wait_short, wait_until_past, n_ops };
struct Ev { int op; bool val; std::uint64_t inv, res; };
static const char* on[] = { "set", "reset", "read", "wait", "wait_for(0)", "wait_for(short)", "wait_until(past)" };

// Is there an order of the operations on a single bool that explains all results? wait and the timed waits
// read the state at some moment of the call
struct Lin
{
    const std::vector<Ev>& ops; std::set<std::uint64_t> seen; std::size_t visited = 0;
    explicit Lin(const std::vector<Ev>& o) : ops(o) {}
    bool dfs(std::uint64_t done, bool state)
    {
        std::size_t n = ops.size();
        if (done == (n == 64 ? ~0ull : (1ull << n) - 1)) return true;
        ++visited;
        if (!seen.insert(done * 2 + state).second) return false;
        std::uint64_t min_res = ~0ull;
        for (std::size_t i = 0; i < n; ++i) if (!(done >> i & 1)) min_res = std::min(min_res, ops[i].res);
        for (std::size_t i = 0; i < n; ++i)
        {
            if ((done >> i & 1) || ops[i].inv > min_res) continue;
            bool ok, ns = state;
            switch (ops[i].op) { case set_: ok = true; ns = true; break; case reset_: ok = true; ns = false; break; case wait_: ok = state; break; default: ok = ops[i].val == state; }
            if (ok && dfs(done | 1ull << i, ns)) return true;
        }
        return false;
    }
};
static void do_set(Trigger& t, int how) { if (how == 0) t.trigger(); else t = true; }
static void do_reset(Trigger& t, int how) { if (how == 0) t.reset(); else t = false; }

GROUP("linearizable", 4000, 50000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 5) ? 0 : r.next());
    watch("operations on a trigger", 30);
    std::size_t nt = 2 + r.below(3), per = 2 + r.below(6);
    bool init = r.chance(1, 2), blocking = r.chance(1, 3);
    Trigger trg(init);
    std::atomic<std::uint64_t> tick{ 1 }; std::atomic<int> go{ 0 };
    std::vector<std::vector<Ev>> logs(nt); std::vector<std::thread> ts; std::uint64_t seed = r.next();
    std::atomic<int> done{ 0 };
    for (std::size_t k = 0; k < nt; ++k)
        ts.emplace_back([&, k] {
            Rng q(mix(seed + k)); while (!go) {}
            for (std::size_t i = 0; i < per; ++i)
            {
                static const int w[] = { set_, set_, reset_, reset_, read_, read_, read_, wait0, wait_until_past, wait_short };
                int op = q.pick(w), how = (int)q.below(2);
                if (blocking && k == 0) { if (q.chance(1, 2)) op = wait_; else if (op == reset_) op = read_; } // it never resets: the last set ends all its waits
                Ev e{ op, false, tick.fetch_add(1), 0 };
                switch (op)
                {
                case set_: do_set(trg, how); break;
                case reset_: do_reset(trg, how); break;
                case read_: e.val = how ? bool(trg) : static_cast<const Trigger&>(trg) ? true : false; break;
                case wait_: trg.wait(); break;
                case wait0: e.val = how ? trg.wait_for(std::chrono::seconds(0)) : !gul14::sleep(0.0, trg); break;
                case wait_until_past: e.val = how ? trg.wait_until(std::chrono::steady_clock::now() - std::chrono::seconds(1)) : trg.wait_until(std::chrono::system_clock::time_point{}); break;
                case wait_short: e.val = how ? trg.wait_for(std::chrono::microseconds(q.below(200))) : !gul14::sleep(std::chrono::microseconds(q.below(200)), trg); break;
                }
                e.res = tick.fetch_add(1);
                logs[k].push_back(e);
                if (q.chance(1, 4)) nap_us((unsigned)q.below(60));
            }
            ++done;
        });
    std::vector<Ev> extra;
    go = 1;
    // blocked waiters are released at the end
    if (blocking) { await([&] { return done >= (int)nt - 1; }); Ev e{ set_, false, tick.fetch_add(1), 0 }; trg.trigger(); e.res = tick.fetch_add(1); extra.push_back(e); }
    for (auto& t : ts) t.join();
    perturb(0);
    std::vector<Ev> all = extra; for (auto& l : logs) all.insert(all.end(), l.begin(), l.end());
    std::sort(all.begin(), all.end(), [](const Ev& a, const Ev& b) { return a.inv < b.inv; });
    std::string d = init ? "initially true:" : "initially false:"; std::uint64_t h = init;
    for (auto& e : all) { d += std::string(" ") + on[e.op] + (e.op >= read_ && e.op != wait_ ? (e.val ? "=1" : "=0") : "") + "[" + std::to_string(e.inv) + "," + std::to_string(e.res) + "]"; h = hash_mix(h, hash_mix(e.inv * 100 + e.res, (std::uint64_t)e.op * 2 + e.val)); }
    c.desc(d);
    Lin l(all);
    if (!l.dfs(0, init)) VIOL("not-linearizable", "no sequential order explains the history");
    unwatch();
    c.eval(all.size()); c.count("history_events", all.size()); c.count("histories_linearized"); c.count("linearization_steps", l.visited); c.distinct(h); perturb_report(c);
    if (c.want_sample()) c.sample(d);
}
// Threads wait; the trigger is set at some moment and stays set: all must resume, and none before
GROUP("wake-up", 3000, 40000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 5) ? 0 : r.next());
    watch("waking up all waiting threads", 20);
    std::size_t nw = 1 + r.below(8); int how = (int)r.below(3), toggles = r.chance(1, 3) ? (int)r.below(6) : 0;
    Trigger trg;
    std::atomic<int> set{ 0 }, early{ 0 }, resumed{ 0 }, bad{ 0 };
    std::vector<std::thread> ts; std::uint64_t seed = r.next();
    for (std::size_t k = 0; k < nw; ++k)
        ts.emplace_back([&, k] {
            Rng q(mix(seed + k)); if (q.chance(1, 2)) nap_us((unsigned)q.below(300));
            bool ok = true;
            switch (q.below(4))
            {
            case 0: case 1: trg.wait(); break;
            case 2: ok = trg.wait_for(std::chrono::hours(1)); break;
            default: ok = trg.wait_until(std::chrono::system_clock::now() + std::chrono::hours(1));
            }
            if (!set.load(std::memory_order_relaxed)) ++early;
            if (!ok) ++bad;
            resumed.fetch_add(1, std::memory_order_relaxed);
        });
    if (r.chance(3, 4)) nap_us((unsigned)r.below(600)); // before, during or after the waits begin
    c.desc(std::to_string(nw) + " waiting threads, set by way " + std::to_string(how));
    if (r.chance(1, 4)) { trg.reset(); trg = false; }
    if (early) VIOL("early", "a thread resumed although the trigger has never been set");
    set.store(1, std::memory_order_relaxed);
    for (int i = 0; i < toggles; ++i) { trg = true; trg = false; }
    if (how == 0) trg.trigger(); else if (how == 1) trg = true; else (trg = false) = true;
    for (auto& t : ts) t.join();
    CHECK(early == 0, "early", "a thread resumed although the trigger had never been set");
    CHECK(bad == 0, "wrong-answer", "a timed wait returned false long before its timeout");
    CHECK(bool(trg), "state", "the trigger is not set any more");
    // now nobody waits
    trg.wait(); CHECK(trg.wait_for(std::chrono::seconds(0)), "set-before", "");
    perturb(0); unwatch();
    c.eval(nw); c.count("threads_woken", nw); c.distinct(hash_mix(seed, nw)); perturb_report(c);
}
// Nobody sets the trigger: nobody resumes, in spite of resets, spurious wake-ups and time
GROUP("stays-asleep", 300, 3000)
{
    Rng& r = c.rng;
    perturb(r.next() | 1);
    watch("waiting threads", 20);
    std::size_t nw = 1 + r.below(4);
    Trigger trg;
    std::atomic<int> resumed{ 0 };
    std::vector<std::thread> ts;
    for (std::size_t k = 0; k < nw; ++k) ts.emplace_back([&] { trg.wait(); ++resumed; });
    int n = 3 + (int)r.below(10);
    for (int i = 0; i < n; ++i) { if (r.chance(1, 2)) trg.reset(); else if (r.chance(1, 2)) trg = false; else { (void)bool(trg); trg.wait_for(std::chrono::microseconds(50)); } nap_us((unsigned)r.below(400)); CHECK(resumed == 0, "early", "a thread resumed although the trigger has never been set"); }
    CHECK(!trg, "state", "");
    trg.trigger();
    for (auto& t : ts) t.join();
    perturb(0); unwatch();
    c.eval((std::uint64_t)n); c.distinct(c.idx); perturb_report(c);
}
// Is this thread asleep in the kernel?
static char thread_state(long tid)
{
    char path[64], buf[512]; std::snprintf(path, sizeof path, "/proc/self/task/%ld/stat", tid);
    FILE* f = std::fopen(path, "r"); if (!f) return '?';
    std::size_t n = std::fread(buf, 1, sizeof buf - 1, f); std::fclose(f); buf[n] = 0;
    const char* p = std::strrchr(buf, ')'); return p && p[1] && p[2] ? p[2] : '?';
}
// Destruction while threads wait: all are released, nothing is used after its end
GROUP("destroy", 1500, 15000)
{
    Rng& r = c.rng;
    bool pert = r.chance(3, 4);
    std::uint64_t pseed = r.next();
    watch("destroying a trigger with waiting threads", 20);
    std::size_t nw = r.below(7);
    std::unique_ptr<Trigger> trg(new Trigger);
    Trigger* raw = trg.get();
    std::vector<std::thread> ts; std::uint64_t seed = r.next();
    std::atomic<int> wrong{ 0 }; std::vector<std::atomic<long>> tids(nw); for (auto& t : tids) t = 0;
    perturb(pert ? pseed : 0, false);
    int base = threads_in_wait();
    for (std::size_t k = 0; k < nw; ++k)
        ts.emplace_back([&, k] {
            int q = (int)(mix(seed + k) % 3);
            tids[k] = (long)::syscall(SYS_gettid);
            if (q == 0) raw->wait();
            else if (q == 1) { if (!raw->wait_for(std::chrono::hours(1))) ++wrong; }
            else if (!raw->wait_until(std::chrono::steady_clock::now() + std::chrono::hours(1))) ++wrong;
        });
    // all must be inside of their wait: either the wrappers have seen them or they sleep for a while
    int asleep = 0;
    await([&] {
        if (threads_in_wait() - base >= (int)nw) return true;
        bool all = true; for (auto& t : tids) if (t == 0 || thread_state(t) != 'S') all = false;
        asleep = all ? asleep + 1 : 0;
        return asleep > 500;
    });
    if (r.chance(1, 2)) trg.reset();
    else { std::thread k([&] { trg.reset(); }); k.join(); }
    for (auto& t : ts) t.join();
    CHECK(wrong == 0, "wrong-answer", "a wait that was ended by the destruction returned false");
    perturb(0); unwatch();
    c.eval(nw + 1); c.count("threads_released_by_destruction", nw); c.distinct(hash_mix(seed, nw)); perturb_report(c);
}
// Plain memory is handed over through a trigger (for the race detector)
GROUP("visibility", 800, 10000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 4) ? 0 : r.next());
    watch("handing over data", 20);
    std::size_t nw = 1 + r.below(4); std::string data; Trigger trg; std::vector<int> ok(nw, 0); std::vector<std::thread> ts; std::uint64_t seed = r.next();
    for (std::size_t k = 0; k < nw; ++k)
        ts.emplace_back([&, k] {
            switch (mix(seed + k) % 4) { case 0: trg.wait(); break; case 1: trg.wait_for(std::chrono::hours(1)); break; case 2: while (!trg) nap_us(20); break; default: while (gul14::sleep(std::chrono::microseconds(100), trg)) {} }
            ok[k] = data == "some data that needs the heap, to be read by others";
        });
    data = "some data that needs the heap, to be read by others";
    if (r.chance(1, 2)) trg = true; else trg.trigger();
    for (auto& t : ts) t.join();
    for (int x : ok) CHECK(x, "not-visible", "data written before trigger() is not visible");
    perturb(0); unwatch();
    c.eval(nw); c.distinct(hash_mix(seed, nw)); perturb_report(c);
}
