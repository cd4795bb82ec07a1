// C07: destroying a pool
#include "pool.h"
#include <dirent.h>
using namespace vm;

static std::size_t count_os_threads()
{
    std::size_t n = 0;
    if (DIR* d = ::opendir("/proc/self/task")) { while (auto* x = ::readdir(d)) if (x->d_name[0] != '.') ++n; ::closedir(d); }
    return n;
}
// All workers are inside of a task when the destruction begins: nothing else may start
GROUP("exact", 900, 9000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 4) ? 0 : r.next());
    watch("destroying the pool", 30);
    std::size_t os0 = count_os_threads();
    std::size_t nt = 1 + r.below(5);
    Env e(nt, 200, 100);
    std::atomic<int> saw_shutdown{ 0 }, early{ 0 };
    bool cooperative = r.chance(1, 2);
    Gate g; std::vector<int> run, done, pend, canc;
    std::size_t ndone = r.below(6);
    for (std::size_t i = 0; i < ndone; ++i) { Rec& t = *e.fresh(); t.body = (int)r.below(n_bodies); t.way = (int)r.below(n_ways); t.when = now_; add(e, t); done.push_back(t.id); }
    await([&] { for (int id : done) { Borrow b(e, id); if (b.h->state() != TaskState::complete) return false; } return true; });
    std::size_t busy = r.chance(1, 4) ? r.below(nt + 1) : nt; // sometimes some workers are idle
    ThreadPool* raw = e.pool.get();
    std::atomic<int> inside{ 0 };
    for (std::size_t i = 0; i < busy; ++i)
    {
        Rec& t = *e.fresh(); t.body = (int)r.below(n_bodies); t.way = w_name;
        unsigned extra = (unsigned)r.below(1500);
        t.action = [&, raw, extra](Rec&) {
            if (raw->is_shutdown_requested()) ++early;
            ++inside;
            if (cooperative) { while (!raw->is_shutdown_requested()) nap_us(30); ++saw_shutdown; }
            else g.pass();
            nap_us(extra);
        };
        add(e, t); run.push_back(t.id);
    }
    await([&] { return inside == (int)busy; });
    std::size_t npend = r.below(8);
    for (std::size_t i = 0; i < npend; ++i)
    {
        Rec& t = *e.fresh(); t.body = (int)r.below(n_bodies); t.way = busy == nt ? (int)r.below(n_ways) : (int)w_time_name; t.when = busy == nt ? (int)r.below(n_whens) : (int)later_far;
        add(e, t); pend.push_back(t.id);
        if (r.chance(1, 6)) { do_cancel(e, t.id); pend.pop_back(); canc.push_back(t.id); }
    }
    c.desc(std::to_string(nt) + " threads, " + std::to_string(busy) + " busy, " + std::to_string(pend.size()) + " pending, " + std::to_string(done.size()) + " done" + (cooperative ? ", cooperative" : ""));
    CHECK(!e.pool->is_shutdown_requested(), "shutdown-early", "shutdown is reported before the destruction");
    std::atomic<int> destroyed{ 0 };
    bool other_thread = r.chance(1, 2);
    // a helper opens the gate some time after the destruction began
    unsigned wait_us = (unsigned)r.below(3000); std::atomic<int> dying{ 0 };
    std::thread opener([&] { while (!dying) nap_us(20); if (!cooperative && busy) while (!raw->is_shutdown_requested()) nap_us(20); nap_us(wait_us); if (!cooperative && busy && destroyed) VIOL("not-blocking", "the destructor returned while a task was running"); g.open(); });
    auto kill = [&] { dying = 1; e.pool.reset(); destroyed = 1; };
    if (other_thread) { std::thread k(kill); k.join(); } else kill();
    for (int id : run) CHECK(e.recs[(std::size_t)id].ended == 1, "not-finished", "the destructor returned before task " << id << " had finished");
    opener.join();
    CHECK(!early, "shutdown-early", "a task saw the shutdown before the destruction");
    if (cooperative) CHECK(saw_shutdown == (int)busy, "shutdown-unseen", saw_shutdown.load());
    if (r.chance(1, 3)) nap_us(500);
    for (int id : pend) CHECK(!e.recs[(std::size_t)id].begun, "started-late", "task " << id << " was started although the pool was being destroyed");
    auto t0 = std::chrono::steady_clock::now();
    while (count_os_threads() > os0) { if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(10)) VIOL("threads-left", count_os_threads() << " threads, before: " << os0); nap_us(100); }
    perturb(0);
    // the handles
    auto logic = [&](int id) {
        Borrow b(e, id); int k = 0;
        try { b.h->cancel(); } catch (const std::logic_error&) { ++k; }
        try { b.h->state(); } catch (const std::logic_error&) { ++k; }
        CHECK(k == 2, "logic-error", "cancel() or get_state() of task " << id << " did not throw std::logic_error");
    };
    for (auto* v : { &run, &done }) for (int id : *v)
    {
        logic(id); Borrow b(e, id);
        CHECK(b.h->complete(), "complete", "task " << id << " is not reported as complete");
        auto s = b.h->result(e.recs[(std::size_t)id]); CHECK(s == "ok", "result", "result of task " << id << " after destruction: " << s);
        CHECK(b.h->complete(), "complete-after-result", "task " << id);
    }
    for (auto* v : { &pend, &canc }) for (int id : *v)
    {
        logic(id); Borrow b(e, id);
        CHECK(!b.h->complete(), "complete", "task " << id << " is reported as complete although it was never started");
        auto s = b.h->result(e.recs[(std::size_t)id]); CHECK(s == "logic_error" || s == "future_error broken_promise", "result-of-unstarted", "task " << id << ": " << s);
        CHECK(!b.h->complete(), "complete-after-result", "task " << id);
    }
    // without handles, all function objects are gone
    for (auto& h : e.handles) { delete h.load(); h = nullptr; }
    for (auto& t : e.recs) CHECK(t.alive == 0, "functions-alive", t.alive << " function objects of task " << t.id << " are left");
    unwatch();
    c.eval(run.size() + pend.size() + done.size() + canc.size() + 3); c.count("running_at_destruction", run.size()); c.count("pending_at_destruction", pend.size());
    c.distinct(hash_mix(hash_mix(hash_mix(nt, busy), hash_mix(pend.size(), done.size())), hash_mix(cooperative * 2 + other_thread, canc.size()))); perturb_report(c);
    if (c.want_sample()) c.sample(G().desc);
}
// Destruction at any time: also while workers start up, go to sleep, or wait for a start time
GROUP("anytime", 3000, 40000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 6) ? 0 : r.next());
    watch("destroying the pool at any time", 30);
    std::size_t nt = 1 + r.below(6), n = r.below(8);
    Env e(nt, 200, 40);
    ThreadPool* raw = e.pool.get(); std::vector<char> saw(40, 0);
    std::string d = std::to_string(nt) + " threads:";
    for (std::size_t i = 0; i < n; ++i)
    {
        Rec& t = *e.fresh(); t.body = (int)r.below(n_bodies); t.way = (int)r.below(n_ways); t.when = (int)r.below(n_whens); unsigned b = r.chance(1, 2) ? (unsigned)r.below(300) : 0;
        t.action = [b, raw, &saw](Rec& x) { saw[(std::size_t)x.id] = raw->is_shutdown_requested(); if (b) nap_us(b); };
        add(e, t);
        d += " " + std::to_string(t.when);
        if (r.chance(1, 3)) { nap_us((unsigned)r.below(400)); d += "~"; }
    }
    if (r.chance(1, 2)) { nap_us((unsigned)r.below(2000)); d += "~"; }
    c.desc(d);
    e.pool.reset();
    std::uint64_t after = e.now();
    // from here on nothing runs
    std::size_t late = 0, ran = 0;
    for (auto& t : e.recs) if (t.id >= 0)
    {
        CHECK(t.begun == t.ended, "not-finished", "task " << t.id << " is still running after the destruction");
        if (t.begun) { ++ran; CHECK(t.t_end < after, "after", "task " << t.id << " ended after the destruction"); if (saw[(std::size_t)t.id]) { ++late; for (auto& u : e.recs) if (&u != &t && u.begun && u.worker == t.worker) CHECK(u.t_begin < t.t_begin, "started-late", "task " << u.id << " was started by a worker whose previous task had already seen the shutdown"); } }
        CHECK(t.when != later_far || !t.begun, "far-started", "");
    }
    CHECK(late <= nt, "started-late", late << " tasks began after the shutdown had been requested, with " << nt << " threads");
    if (r.chance(1, 4)) nap_us(300);
    perturb(0);
    for (auto& t : e.recs) if (t.accepted)
    {
        Borrow b(e, t.id);
        CHECK(b.h->complete() == (t.begun == 1), "complete", "task " << t.id);
        auto s = b.h->result(t);
        if (t.begun) CHECK(s == "ok", "result", "task " << t.id << ": " << s); else CHECK(s == "future_error broken_promise" || s == "logic_error", "result-of-unstarted", "task " << t.id << ": " << s);
    }
    for (auto& h : e.handles) { delete h.load(); h = nullptr; }
    for (auto& t : e.recs) CHECK(t.alive == 0, "functions-alive", t.alive << " function objects of task " << t.id << " are left");
    unwatch();
    c.eval(n + 1); c.count("tasks_begun_during_destruction", late); c.count("tasks_executed", ran); c.distinct(hash_str(d)); perturb_report(c);
}
// A thread is blocked in get_result() while the pool is destroyed
GROUP("blocked-getter", 400, 4000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 4) ? 0 : r.next());
    watch("get_result() during destruction", 30);
    auto pool = gul14::make_thread_pool(1 + r.below(2));
    Gate g; std::vector<ThreadPool::TaskHandle<int>> blk;
    for (std::size_t i = 0; i < pool->count_threads(); ++i) blk.push_back(pool->add_task([&g](ThreadPool& p) { ++g.waiting; while (!p.is_shutdown_requested()) nap_us(30); return 7; }));
    await([&] { return g.waiting == (int)blk.size(); });
    auto pending = r.chance(1, 2) ? pool->add_task([] { return 8; }) : pool->add_task([] { return 8; }, std::chrono::hours(1));
    std::atomic<int> got{ 0 }, broken{ 0 };
    std::thread a([&] { if (blk[0].get_result() == 7) ++got; });
    std::thread b([&] { try { pending.get_result(); } catch (const std::exception&) { ++broken; } });
    nap_us((unsigned)r.below(500));
    pool.reset();
    a.join(); b.join();
    CHECK(got == 1 && broken == 1, "getter", got << " " << broken);
    CHECK(!pending.is_complete() && blk[0].is_complete(), "complete", "");
    perturb(0); unwatch();
    c.eval(2); c.distinct(c.idx); perturb_report(c);
}
// Handles without a pool
GROUP("invalid-handles", 20, 100)
{
    ThreadPool::TaskHandle<int> h; int k = 0;
    try { h.cancel(); } catch (const std::logic_error&) { ++k; }
    try { h.get_state(); } catch (const std::logic_error&) { ++k; }
    try { h.get_result(); } catch (const std::exception&) { ++k; }
    CHECK(k == 3 && !h.is_complete(), "default-handle", k);
    c.eval(4); c.distinct(c.idx);
}

// Large pools: every thread has to be woken up, and to end
GROUP("many-threads", 6, 60)
{
    Rng& r = c.rng;
    perturb(0);
    watch("destroying a large pool", 120);
    std::size_t os0 = count_os_threads();
    static const std::size_t sizes[] = { 33, 65, 70, 129, 200, 257, 300, 513 };
    const std::size_t nt = r.pick(sizes), busy = r.chance(1, 3) ? 0 : r.below(nt + 1);
    const bool far = r.chance(1, 2);
    auto pool = gul14::make_thread_pool(nt, 2000);
    c.desc(std::to_string(nt) + " threads, " + std::to_string(busy) + " busy" + (far ? ", others waiting for a start time" : ""));
    Gate g; std::atomic<std::size_t> begun{ 0 }, ended{ 0 }, never{ 0 };
    for (std::size_t i = 0; i < busy; ++i) pool->add_task([&] { ++begun; g.pass(); ++ended; });
    await([&] { return begun == busy; });
    if (far) for (int i = 0; i < 3; ++i) pool->add_task([&] { ++never; }, std::chrono::hours(2));
    if (busy == nt) for (int i = 0; i < 100; ++i) pool->add_task([&] { ++never; });
    nap_us(20000); // most of the idle threads have gone to sleep
    ThreadPool* raw = pool.get(); std::atomic<int> dying{ 0 };
    std::thread opener([&] { while (!dying) nap_us(20); if (busy) while (!raw->is_shutdown_requested()) nap_us(20); g.open(); });
    dying = 1;
    pool.reset();
    CHECK(ended == busy, "not-finished", ended << " of " << busy << " running tasks have finished");
    opener.join();
    auto t0 = std::chrono::steady_clock::now();
    while (count_os_threads() > os0) { if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(10)) VIOL("threads-left", count_os_threads() << " threads, before: " << os0); nap_us(100); }
    CHECK(never == 0, "started-late", never << " tasks");
    unwatch();
    c.eval(busy + nt); c.count("threads_of_large_pools", nt); c.distinct(hash_mix(nt, busy * 2 + far));
}
