// C05: cancelling
#include "pool.h"
using namespace vm;

// Histories with cancellations racing against workers and each other: must be linearizable, and every
// task must be accounted for exactly once
GROUP("history", 3500, 40000)
{
    Rng& r = c.rng;
    std::size_t nt = 1 + r.below(3), prod = 1 + r.below(4);
    Env e(nt, 200, 40);
    perturb(r.chance(1, 6) ? 0 : r.next());
    watch("history");
    Mix m{ { 10, 8, r.chance(1, 2) ? 2 : 0, 1, 0, 0, 1, 0, 1, 0, 0, 0 }, 10, 10, 20, 100 };
    Stress s(c, e, m, 3 + r.below(7), 22);
    s.run(prod); s.quiesce();
    perturb(0);
    c.desc(describe(e));
    long long accepted = 0, executed = 0, single = 0, bulk = 0, attempts = 0;
    for (auto& x : e.log) { if (x.op == o_add && x.val) ++accepted; if (x.op == o_cancel) { ++attempts; single += x.val; } if (x.op == o_bulk) bulk += x.val; }
    for (auto& t : e.recs) if (t.id >= 0)
    {
        if (t.begun) ++executed;
        if (t.begun && t.handle_canceled) VIOL("cancelled-executed", "task " << t.id << " was executed although cancel() returned true");
    }
    CHECK(accepted == executed + single + bulk, "accounting", accepted << " accepted, " << executed << " executed, " << single << " + " << bulk << " cancelled");
    CHECK(e.pool->count_pending() == 0, "rest", e.pool->count_pending());
    for (auto& t : e.recs) if (t.accepted)
    {
        Borrow b(e, t.id);
        CHECK(!b.h->cancel(), "cancel-again", "cancel() of task " << t.id << " returned true again");
        auto st = b.h->state();
        CHECK(st == (t.begun ? TaskState::complete : TaskState::canceled), "state", "task " << t.id << ": " << (int)st);
        CHECK(b.h->complete() == (t.begun == 1), "is_complete", "task " << t.id);
        auto res = b.h->result(t);
        if (t.begun) CHECK(res == "ok", "result-affected", "task " << t.id << ": " << res);
        else CHECK(res == "logic_error" || res == "future_error broken_promise", "result-of-cancelled", "task " << t.id << ": " << res);
    }
    lin_check(c, e, "cancel-history");
    e.pool.reset();
    unwatch();
    c.eval(e.log.size()); c.count("cancel_attempts", (std::uint64_t)attempts); c.count("cancelled_single", (std::uint64_t)single); c.count("cancelled_in_bulk", (std::uint64_t)bulk); c.count("tasks_executed", (std::uint64_t)executed);
    c.distinct(interleaving(e)); perturb_report(c);
    if (c.want_sample()) c.sample(describe(e, 20));
}
// With all workers busy, every answer is known exactly
GROUP("exact", 1000, 10000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 3) ? 0 : r.next(), false);
    watch("exact");
    std::size_t nt = 1 + r.below(3);
    static const std::size_t caps[] = { 2, 3, 5, 10, 200 };
    std::size_t cap = r.pick(caps);
    Env e(nt, cap, 400);
    Gate g; std::vector<int> blockers, P, canceled, all;
    for (std::size_t i = 0; i < nt; ++i) { Rec& t = *e.fresh(); t.way = w_name; t.body = (int)r.below(n_bodies); t.action = [&g](Rec&) { g.pass(); }; add(e, t); blockers.push_back(t.id); await([&] { return g.waiting == (int)(i + 1); }); }
    std::string d = std::to_string(nt) + " threads, capacity " + std::to_string(cap) + ":";
    std::size_t steps = 3 + r.below(30);
    auto look = [&] {
        auto nm = e.pool->get_pending_task_names(); std::vector<std::string> ex; for (int id : P) ex.push_back(e.recs[(std::size_t)id].name);
        CHECK(nm == ex && e.pool->count_pending() == P.size(), "others-affected", "after " << d);
        CHECK(e.pool->is_full() == (P.size() == cap), "full", d);
        CHECK(e.pool->get_running_task_names().size() == nt, "running-affected", d);
    };
    for (std::size_t k = 0; k < steps; ++k)
    {
        int what = (int)r.below(10);
        if (what < 5) { Rec& t = *e.fresh(); t.body = (int)r.below(n_bodies); t.way = (int)r.below(n_ways); t.when = (int)r.below(n_whens); bool ok = add(e, t); CHECK(ok == (P.size() < cap), "add", d); if (ok) { P.push_back(t.id); all.push_back(t.id); } d += " add" + std::to_string(t.id); }
        else if (what < 8 && !P.empty()) { std::size_t j = r.below(P.size()); int id = P[j]; d += " cancel" + std::to_string(id); Borrow b(e, id); CHECK(b.h->cancel(), "cancel-false", d << ": the task is pending, but cancel() returns false"); P.erase(P.begin() + (long)j); canceled.push_back(id); CHECK(b.h->state() == TaskState::canceled, "state", d); }
        else if (what == 8) { auto n = e.pool->cancel_pending_tasks(); d += " cancel_all"; CHECK(n == P.size(), "bulk-number", d << " returned " << n); for (int id : P) canceled.push_back(id); P.clear(); }
        else
        {
            d += " again";
            for (int id : blockers) { Borrow b(e, id); CHECK(!b.h->cancel(), "cancel-running", d << ": a running task was cancelled"); CHECK(b.h->state() == TaskState::running, "state-running", d); }
            if (!canceled.empty()) { int id = r.pick(canceled); Borrow b(e, id); CHECK(!b.h->cancel(), "cancel-twice", d); }
        }
        look();
    }
    c.desc(d);
    g.open();
    std::vector<int> rest = P;
    await([&] { for (int id : rest) if (e.recs[(std::size_t)id].when != later_far && !e.recs[(std::size_t)id].ended) return false; return true; });
    for (int id : blockers) { Borrow b(e, id); auto s = b.h->result(e.recs[(std::size_t)id]); CHECK(s == "ok", "result-affected", d << ": " << s); CHECK(!b.h->cancel(), "cancel-complete", d); }
    for (int id : canceled) CHECK(!e.recs[(std::size_t)id].begun, "cancelled-executed", d << ": task " << id);
    for (int id : rest) if (e.recs[(std::size_t)id].when != later_far) { Borrow b(e, id); auto s = b.h->result(e.recs[(std::size_t)id]); CHECK(s == "ok", "others-result", d << ": task " << id << ": " << s); }
    perturb(0);
    e.pool.reset();
    for (int id : canceled) CHECK(!e.recs[(std::size_t)id].begun, "cancelled-executed", d << ": task " << id);
    unwatch();
    c.eval(steps); c.distinct(hash_str(d)); perturb_report(c);
    if (c.want_sample()) c.sample(d);
}
// One pending task, many contenders: worker, cancel() and cancel_pending_tasks(); exactly one gets it
GROUP("contended", 2500, 30000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 8) ? 0 : r.next());
    watch("contended");
    std::size_t nt = 1 + r.below(3), k = 1 + r.below(3);
    Env e(nt, 200, k);
    std::atomic<int> go{ 0 }; std::atomic<long long> bulk{ 0 };
    std::vector<std::thread> ts; std::atomic<int> single{ 0 };
    std::size_t nb = r.below(3);
    Gate g; ThreadPool::TaskHandle<void> blk;
    bool gated = r.chance(1, 2);
    std::vector<ThreadPool::TaskHandle<void>> blks;
    if (gated) { for (std::size_t i = 0; i < nt; ++i) blks.push_back(e.pool->add_task([&g] { g.pass(); })); await([&] { return g.waiting == (int)nt; }); }
    std::atomic<long long> bulk_block{ 0 };
    for (std::size_t i = 0; i < k; ++i) { Rec& t = *e.fresh(); t.way = w_name; t.body = (int)r.below(n_bodies); if (gated) add(e, t, false); }
    for (std::size_t i = 0; i < nb; ++i) ts.emplace_back([&] { while (!go) {} bulk += (long long)e.pool->cancel_pending_tasks(); });
    for (std::size_t i = 0; i < k; ++i) ts.emplace_back([&, i] { while (!go) {} if (!gated) add(e, e.recs[i], false); Borrow b(e, (int)i); if (b.h->cancel()) { ++single; e.recs[i].handle_canceled = true; } });
    if (gated) ts.emplace_back([&] { while (!go) {} g.open(); });
    go = 1;
    for (auto& t : ts) t.join();
    g.open();
    for (auto& b : blks) await([&] { return b.is_complete(); });
    await([&] { return e.pool->is_idle(); });
    perturb(0);
    long long ex = 0; for (auto& t : e.recs) { ex += t.begun; CHECK(!(t.begun && t.handle_canceled), "both", "a task was executed and cancelled"); CHECK(t.begun <= 1, "twice", ""); }
    CHECK(ex + single + bulk == (long long)k, "accounting", k << " tasks: " << ex << " executed, " << single << " cancelled, " << bulk << " cancelled in bulk");
    e.pool.reset();
    unwatch();
    c.eval(); c.count("won_by_worker", (std::uint64_t)ex); c.count("won_by_cancel", (std::uint64_t)single); c.count("won_by_cancel_all", (std::uint64_t)bulk.load());
    c.distinct(hash_mix(hash_mix((std::uint64_t)ex, (std::uint64_t)single), hash_mix((std::uint64_t)bulk.load(), hash_mix(nt * 4 + nb, gated)))); perturb_report(c);
}
// From inside of tasks: a task cannot cancel itself, but others
GROUP("inside", 800, 8000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 4) ? 0 : r.next());
    watch("inside");
    auto pool = gul14::make_thread_pool(1 + r.below(2));
    ThreadPool::TaskHandle<int> self; std::atomic<int> ready{ 0 };
    bool single = pool->count_threads() == 1;
    std::atomic<int> ran{ 0 };
    self = pool->add_task([&](ThreadPool& p) {
        while (!ready) nap_us(20);
        if (self.cancel()) VIOL("self", "a task cancelled itself");
        if (self.get_state() != TaskState::running) VIOL("self-state", "a task is not in state running for itself");
        if (self.is_complete()) VIOL("self-complete", "a task is complete for itself");
        auto h = p.add_task([&ran] { ++ran; });
        auto h2 = p.add_task([&ran] { ran += 10; }, Sys::now() + std::chrono::hours(1));
        if (!h2.cancel()) VIOL("inside-far", "a pending task could not be cancelled from inside of a task");
        if (single)
        {
            if (!h.cancel()) VIOL("inside-cancel", "a pending task could not be cancelled from inside of a task");
            auto h3 = p.add_task([&ran] { ran += 100; }); auto h4 = p.add_task([&ran] { ran += 100; });
            auto n = p.cancel_pending_tasks();
            if (n != 2 || h3.get_state() != TaskState::canceled || h4.get_state() != TaskState::canceled) VIOL("inside-bulk", n);
        }
        return 5;
    });
    ready = 1;
    CHECK(self.get_result() == 5, "self-result", "");
    await([&] { return pool->is_idle(); });
    CHECK(ran == (single ? 0 : 1), "inside-executed", ran.load());
    perturb(0);
    pool.reset(); unwatch();
    c.eval(5); c.distinct(hash_mix(c.idx, single)); perturb_report(c);
}

// Tens of thousands of tasks, each with a handle that must not mean any other one
GROUP("many", 6, 18)
{
    Rng& r = c.rng;
    perturb(0);
    watch("handling many tasks", 120);
    std::size_t n = 65536 + 300 + r.below(6000), before = r.below(4) * r.below(400);
    auto pool = gul14::make_thread_pool(1 + r.below(2), 200000);
    Gate g;
    for (std::size_t i = 0; i < pool->count_threads(); ++i) pool->add_task([&g] { g.pass(); });
    await([&] { return g.waiting == (int)pool->count_threads(); });
    for (std::size_t i = 0; i < before; ++i) { auto h = pool->add_task([] {}); if (r.chance(1, 2)) h.cancel(); }
    pool->cancel_pending_tasks();
    auto far = Sys::now() + std::chrono::hours(5);
    std::vector<ThreadPool::TaskHandle<int>> h; h.reserve(n);
    std::vector<char> canceled(n, 0);
    for (std::size_t i = 0; i < n; ++i) h.push_back(pool->add_task([i] { return (int)i; }, i < 50 ? Sys::time_point{} : far, std::to_string(i)));
    c.desc(std::to_string(n) + " tasks after " + std::to_string(before));
    std::vector<std::size_t> probe;
    static const std::size_t steps[] = { 1, 255, 256, 4096, 32768, 65535, 65536, 65537 };
    for (int k = 0; k < 12; ++k)
    {
        std::size_t st = steps[r.below(8)], i = r.below(n - st); if (r.chance(1, 4)) { i = r.below(40); if (i + st >= n) st = 1; }
        std::size_t a = i, b = i + st; if (r.chance(1, 2)) std::swap(a, b);
        probe.push_back(a); probe.push_back(b);
        bool want = !canceled[a];
        CHECK(h[a].get_state() == (want ? TaskState::pending : TaskState::canceled), "many-state", "task " << a);
        CHECK(h[a].cancel() == want, "many-cancel", "task " << a << " of " << n);
        canceled[a] = 1;
        CHECK(h[a].get_state() == TaskState::canceled, "many-state-after", "task " << a << " is in state " << (int)h[a].get_state());
        CHECK(h[b].get_state() == (canceled[b] ? TaskState::canceled : TaskState::pending), "many-other", "task " << b << " after cancelling " << a);
    }
    std::size_t left = 0; for (char x : canceled) left += !x;
    CHECK(pool->count_pending() == left, "many-count", pool->count_pending() << " pending instead of " << left);
    auto names = pool->get_pending_task_names(); std::size_t k = 0;
    for (std::size_t i = 0; i < n; ++i) if (!canceled[i]) { CHECK(k < names.size() && names[k] == std::to_string(i), "many-names", "pending task " << k << " is " << (k < names.size() ? names[k] : "missing") << " instead of " << i); ++k; }
    // the due ones run and deliver their own results
    if (r.chance(1, 2))
    {
        g.open();
        for (std::size_t i = 0; i < 50; ++i) if (!canceled[i]) { int v = h[i].get_result(); CHECK(v == (int)i, "many-result", "task " << i << " delivers " << v); --left; }
    }
    std::size_t got = pool->cancel_pending_tasks();
    g.open();
    CHECK(got == left, "many-bulk", got << " cancelled instead of " << left);
    for (auto i : probe) if (i >= 50) CHECK(h[i].get_state() == TaskState::canceled && !h[i].cancel(), "many-final", "task " << i);
    pool.reset(); unwatch();
    c.eval(n); c.count("many_tasks", n); c.distinct(n * 1000 + before);
    if (c.want_sample()) c.sample(std::to_string(n) + " tasks");
}
