// C06: task states and queries of the pool are truthful
#include "pool.h"
using namespace vm;

// Concurrent histories with all queries: there must be a sequential explanation of all answers
static void history(Case& c, const Mix& m, int total, bool unnamed)
{
    Rng& r = c.rng;
    std::size_t nt = 1 + r.below(3), prod = 1 + r.below(4);
    Env e(nt, r.chance(1, 4) ? 2 : 200, 40);
    perturb(r.chance(1, 6) ? 0 : r.next());
    watch("history");
    Mix mm = m; mm.named_percent = unnamed ? 60 : 100;
    Stress s(c, e, mm, 4 + r.below(8), total);
    s.run(prod); s.quiesce();
    perturb(0);
    c.desc(describe(e));
    lin_check(c, e, "state-history");
    await([&] { return e.pool->is_idle(); }); // the last one may still be on its way out
    CHECK(e.pool->count_pending() == 0 && e.pool->get_pending_task_names().empty() && e.pool->get_running_task_names().empty(), "idle-lists", "an idle pool has tasks");
    e.pool.reset();
    unwatch();
    std::size_t q = 0; for (auto& x : e.log) if (x.op >= o_count) ++q;
    c.eval(q); c.count("queries", q); c.distinct(interleaving(e)); perturb_report(c);
    if (c.want_sample()) c.sample(describe(e, 20));
}
GROUP("history-lists", 2000, 25000) { history(c, Mix{ { 10, 2, 1, 2, 0, 3, 5, 5, 0, 0, 0, 0 }, 10, 5, 15, 100 }, 24, false); }
GROUP("history-states", 2000, 25000) { history(c, Mix{ { 10, 3, 1, 0, 0, 1, 0, 0, 8, 6, 0, 0 }, 10, 5, 15, 100 }, 24, true); }
GROUP("history-all", 1000, 15000) { history(c, Mix{ { 10, 2, 1, 2, 1, 2, 3, 3, 3, 3, 0, 0 }, 15, 5, 30, 100 }, 28, true); }

// Everything is known exactly: tasks are executed until their own gate is opened
GROUP("exact", 900, 9000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 3) ? 0 : r.next(), false);
    watch("exact");
    std::size_t nt = 1 + r.below(5);
    Env e(nt, 200, 300);
    std::deque<Gate> gates(300);
    std::vector<int> P, R, D, C_; std::string d = std::to_string(nt) + " threads:";
    std::vector<std::string> fixed_names = { "", "a", "a", "b", std::string("nul\0inside", 10), std::string(300, 'x'), "\xff\x80" };
    auto look = [&](bool settle) {
        std::vector<std::string> pn, rn; for (int id : P) pn.push_back(e.recs[(std::size_t)id].name); for (int id : R) rn.push_back(e.recs[(std::size_t)id].name);
        auto ap = e.pool->get_pending_task_names(); auto ar = e.pool->get_running_task_names();
        std::sort(rn.begin(), rn.end()); std::sort(ar.begin(), ar.end());
        CHECK(ap == pn, "pending-names", d); CHECK(ar == rn, "running-names", d << ": " << ar.size() << " names, expected " << rn.size());
        CHECK(e.pool->count_pending() == P.size(), "count", d << ": " << e.pool->count_pending());
        CHECK(e.pool->is_idle() == (P.empty() && R.empty()), "idle", d << ": " << e.pool->is_idle());
        CHECK(!e.pool->is_shutdown_requested(), "shutdown", d);
        auto st = [&](int id, TaskState s, bool done) { Borrow b(e, id); auto x = b.h->state(); CHECK(x == s && b.h->complete() == done, "state", d << ": task " << id << " has state " << (int)x << ", is_complete " << b.h->complete()); };
        for (int id : P) st(id, TaskState::pending, false);
        for (int id : R) st(id, TaskState::running, false);
        for (int id : D) st(id, TaskState::complete, true);
        for (int id : C_) st(id, TaskState::canceled, false);
        c.eval(5 + P.size() + R.size() + D.size() + C_.size());
    };
    auto settle = [&] { // workers take due tasks
        while (R.size() < nt) { std::size_t k = 0; while (k < P.size() && e.recs[(std::size_t)P[k]].when == later_far) ++k; if (k == P.size()) break; int id = P[k]; await([&] { return gates[(std::size_t)id].waiting > 0; }); P.erase(P.begin() + (long)k); R.push_back(id); }
    };
    std::size_t steps = 3 + r.below(25);
    for (std::size_t k = 0; k < steps; ++k)
    {
        int what = (int)r.below(8);
        if (what < 4)
        {
            Rec& t = *e.fresh(); Gate& g = gates[(std::size_t)t.id]; t.body = (int)r.below(n_bodies); t.way = (int)r.below(n_ways); t.when = r.chance(1, 6) ? (int)later_far : (int)r.below(4);
            if (r.chance(1, 3)) t.name = r.pick(fixed_names);
            t.action = [&g](Rec&) { g.pass(); };
            add(e, t); d += " add" + std::to_string(t.id) + (t.when == later_far ? "(far)" : ""); P.push_back(t.id); settle();
        }
        else if (what < 6 && !R.empty())
        {
            std::size_t j = r.below(R.size()); int id = R[j]; d += " end" + std::to_string(id);
            gates[(std::size_t)id].open(); R.erase(R.begin() + (long)j); D.push_back(id);
            { Borrow b(e, id); await([&] { return b.h->complete(); }); CHECK(e.recs[(std::size_t)id].ended, "complete-early", d << ": task " << id << " is reported as complete, but its function has not finished"); await([&] { return b.h->state() == TaskState::complete; }); }
            settle();
        }
        else if (what == 6 && !P.empty()) { std::size_t j = r.below(P.size()); int id = P[j]; d += " cancel" + std::to_string(id); Borrow b(e, id); b.h->cancel(); P.erase(P.begin() + (long)j); C_.push_back(id); }
        else if (what == 7) { d += " cancel_all"; e.pool->cancel_pending_tasks(); for (int id : P) C_.push_back(id); P.clear(); }
        look(true);
    }
    c.desc(d);
    for (auto& g : gates) g.open();
    e.pool->cancel_pending_tasks();
    await([&] { return e.pool->is_idle(); });
    for (int id : R) { Borrow b(e, id); CHECK(b.h->complete(), "idle-early", d); }
    perturb(0);
    e.pool.reset(); unwatch();
    c.count("exact_states_compared", steps); c.distinct(hash_str(d)); perturb_report(c);
    if (c.want_sample()) c.sample(d);
}
// An observer with high frequency: no task may be invisible, in both lists in the wrong order, or change
// its state backwards
GROUP("observer", 400, 4000)
{
    Rng& r = c.rng;
    std::size_t nt = 1 + r.below(4), n = 10 + r.below(40);
    Env e(nt, 200, n);
    perturb(r.chance(1, 5) ? 0 : r.next());
    watch("observer");
    std::vector<std::atomic<int>> added(n); for (auto& a : added) a = 0;
    std::atomic<int> over{ 0 };
    std::uint64_t seed = r.next();
    std::thread prod([&] {
        Rng q(seed);
        for (std::size_t i = 0; i < n; ++i) { Rec& t = *e.fresh(); t.body = (int)q.below(n_bodies); t.way = (int)w_name; unsigned busy = q.chance(1, 2) ? (unsigned)q.below(200) : 0; t.action = [busy](Rec&) { if (busy) nap_us(busy); }; add(e, t); added[i] = 1; if (q.chance(1, 3)) nap_us((unsigned)q.below(150)); }
        over = 1;
    });
    std::vector<int> seen_running(n, 0), seen_gone(n, 0); std::vector<int> last(n, 0); std::uint64_t looks = 0;
    for (;;)
    {
        bool fin = over;
        std::vector<int> before(n), begun(n); for (std::size_t i = 0; i < n; ++i) { before[i] = added[i]; }
        auto P = e.pool->get_pending_task_names(); auto R = e.pool->get_running_task_names();
        ++looks;
        std::set<int> ps, rs; int prev = -1;
        for (auto& s : P) { int id = e.id_of(s); CHECK(id > prev, "pending-order", "pending names are not in the order of addition"); prev = id; ps.insert(id); }
        for (auto& s : R) { int id = e.id_of(s); CHECK(rs.insert(id).second, "running-twice", "a task is listed twice as running"); }
        CHECK(R.size() <= nt, "too-many-running", R.size());
        for (std::size_t i = 0; i < n; ++i)
        {
            int id = (int)i;
            if (ps.count(id)) CHECK(!seen_running[i] && !seen_gone[i], "pending-again", "task " << id << " is pending again");
            if (rs.count(id)) { CHECK(!seen_gone[i], "running-again", "task " << id << " is running again"); seen_running[i] = 1; }
            if (before[i] && !ps.count(id) && !rs.count(id)) { CHECK(e.recs[i].ended, "invisible", "task " << id << " is neither pending nor running, but has not ended"); seen_gone[i] = 1; }
        }
        // idle?
        for (std::size_t i = 0; i < n; ++i) before[i] = added[i];
        if (e.pool->is_idle()) for (std::size_t i = 0; i < n; ++i) if (before[i]) CHECK(e.recs[i].ended, "idle-too-early", "the pool is idle, but task " << i << " has not ended");
        // states
        std::size_t k = r.below(n);
        if (added[k])
        {
            Borrow b(e, (int)k); int was_begun = e.recs[k].begun;
            auto s = b.h->state(); int rank = s == TaskState::pending ? 0 : s == TaskState::running ? 1 : s == TaskState::complete ? 2 : 9;
            CHECK(rank != 9, "canceled", "task " << k << " is reported as canceled");
            CHECK(rank >= last[k], "backwards", "the state of task " << k << " moved backwards: " << last[k] << " to " << rank); last[k] = rank;
            if (was_begun) CHECK(rank >= 1, "pending-although-begun", "task " << k);
            if (rank == 2) { CHECK(e.recs[k].ended, "complete-early", "task " << k); CHECK(b.h->complete(), "complete-not-complete", "task " << k); }
            if (b.h->complete()) { CHECK(e.recs[k].ended, "is_complete-early", "task " << k); if (r.chance(1, 4)) { auto x = b.h->result(e.recs[k]); if (x != "ok" && x != "logic_error") VIOL("result", x); } }
        }
        if (fin && seen_gone == std::vector<int>(n, 1)) break;
    }
    prod.join();
    perturb(0);
    e.pool.reset(); unwatch();
    c.eval(looks); c.count("observations", looks); c.distinct(interleaving(e)); perturb_report(c);
}
// The result is being stored (its move constructor is stopped): the task must not yet be reported as complete
struct Slow
{
    struct Ctl { std::atomic<int> armed{ 0 }, paused{ 0 }, released{ 0 }; };
    Ctl* ctl; int v;
    Slow(Ctl* k, int x) : ctl(k), v(x) {}
    Slow(Slow&& o) noexcept : ctl(o.ctl), v(o.v) { o.v = -1; if (ctl && ctl->armed) { int mine = ++ctl->paused; while (ctl->armed && ctl->released < mine) nap_us(20); } }
    Slow& operator=(Slow&&) = delete;
};
GROUP("slow-result", 150, 1500)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 2) ? 0 : r.next(), false);
    watch("slow result");
    auto pool = gul14::make_thread_pool(1 + r.below(3));
    Slow::Ctl ctl; std::atomic<int> done{ 0 };
    bool with_pool = r.chance(1, 2);
    ThreadPool::TaskHandle<Slow> h = with_pool ? pool->add_task([&](ThreadPool&) { ctl.armed = 1; done = 1; return Slow(&ctl, 42); }, "slow") : pool->add_task([&] { ctl.armed = 1; done = 1; return Slow(&ctl, 42); });
    await([&] { return done == 1; });
    std::uint64_t stops = 0;
    // while a constructor of the result is stopped, the result cannot be available
    for (;;)
    {
        int p = ctl.paused;
        if (p > ctl.released)
        {
            CHECK(!h.is_complete(), "complete-without-result", "is_complete() is true while the result is still being stored");
            auto s = h.get_state();
            CHECK(s == TaskState::running, "state-without-result", "state " << (int)s << " while the result is still being stored");
            CHECK(!pool->is_idle(), "idle-without-result", "");
            ctl.released = p; ++stops;
        }
        else if (h.is_complete()) break;
        else nap_us(20);
    }
    ctl.armed = 0;
    CHECK(h.get_result().v == 42, "slow-result", "");
    CHECK(h.is_complete(), "complete-after-result", "is_complete() is false after the result was fetched");
    perturb(0);
    pool.reset(); unwatch();
    c.eval(stops + 1); c.count("stops_while_storing_results", stops); c.distinct(hash_mix(c.idx, stops)); perturb_report(c);
}
