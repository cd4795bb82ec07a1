// C02: due tasks are started in the order of addition, N at a time
#include "pool.h"
using namespace vm;

static bool within(double seconds, const std::function<bool()>& p)
{
    auto t0 = std::chrono::steady_clock::now();
    while (!p()) { if (std::chrono::steady_clock::now() - t0 > std::chrono::duration<double>(seconds)) return p(); nap_us(30); }
    return true;
}
// One thread: while it is busy, tasks with all kinds of start times are added; once all of these have
// passed, the tasks must run exactly in the order of addition. Tasks of the far future stay.
GROUP("serial", 700, 8000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 4) ? 0 : r.next());
    watch("serial execution");
    std::size_t n = 2 + r.below(25);
    Env e(1, 200, n + 1);
    Gate g;
    Rec& block = *e.fresh(); block.way = w_name; block.action = [&g](Rec&) { g.pass(); };
    add(e, block);
    await([&] { return g.waiting > 0; });
    std::string d = "1 thread:";
    Sys::time_point latest = Sys::now();
    std::vector<int> expected;
    for (std::size_t i = 0; i < n; ++i)
    {
        Rec& t = *e.fresh();
        t.body = (int)r.below(n_bodies); t.way = (int)r.below(n_ways); t.when = (int)r.below(n_whens);
        if (t.when == later_far && r.chance(1, 2)) t.when = now_;
        add(e, t);
        if (t.when != later_far) { expected.push_back(t.id); latest = std::max(latest, std::max(t.earliest, Sys::now() + (t.when == soon ? Us(100 + 150 * 12) : Us(0)))); } // a delay counts from some moment during the call
        d += " " + std::to_string(t.id) + (t.when == soon ? "(soon)" : t.when == later_far ? "(far)" : t.when == past ? "(past)" : t.when == zero_delay ? "(0)" : t.when == neg_delay ? "(<0)" : "");
        if (r.chance(1, 8) && !expected.empty()) // cancelling must not change the order of the others
        {
            std::size_t k = r.below(expected.size()); int id = expected[k];
            do_cancel(e, id); expected.erase(expected.begin() + (long)k); d += " cancel(" + std::to_string(id) + ")";
        }
    }
    c.desc(d);
    await([&] { return Sys::now() > latest; });
    g.open();
    await([&] { for (int id : expected) if (!e.recs[(std::size_t)id].ended) return false; return true; });
    perturb(0);
    std::vector<std::pair<std::uint64_t, int>> got;
    e.pool.reset();
    std::uint64_t last_end = 0;
    for (auto& t : e.recs) if (t.id > 0 && t.begun) got.push_back({ t.t_begin, t.id });
    std::sort(got.begin(), got.end());
    std::vector<int> ids; for (auto& p : got) { ids.push_back(p.second); auto& t = e.recs[(std::size_t)p.second]; CHECK(t.t_begin > last_end, "serial-overlap", "task " << t.id << " began before its predecessor had ended"); last_end = t.t_end; }
    if (ids != expected) { std::string s; for (int i : ids) s += " " + std::to_string(i); VIOL("serial-order", "executed in the order" << s); }
    unwatch();
    c.eval(n); c.count("tasks_executed", ids.size()); c.distinct(hash_str(d)); perturb_report(c);
    if (c.want_sample()) c.sample(d);
}
// N threads: when a task begins, no due task that was added before it may still be pending; never more
// than N at a time
GROUP("parallel-order", 700, 8000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 4) ? 0 : r.next());
    watch("parallel execution");
    std::size_t nt = 1 + r.below(6), n = 5 + r.below(40);
    Env e(nt, 200, n);
    std::atomic<int> bad{ -1 }, bad_other{ -1 };
    std::atomic<int> over{ 0 };
    bool gated = r.chance(1, 2);
    Gate g;
    std::atomic<std::uint64_t> snapshots{ 0 };
    for (std::size_t i = 0; i < n; ++i)
    {
        Rec& t = *e.fresh();
        t.body = (int)r.below(n_bodies); t.way = r.chance(1, 4) ? (int)w_time_name : r.chance(1, 4) ? (int)w_delay_name : (int)w_name;
        t.when = r.chance(1, 6) ? (int)soon : (int)r.below(4);
        bool look = r.chance(1, 2); unsigned busy = r.chance(1, 2) ? (unsigned)r.below(150) : 0;
        bool block = gated && i < nt;
        t.action = [&, look, busy, block](Rec& self) {
            if (e.active > (int)nt) ++over;
            if (look) { ++snapshots; for (auto& nm : e.pool->get_pending_task_names()) { int o = e.id_of(nm); if (o >= 0 && o < self.id && e.recs[(std::size_t)o].definitely_due()) { bad_other = o; bad = self.id; } } }
            if (block) g.pass();
            if (busy) nap_us(busy);
        };
        add(e, t);
        if (r.chance(1, 10)) nap_us((unsigned)r.below(200));
    }
    g.open();
    await([&] { for (auto& t : e.recs) if (t.id >= 0 && !t.ended) return false; return true; });
    perturb(0);
    c.desc(describe(e, 60));
    if (bad >= 0) VIOL("parallel-order", "task " << bad << " was started while the due task " << bad_other << ", added before it, was still pending");
    if (e.max_active > (int)nt || over) VIOL("too-many", e.max_active << " tasks at a time in a pool with " << nt << " threads");
    lin_check(c, e, "order-history");
    e.pool.reset();
    unwatch();
    c.eval(n); c.count("tasks_executed", n); c.count("queue_snapshots", snapshots); c.count("max_active_tasks", 0);
    auto& m = G().counters["max_tasks_at_a_time"]; m = std::max<std::uint64_t>(m, (std::uint64_t)e.max_active.load());
    c.distinct(interleaving(e)); perturb_report(c);
}
// N tasks that wait for each other can only finish if N tasks are executed at the same time;
// whatever happened to the pool before
GROUP("all-threads", 500, 5000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 4) ? 0 : r.next());
    watch("N tasks at a time");
    std::size_t nt = 1 + r.below(8);
    Env e(nt, 200, 400);
    int rounds = 1 + (int)r.below(4);
    for (int k = 0; k < rounds; ++k)
    {
        // something happens before
        int what = (int)r.below(5);
        std::size_t pre = r.below(10);
        for (std::size_t i = 0; i < pre; ++i)
        {
            Rec& t = *e.fresh(); t.body = (int)r.below(n_bodies); t.way = (int)r.below(n_ways); t.when = what == 1 ? (int)later_far : what == 2 ? (int)soon : (int)now_;
            add(e, t);
            if (what == 3) do_cancel(e, t.id);
        }
        if (what == 4) do_bulk(e);
        if (r.chance(1, 2)) nap_us((unsigned)r.below(2000)); // maybe all are idle
        std::atomic<std::size_t> met{ 0 };
        std::vector<int> ids;
        bool with_time = r.chance(1, 3);
        std::size_t extra = r.below(4); // these have to wait
        std::atomic<int> release{ 0 };
        for (std::size_t i = 0; i < nt + extra; ++i)
        {
            Rec& t = *e.fresh(); t.body = (int)r.below(n_bodies); t.way = with_time ? (int)w_time_name : (int)w_name; t.when = with_time && r.chance(1, 2) ? (int)soon : (int)past;
            t.action = [&](Rec&) { ++met; while (!release) nap_us(30); };
            add(e, t); ids.push_back(t.id);
        }
        bool ok = within(30, [&] { return met >= nt; });
        if (!ok) VIOL("not-all-threads", "only " << met << " of " << nt << " tasks are executed at the same time (before: " << what << ", " << pre << " tasks); pending: " << [&] { std::string o; for (auto& nm : e.pool->get_pending_task_names()) { int q = e.id_of(nm); o += nm + (q >= 0 && e.recs[(std::size_t)q].definitely_due() ? " (due) " : " "); } return o; }() << "; threads in wait: " << threads_in_wait() << (with_time ? "; with start times" : ""));
        CHECK(met == nt, "too-many", met << " tasks are executed at the same time by " << nt << " threads");
        release = 1;
        await([&] { for (int id : ids) if (!e.recs[(std::size_t)id].ended) return false; return true; });
        c.distinct(hash_mix(hash_mix(nt, (std::uint64_t)what), hash_mix(pre, extra * 2 + with_time)));
    }
    perturb(0);
    CHECK(e.max_active <= (int)nt, "too-many", e.max_active);
    e.pool.reset();
    unwatch();
    c.eval((std::uint64_t)rounds); c.count("barriers_met", (std::uint64_t)rounds); perturb_report(c);
}
