// C03: scheduled tasks begin neither before their time nor are they forgotten
#include "pool.h"
using namespace vm;

// start times whose distance overflows 32-bit counters of µs, ms, s, or cannot be added to
static Sys::time_point very_far(Rng& r)
{
    const auto now = Sys::now();
    switch (r.below(8))
    {
    case 0: return now + std::chrono::minutes(36 + r.below(300));
    case 1: return now + std::chrono::hours(24 * (25 + r.below(30)));
    case 2: return now + std::chrono::hours(24 * 400);
    case 3: return now + std::chrono::hours(24 * 365 * (69 + r.below(10)));
    case 4: return now + std::chrono::hours(24 * 365 * 140);
    case 5: return Sys::time_point::max() - std::chrono::hours(24);
    case 6: return Sys::time_point(std::chrono::hours(24 * 365 * 80));
    default: return Sys::time_point::max();
    }
}

// A script of additions and cancellations with start times; nothing else is done to the pool
// afterwards, and every task must begin by itself, not before its time.
static void script(Case& c, bool idle_before)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 4) ? 0 : r.next());
    watch("starting all scheduled tasks", 30);
    std::size_t nt = 1 + r.below(4), n = 1 + r.below(10);
    auto pool = gul14::make_thread_pool(nt);
    struct T { Sys::time_point not_before; std::atomic<long long> began{ 0 }; bool canceled = false, far = false; ThreadPool::TaskHandle<void> h; };
    std::deque<T> ts(n);
    std::string d = std::to_string(nt) + " threads:";
    // workers: fresh, idle, busy or waiting for a far or near task
    Gate g; ThreadPool::TaskHandle<void> extra[3];
    int before = idle_before ? (int)r.below(5) : 0;
    if (before == 1) nap_us(1500);
    if (before == 2) { extra[0] = pool->add_task([] {}, std::chrono::hours(2)); nap_us(1000); d += " (waiting for a far task)"; }
    if (before == 3) { for (std::size_t i = 0; i < nt; ++i) pool->add_task([&g] { g.pass(); }); await([&] { return g.waiting == (int)nt; }); d += " (all busy)"; }
    if (before == 4) { extra[0] = pool->add_task([] {}, std::chrono::milliseconds(8)); extra[1] = pool->add_task([] {}, std::chrono::hours(1)); nap_us(1000); d += " (waiting for a near task)"; }
    for (std::size_t i = 0; i < n; ++i)
    {
        T& t = ts[i];
        auto f = [&t] { t.began = Sys::now().time_since_epoch().count(); };
        auto fp = [&t](ThreadPool&) { t.began = Sys::now().time_since_epoch().count(); };
        int kind = (int)r.below(8);
        auto us = r.range(0, 12000);
        if (r.chance(1, 4)) us = r.range(0, 300);
        switch (kind)
        {
        case 0:
            if (r.chance(1, 2)) { t.not_before = Sys::time_point{}; t.h = pool->add_task(f); d += " now"; }
            else
            {
                const int k = (int)r.below(4);
                t.not_before = k == 0 ? Sys::time_point(-std::chrono::hours(24 * 365 * 200)) : k == 1 ? Sys::time_point(std::chrono::seconds(-1)) : k == 2 ? Sys::now() - std::chrono::hours(24 * 365 * 60) : Sys::now() - Us(us);
                t.h = pool->add_task(f, t.not_before); d += " past";
            }
            break;
        case 1: case 2: t.not_before = Sys::now() + Us(us); t.h = pool->add_task(f, Us(us)); d += " +" + std::to_string(us); break;
        case 3: t.not_before = Sys::now() + Us(us); t.h = pool->add_task(fp, t.not_before, "x"); d += " @" + std::to_string(us); break;
        case 4: t.not_before = Sys::now() + Us(us); t.h = pool->add_task(f, t.not_before); d += " @" + std::to_string(us); break;
        case 5: t.far = true; t.not_before = Sys::now() + std::chrono::hours(1); t.h = pool->add_task(fp, std::chrono::hours(1), "far"); d += " far"; break;
        case 6: t.far = true; t.not_before = very_far(r); t.h = pool->add_task(f, t.not_before, "very far"); d += " veryfar"; break;
        default: t.not_before = Sys::now() + Us(us / 4); t.h = pool->add_task(fp, Us(us / 4), "y"); d += " +" + std::to_string(us / 4);
        }
        if (r.chance(1, 6)) { std::size_t k = r.below(i + 1); if (!ts[k].canceled) { ts[k].canceled = ts[k].h.cancel(); if (ts[k].canceled) d += " cancel" + std::to_string(k); } }
        if (r.chance(1, 25)) { std::size_t k = pool->cancel_pending_tasks(); (void)k; d += " cancel_all"; for (std::size_t j = 0; j <= i; ++j) if (!ts[j].canceled && ts[j].h.get_state() == TaskState::canceled) ts[j].canceled = true; }
        if (r.chance(1, 4)) { nap_us((unsigned)r.below(3000)); d += " ~"; }
    }
    c.desc(d);
    g.open();
    // No activity on the pool from here: only the tasks themselves are observed
    auto all = [&] { for (auto& t : ts) if (!t.far && !t.canceled && !t.began) return false; return true; };
    auto due = Sys::now(); for (auto& t : ts) if (!t.far) due = std::max(due, t.not_before);
    auto limit = due + std::chrono::seconds(15);
    while (!all()) { if (Sys::now() > limit) { std::size_t k = 0; while (ts[k].far || ts[k].canceled || ts[k].began) ++k; VIOL("forgotten", "task " << k << " has not been started 15 s after its start time"); } nap_us(100); }
    if (r.chance(1, 10)) nap_us(2000);
    std::size_t started = 0;
    for (std::size_t i = 0; i < n; ++i)
    {
        T& t = ts[i];
        if (t.far) CHECK(!t.began, "too-early", "task " << i << " of the far future was started");
        if (t.began) { ++started; long long nb = t.not_before.time_since_epoch().count(); CHECK(t.began >= nb, "too-early", "task " << i << " began " << (nb - t.began) << " ns before its start time"); auto& mx = G().counters["max_start_delay_us"]; if (t.not_before != Sys::time_point{}) mx = std::max<std::uint64_t>(mx, (std::uint64_t)((t.began - nb) / 1000)); }
    }
    perturb(0);
    pool.reset();
    for (std::size_t i = 0; i < n; ++i) if (ts[i].far) CHECK(!ts[i].began, "too-early", "task " << i << " of the far future was started at destruction");
    unwatch();
    c.eval(n); c.count("scheduled_tasks_started", started); c.distinct(hash_str(d)); perturb_report(c);
    if (c.want_sample()) c.sample(d);
}
GROUP("scripts", 1200, 12000) { script(c, true); }
// Additions from several threads and from tasks; each task notes whether it came too early
GROUP("concurrent", 300, 3000)
{
    Rng& r = c.rng;
    std::size_t nt = 1 + r.below(5), prod = 1 + r.below(4), per = 3 + r.below(8);
    Env e(nt, 500, prod * per * 3);
    perturb(r.chance(1, 4) ? 0 : r.next());
    watch("starting all scheduled tasks", 40);
    Mix m{ { 10, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 }, 60, 10, 30, 50 };
    Stress s(c, e, m, per, (int)(prod * per * 2));
    s.run(prod); s.quiesce();
    perturb(0);
    c.desc(describe(e));
    std::size_t ran = 0;
    for (auto& t : e.recs) if (t.begun) { ++ran; CHECK(t.began_at >= t.earliest, "too-early", "task " << t.id << " began too early"); CHECK(t.when != later_far, "too-early", "far task was started"); }
    e.pool.reset();
    unwatch();
    c.eval(ran); c.count("scheduled_tasks_started", ran); c.distinct(interleaving(e)); perturb_report(c);
}
// A worker waits for a start time; an earlier task is added, at decreasing start times: each one must be
// started at its time although the previous ones are still waiting
GROUP("earlier-and-earlier", 250, 2500)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 3) ? 0 : r.next());
    watch("starting the earlier task", 30);
    std::size_t nt = 1 + r.below(3);
    auto pool = gul14::make_thread_pool(nt);
    std::atomic<int> began[4]; for (auto& b : began) b = 0;
    std::string d = std::to_string(nt) + " threads:";
    auto t0 = Sys::now();
    ThreadPool::TaskHandle<void> h[4];
    long long at[4] = { 3600000000ll, r.range(1000000000, 2000000000), r.range(4000, 9000), r.range(0, 3000) };
    bool by_delay = r.chance(1, 2), cancel_far = r.chance(1, 3);
    for (int i = 0; i < 4; ++i)
    {
        auto f = [&began, i] { began[i] = 1; };
        h[i] = by_delay ? pool->add_task(f, Us(at[i])) : pool->add_task(f, t0 + Us(at[i]));
        d += " " + std::to_string(at[i]);
        if (r.chance(1, 2)) { nap_us((unsigned)r.below(2500)); d += "~"; }
        if (cancel_far && i == 2) { h[0].cancel(); d += " cancel0"; }
    }
    c.desc(d);
    auto start = std::chrono::steady_clock::now();
    while (!began[2] || !began[3]) { if (std::chrono::steady_clock::now() - start > std::chrono::seconds(15)) VIOL("forgotten", "started: " << began[0] << began[1] << began[2] << began[3]); nap_us(100); }
    CHECK(!began[0] && !began[1], "too-early", "far task started");
    perturb(0);
    pool.reset();
    unwatch();
    c.eval(4); c.distinct(hash_str(d)); perturb_report(c);
}

// Timeliness: scripts of additions and cancellations at given moments, judged by a simulation of the pool.
// A start that is much later than simulated only counts if a control thread was on time meanwhile, and only
// if it happens again and again with the same script.
namespace {
struct Step { int at; int kind; int due; int dur; int victim; }; // ms; kind 0: add, 1: cancel
struct Script { std::size_t threads; std::vector<Step> steps; std::string text; };
Script make_script(Rng& r)
{
    Script s; s.threads = 1 + r.below(3);
    std::ostringstream o; o << s.threads << " threads:";
    int at = 0; std::size_t n = 2 + r.below(7), added = 0;
    for (std::size_t i = 0; i < n; ++i)
    {
        if (r.chance(1, 2)) at += (int)r.range(0, 150);
        if (added > 0 && r.chance(1, 6)) { int k = (int)r.below(added); s.steps.push_back({ at, 1, 0, 0, k }); o << " @" << at << " cancel " << k; continue; }
        int due;
        switch (r.below(6)) { case 0: due = -1; break; case 1: due = at - (int)r.range(0, 100); break; case 2: due = 3600000; break; default: due = at + (int)r.range(0, 1300); }
        int dur = r.chance(1, 3) ? (int)r.range(1, 20) : 0;
        s.steps.push_back({ at, 0, due, dur, 0 }); o << " @" << at << " add " << due; if (dur) o << " lasting " << dur;
        ++added;
    }
    s.text = o.str();
    return s;
}
// Start times of the tasks (ms; -1: never) in an ideal pool
std::vector<int> simulate(const Script& s)
{
    struct Q { int id, due, dur; };
    std::vector<Q> queue; std::vector<int> start, busy(s.threads, 0); std::vector<Step> adds;
    std::size_t k = 0;
    for (int t = 0; t < 2500; ++t)
    {
        for (; k < s.steps.size() && s.steps[k].at <= t; ++k)
        {
            auto& e = s.steps[k];
            if (e.kind == 0) { queue.push_back({ (int)start.size(), e.due, e.dur }); start.push_back(-1); }
            else queue.erase(std::remove_if(queue.begin(), queue.end(), [&](const Q& q) { return q.id == e.victim; }), queue.end());
        }
        for (auto& b : busy)
            if (b <= t)
            {
                auto it = std::find_if(queue.begin(), queue.end(), [&](const Q& q) { return q.due <= t; });
                if (it == queue.end()) break;
                start[it->id] = t; b = t + it->dur; queue.erase(it);
            }
    }
    return start;
}
struct Attempt
{
    const Script* s; std::deque<std::atomic<long long>> began; std::shared_ptr<ThreadPool> pool; std::thread driver; std::string late;
    void run(Sys::time_point base)
    {
        std::size_t n = 0; for (auto& e : s->steps) n += e.kind == 0;
        for (std::size_t i = 0; i < n; ++i) began.emplace_back(0);
        pool = gul14::make_thread_pool(s->threads);
        driver = std::thread([this, base]
        {
            std::vector<ThreadPool::TaskHandle<void>> h;
            for (auto& e : s->steps)
            {
                for (;;) { auto left = std::chrono::duration_cast<Us>(base + Ms(e.at) - Sys::now()).count(); if (left <= 0) break; nap_us((unsigned)std::min<long long>(left, 900000)); }
                if (e.kind == 1) { h[e.victim].cancel(); continue; }
                auto* b = &began[h.size()]; unsigned us = (unsigned)e.dur * 1000;
                auto f = [b, us] { *b = Sys::now().time_since_epoch().count(); if (us) nap_us(us); };
                h.push_back(e.due < 0 ? pool->add_task(f) : pool->add_task(f, base + Ms(e.due)));
            }
        });
    }
};
}
GROUP("timely", 12, 60)
{
    Rng& r = c.rng;
    perturb(0);
    std::vector<Script> scripts; for (int i = 0; i < 24; ++i) scripts.push_back(make_script(r));
    std::vector<std::vector<int>> want; for (auto& s : scripts) { want.push_back(simulate(s)); c.distinct(hash_str(s.text)); }
    std::vector<std::size_t> todo; for (std::size_t i = 0; i < scripts.size(); ++i) todo.push_back(i);
    std::vector<int> late_in(scripts.size(), 0); std::vector<std::string> how(scripts.size());
    std::vector<Sys::duration> phase(scripts.size()); for (auto& p : phase) p = Ms(r.range(0, 999));
    bool aligned = r.chance(1, 2);
    c.desc(scripts[0].text);
    for (int attempt = 0; attempt < 30 && !todo.empty(); ++attempt)
    {
        watch("starting the tasks of a script", 60);
        std::atomic<bool> stop{ false }; std::atomic<long long> worst{ 0 };
        std::thread control([&] { while (!stop) { auto a = std::chrono::steady_clock::now(); nap_us(3000); auto d = std::chrono::duration_cast<Us>(std::chrono::steady_clock::now() - a).count(); if (d > worst) worst = d; } });
        std::deque<Attempt> as;
        auto sec = std::chrono::time_point_cast<std::chrono::seconds>(Sys::now()) + std::chrono::seconds(1);
        auto first = Sys::now() + Ms(20);
        std::vector<Sys::time_point> bases;
        for (auto i : todo)
        {
            as.emplace_back(); as.back().s = &scripts[i];
            auto b = aligned ? Sys::time_point(sec) + Ms(5) : first + phase[i] / 3;
            bases.push_back(b); as.back().run(b);
        }
        auto end = *std::max_element(bases.begin(), bases.end()) + Ms(2500);
        while (Sys::now() < end) nap_us(5000);
        stop = true; control.join();
        for (auto& a : as) a.driver.join();
        bool fair = worst < 60000; // the machine had time for us
        std::vector<std::size_t> again;
        for (std::size_t k = 0; k < todo.size(); ++k)
        {
            auto i = todo[k]; std::ostringstream o; int t = 0; bool late = false;
            for (auto& b : as[k].began)
            {
                int w = want[i][t];
                if (w >= 0)
                {
                    long long d = b == 0 ? 1000000 : (b - (bases[k] + Ms(w)).time_since_epoch().count()) / 1000000;
                    if (d > 300) { late = true; o << " task " << t << " should start at " << w << " ms and " << (b ? "started " + std::to_string(d) + " ms later" : std::string("did not start")) << ";"; }
                }
                ++t;
            }
            if (!late) { c.eval(want[i].size()); c.count("timely_scripts"); continue; }
            if (fair) { ++late_in[i]; how[i] = o.str(); }
            if (late_in[i] >= 5) { c.desc(scripts[i].text); VIOL("late", "in 5 of " << attempt + 1 << " runs of the same script:" << how[i]); }
            again.push_back(i);
        }
        for (auto& a : as) a.pool.reset();
        unwatch();
        if (!fair) c.count("timely_unfair_runs");
        todo.swap(again);
        c.count("timely_repeated", todo.size());
    }
    c.count("timely_undecided", todo.size());
    if (c.want_sample()) c.sample(scripts[0].text);
}
