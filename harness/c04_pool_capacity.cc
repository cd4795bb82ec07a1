// C04: capacity of the queue and limits of the arguments
#include "pool.h"
#include <sys/wait.h>
using namespace vm;

// All workers are busy: exactly 'capacity' additions succeed, whoever makes them
GROUP("fill", 800, 8000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 4) ? 0 : r.next());
    watch("filling the queue");
    static const std::size_t caps[] = { 1, 1, 2, 3, 4, 7, 16, 31, 200 };
    std::size_t nt = 1 + r.below(4), cap = r.pick(caps), prod = 1 + r.below(5);
    Env e(nt, cap, 3000);
    Gate g;
    for (std::size_t i = 0; i < nt; ++i)
    {
        Rec& t = *e.fresh(); t.way = w_name; t.action = [&g](Rec&) { g.pass(); };
        CHECK(add(e, t), "rejected", "a task was rejected by an empty queue of capacity " << cap);
        await([&] { return g.waiting == (int)(i + 1); });
    }
    c.desc(std::to_string(nt) + " threads, capacity " + std::to_string(cap) + ", " + std::to_string(prod) + " producers");
    CHECK(e.pool->capacity() == cap && e.pool->count_threads() == nt, "reported", e.pool->capacity() << " " << e.pool->count_threads());
    CHECK(!e.pool->is_full() && e.pool->count_pending() == 0, "not-full", "");
    std::size_t room = cap;
    int rounds = 1 + (int)r.below(4);
    std::vector<int> pend;
    for (int k = 0; k < rounds; ++k)
    {
        std::size_t tries = room + 1 + r.below(8), per = tries / prod + 1;
        std::atomic<std::size_t> ok{ 0 }, rej{ 0 }, exceeded{ 0 };
        std::uint64_t seed = r.next(); std::vector<std::thread> ts; std::mutex mm; std::vector<int> added;
        for (std::size_t p = 0; p < prod; ++p)
            ts.emplace_back([&, p] {
                Rng q(mix(seed + p));
                for (std::size_t i = 0; i < per; ++i)
                {
                    Rec* t = e.fresh(); if (!t) return;
                    t->body = (int)q.below(n_bodies); t->way = (int)q.below(n_ways); t->when = (int)q.below(n_whens);
                    if (add(e, *t)) { ++ok; std::lock_guard<std::mutex> l(mm); added.push_back(t->id); } else ++rej;
                    if (e.pool->count_pending() > cap) ++exceeded;
                }
            });
        for (auto& t : ts) t.join();
        CHECK(ok == std::min(room, per * prod), "accepted-number", ok << " of " << per * prod << " additions were accepted although there was room for " << room);
        CHECK(!exceeded, "exceeded", "more pending tasks than the capacity");
        for (int id : added) pend.push_back(id);
        room -= ok;
        CHECK(e.pool->count_pending() == cap - room && e.pool->is_full() == (room == 0), "pending", e.pool->count_pending() << " pending, is_full " << e.pool->is_full());
        CHECK(e.pool->get_pending_task_names().size() == cap - room, "pending-names", "");
        if (room == 0)
        {
            // a rejected addition leaves everything as it was
            auto names = e.pool->get_pending_task_names(), run = e.pool->get_running_task_names();
            Rec* t = e.fresh(); t->way = (int)r.below(n_ways); t->body = (int)r.below(n_bodies); t->when = (int)r.below(n_whens);
            CHECK(!add(e, *t), "not-rejected", "an addition to a full queue was accepted");
            CHECK(names == e.pool->get_pending_task_names() && run == e.pool->get_running_task_names() && e.pool->is_full(), "changed", "a rejected addition has changed the queue");
            bool type_ok = false; try { e.pool->add_task([] {}); } catch (const std::runtime_error&) { type_ok = true; } CHECK(type_ok, "exception-type", "");
        }
        // make room
        int how = (int)r.below(3);
        if (how == 0) { std::size_t n = e.pool->cancel_pending_tasks(); CHECK(n == cap - room, "cancel-all", n); room = cap; pend.clear(); }
        else { std::size_t n = r.below(pend.size() + 1); for (std::size_t i = 0; i < n; ++i) { std::size_t j = r.below(pend.size()); int id = pend[j]; pend.erase(pend.begin() + (long)j); Borrow b(e, id); CHECK(b.h->cancel(), "cancel", "task " << id); ++room; CHECK(!e.pool->is_full(), "full-after-cancel", ""); } }
        CHECK(e.pool->count_pending() == cap - room && e.pool->is_full() == (room == 0), "pending-after-cancel", e.pool->count_pending());
        c.eval(per * prod); c.count("additions_accepted", ok); c.count("additions_rejected", rej);
    }
    // tasks that have started do not count any more
    e.pool->cancel_pending_tasks();
    g.open();
    await([&] { return e.pool->is_idle(); });
    for (std::size_t i = 0; i < std::min<std::size_t>(cap, 50); ++i) { Rec* t = e.fresh(); t->way = w_name; CHECK(add(e, *t), "rejected-later", "addition " << i << " was rejected"); }
    await([&] { return e.pool->is_idle(); });
    perturb(0);
    for (auto& t : e.recs) if (!t.accepted && t.id >= 0) CHECK(!t.begun, "rejected-executed", "task " << t.id);
    e.pool.reset();
    unwatch();
    c.distinct(hash_mix(hash_mix(nt, cap), r.next())); perturb_report(c);
    if (c.want_sample()) c.sample(G().desc);
}
// Workers take tasks while others are added: no answer may contradict the capacity
GROUP("history", 2500, 30000)
{
    Rng& r = c.rng;
    std::size_t nt = 1 + r.below(3), cap = 1 + r.below(3), prod = 1 + r.below(3);
    Env e(nt, cap, 40);
    perturb(r.chance(1, 6) ? 0 : r.next());
    watch("history");
    Mix m{ { 12, 3, 1, 3, 3, 0, 0, 0, 0, 0, 0, 0 }, 5, 3, 10, 100 };
    Stress s(c, e, m, 3 + r.below(6), 18);
    s.run(prod); s.quiesce();
    perturb(0);
    c.desc(describe(e));
    lin_check(c, e, "capacity-history");
    std::size_t acc = 0, rej = 0; for (auto& x : e.log) if (x.op == o_add) ++(x.val ? acc : rej);
    e.pool.reset();
    unwatch();
    c.eval(e.log.size()); c.count("additions_accepted", acc); c.count("additions_rejected", rej);
    c.distinct(interleaving(e)); perturb_report(c);
    if (c.want_sample()) c.sample(describe(e, 20));
}
template <typename F> static std::string outcome(F f)
{
    try { f(); return "ok"; } catch (const std::invalid_argument&) { return "invalid_argument"; } catch (const std::exception& e) { return std::string("other exception: ") + e.what(); }
}
GROUP("limits", 1, 1)
{
    perturb(0);
    auto mk = [](std::size_t n, std::size_t cap) { return outcome([&] { auto p = gul14::make_thread_pool(n, cap); if (p->count_threads() != n || p->capacity() != cap) throw std::runtime_error("wrong numbers"); p->add_task([] { return 1; }).get_result(); }); };
    const std::size_t big = ~std::size_t(0);
    CHECK(gul14::ThreadPool::max_threads == 10000 && gul14::ThreadPool::max_capacity == 10000000 && gul14::ThreadPool::default_capacity == 200, "constants", "");
    for (std::size_t n : { std::size_t(0), std::size_t(10001), std::size_t(10002), std::size_t(20000), std::size_t(65536), std::size_t(65537), std::size_t(1) << 32, (std::size_t(1) << 32) + 1, big, big - 1, big / 2 + 2 })
        for (std::size_t cap : { std::size_t(1), std::size_t(200), std::size_t(10000000) })
        { auto o = mk(n, cap); CHECK(o == "invalid_argument", "threads", n << " threads, capacity " << cap << ": " << o); c.eval(); }
    for (std::size_t cap : { std::size_t(0), std::size_t(10000001), std::size_t(10000002), std::size_t(1) << 31, std::size_t(1) << 32, (std::size_t(1) << 32) + 1, big, big - 1, big / 2 + 2 })
        for (std::size_t n : { std::size_t(1), std::size_t(2) })
        { auto o = mk(n, cap); CHECK(o == "invalid_argument", "capacity", n << " threads, capacity " << cap << ": " << o); c.eval(); }
    for (std::size_t n : { 1, 2, 3, 7, 16, 40 })
        for (std::size_t cap : { 1, 2, 199, 200, 201, 9999999, 10000000 })
        { auto o = mk(n, cap); CHECK(o == "ok", "accepted", n << " threads, capacity " << cap << ": " << o); c.eval(); c.distinct(n * 100000000 + cap); }
    { auto p = gul14::make_thread_pool(2); CHECK(p->capacity() == 200, "default-capacity", p->capacity()); auto q = ThreadPool::make_shared(3); CHECK(q->capacity() == 200 && q->count_threads() == 3, "default-capacity", ""); }
    // The largest number of threads, in a process of its own: not conclusive where the system does not permit it
#if !defined(__SANITIZE_THREAD__) && !defined(__SANITIZE_ADDRESS__)
    pid_t pid = ::fork();
    if (pid == 0)
    {
        ::alarm(60);
        int rc = 3;
        try { auto p = gul14::make_thread_pool(10000, 5); rc = p->count_threads() == 10000 ? 0 : 4; ::_exit(rc); } catch (const std::invalid_argument&) { rc = 5; } catch (...) {}
        ::_exit(rc);
    }
    int st = 0;
    if (pid > 0 && ::waitpid(pid, &st, 0) == pid && WIFEXITED(st))
    {
        CHECK(WEXITSTATUS(st) != 5 && WEXITSTATUS(st) != 4, "max-threads", "10000 threads are not accepted");
        c.count(WEXITSTATUS(st) == 0 ? "pools_with_10000_threads" : "max_threads_not_conclusive");
    }
    else c.count("max_threads_not_conclusive");
#endif
}
// A queue of large capacity
GROUP("large", 2, 20)
{
    Rng& r = c.rng;
    perturb(0);
    watch("large queue", 60);
    std::size_t cap = (std::size_t)r.range(1000, 5000);
    auto pool = gul14::make_thread_pool(1, cap);
    Gate g; auto h = pool->add_task([&g] { g.pass(); });
    await([&] { return g.waiting == 1; });
    std::atomic<std::size_t> ran{ 0 };
    for (std::size_t i = 0; i < cap; ++i) { CHECK(!pool->is_full(), "full-early", i << " of " << cap); pool->add_task([&ran] { ++ran; }); }
    CHECK(pool->is_full() && pool->count_pending() == cap, "full", pool->count_pending());
    int thrown = 0;
    for (int i = 0; i < 3; ++i) try { pool->add_task([&ran] { ++ran; }, Ms(1)); } catch (const std::runtime_error&) { ++thrown; }
    CHECK(thrown == 3, "not-rejected", thrown);
    g.open();
    await([&] { return pool->is_idle(); });
    CHECK(ran == cap, "lost", ran << " of " << cap);
    pool.reset(); unwatch();
    c.eval(cap); c.distinct(cap);
}
