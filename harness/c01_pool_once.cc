// C01: every accepted task runs exactly once, its result goes to its own handle
#include "pool.h"
using namespace vm;

static void judge(Case& c, Env& e, bool bulk, bool results)
{
    int n = std::min(e.next.load(), (int)e.recs.size());
    std::size_t executed = 0;
    for (int i = 0; i < n; ++i)
    {
        Rec& r = e.recs[(std::size_t)i];
        int b = r.begun, en = r.ended;
        if (b > 1) VIOL("executed-twice", "task " << i << " was executed " << b << " times: " << describe(e));
        if (!r.accepted) { if (b) VIOL("rejected-executed", "task " << i << " was executed although it was not accepted: " << describe(e)); continue; }
        if (!bulk && !r.handle_canceled && b != 1) VIOL("never-executed", "task " << i << " was not executed: " << describe(e));
        if (b != en) VIOL("not-ended", "task " << i << " is reported to have ended but is being executed");
        if (b && r.pool_seen && r.pool_seen != e.pool.get()) VIOL("pool-argument", "task " << i << " got a reference to another pool");
        bool wants_pool = r.body == b_int_pool || r.body == b_throw_pool || r.body == b_ref || r.body == b_vec_pool;
        if (b && wants_pool && !r.pool_seen) VIOL("pool-argument", "task got no pool");
        if (b) ++executed;
        if (b && results)
        {
            Borrow h(e, i);
            std::string res = h.h->result(r);
            if (res != "ok") VIOL("result", "result of task " << i << " (kind " << r.body << "): " << res << ": " << describe(e));
        }
    }
    c.eval(executed); c.count("tasks_executed", executed); c.count("tasks_offered", (std::uint64_t)n);
}
// Concurrent producers, tasks that add tasks, all kinds of functions and ways to add them
GROUP("stress", 2000, 12000)
{
    Rng& r = c.rng;
    std::size_t n = 1 + r.below(6), prod = 1 + r.below(4), per = 4 + r.below(16);
    static const std::size_t caps[] = { 1, 2, 3, 8, 200, 200, 200 };
    Env e(n, r.pick(caps), 120);
    bool bulk = r.chance(1, 8), cancels = r.chance(1, 3);
    Mix m{ { 10, cancels ? 3 : 0, bulk ? 1 : 0, 0, 0, 0, 0, 0, cancels ? 1 : 0, 0, 0, 0 }, 15, cancels ? 5 : 0, 40, 50 };
    perturb(r.chance(1, 6) ? 0 : r.next());
    watch("executing all tasks");
    {
        Stress s(c, e, m, per, 100);
        s.run(prod);
        s.quiesce();
    }
    perturb(0);
    c.desc("stress");
    judge(c, e, bulk, true);
    e.pool.reset();
    unwatch();
    c.distinct(interleaving(e)); perturb_report(c);
    if (c.want_sample()) c.sample(describe(e, 25));
}
// Results are fetched concurrently with the execution, by blocking
GROUP("blocking-results", 1200, 6000)
{
    Rng& r = c.rng;
    std::size_t n = 1 + r.below(5), prod = 1 + r.below(4), per = 3 + r.below(20);
    Env e(n, 200, prod * per);
    perturb(r.chance(1, 5) ? 0 : r.next());
    watch("get_result()");
    std::uint64_t seed = r.next();
    std::vector<std::thread> ts;
    std::vector<std::string> bad(prod);
    for (std::size_t k = 0; k < prod; ++k)
        ts.emplace_back([&, k] {
            Rng q(mix(seed + k));
            std::vector<int> mine;
            for (std::size_t i = 0; i < per; ++i)
            {
                Rec* t = e.fresh();
                t->body = (int)q.below(n_bodies); t->way = (int)q.below(n_ways); t->when = q.chance(1, 5) ? (int)soon : (int)q.below(4);
                unsigned busy = q.chance(1, 3) ? (unsigned)q.below(200) : 0;
                t->action = [busy](Rec&) { if (busy) nap_us(busy); };
                if (!add(e, *t)) bad[k] = "rejected";
                mine.push_back(t->id);
                if (q.chance(1, 3)) { std::size_t j = q.below(mine.size()); int id = mine[j]; mine.erase(mine.begin() + (long)j); Borrow b(e, id); auto s = b.h->result(e.recs[(std::size_t)id]); if (s != "ok") bad[k] = "task " + std::to_string(id) + ": " + s; }
            }
            for (int id : mine) { Borrow b(e, id); auto s = b.h->result(e.recs[(std::size_t)id]); if (s != "ok") bad[k] = "task " + std::to_string(id) + ": " + s; }
        });
    for (auto& t : ts) t.join();
    perturb(0);
    for (auto& b : bad) if (!b.empty()) VIOL("result", b << ": " << describe(e));
    judge(c, e, false, false);
    e.pool.reset();
    unwatch();
    c.distinct(interleaving(e)); perturb_report(c);
}
// Function pointers, std::function, lambdas by value, and literals as names
static std::atomic<int> fp_calls{ 0 };
static int fp0() { return 100 + ++fp_calls; }
static int fp1(ThreadPool& p) { return 200 + (int)p.count_threads() + 0 * ++fp_calls; }
static void fpv() { ++fp_calls; }
GROUP("callables", 300, 3000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 3) ? 0 : r.next(), false);
    watch("callables");
    {
        std::size_t n = 1 + r.below(4);
        auto pool = gul14::make_thread_pool(n);
        fp_calls = 0;
        auto h1 = pool->add_task(&fp1);
        auto h2 = pool->add_task(fp1, "pointer");
        CHECK(h1.get_result() == 200 + (int)n && h2.get_result() == 200 + (int)n, "function-pointer", "");
        auto h3 = pool->add_task(fp0);
        CHECK(h3.get_result() == 103, "function-pointer", fp_calls.load());
        pool->add_task(fpv, Us(50)).get_result();
        CHECK(fp_calls == 4, "function-pointer", fp_calls.load());
        int k = (int)r.below(1000);
        std::function<int()> f0 = [k] { return k; };
        std::function<std::string(ThreadPool&)> f1 = [k](ThreadPool&) { return std::to_string(k); };
        auto h4 = pool->add_task(f0, "std::function");
        auto h5 = pool->add_task(f1, Sys::now());
        auto h6 = pool->add_task(f1, Sys::now(), "x");
        CHECK(h4.get_result() == k && h5.get_result() == std::to_string(k) && h6.get_result() == std::to_string(k), "std-function", k);
        CHECK(f0() == k && f1(*pool) == std::to_string(k), "callable-lost", "the caller's function objects must remain usable");
        // a stateful function object with a mutable call operator
        auto h7 = pool->add_task([v = std::vector<int>{ k, 2 }](ThreadPool&) mutable { v.push_back(3); return v; });
        CHECK((h7.get_result() == std::vector<int>{ k, 2, 3 }), "mutable", "");
        // handles can be moved around and assigned
        auto h8 = pool->add_task([k] { return k + 1; });
        auto h9 = pool->add_task([k] { return k + 2; });
        std::swap(h8, h9);
        auto h10 = std::move(h8);
        ThreadPool::TaskHandle<int> h11; h11 = std::move(h9);
        CHECK(h10.get_result() == k + 2 && h11.get_result() == k + 1, "moved-handles", k);
        // handles that are dropped do not affect the execution
        std::atomic<int> cnt{ 0 };
        for (int i = 0; i < 20; ++i) pool->add_task([&cnt] { ++cnt; });
        await([&] { return cnt == 20; });
        CHECK(pool.use_count() >= 1, "x", "");
    }
    perturb(0);
    unwatch();
    c.eval(30); c.distinct(c.idx); perturb_report(c);
}
// Many tasks
GROUP("many", 6, 60)
{
    Rng& r = c.rng;
    std::size_t n = 1 + r.below(8), prod = 1 + r.below(6), per = 1500;
    auto pool = gul14::make_thread_pool(n, 100000);
    perturb(0);
    watch("many tasks");
    std::vector<std::atomic<int>> hits(prod * per);
    for (auto& h : hits) h = 0;
    std::vector<std::thread> ts; std::atomic<int> wrong{ 0 };
    for (std::size_t k = 0; k < prod; ++k)
        ts.emplace_back([&, k] {
            std::vector<ThreadPool::TaskHandle<std::size_t>> hs;
            for (std::size_t i = 0; i < per; ++i) { std::size_t id = k * per + i; hs.push_back(pool->add_task([&hits, id] { ++hits[id]; if (id % 7 == 3) throw (int)id; return id; })); }
            for (std::size_t i = 0; i < per; ++i) { std::size_t id = k * per + i; try { auto v = hs[i].get_result(); if (id % 7 == 3 || v != id) ++wrong; } catch (int x) { if (id % 7 != 3 || x != (int)id) ++wrong; } }
        });
    for (auto& t : ts) t.join();
    CHECK(wrong == 0, "many-results", wrong.load() << " wrong results");
    pool.reset();
    for (std::size_t i = 0; i < hits.size(); ++i) CHECK(hits[i] == 1, "many-once", "task " << i << " was executed " << hits[i] << " times");
    unwatch();
    c.eval(hits.size()); c.count("tasks_executed", hits.size()); c.distinct(hash_mix(n, prod));
}
