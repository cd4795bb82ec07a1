// C08: no data races, deadlocks, leaks or use-after-free; visibility of what tasks did.
// The threads of this harness are deliberately synchronized by nothing but the pool itself (and relaxed
// atomics), so that the race detector sees every missing synchronization.
#include "pool.h"
using namespace vm;
static const auto rlx = std::memory_order_relaxed;

// Plain memory is written before a task is added, by the task, and read after its completion was seen
GROUP("visibility", 600, 8000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 4) ? 0 : r.next());
    watch("visibility");
    std::size_t nt = 1 + r.below(4), prod = 1 + r.below(4), per = 4 + r.below(12);
    auto pool = gul14::make_thread_pool(nt, 500);
    struct Cell { std::string in, out; int n = 0; };
    std::vector<Cell> cells(prod * per);
    std::uint64_t seed = r.next();
    std::atomic<int> wrong{ 0 }; std::atomic<std::uint64_t> ways[6]; for (auto& w : ways) w.store(0, rlx);
    std::vector<std::thread> ts;
    for (std::size_t k = 0; k < prod; ++k)
        ts.emplace_back([&, k] {
            Rng q(mix(seed + k));
            for (std::size_t i = 0; i < per; ++i)
            {
                Cell* x = &cells[k * per + i];
                x->in = "input " + std::to_string(i); x->n = (int)i;
                bool delayed = q.chance(1, 4), throws = q.chance(1, 6);
                auto f = [x, throws] { x->out = x->in + "!"; x->n += 1000; if (throws) throw 5; };
                auto h = delayed ? pool->add_task(f, Us((long)q.below(300)), "delayed") : q.chance(1, 2) ? pool->add_task(f) : pool->add_task([f](ThreadPool&) { f(); }, "with pool");
                int way = (int)q.below(5);
                ways[way].fetch_add(1, rlx);
                if (way == 0) { try { h.get_result(); } catch (int) {} }
                else if (way == 1) while (!h.is_complete()) nap_us(10);
                else if (way == 2) while (h.get_state() != TaskState::complete) nap_us(10);
                else if (way == 3) while (!pool->is_idle()) nap_us(10);
                else if (way == 4)
                {
                    // cancelled ones belong to us again
                    if (h.cancel()) { x->out = x->in + "!"; x->n += 1000; }
                    else { try { h.get_result(); } catch (int) {} }
                }
                if (x->out != x->in + "!" || x->n != 1000 + (int)i) wrong.fetch_add(1, rlx);
                x->out.clear(); x->n = -1;
            }
        });
    for (auto& t : ts) t.join();
    CHECK(wrong == 0, "not-visible", wrong << " results were not visible");
    // what was done by tasks is visible after the destruction of the pool
    std::vector<std::string> fin(20);
    for (auto& s : fin) { auto* p = &s; pool->add_task([p] { *p = "written by a task, and long enough for the heap"; }); }
    if (r.chance(1, 2)) while (!pool->is_idle()) nap_us(10);
    pool.reset();
    std::size_t done = 0; for (auto& s : fin) { if (!s.empty()) ++done; s += "x"; }
    perturb(0); unwatch();
    c.eval(cells.size() + fin.size()); c.distinct(hash_mix(seed, done));
    static const char* wn[] = { "seen_by_get_result", "seen_by_is_complete", "seen_by_get_state", "seen_by_is_idle", "seen_by_failed_cancel" };
    for (int i = 0; i < 5; ++i) c.count(wn[i], ways[i].load(rlx));
    perturb_report(c);
}
// Function objects and results whose destructors use the pool
struct Nosy
{
    ThreadPool* p; int how;
    Nosy(ThreadPool* q, int h) : p(q), how(h) {}
    Nosy(Nosy&& o) noexcept : p(o.p), how(o.how) { o.p = nullptr; }
    Nosy& operator=(Nosy&& o) noexcept { std::swap(p, o.p); std::swap(how, o.how); return *this; }
    ~Nosy()
    {
        if (!p) return;
        switch (how % 7)
        {
        case 0: p->count_pending(); break;
        case 1: p->is_idle(); break;
        case 2: p->get_pending_task_names(); break;
        case 3: p->get_running_task_names(); break;
        case 4: p->is_full(); break;
        case 5: try { p->add_task([] {}); } catch (const std::runtime_error&) {} break;
        case 6: p->is_shutdown_requested(); break;
        }
    }
};
struct NosyFn { Nosy n; int how; Nosy operator()(ThreadPool& p) { Nosy x(&p, how); return x; } };
struct NosyThrow { Nosy n; int operator()(ThreadPool&) { throw std::runtime_error("x"); } };
// All entry points from all threads
GROUP("everything", 600, 8000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 4) ? 0 : r.next());
    watch("all functions concurrently");
    std::size_t nt = 1 + r.below(5), thr = 2 + r.below(4), per = 10 + r.below(25);
    static const std::size_t caps[] = { 1, 3, 20, 200 };
    auto pool = gul14::make_thread_pool(nt, r.pick(caps));
    ThreadPool* raw = pool.get();
    std::uint64_t seed = r.next();
    std::vector<std::uint64_t> calls(thr * 16, 0); // per thread: no sharing
    std::vector<std::thread> ts;
    for (std::size_t k = 0; k < thr; ++k)
        ts.emplace_back([&, k, pool] {
            Rng q(mix(seed + k)); auto* n = &calls[k * 16];
            std::vector<ThreadPool::TaskHandle<Nosy>> hs; std::vector<ThreadPool::TaskHandle<int>> hi;
            for (std::size_t i = 0; i < per; ++i)
            {
                int op = (int)q.below(14);
                ++n[op];
                auto s = q.next();
                try
                {
                    switch (op)
                    {
                    case 0: hs.push_back(pool->add_task(NosyFn{ Nosy(raw, (int)(s % 7)), (int)(s / 7 % 7) }, "nosy")); break;
                    case 1: hs.push_back(pool->add_task(NosyFn{ Nosy(raw, (int)(s % 7)), (int)(s / 7 % 7) }, Us(q.below(500)), "nosy, later")); break;
                    case 2: hi.push_back(pool->add_task(NosyThrow{ Nosy(raw, (int)(s % 7)) })); break;
                    case 3: hi.push_back(pool->add_task([s](ThreadPool& p) { Rng z(s); int v = (int)p.count_pending(); if (z.chance(1, 2)) try { p.add_task([] {}, Us(50), "child"); } catch (const std::runtime_error&) {} if (z.chance(1, 10)) p.cancel_pending_tasks(); if (z.chance(1, 3)) p.get_running_task_names(); return v; }, "recursive")); break;
                    case 4: pool->count_pending(); break;
                    case 5: pool->get_pending_task_names(); break;
                    case 6: pool->get_running_task_names(); break;
                    case 7: pool->is_idle(); pool->is_full(); break;
                    case 8: if (q.chance(1, 3)) pool->cancel_pending_tasks(); break;
                    case 9: if (!hs.empty()) hs[q.below(hs.size())].cancel(); break;
                    case 10: if (!hi.empty()) hi[q.below(hi.size())].get_state(); if (!hs.empty()) hs[q.below(hs.size())].is_complete(); break;
                    case 11: if (!hs.empty()) hs.erase(hs.begin() + (long)q.below(hs.size())); break; // drop a handle
                    case 12: if (!hi.empty()) { auto h = std::move(hi.back()); hi.pop_back(); h.get_result(); } break;
                    case 13: pool->capacity(); pool->count_threads(); pool->is_shutdown_requested(); break;
                    }
                }
                catch (const std::exception&) {} // full, cancelled, thrown by the task
            }
            // the results of the remaining handles die with them, while the pool still exists
        });
    for (auto& t : ts) t.join();
    pool->cancel_pending_tasks();
    while (!pool->is_idle()) nap_us(20);
    perturb(r.chance(1, 2) ? 0 : r.next());
    pool.reset();
    perturb(0); unwatch();
    std::uint64_t tot = 0; for (auto n : calls) tot += n;
    c.eval(tot); c.count("concurrent_calls", tot); c.distinct(seed); perturb_report(c);
}
// Handles are used while the pool is being destroyed (whoever is last destroys it)
GROUP("dying", 1200, 15000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 5) ? 0 : r.next());
    watch("handles and destruction");
    std::size_t nt = 1 + r.below(4), thr = 1 + r.below(4);
    auto pool = gul14::make_thread_pool(nt);
    std::uint64_t seed = r.next();
    std::vector<ThreadPool::TaskHandle<std::string>> hs;
    for (std::size_t i = 0; i < thr * 2; ++i)
    {
        unsigned b = (unsigned)r.below(200); long d = r.chance(1, 2) ? 0 : (long)r.below(800);
        hs.push_back(pool->add_task([b, i] { if (b > 100) nap_us(b); return std::string(30, (char)('a' + i)); }, Us(d), "task"));
    }
    std::vector<std::shared_ptr<ThreadPool>> owners(r.below(3), pool);
    std::vector<std::thread> ts; std::atomic<int> wrong{ 0 }; std::vector<int> kinds(thr * 2 * 8, 0);
    for (std::size_t k = 0; k < thr; ++k)
        ts.emplace_back([&, k] {
            Rng q(mix(seed + k));
            for (std::size_t j = 0; j < 2; ++j)
            {
                auto& h = hs[k * 2 + j]; int* kk = &kinds[(k * 2 + j) * 8];
                for (int i = 0; i < 6; ++i)
                {
                    try { switch (q.below(4)) { case 0: h.get_state(); ++kk[0]; break; case 1: h.is_complete(); ++kk[1]; break; case 2: if (q.chance(1, 3)) h.cancel(); ++kk[2]; break; default: nap_us((unsigned)q.below(100)); } }
                    catch (const std::logic_error&) { ++kk[3]; }
                }
                try { auto s = h.get_result(); ++kk[4]; if (s != std::string(30, (char)('a' + k * 2 + j))) wrong.fetch_add(1, rlx); } catch (const std::exception&) { ++kk[5]; }
            }
        });
    if (r.chance(1, 2)) nap_us((unsigned)r.below(600));
    std::vector<std::thread> os;
    for (auto& o : owners) os.emplace_back([&o, &r] { nap_us(20); o.reset(); });
    pool.reset();
    for (auto& t : os) t.join();
    for (auto& t : ts) t.join();
    CHECK(wrong == 0, "wrong-result", "");
    perturb(0); unwatch();
    int s[8] = {}; for (std::size_t i = 0; i < kinds.size(); ++i) s[i % 8] += kinds[i];
    c.eval(thr * 12); c.count("handle_calls_on_dead_pool", (std::uint64_t)s[3]); c.count("results_after_destruction", (std::uint64_t)s[4]); c.count("broken_results", (std::uint64_t)s[5]);
    c.distinct(hash_mix(seed, (std::uint64_t)(s[3] * 100 + s[4]))); perturb_report(c);
}
// Tasks that use their pool while it is being destroyed, without any other synchronization with the destroying thread
GROUP("last-tasks", 400, 5000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 2) ? 0 : r.next());
    watch("tasks and destruction");
    std::size_t nt = 1 + r.below(4);
    auto pool = gul14::make_thread_pool(nt);
    std::uint64_t seed = r.next();
    std::vector<std::uint64_t> calls(nt, 0);
    std::vector<ThreadPool::TaskHandle<int>> hs;
    for (std::size_t k = 0; k < nt; ++k)
        hs.push_back(pool->add_task([&calls, k, seed](ThreadPool& p) {
            Rng q(mix(seed + k));
            int n = 0;
            const int kind = (int)q.below(9); // in some tasks, one function only
            while (true)
            {
                switch (kind < 8 ? kind : (int)q.below(8))
                {
                case 0: case 1: break;
                case 2: p.count_pending(); break;
                case 3: p.get_pending_task_names(); break;
                case 4: p.get_running_task_names(); break;
                case 5: p.is_idle(); break;
                case 6: p.is_full(); p.capacity(); p.count_threads(); break;
                default: p.cancel_pending_tasks();
                }
                ++n;
                if (p.is_shutdown_requested()) break;
                if (q.chance(1, 3)) nap_us((unsigned)q.below(60));
            }
            calls[k] = (std::uint64_t)n;
            return n;
        }, "last"));
    std::size_t pend = r.below(4);
    for (std::size_t i = 0; i < pend; ++i) pool->add_task([] {}, std::chrono::hours(1), "never");
    // a task may have been removed by one of the others before it was started
    std::vector<bool> runs(nt, true);
    for (std::size_t k = 0; k < nt; ++k)
        for (TaskState st; (st = hs[k].get_state()) != TaskState::running; nap_us(20))
            if (st == TaskState::canceled) { runs[k] = false; break; }
    if (r.chance(1, 2)) nap_us((unsigned)r.below(500));
    pool.reset();
    std::uint64_t tot = 0;
    for (std::size_t k = 0; k < nt; ++k) if (runs[k]) { tot += calls[k]; int n = hs[k].get_result(); CHECK(n == (int)calls[k], "result", n); }
    perturb(0); unwatch();
    c.eval(tot); c.count("calls_during_destruction", tot); c.distinct(hash_mix(seed, tot)); perturb_report(c);
}
// Many short-lived pools
GROUP("lifecycle", 400, 4000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 4) ? 0 : r.next());
    watch("many pools");
    std::vector<std::thread> ts; std::uint64_t seed = r.next();
    for (int k = 0; k < 3; ++k)
        ts.emplace_back([seed, k] {
            Rng q(mix(seed + (std::uint64_t)k));
            for (int i = 0; i < 4; ++i)
            {
                auto p = gul14::make_thread_pool(1 + q.below(4), 1 + q.below(20));
                std::vector<ThreadPool::TaskHandle<std::string>> hs;
                std::string text = "some text that lives on the heap, " + std::to_string(i);
                for (std::size_t j = 0; j < q.below(8); ++j) try { hs.push_back(p->add_task([text] { return text + "!"; }, text)); } catch (const std::runtime_error&) {}
                if (q.chance(1, 2)) for (auto& h : hs) h.get_result();
                if (q.chance(1, 3)) hs.clear();
            }
        });
    for (auto& t : ts) t.join();
    perturb(0); unwatch();
    c.eval(12); c.distinct(seed); perturb_report(c);
}
