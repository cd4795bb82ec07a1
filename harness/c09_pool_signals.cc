// C09: signal masks of pool threads
#include "pool.h"
#include <signal.h>
#include <sys/syscall.h>
using namespace vm;
static const int documented[] = { SIGALRM, SIGINT, SIGPIPE, SIGTERM, SIGURG, SIGUSR1, SIGUSR2 };
static bool is_documented(int s) { for (int d : documented) if (d == s) return true; return false; }
struct MaskBits { bool b[65]; };
static MaskBits mask_now() { sigset_t m; sigemptyset(&m); pthread_sigmask(SIG_SETMASK, nullptr, &m); MaskBits x; for (int s = 1; s <= 64; ++s) x.b[s] = sigismember(&m, s) == 1; return x; }
static bool settable(int s) { return s != SIGKILL && s != SIGSTOP && s != 32 && s != 33; } // 32, 33: used by the C library
// Signals that a sanitizer or the C library needs are not blocked by this harness
static bool harmless(int s) { return settable(s) && s != SIGSEGV && s != SIGBUS && s != SIGFPE && s != SIGILL && s != SIGABRT && s != SIGTRAP && s != SIGSYS && s != SIGPROF; }
static std::string show_mask(const MaskBits& m) { std::string s; for (int i = 1; i <= 64; ++i) if (m.b[i]) s += std::to_string(i) + " "; return s; }

static void check_worker(const MaskBits& creator, const MaskBits& w, const char* when)
{
    for (int s = 1; s <= 64; ++s)
    {
        if (!settable(s)) continue;
        if (is_documented(s)) { if (!w.b[s]) VIOL("not-blocked", "signal " << s << " is not blocked in a pool thread " << when << "; blocked: " << show_mask(w)); }
        else if (w.b[s] != creator.b[s]) VIOL("other-signal", "signal " << s << " is " << (w.b[s] ? "" : "not ") << "blocked in a pool thread " << when << " although the creating thread had it " << (creator.b[s] ? "" : "not ") << "blocked");
    }
}
static void same(const MaskBits& a, const MaskBits& b, const char* what) { for (int s = 1; s <= 64; ++s) if (a.b[s] != b.b[s]) VIOL("mask-changed", "signal " << s << ": the mask of another thread was changed by " << what); }

GROUP("masks", 700, 8000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 3) ? 0 : r.next());
    watch("masks");
    std::size_t nt = 1 + r.below(8);
    // the pool is created by a thread with a random mask
    int density = (int)r.below(5);
    std::uint64_t seed = r.next(), h = 0; std::uint64_t tasks = 0;
    std::thread creator([&] {
        Rng q(seed);
        sigset_t m; sigemptyset(&m);
        for (int s = 1; s <= 64; ++s) if (harmless(s) && (int)q.below(4) < density) sigaddset(&m, s);
        pthread_sigmask(SIG_SETMASK, &m, nullptr);
        MaskBits mine = mask_now();
        h = hash_bytes(&mine, sizeof mine);
        auto pool = gul14::make_thread_pool(nt);
        same(mine, mask_now(), "creating a pool");
        if (q.chance(1, 2)) { sigset_t none; sigemptyset(&none); pthread_sigmask(SIG_SETMASK, &none, nullptr); } // changing it later has no influence
        MaskBits mine2 = mask_now();
        // every worker is inspected: all execute a task at the same time
        for (int round = 0; round < 2; ++round)
        {
            std::atomic<std::size_t> in{ 0 }; std::vector<MaskBits> seen(nt); std::vector<ThreadPool::TaskHandle<void>> hs;
            for (std::size_t i = 0; i < nt; ++i) hs.push_back(pool->add_task([&, i] { seen[i] = mask_now(); ++in; while (in < nt) nap_us(20); if (i % 3 == 1) throw 1; }));
            for (auto& x : hs) try { x.get_result(); } catch (int) {}
            for (auto& x : seen) check_worker(mine, x, round ? "in its second task" : "in its first task");
            tasks += nt;
        }
        // from scheduled and nested tasks
        MaskBits a, b; std::atomic<int> got{ 0 };
        pool->add_task([&](ThreadPool& p) { a = mask_now(); p.add_task([&] { b = mask_now(); ++got; }, Us(100)); }, Us(50)).get_result();
        await([&] { return got == 1; });
        check_worker(mine, a, "in a scheduled task"); check_worker(mine, b, "in a nested task"); tasks += 2;
        same(mine2, mask_now(), "using a pool");
        pool->cancel_pending_tasks();
        pool.reset();
        same(mine2, mask_now(), "destroying a pool");
    });
    creator.join();
    perturb(0); unwatch();
    c.eval(tasks); c.count("masks_inspected", tasks); c.distinct(hash_mix(h, nt)); perturb_report(c);
}
// Signals sent to the process and to its group of threads while tasks are executed
static std::atomic<long> handled_by[64]; static std::atomic<int> n_handled{ 0 };
static void on_signal(int) { int k = n_handled.fetch_add(1); if (k < 64) handled_by[k] = (long)::syscall(SYS_gettid); }
GROUP("delivery", 300, 3000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 3) ? 0 : r.next(), false);
    watch("delivery");
    std::size_t nt = 1 + r.below(6);
    int sig = r.pick(documented);
    struct sigaction sa, old; std::memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sigaction(sig, &sa, &old);
    n_handled = 0;
    // the only thread that accepts the signal is this one, if it does not block it, too
    bool blocked_here = r.chance(1, 2);
    sigset_t m, before; sigemptyset(&m); sigaddset(&m, sig);
    pthread_sigmask(SIG_BLOCK, &m, &before);
    std::set<long> pool_tids; std::mutex mm; long main_tid = (long)::syscall(SYS_gettid);
    {
        // the creating thread does not block it: the pool itself must do so
        std::shared_ptr<ThreadPool> pool;
        sigset_t none; sigemptyset(&none);
        pthread_sigmask(SIG_SETMASK, &none, nullptr);
        pool = gul14::make_thread_pool(nt);
        std::atomic<int> stop{ 0 }; std::atomic<std::size_t> in{ 0 }; std::vector<ThreadPool::TaskHandle<void>> hs;
        for (std::size_t i = 0; i < nt; ++i) hs.push_back(pool->add_task([&] { { std::lock_guard<std::mutex> l(mm); pool_tids.insert((long)::syscall(SYS_gettid)); } ++in; while (!stop) nap_us(50); }));
        await([&] { return in == nt; });
        if (blocked_here) pthread_sigmask(SIG_BLOCK, &m, nullptr);
        int sent = 1 + (int)r.below(3);
        for (int i = 0; i < sent; ++i) { ::kill(::getpid(), sig); nap_us((unsigned)r.below(200)); }
        nap_us(300);
        if (blocked_here)
        {
            CHECK(n_handled == 0, "handled", "signal " << sig << " was handled although all other threads block it");
            sigset_t p; sigpending(&p); CHECK(sigismember(&p, sig) == 1, "consumed", "signal " << sig << " is not pending");
            pthread_sigmask(SIG_UNBLOCK, &m, nullptr);
        }
        await([&] { return n_handled > 0; });
        for (int i = 0; i < n_handled && i < 64; ++i) { CHECK(!pool_tids.count(handled_by[i]), "handled-by-pool", "signal " << sig << " was handled by a pool thread"); CHECK(handled_by[i] == main_tid, "handled-elsewhere", ""); }
        stop = 1;
        for (auto& x : hs) x.get_result();
    }
    pthread_sigmask(SIG_BLOCK, &m, nullptr);
    sigaction(sig, &old, nullptr);
    pthread_sigmask(SIG_SETMASK, &before, nullptr);
    perturb(0); unwatch();
    c.eval(); c.count("signals_delivered", (std::uint64_t)n_handled.load()); c.distinct(hash_mix((std::uint64_t)sig, nt * 2 + blocked_here)); perturb_report(c);
    if (c.want_sample()) c.sample("signal " + std::to_string(sig) + ", " + std::to_string(nt) + " threads");
}
