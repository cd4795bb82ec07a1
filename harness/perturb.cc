// Link-time wrappers around the synchronization functions, see perturb.h
#define VM_NO_MAIN
#include "perturb.h"
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <time.h>

namespace vm {
namespace {
// Everything is relaxed on purpose: the wrappers must not add happens-before edges that hide races
std::atomic<std::uint64_t> g_seed{ 0 }, g_epoch{ 0 };
std::atomic<unsigned> g_prob[n_sites], g_max_us[n_sites]; // probability out of 256 and longest delay
std::atomic<unsigned> g_spurious{ 0 };
std::atomic<std::uint64_t> g_counts[5];
std::atomic<int> g_in_wait{ 0 };
std::atomic<std::uint64_t> g_threads{ 0 };

struct Tls { std::uint64_t s, epoch; unsigned skew; bool exempt; };
thread_local Tls tls{ 0, 0, 1, false };

std::uint64_t rnd()
{
    auto e = g_epoch.load(std::memory_order_relaxed);
    if (tls.epoch != e || tls.s == 0)
    {
        tls.epoch = e;
        tls.s = mix(g_seed.load(std::memory_order_relaxed) + 77 * (1 + g_threads.fetch_add(1, std::memory_order_relaxed)));
        unsigned k = tls.s % 8;
        tls.skew = k == 0 ? 8 : k < 3 ? 0 : 1;
        if (tls.s == 0) tls.s = 1;
    }
    tls.s = mix(tls.s);
    return tls.s;
}

void sleep_us(unsigned us)
{
    struct timespec ts = { static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000 };
    ::nanosleep(&ts, nullptr);
}

void delay(Site s)
{
    if (g_seed.load(std::memory_order_relaxed) == 0 || tls.exempt) return;
    unsigned p = g_prob[s].load(std::memory_order_relaxed);
    if (p == 0) return;
    auto r = rnd();
    if ((r & 255) >= p * (tls.skew ? 1 : 0)) return;
    g_counts[0].fetch_add(1, std::memory_order_relaxed);
    r >>= 8;
    if ((r & 3) == 0) { ::sched_yield(); return; }
    r >>= 2;
    if ((r & 3) == 0) { for (volatile unsigned i = 0, n = r % 2000; i < n; i = i + 1) {} return; }
    r >>= 2;
    unsigned mx = g_max_us[s].load(std::memory_order_relaxed) * tls.skew;
    if (mx) sleep_us(1 + static_cast<unsigned>(r % mx));
}
bool spurious()
{
    if (g_seed.load(std::memory_order_relaxed) == 0 || tls.exempt) return false;
    unsigned p = g_spurious.load(std::memory_order_relaxed);
    if (p == 0 || (rnd() & 255) >= p) return false;
    g_counts[1].fetch_add(1, std::memory_order_relaxed);
    return true;
}
void bump(int k) { g_counts[k].fetch_add(1, std::memory_order_relaxed); }

std::atomic<std::int64_t> wd_deadline{ 0 };
std::atomic<const char*> wd_what{ nullptr };
std::int64_t now_ms()
{
    struct timespec ts;
    ::clock_gettime(CLOCK_MONOTONIC, &ts);
    return static_cast<std::int64_t>(ts.tv_sec) * 1000 + ts.tv_nsec / 1000000;
}
void* watchdog(void*)
{
    tls.exempt = true;
    for (;;)
    {
        sleep_us(50000);
        auto d = wd_deadline.load(std::memory_order_relaxed);
        if (d != 0 && now_ms() > d)
        {
            const char* w = wd_what.load(std::memory_order_relaxed);
            violation(std::string("hang:") + (w ? w : "?"), std::string("the program did not proceed in time: ") + (w ? w : "?"));
        }
    }
    return nullptr;
}
} // namespace

void perturb(std::uint64_t seed, bool strong)
{
    if (seed)
    {
        Rng r(mix(seed));
        static const unsigned probs[] = { 0, 0, 8, 40, 128, 255 };
        static const unsigned lens[] = { 0, 5, 30, 120, 400, 1500 };
        for (int s = 0; s < n_sites; ++s)
        {
            unsigned p = r.pick(probs), l = r.pick(lens);
            if (!strong) { p /= 4; l /= 4; }
            if (l > 300 && p > 40) p = 40;
            g_prob[s].store(p, std::memory_order_relaxed);
            g_max_us[s].store(l, std::memory_order_relaxed);
        }
        static const unsigned sp[] = { 0, 0, 10, 60, 160 };
        g_spurious.store(r.pick(sp), std::memory_order_relaxed);
    }
    g_threads.store(0, std::memory_order_relaxed);
    g_seed.store(seed, std::memory_order_relaxed);
    g_epoch.fetch_add(1, std::memory_order_relaxed);
}
int threads_in_wait() { return g_in_wait.load(std::memory_order_relaxed); }
std::uint64_t perturb_count(int k) { return g_counts[k].load(std::memory_order_relaxed); }
void jitter() { delay(before_lock); }
void perturb_exempt() { tls.exempt = true; }
void watch(const char* what, double seconds)
{
    static bool started = [] {
        sigset_t all, old;
        sigfillset(&all);
        pthread_sigmask(SIG_SETMASK, &all, &old);
        pthread_t t;
        pthread_create(&t, nullptr, watchdog, nullptr);
        pthread_detach(t);
        pthread_sigmask(SIG_SETMASK, &old, nullptr);
        return true;
    }();
    (void)started;
    wd_what.store(what, std::memory_order_relaxed);
    wd_deadline.store(now_ms() + static_cast<std::int64_t>(seconds * 1000), std::memory_order_relaxed);
}
void unwatch() { wd_deadline.store(0, std::memory_order_relaxed); }

} // namespace vm

using namespace vm;
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable*, std::unique_lock<std::mutex>&);
void __real__ZNSt18condition_variable10notify_oneEv(std::condition_variable*);
void __real__ZNSt18condition_variable10notify_allEv(std::condition_variable*);

int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    bump(4);
    delay(before_lock);
    return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    int r = __real_pthread_mutex_unlock(m);
    delay(after_unlock);
    return r;
}
static int cond_timed(pthread_cond_t* c, pthread_mutex_t* m, int kind, clockid_t id, const struct timespec* t)
{
    bump(2);
    delay(before_wait);
    if (spurious())
    {
        __real_pthread_mutex_unlock(m);
        delay(after_wait);
        __real_pthread_mutex_lock(m);
        return 0;
    }
    g_in_wait.fetch_add(1, std::memory_order_relaxed);
    int r = kind == 0 ? __real_pthread_cond_timedwait(c, m, t) : __real_pthread_cond_clockwait(c, m, id, t);
    g_in_wait.fetch_sub(1, std::memory_order_relaxed);
    delay(after_wait);
    return r;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return cond_timed(c, m, 0, 0, t); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* t) { return cond_timed(c, m, 1, id, t); }
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable* cv, std::unique_lock<std::mutex>& l)
{
    bump(2);
    delay(before_wait);
    if (spurious())
    {
        auto m = l.mutex()->native_handle();
        __real_pthread_mutex_unlock(m);
        delay(after_wait);
        __real_pthread_mutex_lock(m);
        return;
    }
    g_in_wait.fetch_add(1, std::memory_order_relaxed);
    __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(cv, l);
    g_in_wait.fetch_sub(1, std::memory_order_relaxed);
    delay(after_wait);
}
void __wrap__ZNSt18condition_variable10notify_oneEv(std::condition_variable* cv)
{
    bump(3);
    delay(before_notify);
    __real__ZNSt18condition_variable10notify_oneEv(cv);
    delay(after_notify);
}
void __wrap__ZNSt18condition_variable10notify_allEv(std::condition_variable* cv)
{
    bump(3);
    delay(before_notify);
    __real__ZNSt18condition_variable10notify_allEv(cv);
    delay(after_notify);
}
}
