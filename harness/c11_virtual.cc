// C11: sleeps and timed waits of any length under virtual time: the time functions of the system are replaced by
// ones that let a virtual clock jump to the end of each wait, so that hours and years can be waited for
#include "monitor.h"
#include <gul14/Trigger.h>
#include <gul14/time_util.h>
#include <chrono>
#include <cerrno>
#include <cmath>
#include <cstdint>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
using namespace vm;
using gul14::Trigger;
using namespace std::chrono;
namespace {
typedef __int128 i128;
const i128 NS = 1000000000;
struct Virtual { bool on = false; i128 offset = 0; std::uint64_t waits = 0, interrupts = 0; unsigned eintr = 0; std::uint64_t rnd = 1; };
thread_local Virtual vt;
i128 real_ns(clockid_t id) { struct timespec t; syscall(SYS_clock_gettime, id, &t); return t.tv_sec * NS + t.tv_nsec; }
i128 now_ns(clockid_t id) { return real_ns(id) + (vt.on ? vt.offset : 0); }
void put(struct timespec* t, i128 ns) { t->tv_sec = (time_t)(ns / NS); t->tv_nsec = (long)(ns % NS); }
bool bad(const struct timespec* t) { return t->tv_nsec < 0 || t->tv_nsec >= 1000000000; }
// Let the time pass; now and then a signal interrupts a sleep
int pass(i128 d, struct timespec* rem)
{
    ++vt.waits; if (d < 0) d = 0;
    vt.rnd = vt.rnd * 6364136223846793005ull + 1442695040888963407ull;
    if (vt.eintr && d > 1000 && (vt.rnd >> 33) % 100 < vt.eintr) { i128 p = d * (i128)((vt.rnd >> 40) % 1000) / 1000; vt.offset += p; if (rem) put(rem, d - p); ++vt.interrupts; return EINTR; }
    vt.offset += d; return 0;
}
template <typename F> F next(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
int cond(pthread_cond_t*, pthread_mutex_t*, clockid_t id, const struct timespec* t)
{
    if (bad(t)) return EINVAL;
    ++vt.waits; i128 d = (i128)t->tv_sec * NS + t->tv_nsec - now_ns(id);
    vt.rnd = vt.rnd * 6364136223846793005ull + 1442695040888963407ull;
    if (d > 1000 && vt.eintr && (vt.rnd >> 33) % 100 < vt.eintr) { vt.offset += d * (i128)((vt.rnd >> 40) % 1000) / 1000; ++vt.interrupts; return 0; } // spurious wake-up
    if (d > 0) vt.offset += d;
    return ETIMEDOUT;
}
} // namespace
extern "C" {
int clock_gettime(clockid_t id, struct timespec* t) noexcept
{
    if (vt.on && (id == CLOCK_MONOTONIC || id == CLOCK_REALTIME)) { put(t, now_ns(id)); return 0; }
    return (int)syscall(SYS_clock_gettime, id, t);
}
int nanosleep(const struct timespec* t, struct timespec* rem)
{
    if (!vt.on) return (int)syscall(SYS_nanosleep, t, rem);
    if (bad(t) || t->tv_sec < 0) { errno = EINVAL; return -1; }
    int r = pass(t->tv_sec * NS + t->tv_nsec, rem); if (r) { errno = r; return -1; } return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec* t, struct timespec* rem)
{
    if (!vt.on) { long r = syscall(SYS_clock_nanosleep, id, flags, t, rem); return r < 0 ? errno : 0; }
    if (bad(t)) return EINVAL;
    i128 d = (i128)t->tv_sec * NS + t->tv_nsec; return flags & TIMER_ABSTIME ? pass(d - now_ns(id), nullptr) : pass(d, rem);
}
int usleep(useconds_t us) { struct timespec t; put(&t, (i128)us * 1000); return nanosleep(&t, nullptr); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    static auto real = next<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
    return vt.on ? cond(c, m, CLOCK_REALTIME, t) : real(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* t)
{
    static auto real = next<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
    return vt.on ? cond(c, m, id, t) : real(c, m, id, t);
}
}
struct SlowClock { using rep = long long; using period = std::micro; using duration = microseconds; using time_point = std::chrono::time_point<SlowClock>; static const bool is_steady = true;
    static time_point now() { return time_point(duration_cast<microseconds>(steady_clock::now().time_since_epoch()) / 2 + hours(1)); } };

// Length of a time span in ns
template <typename R, typename P> static __float128 ns_of(std::chrono::duration<R, P> d) { return (__float128)d.count() * P::num * 1000000000 / P::den; }
static std::string text(__float128 ns) { std::ostringstream o; o.precision(20); o << (long double)(ns / 1000000000) << " s"; return o.str(); }
// The elapsed time: not less than asked for (except for rounding errors of the clock readings), and not far more
template <typename F> static void timed(Case& c, __float128 want, const char* what, F f, __float128 rel = 0)
{
    const i128 a = now_ns(CLOCK_MONOTONIC); const bool res = f(); const i128 b = now_ns(CLOCK_MONOTONIC);
    const __float128 got = (__float128)(b - a), eps = 2 + ((__float128)b + want) / 1125899906842624.0 + want * rel; // 2^-50
    CHECK(res, std::string("result-") + what, what << " of " << text(want) << ": wrong result");
    CHECK(got >= want - eps, std::string("early-") + what, what << " of " << text(want) << " returned after " << text(got));
    CHECK(got <= want + want / 1000000 + 30 * (__float128)1e9, std::string("late-") + what, what << " of " << text(want) << " returned after " << text(got));
    c.eval(3);
}
template <typename D> static void lengths(Case& c, D d, const char* unit)
{
    Trigger trg; if (c.rng.chance(1, 3)) { trg.trigger(); trg = false; }
    const __float128 ns = d.count() > 0 ? ns_of(d) : 0; c.desc(std::string(unit) + ", " + text(ns));
    const __float128 rel = std::is_same<typename D::rep, float>::value ? 1 / (__float128)4194304 : 0; // std::chrono converts in the precision of the type
    timed(c, ns, "sleep", [&] { return gul14::sleep(d); }, rel);
    timed(c, ns, "interruptible sleep", [&] { return gul14::sleep(d, trg); }, rel);
    timed(c, ns, "wait_for", [&] { return !trg.wait_for(d); }, rel);
    c.distinct(hash_str(vm::G().desc));
}
// the longest time spans are about 30 years
template <typename R, typename P> static std::chrono::duration<R, P> any(Rng& r, bool negative)
{
    long double unit = (long double)P::num / P::den, top = std::min<long double>(1e9L / unit, std::is_floating_point<R>::value ? 1e18L : (long double)std::numeric_limits<R>::max()), x;
    x = std::exp((long double)(r.next() >> 11) / 9007199254740992.0L * std::log(top)); if (r.chance(1, 6)) x = top - (long double)r.below(3); if (r.chance(1, 6)) x = (long double)r.below(4);
    if (std::is_floating_point<R>::value && r.chance(1, 4)) x = x / 1e9L;
    R v = static_cast<R>(std::min(x, top)); if (negative && r.chance(1, 8)) v = static_cast<R>(-v); return std::chrono::duration<R, P>(v);
}
struct On { On(Rng& r) { vt = Virtual(); vt.on = true; vt.eintr = r.chance(1, 2) ? 0 : 40; vt.rnd = r.next(); vt.offset = r.chance(1, 2) ? 0 : (i128)r.below(100000000) * NS; } ~On() { vt.on = false; } void report(Case& c) { c.count("waits under virtual time", vt.waits); c.count("interrupted by signals or spurious wake-ups", vt.interrupts); } };
GROUP("virtual-lengths", 20000, 400000)
{
    Rng& r = c.rng; On on(r);
    switch (c.idx % 12)
    {
    case 0: lengths(c, any<std::int64_t, std::nano>(r, true), "ns"); break;
    case 1: lengths(c, any<std::int64_t, std::micro>(r, true), "us"); break;
    case 2: lengths(c, any<std::int64_t, std::milli>(r, true), "ms"); break;
    case 3: lengths(c, any<std::int64_t, std::ratio<1>>(r, true), "s"); break;
    case 4: lengths(c, any<int, std::ratio<60>>(r, true), "min"); break;
    case 5: lengths(c, any<int, std::ratio<3600>>(r, true), "h"); break;
    case 6: lengths(c, any<int, std::milli>(r, true), "ms (int)"); break;
    case 7: lengths(c, any<unsigned, std::micro>(r, false), "us (unsigned)"); break;
    case 8: lengths(c, any<double, std::ratio<1>>(r, true), "s (double)"); break;
    case 9: lengths(c, any<double, std::milli>(r, true), "ms (double)"); break;
    case 10: lengths(c, any<short, std::ratio<86400>>(r, true), "days (short)"); break;
    default: lengths(c, any<float, std::ratio<1>>(r, true), "s (float)"); break;
    }
    on.report(c); if (c.want_sample()) c.sample(vm::G().desc);
}
GROUP("virtual-seconds", 10000, 200000)
{
    Rng& r = c.rng; On on(r); Trigger trg; double s = any<double, std::ratio<1>>(r, true).count(); const __float128 ns = s > 0 ? (__float128)s * 1000000000 : 0; c.desc("sleep(" + text(ns) + ")");
    timed(c, ns, "sleep", [&] { return gul14::sleep(s); }); timed(c, ns, "interruptible sleep", [&] { return gul14::sleep(s, trg); });
    c.distinct(hash_mix((std::uint64_t)(s * 1000), 1)); on.report(c);
}
template <typename C> static void until(Case& c, Trigger& trg, i128 ns, const char* name)
{
    using D = typename C::duration; const auto t = C::now() + duration_cast<D>(nanoseconds((std::int64_t)ns)); c.desc(std::string("wait_until ") + name + ", " + text((__float128)ns));
    bool res = trg.wait_until(t); auto now = C::now();
    CHECK(!res && now >= t, "wait_until-early", name << ": " << std::chrono::duration<double>(now - t).count() << " s"); CHECK(now <= t + seconds(30), "wait_until-late", name << ": " << std::chrono::duration<double>(now - t).count() << " s"); c.eval(2);
}
GROUP("virtual-until", 10000, 200000)
{
    Rng& r = c.rng; On on(r); Trigger trg; const i128 ns = (i128)any<std::int64_t, std::nano>(r, false).count();
    switch (c.idx % 4)
    {
    case 0: until<system_clock>(c, trg, ns, "system clock"); break;
    case 1: until<steady_clock>(c, trg, ns, "steady clock"); break;
    case 2: until<SlowClock>(c, trg, ns, "slow clock"); break;
    default: { auto t = time_point_cast<hours>(system_clock::now() + nanoseconds((std::int64_t)ns)); c.desc("wait_until, hours"); bool res = trg.wait_until(t); CHECK(!res && system_clock::now() >= t, "wait_until-early", "system clock, hours"); c.eval(); }
    }
    c.distinct(hash_mix((std::uint64_t)ns, c.idx % 4)); on.report(c);
}
template <typename U> static void toc_(Case& c, steady_clock::time_point t0, const char* unit)
{
    auto a = steady_clock::now(); auto v = gul14::toc<U>(t0); auto b = steady_clock::now();
    CHECK(v >= duration_cast<U>(a - t0).count() && v <= duration_cast<U>(b - t0).count(), "toc", "toc in " << unit << " is " << v << " after " << text(ns_of(a - t0))); c.eval();
}
GROUP("virtual-toc", 10000, 200000)
{
    Rng& r = c.rng; On on(r); auto t0 = gul14::tic(); const auto d = any<std::int64_t, std::nano>(r, false); vt.offset += (i128)d.count(); c.desc("toc after " + text(ns_of(d)));
    toc_<nanoseconds>(c, t0, "ns"); toc_<microseconds>(c, t0, "us"); toc_<milliseconds>(c, t0, "ms"); toc_<seconds>(c, t0, "s"); toc_<hours>(c, t0, "h"); toc_<std::chrono::duration<double>>(c, t0, "s (double)"); toc_<std::chrono::duration<double, std::milli>>(c, t0, "ms (double)");
    auto v = gul14::toc(t0); CHECK(v >= std::chrono::duration<double>(d).count() * (1 - 1e-15) && v <= std::chrono::duration<double>(d).count() + 30, "toc", "toc is " << v << " after " << text(ns_of(d))); c.distinct(hash_mix((std::uint64_t)d.count(), 7)); on.report(c);
}
