// C11: timed waits and sleeps, tic/toc
#include "perturb.h"
#include <gul14/Trigger.h>
#include <gul14/time_util.h>
#include <chrono>
#include <thread>
#include <time.h>
using namespace vm;
using gul14::Trigger;
using namespace std::chrono;
static void nap_us(unsigned us) { struct timespec ts = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; ::nanosleep(&ts, nullptr); }
using Steady = steady_clock; using Sys = system_clock;
// A clock with another epoch, unit and speed than those of the system
struct SlowClock { using rep = long long; using period = std::micro; using duration = microseconds; using time_point = std::chrono::time_point<SlowClock>; static const bool is_steady = true;
    static time_point now() { return time_point(duration_cast<microseconds>(Steady::now().time_since_epoch()) / 2 + hours(1)); } };
struct FastClock { using rep = double; using period = std::milli; using duration = std::chrono::duration<double, std::milli>; using time_point = std::chrono::time_point<FastClock, duration>; static const bool is_steady = true;
    static time_point now() { return time_point(std::chrono::duration<double, std::milli>(Steady::now().time_since_epoch()) * 3 - hours(3)); } };

// One timed wait on a trigger that is never set: returns false, and not too early
template <typename D> static void check_for(Case& c, Trigger& trg, D d, const char* unit)
{
    auto t0 = Steady::now();
    bool res = trg.wait_for(d);
    auto dt = Steady::now() - t0;
    CHECK(!res, "wait_for-true", "wait_for returned true although the trigger is not set (" << unit << ")");
    if (d.count() > 0) CHECK(std::chrono::duration<double>(dt).count() >= std::chrono::duration<double>(d).count() - 1e-9, "wait_for-early", "wait_for(" << d.count() << " " << unit << ") returned after " << std::chrono::duration<double>(dt).count() << " s");
    t0 = Steady::now();
    res = gul14::sleep(d, trg);
    dt = Steady::now() - t0;
    CHECK(res, "sleep-false", "sleep was not interrupted, but returned false (" << unit << ")");
    if (d.count() > 0) CHECK(std::chrono::duration<double>(dt).count() >= std::chrono::duration<double>(d).count() - 1e-9, "sleep-early", "interruptible sleep(" << d.count() << " " << unit << ") returned after " << std::chrono::duration<double>(dt).count() << " s");
    t0 = Steady::now();
    res = gul14::sleep(d);
    dt = Steady::now() - t0;
    CHECK(res, "plain-sleep-false", "");
    if (d.count() > 0) CHECK(std::chrono::duration<double>(dt).count() >= std::chrono::duration<double>(d).count() - 1e-9, "plain-sleep-early", "sleep(" << d.count() << " " << unit << ") returned after " << std::chrono::duration<double>(dt).count() << " s");
    c.eval(3);
}
template <typename C> static void check_until(Case& c, Trigger& trg, typename C::time_point t, const char* name)
{
    bool res = trg.wait_until(t);
    auto now = C::now();
    CHECK(!res, "wait_until-true", "wait_until returned true although the trigger is not set (" << name << ")");
    CHECK(now >= t, "wait_until-early", "wait_until returned too early (" << name << ")");
    c.eval();
}
GROUP("timeouts", 700, 8000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 3) ? 0 : r.next());
    watch("timed waits", 30);
    Trigger trg;
    if (r.chance(1, 3)) { trg.trigger(); trg.reset(); }
    long long us = r.chance(1, 4) ? r.range(-1000, 50) : r.range(0, 2500);
    c.desc(std::to_string(us) + " us");
    std::atomic<int> stop{ 0 };
    // somebody resets it all the time (waking nobody up for good)
    bool noise = r.chance(1, 3);
    std::thread t; if (noise) t = std::thread([&] { while (!stop) { trg.reset(); nap_us(50); } });
    switch (r.below(9))
    {
    case 0: check_for(c, trg, microseconds(us), "us"); break;
    case 1: check_for(c, trg, nanoseconds(us * 1000 + 7), "ns"); break;
    case 2: check_for(c, trg, milliseconds(us / 1000), "ms"); break;
    case 3: check_for(c, trg, std::chrono::duration<double>((double)us * 1e-6), "s (double)"); break;
    case 4: check_for(c, trg, std::chrono::duration<double, std::ratio<60>>((double)us * 1e-6 / 60), "min (double)"); break;
    case 5: check_for(c, trg, std::chrono::duration<int, std::ratio<1, 3000>>((int)(us * 3 / 1000)), "1/3000 s (int)"); break;
    case 6: check_for(c, trg, seconds(us > 0 ? 0 : -1), "s"); break;
    case 7: check_for(c, trg, std::chrono::duration<float, std::milli>((float)(us / 256) / 4), "ms (float)"); break;
    default: // number of seconds as a double
    {
        double s = (double)us * 1e-6;
        auto t0 = Steady::now(); bool res = gul14::sleep(s, trg); double dt = std::chrono::duration<double>(Steady::now() - t0).count();
        CHECK(res && dt >= s - 1e-9, "sleep-seconds", "interruptible sleep(" << s << ") returned " << res << " after " << dt << " s");
        t0 = Steady::now(); res = gul14::sleep(s); dt = std::chrono::duration<double>(Steady::now() - t0).count();
        CHECK(res && dt >= s - 1e-9, "plain-sleep-seconds", "sleep(" << s << ") returned " << res << " after " << dt << " s");
        c.eval(2);
    }
    }
    switch (r.below(6))
    {
    case 0: check_until<Sys>(c, trg, Sys::now() + microseconds(us), "system clock"); break;
    case 1: check_until<Steady>(c, trg, Steady::now() + microseconds(us), "steady clock"); break;
    case 2: check_until<SlowClock>(c, trg, SlowClock::now() + microseconds(us), "slow clock"); break;
    case 3: check_until<FastClock>(c, trg, FastClock::now() + FastClock::duration((double)us * 1e-3), "fast clock"); break;
    case 4: { auto tp = time_point_cast<milliseconds>(Sys::now() + microseconds(us)); bool res = trg.wait_until(tp); CHECK(!res && Sys::now() >= tp, "wait_until-early", "system clock, ms"); c.eval(); break; }
    default: check_until<Sys>(c, trg, Sys::time_point{}, "epoch"); check_until<Steady>(c, trg, Steady::time_point{}, "start of time"); break;
    }
    stop = 1; if (noise) t.join();
    perturb(0); unwatch();
    c.distinct(hash_mix((std::uint64_t)(us + 5000), r.next() % 64)); perturb_report(c);
    if (c.want_sample()) c.sample(G().desc);
}
// The trigger is already set: true at once, whatever the timeout
GROUP("already-set", 3000, 30000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 2) ? 0 : r.next(), false);
    watch("timed waits on a set trigger", 20);
    Trigger trg(r.chance(1, 2)); if (!trg) { if (r.chance(1, 2)) trg = true; else trg.trigger(); }
    long long us = r.chance(1, 2) ? r.range(-1000000, 10) : r.range(0, 3600000000ll); // up to one hour: must not be waited for
    c.desc(std::to_string(us) + " us");
    CHECK(trg.wait_for(microseconds(us)), "wait_for-false", "");
    CHECK(trg.wait_for(seconds(us / 1000000)), "wait_for-false", "");
    CHECK(trg.wait_for(hours(us > 0 ? 5 : -5)), "wait_for-false", "");
    CHECK(trg.wait_for(std::chrono::duration<double>((double)us * 1e-6)), "wait_for-false", "double");
    CHECK(trg.wait_until(Sys::now() + microseconds(us)), "wait_until-false", "");
    CHECK(trg.wait_until(Steady::now() + microseconds(us)), "wait_until-false", "");
    CHECK(trg.wait_until(SlowClock::now() + microseconds(us)), "wait_until-false", "");
    CHECK(trg.wait_until(FastClock::now() + FastClock::duration((double)us)), "wait_until-false", "");
    CHECK(trg.wait_until(Sys::time_point{}), "wait_until-false", "epoch");
    CHECK(!gul14::sleep(microseconds(us), trg), "sleep-true", "an interrupted sleep returned true");
    CHECK(!gul14::sleep((double)us * 1e-6, trg), "sleep-true", "an interrupted sleep returned true");
    trg.wait();
    CHECK(bool(trg), "consumed", "a wait has reset the trigger");
    perturb(0); unwatch();
    c.eval(12); c.distinct((std::uint64_t)(us + 5000000)); perturb_report(c);
}
// The trigger gets set while somebody waits: the wait ends at once with true
GROUP("interrupted", 1200, 12000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 4) ? 0 : r.next());
    watch("interrupting timed waits", 20);
    Trigger trg; int kind = (int)r.below(7); std::atomic<int> res{ -1 }; unsigned us = (unsigned)r.below(800); int how = (int)r.below(2);
    c.desc("kind " + std::to_string(kind));
    auto h = hours(2);
    std::thread t([&] {
        bool b = false;
        switch (kind) { case 0: b = trg.wait_for(h); break; case 1: b = trg.wait_for(std::chrono::duration<double>(7200.5)); break; case 2: b = trg.wait_until(Sys::now() + h); break; case 3: b = trg.wait_until(Steady::now() + h); break; case 4: b = trg.wait_until(SlowClock::now() + h); break; case 5: b = !gul14::sleep(h, trg); break; default: b = !gul14::sleep(7200.0, trg); }
        res = b;
    });
    nap_us(us);
    CHECK(res == -1, "too-early", "a timed wait ended although nothing happened");
    if (how) trg = true; else trg.trigger();
    t.join();
    CHECK(res == 1, "interrupted-false", "a wait that was ended by the trigger reports a timeout");
    perturb(0); unwatch();
    c.eval(2); c.distinct(hash_mix((std::uint64_t)kind * 2 + (std::uint64_t)how, us)); perturb_report(c);
}
// Set at nearly the same moment as the timeout: the answer must agree with the state, and a false one
// may not come too early
GROUP("close-race", 1500, 15000)
{
    Rng& r = c.rng;
    perturb(r.chance(1, 4) ? 0 : r.next());
    watch("race of trigger and timeout", 20);
    Trigger trg; auto d = microseconds(r.range(50, 600)); std::atomic<long long> set_inv{ 0 }; auto t0 = Steady::now(); int kind = (int)r.below(3); unsigned us = (unsigned)std::max<long long>(0, d.count() + r.range(-60, 60)); bool res = false;
    std::thread t([&] { nap_us(us); set_inv = 1; trg.trigger(); set_inv = 2; });
    auto s0 = Sys::now() + d;
    auto w0 = Steady::now();
    switch (kind) { case 0: res = trg.wait_for(d); break; case 1: res = trg.wait_until(s0); break; default: res = !gul14::sleep(d, trg); }
    int st = (int)set_inv.load(); auto dt = Steady::now() - w0; auto s1 = Sys::now();
    t.join();
    if (res) CHECK(st >= 1, "true-before-set", "the wait reports the trigger before it was set");
    else if (kind == 1) CHECK(s1 >= s0, "early", "timeout reported too early");
    else CHECK(dt >= d, "early", "timeout of " << d.count() << " us reported after " << duration_cast<microseconds>(dt).count() << " us");
    (void)t0;
    perturb(0); unwatch();
    c.eval(); c.count(res ? "race_won_by_trigger" : "race_won_by_timeout"); c.distinct(hash_mix((std::uint64_t)kind, us * 2 + res)); perturb_report(c);
}
// tic/toc
template <typename U> static void check_toc(Case& c, Steady::time_point t0, const char* unit)
{
    auto a = Steady::now(); auto v = gul14::toc<U>(t0); auto b = Steady::now(); auto v2 = gul14::toc<U>(t0);
    auto lo = duration_cast<U>(a - t0).count(), hi = duration_cast<U>(b - t0).count();
    CHECK(v >= lo && v <= hi, "toc", "toc in " << unit << " is " << v << ", not between " << lo << " and " << hi);
    CHECK(v2 >= v, "toc-decreases", unit); CHECK(v >= 0, "toc-negative", unit);
    c.eval(3);
}
GROUP("tic-toc", 20000, 300000)
{
    Rng& r = c.rng;
    auto a = Steady::now(); auto t0 = gul14::tic(); auto b = Steady::now();
    CHECK(a <= t0 && t0 <= b, "tic", "tic() is not the current time");
    if (r.chance(1, 500)) nap_us((unsigned)r.below(3000));
    // also time points long ago
    auto back = nanoseconds(r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.range(0, 10000000000ll) : r.range(0, 100000ll) * 1000000000ll);
    auto tp = t0 - back;
    c.desc(std::to_string(back.count()) + " ns ago");
    check_toc<std::chrono::duration<double>>(c, tp, "s (double)");
    auto x = Steady::now(); double v = gul14::toc(tp); auto y = Steady::now();
    CHECK(v >= std::chrono::duration<double>(x - tp).count() && v <= std::chrono::duration<double>(y - tp).count(), "toc-default", v);
    switch (r.below(6))
    {
    case 0: check_toc<nanoseconds>(c, tp, "ns"); break; case 1: check_toc<microseconds>(c, tp, "us"); break; case 2: check_toc<milliseconds>(c, tp, "ms"); break;
    case 3: check_toc<seconds>(c, tp, "s"); break; case 4: check_toc<std::chrono::duration<double, std::ratio<60>>>(c, tp, "min (double)"); break; default: check_toc<std::chrono::duration<float, std::milli>>(c, tp, "ms (float)");
    }
    check_toc<hours>(c, tp, "h"); check_toc<minutes>(c, tp, "min");
    static_assert(std::is_same<decltype(gul14::toc(tp)), double>::value && std::is_same<decltype(gul14::toc<milliseconds>(tp)), milliseconds::rep>::value, "");
    c.distinct((std::uint64_t)back.count());
}
