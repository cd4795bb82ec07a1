// Perturbation of schedules: link-time wrappers (perturb.cc) around the synchronization calls
// inject delays and legal spurious wake-ups. No source of /repo is changed.
#pragma once
#include "monitor.h"

namespace vm {

enum Site { before_lock, after_unlock, before_wait, after_wait, before_notify, after_notify, n_sites };

// Chooses a random profile of delays for the following case (seeded); all off if seed is 0
void perturb(std::uint64_t seed, bool strong = true);
// Threads inside of a condition variable's wait function (as seen by the wrappers)
int threads_in_wait();
std::uint64_t perturb_count(int what); // 0: delays, 1: spurious wake-ups, 2: waits, 3: notifications, 4: locks
// A random delay by hand
void jitter();
// The calling thread is not delayed
void perturb_exempt();

// Watchdog: reports a violation if the case does not end in time
void watch(const char* what, double seconds = 40);
void unwatch();

inline void perturb_report(Case& c)
{
    static std::uint64_t last[5];
    static const char* names[5] = { "injected_delays", "injected_spurious_wakeups", "condition_waits", "notifications", "mutex_locks" };
    for (int i = 0; i < 5; ++i) { std::uint64_t v = perturb_count(i); c.count(names[i], v - last[i]); last[i] = v; }
}

} // namespace vm
