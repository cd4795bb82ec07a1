"""Which executions decide which property: harness sources, builds (sanitizers), process counts."""


def seq(src, rule, assumptions=(), plain_scale=None, valgrind=None, **kw):
    """A property of sequential code: ASan+UBSan build always; other builds in the thorough tier."""
    src = src if isinstance(src, list) else [src]
    jobs = [dict(src=src, variant="asan", shards=kw.pop("shards", 6), **kw)]
    if plain_scale:
        jobs.append(dict(src=src, variant="plain", shards=2, scale=plain_scale, **kw))
    jobs.append(dict(src=src, variant="asan-clang", shards=6, thorough_only=True, **kw))
    if valgrind:
        jobs.append(dict(src=src, variant="valgrind", shards=4, scale=valgrind, thorough_only=True, **kw))
    return {"rule": rule, "jobs": jobs, "assumptions": list(assumptions)}


CONFIG = {}
TECHNIQUE = {}

CONFIG["C22"] = seq("c22_escape.cc", "random and systematic byte strings in exactly sized buffers; non-trivial: at least one character changes")
CONFIG["C23"] = seq("c23_replace.cc", "random haystacks, needles and replacements; non-trivial: the needle occurs")
CONFIG["C25"] = seq("c25_tokenize.cc", "random texts and delimiter sets; non-trivial: at least one delimiter occurs")
CONFIG["C26"] = seq("c26_trim.cc", "random texts and character sets; non-trivial: something is removed")
CONFIG["C27"] = seq("c27_case.cc", "random byte strings; non-trivial: contains at least one letter")
CONFIG["C28"] = seq("c28_substring.cc", "random pairs of related strings; non-trivial: the answer is true, or false for a near miss")
CONFIG["C17"] = seq("c17_string_view.cc", "random texts, arguments, positions and counts for four character types, compared with std::basic_string; non-trivial: text and argument not empty", shards=8)
CONFIG["C18"] = seq("c18_span.cc", "random ranges and sub-ranges of several element types; non-trivial: distinct contents")
CONFIG["C19"] = seq("c19_ints.cc", "integer texts around all type limits, digit strings, mutations, all one- and two-byte strings, for 13 types; non-trivial: distinct text")
CONFIG["C20"] = seq("c20_float.cc", "decimal numbers of all layouts and magnitudes, compared with glibc's correctly rounding strtof/strtod/strtold; distinct texts", ["glibc strto* are correctly rounding"])
CONFIG["C21"] = seq("c21_float_grammar.cc", "valid, mutated and arbitrary texts and all short texts over the number alphabet, against an independent recognizer; distinct texts")
CONFIG["C24"] = seq("c24_split_join.cc", "random and systematic texts, delimiters, regular expressions and containers; non-trivial: at least two pieces")
CONFIG["C29"] = seq("c29_cat.cc", "random values of all argument types in all pairs, many triples and longer lists; non-trivial: distinct non-empty results")
CONFIG["C30"] = seq("c30_string_util.cc", "random integers of all types and containers, strings, lengths; non-trivial: distinct non-empty results")
CONFIG["C31"] = seq("c31_hexdump.cc", "random data of all integer types and lengths, containers, prompts and stream states against an independent formatter; distinct dumps", parts=4)
CONFIG["C32"] = seq("c32_statistics.cc", "random data sets (exact ties, offsets, wide ranges, NaN) of several types and containers against definitions in extended precision; non-trivial: at least two elements", ["tolerances of 8(n+4) epsilon of the largest magnitude for sums"])
CONFIG["C33"] = seq("c33_num_util.cc", "pairs of related and unrelated numbers of all arithmetic types around all edges, against 113-bit and 128-bit exact arithmetic; distinct argument tuples", ["verdicts within the rounding error of a limit are not taken"])
CONFIG["C34"] = seq("c34_gcd_lcm.cc", "pairs of integers of 18 type combinations and all pairs of 8-bit integers against 128-bit arithmetic; distinct pairs")
CONFIG["C35"] = seq("c35_bits.cc", "values and all bit numbers of 14 integer types, all 8- and 16-bit values; distinct (type, value, bit)")
CONFIG["C36"] = seq("c36_finalizer.cc", "random histories of creations, moves, assignments and (exceptional) scope exits with actions that record their execution; distinct histories")
CONFIG["C43"] = seq("c43_invoke.cc", "calls of functions, function objects and members through all kinds of object expressions with recording arguments; names of generated types against their spelling; distinct argument tuples")
CONFIG["C15"] = seq("c15_sliding_buffer.cc", "random histories for 11 buffer types and all (capacity, ring position, fill level, operation) states up to capacity 8 (13), against a bounded deque; distinct histories and states")
CONFIG["C16"] = seq("c16_sliding_exposed.cc", "random histories for 10 buffer types and all (capacity, ring position, fill level, resize) states up to capacity 8 (13), with traversals recorded by element address; distinct histories and states")
CONFIG["C12"] = seq("c12_smallvector.cc", "random histories of 40 kinds of operations on three vectors for 13 combinations of element type and inline capacity, including self-references and single-pass ranges, compared with a std::vector model after each operation; distinct histories", parts=6)
CONFIG["C13"] = seq("c13_smallvector_life.cc", "the histories of C12 with exceptions injected at random constructors, assignments and allocations; every element object is tracked; distinct histories", parts=6)
CONFIG["C14"] = seq("c14_smallvector_storage.cc", "the histories of C12 with addresses, capacities, object identities and allocations observed; distinct histories", parts=6)
CONFIG["C37"] = seq("c37_optional.cc", "random histories on three optionals of tracked types with injected exceptions, comparisons of plain types, against a model; distinct histories")

# ---- concurrency: real threads, schedules perturbed by link-time wrappers
WRAP = ["-Wl,--wrap=" + s for s in (
    "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_timedwait", "pthread_cond_clockwait",
    "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE",
    "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv")]


def conc(src, rule, quick=("plain", "asan"), thorough=("tsan", "asan-clang", "tsan-clang"), scale=None, shards=6, technique=None, assumptions=(), **kw):
    scale = scale or {}
    jobs = []
    for v in quick + tuple(t for t in thorough if t not in quick):
        j = dict(src=[src, "perturb.cc"], variant=v, shards=shards, ldflags=WRAP, **kw)
        if v in scale:
            j["scale"] = scale[v]
        if v not in quick:
            j["thorough_only"] = True
        jobs.append(j)
    return {"rule": rule, "jobs": jobs, "assumptions": list(assumptions), "technique": technique}


LINTECH = "runtime monitoring: recorded concurrent histories of the real pool under injected delays and spurious wake-ups, judged by an offline linearizability checker and invariants; sanitizer builds"
CONFIG["C01"] = conc("c01_pool_once.cc", "concurrent producers and nested tasks with 10 kinds of functions, all ways of adding, random delays at every synchronization call; distinct: observed interleavings of calls, task starts and task ends", technique="runtime monitoring: exactly-once and result-identity monitors on concurrent executions of the real pool under injected delays and spurious wake-ups; sanitizer builds")
CONFIG["C02"] = conc("c02_pool_order.cc", "single-thread pools with all mixtures of start times, N-thread pools with queue snapshots taken by the tasks, barriers of N tasks after various histories; distinct scripts and interleavings", technique=LINTECH)
CONFIG["C03"] = conc("c03_pool_schedule.cc", "scripts of additions and cancellations with start times for fresh, idle, busy and waiting workers; every start is compared with its start time, and nothing else touches the pool; distinct scripts and interleavings", technique="runtime monitoring: start-time monitors on scripted and concurrent executions of the real pool under injected delays and spurious wake-ups; sanitizer builds",
                     assumptions=["the system clock is not set back while a check runs", "a started-too-late verdict needs 15 s of delay"])
CONFIG["C04"] = conc("c04_pool_capacity.cc", "concurrent additions to pools of small and large capacity with busy workers (exact numbers) and with running workers (histories judged by the linearizability checker), argument limits; distinct interleavings and configurations", technique=LINTECH)
CONFIG["C05"] = conc("c05_pool_cancel.cc", "cancellations racing against workers, each other and bulk cancellation: conservation of tasks, linearizability of the histories, exact answers while the workers are busy; distinct interleavings and scripts", technique=LINTECH)
CONFIG["C06"] = conc("c06_pool_states.cc", "concurrent histories with all queries judged by the linearizability checker, gated executions with exactly known states, a high-frequency observer, results whose move constructor is stopped; distinct interleavings and scripts", technique=LINTECH)
CONFIG["C07"] = conc("c07_pool_shutdown.cc", "destruction with busy, idle, starting and waiting workers, pending, scheduled, cancelled and finished tasks and blocked getters; distinct configurations and scripts", technique="runtime monitoring: lifecycle monitors (tasks, threads, function objects, handles) on destructions of the real pool at random moments under injected delays and spurious wake-ups; sanitizer builds")
CONFIG["C08"] = conc("c08_pool_races.cc", "all public functions of pools and handles from all threads, tasks and destructors, without any other synchronization; plain memory handed over through tasks; destruction with handles in use; distinct: workload seeds and outcomes", quick=("tsan", "asan"), thorough=("tsan", "asan", "tsan-clang", "asan-clang"), scale={"asan": 0.5}, technique="runtime monitoring: ThreadSanitizer (races, lock order), AddressSanitizer and LeakSanitizer and a deadlock watchdog on stress workloads under injected delays and spurious wake-ups")
CONFIG["C09"] = conc("c09_pool_signals.cc", "signal masks of all workers for random masks of the creating thread, in first, second, scheduled and nested tasks; signals sent to the process while tasks run; distinct (mask, number of threads) and (signal, configuration)", quick=("plain", "tsan"), thorough=("asan", "tsan-clang"), scale={"tsan": 0.3, "tsan-clang": 0.3}, technique="runtime monitoring: monitors on the signal masks of pool threads and on the receiving threads of delivered signals")
CONFIG["C10"] = conc("c10_trigger.cc", "concurrent histories of operations judged by a linearizability checker for one bool; waiting threads and a trigger set before, during and after the waits begin; destruction with waiting threads; distinct histories and workloads", quick=("tsan", "plain"), thorough=("asan", "tsan-clang", "asan-clang"), scale={"tsan": 0.7}, technique="runtime monitoring: recorded concurrent histories of real triggers under injected delays and spurious wake-ups, judged by a linearizability checker and a lost-wake-up watchdog; ThreadSanitizer and AddressSanitizer")
CONFIG["C11"] = conc("c11_time.cc", "timed waits and sleeps with 9 kinds of durations and 6 kinds of time points (4 clocks) on triggers that are set, not set, or set meanwhile, under spurious wake-ups; toc for time points up to a day ago in 8 units; sleeps, waits and time measurements of up to 30 years under virtual time with interruptions by signals; distinct parameters", quick=("plain", "asan"), thorough=("tsan", "asan-clang"), technique="runtime monitoring: clock monitors around every timed call under injected delays and spurious wake-ups; sanitizer builds", assumptions=["the system clock is not set back while a check runs"])
CONFIG["C11"]["jobs"].insert(1, dict(src=["c11_virtual.cc"], variant="plain", shards=4, ldflags=["-ldl"]))
CONFIG["C38"] = seq("c38_expected.cc", "random histories on three expected objects of 13 pairs of tracked value and error types and 5 error types with void, with injected exceptions; monadic operations, conversions; comparisons of plain types; against a model; distinct histories", parts=4)
CONFIG["C39"] = seq("c39_variant.cc", "random histories on three variants of 7 lists of tracked alternatives with injected exceptions, visitation of one to three variants, lists of 5 to 70 alternatives, plain types, hashing; against a model; distinct histories", parts=4)
CONFIG["C40"] = seq("c40_date.cc", "every day of all supported years (-32767 to 32767), random calendar arithmetic, rounding, times of day, formatting and parsing at 14 resolutions against an incremental calendar, 128-bit arithmetic and strftime; distinct years, argument tuples, points in time", ["glibc strftime for names and week numbers in the C locale"], parts=7, shards=8)
CONFIG["C41"] = seq("c41_bounds.cc", "55 groups of functions on random texts, numbers and related texts in read-only memory that ends or starts at an inaccessible page (and in exactly sized heap blocks), surrounded by text that would change the results; ranges of 8 element types with range-checking iterators; wide string views; distinct inputs", plain_scale=0.5, valgrind=0.02)
CONFIG["C42"] = conc("c42_concurrent.cc", "54 groups of functions on shared texts, all const functions of shared objects and programs on separate objects, by 2 to 8 threads without other synchronization, also as the very first use in a process; results compared with those of one thread; distinct inputs and outcomes", quick=("tsan",), thorough=("tsan", "tsan-clang", "asan"), scale={"asan": 0.5}, technique="runtime monitoring: ThreadSanitizer and comparison of results with single-threaded executions on unsynchronized threads; AddressSanitizer builds")
