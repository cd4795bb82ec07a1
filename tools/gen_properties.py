#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["public API"], "hook_needed": None}})
I = "include/gul14/"
TP = [I + "ThreadPool.h", "src/ThreadPool.cc"]

p("C01", "Thread pool runs every accepted task exactly once, result to its own handle",
  "Every task that a thread pool accepts and that is not cancelled is executed exactly once, however many threads add tasks at the same time and whether they are added from outside or from inside of other tasks, with any of the ways to add a task. Its handle, and no other handle, delivers exactly the value that this function returned or the exception that it threw. A task that throws never prevents the pool from running other tasks.",
  ["schedules", "histories"], "all interleavings of any number of producers, workers and tasks that add tasks, for all pool sizes, result types and exceptions",
  "The tests add a handful of tasks from one thread on one schedule; they cannot exclude a duplicated, lost or swapped task under another interleaving.",
  TP, [("pending queue guarded by the pool mutex, task moved out and erased under the lock", "src/ThreadPool.cc perform_work()"), ("packaged_task and future per task", "include/gul14/ThreadPool.h add_task()")])
p("C02", "Thread pool starts due tasks in order of addition, N tasks at a time",
  "Whenever a worker becomes free, it starts the task that was added first among those pending tasks whose start time has been reached. A pool with one thread therefore executes tasks that are due strictly one after the other in the order in which they were added. A pool with N threads never executes more than N tasks at the same time, but does execute N tasks at the same time if that many are due.",
  ["schedules", "histories"], "all mixes of immediate and scheduled tasks, cancellations, pool sizes and interleavings",
  "The tests look at one order for one short queue; they do not observe the order across cancellations from the middle, scheduled tasks, several producers or long queues.",
  TP, [("first due task in queue order", "src/ThreadPool.cc perform_work()"), ("fixed set of worker threads", "src/ThreadPool.cc ThreadPool()")])
p("C03", "Scheduled tasks start neither before their time nor get forgotten",
  "A task that was added with a start time or a delay never begins before that time. Once its time has been reached and a worker is free, it is started without needing any other activity on the pool. This holds in whatever order tasks with earlier, later or no start time are added or cancelled, and whether the workers were busy, idle, or already waiting for some other start time.",
  ["schedules", "histories", "inputs"], "all sequences of additions with past, present and future start times and cancellations, all pool sizes, all wake-up interleavings",
  "The tests use one or two delayed tasks; a missed wake-up or a wrong choice of the next time to wait for needs a particular combination of waiting workers and start times.",
  TP, [("wait until the earliest start time, re-evaluated after each wake-up", "src/ThreadPool.cc perform_work()"), ("notification for each added task", "include/gul14/ThreadPool.h add_task()")])
p("C04", "Thread pool honours its capacity and its documented argument limits",
  "The number of pending tasks never exceeds the capacity: adding a task to a full queue throws std::runtime_error and leaves the pool unchanged, adding one to a queue that is not full succeeds, and a task that has started or was cancelled no longer counts, even if many threads add tasks concurrently. The pool reports the capacity and the number of threads it was created with, and it reports being full exactly while the number of pending tasks equals the capacity. Requests for zero or more than 10000 threads or for a capacity of zero or more than 10000000 are rejected with std::invalid_argument.",
  ["schedules", "histories", "configurations"], "all capacities, pool sizes and concurrent mixes of additions, starts and cancellations",
  "The tests fill one queue from one thread; a check-then-act race or an off-by-one after cancelling needs concurrent producers or specific histories.",
  TP, [("is_full_i() checked under the same lock as the insertion", "include/gul14/ThreadPool.h add_task()"), ("argument checks", "src/ThreadPool.cc ThreadPool()")])
p("C05", "Cancelling removes pending tasks only, and accounts for every task",
  "Cancelling through a handle returns true if and only if that very task was still pending; the task then never runs, leaves the queue at once and no other task is affected. Otherwise it returns false and neither the task nor its result is affected, also if the call is repeated or made from within a task. Cancelling all pending tasks removes exactly the tasks pending at that moment and returns their number, so that at any time the accepted tasks are the sum of those pending, running, completed and cancelled.",
  ["schedules", "histories"], "all interleavings of cancel calls from several threads with task starts, completions and additions",
  "The tests cancel one task on an otherwise idle schedule; the race between a cancel call and the start of the task is never driven.",
  TP, [("lookup and removal under the pool mutex", "src/ThreadPool.cc cancel_pending_task(), cancel_pending_tasks()"), ("handle drops its future only if the task was removed", "include/gul14/ThreadPool.h TaskHandle::cancel()")])
p("C06", "Task states and pool queries are truthful at all times",
  "The state of a task as seen through its handle only moves from pending to running to complete, or from pending to canceled, also if it is cancelled in bulk; it is running while its function executes, and once a task is reported as complete its function has finished and its result or exception is available without blocking. The list of pending task names contains exactly the names of the pending tasks in the order of addition, and the list of running task names contains exactly those of the executing ones, with a task in exactly one of the two from its addition until its end. The pending count and the idle query agree with these lists: a pool is idle if and only if it has neither pending nor running tasks.",
  ["schedules", "histories"], "all interleavings of queries with additions, starts, completions and cancellations, all names",
  "The tests query states at a few chosen points; contradicting or going-backwards answers only show in transitions that need many concurrent observations.",
  TP, [("states derived from the queue and list of running IDs under one lock", "src/ThreadPool.cc get_task_state(), is_idle(), get_pending_task_names(), get_running_task_names()"), ("completion flag and future", "include/gul14/ThreadPool.h TaskHandle::is_complete(), get_state()")])
p("C07", "Destroying a thread pool is orderly: running tasks finish, others never start",
  "Destroying a thread pool blocks until all tasks that have been started are finished, starts no further task, ends all its threads and releases the function objects of all tasks (only the handle of a task can keep its function object longer); tasks that were not started count as cancelled. Running tasks can see that shutdown was requested, and before the destruction begins this is never reported. Afterwards, a handle still delivers the result of a finished task, fails with an exception instead of blocking or returning a value for a task that was never started, reports completion correctly, and throws std::logic_error for operations that need the pool.",
  ["schedules", "histories"], "all moments at which the pool may be destroyed relative to queued, scheduled and running tasks and waiting workers",
  "The tests destroy pools at one or two points; a missed shutdown notification or a task started too late needs a particular timing.",
  TP, [("shutdown flag set under the mutex, notify_all, join", "src/ThreadPool.cc ~ThreadPool()"), ("weak reference from handle to pool", "src/ThreadPool.cc lock_pool_or_throw()")])
p("C08", "Thread pool is free of data races, deadlocks and use-after-free",
  "All public functions of a thread pool and of task handles can be called at any time from any threads, including from inside tasks and from destructors of task functions and results, without data races, deadlocks, leaks or use of freed memory. Everything that was done before adding a task is visible to the task, and everything a task did is visible to a thread that has seen its completion or got its result.",
  ["schedules"], "all interleavings of all public functions on shared pools (different handles in different threads)",
  "Unit tests run without a race detector and without contention on all entry points.",
  TP, [("a single mutex protecting all mutable state", "src/ThreadPool.cc"), ("result transfer with std::future", "include/gul14/ThreadPool.h")])
p("C09", "Pool threads block the documented signals and only those",
  "While any task is executed by any thread of a pool, the signals SIGALRM, SIGINT, SIGPIPE, SIGTERM, SIGURG, SIGUSR1 and SIGUSR2 are blocked in that thread, so that such a signal sent to the process is never handled by a pool thread. All other signals keep the setting that the creating thread had. Creating, using and destroying a pool does not alter the signal mask of any other thread.",
  ["configurations", "histories"], "all pool sizes, all workers, all initial signal masks of the creating thread, all moments of signal delivery",
  "No test looks at signal masks or sends signals.",
  ["src/ThreadPool.cc"], [("pthread_sigmask() at thread start", "src/ThreadPool.cc perform_work()")])
p("C10", "Trigger behaves like one atomic flag and never loses a wake-up",
  "Concurrent operations on a trigger behave as if executed one after the other on a single boolean: reading it returns the most recently assigned state, and the different ways of setting and resetting it are equivalent. Every thread that waits without a timeout resumes if the trigger is set and stays set, whether it was set before or after the wait began, and however many threads wait; it does not resume while the trigger has not been set. Destroying a trigger releases all threads waiting on it, and this is safe.",
  ["schedules", "histories"], "all interleavings of any number of threads setting, resetting, reading, waiting and destroying",
  "The tests use one or two threads on one schedule; lost wake-ups need the notification to fall into a small window.",
  [I + "Trigger.h", "src/Trigger.cc"], [("flag changed under the mutex, notify_all, predicate re-checked", "src/Trigger.cc, include/gul14/Trigger.h")])
p("C11", "Timed waits and sleeps last long enough, can be interrupted, and report it right",
  "A timed wait on a trigger returns true as soon as the trigger is set, and immediately if it is already set, even if the timeout is zero, negative or already past; otherwise it returns false, and not before the given time span or time point has passed, for all clocks and units. An interruptible sleep returns true if the whole duration has passed and false if it was interrupted through its trigger; a plain sleep lasts at least the given time and returns true. Elapsed time measured with the tic/toc pair is never negative, never decreases, and is the time that has passed in the requested unit.",
  ["schedules", "inputs"], "all durations, units and clocks, all moments of interruption",
  "The tests sample a few durations with wide tolerances.",
  [I + "Trigger.h", I + "time_util.h"], [("condition variable waits with predicate", "include/gul14/Trigger.h wait_for(), wait_until()"), ("sleep(), tic(), toc()", "include/gul14/time_util.h")])
p("C12", "SmallVector always contains what a standard vector would contain",
  "After any sequence of valid operations, a SmallVector contains the same elements in the same order as a std::vector subjected to the same operations, and all accessors, iterators, return values, comparisons and documented exceptions agree with it. This holds for every inline capacity and element type, for arguments that refer to elements of the vector itself, for ranges given by any kind of input iterator, and across the transitions between inline and heap storage. Copies, moves and swaps transfer exactly the contents, and copies are independent.",
  ["inputs", "histories", "configurations"], "all sequences of operations, element types (including move-only, copy-only and types with unusual constructors) and inline capacities",
  "The tests apply single operations to small fixed vectors; the state space of size, capacity, storage kind, position and aliasing is not covered.",
  [I + "SmallVector.h"], [("shifting and relocation of elements", "include/gul14/SmallVector.h insert(), erase(), resize(), operator=, swap()")])
p("C13", "SmallVector constructs and destroys elements exactly once, even on exceptions",
  "At any time exactly the elements of a SmallVector are alive: no operation uses, assigns to or destroys an object that is not alive, constructs over a living one, leaks one, or leaks memory. This also holds if an element's constructor or assignment or a memory allocation throws at any point of any operation: the vector can then still be used and destroyed, and a failed attempt to append an element or to move the vector leaves the contents unchanged if the elements can be copied or can be moved without throwing. (Copying a vector of elements with a non-throwing copy is declared not to throw, so that there a failed allocation ends the program.)",
  ["inputs", "histories", "fault_sequences"], "all sequences of operations, with an exception injected at every possible point",
  "The tests never inject an exception and do not track the lifetime of each element.",
  [I + "SmallVector.h"], [("placement new and explicit destruction in uninitialized storage", "include/gul14/SmallVector.h")])
p("C14", "SmallVector storage: inline without allocation, contiguous, documented capacity",
  "A SmallVector that never grew beyond its inline capacity never allocates memory, and its elements live inside of the object. Elements are always contiguous and properly aligned (on the heap for fundamental alignments, as usual in C++14), the capacity is never less than the size nor less than the inline capacity, reserving guarantees at least the requested capacity, no operation that fits into the capacity reallocates or invalidates references to elements in front of the point of modification, and growing by appending takes amortized constant time. Shrinking moves the elements back into inline storage if they fit, and moving or swapping vectors with heap storage transfers the storage without touching the elements.",
  ["inputs", "histories", "configurations"], "all sequences of operations, element sizes and alignments, inline capacities",
  "The tests check capacities in a few states and do not observe allocations or addresses.",
  [I + "SmallVector.h"], [("internal aligned array vs. heap array", "include/gul14/SmallVector.h reserve(), shrink_to_fit(), move operations")])
p("C15", "SlidingBuffer holds the newest elements in the right order",
  "After any sequence of pushes and pops at either end, insertions into a full buffer discarding an element at the other end, reservations, resizes with either shrink behaviour and clearing, a SlidingBuffer contains exactly the elements that a bounded double-ended queue would contain, in order. Indexing, bounds-checked access, front and back, forward, backward and const iteration and the size, capacity, full and empty queries all agree with that content, for fixed-size and resizable underlying containers. Out-of-range access through the checked accessor throws std::out_of_range. Writing the buffer to a stream writes each element in that order.",
  ["inputs", "histories", "configurations"], "all sequences of operations and capacities, all positions of the ring in the underlying container",
  "The tests run a few scripted sequences on small buffers; the combination of wrap-around position, fill level and operation is not covered.",
  [I + "SlidingBuffer.h"], [("ring indices idx_begin_/idx_end_/full flag", "include/gul14/SlidingBuffer.h")])
p("C16", "SlidingBufferExposed: traversing the storage visits every element once",
  "The exposed variant of the sliding buffer has the same content under all operations as the plain one. Traversing it from begin to end, forward or backward, visits every valid element exactly once (in storage order, not in order of age) and never leaves the storage of the buffer; it visits unused slots only while the occupied part of the storage wraps around its end, and visits nothing exactly if the buffer is empty.",
  ["inputs", "histories", "configurations"], "all sequences of operations and capacities",
  "The tests use the exposed variant in a few states only.",
  [I + "SlidingBuffer.h"], [("direct container iterators", "include/gul14/SlidingBuffer.h SlidingBufferExposed")])
p("C17", "string_view gives the answers of std::string_view",
  "For all contents (including embedded null characters and non-ASCII bytes), character types, positions and lengths (including those beyond the end and the maximum value), all member functions, comparisons, searches, stream output and concatenations of the string view return what C++17 specifies for std::string_view, and throw std::out_of_range exactly where it does. All operations depend only on the characters inside of the view.",
  ["inputs"], "all pairs of views, positions and counts, all character types",
  "Existing tests barely exercise the string view directly; the boundary arithmetic of positions and counts is not sampled.",
  [I + "string_view.h"], [("find, rfind, find_*_of, compare, substr", "include/gul14/string_view.h")])
p("C18", "span always denotes exactly the elements it was asked to",
  "A span, whether of fixed or dynamic extent and however constructed (from pointers, arrays, containers or other spans), denotes exactly the elements it was given, without copying them. Its subviews (first, last, subspan), element access, iteration in both directions, byte views and comparisons deliver exactly the elements that the corresponding positions of the underlying range have.",
  ["inputs", "configurations"], "all element types, extents, offsets and counts",
  "The tests cover only few constructions and subviews.",
  [I + "span.h"], [("pointer and size arithmetic", "include/gul14/span.h")])
p("C19", "to_number accepts exactly the valid integers and booleans, with exact values",
  "For every integer type, converting a string yields exactly the number that the string denotes if the string consists of nothing but an optional minus sign (for signed types) and decimal digits and the number can be represented in the type. All other strings (empty, with whitespace, plus sign, other characters or out of range by any amount) yield an empty result. For bool exactly 0, 1, true and false (in any mixture of case) are accepted.",
  ["inputs"], "all strings and all integer types from 8 to 64 bits",
  "The tests sample some numbers and range limits per type; overflow detection has to be right for every digit string.",
  [I + "to_number.h", "src/to_number.cc"], [("digit-wise conversion with overflow checks", "include/gul14/to_number.h to_unsigned_integer()")])
p("C20", "to_number converts floating-point strings with the promised precision",
  "For float, double and long double, every string that denotes a decimal number (optional minus sign, digits with optional decimal point, optional exponent) is converted to the number that it denotes, with an error of at most a few units in the last place (for long double, of the 19th significant digit), however many digits and leading or trailing zeros it has and however the value is distributed between mantissa and exponent. Values that are too large yield infinity and values that are too small yield zero, with the right sign. A number printed with all of its significant digits is converted back to (nearly) the same number.",
  ["inputs"], "all decimal floating-point strings",
  "The tests sample some dozens of numbers; errors of the scaling show only for particular combinations of digits and exponents.",
  [I + "to_number.h"], [("mantissa/exponent normalisation and powers of ten", "include/gul14/to_number.h to_unsigned_float()")])
p("C21", "to_number rejects everything that is not a floating-point number",
  "For floating-point types, a string yields a result if and only if it consists, from its first to its last character, of an optional minus sign followed by either digits with at most one decimal point (and at least one digit) and an optional exponent of e or E, optional sign and at least one digit, or one of inf, infinity, nan or nan(...) with letters, digits and underscores, in any case; only an exponent that exceeds the range of int may also be rejected. Infinity and NaN are returned with the right kind and sign. Any other string, including one with whitespace, null characters or trailing garbage at any place, yields an empty result.",
  ["inputs"], "all strings",
  "The tests sample some malformed strings; acceptance has to be right for every string.",
  [I + "to_number.h"], [("float grammar", "include/gul14/to_number.h")])
p("C22", "escape produces printable ASCII and unescape inverts it for every string",
  "For every string, escaping yields a string of printable ASCII characters only: the shorthand escapes for carriage return, newline, tabulator, backslash and double quote, a backslash, x and exactly two lowercase hex digits for all other non-printable and non-ASCII characters, and everything else unchanged. Unescaping the result yields the original string. Unescaping an arbitrary string never fails, evaluates exactly these escape sequences and leaves all other characters unchanged.",
  ["inputs"], "all byte strings, including incomplete and unknown escape sequences",
  "The tests sample some strings and escape sequences.",
  [I + "escape.h", "src/escape.cc"], [("escape(), unescape()", "src/escape.cc")])
p("C23", "replace replaces all occurrences and nothing else",
  "Replacing yields the haystack in which all non-overlapping occurrences of the needle, found from left to right, are replaced by the replacement, with everything else unchanged; occurrences that only arise through a replacement are not replaced, and an empty needle changes nothing. The in-place function leaves exactly the same string in its argument and returns a reference to it.",
  ["inputs"], "all haystacks, needles and replacements",
  "The tests sample some strings.",
  [I + "replace.h", "src/replace.cc"], [("replace(), replace_inplace()", "src/replace.cc")])
p("C24", "split and join are exact inverses and find every delimiter",
  "Splitting a string at a non-empty delimiter yields the pieces between all non-overlapping occurrences of it from left to right, including empty ones, and at least one piece, no piece containing the delimiter; splitting at a regular expression (that does not match the empty string) yields the pieces between all its matches. Joining concatenates all strings of any container or range with the glue between them, and joining the pieces of a split with the same (possibly empty) delimiter always restores the text. All result containers and insertion functions receive the same pieces, and views returned point into the original text.",
  ["inputs", "configurations"], "all texts, delimiters, regular expressions and container types",
  "The tests sample some texts.",
  [I + "join_split.h"], [("split(), split_sv(), join()", "include/gul14/join_split.h")])
p("C25", "tokenize yields the maximal delimiter-free pieces",
  "Tokenizing a string yields exactly its maximal non-empty substrings without delimiter characters, in order, for every set of delimiters (including the empty set, the null character and bytes outside of ASCII) and for the default whitespace. All result containers and insertion functions receive the same tokens, and views returned point into the original text.",
  ["inputs", "configurations"], "all texts, delimiter sets and container types",
  "The tests sample some texts.",
  [I + "tokenize.h", "src/string_util.cc"], [("tokenize()", "include/gul14/tokenize.h")])
p("C26", "trim removes exactly the requested characters from the requested ends",
  "Trimming removes the longest prefix and/or suffix (as requested) that consists of characters of the given set, or of the default whitespace characters, and nothing else; trimming with an empty set removes nothing. The functions returning strings and those returning views agree, and the views point to the corresponding part of the input.",
  ["inputs"], "all strings and character sets",
  "The tests sample some strings.",
  [I + "trim.h", "src/trim.cc", "src/string_util.cc"], [("trim family", "src/trim.cc")])
p("C27", "ASCII case conversion changes ASCII letters only",
  "Converting characters or strings to lowercase or uppercase maps each ASCII letter to its counterpart and leaves every other byte unchanged, at every position of strings of all lengths and regardless of the locale. The copying, in-place and single-character variants agree, and the in-place functions return a reference to their argument.",
  ["inputs"], "all characters and strings",
  "The tests sample some strings.",
  [I + "case_ascii.h", "src/case_ascii.cc"], [("case conversion", "src/case_ascii.cc")])
p("C28", "Substring checks find exactly what they are asked for",
  "The contains, starts-with and ends-with checks return true if and only if the string contains, starts with or ends with the given character or string, where the empty string is found in every string. The case-insensitive variants, and the case-insensitive equality of two strings (equals_nocase), do the same treating ASCII letters (and no other characters) of different case as equal.",
  ["inputs"], "all pairs of strings (including embedded null characters and non-ASCII bytes), strings and characters",
  "The tests sample some strings.",
  [I + "substring_checks.h"], [("contains(), starts_with(), ends_with(), *_nocase(), equals_nocase()", "include/gul14/substring_checks.h")])
p("C29", "cat concatenates any number of strings and numbers without loss",
  "Concatenating any number of arguments of any supported types in any order yields the concatenation of their individual representations: strings, views and C strings as they are (including embedded null characters), characters as one character, and numbers of all integer and floating-point types in the format of std::to_string.",
  ["inputs", "configurations"], "all numbers, types, orders and values of arguments",
  "The tests sample some argument lists.",
  [I + "cat.h", "src/cat.cc"], [("cat(), ConvertingStringView", "include/gul14/cat.h, src/cat.cc")])
p("C30", "String helpers: hex_string, repeat, safe_string and default whitespace are exact",
  "The hex string of an integer or of a range of integers has for each value exactly two lowercase hex digits per byte of the type that denote its value (two's complement for negative numbers), with the separator between values only. Repeating a string n times yields its n-fold concatenation. Making a safe string from a pointer and a length yields an empty string for a null pointer, and otherwise the characters up to the first null character or the given length, whichever comes first, without reading beyond.",
  ["inputs"], "all values, integer types, containers, separators, repetitions, buffers",
  "The tests sample some values.",
  [I + "string_util.h", "src/string_util.cc"], [("hex_string(), repeat(), safe_string()", "include/gul14/string_util.h, src/string_util.cc")])
p("C31", "Hexdump shows every byte of the data exactly, in string and stream form",
  "The hexdump of a range of integers shows, in lines of 16 elements with an hexadecimal offset, each element once, in order, as an unsigned number with two lowercase hex digits per byte, followed for one-byte elements by the text column with non-printable characters as dots; the prompt is put in front of the first line, following lines are indented accordingly, and data beyond 16000 elements is replaced by a truncation mark. Writing the dump of iterators, containers or temporaries to any stream produces the same text regardless of the number format and locale set for the stream (or globally), and does not change them.",
  ["inputs", "configurations"], "all data, element types, container types, lengths, prompts and stream states",
  "The tests compare a few dumps.",
  [I + "hexdump.h"], [("hexdump(), hexdump_stream()", "include/gul14/hexdump.h")])
p("C32", "Statistics functions compute what they promise for all data",
  "For all non-empty data, the mean, RMS, median, standard deviation, minimum, maximum and user-defined accumulation equal their mathematical definition within rounding errors; minimum and maximum ignore NaNs, the median of an even number of elements is the mean of the two middle ones, and the input is never modified. Empty and too small data give the documented NaN or extreme values. Removing outliers removes one after the other the elements farthest from the mean of the remaining ones and keeps the order of the others; results are the same for containers and iterators, with and without an accessor.",
  ["inputs", "configurations"], "all data sets, element types, containers, accessors and result types",
  "The tests sample some data sets.",
  [I + "statistics.h"], [("mean(), rms(), median(), minimum(), maximum(), min_max(), remove_outliers(), standard_deviation(), accumulate()", "include/gul14/statistics.h")])
p("C33", "Numeric comparisons and clamp follow their definitions at all edges",
  "Comparing with an absolute tolerance is true if and only if the difference is not greater than the magnitude of the (finite) tolerance, including infinite arguments and for all integer types whose difference can be represented; comparing with a number of ULPs is true for numbers at most that many representable steps apart and false for those clearly more than twice as far apart (for numbers of ULPs that are small compared to the precision of the type), infinities only being equal to themselves and NaN to nothing; comparing orders of magnitude is true for equal finite numbers, and for different finite numbers if and only if the difference is less than the larger magnitude divided by that power of ten. All three are symmetric. Clamping returns a reference to the value if it is inside or equivalent to the limits, otherwise to the limit exceeded, and the absolute value works for all arithmetic types.",
  ["inputs"], "all finite, infinite and subnormal values, all arithmetic types",
  "The tests sample some values.",
  [I + "num_util.h"], [("within_abs(), within_orders(), within_ulp(), clamp(), abs()", "include/gul14/num_util.h")])
p("C34", "gcd and lcm are mathematically exact",
  "For all pairs of integers of the same signedness, the greatest common divisor is the largest positive integer that divides both (zero if both are zero) and the least common multiple is the smallest non-negative common multiple, whenever the result can be represented in the common type, irrespective of signs, order and widths of the arguments.",
  ["inputs"], "all pairs of integers of all types",
  "The tests sample some pairs.",
  [I + "gcd_lcm.h"], [("Euclidean algorithm", "include/gul14/gcd_lcm.h")])
p("C35", "Bit functions touch exactly the addressed bit",
  "For every integer type, value and bit number below the width of the type, setting, resetting and flipping return the value with exactly this bit set, cleared or inverted and all other bits unchanged (including the sign bit of signed types and the upper bits of wide types), and testing returns exactly the state of this bit. The endianness queries agree with the memory layout of integers.",
  ["inputs"], "all integer types, values and bit numbers",
  "The tests sample some bits.",
  [I + "bit_manip.h"], [("bit_set(), bit_reset(), bit_flip(), bit_test()", "include/gul14/bit_manip.h")])
p("C36", "A final action runs exactly once, when the last owner leaves its scope",
  "A final action is executed exactly once at the end of the lifetime of the object that owns it, on normal exit as well as if the scope is left by an exception, and not before. Moving transfers the action so that only the new owner executes it, through any chain of moves; assigning to an object replaces (and discards) the action it owned until then, and the object moved from executes nothing anymore; a callable passed as an lvalue is copied and remains usable.",
  ["histories", "inputs"], "all sequences of creations, moves, assignments and exits, all kinds of callables",
  "The tests sample some moves.",
  [I + "finalizer.h"], [("FinalAction", "include/gul14/finalizer.h")])
p("C37", "optional holds its value correctly through all operations",
  "After any sequence of constructions, assignments, emplacements, swaps and resets, an optional contains exactly the value that the last successful operation gave to it or nothing, all accessors and comparisons agree with that (as specified for std::optional), and accessing the value of an empty one through the checked accessor throws. The contained object is constructed and destroyed exactly once and is neither leaked nor used after its end, also if an operation throws.",
  ["histories", "inputs", "fault_sequences"], "all sequences of operations, value types, and exceptions thrown by the value type",
  "The tests run single operations without lifetime tracking or exceptions.",
  [I + "optional.h"], [("engaged flag and union storage", "include/gul14/optional.h")])
p("C38", "expected holds either a value or an error, never a mixture",
  "After any sequence of constructions, assignments, emplacements and swaps, an expected object contains exactly the value or the error given to it by the last successful operation, all accessors, monadic operations and comparisons agree with that, and checked access to a missing value throws the exception carrying the error. The contained object is constructed and destroyed exactly once, and if an operation throws (and at least one of the two types can be moved without throwing, as std::expected demands), the object still holds a valid value or error and nothing is leaked.",
  ["histories", "inputs", "fault_sequences"], "all sequences of operations, value types (including void) and error types, and exceptions thrown by them",
  "The tests run single operations without lifetime tracking or exceptions.",
  [I + "expected.h"], [("union storage with discriminator", "include/gul14/expected.h")])
p("C39", "variant always knows which alternative it holds",
  "After any sequence of constructions, assignments, emplacements and swaps, a variant holds exactly the alternative and value that the last successful operation gave to it; index, checked and unchecked access, visitation of one or several variants, hashing and comparisons agree with that (as specified for std::variant), and accessing a wrong alternative throws. The contained object is constructed and destroyed exactly once, and after an exception the variant either holds a valid alternative or reports being valueless.",
  ["histories", "inputs", "fault_sequences"], "all sequences of operations, lists of alternatives, and exceptions thrown by them",
  "The tests run single operations without lifetime tracking or exceptions.",
  [I + "variant.h"], [("recursive union with index", "include/gul14/variant.h")])
p("C40", "Calendar conversions are exact and reversible over their whole range",
  "For every day in the supported range of years, converting between a day count and a year/month/day date in both directions is exact, in agreement with the proleptic Gregorian calendar, as are the validity of dates, leap years, last days of months, weekdays, nth weekdays of months, and year and month arithmetic. Formatting a date and time (of the years 1 to 9999, in any subsecond resolution down to picoseconds) gives the fields of that point in time, parsing the text with the same format yields the same point in time again, and text that denotes no valid date or time (such as days of the year or ISO weeks that do not exist, or fields that contradict each other) is rejected without changing the target. Comparisons of calendar values order them chronologically, writing them to a stream states their fields and whether they are invalid, formats asking for fields that a value does not have fail, and durations are formatted with their sign and parsed back to the same duration.",
  ["inputs"], "all days of all supported years, all times of day",
  "The repository has no tests of the calendar functions.",
  [I + "date.h"], [("civil calendar algorithms, format and parse", "include/gul14/date.h")])
p("C41", "String functions never read or write outside of the given text",
  "No function taking string views, pointer/length pairs, iterators or spans accesses memory outside of the characters or elements given to it, whatever their content, even if they are not null-terminated, empty or null, and none has undefined behaviour for any such input. String and number conversions never fail with an exception for any input.",
  ["inputs"], "all byte strings of all lengths in memory bounded on both sides by inaccessible areas",
  "The tests use null-terminated literals without memory checkers, where an access beyond the end goes unnoticed.",
  [I + "string_view.h", I + "to_number.h", "src/escape.cc", "src/trim.cc", "src/replace.cc", "src/string_util.cc", I + "tokenize.h", I + "join_split.h", I + "substring_checks.h", "src/case_ascii.cc", "src/cat.cc", I + "hexdump.h"], [("explicit lengths everywhere", "include/gul14, src")])
p("C42", "Free functions and separate objects can be used concurrently",
  "All free functions can be called from any number of threads at the same time, also on the same read-only input, and separate objects (as well as one object through its const functions) can be used from different threads at the same time without data races, and they return the same results as if called from one thread only.",
  ["schedules"], "all interleavings of all free functions and const member functions",
  "The tests call them from one thread only; hidden shared state such as static buffers would go unnoticed.",
  ["src", "include/gul14"], [("absence of mutable global state", "src, include/gul14")])
p("C43", "invoke calls exactly what it is given, and type_name names the exact type",
  "gul14::invoke calls the given function, function object or member exactly once, on the given object (reached directly, through any kind of pointer, or through a reference wrapper), with the arguments and value categories as given and without extra copies, and passes on its result or exception unchanged; the traits invoke_result, is_invocable(_r), remove_cvref and IsContainerLike give the right answer. type_name returns the complete spelling of the type, so that different types get different names.",
  ["inputs"], "all callables, object expressions, arguments, and types",
  "The tests sample a few callables and type names.",
  [I + "traits.h", I + "type_name.h"], [("invoke dispatch", "include/gul14/traits.h"), ("type_name", "include/gul14/type_name.h")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")
