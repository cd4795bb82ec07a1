// Workloads on a thread pool with a recorded history, and a linearizability checker for it.
#pragma once
#include "gen.h"
#include "perturb.h"
#include <gul14/ThreadPool.h>
#include <algorithm>
#include <array>
#include <chrono>
#include <deque>
#include <memory>
#include <thread>
#include <time.h>
namespace vm {
using gul14::ThreadPool;
using gul14::TaskState;
using Sys = std::chrono::system_clock;
using Ms = std::chrono::milliseconds;
using Us = std::chrono::microseconds;

inline void nap_us(unsigned us) { struct timespec ts = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; ::nanosleep(&ts, nullptr); }

// A gate that tasks can wait at; built from atomics so that it is not perturbed
struct Gate
{
    std::atomic<int> open_{ 0 }, waiting{ 0 };
    void open() { open_ = 1; }
    void pass() { ++waiting; while (!open_) nap_us(50); --waiting; }
};
template <typename P> void await(const P& p) { for (unsigned i = 0; !p(); ++i) nap_us(i < 100 ? 20 : 200); } // the watchdog ends it

// ---------------------------------------------------------------------------------------------
// Tasks of all kinds
enum Body { b_int, b_int_pool, b_string, b_void, b_unique, b_throw, b_throw_pool, b_throw_int, b_ref, b_vec_pool, n_bodies };
enum Way { w_plain, w_time, w_time_name, w_delay, w_delay_name, w_name, n_ways };
enum When { now_, past, zero_delay, neg_delay, soon, later_far, n_whens };

struct Env;
struct Rec // one task
{
    int id = -1; int body = 0, way = 0, when = 0; std::string name;
    std::atomic<int> begun{ 0 }, ended{ 0 }, alive{ 0 };
    std::uint64_t t_begin = 0, t_end = 0; std::thread::id worker;
    Sys::time_point earliest{}, began_at{}; // nothing begins before 'earliest'
    const ThreadPool* pool_seen = nullptr;
    std::function<void(Rec&)> action;     // what the task does
    std::atomic<bool> accepted{ false }, handle_canceled{ false };
    int ref_target = 0;
    bool definitely_due() const { return when != soon && when != later_far; }
};

struct AnyHandle
{
    virtual ~AnyHandle() = default;
    virtual bool cancel() = 0;
    virtual bool complete() const = 0;
    virtual TaskState state() const = 0;
    // Gets the result: "ok" if it is the right one for this task, otherwise what was wrong
    virtual std::string result(const Rec&) = 0;
};

enum Op { o_add, o_cancel, o_bulk, o_count, o_full, o_idle, o_pending, o_running, o_state, o_complete, o_pick, o_finish, n_ops };
inline const char* op_name(int o) { static const char* n[] = { "add", "cancel", "cancel_all", "count", "is_full", "is_idle", "pending_names", "running_names", "state", "is_complete", "PICK", "FINISH" }; return n[o]; }

struct Event
{
    int op; int task; long long val; std::uint64_t inv, res; std::vector<int> list;
};

struct Env
{
    std::shared_ptr<ThreadPool> pool;
    std::size_t n_threads, capacity;
    std::atomic<std::uint64_t> tick{ 1 };
    std::atomic<int> active{ 0 }, max_active{ 0 };
    std::deque<Rec> recs;
    std::vector<std::atomic<AnyHandle*>> handles;
    std::atomic<int> next{ 0 };
    std::mutex log_m; std::vector<Event> log;
    Env(std::size_t n, std::size_t cap, std::size_t max_tasks) : n_threads(n), capacity(cap), recs(max_tasks), handles(max_tasks)
    {
        for (auto& h : handles) h = nullptr;
        pool = gul14::make_thread_pool(n, cap);
    }
    ~Env() { for (auto& h : handles) delete h.load(); }
    std::uint64_t now() { return tick.fetch_add(1); }
    void record(Event e) { std::lock_guard<std::mutex> l(log_m); log.push_back(std::move(e)); }
    Rec* fresh() { int i = next.fetch_add(1); if (i >= (int)recs.size()) return nullptr; recs[i].id = i; return &recs[i]; }
    int id_of(const std::string& nm) const { return nm.size() > 1 && nm[0] == 't' ? std::atoi(nm.c_str() + 1) : -1; }
};

// Counts living function objects of a task
struct Token
{
    Rec* r;
    explicit Token(Rec* rr) : r(rr) { ++r->alive; }
    Token(const Token& o) : r(o.r) { if (r) ++r->alive; }
    Token(Token&& o) noexcept : r(o.r) { o.r = nullptr; }
    Token& operator=(const Token&) = delete;
    ~Token() { if (r) --r->alive; }
};
struct TaskError : std::runtime_error { int id; explicit TaskError(int i) : std::runtime_error("task " + std::to_string(i)), id(i) {} };

inline void enter(Env& e, Rec& r, const ThreadPool* p)
{
    r.began_at = Sys::now();
    r.t_begin = e.now();
    r.worker = std::this_thread::get_id();
    r.pool_seen = p;
    int a = ++e.active, m = e.max_active.load();
    while (a > m && !e.max_active.compare_exchange_weak(m, a)) {}
    ++r.begun;
    if (r.action) r.action(r);
    --e.active;
    r.t_end = e.now(); // before 'ended', for which others wait before they read the record
    ++r.ended;
}
template <typename T> struct Value;
template <> struct Value<int> { static int make(Rec& r) { return 1000 + r.id; } static bool ok(int v, const Rec& r) { return v == 1000 + r.id; } };
template <> struct Value<std::string> { static std::string make(Rec& r) { return "result of " + std::to_string(r.id) + std::string((std::size_t)(r.id % 40), 'x'); } static bool ok(const std::string& v, const Rec& r) { return v == make(const_cast<Rec&>(r)); } };
template <> struct Value<std::unique_ptr<int>> { static std::unique_ptr<int> make(Rec& r) { return std::unique_ptr<int>(new int(r.id)); } static bool ok(const std::unique_ptr<int>& v, const Rec& r) { return v && *v == r.id; } };
template <> struct Value<std::vector<int>> { static std::vector<int> make(Rec& r) { return std::vector<int>(5, r.id); } static bool ok(const std::vector<int>& v, const Rec& r) { return v == std::vector<int>(5, r.id); } };
template <> struct Value<int&> { static int& make(Rec& r) { return r.ref_target; } static bool ok(int& v, const Rec& r) { return &v == &r.ref_target; } };

template <typename T> struct Handle : AnyHandle
{
    ThreadPool::TaskHandle<T> h;
    explicit Handle(ThreadPool::TaskHandle<T> hh) : h(std::move(hh)) {}
    bool cancel() override { return h.cancel(); }
    bool complete() const override { return h.is_complete(); }
    TaskState state() const override { return h.get_state(); }
    template <typename U> static std::string get(ThreadPool::TaskHandle<U>& hh, const Rec& r) { return Value<U>::ok(hh.get_result(), r) ? "ok" : "wrong value"; }
    static std::string get(ThreadPool::TaskHandle<void>& hh, const Rec&) { hh.get_result(); return "ok"; }
    std::string result(const Rec& r) override
    {
        bool throws = r.body == b_throw || r.body == b_throw_pool || r.body == b_throw_int;
        try { auto s = get(h, r); return throws ? "no exception although the task threw one" : s; }
        catch (const TaskError& e) { return !throws || r.body == b_throw_int ? "unexpected exception" : e.id == r.id ? "ok" : "exception of task " + std::to_string(e.id); }
        catch (int i) { return r.body != b_throw_int ? "unexpected exception" : i == r.id ? "ok" : "exception of another task"; }
        catch (const std::future_error& e) { return std::string("future_error ") + (e.code() == std::future_errc::broken_promise ? "broken_promise" : "other"); }
        catch (const std::logic_error& e) { return std::string("logic_error"); }
        catch (...) { return "unknown exception"; }
    }
};
template <typename T, typename F> AnyHandle* add_way(Env& e, Rec& r, F f)
{
    auto& p = *e.pool; auto far = Sys::now() + std::chrono::hours(3);
    Sys::time_point tp = r.when == past ? Sys::now() - std::chrono::hours(1) : r.when == later_far ? far : r.when == soon ? Sys::now() + Us(100 + 150 * (r.id % 12)) : Sys::time_point{};
    ThreadPool::Duration d = r.when == zero_delay ? ThreadPool::Duration(0) : r.when == neg_delay ? ThreadPool::Duration(-Ms(5)) : r.when == soon ? ThreadPool::Duration(Us(100 + 150 * (r.id % 12))) : r.when == later_far ? ThreadPool::Duration(std::chrono::hours(3)) : ThreadPool::Duration(0);
    switch (r.way)
    {
    case w_plain: return new Handle<T>(p.add_task(std::move(f)));
    case w_time: r.earliest = tp; return new Handle<T>(p.add_task(std::move(f), tp));
    case w_time_name: r.earliest = tp; return new Handle<T>(p.add_task(std::move(f), tp, r.name));
    case w_delay: r.earliest = Sys::now() + d; return new Handle<T>(p.add_task(std::move(f), d));
    case w_delay_name: r.earliest = Sys::now() + d; return new Handle<T>(p.add_task(std::move(f), d, r.name));
    default: return new Handle<T>(p.add_task(std::move(f), r.name));
    }
}
template <typename T> struct Fn { Env* e; Rec* r; Token tok; T operator()() const { enter(*e, *r, nullptr); return Value<T>::make(*r); } };
template <> struct Fn<void> { Env* e; Rec* r; Token tok; void operator()() const { enter(*e, *r, nullptr); } };
template <typename T> struct FnPool { Env* e; Rec* r; Token tok; T operator()(ThreadPool& p) { enter(*e, *r, &p); return Value<T>::make(*r); } };
template <typename T> struct FnMoveOnly { Env* e; Rec* r; Token tok; std::unique_ptr<int> u; T operator()() const { enter(*e, *r, nullptr); return Value<T>::make(*r); } };
struct FnThrow { Env* e; Rec* r; Token tok; int operator()() const { enter(*e, *r, nullptr); throw TaskError(r->id); } };
struct FnThrowPool { Env* e; Rec* r; Token tok; std::string operator()(ThreadPool& p) const { enter(*e, *r, &p); throw TaskError(r->id); } };
struct FnThrowInt { Env* e; Rec* r; Token tok; void operator()() const { enter(*e, *r, nullptr); throw r->id; } };

// Adds the task described by the record; records the call
__attribute__((noinline)) inline bool add(Env& e, Rec& r, bool log = true)
{
    if (r.name.empty()) r.name = "t" + std::to_string(r.id);
    if (r.way == w_plain || r.way == w_time || r.way == w_delay) r.name.clear();
    if (r.way == w_plain || r.way == w_name) r.when = now_;
    if ((r.way == w_time || r.way == w_time_name) && r.when != past && r.when != soon && r.when != later_far) r.when = now_;
    if ((r.way == w_delay || r.way == w_delay_name) && (r.when == past || r.when == now_)) r.when = zero_delay;
    Event ev{ o_add, r.id, 0, e.now(), 0, {} };
    AnyHandle* h = nullptr;
    try
    {
        switch (r.body)
        {
        case b_int: h = add_way<int>(e, r, Fn<int>{ &e, &r, Token(&r) }); break;
        case b_int_pool: h = add_way<int>(e, r, FnPool<int>{ &e, &r, Token(&r) }); break;
        case b_string: h = add_way<std::string>(e, r, Fn<std::string>{ &e, &r, Token(&r) }); break;
        case b_void: h = add_way<void>(e, r, Fn<void>{ &e, &r, Token(&r) }); break;
        case b_unique: h = add_way<std::unique_ptr<int>>(e, r, FnMoveOnly<std::unique_ptr<int>>{ &e, &r, Token(&r), std::unique_ptr<int>(new int(3)) }); break;
        case b_throw: h = add_way<int>(e, r, FnThrow{ &e, &r, Token(&r) }); break;
        case b_throw_pool: h = add_way<std::string>(e, r, FnThrowPool{ &e, &r, Token(&r) }); break;
        case b_throw_int: h = add_way<void>(e, r, FnThrowInt{ &e, &r, Token(&r) }); break;
        case b_ref: { Env* pe = &e; Rec* pr = &r; Token t(&r); h = add_way<int&>(e, r, [pe, pr, t](ThreadPool& p) -> int& { enter(*pe, *pr, &p); return Value<int&>::make(*pr); }); break; }
        default: h = add_way<std::vector<int>>(e, r, FnPool<std::vector<int>>{ &e, &r, Token(&r) });
        }
        ev.val = 1; r.accepted = true;
    }
    catch (const std::runtime_error&) { ev.val = 0; }
    ev.res = e.now();
    bool ok = ev.val == 1;
    if (log) e.record(ev);
    if (ok) e.handles[(std::size_t)r.id] = h;
    return ok;
}
// Takes the handle of a task away from its slot, so that one thread at a time uses it
struct Borrow
{
    Env& e; int id; AnyHandle* h;
    Borrow(Env& ee, int i) : e(ee), id(i), h(ee.handles[(std::size_t)i].exchange(nullptr)) {}
    ~Borrow() { if (h) e.handles[(std::size_t)id] = h; }
};
inline void do_cancel(Env& e, int id) { Borrow b(e, id); if (!b.h) return; Event ev{ o_cancel, id, 0, e.now(), 0, {} }; ev.val = b.h->cancel(); ev.res = e.now(); if (ev.val) e.recs[(std::size_t)id].handle_canceled = true; e.record(ev); }
inline void do_state(Env& e, int id) { Borrow b(e, id); if (!b.h) return; Event ev{ o_state, id, 0, e.now(), 0, {} }; ev.val = (long long)b.h->state(); ev.res = e.now(); e.record(ev); }
inline void do_complete(Env& e, int id) { Borrow b(e, id); if (!b.h) return; Event ev{ o_complete, id, 0, e.now(), 0, {} }; ev.val = b.h->complete(); ev.res = e.now(); e.record(ev); }
inline void do_bulk(Env& e) { Event ev{ o_bulk, -1, 0, e.now(), 0, {} }; ev.val = (long long)e.pool->cancel_pending_tasks(); ev.res = e.now(); e.record(ev); }
inline void do_count(Env& e) { Event ev{ o_count, -1, 0, e.now(), 0, {} }; ev.val = (long long)e.pool->count_pending(); ev.res = e.now(); e.record(ev); }
inline void do_full(Env& e) { Event ev{ o_full, -1, 0, e.now(), 0, {} }; ev.val = e.pool->is_full(); ev.res = e.now(); e.record(ev); }
inline void do_idle(Env& e) { Event ev{ o_idle, -1, 0, e.now(), 0, {} }; ev.val = e.pool->is_idle(); ev.res = e.now(); e.record(ev); }
inline void do_pending(Env& e) { Event ev{ o_pending, -1, 0, e.now(), 0, {} }; auto v = e.pool->get_pending_task_names(); ev.res = e.now(); for (auto& s : v) ev.list.push_back(e.id_of(s)); e.record(ev); }
inline void do_running(Env& e) { Event ev{ o_running, -1, 0, e.now(), 0, {} }; auto v = e.pool->get_running_task_names(); ev.res = e.now(); for (auto& s : v) ev.list.push_back(e.id_of(s)); std::sort(ev.list.begin(), ev.list.end()); e.record(ev); }

inline std::string describe(const Env& e, std::size_t max = 120)
{
    std::vector<Event> l = e.log;
    std::sort(l.begin(), l.end(), [](const Event& a, const Event& b) { return a.inv < b.inv; });
    std::ostringstream o; o << "threads=" << e.n_threads << " capacity=" << e.capacity << ":";
    for (std::size_t i = 0; i < l.size() && i < max; ++i)
    {
        o << " " << op_name(l[i].op); if (l[i].task >= 0) o << "(" << l[i].task << ")";
        if (l[i].op == o_pending || l[i].op == o_running) { o << "={"; for (int x : l[i].list) o << x << " "; o << "}"; } else if (l[i].op < o_pick) o << "=" << l[i].val;
        o << "[" << l[i].inv << "," << l[i].res << "]";
    }
    for (auto& r : e.recs) if (r.begun) o << " run" << r.id << "[" << r.t_begin << "," << r.t_end << "]" << (r.definitely_due() ? "" : "*");
    return o.str();
}

// ---------------------------------------------------------------------------------------------
// Linearizability: is there an order of all calls and of the internal steps "pick" (a worker takes
// a task from the queue) and "finish" (it removes it from the running ones), consistent with real
// time, in which a sequential pool gives all the recorded answers?
struct Lin
{
    enum Verdict { yes, no, unknown };
    Env& e; std::vector<Event> ops; std::vector<int> prev; // prev[pick]: the finish that must precede it
    std::size_t visited = 0, limit; std::unordered_set<std::uint64_t> seen;
    std::vector<char> done; std::vector<int> P; std::vector<char> running, finished, canceled, inP; std::size_t left; std::size_t n_running = 0;
    std::size_t deepest = 0; std::string stuck;
    Lin(Env& ee, std::size_t lim = 300000) : e(ee), limit(lim) {}
    Verdict check()
    {
        ops = e.log;
        const std::uint64_t inf = ~0ull;
        // names without id cannot be told apart: such tasks are called -1 in the lists
        std::map<std::thread::id, std::vector<Rec*>> per_worker;
        for (auto& r : e.recs) if (r.begun) per_worker[r.worker].push_back(&r);
        std::map<int, int> fin_of, prev_task;
        for (auto& pw : per_worker)
        {
            auto& v = pw.second;
            std::sort(v.begin(), v.end(), [](Rec* a, Rec* b) { return a->t_begin < b->t_begin; });
            for (std::size_t i = 0; i < v.size(); ++i)
            {
                std::uint64_t add_inv = 0;
                for (auto& x : e.log) if (x.op == o_add && x.task == v[i]->id) add_inv = x.inv;
                ops.push_back(Event{ o_pick, v[i]->id, 0, i ? std::max(add_inv, v[i - 1]->t_end) : add_inv, v[i]->t_begin, {} });
                if (v[i]->ended) { fin_of[v[i]->id] = (int)ops.size(); ops.push_back(Event{ o_finish, v[i]->id, 0, v[i]->t_end, i + 1 < v.size() ? v[i + 1]->t_begin : inf, {} }); }
                if (i) prev_task[v[i]->id] = v[i - 1]->id;
            }
        }
        prev.assign(ops.size(), -1);
        for (std::size_t i = 0; i < ops.size(); ++i) if (ops[i].op == o_pick && prev_task.count(ops[i].task)) prev[i] = fin_of[prev_task[ops[i].task]];
        done.assign(ops.size(), 0); left = 0;
        for (auto& o : ops) if (o.res != inf || true) ++left;
        std::size_t nt = e.recs.size();
        running.assign(nt, 0); finished.assign(nt, 0); canceled.assign(nt, 0);
        order.resize(ops.size()); for (std::size_t i = 0; i < order.size(); ++i) order[i] = i;
        std::sort(order.begin(), order.end(), [&](std::size_t a, std::size_t b) { return ops[a].res != ops[b].res ? ops[a].res < ops[b].res : ops[a].inv < ops[b].inv; });
        bool r = dfs();
        if (r) return yes;
        return visited >= limit ? unknown : no;
    }
    std::vector<std::size_t> order;
    std::uint64_t key() const
    {
        std::uint64_t h = hash_bytes(done.data(), done.size());
        return P.empty() ? h : hash_bytes(P.data(), P.size() * sizeof(int), h);
    }
    std::vector<int> names(const std::vector<int>& v) const { std::vector<int> r; for (int x : v) r.push_back(e.recs[(std::size_t)x].name.empty() ? -1 : x); return r; }
    std::vector<int> running_list() const { std::vector<int> r; for (std::size_t i = 0; i < running.size(); ++i) if (running[i]) r.push_back(e.recs[i].name.empty() ? -1 : (int)i); std::sort(r.begin(), r.end()); return r; }
    bool dfs()
    {
        if (left == 0) return true;
        if (++visited >= limit) return false;
        if (!seen.insert(key()).second) return false;
        std::uint64_t min_res = ~0ull;
        for (std::size_t i : order) if (!done[i]) { min_res = ops[i].res; break; }
        for (std::size_t i : order)
        {
            if (done[i] || ops[i].inv > min_res) continue;
            if (prev[i] >= 0 && !done[(std::size_t)prev[i]]) continue;
            const Event& o = ops[i]; int t = o.task; std::vector<int> saved; bool ok = false; bool undoP = false;
            auto inpend = [&] { return std::find(P.begin(), P.end(), t); };
            switch (o.op)
            {
            case o_add: if (o.val) { if (P.size() < e.capacity) { ok = true; undoP = true; saved = P; P.push_back(t); } } else ok = P.size() >= e.capacity; break;
            case o_cancel: { auto it = inpend(); if ((it != P.end()) == (o.val != 0)) { ok = true; if (o.val) { undoP = true; saved = P; P.erase(it); canceled[(std::size_t)t] = 1; } } break; }
            case o_bulk: if ((long long)P.size() == o.val) { ok = true; undoP = true; saved = P; for (int x : P) { canceled[(std::size_t)x] = 1; if (e.recs[(std::size_t)x].begun) ok = false; } P.clear(); } break;
            case o_count: ok = (long long)P.size() == o.val; break;
            case o_full: ok = (P.size() >= e.capacity) == (o.val != 0); break;
            case o_idle: ok = (P.empty() && n_running == 0) == (o.val != 0); break;
            case o_pending: ok = names(P) == o.list; break;
            case o_running: ok = running_list() == o.list; break;
            case o_state: { auto s = (TaskState)o.val; bool p = inpend() != P.end(); std::size_t k = (std::size_t)t;
                ok = s == (p ? TaskState::pending : running[k] ? TaskState::running : canceled[k] ? TaskState::canceled : TaskState::complete);
                if (s == TaskState::complete && !finished[k]) ok = false;
                break; }
            case o_complete: ok = o.val ? e.recs[(std::size_t)t].t_end != 0 && e.recs[(std::size_t)t].t_end < o.res : !finished[(std::size_t)t]; break;
            case o_pick: { auto it = inpend(); if (it != P.end() && n_running < e.n_threads) { ok = true; for (auto q = P.begin(); q != it; ++q) if (e.recs[(std::size_t)*q].definitely_due()) ok = false; if (ok) { undoP = true; saved = P; P.erase(it); running[(std::size_t)t] = 1; ++n_running; } } break; }
            case o_finish: ok = running[(std::size_t)t] != 0; if (ok) { running[(std::size_t)t] = 0; --n_running; finished[(std::size_t)t] = 1; } break;
            }
            std::size_t nd = ops.size() - left;
            if (!ok && nd >= deepest) { std::ostringstream s; s << "after " << nd << " steps, pending {"; for (int x : P) s << x << " "; s << "} running {"; for (std::size_t k = 0; k < running.size(); ++k) if (running[k]) s << k << " "; s << "}: impossible " << op_name(o.op) << "(" << t << ")=" << o.val << "[" << o.inv << "," << o.res << "]"; if (nd > deepest) stuck.clear(); deepest = nd; if (stuck.size() < 500) stuck += s.str() + "; "; }
            if (ok)
            {
                done[i] = 1; --left;
                if (dfs()) return true;
                done[i] = 0; ++left;
                if (o.op == o_pick) { running[(std::size_t)t] = 0; --n_running; }
                if (o.op == o_finish) { running[(std::size_t)t] = 1; ++n_running; finished[(std::size_t)t] = 0; }
            }
            if (undoP) { if (o.op == o_cancel) canceled[(std::size_t)t] = 0; if (o.op == o_bulk) for (int x : saved) canceled[(std::size_t)x] = 0; P = saved; }
            if (visited >= limit) return false;
        }
        return false;
    }
};

inline void lin_check(Case& c, Env& e, const char* key)
{
    Lin l(e);
    auto v = l.check();
    c.count("history_events", l.ops.size()); c.count("linearization_steps", l.visited);
    if (v == Lin::unknown) { c.count("histories_undecided"); return; }
    c.count("histories_linearized");
    if (v == Lin::no) VIOL(key, "the recorded history is not possible for a correct pool: " << describe(e) << " | " << l.stuck);
}

// Hash of the observed interleaving (order of all calls and task starts and ends)
inline std::uint64_t interleaving(const Env& e)
{
    std::vector<std::array<std::uint64_t, 2>> ev;
    for (auto& x : e.log) { ev.push_back({ x.inv, (std::uint64_t)x.op * 1000 + (std::uint64_t)(x.task + 1) }); ev.push_back({ x.res, 20000 + (std::uint64_t)x.op * 1000 + (std::uint64_t)(x.task + 1) + 7 * (std::uint64_t)x.val }); }
    for (auto& r : e.recs) if (r.begun) { ev.push_back({ r.t_begin, 50000 + (std::uint64_t)r.id }); ev.push_back({ r.t_end, 60000 + (std::uint64_t)r.id }); }
    std::sort(ev.begin(), ev.end());
    std::uint64_t h = e.n_threads * 31 + e.capacity;
    for (auto& x : ev) h = hash_mix(h, x[1]);
    return h;
}

// ---------------------------------------------------------------------------------------------
// A random concurrent workload. 'mix' gives the weights of the operations.
struct Mix { int w[n_ops]; int soon_percent, far_percent, nested_percent, named_percent; };
inline int weighted(Rng& r, const int* w, int n) { int s = 0; for (int i = 0; i < n; ++i) s += w[i]; int k = (int)r.below((std::size_t)s); for (int i = 0; i < n; ++i) { if (k < w[i]) return i; k -= w[i]; } return 0; }

struct Stress
{
    Case& c; Env& e; Mix mx; std::size_t ops_per_thread; std::uint64_t seed; std::atomic<int> budget;
    Stress(Case& cc, Env& ee, const Mix& m, std::size_t opt, int total) : c(cc), e(ee), mx(m), ops_per_thread(opt), seed(cc.rng.next()), budget(total) {}
    void fill(Rng& r, Rec& t)
    {
        t.body = (int)r.below(n_bodies);
        bool named = (int)r.below(100) < mx.named_percent;
        static const int wn[] = { w_time_name, w_delay_name, w_name, w_name }, wu[] = { w_plain, w_time, w_delay };
        t.way = named ? r.pick(wn) : r.pick(wu);
        int k = (int)r.below(100);
        t.when = k < mx.soon_percent ? (int)soon : k < mx.soon_percent + mx.far_percent ? (int)later_far : (int)r.below(4);
        if ((t.when == soon || t.when == later_far) && (t.way == w_plain || t.way == w_name)) t.way = t.way == w_plain ? w_delay : w_time_name;
        bool nested = (int)r.below(100) < mx.nested_percent; unsigned busy = r.chance(1, 3) ? (unsigned)r.below(300) : 0; std::uint64_t s = r.next();
        t.action = [this, nested, busy, s](Rec&) { Rng q(s); if (busy) nap_us(busy); if (nested) { int n = 1 + (int)q.below(2); for (int i = 0; i < n; ++i) step(q); } };
    }
    void step(Rng& r)
    {
        if (budget.fetch_sub(1) <= 0) return;
        int op = weighted(r, mx.w, o_pick);
        int n = std::min(e.next.load(), (int)e.recs.size());
        int id = n ? (int)r.below((std::size_t)n) : -1;
        if (n && r.chance(1, 2)) id = n - 1 - (int)r.below((std::size_t)std::min(n, 3)); // recent ones
        switch (op)
        {
        case o_add: if (Rec* t = e.fresh()) { fill(r, *t); add(e, *t); } break;
        case o_cancel: if (id >= 0) do_cancel(e, id); break;
        case o_bulk: do_bulk(e); break;
        case o_count: do_count(e); break;
        case o_full: do_full(e); break;
        case o_idle: do_idle(e); break;
        case o_pending: do_pending(e); break;
        case o_running: do_running(e); break;
        case o_state: if (id >= 0) do_state(e, id); break;
        case o_complete: if (id >= 0) do_complete(e, id); break;
        }
    }
    void run(std::size_t n_producers)
    {
        std::vector<std::thread> ts;
        for (std::size_t k = 0; k < n_producers; ++k)
            ts.emplace_back([this, k] {
                Rng r(mix(seed + k * 977 + 5));
                for (std::size_t i = 0; i < ops_per_thread; ++i)
                {
                    step(r);
                    if (r.chance(1, 4)) nap_us((unsigned)r.below(120)); else if (r.chance(1, 3)) std::this_thread::yield();
                }
            });
        for (auto& t : ts) t.join();
    }
    // All tasks have ended or were cancelled; far ones are cancelled now
    void quiesce()
    {
        budget = 0;
        // tasks may still add others: these come later in the list
        for (std::size_t i = 0; i < e.recs.size() && (int)i < e.next.load(); ++i)
        {
            if (!e.recs[i].accepted) continue; // whoever offered it has ended
            // another task may be using the handle, so it may take several attempts
            await([&] {
                Borrow b(e, (int)i);
                if (!b.h) return false;
                auto s = b.h->state();
                if (s == TaskState::pending && e.recs[i].when == later_far)
                {
                    Event ev{ o_cancel, (int)i, 0, e.now(), 0, {} };
                    ev.val = b.h->cancel(); ev.res = e.now();
                    if (ev.val) e.recs[i].handle_canceled = true;
                    e.record(ev);
                }
                return s == TaskState::complete || s == TaskState::canceled;
            });
        }
    }
};
} // namespace vm
