// C36: every final action runs exactly once, at the end of the lifetime of its owner
#include "gen.h"
#include <memory>
#include <set>
#include <gul14/finalizer.h>
using namespace vm;

// Observed executions: action id -> number of runs; event counter
static std::map<int, int> g_runs;
static std::vector<int> g_log;
static long g_live = 0; // live payloads of callables
struct Fn
{
    int id; std::shared_ptr<int> payload;
    explicit Fn(int i) : id(i), payload(std::make_shared<int>(i)) { ++g_live; }
    Fn(const Fn& o) : id(o.id), payload(o.payload) { ++g_live; }
    Fn(Fn&& o) noexcept : id(o.id), payload(std::move(o.payload)) { ++g_live; }
    Fn& operator=(const Fn&) = default;
    Fn& operator=(Fn&& o) noexcept { id = o.id; payload = std::move(o.payload); return *this; }
    ~Fn() { --g_live; }
    void operator()()
    {
        if (!payload) VIOL("moved-from", "a moved-from action was executed, id " << id);
        if (*payload != id) VIOL("payload", "wrong payload");
        ++g_runs[id]; g_log.push_back(id);
    }
};
struct MoveOnly
{
    int id; std::unique_ptr<int> p;
    explicit MoveOnly(int i) : id(i), p(new int(i)) {}
    void operator()() { if (!p) VIOL("moved-from", "moved-from move-only action executed"); ++g_runs[id]; g_log.push_back(id); }
    MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default;
};
struct ConstFn { int id; void operator()() const { ++g_runs[id]; g_log.push_back(id); } };
static int g_fp_id = -1;
static void plain_function() { ++g_runs[g_fp_id]; g_log.push_back(g_fp_id); }

template <typename F, typename Make> void history(Case& c, const char* tn, Make make)
{
    using FA = gul14::FinalAction<F>;
    Rng& r = c.rng;
    g_runs.clear(); g_log.clear();
    const int slots = 1 + (int)r.below(5);
    std::vector<std::unique_ptr<FA>> obj(slots);
    std::vector<int> owner(slots, -1); // id of the action owned, -1: none
    int next = 0;
    std::set<int> discarded; // replaced by move assignment
    std::string ops;
    auto expect = [&](const std::map<int, int>& runs) { CHECK(g_runs == runs, "runs", tn << " " << ops << ": observed " << g_runs.size() << " actions, expected " << runs.size() << " or different counts"); };
    std::map<int, int> model;
    int n = 3 + (int)r.below(25);
    for (int i = 0; i < n; ++i)
    {
        int a = (int)r.below(slots), b = (int)r.below(slots);
        switch (r.below(6))
        {
        case 0: case 1: // create
            if (obj[a]) break;
            ops += "create" + std::to_string(a) + " ";
            obj[a].reset(new FA(gul14::finally(make(next)))); owner[a] = next++;
            break;
        case 2: // destroy
            if (!obj[a]) break;
            ops += "destroy" + std::to_string(a) + " ";
            expect(model);
            obj[a].reset(); if (owner[a] >= 0) ++model[owner[a]]; owner[a] = -1;
            break;
        case 3: // move-construct
            if (!obj[a] || obj[b] || a == b) break;
            ops += "move" + std::to_string(a) + ">" + std::to_string(b) + " ";
            obj[b].reset(new FA(std::move(*obj[a]))); owner[b] = owner[a]; owner[a] = -1; c.count("moves");
            break;
        case 4: // move-assign; the action that the target owned until then is discarded
            if (!obj[a] || !obj[b]) break;
            ops += "assign" + std::to_string(a) + ">" + std::to_string(b) + " ";
            if (a == b) { FA& self = *obj[a]; *obj[a] = std::move(self); c.count("self-assignments"); break; }
            if (owner[b] >= 0) { discarded.insert(owner[b]); c.count("discarded"); }
            *obj[b] = std::move(*obj[a]); owner[b] = owner[a]; owner[a] = -1; c.count("move-assignments");
            break;
        default: // a scope left by an exception, with or without move into an outer object
        {
            int id = next++;
            bool out = !obj[a] && r.chance(1, 2);
            ops += out ? "throw-moved " : "throw ";
            bool caught = false;
            try
            {
                auto f = gul14::finally(make(id));
                expect(model);
                if (out) { obj[a].reset(new FA(std::move(f))); owner[a] = id; }
                throw 5;
            }
            catch (int) { caught = true; }
            CHECK(caught, "exception", "swallowed");
            if (!out) ++model[id];
            c.count("exceptions");
            break;
        }
        }
        expect(model);
    }
    for (int i = 0; i < slots; ++i) { obj[i].reset(); if (owner[i] >= 0) ++model[owner[i]]; expect(model); }
    for (int id = 0; id < next; ++id) CHECK(g_runs[id] == (discarded.count(id) ? 0 : 1), "exactly-once", tn << " action " << id << " ran " << g_runs[id] << " times: " << ops);
    c.eval(next); c.count("actions", next); c.distinct(hash_str(ops + tn)); c.sample(std::string(tn) + ": " + ops);
}
GROUP("histories", 20000, 400000)
{
    history<Fn>(c, "Fn", [](int id) { return Fn(id); });
    CHECK(g_live == 0, "leak", "callables alive: " << g_live);
    history<MoveOnly>(c, "MoveOnly", [](int id) { return MoveOnly(id); });
    history<std::function<void()>>(c, "std::function", [](int id) { return std::function<void()>([id] { ++g_runs[id]; g_log.push_back(id); }); });
    history<ConstFn>(c, "ConstFn", [](int id) { return ConstFn{ id }; });
}
GROUP("scopes", 5000, 50000)
{
    Rng& r = c.rng;
    g_runs.clear(); g_log.clear();
    int how = (int)r.below(4);
    // nested scopes: reverse order of declaration, on return, exception, break and normal exit
    auto body = [&]() -> int {
        auto f1 = gul14::finally([&] { ++g_runs[1]; g_log.push_back(1); });
        for (int i = 0; i < 3; ++i)
        {
            auto f2 = gul14::finally([&, i] { ++g_runs[10 + i]; g_log.push_back(10 + i); });
            CHECK(g_runs[10 + i] == 0 && g_runs[1] == 0, "too-early", "action executed before the end of the scope");
            if (how == 1) return 7;
            if (how == 2) throw std::runtime_error("x");
            if (how == 3) break;
        }
        auto f3 = gul14::finally([&] { ++g_runs[2]; g_log.push_back(2); });
        CHECK(g_runs[2] == 0 && g_runs[1] == 0, "too-early", "");
        return 8;
    };
    bool thrown = false; int ret = 0;
    try { ret = body(); } catch (const std::runtime_error&) { thrown = true; }
    std::vector<int> want;
    if (how == 0) want = { 10, 11, 12, 2, 1 }; else if (how == 1 || how == 2) want = { 10, 1 }; else want = { 10, 2, 1 };
    CHECK(thrown == (how == 2) && (how == 2 || ret == (how == 1 ? 7 : 8)), "control-flow", "");
    CHECK(g_log == want, "order", "exit kind " << how << ": " << g_log.size() << " actions");
    // lvalues are copied and stay usable
    g_runs.clear(); g_log.clear();
    {
        Fn fn(5);
        { auto f = gul14::finally(fn); CHECK(g_runs[5] == 0, "too-early", ""); CHECK(bool(fn.payload), "lvalue-moved", "the callable passed as lvalue was moved from"); }
        CHECK(g_runs[5] == 1, "lvalue", g_runs[5]);
        fn();
        CHECK(g_runs[5] == 2, "lvalue-usable", "");
        const Fn& cfn = fn; { auto f = gul14::finally(cfn); } CHECK(g_runs[5] == 3, "const-lvalue", "");
        { gul14::FinalAction<Fn> f{ fn }; auto g = std::move(f); auto h = std::move(g); CHECK(g_runs[5] == 3, "chain-early", ""); }
        CHECK(g_runs[5] == 4, "chain", g_runs[5]);
        CHECK(bool(fn.payload), "lvalue-moved", "");
    }
    CHECK(g_live == 0, "leak", g_live);
    g_fp_id = 77; g_runs.clear();
    { auto f = gul14::finally(plain_function); CHECK(g_runs[77] == 0, "fp-early", ""); } CHECK(g_runs[77] == 1, "fp", "");
    { auto f = gul14::finally(&plain_function); auto g = std::move(f); } CHECK(g_runs[77] == 2, "fp-moved", "");
    // returned from a function, kept in a container
    {
        auto make = [](int id) { auto f = gul14::finally([id] { ++g_runs[id]; }); return f; };
        auto f = make(90); CHECK(g_runs[90] == 0, "returned-early", "");
        std::vector<gul14::FinalAction<Fn>> v;
        int k = 1 + (int)r.below(9);
        for (int i = 0; i < k; ++i) { v.push_back(gul14::finally(Fn(100 + i))); }
        for (int i = 0; i < k; ++i) CHECK(g_runs[100 + i] == 0, "vector-early", "action ran during reallocation");
        v.clear();
        for (int i = 0; i < k; ++i) CHECK(g_runs[100 + i] == 1, "vector", g_runs[100 + i]);
    }
    CHECK(g_runs[90] == 1, "returned", g_runs[90]);
    // an action that is executed while the stack is unwound due to another exception
    try { auto f = gul14::finally([] { ++g_runs[91]; try { throw 1; } catch (int) {} }); throw 2; } catch (int e) { CHECK(e == 2, "nested-exception", e); }
    CHECK(g_runs[91] == 1, "unwinding", g_runs[91]);
    static_assert(!std::is_copy_constructible<gul14::FinalAction<Fn>>::value && !std::is_copy_assignable<gul14::FinalAction<Fn>>::value && !std::is_default_constructible<gul14::FinalAction<Fn>>::value, "");
    c.eval(12); c.distinct(how); 
}
