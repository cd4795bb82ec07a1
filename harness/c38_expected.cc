// C38: expected: contents against a model, lifetimes, injected exceptions, monadic operations, comparisons
#include "gen.h"
#include "lifetime.h"
#include <gul14/expected.h>
#include <memory>
using namespace vm;
using gul14::expected; using gul14::unexpected; using gul14::unexpect;
using A = Elem<1, Copy::throwing, Move::nothrow>;
using B = Elem<2, Copy::throwing, Move::throwing>;
using C_ = Elem<3, Copy::throwing, Move::none>;
using D = Elem<4, Copy::no, Move::nothrow>;
using F = Elem<5, Copy::no, Move::throwing>;
using N = Elem<6, Copy::nothrow, Move::nothrow>;
using A2 = Elem<11, Copy::throwing, Move::nothrow>;
using B2 = Elem<12, Copy::throwing, Move::throwing>;
using C2 = Elem<13, Copy::throwing, Move::none>;
using D2 = Elem<14, Copy::no, Move::nothrow>;
using F2 = Elem<15, Copy::no, Move::throwing>;
using N2 = Elem<16, Copy::nothrow, Move::nothrow>;
using AnyErr = Elem<20, Copy::nothrow, Move::nothrow>;

struct M { bool has; int v; };
inline bool operator==(const M& a, const M& b) { return a.has == b.has && a.v == b.v; }

// What all histories share, for value types and void
template <typename O, typename E> struct Base
{
    enum { K = 3 };
    Case& c; bool faults;
    std::unique_ptr<O> o[K]; M m[K]; std::string ops; int next = 1; bool threw = false; std::string where;
    Base(Case& cc, const char* t, bool f) : c(cc), faults(f) { ops = std::string(t) + (f ? "/faults:" : ":"); }
    __attribute__((noinline)) void exec(const char* name, int a, int b, FnRef<void> act, FnRef<void> upd, FnRef<void> upd_throw)
    {
        ops += std::string(" ") + name + std::to_string(a) + (b >= 0 ? "," + std::to_string(b) : ""); G().desc = ops; life().context = G().desc.c_str();
        threw = false;
        if (faults && c.rng.chance(1, 2)) life().countdown = (long)c.rng.below(4);
        try { act(); } catch (const Injected& e) { threw = true; where = e.where; }
        life().countdown = -1;
        c.count("operations");
        if (threw) { c.count("exceptions injected in " + where); upd_throw(); ops += "!"; } else upd();
    }
    // Moving the contents of object b away (copy-only types are not changed by that)
    template <typename T> void moved(M& x, bool vm, bool em) { if (x.has ? vm : em) x.v = -1; }
    void check_error(int i)
    {
        O& x = *o[i]; const O& cx = x; int v = m[i].v;
        CHECK(life().live.count(&x.error()), "dead", ops << ": the contained error is not alive");
        CHECK(x.error().value == v && cx.error().value == v, "error", ops << " object " << i << ": " << x.error().value << " expected " << v);
        E&& re = std::move(x).error(); const E&& rce = std::move(cx).error();
        CHECK(&x.error() == &cx.error() && &re == &x.error() && &rce == &x.error(), "error-address", ops);
    }
};

template <typename T, typename E> struct Run : Base<expected<T, E>, E>
{
    using O = expected<T, E>; using S = Base<O, E>; using S::c; using S::o; using S::m; using S::ops; using S::next; using S::exec; using S::K; using S::faults;
    enum { copyable = T::copyable && E::copyable, swappable = std::is_nothrow_move_constructible<T>::value || std::is_nothrow_move_constructible<E>::value };
    Run(Case& cc, const char* t, bool f) : S(cc, t, f) { for (int i = 0; i < K; ++i) { if (i & 1) { o[i].reset(new O(unexpect, 70 + i)); m[i] = M{ false, 70 + i }; } else { o[i].reset(new O()); m[i] = M{ true, 0 }; } } }
    M actual(int i) { O& x = *o[i]; return x.has_value() ? M{ true, (*x).value } : M{ false, x.error().value }; }
    void mv(int b) { if (m[b].has ? T::movable : E::movable) m[b].v = -1; }
    // checked access to a missing value
    void bad(O& x, int v, std::true_type)
    {
        const O& cx = x; int t = 0;
        try { (void)x.value(); } catch (const gul14::bad_expected_access<E>& e) { t += e.error().value == v; }
        try { (void)cx.value(); } catch (gul14::bad_expected_access<E>& e) { t += e.error().value == v && std::string(e.what()).size(); }
        try { (void)std::move(cx).value(); } catch (const gul14::bad_expected_access<void>& e) { t += std::string(e.what()).size() != 0; }
        try { (void)cx.value(); } catch (const std::exception&) { ++t; }
        CHECK(t == 4, "bad-access", ops << ": value() without a value does not throw the error");
        CHECK(x.error().value == v, "bad-access-error", ops << ": the error has been changed");
    }
    void bad(O&, int, std::false_type) {}
    void lvalue_access(O& x, int v, std::true_type)
    {
        const O& cx = x; const T&& cv = std::move(cx).value();
        CHECK(x.value().value == v && cx.value().value == v, "value", ops); CHECK(&x.value() == &*x && &cx.value() == &*x && &cv == &*x, "address", ops);
    }
    void lvalue_access(O&, int, std::false_type) {}
    __attribute__((noinline)) void compare()
    {
        for (int i = 0; i < K; ++i)
        {
            O& x = *o[i]; const O& cx = x;
            CHECK(cx.has_value() == m[i].has && bool(cx) == m[i].has, "state", ops << " object " << i << " has_value " << cx.has_value());
            if (m[i].has)
            {
                int v = m[i].v;
                CHECK(life().live.count(&*x), "dead", ops << ": the contained value is not alive");
                CHECK((*x).value == v && (*cx).value == v && x->value == v && cx->value == v , "value", ops << " object " << i << ": " << (*x).value << " expected " << v);
                T&& rv = std::move(x).value(); T&& rd = *std::move(x);
                CHECK(&*x == &*cx && x.operator->() == &*x && cx.operator->() == &*x && &rv == &*x && &rd == &*x, "address", ops);
                lvalue_access(x, v, std::integral_constant<bool, E::copyable>());
            }
            else
            {
                S::check_error(i);
                if (c.rng.chance(1, 10)) { Pause p; bad(x, m[i].v, std::integral_constant<bool, E::copyable>()); }
            }
            for (int j = 0; j < K; ++j) CHECK((cx == *o[j]) == (m[i] == m[j]) && (cx != *o[j]) == !(m[i] == m[j]), "compare", ops << " objects " << i << ", " << j);
            c.eval();
        }
        CHECK(life().live.size() == K, "alive", ops << ": " << life().live.size() << " objects alive, " << K << " contained");
    }
    void do_swap(O& x, O& y, std::true_type) { using std::swap; if (next & 1) swap(x, y); else x.swap(y); }
    void do_swap(O&, O&, std::false_type) {}
    void step(int a, int b, int op)
    {
        O& x = *o[a]; M& mm = m[a]; int k = next++; auto none = [] {};
        switch (op)
        {
        case 0: exec("emplace", a, -1, [&] { x.emplace(k); }, [&] { mm = M{ true, k }; }, none); break;
        case 1: exec("emplace()", a, -1, [&] { x.emplace(); }, [&] { mm = M{ true, 0 }; }, none); break;
        case 2: as_value(x, a, k, std::is_nothrow_move_constructible<E>()); break;
        case 3: { unexpected<E> u = [&] { Pause p; return unexpected<E>(k); }(); exec("=unexpected&&", a, -1, [&] { O& r = (x = std::move(u)); if (&r != &x) VIOL("assign-result", ops); }, [&] { mm = M{ false, k }; }, none); break; }
        case 4: case 5: if (a == b) break; exec("=O&&", a, b, [&] { O& r = (x = std::move(*o[b])); if (&r != &x) VIOL("assign-result", ops); }, [&] { mm = m[b]; mv(b); }, none); break;
        case 6: if (swappable) exec("swap", a, b, [&] { do_swap(x, *o[b], std::integral_constant<bool, swappable>()); }, [&] { if (a != b) std::swap(m[a], m[b]); }, [&] {
                for (int i : { a, b }) { M g = actual(i); CHECK(g.has == m[i].has, "failed-swap", ops << ": object " << i << " changed its state"); CHECK(g.v == m[a].v || g.v == m[b].v || g.v == -1, "failed-swap-value", ops << ": object " << i << " contains " << g.v); }
                for (int i : { a, b }) m[i] = actual(i); }); break;
        case 7: if (a == b) break; else { std::unique_ptr<O> n; exec("O(O&&)", a, b, [&] { n.reset(new O(std::move(*o[b]))); }, [&] { o[a] = std::move(n); m[a] = m[b]; mv(b); }, none); } break;
        case 8: { std::unique_ptr<O> n; exec("O(in_place)", a, -1, [&] { n.reset(new O(gul14::in_place, k)); }, [&] { o[a] = std::move(n); m[a] = M{ true, k }; }, none); break; }
        case 9: { std::unique_ptr<O> n; exec("O(unexpect)", a, -1, [&] { n.reset(new O(unexpect, k)); }, [&] { o[a] = std::move(n); m[a] = M{ false, k }; }, none); break; }
        case 10: { T t = [&] { Pause p; return T(k); }(); std::unique_ptr<O> n; exec("O(T&&)", a, -1, [&] { n.reset(new O(std::move(t))); }, [&] { o[a] = std::move(n); m[a] = M{ true, k }; }, none); break; }
        case 11: { unexpected<E> u = [&] { Pause p; return unexpected<E>(k); }(); std::unique_ptr<O> n; exec("O(unexpected&&)", a, -1, [&] { n.reset(new O(std::move(u))); }, [&] { o[a] = std::move(n); m[a] = M{ false, k }; }, none); break; }
        case 12: exec("self=", a, a, [&] { x = std::move(x); }, [&] { mm.v = actual(a).v; CHECK(actual(a).has == mm.has, "self-assign", ops); }, none); break;
        case 13: { Pause p; if (mm.has) *x = T(k); else x.error() = E(k); mm.v = k; ops += " write"; } break;
        case 14: exec("move-out", a, -1, [&] { if (mm.has) { T t(*std::move(x)); } else { E e(std::move(x).error()); } }, [&] { mv(a); }, none); break;
        case 15: { T t = [&] { Pause p; return T(k); }(); int got = -5; bool had = mm.has; exec("value_or&&", a, -1, [&] { got = std::move(x).value_or(std::move(t)).value; }, [&] { CHECK(got == (had ? mm.v : k), "value_or", ops << ": " << got); if (had && T::movable) mm.v = -1; }, [&] { if (had) mm.v = actual(a).v; }); break; }
        case 16: { Pause p; monadic_rvalue(a); break; }
        case 17: { Pause p; other(a, b, k); break; }
        default: break;
        }
    }
    void as_value(O& x, int a, int k, std::true_type)
    {
        T t = [&] { Pause p; return T(k); }();
        exec("=T&&", a, -1, [&] { O& r = (x = std::move(t)); if (&r != &x) VIOL("assign-result", ops); }, [&] { m[a] = M{ true, k }; }, [] {});
    }
    void as_value(O& x, int a, int k, std::false_type) // only through a temporary
    {
        exec("=O(in_place)", a, -1, [&] { x = O(gul14::in_place, k); }, [&] { m[a] = M{ true, k }; }, [] {});
    }
    // and_then, or_else, transform, transform_error on an rvalue: the contents are handed on
    void monadic_rvalue(int a)
    {
        O& x = *o[a]; bool h = m[a].has; int v = m[a].v, calls = 0, got = -7;
        switch (c.rng.below(4))
        {
        case 0: { auto r = std::move(x).and_then([&](T&& t) { ++calls; got = t.value; return expected<A, E>(gul14::in_place, 1000); });
            CHECK(calls == h && (!h || got == v) && r.has_value() == h && (h ? (*r).value == 1000 : r.error().value == v), "and_then&&", ops); if (!h) { if (E::movable) m[a].v = -1; } break; }
        case 1: { auto r = std::move(x).transform([&](T&& t) { ++calls; got = t.value; return std::to_string(t.value); });
            CHECK(calls == h && (!h || got == v) && r.has_value() == h && (h ? *r == std::to_string(v) : r.error().value == v), "transform&&", ops); if (!h && E::movable) m[a].v = -1; break; }
        case 2: { auto r = std::move(x).transform_error([&](E&& e) { ++calls; got = e.value; return std::to_string(e.value); });
            CHECK(calls == !h && (h || got == v) && r.has_value() == h && (h ? (*r).value == v : r.error() == std::to_string(v)), "transform_error&&", ops); if (h && T::movable) m[a].v = -1; break; }
        default: { auto r = std::move(x).or_else([&](E&& e) { ++calls; got = e.value; return O(unexpect, 2000); });
            CHECK(calls == !h && (h || got == v) && r.has_value() == h && (h ? (*r).value == v : r.error().value == 2000), "or_else&&", ops); if (h && T::movable) m[a].v = -1; }
        }
        ops += " monadic&&"; c.count("monadic operations");
    }
    // conversions from expected objects of other types
    void other(int a, int, int k)
    {
        static const int kinds = 3; int kind = (int)c.rng.below(kinds);
        if (kind == 0) { expected<int, int> s(k); o[a].reset(new O(s)); m[a] = M{ true, k }; }
        else if (kind == 1) { expected<int, int> s(unexpect, k); o[a].reset(new O(std::move(s))); m[a] = M{ false, k }; }
        else { expected<int, long> s(unexpect, k); const auto& cs = s; o[a].reset(new O(cs)); m[a] = M{ false, k }; }
        ops += " convert" + std::to_string(a); c.count("conversions");
    }
    void step_copy(int a, int b, int op, std::false_type) { step(a, b, op); }
    void step_copy(int a, int b, int op, std::true_type)
    {
        O& x = *o[a]; M& mm = m[a]; int k = next++; auto none = [] {};
        switch (op)
        {
        case 0: case 1: exec("=O", a, b, [&] { O& r = (x = static_cast<const O&>(*o[b])); if (&r != &x) VIOL("assign-result", ops); }, [&] { mm = M(m[b]); }, none); break;
        case 2: { std::unique_ptr<O> n; exec("O(O)", a, b, [&] { n.reset(new O(static_cast<const O&>(*o[b]))); }, [&] { m[a] = M(m[b]); o[a] = std::move(n); }, none); break; }
        case 3: copy_value(x, a, k, std::is_nothrow_move_constructible<E>()); break;
        case 4: { const unexpected<E> u = [&] { Pause p; return unexpected<E>(k); }(); exec("=unexpected", a, -1, [&] { x = u; }, [&] { mm = M{ false, k }; CHECK(u.value().value == k, "source", ops); }, none); break; }
        case 5: { const T t = [&] { Pause p; return T(k); }(); std::unique_ptr<O> n; exec("O(T)", a, -1, [&] { n.reset(new O(t)); }, [&] { o[a] = std::move(n); m[a] = M{ true, k }; }, none); break; }
        case 6: { const unexpected<E> u = [&] { Pause p; return unexpected<E>(k); }(); std::unique_ptr<O> n; exec("O(unexpected)", a, -1, [&] { n.reset(new O(u)); }, [&] { o[a] = std::move(n); m[a] = M{ false, k }; }, none); break; }
        case 7: { const T t = [&] { Pause p; return T(k); }(); int got = -5; exec("value_or", a, -1, [&] { got = static_cast<const O&>(x).value_or(t).value; }, [&] { CHECK(got == (mm.has ? mm.v : k), "value_or", ops << ": " << got); }, none); break; }
        case 8: { const T t = [&] { Pause p; return T(k); }(); exec("emplace(T)", a, -1, [&] { x.emplace(t); }, [&] { mm = M{ true, k }; }, none); break; }
        case 9: { Pause p; relational(x, mm, k); break; }
        case 10: { Pause p; monadic(a, k); break; }
        }
    }
    void copy_value(O& x, int a, int k, std::true_type)
    {
        const T t = [&] { Pause p; return T(k); }();
        exec("=T", a, -1, [&] { x = t; }, [&] { m[a] = M{ true, k }; CHECK(t.value == k, "source", ops); }, [] {});
    }
    void copy_value(O& x, int a, int k, std::false_type)
    {
        const O t = [&] { Pause p; return O(gul14::in_place, k); }();
        exec("=O(k)", a, -1, [&] { x = t; }, [&] { m[a] = M{ true, k }; }, [] {});
    }
    void relational(const O& x, const M& mm, int k)
    {
        int q = c.rng.chance(1, 2) ? mm.v : k; const T t(q); const unexpected<E> u(q);
        bool et = mm.has && mm.v == q, eu = !mm.has && mm.v == q;
        CHECK((x == t) == et && (t == x) == et && (x != t) == !et && (t != x) == !et, "compare-value", ops << " with value " << q);
        CHECK((x == u) == eu && (u == x) == eu && (x != u) == !eu && (u != x) == !eu, "compare-error", ops << " with error " << q);
        c.eval(8);
    }
    void monadic(int a, int k)
    {
        O& x = *o[a]; const O& cx = x; bool h = m[a].has; int v = m[a].v, calls = 0; const void* seen = nullptr; const void* in = h ? (const void*)&*x : &x.error();
        bool flip = c.rng.chance(1, 2);
        switch (c.rng.below(5))
        {
        case 0:
        {
            auto f = [&](const T& t) { ++calls; seen = &t; return flip ? expected<B, E>(gul14::in_place, k) : expected<B, E>(unexpect, k); };
            auto r = c.rng.chance(1, 2) ? x.and_then(f) : c.rng.chance(1, 2) ? cx.and_then(f) : std::move(cx).and_then(f);
            CHECK(calls == h && (!h || seen == in) && r.has_value() == (h && flip) && (r.has_value() ? (*r).value : r.error().value) == (h ? k : v), "and_then", ops); break;
        }
        case 1:
        {
            auto f = [&](const E& e) { ++calls; seen = &e; return flip ? O(gul14::in_place, k) : O(unexpect, k); };
            auto r = c.rng.chance(1, 2) ? x.or_else(f) : c.rng.chance(1, 2) ? cx.or_else(f) : std::move(cx).or_else(f);
            CHECK(calls == !h && (h || seen == in) && r.has_value() == (h || flip) && (r.has_value() ? (*r).value : r.error().value) == (h ? v : k), "or_else", ops); break;
        }
        case 2:
        {
            auto f = [&](const T& t) { ++calls; seen = &t; return C_(k); };
            auto r = c.rng.chance(1, 2) ? x.transform(f) : c.rng.chance(1, 2) ? cx.transform(f) : std::move(cx).transform(f);
            CHECK(calls == h && (!h || seen == in) && r.has_value() == h && (h ? (*r).value == k : r.error().value == v), "transform", ops); break;
        }
        case 3:
        {
            auto f = [&](const E& e) { ++calls; seen = &e; return C_(k); };
            auto r = c.rng.chance(1, 2) ? x.transform_error(f) : c.rng.chance(1, 2) ? cx.transform_error(f) : std::move(cx).transform_error(f);
            CHECK(calls == !h && (h || seen == in) && r.has_value() == h && (h ? (*r).value == v : r.error().value == k), "transform_error", ops); break;
        }
        default:
        {
            auto r = x.transform([&](T& t) { ++calls; seen = &t; t.value = k; }); static_assert(std::is_same<decltype(r), expected<void, E>>::value, "");
            CHECK(calls == h && (!h || seen == in) && r.has_value() == h && (h || r.error().value == v), "transform-void", ops); if (h) m[a].v = k;
            int calls2 = 0; auto r2 = cx.transform_error([&](const E& e) { ++calls2; CHECK(e.value == v, "transform_error-void", ops); });
            CHECK(calls2 == !h && r2.has_value() == h && (!h || (*r2).value == m[a].v), "transform_error-void", ops);
        }
        }
        ops += " monadic"; c.count("monadic operations");
    }
    void run(int n)
    {
        compare();
        for (int i = 0; i < n; ++i)
        {
            int a = (int)c.rng.below(K), b = (int)c.rng.below(K);
            if (copyable && c.rng.chance(2, 5)) step_copy(a, b, (int)c.rng.below(11), std::integral_constant<bool, copyable>());
            else step(a, b, (int)c.rng.below(18));
            G().desc = ops; compare();
        }
        for (auto& p : o) p.reset();
        CHECK(life().live.empty(), "leak", ops);
        c.distinct(hash_str(ops)); if (c.want_sample()) c.sample(ops);
    }
};
template <typename E> struct RunV : Base<expected<void, E>, E>
{
    using O = expected<void, E>; using S = Base<O, E>; using S::c; using S::o; using S::m; using S::ops; using S::next; using S::exec; using S::K;
    RunV(Case& cc, const char* t, bool f) : S(cc, t, f) { for (int i = 0; i < K; ++i) { o[i].reset(new O()); m[i] = M{ true, 0 }; } }
    void mv(int b) { if (!m[b].has && E::movable) m[b].v = -1; }
    __attribute__((noinline)) void compare()
    {
        std::size_t n = 0;
        for (int i = 0; i < K; ++i)
        {
            const O& cx = *o[i];
            CHECK(cx.has_value() == m[i].has && bool(cx) == m[i].has, "state", ops << " object " << i << " has_value " << cx.has_value());
            if (!m[i].has) { ++n; S::check_error(i); }
            for (int j = 0; j < K; ++j) { bool eq = m[i].has == m[j].has && (m[i].has || m[i].v == m[j].v); CHECK((cx == *o[j]) == eq && (cx != *o[j]) == !eq, "compare", ops << " objects " << i << ", " << j); }
            c.eval();
        }
        CHECK(life().live.size() == n, "alive", ops << ": " << life().live.size() << " objects alive, " << n << " contained");
    }
    void step(int a, int b, int op)
    {
        O& x = *o[a]; M& mm = m[a]; int k = next++; auto none = [] {}; std::unique_ptr<O> n;
        switch (op)
        {
        case 0: exec("=O()", a, -1, [&] { x = O(); }, [&] { mm = M{ true, 0 }; }, none); break;
        case 1: { unexpected<E> u = [&] { Pause p; return unexpected<E>(k); }(); exec("=unexpected&&", a, -1, [&] { x = std::move(u); }, [&] { mm = M{ false, k }; }, none); break; }
        case 2: case 3: if (a == b) break; exec("=O&&", a, b, [&] { x = std::move(*o[b]); }, [&] { mm = m[b]; mv(b); }, none); break;
        case 4: if (a == b) break; exec("O(O&&)", a, b, [&] { n.reset(new O(std::move(*o[b]))); }, [&] { o[a] = std::move(n); m[a] = m[b]; mv(b); }, none); break;
        case 5: exec("O(unexpect)", a, -1, [&] { n.reset(new O(unexpect, k)); }, [&] { o[a] = std::move(n); m[a] = M{ false, k }; }, none); break;
        case 6: exec("O()", a, -1, [&] { n.reset(new O()); }, [&] { o[a] = std::move(n); m[a] = M{ true, 0 }; }, none); break;
        case 7: { using std::swap; if (a == b) break; exec("swap", a, b, [&] { swap(x, *o[b]); }, [&] { std::swap(m[a], m[b]); }, [&] { for (int i : { a, b }) { m[i].has = o[i]->has_value(); m[i].v = m[i].has ? 0 : o[i]->error().value; } }); break; }
        case 8: { Pause p; bool h = mm.has; int v = mm.v, calls = 0; const O& cx = x;
            switch (c.rng.below(4))
            {
            case 0: { auto r = std::move(x).and_then([&] { ++calls; return expected<int, E>(k); }); CHECK(calls == h && r.has_value() == h && (h ? *r == k : r.error().value == v), "and_then-void", ops); mv(a); break; }
            case 1: { auto r = std::move(x).transform([&] { ++calls; return k; }); CHECK(calls == h && r.has_value() == h && (h ? *r == k : r.error().value == v), "transform-void", ops); mv(a); break; }
            case 2: { auto r = cx.transform_error([&](const E& e) { ++calls; return e.value; }); CHECK(calls == !h && r.has_value() == h && (h || r.error() == v), "transform_error-void", ops); break; }
            default: { auto r = std::move(x).transform([&] { ++calls; }); CHECK(calls == h && r.has_value() == h && (h || r.error().value == v), "transform-void-void", ops); mv(a); }
            }
            ops += " monadic"; break; }
        default: break;
        }
    }
    void step_copy(int, int, int, std::false_type) {}
    void step_copy(int a, int b, int op, std::true_type)
    {
        O& x = *o[a]; M& mm = m[a]; int k = next++; auto none = [] {}; std::unique_ptr<O> n;
        switch (op)
        {
        case 0: case 1: exec("=O", a, b, [&] { x = static_cast<const O&>(*o[b]); }, [&] { mm = M(m[b]); }, none); break;
        case 2: exec("O(O)", a, b, [&] { n.reset(new O(static_cast<const O&>(*o[b]))); }, [&] { m[a] = M(m[b]); o[a] = std::move(n); }, none); break;
        case 3: { const unexpected<E> u = [&] { Pause p; return unexpected<E>(k); }(); exec("=unexpected", a, -1, [&] { x = u; }, [&] { mm = M{ false, k }; }, none); break; }
        default: { Pause p; const unexpected<E> u(c.rng.chance(1, 2) ? mm.v : k); bool eu = !mm.has && u.value().value == mm.v; CHECK((x == u) == eu && (u == x) == eu && (x != u) == !eu && (u != x) == !eu, "compare-error", ops); }
        }
    }
    void run(int n)
    {
        compare();
        for (int i = 0; i < n; ++i)
        {
            int a = (int)c.rng.below(K), b = (int)c.rng.below(K);
            if (E::copyable && c.rng.chance(2, 5)) step_copy(a, b, (int)c.rng.below(5), std::integral_constant<bool, E::copyable>());
            else step(a, b, (int)c.rng.below(9));
            G().desc = ops; compare();
        }
        for (auto& p : o) p.reset();
        CHECK(life().live.empty(), "leak", ops);
        c.distinct(hash_str(ops)); if (c.want_sample()) c.sample(ops);
    }
};
template <typename T, typename E> __attribute__((noinline)) void go(Case& c, const char* tn) { bool f = c.rng.chance(1, 2); Run<T, E> r(c, tn, f); r.run(5 + (int)c.rng.below(30)); }
template <typename E> __attribute__((noinline)) void gov(Case& c, const char* tn) { bool f = c.rng.chance(1, 2); RunV<E> r(c, tn, f); r.run(5 + (int)c.rng.below(30)); }
#if !defined(PART) || PART == 1
GROUP("histories-1", 2000, 40000) { go<A, A2>(c, "<A,A>"); go<B, A2>(c, "<B,A>"); go<A, B2>(c, "<A,B>"); }
GROUP("histories-void", 2500, 50000) { gov<A2>(c, "<void,A>"); gov<B2>(c, "<void,B>"); gov<C2>(c, "<void,C>"); gov<D2>(c, "<void,D>"); gov<F2>(c, "<void,F>"); gov<N2>(c, "<void,N>"); }
#endif
#if !defined(PART) || PART == 2
GROUP("histories-2", 2000, 40000) { go<C_, A2>(c, "<C,A>"); go<A, C2>(c, "<A,C>"); go<N, N2>(c, "<N,N>"); go<N, B2>(c, "<N,B>"); }
#endif
#if !defined(PART) || PART == 3
GROUP("histories-3", 2000, 40000) { go<D, D2>(c, "<D,D>"); go<F, D2>(c, "<F,D>"); go<D, F2>(c, "<D,F>"); go<D, A2>(c, "<D,A>"); go<B, N2>(c, "<B,N>"); go<A, A>(c, "<A,A same>"); }
#endif
#if !defined(PART) || PART == 4
// Plain and mixed types, in which one or both destructors are trivial
template <typename T, typename E> static void plain(Case& c, T t1, T t2, E e1, E e2, const std::string& d)
{
    using O = expected<T, E>; Rng& r = c.rng;
    auto mk = [&](int k) { return k == 0 ? O(t1) : k == 1 ? O(t2) : k == 2 ? O(unexpect, e1) : O(unexpected<E>(e2)); };
    auto is = [&](const O& o, int k) { return k < 2 ? o.has_value() && *o == (k ? t2 : t1) : !o.has_value() && o.error() == (k == 2 ? e1 : e2); };
    int i = (int)r.below(4), j = (int)r.below(4);
    O a = mk(i), b = mk(j); const O ca = a, cb = b;
    c.desc(d + " states " + std::to_string(i) + ", " + std::to_string(j));
    CHECK(is(a, i) && is(b, j) && is(ca, i) && is(cb, j), "construct", "");
    bool eq = i < 2 ? j < 2 && (i ? t2 : t1) == (j ? t2 : t1) : j >= 2 && (i == 2 ? e1 : e2) == (j == 2 ? e1 : e2);
    CHECK((a == b) == eq && (a != b) == !eq && (ca == cb) == eq, "equal", "");
    { O x = a; x = b; CHECK(is(x, j) && is(b, j), "copy-assign", ""); x = O(a); CHECK(is(x, i), "move-assign", ""); x = x; CHECK(is(x, i), "self", ""); swap(x, b); CHECK(is(x, j) && is(b, i), "swap", ""); b.swap(x); CHECK(is(x, i) && is(b, j), "swap2", ""); x.swap(x); CHECK(is(x, i), "self-swap", ""); }
    { O x = a; x = t2; CHECK(is(x, 1), "assign-value", ""); x = unexpected<E>(e2); CHECK(is(x, 3), "assign-error", ""); x = gul14::make_unexpected(e1); CHECK(is(x, 2), "assign-error2", ""); x.emplace(t1); CHECK(is(x, 0), "emplace", ""); }
    { O x = a; const unexpected<E> u(e1); x = u; CHECK(is(x, 2), "assign-const-error", ""); T t = t1; x = t; CHECK(is(x, 0) && t == t1, "assign-lvalue", ""); }
    CHECK(is(O(a.transform([](const T& t) { return t; })), i) && is(a.or_else([](const E& e) { return O(unexpect, e); }), i) && is(ca.and_then([](const T& t) { return O(t); }), i) && is(O(ca.transform_error([](const E& e) { return e; })), i), "monadic", "");
    // map, map_error and or_else in every value category, with functions that return something or nothing
    {
        const bool h = i < 2; int calls = 0; const T tv = i == 1 ? t2 : t1; const E ev = i == 3 ? e2 : e1;
        auto f = [&](const T& x) { ++calls; return std::make_pair(x, 7); }; auto fv = [&](const T& x) { calls += x == tv ? 1 : 100; };
        auto g = [&](const E& x) { ++calls; return std::make_pair(x, 8); }; auto gv = [&](const E& x) { calls += x == ev ? 1 : 100; };
        auto isf = [&](const expected<std::pair<T, int>, E>& x) { return h ? x.has_value() && x->first == tv && x->second == 7 : !x.has_value() && x.error() == ev; };
        auto isfv = [&](const expected<void, E>& x) { return x.has_value() == h && (h || x.error() == ev); };
        auto isg = [&](const expected<T, std::pair<E, int>>& x) { return h ? x.has_value() && *x == tv : !x.has_value() && x.error().first == ev && x.error().second == 8; };
        O x = a;
        CHECK(isf(x.map(f)) && isf(ca.map(f)) && isf(O(a).map(f)) && isf(static_cast<const O&&>(ca).map(f)), "map", ""); CHECK(calls == (h ? 4 : 0) && is(ca, i) && is(x, i), "map-calls", calls); calls = 0;
        CHECK(isf(x.transform(f)) && isf(ca.transform(f)) && isf(O(a).transform(f)) && isf(static_cast<const O&&>(ca).transform(f)), "transform", ""); CHECK(calls == (h ? 4 : 0) && is(ca, i) && is(x, i), "transform-calls", calls); calls = 0;
        CHECK(isfv(x.map(fv)) && isfv(ca.map(fv)) && isfv(O(a).map(fv)) && isfv(static_cast<const O&&>(ca).map(fv)), "map-void", ""); CHECK(calls == (h ? 4 : 0) && is(ca, i) && is(x, i), "map-void-calls", calls); calls = 0;
        CHECK(isg(x.map_error(g)) && isg(ca.map_error(g)) && isg(O(a).map_error(g)) && isg(static_cast<const O&&>(ca).map_error(g)), "map_error", ""); CHECK(calls == (h ? 0 : 4) && is(ca, i) && is(x, i), "map_error-calls", calls); calls = 0;
        CHECK(isg(x.transform_error(g)) && isg(ca.transform_error(g)) && isg(O(a).transform_error(g)) && isg(static_cast<const O&&>(ca).transform_error(g)), "transform_error", ""); CHECK(calls == (h ? 0 : 4) && is(ca, i) && is(x, i), "transform_error-calls", calls); calls = 0;
        CHECK(is(x.or_else(gv), i) && is(ca.or_else(gv), i) && is(O(a).or_else(gv), i) && is(static_cast<const O&&>(ca).or_else(gv), i), "or_else-void", ""); CHECK(calls == (h ? 0 : 4) && is(ca, i) && is(x, i), "or_else-void-calls", calls); calls = 0;
        auto rescue = [&](const E& e) { calls += e == ev ? 1 : 100; return O(t2); };
        CHECK(is(x.or_else(rescue), h ? i : 1) && is(ca.or_else(rescue), h ? i : 1) && is(O(a).or_else(rescue), h ? i : 1) && is(static_cast<const O&&>(ca).or_else(rescue), h ? i : 1), "or_else", ""); CHECK(calls == (h ? 0 : 4), "or_else-calls", calls); calls = 0;
        auto fail = [&](const T& y) { calls += y == tv ? 1 : 100; return O(unexpect, e2); };
        CHECK(is(x.and_then(fail), h ? 3 : i) && is(ca.and_then(fail), h ? 3 : i) && is(O(a).and_then(fail), h ? 3 : i) && is(static_cast<const O&&>(ca).and_then(fail), h ? 3 : i), "and_then", ""); CHECK(calls == (h ? 4 : 0), "and_then-calls", calls); calls = 0;
        // the same with nothing as the value
        using V = expected<void, E>; V v = h ? V() : V(unexpect, ev); const V cv = v;
        auto n = [&] { ++calls; return 5; }; auto nv = [&] { ++calls; }; auto nf = [&] { ++calls; return V(unexpect, e2); };
        auto isn = [&](const expected<int, E>& y) { return h ? y.has_value() && *y == 5 : !y.has_value() && y.error() == ev; };
        auto isge = [&](const expected<void, std::pair<E, int>>& y) { return y.has_value() == h && (h || (y.error().first == ev && y.error().second == 8)); };
        auto isnf = [&](const V& y) { return !y.has_value() && y.error() == (h ? e2 : ev); };
        CHECK(isn(v.map(n)) && isn(cv.map(n)) && isn(V(v).map(n)) && isn(static_cast<const V&&>(cv).map(n)) && isn(v.transform(n)) && isn(cv.transform(n)) && isn(V(v).transform(n)) && isn(static_cast<const V&&>(cv).transform(n)), "nothing-map", ""); CHECK(calls == (h ? 8 : 0), "nothing-map-calls", calls); calls = 0;
        CHECK(isfv(v.map(nv)) && isfv(cv.map(nv)) && isfv(V(v).map(nv)) && isfv(static_cast<const V&&>(cv).map(nv)), "nothing-map-void", ""); CHECK(calls == (h ? 4 : 0), "nothing-map-void-calls", calls); calls = 0;
        CHECK(isge(v.map_error(g)) && isge(cv.map_error(g)) && isge(V(v).map_error(g)) && isge(static_cast<const V&&>(cv).map_error(g)), "nothing-map_error", ""); CHECK(calls == (h ? 0 : 4), "nothing-map_error-calls", calls); calls = 0;
        CHECK(isfv(v.or_else(gv)) && isfv(cv.or_else(gv)) && isfv(V(v).or_else(gv)) && isfv(static_cast<const V&&>(cv).or_else(gv)), "nothing-or_else", ""); CHECK(calls == (h ? 0 : 4), "nothing-or_else-calls", calls); calls = 0;
        CHECK(isnf(v.and_then(nf)) && isnf(cv.and_then(nf)) && isnf(V(v).and_then(nf)) && isnf(static_cast<const V&&>(cv).and_then(nf)), "nothing-and_then", ""); CHECK(calls == (h ? 4 : 0), "nothing-and_then-calls", calls);
        unexpected<E> u(e1); const unexpected<E> cu(e2);
        CHECK(u.value() == e1 && cu.value() == e2 && static_cast<const unexpected<E>&&>(cu).value() == e2 && unexpected<E>(u).value() == e1, "unexpected-value", "");
    }
    CHECK(a.value_or(t2) == (i == 0 ? t1 : t2) && O(a).value_or(t1) == (i == 1 ? t2 : t1), "value_or", "");
    int t = 0; try { t = a.value() == (i ? t2 : t1) ? 1 : 2; } catch (const gul14::bad_expected_access<E>& e) { t = e.error() == (i == 2 ? e1 : e2) ? 3 : 4; }
    CHECK(t == (i < 2 ? 1 : 3), "value", t);
    t = 0; try { T v = O(a).value(); t = v == (i ? t2 : t1) ? 1 : 2; } catch (gul14::bad_expected_access<E>& e) { t = std::move(e).error() == (i == 2 ? e1 : e2) ? 3 : 4; }
    CHECK(t == (i < 2 ? 1 : 3), "value&&", t);
    std::vector<O> v; for (int k = 0; k < 6; ++k) v.push_back(mk((i + k) % 4)); v.erase(v.begin() + j); v.insert(v.begin(), b); std::reverse(v.begin(), v.end());
    CHECK(is(v.back(), j), "vector", "");
    c.eval(20);
}
GROUP("plain", 4000, 100000)
{
    Rng& r = c.rng; std::string s = rand_string(r), t = rand_string(r); int k = (int)r.range(-3, 3), l = (int)r.range(-3, 3);
    plain<int, int>(c, k, l, l, k, "<int,int>"); plain<std::string, int>(c, s, t, k, l, "<string,int>"); plain<int, std::string>(c, k, l, s, t, "<int,string>"); plain<std::string, std::string>(c, s, t, t, s, "<string,string>");
    plain<std::vector<int>, std::string>(c, std::vector<int>((std::size_t)(k + 4), 1), {}, s, t, "<vector,string>"); plain<bool, long>(c, true, false, k, l, "<bool,long>"); plain<std::shared_ptr<int>, double>(c, std::make_shared<int>(k), nullptr, k + 0.5, l, "<shared_ptr,double>");
    // conversions between different types
    {
        const char* p = s.c_str(); std::string sz = p;
        expected<const char*, int> a(p), b(unexpect, k); expected<std::string, long> ca(a), cb(b), da(std::move(a)), db(expected<const char*, int>(unexpect, l));
        CHECK(ca.has_value() && *ca == sz && !cb && cb.error() == k && *da == sz && db.error() == l, "convert", "");
        expected<int, const char*> e(unexpect, p); expected<long, std::string> f(e), g(std::move(e)); CHECK(f.error() == sz && g.error() == sz, "convert-error", "");
        expected<std::string, std::string> h(f.transform([](long) { return std::string(); })); h = f.error(); CHECK(*h == sz, "assign-convert", ""); h = p; CHECK(*h == sz, "assign-convert", "");
        h.emplace({ 'a', 'b' }); CHECK(*h == "ab", "emplace-list", ""); h = unexpected<std::string>("e"); h.emplace({ 'c', 'd' }); CHECK(h && *h == "cd", "emplace-list", ""); h.emplace(3u, 'z'); CHECK(*h == "zzz", "emplace-args", "");
        expected<std::string, std::string> il(gul14::in_place, { 'x', 'y' }), iu(unexpect, { 'u', 'v' }); CHECK(*il == "xy" && iu.error() == "uv" && il->size() == 2, "init-list", "");
        CHECK(il == "xy" && "xy" == il && il != "uv" && iu != "uv" && "uv" != iu && !(iu == "uv"), "compare-literal", "");
    }
    expected<void, int> v, w(unexpect, k), x{ unexpected<int>(l) }; CHECK(v.has_value() && !w && w.error() == k && x.error() == l, "void", "");
    CHECK((w == x) == (k == l) && (w != x) == (k != l) && v == v && !(v != v) && v != w && !(v == w), "void-compare", "");
    v = w; CHECK(!v && v.error() == k, "void-assign", ""); v = expected<void, int>(); CHECK(v.has_value(), "void-assign", ""); { using std::swap; swap(v, w); } CHECK(!v && w, "void-swap", "");
    CHECK(v.or_else([&](int e) { return expected<void, int>(unexpect, e + 1); }).error() == k + 1, "void-or_else", "");
    unexpected<int> u1(k), u2(l); CHECK((u1 == u2) == (k == l) && (u1 != u2) == (k != l) && (u1 < u2) == (k < l) && (u1 <= u2) == (k <= l) && (u1 > u2) == (k > l) && (u1 >= u2) == (k >= l), "unexpected-compare", "");
    c.distinct(hash_str(s, hash_str(t, (std::uint64_t)(k * 10 + l)))); if (c.want_sample()) c.sample(show(s) + ", " + show(t));
}
#endif
static_assert(*expected<int, int>(3) == 3 && !expected<int, int>(unexpect, 2) && expected<int, int>(unexpect, 2).error() == 2, "constexpr");
static_assert(std::is_trivially_destructible<expected<int, int>>::value && std::is_trivially_copy_constructible<expected<int, long>>::value && !std::is_copy_constructible<expected<D, A2>>::value && std::is_move_constructible<expected<D, A2>>::value, "");
