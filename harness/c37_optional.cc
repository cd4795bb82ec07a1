// C37: optional: contents against a model, lifetimes, injected exceptions, comparisons
#include "gen.h"
#include "lifetime.h"
#include <gul14/optional.h>
using namespace vm;
using A = Elem<1, Copy::throwing, Move::nothrow>;
using B = Elem<2, Copy::throwing, Move::throwing>;
using C_ = Elem<3, Copy::throwing, Move::none>;
using D = Elem<4, Copy::no, Move::nothrow>;
using F = Elem<5, Copy::no, Move::throwing>;

struct M { bool has; int v; };
inline bool operator==(const M& a, const M& b) { return a.has == b.has && (!a.has || a.v == b.v); }

template <typename T> struct Run
{
    using O = gul14::optional<T>;
    enum { K = 3 };
    Case& c; const char* tn; bool faults;
    std::unique_ptr<O> o[K]; M m[K]; std::string ops; int next = 1; bool threw = false; std::string where;
    Run(Case& cc, const char* t, bool f) : c(cc), tn(t), faults(f) { ops = std::string(t) + (f ? "/faults:" : ":"); for (int i = 0; i < K; ++i) { o[i].reset(new O()); m[i] = M{ false, 0 }; } }
    M actual(int i) { O& x = *o[i]; return x.has_value() ? M{ true, (*x).value } : M{ false, 0 }; }
    __attribute__((noinline)) void compare()
    {
        std::size_t n = 0;
        for (int i = 0; i < K; ++i)
        {
            O& x = *o[i]; const O& cx = x;
            CHECK(cx.has_value() == m[i].has && bool(cx) == m[i].has, "engaged", ops << " object " << i << " has_value " << cx.has_value());
            if (m[i].has)
            {
                ++n;
                CHECK(life().live.count(&*x), "dead", ops << ": the contained object is not alive");
                CHECK((*x).value == m[i].v && (*cx).value == m[i].v && x->value == m[i].v && cx->value == m[i].v && x.value().value == m[i].v && cx.value().value == m[i].v, "value", ops << " object " << i << ": " << (*x).value << " expected " << m[i].v);
                CHECK(&*x == &*cx && &x.value() == &*x && x.operator->() == &*x && cx.operator->() == &*x, "address", ops);
                T&& rv = std::move(x).value(); T&& rd = *std::move(x);
                CHECK(&rv == &*x && &rd == &*x, "rvalue-access", ops);
            }
            else if (c.rng.chance(1, 10))
            {
                int t = 0;
                try { (void)x.value(); } catch (const gul14::bad_optional_access&) { ++t; }
                try { (void)cx.value(); } catch (const gul14::bad_optional_access&) { ++t; }
                try { (void)std::move(x).value(); } catch (const gul14::bad_optional_access&) { ++t; }
                CHECK(t == 3, "bad-access", ops << ": value() of an empty optional does not throw");
            }
            CHECK((cx == gul14::nullopt) == !m[i].has && (gul14::nullopt == cx) == !m[i].has && (cx != gul14::nullopt) == m[i].has && (gul14::nullopt != cx) == m[i].has, "nullopt", ops);
            for (int j = 0; j < K; ++j)
            {
                const O& y = *o[j];
                bool eq = m[i] == m[j], lt = m[j].has && (!m[i].has || m[i].v < m[j].v), gt = m[i].has && (!m[j].has || m[j].v < m[i].v);
                CHECK((cx == y) == eq && (cx != y) == !eq && (cx < y) == lt && (cx > y) == gt && (cx <= y) == !gt && (cx >= y) == !lt, "compare", ops << " objects " << i << ", " << j);
            }
            c.eval();
        }
        CHECK(life().live.size() == n, "alive", ops << ": " << life().live.size() << " objects alive, " << n << " contained");
    }
    // expected state of x after an exception
    __attribute__((noinline)) void exec(const char* name, int a, int b, FnRef<void> act, FnRef<void> upd, FnRef<void> upd_throw)
    {
        ops += std::string(" ") + name + std::to_string(a) + (b >= 0 ? "," + std::to_string(b) : ""); G().desc = ops; life().context = G().desc.c_str();
        threw = false;
        if (faults && c.rng.chance(1, 2)) life().countdown = (long)c.rng.below(4);
        try { act(); } catch (const Injected& e) { threw = true; where = e.where; }
        life().countdown = -1;
        c.count("operations");
        if (threw) { c.count("exceptions injected in " + where); upd_throw(); ops += "!"; } else upd();
    }
    void step_common(int a, int b, int op)
    {
        O& x = *o[a]; M& mm = m[a]; int k = next++;
        auto none = [] {};
        switch (op)
        {
        case 0: exec("emplace", a, -1, [&] { x.emplace(k); }, [&] { mm = M{ true, k }; }, [&] { mm.has = false; }); break;
        case 1: exec("emplace()", a, -1, [&] { x.emplace(); }, [&] { mm = M{ true, 0 }; }, [&] { mm.has = false; }); break;
        case 2: exec("reset", a, -1, [&] { x.reset(); }, [&] { mm.has = false; }, none); break;
        case 3: exec("=nullopt", a, -1, [&] { x = gul14::nullopt; }, [&] { mm.has = false; }, none); break;
        case 4: { T t = [&] { Pause p; return T(k); }(); exec("=T&&", a, -1, [&] { O& r = (x = std::move(t)); if (&r != &x) VIOL("assign-result", ops); }, [&] { mm = M{ true, k }; }, none); break; }
        case 5: if (a == b) break; exec("=O&&", a, b, [&] { O& r = (x = std::move(*o[b])); if (&r != &x) VIOL("assign-result", ops); }, [&] { mm = m[b]; if (m[b].has && T::movable) m[b].v = -1; }, none); break;
        case 6: { auto sw = [&] { using std::swap; if (op + k & 1) swap(x, *o[b]); else x.swap(*o[b]); }; exec("swap", a, b, sw, [&] { if (a != b) std::swap(m[a], m[b]); }, [&] {
                // a failed swap of two values leaves two valid values
                for (int i : { a, b }) { M g = actual(i); CHECK(g.has == m[i].has, "failed-swap", ops << ": object " << i << " changed its state"); m[i] = g; } }); break; }
        case 7: if (a == b) break; else { std::unique_ptr<O> n; exec("O(O&&)", a, b, [&] { n.reset(new O(std::move(*o[b]))); }, [&] { o[a] = std::move(n); m[a] = m[b]; if (m[b].has && T::movable) m[b].v = -1; }, none); } break;
        case 8: { std::unique_ptr<O> n; exec("O(in_place)", a, -1, [&] { n.reset(new O(gul14::in_place_t{}, k)); }, [&] { o[a] = std::move(n); m[a] = M{ true, k }; }, none); break; }
        case 9: { T t = [&] { Pause p; return T(k); }(); std::unique_ptr<O> n; exec("O(T&&)", a, -1, [&] { n.reset(new O(std::move(t))); }, [&] { o[a] = std::move(n); m[a] = M{ true, k }; }, none); break; }
        case 10: { T t = [&] { Pause p; return T(k); }(); int got = -5; bool had = mm.has;
            exec("value_or&&", a, -1, [&] { got = std::move(x).value_or(std::move(t)).value; }, [&] { CHECK(got == (had ? mm.v : k), "value_or", ops << ": " << got); if (had && T::movable) mm.v = -1; },
                // the result was moved out of the optional before a later copy of it failed
                [&] { if (had) mm.v = actual(a).v; }); break; }
        case 11: exec("self=", a, a, [&] { x = std::move(x); }, [&] { if (mm.has) mm.v = actual(a).v; }, none); break;
        case 12: if (mm.has) { Pause p; *x = T(k); mm.v = k; ops += " *="; } break;
        case 13: if (mm.has) { exec("move-out", a, -1, [&] { T t(std::move(*x)); }, [&] { if (T::movable) mm.v = -1; }, none); } break;
        default: break;
        }
    }
    void step_copy(int a, int b, int op, std::false_type) { step_common(a, b, op % 14); }
    void step_copy(int a, int b, int op, std::true_type)
    {
        O& x = *o[a]; M& mm = m[a]; int k = next++;
        auto none = [] {};
        T t = [&] { Pause p; return T(k); }(); const T& ct = t;
        switch (op)
        {
        case 0: exec("=T", a, -1, [&] { x = ct; }, [&] { mm = M{ true, k }; }, none); break;
        case 1: exec("=O", a, b, [&] { O& r = (x = static_cast<const O&>(*o[b])); if (&r != &x) VIOL("assign-result", ops); }, [&] { mm = M(m[b]); }, none); break;
        case 2: { std::unique_ptr<O> n; exec("O(O)", a, b, [&] { n.reset(new O(static_cast<const O&>(*o[b]))); }, [&] { m[a] = M(m[b]); o[a] = std::move(n); }, none); break; }
        case 3: { std::unique_ptr<O> n; exec("O(T)", a, -1, [&] { n.reset(new O(ct)); }, [&] { o[a] = std::move(n); m[a] = M{ true, k }; }, none); break; }
        case 4: { int got = -5; exec("value_or", a, -1, [&] { got = static_cast<const O&>(x).value_or(ct).value; }, [&] { CHECK(got == (mm.has ? mm.v : k), "value_or", ops << ": " << got); }, none); break; }
        case 5: { std::unique_ptr<O> n; exec("make_optional", a, -1, [&] { n.reset(new O(gul14::make_optional(ct))); }, [&] { o[a] = std::move(n); m[a] = M{ true, k }; }, none); break; }
        case 6: exec("emplace(T)", a, -1, [&] { x.emplace(ct); }, [&] { mm = M{ true, k }; }, [&] { mm.has = false; }); break;
        case 7: if (mm.has) exec("=own", a, -1, [&] { x = static_cast<const T&>(*x); }, [&] {}, none); break;
        case 8:
        {   // comparisons with a value
            const O& cx = x; bool h = mm.has; int v = mm.v;
            bool eq = h && v == k, lt = !h || v < k, gt = h && v > k;
            CHECK((cx == ct) == eq && (ct == cx) == eq && (cx != ct) == !eq && (ct != cx) == !eq, "compare-value", ops << " ==");
            CHECK((cx < ct) == lt && (ct > cx) == lt && (cx > ct) == gt && (ct < cx) == gt && (cx <= ct) == !gt && (ct >= cx) == !gt && (cx >= ct) == !lt && (ct <= cx) == !lt, "compare-value", ops << " order");
            CHECK((cx < gul14::nullopt) == false && (gul14::nullopt < cx) == h && (cx <= gul14::nullopt) == !h && (gul14::nullopt <= cx) == true && (cx > gul14::nullopt) == h && (gul14::nullopt > cx) == false && (cx >= gul14::nullopt) == true && (gul14::nullopt >= cx) == !h, "compare-nullopt", ops);
            c.eval(3); break;
        }
        default: break;
        }
        Pause p;
    }
    void run(int n)
    {
        compare();
        for (int i = 0; i < n; ++i)
        {
            int a = (int)c.rng.below(K), b = (int)c.rng.below(K);
            if (T::copyable && c.rng.chance(2, 5)) step_copy(a, b, (int)c.rng.below(9), std::integral_constant<bool, T::copyable>());
            else step_common(a, b, (int)c.rng.below(14));
            compare();
        }
        for (auto& p : o) p.reset();
        CHECK(life().live.empty(), "leak", ops);
        c.distinct(hash_str(ops)); c.sample(ops);
    }
};
template <typename T> void go(Case& c, const char* tn) { bool f = c.rng.chance(1, 2); Run<T> r(c, tn, f); r.run(5 + (int)c.rng.below(30)); }
GROUP("histories", 2500, 60000)
{
    go<A>(c, "copy+move"); go<B>(c, "copy+throwing move"); go<C_>(c, "copy-only"); go<D>(c, "move-only"); go<F>(c, "throwing-move-only");
}
// Plain types, references, hashing, in-place lists, constexpr
GROUP("plain", 20000, 300000)
{
    Rng& r = c.rng;
    using OI = gul14::optional<int>;
    auto rnd = [&] { return r.chance(1, 3) ? OI() : OI((int)r.range(-3, 3)); };
    OI a = rnd(), b = rnd();
    bool ha = a.has_value(), hb = b.has_value(); int va = ha ? *a : 0, vb = hb ? *b : 0;
    c.desc("optional<int> " + (ha ? std::to_string(va) : "-") + ", " + (hb ? std::to_string(vb) : "-"));
    bool eq = ha == hb && (!ha || va == vb), lt = hb && (!ha || va < vb), gt = ha && (!hb || vb < va);
    CHECK((a == b) == eq && (a != b) == !eq && (a < b) == lt && (a > b) == gt && (a <= b) == !gt && (a >= b) == !lt, "int-compare", "");
    int k = (int)r.range(-3, 3);
    CHECK((a == k) == (ha && va == k) && (k == a) == (ha && va == k) && (a != k) == !(ha && va == k) && (k != a) == !(ha && va == k), "int-value-eq", k);
    CHECK((a < k) == (!ha || va < k) && (k > a) == (!ha || va < k) && (a > k) == (ha && va > k) && (k < a) == (ha && va > k) && (a <= k) == !(ha && va > k) && (k >= a) == !(ha && va > k) && (a >= k) == !(!ha || va < k) && (k <= a) == !(!ha || va < k), "int-value-order", k);
    CHECK(a.value_or(77) == (ha ? va : 77) && OI(a).value_or((short)5) == (ha ? va : 5), "int-value_or", "");
    OI d = a; d.swap(b); CHECK(d == (hb ? OI(vb) : OI()) && b == a, "int-swap", "");
    { OI e(a); e = b; CHECK(e == b, "assign", ""); e = k; CHECK(e && *e == k, "assign-value", ""); e = gul14::nullopt; CHECK(!e, "assign-null", ""); e = {}; CHECK(!e, "assign-braces", ""); }
    if (ha) CHECK(std::hash<OI>()(a) == std::hash<int>()(va), "hash", "");
    CHECK((std::hash<OI>()(a) == std::hash<OI>()(OI(a))), "hash-equal", "");
    // strings and in-place construction
    using OS = gul14::optional<std::string>;
    std::string s = rand_string(r), t = rand_string(r);
    OS os(s), ot(gul14::in_place_t{}, t.data(), t.size()), on, ol(gul14::in_place_t{}, { 'a', 'b', 'c' });
    CHECK(*os == s && *ot == t && os->size() == s.size() && ol.value() == "abc" && !on, "string", "");
    CHECK((os < ot) == (s < t) && (os == ot) == (s == t), "string-compare", "");
    CHECK(on.value_or(s) == s && on.value_or("x") == "x" && os.value_or(t) == s, "string-value_or", "");
    std::string moved = std::move(os).value_or("q"); CHECK(moved == s, "string-value_or-move", "");
    os.emplace({ 'x', 'y' }); CHECK(*os == "xy", "emplace-list", ""); os.emplace(3u, 'z'); CHECK(*os == "zzz", "emplace-args", "");
    std::string out = *std::move(ot); CHECK(out == t, "move-out", "");
    auto mk = gul14::make_optional(s); CHECK(*mk == s, "make_optional", ""); static_assert(std::is_same<decltype(mk), OS>::value, "");
    CHECK(s == *OS(s), "unchanged", "");
    // const and nested
    gul14::optional<const int> ci(k); CHECK(*ci == k && ci.value() == k, "const", ""); gul14::optional<const int> cn; CHECK(!cn, "const-empty", "");
    gul14::optional<OI> n1, n2{ OI() }, n3{ OI(k) }; CHECK(!n1 && n2 && !*n2 && n3 && **n3 == k, "nested", "");
    gul14::optional<bool> ob(false); CHECK(ob && !*ob, "bool", "");
    // references
    int x = 1, y = 2;
    gul14::optional<int&> ra, rb(x), rc(rb);
    CHECK(!ra && rb && &*rb == &x && &rc.value() == &x, "ref", "");
    *rb = k; CHECK(x == k, "ref-write", ""); ra = rb; CHECK(&*ra == &x, "ref-assign", ""); ra.emplace(y); CHECK(&*ra == &y && x == k, "ref-emplace", "");
    ra.swap(rb); CHECK(&*ra == &x && &*rb == &y, "ref-swap", ""); CHECK((ra == x) && (ra < k + 1), "ref-compare", ""); 
    {   // comparisons with values, all operators, both sides
        auto cmp = [&](const auto& o, bool h, int held, int v, const char* n)
        {
            const bool eq = h && held == v, lt = !h || held < v, gt = h && held > v;
            CHECK((o == v) == eq && (v == o) == eq && (o != v) == !eq && (v != o) == !eq && (o < v) == lt && (v > o) == lt && (o > v) == gt && (v < o) == gt && (o <= v) == !gt && (v >= o) == !gt && (o >= v) == !lt && (v <= o) == !lt, "ref-compare-value", n << ' ' << h << ' ' << held << ' ' << v);
            c.eval(12);
        };
        const int p = k, q = k + 1; const gul14::optional<int&> rn; const gul14::optional<const int&> cn2, cp(p), cq(q); const gul14::optional<int&> rx(x);
        for (int v : { k - 1, k, k + 1, k + 2 }) { cmp(rn, false, 0, v, "optional<int&>"); cmp(rx, true, x, v, "optional<int&>"); cmp(cn2, false, 0, v, "optional<const int&>"); cmp(cp, true, p, v, "optional<const int&>"); cmp(cq, true, q, v, "optional<const int&>"); }
    }
    ra = gul14::nullopt; CHECK(!ra && ra.value_or(9) == 9 && rb.value_or(9) == 2, "ref-null", "");
    bool th = false; try { ra.value(); } catch (const gul14::bad_optional_access&) { th = true; } CHECK(th, "ref-bad", "");
    rb.reset(); CHECK(!rb.has_value() && y == 2, "ref-reset", "");
    auto rw = gul14::make_optional(std::ref(y)); CHECK(&*rw == &y, "ref-make", "");
    c.eval(20); c.distinct(hash_str(s, hash_str(t)));
}
static_assert(gul14::optional<int>(3).value() == 3 && !gul14::optional<int>(), "constexpr");
static_assert(std::is_trivially_destructible<gul14::optional<int>>::value, "");
