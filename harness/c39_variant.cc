// C39: variant: alternatives against a model, lifetimes, injected exceptions, visitation, comparisons, hashing
#include "gen.h"
#include "lifetime.h"
#include <gul14/variant.h>
#include <memory>
using namespace vm;
using gul14::variant; using gul14::get; using gul14::get_if; using gul14::visit; using gul14::in_place_index_t; using gul14::in_place_type_t;
using A = Elem<1, Copy::throwing, Move::nothrow>;
using B = Elem<2, Copy::throwing, Move::throwing>;
using C_ = Elem<3, Copy::throwing, Move::none>;
using D = Elem<4, Copy::no, Move::nothrow>;
using F = Elem<5, Copy::no, Move::throwing>;
using N = Elem<6, Copy::nothrow, Move::nothrow>;

struct M { int i, v; }; // i = -1: valueless
inline bool operator==(const M& a, const M& b) { return a.i == b.i && (a.i < 0 || a.v == b.v); }

// Call f(integral_constant<I>) for a number known at run time
template <std::size_t I> using Idx = std::integral_constant<std::size_t, I>;
template <std::size_t I, std::size_t Size> struct With
{
    template <typename Fn> static void call(int i, const Fn& f) { if (i == (int)I) f(Idx<I>()); else With<I + 1, Size>::call(i, f); }
};
template <std::size_t Size> struct With<Size, Size> { template <typename Fn> static void call(int, const Fn&) {} };

struct Seen { int v; const void* p; int calls; };
template <bool Unique, typename... Ts> struct Run
{
    using O = variant<Ts...>;
    enum { K = 3, S = sizeof...(Ts) };
    template <std::size_t I> using Alt = gul14::variant_alternative_t<I, O>;
    struct Info { bool copyable, movable, nomove, nocopy; }; // no...: does not throw
    static const Info& info(int i) { static const Info t[] = { Info{ Ts::copyable, Ts::movable, std::is_nothrow_move_constructible<Ts>::value, std::is_nothrow_copy_constructible<Ts>::value }... }; return t[i]; }
    static constexpr bool copyable() { bool r = true; for (bool b : { bool(Ts::copyable)... }) r = r && b; return r; }
    template <typename Fn> static void with(int i, const Fn& f) { With<0, S>::call(i, f); }

    Case& c; bool faults;
    std::unique_ptr<O> o[K]; M m[K]; std::string ops; int next = 1; bool threw = false; std::string where;
    Run(Case& cc, const char* t, bool f) : c(cc), faults(f)
    {
        ops = std::string(t) + (f ? "/faults:" : ":");
        for (int i = 0; i < K; ++i) { o[i].reset(new O()); m[i] = M{ 0, 0 }; }
    }
    M actual(int i)
    {
        O& x = *o[i]; if (x.valueless_by_exception()) return M{ -1, 0 };
        M r{ (int)x.index(), -77 }; with(r.i, [&](auto k) { if (auto* p = get_if<k>(&x)) r.v = p->value; }); return r;
    }
    void mv(int b) { if (m[b].i >= 0 && info(m[b].i).movable) m[b].v = -1; }
    // The state of x after a failed operation that destroys the old alternative first
    void maybe_valueless(int a) { M g = actual(a); CHECK(g.i < 0 || g == m[a], "after-exception", ops << ": object " << a << " holds " << g.i << ":" << g.v << " instead of nothing or its old value"); m[a] = g; if (g.i < 0) c.count("valueless by exception"); }

    template <std::size_t I> void check_access(int i)
    {
        O& x = *o[i]; const O& cx = x; bool is = m[i].i == (int)I; using T = Alt<I>;
        CHECK(gul14::holds_alternative<I>(cx) == is, "holds_alternative", ops << " object " << i << " alternative " << I);
        auto* p = get_if<I>(&x); const T* cp = get_if<I>(&cx);
        CHECK((p != nullptr) == is && cp == p, "get_if", ops << " object " << i << " alternative " << I);
        if (is)
        {
            CHECK(life().live.count(p), "dead", ops << ": the contained object is not alive");
            CHECK(p->value == m[i].v, "value", ops << " object " << i << ": " << p->value << " expected " << m[i].v);
            T& l = get<I>(x); const T& cl = get<I>(cx); T&& r = get<I>(std::move(x)); const T&& cr = get<I>(std::move(cx));
            CHECK(&l == p && &cl == p && &r == p && &cr == p, "get", ops);
        }
        else if (c.rng.chance(1, 12))
        {
            int t = 0;
            try { (void)get<I>(x); } catch (const gul14::bad_variant_access& e) { t += std::string(e.what()).size() != 0; }
            try { (void)get<I>(cx); } catch (const gul14::bad_variant_access&) { ++t; }
            try { (void)get<I>(std::move(x)); } catch (const std::exception&) { ++t; }
            CHECK(t == 3, "bad-access", ops << ": get<" << I << "> of another alternative does not throw");
        }
        typed<I>(i, is, std::integral_constant<bool, Unique>());
    }
    template <std::size_t I> void typed(int i, bool is, std::true_type)
    {
        O& x = *o[i]; const O& cx = x; using T = Alt<I>;
        CHECK(gul14::holds_alternative<T>(cx) == is && (get_if<T>(&x) != nullptr) == is && get_if<T>(&cx) == get_if<I>(&cx), "typed-access", ops << " object " << i << " alternative " << I);
        if (is) CHECK(&get<T>(x) == get_if<I>(&x) && &get<T>(cx) == get_if<I>(&x), "typed-get", ops);
        else if (c.rng.chance(1, 20)) { bool t = false; try { (void)get<T>(cx); } catch (const gul14::bad_variant_access&) { t = true; } CHECK(t, "typed-bad-access", ops); }
    }
    template <std::size_t I> void typed(int, bool, std::false_type) {}
    __attribute__((noinline)) void compare()
    {
        std::size_t n = 0;
        for (int i = 0; i < K; ++i)
        {
            O& x = *o[i]; const O& cx = x;
            CHECK(cx.valueless_by_exception() == (m[i].i < 0) && cx.index() == (m[i].i < 0 ? gul14::variant_npos : (std::size_t)m[i].i), "index", ops << " object " << i << " index " << cx.index() << " expected " << m[i].i);
            n += m[i].i >= 0;
            for (int k = 0; k < S; ++k) with(k, [&](auto q) { this->template check_access<q>(i); });
            for (int j = 0; j < K; ++j)
            {
                const O& y = *o[j]; const M &a = m[i], &b = m[j];
                bool eq = a == b, lt = a.i < b.i || (a.i == b.i && a.i >= 0 && a.v < b.v), gt = b.i < a.i || (a.i == b.i && a.i >= 0 && b.v < a.v);
                CHECK((cx == y) == eq && (cx != y) == !eq && (cx < y) == lt && (cx > y) == gt && (cx <= y) == !gt && (cx >= y) == !lt, "compare", ops << " objects " << i << ", " << j);
            }
            c.eval();
        }
        CHECK(life().live.size() == n, "alive", ops << ": " << life().live.size() << " objects alive, " << n << " contained");
    }
    __attribute__((noinline)) void check_visit()
    {
        for (int i = 0; i < K; ++i)
        {
            O& x = *o[i]; const O& cx = x; Seen s{ -5, nullptr, 0 }; bool t = false;
            auto f = [&](const auto& e) { s.v = e.value; s.p = &e; ++s.calls; return s.calls; };
            int r = 0;
            try { r = visit(f, x) + visit(f, cx) + visit(f, std::move(x)); } catch (const gul14::bad_variant_access&) { t = true; }
            CHECK(t == (m[i].i < 0), "visit-valueless", ops);
            if (!t) { const void* p = nullptr; with(m[i].i, [&](auto k) { p = get_if<k>(&x); }); CHECK(s.calls == 3 && r == 6 && s.v == m[i].v && s.p == p, "visit", ops << " object " << i); }
            for (int j = 0; j < K; ++j)
            {
                const O& y = *o[j]; int calls = 0, v1 = 0, v2 = 0; t = false;
                try { visit([&](const auto& a, const auto& b) { ++calls; v1 = a.value; v2 = b.value; }, cx, y); } catch (const gul14::bad_variant_access&) { t = true; }
                CHECK(t == (m[i].i < 0 || m[j].i < 0) && (t ? calls == 0 : calls == 1 && v1 == m[i].v && v2 == m[j].v), "visit2", ops << " objects " << i << ", " << j);
            }
        }
        if (m[0].i >= 0 && m[1].i >= 0 && m[2].i >= 0)
        {
            std::vector<int> r = visit([](const auto& a, auto& b, auto&& d) { return std::vector<int>{ a.value, b.value, d.value }; }, *o[0], *o[1], std::move(*o[2]));
            CHECK((r == std::vector<int>{ m[0].v, m[1].v, m[2].v }), "visit3", ops);
        }
        c.count("visits", 13);
    }
    __attribute__((noinline)) void exec(const char* name, int a, int b, FnRef<void> act, FnRef<void> upd, FnRef<void> upd_throw)
    {
        ops += std::string(" ") + name + std::to_string(a) + (b >= 0 ? "," + std::to_string(b) : ""); G().desc = ops; life().context = G().desc.c_str();
        threw = false;
        if (faults && c.rng.chance(1, 2)) life().countdown = (long)c.rng.below(4);
        try { act(); } catch (const Injected& e) { threw = true; where = e.where; }
        life().countdown = -1;
        c.count("operations");
        if (threw) { c.count("exceptions injected in " + where); upd_throw(); ops += "!"; } else upd();
    }
    template <std::size_t I> void step_alt(int a, int op)
    {
        O& x = *o[a]; M& mm = m[a]; int k = next++; using T = Alt<I>; auto none = [] {}; auto ml = [&] { maybe_valueless(a); };
        switch (op)
        {
        case 0: exec(("emplace<" + std::to_string(I) + ">").c_str(), a, -1, [&] { T& t = x.template emplace<I>(k); if (&t != get_if<I>(&x)) VIOL("emplace-result", ops); }, [&] { mm = M{ (int)I, k }; }, ml); break;
        case 1: exec(("emplace<" + std::to_string(I) + ">()").c_str(), a, -1, [&] { x.template emplace<I>(); }, [&] { mm = M{ (int)I, 0 }; }, ml); break;
        case 2: { std::unique_ptr<O> n; exec(("O(in_place<" + std::to_string(I) + ">)").c_str(), a, -1, [&] { n.reset(new O(in_place_index_t<I>{}, k)); }, [&] { o[a] = std::move(n); m[a] = M{ (int)I, k }; }, none); break; }
        case 3: if (mm.i == (int)I) { exec("move-out", a, -1, [&] { T t(get<I>(std::move(x))); }, [&] { mv(a); }, none); } break;
        case 4: if (mm.i == (int)I) { Pause p; get<I>(x) = T(k); mm.v = k; ops += " write"; } break;
        default: step_typed<I>(a, op, k, std::integral_constant<bool, Unique>());
        }
    }
    template <std::size_t I> void step_typed(int, int, int, std::false_type) {}
    template <std::size_t I> void step_typed(int a, int op, int k, std::true_type)
    {
        O& x = *o[a]; M& mm = m[a]; using T = Alt<I>; auto none = [] {}; auto ml = [&] { maybe_valueless(a); };
        T t = [&] { Pause p; return T(k); }(); std::string in = "<" + std::to_string(I) + ">"; std::unique_ptr<O> n;
        switch (op)
        {
        case 5: exec(("=T&&" + in).c_str(), a, -1, [&] { O& r = (x = std::move(t)); if (&r != &x) VIOL("assign-result", ops); }, [&] { mm = M{ (int)I, k }; }, [&] { if (mm.i != (int)I && !info(I).nomove) ml(); }); break;
        case 6: exec(("emplace<T>" + in).c_str(), a, -1, [&] { T& q = x.template emplace<T>(k); if (&q != get_if<I>(&x)) VIOL("emplace-result", ops); }, [&] { mm = M{ (int)I, k }; }, ml); break;
        case 7: exec(("O(T&&)" + in).c_str(), a, -1, [&] { n.reset(new O(std::move(t))); }, [&] { o[a] = std::move(n); m[a] = M{ (int)I, k }; }, none); break;
        case 8: exec(("O(in_place_type)" + in).c_str(), a, -1, [&] { n.reset(new O(in_place_type_t<T>{}, k)); }, [&] { o[a] = std::move(n); m[a] = M{ (int)I, k }; }, none); break;
        default: step_typed_copy<I>(a, op, k, t, std::integral_constant<bool, T::copyable>());
        }
    }
    template <std::size_t I, typename T> void step_typed_copy(int, int, int, T&, std::false_type) {}
    template <std::size_t I, typename T> void step_typed_copy(int a, int op, int k, T& t, std::true_type)
    {
        O& x = *o[a]; M& mm = m[a]; const T& ct = t; std::string in = "<" + std::to_string(I) + ">"; std::unique_ptr<O> n; auto none = [] {};
        // a temporary is used if that can be moved without throwing: the old state is kept then
        if (op & 1) exec(("=T" + in).c_str(), a, -1, [&] { x = ct; }, [&] { mm = M{ (int)I, k }; CHECK(ct.value == k, "source", ops); }, [&] { if (mm.i != (int)I && !info(I).nomove) maybe_valueless(a); });
        else exec(("O(T)" + in).c_str(), a, -1, [&] { n.reset(new O(ct)); }, [&] { o[a] = std::move(n); m[a] = M{ (int)I, k }; CHECK(ct.value == k, "source", ops); }, none);
    }
    void step_whole(int a, int b, int op)
    {
        O& x = *o[a]; M& mm = m[a]; auto none = [] {}; std::unique_ptr<O> n;
        switch (op)
        {
        case 0: case 1: if (a == b) break; exec("=O&&", a, b, [&] { O& r = (x = std::move(*o[b])); if (&r != &x) VIOL("assign-result", ops); }, [&] { mm = m[b]; mv(b); }, [&] { if (m[a].i != m[b].i) maybe_valueless(a); }); break;
        case 2: if (a == b) break; exec("O(O&&)", a, b, [&] { n.reset(new O(std::move(*o[b]))); }, [&] { o[a] = std::move(n); m[a] = m[b]; mv(b); }, none); break;
        case 3: case 4: exec("swap", a, b, [&] { if (op == 3) x.swap(*o[b]); else { using std::swap; swap(x, *o[b]); } }, [&] { if (a != b) std::swap(m[a], m[b]); }, [&] {
                const M oa = m[a], ob = m[b];
                bool strong = oa.i < 0 || ob.i < 0 || info(oa.i).nomove || info(ob.i).nomove || oa.i == ob.i;
                for (int i : { a, b })
                {
                    M g = actual(i);
                    if (strong) CHECK(g.i == m[i].i, "failed-swap", ops << ": object " << i << " holds alternative " << g.i << " instead of " << m[i].i);
                    CHECK(g.i < 0 || ((g.i == oa.i || g.i == ob.i) && (g.v == -1 || g.v == oa.v || g.v == ob.v)), "failed-swap-value", ops << ": object " << i << " contains " << g.i << ":" << g.v);
                }
                m[a] = actual(a); m[b] = actual(b); }); break;
        case 5: exec("self=", a, a, [&] { x = std::move(x); }, [&] { CHECK(actual(a).i == mm.i, "self-assign", ops); mm = actual(a); }, none); break;
        default: whole_copy(a, b, op, std::integral_constant<bool, copyable()>());
        }
    }
    void whole_copy(int, int, int, std::false_type) {}
    void whole_copy(int a, int b, int op, std::true_type)
    {
        O& x = *o[a]; M& mm = m[a]; const O& y = *o[b]; std::unique_ptr<O> n;
        if (op & 1) exec("=O", a, b, [&] { O& r = (x = y); if (&r != &x) VIOL("assign-result", ops); }, [&] { mm = M(m[b]); }, [&] { if (m[a].i != m[b].i && !info(m[b].i).nomove) maybe_valueless(a); });
        else exec("O(O)", a, b, [&] { n.reset(new O(y)); }, [&] { m[a] = M(m[b]); o[a] = std::move(n); }, [] {});
    }
    void run(int n)
    {
        compare();
        for (int i = 0; i < n; ++i)
        {
            int a = (int)c.rng.below(K), b = (int)c.rng.below(K);
            if (c.rng.chance(1, 2)) { int op = (int)c.rng.below(Unique ? 13 : 5); with((int)c.rng.below(S), [&](auto q) { this->template step_alt<q>(a, op); }); }
            else step_whole(a, b, (int)c.rng.below(10));
            G().desc = ops; compare();
            if (c.rng.chance(1, 6)) check_visit();
        }
        for (auto& p : o) p.reset();
        CHECK(life().live.empty(), "leak", ops);
        c.distinct(hash_str(ops)); if (c.want_sample()) c.sample(ops);
    }
};
template <bool U, typename... Ts> __attribute__((noinline)) void go(Case& c, const char* tn) { bool f = c.rng.chance(1, 2); Run<U, Ts...> r(c, tn, f); r.run(5 + (int)c.rng.below(30)); }
#if !defined(PART) || PART == 1
GROUP("histories-1", 4000, 60000) { go<true, A, B, C_, N>(c, "<A,B,C,N>"); }
#endif
#if !defined(PART) || PART == 2
GROUP("histories-2", 4000, 60000) { go<true, D, F, A>(c, "<D,F,A>"); go<false, A, A, B>(c, "<A,A,B>"); }
#endif
#if !defined(PART) || PART == 3
GROUP("histories-3", 4000, 60000) { go<true, N>(c, "<N>"); go<true, B>(c, "<B>"); go<true, N, A>(c, "<N,A>"); go<true, F, D>(c, "<F,D>"); }
#endif
#if !defined(PART) || PART == 4
template <int I> struct W { int v; };
template <int I> bool operator==(W<I> a, W<I> b) { return a.v == b.v; }
template <int I> bool operator<(W<I> a, W<I> b) { return a.v < b.v; }
template <typename S> struct MkWide; template <std::size_t... I> struct MkWide<std::index_sequence<I...>> { using type = variant<W<(int)I>...>; };
struct WideVisitor { template <int I> std::pair<int, int> operator()(const W<I>& w) const { return { I, w.v }; } template <int I, int J> std::pair<int, int> operator()(const W<I>&, const W<J>&) const { return { I, J }; } };
template <std::size_t Size> static void wide(Case& c)
{
    using V = typename MkWide<std::make_index_sequence<Size>>::type;
    int i = (int)c.rng.below(Size), j = (int)c.rng.below(Size), v = (int)c.rng.range(-2, 2), w = (int)c.rng.range(-2, 2);
    V a, b;
    With<0, Size>::call(i, [&](auto k) { a = W<(int)k>{ v }; }); With<0, Size>::call(j, [&](auto k) { b.template emplace<k>(W<(int)k>{ w }); });
    c.desc("wide " + std::to_string(Size) + ": " + std::to_string(i) + ", " + std::to_string(j));
    CHECK(a.index() == (std::size_t)i && b.index() == (std::size_t)j, "wide-index", a.index() << " " << b.index());
    CHECK(visit(WideVisitor(), a) == std::make_pair(i, v) && visit(WideVisitor(), b) == std::make_pair(j, w), "wide-visit", "");
    CHECK((a == b) == (i == j && v == w) && (a < b) == (i < j || (i == j && v < w)), "wide-compare", "");
    With<0, Size>::call(i, [&](auto k) { CHECK(get<k>(a).v == v && get_if<k>(&a) == &get<k>(a) && (get_if<k>(&b) != nullptr) == (i == j), "wide-get", ""); });
    V x(a), y(std::move(b)); swap(x, y); CHECK(x.index() == (std::size_t)j && y.index() == (std::size_t)i && visit(WideVisitor(), x).second == w && visit(WideVisitor(), y).second == v, "wide-swap", "");
    x = a; CHECK(x == a, "wide-assign", "");
    c.eval(8); c.distinct(hash_mix(Size * 1000 + (std::uint64_t)i, (std::uint64_t)(j * 100 + v * 5 + w + 20)));
}
struct Thrower { Thrower() = default; Thrower(const Thrower&) { throw 1; } Thrower& operator=(const Thrower&) { throw 2; } bool operator==(const Thrower&) const { return true; } };
GROUP("wide", 8000, 100000) { wide<5>(c); wide<32>(c); wide<33>(c); wide<70>(c); }
GROUP("plain", 15000, 300000)
{
    Rng& r = c.rng; std::string s = rand_string(r), t = rand_string(r); int k = (int)r.range(-3, 3); double d = (double)r.range(-8, 8) / 4;
    c.desc(show(s) + " " + std::to_string(k) + " " + std::to_string(d));
    using V = variant<int, double, std::string, gul14::monostate>;
    V v[6]; std::size_t ix[6]; int iv[6] = {}; double dv[6] = {}; std::string sv[6];
    for (int q = 0; q < 6; ++q)
    {
        ix[q] = r.below(4);
        switch (ix[q]) { case 0: iv[q] = (int)r.range(-2, 2); v[q] = iv[q]; break; case 1: dv[q] = (double)r.range(-2, 2); v[q] = dv[q]; break; case 2: sv[q] = r.chance(1, 2) ? s : t; v[q] = sv[q]; break; default: v[q] = gul14::monostate{}; }
    }
    for (int q = 0; q < 6; ++q)
    {
        CHECK(v[q].index() == ix[q], "index", v[q].index());
        for (int p = 0; p < 6; ++p)
        {
            bool same = ix[q] == ix[p], eq = same && (ix[q] == 0 ? iv[q] == iv[p] : ix[q] == 1 ? dv[q] == dv[p] : ix[q] == 2 ? sv[q] == sv[p] : true);
            bool lt = ix[q] < ix[p] || (same && (ix[q] == 0 ? iv[q] < iv[p] : ix[q] == 1 ? dv[q] < dv[p] : ix[q] == 2 ? sv[q] < sv[p] : false));
            CHECK((v[q] == v[p]) == eq && (v[q] != v[p]) == !eq && (v[q] < v[p]) == lt && (v[q] >= v[p]) == !lt && (v[q] > v[p]) == (!lt && !eq) && (v[q] <= v[p]) == (lt || eq), "compare", "");
        }
        std::string txt = visit(gul14::make_overload_set([](int i) { return "i" + std::to_string(i); }, [](double x) { return "d" + std::to_string((int)x); }, [](const std::string& x) { return "s" + x; }, [](gul14::monostate) { return std::string("m"); }), v[q]);
        CHECK(txt == (ix[q] == 0 ? "i" + std::to_string(iv[q]) : ix[q] == 1 ? "d" + std::to_string((int)dv[q]) : ix[q] == 2 ? "s" + sv[q] : "m"), "overload-set", txt);
    }
    std::vector<V> vec(v, v + 6); vec.insert(vec.begin() + 2, v[5]); vec.erase(vec.begin()); CHECK(vec[1] == v[5] && vec[0] == v[1] && vec.back() == v[5], "vector", "");
    // hashing: equal variants have equal hashes, also after another history
    { using H = variant<int, std::string>; std::hash<H> h; H a(s), b(k); H e(b); e = a; CHECK(h(a) == h(e), "hash", ""); e = k; CHECK(h(e) == h(b), "hash", ""); e = std::string(s); CHECK(h(e) == h(a), "hash", ""); }
    // which alternative a conversion selects
    {
        V a = k; CHECK(a.index() == 0 && get<int>(a) == k, "convert-int", ""); V b = d; CHECK(b.index() == 1 && get<double>(b) == d, "convert-double", ""); V e = s.c_str(); CHECK(e.index() == 2 && get<std::string>(e) == s.c_str(), "convert-literal", ""); V f = s; CHECK(get<2>(f) == s, "convert-string", ""); V g = 1.5f; CHECK(g.index() == 1, "convert-float", "");
        variant<std::string, bool> sb = "x"; CHECK(sb.index() == 0, "string-bool", ""); sb = true; CHECK(sb.index() == 1 && get<bool>(sb), "bool", ""); sb = "y"; CHECK(sb.index() == 0 && get<0>(sb) == "y", "string-bool", "");
        variant<long, std::string> li = 5; CHECK(li.index() == 0 && get<long>(li) == 5, "non-narrowing", ""); variant<char, double> cd = 2.5f; CHECK(cd.index() == 1, "non-narrowing", "");
    }
    { V a(in_place_index_t<2>{}, 3u, 'x'), b(in_place_type_t<std::string>{}, { 'a', 'b' }); CHECK(get<2>(a) == "xxx" && get<2>(b) == "ab", "in_place", ""); { V te(1); std::string& z = te.emplace<std::string>({ 'u', 'v', 'w' }); CHECK(te.index() == 2 && z == "uvw" && &z == &get<2>(te), "emplace-list", ""); const V ce(te); const std::string* at = &get<std::string>(te); std::string&& mr = get<std::string>(std::move(te)); CHECK(&mr == at, "get-T&&", ""); const std::string* cat_ = &get<2>(ce); const std::string&& cr = get<std::string>(std::move(ce)); CHECK(&cr == cat_ && cr == "uvw", "get-const-T&&", ""); bool th = false; try { (void)get<int>(std::move(te)); } catch (const gul14::bad_variant_access&) { th = true; } CHECK(th, "get-T&&-throws", ""); } a.emplace<2>({ 'q', 'r' }); CHECK(get<2>(a) == "qr", "emplace-list", ""); a.emplace<std::string>(2u, 'z'); CHECK(get<2>(a) == "zz", "emplace", ""); std::string out = get<2>(std::move(b)); CHECK(out == "ab", "move-out", ""); }
    { V a(s), b(std::move(a)), e; CHECK(get<2>(b) == s, "move", ""); e = std::move(b); CHECK(get<2>(e) == s, "move-assign", ""); e = e; CHECK(get<2>(e) == s, "self", ""); e = get<2>(e); CHECK(get<2>(e) == s, "own", ""); a = e; get<2>(a) += "!"; CHECK(get<2>(e) == s && get<2>(a) == s + "!", "independent", ""); }
    // move-only alternatives and visitors that take things out
    { using U = variant<std::unique_ptr<int>, std::string>; U u(std::make_unique<int>(k)), w(std::move(u)); CHECK(*get<0>(w) == k && !get<0>(u), "unique", ""); U x("s"); x = std::move(w); CHECK(*get<0>(x) == k, "unique", ""); auto got = visit(gul14::make_overload_set([](std::unique_ptr<int>&& p) { return std::move(p); }, [](std::string&&) { return std::unique_ptr<int>(); }), std::move(x)); CHECK(got && *got == k && x.index() == 0 && !get<0>(x), "unique-visit", ""); }
    // references returned by visitors
    { variant<int, short> rs = (short)k; variant<int, int> two(in_place_index_t<1>{}, k); int& ref = visit([](int& q) -> int& { return q; }, two); ref = 9; CHECK(get<1>(two) == 9 && two.index() == 1, "visit-reference", ""); CHECK(visit([](auto q) { return (long)q; }, rs) == k, "visit-short", ""); }
    // valueless
    {
        variant<std::string, Thrower> a(s), b(in_place_index_t<1>{}); bool th = false; try { a = b; } catch (int) { th = true; }
        CHECK(th && ((a.valueless_by_exception() && a.index() == gul14::variant_npos) || get<0>(a) == s), "valueless", "");
        try { a.emplace<1>(get<1>(b)); } catch (int) {} CHECK(a.valueless_by_exception() && !get_if<0>(&a) && !get_if<1>(&a), "valueless", "");
        auto e = std::move(a); CHECK(e.valueless_by_exception(), "valueless-move", ""); e = t; CHECK(get<0>(e) == t && !e.valueless_by_exception(), "valueless-assign", ""); e = std::move(a); CHECK(e.valueless_by_exception(), "valueless-assign", ""); e.emplace<0>(s); e.swap(a); CHECK(e.valueless_by_exception() && get<0>(a) == s, "valueless-swap", "");
    }
    c.eval(60); c.distinct(hash_str(s, hash_str(t, (std::uint64_t)(k * 100 + (int)(d * 4))))); if (c.want_sample()) c.sample(show(s) + ", " + show(t));
}
static_assert(gul14::get<0>(variant<int, double>(3)) == 3 && variant<int, double>(2.0).index() == 1 && gul14::holds_alternative<double>(variant<int, double>(2.0)), "constexpr");
static_assert(std::is_trivially_destructible<variant<int, double>>::value && std::is_trivially_copy_constructible<variant<int, char>>::value && !std::is_copy_constructible<variant<D, A>>::value, "");
static_assert(gul14::variant_size<variant<int, char, int>>::value == 3, "");
#endif
