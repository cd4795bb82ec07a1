// C29: cat() against appending the pieces one by one
#include "gen.h"
#include <cmath>
#include <limits>
#include <gul14/cat.h>
using namespace vm;

template <typename T> struct Arg; // generator of an argument and its expected text
template <> struct Arg<std::string> { std::string v; explicit Arg(Rng& r) : v(rand_string(r)) {} const std::string& get() { return v; } std::string text() { return v; } };
template <> struct Arg<gul14::string_view> { Exact e; std::string s; explicit Arg(Rng& r) : Arg(rand_string(r), r.chance(1, 2)) {} Arg(const std::string& x, bool b) : e(x, true, b), s(x) {} gul14::string_view get() { return e.sv(); } std::string text() { return s; } };
template <> struct Arg<const char*> { std::string s; char* p; explicit Arg(Rng& r) { s = rand_string(r); s = s.substr(0, s.find('\0')); p = new char[s.size() + 1]; std::memcpy(p, s.c_str(), s.size() + 1); } Arg(const Arg&) = delete; ~Arg() { delete[] p; } const char* get() { return p; } std::string text() { return s; } };
template <> struct Arg<char> { char ch; explicit Arg(Rng& r) : ch(static_cast<char>(r.next())) {} char get() { return ch; } std::string text() { return std::string(1, ch); } };
template <typename T> struct Arg
{
    T v;
    explicit Arg(Rng& r) : v(make(r, std::is_floating_point<T>())) {}
    static T make(Rng& r, std::false_type)
    {
        switch (r.below(5))
        {
        case 0: return std::numeric_limits<T>::max();
        case 1: return std::numeric_limits<T>::lowest();
        case 2: return static_cast<T>(r.below(20));
        default: return static_cast<T>(r.next() >> r.below(64));
        }
    }
    static T make(Rng& r, std::true_type)
    {
        switch (r.below(8))
        {
        case 0: return std::numeric_limits<T>::max();
        case 1: return std::numeric_limits<T>::lowest();
        case 2: return std::numeric_limits<T>::infinity();
        case 3: return std::numeric_limits<T>::quiet_NaN();
        case 4: return static_cast<T>(-0.0);
        case 5: return static_cast<T>(static_cast<double>(r.range(-1000000, 1000000)) / 4096);
        default: { double d = std::ldexp(r.unit() - 0.5, static_cast<int>(r.range(-60, 100))); return static_cast<T>(d); }
        }
    }
    T get() { return v; }
    std::string text() { return std::to_string(v); }
};

static void same(Case& c, const std::string& got, const std::string& want)
{
    CHECK(got == want, "cat-" + std::to_string(0), "got " << show(got) << " expected " << show(want));
    c.eval();
    if (!want.empty()) c.distinct(hash_str(want));
    if (want.size() > 5 && want.size() < 200) c.sample(show(want));
}

template <typename A> static void one(Case& c) { Arg<A> a(c.rng); same(c, gul14::cat(a.get()), a.text()); }
template <typename A, typename B> static void two(Case& c)
{
    Arg<A> a(c.rng);
    Arg<B> b(c.rng);
    same(c, gul14::cat(a.get(), b.get()), a.text() + b.text());
}
template <typename A, typename B, typename D> static void three(Case& c)
{
    Arg<A> a(c.rng);
    Arg<B> b(c.rng);
    Arg<D> d(c.rng);
    same(c, gul14::cat(a.get(), b.get(), d.get()), a.text() + b.text() + d.text());
}
template <typename A, typename B, typename D, typename E> static void four(Case& c)
{
    Arg<A> a(c.rng); Arg<B> b(c.rng); Arg<D> d(c.rng); Arg<E> e(c.rng);
    same(c, gul14::cat(a.get(), b.get(), d.get(), e.get()), a.text() + b.text() + d.text() + e.text());
}
template <typename A, typename B, typename D, typename E, typename F, typename H, typename I> static void seven(Case& c)
{
    Arg<A> a(c.rng); Arg<B> b(c.rng); Arg<D> d(c.rng); Arg<E> e(c.rng); Arg<F> f(c.rng); Arg<H> h(c.rng); Arg<I> i(c.rng);
    same(c, gul14::cat(a.get(), b.get(), d.get(), e.get(), f.get(), h.get(), i.get()), a.text() + b.text() + d.text() + e.text() + f.text() + h.text() + i.text());
    same(c, gul14::cat(i.get(), h.get(), f.get(), e.get(), d.get()), i.text() + h.text() + f.text() + e.text() + d.text());
    same(c, gul14::cat(a.get(), b.get(), d.get(), e.get(), f.get(), h.get(), i.get(), a.get(), b.get(), d.get(), e.get(), f.get(), h.get(), i.get(), d.get(), h.get(), e.get()),
        a.text() + b.text() + d.text() + e.text() + f.text() + h.text() + i.text() + a.text() + b.text() + d.text() + e.text() + f.text() + h.text() + i.text() + d.text() + h.text() + e.text());
}

using S = std::string;
using V = gul14::string_view;
using P = const char*;
using UL = unsigned long;
using LL = long long;
using ULL = unsigned long long;

GROUP("none_and_one", 8000, 120000)
{
    same(c, gul14::cat(), "");
    one<S>(c); one<V>(c); one<P>(c); one<char>(c); one<int>(c); one<unsigned>(c); one<long>(c); one<UL>(c); one<LL>(c); one<ULL>(c); one<float>(c); one<double>(c);
    one<short>(c); one<unsigned short>(c);
}

template <typename A> static void two_all(Case& c)
{
    two<A, S>(c); two<A, V>(c); two<A, P>(c); two<A, char>(c); two<A, int>(c); two<A, unsigned>(c); two<A, long>(c); two<A, UL>(c); two<A, LL>(c); two<A, ULL>(c); two<A, float>(c); two<A, double>(c);
}
GROUP("two", 1500, 25000)
{
    two_all<S>(c); two_all<V>(c); two_all<P>(c); two_all<char>(c); two_all<int>(c); two_all<unsigned>(c);
    two_all<LL>(c); two_all<ULL>(c); two_all<float>(c); two_all<double>(c);
}

template <typename A, typename B> static void three_all(Case& c) { three<A, B, S>(c); three<A, B, V>(c); three<A, B, P>(c); three<A, B, char>(c); three<A, B, long>(c); three<A, B, double>(c); }
template <typename A> static void three_all1(Case& c) { three_all<A, S>(c); three_all<A, V>(c); three_all<A, P>(c); three_all<A, char>(c); three_all<A, ULL>(c); three_all<A, float>(c); }
GROUP("three", 800, 12000) { three_all1<S>(c); three_all1<V>(c); three_all1<P>(c); three_all1<char>(c); three_all1<int>(c); three_all1<double>(c); }

GROUP("many", 6000, 100000)
{
    four<S, V, P, char>(c); four<int, S, double, V>(c); four<char, char, char, char>(c); four<V, V, V, V>(c); four<P, unsigned, P, LL>(c); four<double, float, LL, ULL>(c);
    seven<S, int, V, double, char, P, ULL>(c);
    seven<V, V, S, S, P, P, char>(c);
    seven<int, unsigned, long, UL, LL, ULL, float>(c);
}
