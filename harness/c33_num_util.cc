// C33: within_abs, within_ulp, within_orders, clamp, abs against exact arithmetic
#include <cstring>
#include "gen.h"
#include <cmath>
#include <limits>
#include <gul14/num_util.h>
using namespace vm;
typedef __float128 Q;
static Q qabs(Q x) { return x < 0 ? -x : x; }

template <typename T> std::string sh(T v) { char b[80]; std::snprintf(b, sizeof b, "%.21Lg (%La)", (long double)v, (long double)v); return b; }

template <typename F> F rand_float(Rng& r)
{
    using L = std::numeric_limits<F>;
    static const F sp[] = { F(0), -F(0), F(1), -F(1), F(10), F(0.1L), L::min(), -L::min(), L::max(), L::lowest(), L::denorm_min(), -L::denorm_min(), L::epsilon(), L::infinity(), -L::infinity(), L::quiet_NaN(), L::min() - L::denorm_min(), F(1) + L::epsilon(), F(1) - L::epsilon() / 2, F(1000), F(3) };
    switch (r.below(6))
    {
    case 0: return r.pick(sp);
    case 1: return F(r.range(-20, 20));
    case 2: return F(r.range(-2000000, 2000000)) / F(64);
    case 3: { F m = F(1) + F(r.unit()); int e = (int)r.range(L::min_exponent - L::digits, L::max_exponent - 2); F v = std::ldexp(m, e); return r.chance(1, 2) ? v : -v; }
    case 4: { F v = L::denorm_min() * F(r.below(2000)); return r.chance(1, 2) ? v : -v; }
    default: { F m = F(1) + F(r.unit()); F v = std::ldexp(m, (int)r.range(-12, 12)); return r.chance(1, 2) ? v : -v; }
    }
}
template <typename F> F steps_from(F a, long long n)
{
    F t = n < 0 ? -std::numeric_limits<F>::infinity() : std::numeric_limits<F>::infinity();
    if (n < 0) n = -n;
    for (long long i = 0; i < n; ++i) a = std::nextafter(a, t);
    return a;
}

template <typename F> void abs_tol_case(Case& c, const char* tn)
{
    using L = std::numeric_limits<F>;
    Rng& r = c.rng;
    F a = rand_float<F>(r), b, tol;
    bool dyadic = r.chance(1, 2);
    if (dyadic)
    {
        // exact arithmetic: small multiples of 2^k
        int k = (int)r.range(-20, 20);
        if (r.chance(1, 6)) k = L::min_exponent - L::digits; // multiples of denorm_min
        auto mk = [&](long long x) { return std::ldexp(F(x), k); };
        long long ia = r.range(-5000, 5000), it = r.range(-100, 100);
        long long d = (it < 0 ? -it : it) + r.range(-2, 2);
        if (r.chance(1, 5)) d = r.range(-5000, 5000);
        a = mk(ia); b = mk(r.chance(1, 2) ? ia + d : ia - d); tol = mk(it);
        c.desc(std::string("within_abs<") + tn + ">(" + sh(a) + ", " + sh(b) + ", " + sh(tol) + ")");
        bool want = (d < 0 ? -d : d) <= (it < 0 ? -it : it);
        CHECK(gul14::within_abs(a, b, tol) == want, "within_abs", "expected " << want);
        CHECK(gul14::within_abs(b, a, tol) == want, "within_abs-symmetric", "expected " << want);
        c.count(want ? "within_abs.exact.true" : "within_abs.exact.false");
    }
    else
    {
        b = r.chance(1, 3) ? a : rand_float<F>(r);
        if (r.chance(1, 3) && std::isfinite(a)) b = steps_from(a, r.range(-20, 20));
        do tol = rand_float<F>(r); while (!std::isfinite(tol));
        c.desc(std::string("within_abs<") + tn + ">(" + sh(a) + ", " + sh(b) + ", " + sh(tol) + ")");
        bool g1 = gul14::within_abs(a, b, tol), g2 = gul14::within_abs(b, a, tol);
        CHECK(g1 == g2, "within_abs-symmetric", g1 << " vs. " << g2);
        CHECK(gul14::within_abs(a, b, -tol) == g1, "within_abs-sign", "sign of the tolerance changes the result");
        int want = -1;
        if (std::isnan(a) || std::isnan(b)) want = 0;
        else if (std::isinf(a) || std::isinf(b))
        {
            want = a == b;
            F fin = std::isinf(a) ? b : a; // finite values whose sum with the tolerance overflows: not decided
            if (!want && std::isfinite(fin) && qabs(Q(fin)) + qabs(Q(tol)) > Q(L::max())) want = -1;
        }
        else
        {
            Q d = qabs(Q(a) - Q(b)), t = qabs(Q(tol));
            Q m = qabs(Q(a)); if (qabs(Q(b)) > m) m = qabs(Q(b)); if (t > m) m = t;
            Q slack = m * Q(L::epsilon()) * 2;
            if (a == b) want = 1;
            else if (d > t + slack) want = 0;
            else if (d < t - slack) want = 1;
            // Sums that overflow the type
            if (m > Q(L::max()) / 4) want = a == b ? 1 : want == 1 ? 1 : -1;
        }
        if (want >= 0) CHECK(g1 == (want == 1), "within_abs", "expected " << want);
        c.count(want < 0 ? "within_abs.undecided" : want ? "within_abs.true" : "within_abs.false");
    }
    c.eval(2);
    c.distinct(hash_str(sh(a) + sh(b) + sh(tol)));
    c.sample(std::string(tn) + " " + sh(a) + " " + sh(b) + " tol " + sh(tol));
}
GROUP("within_abs_float", 40000, 1000000)
{
    for (int i = 0; i < 4; ++i) { abs_tol_case<float>(c, "float"); abs_tol_case<double>(c, "double"); abs_tol_case<long double>(c, "long double"); }
}

template <typename I> I rand_int(Rng& r)
{
    using L = std::numeric_limits<I>;
    switch (r.below(4))
    {
    case 0: return L::max() - I(r.below(4));
    case 1: return L::min() + I(r.below(4));
    case 2: return I(r.range(std::is_signed<I>::value ? -20 : 0, 20));
    default: return I(r.next() >> r.below(64));
    }
}
template <typename I> void abs_tol_int(Case& c, const char* tn)
{
    using L = std::numeric_limits<I>;
    Rng& r = c.rng;
    I a = rand_int<I>(r), b = r.chance(1, 2) ? rand_int<I>(r) : I((unsigned long long)a + (unsigned long long)r.range(-3, 3)), tol = r.chance(1, 2) ? rand_int<I>(r) : I(r.below(5));
    __int128 d = (__int128)a - (__int128)b; if (d < 0) d = -d;
    if (r.chance(1, 3)) { __int128 t = d + r.range(-1, 1); if (t >= (__int128)L::min() && t <= (__int128)L::max()) tol = I(t); }
    if (d > (__int128)L::max()) { c.count("within_abs.int.difference-not-representable"); return; }
    if (std::is_signed<I>::value && tol == L::min()) tol = L::max();
    __int128 t = tol; if (t < 0) t = -t;
    bool want = d <= t;
    c.desc(std::string("within_abs<") + tn + ">(" + std::to_string(a) + ", " + std::to_string(b) + ", " + std::to_string(tol) + ")");
    CHECK(gul14::within_abs(a, b, tol) == want, "within_abs-int", "expected " << want);
    CHECK(gul14::within_abs(b, a, tol) == want, "within_abs-int-symmetric", "expected " << want);
    c.eval(2); c.distinct(hash_bytes(&a, sizeof a, hash_bytes(&b, sizeof b, hash_bytes(&tol, sizeof tol, hash_str(tn)))));
    c.count(want ? "within_abs.int.true" : "within_abs.int.false");
}
#define ALL_INTS(M) M(signed char) M(unsigned char) M(char) M(short) M(unsigned short) M(int) M(unsigned) M(long) M(unsigned long) M(long long) M(unsigned long long)
GROUP("within_abs_int", 20000, 400000)
{
#define M(T) abs_tol_int<T>(c, #T);
    for (int i = 0; i < 3; ++i) { ALL_INTS(M) }
#undef M
}

template <typename F> void ulp_case(Case& c, const char* tn)
{
    using L = std::numeric_limits<F>;
    Rng& r = c.rng;
    F a = rand_float<F>(r), b;
    if (r.chance(1, 4)) { // around a power of two, where the step width changes
        a = std::ldexp(F(1), (int)r.range(L::min_exponent - 1, L::max_exponent - 1)); if (r.chance(1, 2)) a = -a;
        if (std::isfinite(a)) a = steps_from(a, r.range(-3, 3));
    }
    unsigned ulp = r.chance(1, 2) ? (unsigned)r.below(6) : (unsigned)r.below(60);
    long long n = 0;
    bool counted = false;
    if (std::isfinite(a) && r.chance(5, 6))
    {
        long long k = r.chance(1, 2) ? (long long)ulp + r.range(-2, 2) : r.chance(1, 2) ? (long long)(2.1 * ulp) + 3 + (long long)r.below(4) : r.range(0, 150);
        n = k < 0 ? 0 : k;
        b = steps_from(a, r.chance(1, 2) ? n : -n);
        counted = std::isfinite(b);
    }
    else b = r.chance(1, 3) ? a : r.chance(1, 4) ? -a : rand_float<F>(r);
    c.desc(std::string("within_ulp<") + tn + ">(" + sh(a) + ", " + sh(b) + ", " + std::to_string(ulp) + ")");
    bool g1 = gul14::within_ulp(a, b, ulp), g2 = gul14::within_ulp(b, a, ulp);
    CHECK(g1 == g2, "within_ulp-symmetric", g1 << " vs. " << g2);
    int want = -1;
    if (std::isnan(a) || std::isnan(b)) want = 0;
    else if (a == b) want = 1;
    else if (std::isinf(a) || std::isinf(b)) want = 0;
    else if (counted) want = n <= (long long)ulp ? 1 : n > (long long)(2.1 * ulp) + 2 ? 0 : -1;
    else
    {   // far apart numbers: the distance in steps is at least |a-b| / largest step
        Q d = qabs(Q(a) - Q(b)), m = qabs(Q(a)); if (qabs(Q(b)) > m) m = qabs(Q(b));
        Q step = m * Q(L::epsilon()); if (step < Q(L::denorm_min())) step = Q(L::denorm_min());
        if (d > step * (2.1 * ulp + 4)) want = 0;
    }
    if (want >= 0) CHECK(g1 == (want == 1), "within_ulp", "expected " << want << " steps " << n);
    c.count(want < 0 ? "within_ulp.undecided" : want ? "within_ulp.true" : "within_ulp.false");
    c.eval(); c.distinct(hash_str(sh(a) + sh(b)) + ulp);
}
GROUP("within_ulp", 40000, 1000000)
{
    for (int i = 0; i < 3; ++i) { ulp_case<float>(c, "float"); ulp_case<double>(c, "double"); ulp_case<long double>(c, "long double"); }
}

// Any number of ULPs up to the largest unsigned: numbers at most that many steps apart are equal. Steps are counted on
// the ordered bit patterns.
template <typename F, typename B> F from_ordered(B v) { B m = v < 0 ? -v : v; F f; std::memcpy(&f, &m, sizeof f); return v < 0 ? -f : f; }
template <typename F, typename B> B to_ordered(F f) { F g = std::abs(f); B m; std::memcpy(&m, &g, sizeof m); return f < 0 ? -m : m; }
template <typename F, typename B> void ulp_large(Case& c, const char* tn)
{
    using L = std::numeric_limits<F>;
    Rng& r = c.rng;
    F a;
    do a = rand_float<F>(r); while (!std::isfinite(a));
    unsigned ulp = r.chance(1, 6) ? std::numeric_limits<unsigned>::max() - (unsigned)r.below(3) : (unsigned)((r.next() & 0xffffffffu) >> r.below(28));
    const B top = to_ordered<F, B>(L::max());
    long long n = r.chance(1, 2) ? (long long)ulp - (long long)r.below(2) : r.chance(1, 2) ? (long long)(r.next() % (2ull * ulp + 1)) : (long long)(2.2 * ulp) + 3 + (long long)r.below(1000);
    if (n < 0) n = 0;
    long long oa = to_ordered<F, B>(a), ob = r.chance(1, 2) ? oa + n : oa - n;
    if (ob > top || ob < -(long long)top) { n = n % 1000; ob = oa > 0 ? oa - n : oa + n; }
    F b = from_ordered<F, B>((B)ob);
    c.desc(std::string("within_ulp<") + tn + ">(" + sh(a) + ", " + sh(b) + ", " + std::to_string(ulp) + ")");
    bool g1 = gul14::within_ulp(a, b, ulp), g2 = gul14::within_ulp(b, a, ulp);
    CHECK(g1 == g2, "within_ulp-symmetric", g1 << " vs. " << g2);
    int want = n <= (long long)ulp ? 1 : ulp < (1u << 20) && n < (1ll << 22) && n > (long long)(2.1 * ulp) + 2 ? 0 : -1;
    if (want >= 0) CHECK(g1 == (want == 1), "within_ulp-large", "expected " << want << " steps " << n);
    c.count(want < 0 ? "within_ulp.large.undecided" : want ? "within_ulp.large.true" : "within_ulp.large.false");
    c.eval(); c.distinct(hash_str(sh(a) + sh(b)) + ulp);
}
GROUP("within_ulp_large", 40000, 1000000)
{
    for (int i = 0; i < 3; ++i) { ulp_large<float, int>(c, "float"); ulp_large<double, long long>(c, "double"); }
}

template <typename T, typename O> void orders_case(Case& c, T a, T b, O o, const char* tn)
{
    Q d = qabs(Q(a) - Q(b)), m = qabs(Q(a)); if (qabs(Q(b)) > m) m = qabs(Q(b));
    c.desc(std::string("within_orders<") + tn + ">(" + sh(a) + ", " + sh(b) + ", " + sh(o) + ")");
    bool g1 = gul14::within_orders(a, b, o), g2 = gul14::within_orders(b, a, o);
    CHECK(g1 == g2, "within_orders-symmetric", g1 << " vs. " << g2);
    int want = -1;
    if (a == b) want = 1;
    else
    {
        Q lim = m / Q(powl(10.0L, (long double)o));
        Q slack = lim * Q(1e-5L);
        if (d > lim + slack) want = 0; else if (d < lim - slack) want = 1;
    }
    if (want >= 0) CHECK(g1 == (want == 1), "within_orders", "expected " << want);
    c.count(want < 0 ? "within_orders.undecided" : want ? "within_orders.true" : "within_orders.false");
    c.eval(); c.distinct(hash_str(sh(a) + sh(b) + sh(o)));
}
template <typename F> void orders_float(Case& c, const char* tn)
{
    Rng& r = c.rng;
    F a;
    do a = rand_float<F>(r); while (!std::isfinite(a) || (a != 0 && std::abs(a) < std::numeric_limits<F>::min() * F(1e25L)) || std::abs(a) > std::numeric_limits<F>::max() / F(1e6L));
    int o = (int)r.range(-3, 8);
    F b;
    switch (r.below(4))
    {
    case 0: b = a; break;
    case 1: b = F(a * (F(1) + F((r.unit() * 2.5 - 1.2)) * std::pow(F(10), F(-o)))); break;
    case 2: b = F(a * (F(1) - F(1.01L) * std::pow(F(10), F(-o)))); break;
    default: do b = rand_float<F>(r); while (!std::isfinite(b) || std::abs(b) > std::numeric_limits<F>::max() / F(1e6L));
    }
    if (!std::isfinite(b)) b = a;
    if (r.chance(1, 2)) orders_case(c, a, b, o, tn); else if (r.chance(1, 2)) orders_case(c, a, b, double(o) + 0.5 * r.below(2), tn); else if (o >= 0) orders_case(c, a, b, (unsigned)o, tn);
}
template <typename I> void orders_int(Case& c, const char* tn)
{
    Rng& r = c.rng;
    using L = std::numeric_limits<I>;
    I a = I(r.next() >> r.below(64)), b;
    int o = (int)r.range(-1, 6);
    if (r.chance(1, 2)) b = I(r.next() >> r.below(64));
    else { long double x = (long double)a * (1 + (r.unit() * 2.4 - 1.2) * std::pow(10.0, -o)); if (x < (long double)L::min() || x > (long double)L::max()) b = a; else b = I(x); }
    if (std::is_signed<I>::value && (a == L::min() || b == L::min())) { a = 5; b = 7; }
    __int128 d = (__int128)a - (__int128)b; if (d < 0) d = -d;
    if (d > (__int128)L::max()) return;
    orders_case(c, a, b, o, tn);
}
GROUP("within_orders", 30000, 600000)
{
    for (int i = 0; i < 3; ++i) { orders_float<float>(c, "float"); orders_float<double>(c, "double"); orders_float<long double>(c, "long double"); }
#define M(T) orders_int<T>(c, #T);
    ALL_INTS(M)
#undef M
}

template <typename T> void clamp_case(Case& c, T v, T lo, T hi, const char* tn)
{
    if (hi < lo) std::swap(lo, hi);
    auto ref = [&](const T& x, const T& y) { return &x == &y; };
    const T& w = v < lo ? lo : hi < v ? hi : v;
    const T& g = gul14::clamp(v, lo, hi);
    CHECK(ref(g, w), "clamp-reference", tn << " returned " << (&g == &v ? "v" : &g == &lo ? "lo" : &g == &hi ? "hi" : "something else"));
    const T& g2 = gul14::clamp(v, lo, hi, [](const T& x, const T& y) { return x < y; });
    CHECK(ref(g2, w), "clamp-comp-reference", tn);
    // reversed order
    const T& g3 = gul14::clamp(v, hi, lo, [](const T& x, const T& y) { return y < x; });
    CHECK(&g3 == &w || (!(w < g3) && !(g3 < w)), "clamp-comp-reversed", tn);
    c.eval(3);
    c.count(&w == &v ? "clamp.inside" : &w == &lo ? "clamp.low" : "clamp.high");
}
GROUP("clamp", 20000, 400000)
{
    Rng& r = c.rng;
    auto f = [&] { double x; do x = rand_float<double>(r); while (std::isnan(x)); return x; };
    clamp_case<double>(c, f(), f(), f(), "double");
    double x = f(); clamp_case<double>(c, x, x, f(), "double"); clamp_case<double>(c, x, f(), x, "double"); clamp_case<double>(c, x, x, x, "double");
    clamp_case<double>(c, std::nan(""), f(), f(), "double-nan");
    clamp_case<double>(c, r.chance(1, 2) ? 0.0 : -0.0, r.chance(1, 2) ? 0.0 : -0.0, r.chance(1, 2) ? 0.0 : -0.0, "double-zero");
    clamp_case<int>(c, rand_int<int>(r), rand_int<int>(r), rand_int<int>(r), "int");
    clamp_case<int>(c, (int)r.below(4), (int)r.below(4), (int)r.below(4), "int");
    clamp_case<unsigned long>(c, rand_int<unsigned long>(r), rand_int<unsigned long>(r), rand_int<unsigned long>(r), "ulong");
    clamp_case<std::string>(c, rand_from(r, "ab", r.below(3)), rand_from(r, "ab", r.below(3)), rand_from(r, "ab", r.below(3)), "string");
    // Equivalence by key only
    struct K { int k, id; };
    K v{ (int)r.below(3), 0 }, lo{ (int)r.below(3), 1 }, hi{ (int)r.below(3), 2 };
    if (hi.k < lo.k) std::swap(lo.k, hi.k);
    auto comp = [](const K& a, const K& b) { return a.k < b.k; };
    const K& w = v.k < lo.k ? lo : hi.k < v.k ? hi : v;
    CHECK(&gul14::clamp(v, lo, hi, comp) == &w, "clamp-key", v.k << " in " << lo.k << ".." << hi.k);
    c.eval(); c.distinct(hash_bytes(&x, sizeof x));
}

template <typename I> void abs_int(Case& c, const char* tn)
{
    I v = rand_int<I>(c.rng);
    if (std::is_signed<I>::value && v == std::numeric_limits<I>::min()) ++v;
    I w = v; if (v < I(0)) w = I(-v);
    static_assert(std::is_same<decltype(gul14::abs(v)), I>::value, "type");
    CHECK(gul14::abs(v) == w, "abs", tn << " abs(" << std::to_string(v) << ") = " << std::to_string(gul14::abs(v)));
    c.eval();
}
template <typename F> void abs_float(Case& c, const char* tn)
{
    F v = rand_float<F>(c.rng), g = gul14::abs(v);
    if (std::isnan(v)) CHECK(std::isnan(g), "abs-nan", tn);
    else CHECK(g == (v < 0 ? -v : v) && !std::signbit(g), "abs", tn << " abs(" << sh(v) << ") = " << sh(g));
    c.eval();
}
GROUP("abs", 20000, 200000)
{
#define M(T) abs_int<T>(c, #T);
    ALL_INTS(M)
#undef M
    abs_float<float>(c, "float"); abs_float<double>(c, "double"); abs_float<long double>(c, "long double");
    CHECK(gul14::abs(true) == true && gul14::abs(false) == false, "abs-bool", "");
    c.distinct(c.rng.next());
}
