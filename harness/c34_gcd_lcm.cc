// C34: gcd and lcm against 128 bit arithmetic
#include "gen.h"
#include <limits>
#include <gul14/gcd_lcm.h>
using namespace vm;
typedef __int128 W; typedef unsigned __int128 UW;
static UW g_ref(UW a, UW b) { while (b) { UW t = a % b; a = b; b = t; } return a; }
static std::string s128(W v) { if (v == 0) return "0"; bool n = v < 0; UW u = n ? -(UW)v : (UW)v; std::string r; while (u) { r.insert(r.begin(), char('0' + int(u % 10))); u /= 10; } return n ? "-" + r : r; }

template <typename A, typename B> void one(Case& c, A a, B b, const char* tn)
{
    using C = std::common_type_t<A, B>;
    const W mx = (W)std::numeric_limits<C>::max();
    UW ua = (W)a < 0 ? (UW)(-(W)a) : (UW)(W)a, ub = (W)b < 0 ? (UW)(-(W)b) : (UW)(W)b;
    UW g = g_ref(ua, ub);
    UW l = g == 0 ? 0 : ua / g * ub;
    c.desc(std::string(tn) + " " + s128(a) + ", " + s128(b));
    if ((W)g <= mx)
    {
        auto got = gul14::gcd(a, b);
        static_assert(std::is_same<decltype(got), C>::value, "result type");
        CHECK((W)got == (W)g, "gcd", "got " << s128((W)got) << " expected " << s128((W)g));
        c.eval(); c.count("gcd");
    }
    else c.count("gcd.not-representable");
    if (l <= (UW)mx && (ua == 0 || ub == 0 || l / ua * ua == l))
    {
        auto got = gul14::lcm(a, b);
        static_assert(std::is_same<decltype(got), C>::value, "result type");
        CHECK((W)got == (W)l, "lcm", "got " << s128((W)got) << " expected " << s128((W)l));
        c.eval(); c.count("lcm");
    }
    else c.count("lcm.not-representable");
    c.distinct(hash_str(std::string(tn) + s128(a) + "," + s128(b)));
    if (g > 1) c.sample(std::string(tn) + " gcd(" + s128(a) + ", " + s128(b) + ") = " + s128(g));
}
template <typename T> T rnd(Rng& r)
{
    using L = std::numeric_limits<T>;
    T v;
    switch (r.below(5))
    {
    case 0: v = T(L::max() - T(r.below(3))); break;
    case 1: v = T(L::min() + T(r.below(3))); break;
    case 2: v = T(r.below(40)); break;
    case 3: { static const unsigned p[] = { 2, 2, 2, 3, 3, 5, 7, 11, 13 }; v = 1; int n = (int)r.below(30); for (int i = 0; i < n; ++i) { W x = (W)v * p[r.below(9)]; if (x > (W)L::max()) break; v = T(x); } break; }
    default: v = T(r.next() >> r.below(64));
    }
    if (std::is_signed<T>::value && v != L::min() && r.chance(1, 2)) v = T(-v);
    return v;
}
template <typename A, typename B> void pair(Case& c, const char* tn)
{
    Rng& r = c.rng;
    A a = rnd<A>(r); B b = rnd<B>(r);
    if (r.chance(1, 4)) a = A(b); // related values
    if (r.chance(1, 6)) { b = B(r.below(12)); a = A(b * B(r.below(9))); }
    one<A, B>(c, a, b, tn);
    one<B, A>(c, b, a, tn);
}
GROUP("pairs", 20000, 400000)
{
#define P(A, B) pair<A, B>(c, #A "/" #B);
    P(int, int) P(long, long) P(long long, long) P(short, short) P(signed char, signed char) P(signed char, long) P(short, int) P(int, long) P(char, short) P(int, signed char)
    P(unsigned, unsigned) P(unsigned long, unsigned long) P(unsigned char, unsigned char) P(unsigned short, unsigned short) P(unsigned char, unsigned long) P(unsigned short, unsigned) P(unsigned long long, unsigned) P(unsigned, unsigned char)
}
// All pairs of all 8 bit integers
GROUP("all_8bit", 256, 256)
{
    for (int j = 0; j < 256; ++j)
    {
        one<signed char, signed char>(c, (signed char)c.idx, (signed char)j, "signed char");
        one<unsigned char, unsigned char>(c, (unsigned char)c.idx, (unsigned char)j, "unsigned char");
        one<signed char, int>(c, (signed char)c.idx, j - 128, "signed char/int");
    }
}
// usable in constant expressions
static_assert(gul14::gcd(12, -18) == 6, ""); static_assert(gul14::lcm(4u, 6u) == 12u, "");
