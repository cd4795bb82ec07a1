// C20: accuracy of to_number<floating point>, against the correctly rounding strtof/strtod/strtold
#include "gen.h"
#include <cmath>
#include <gul14/to_number.h>
#include <limits>
using namespace vm;

static float conv(const char* s, float) { return std::strtof(s, nullptr); }
static double conv(const char* s, double) { return std::strtod(s, nullptr); }
static long double conv(const char* s, long double) { return std::strtold(s, nullptr); }

template <typename T> struct Name;
template <> struct Name<float> { static const char* n() { return "float"; } static const char* fmt() { return "%.*e"; } };
template <> struct Name<double> { static const char* n() { return "double"; } static const char* fmt() { return "%.*e"; } };
template <> struct Name<long double> { static const char* n() { return "long-double"; } static const char* fmt() { return "%.*Le"; } };

// |a - b| in units in the last place of b, infinity being the step after the largest number
template <typename T>
static double ulps(T a, T b)
{
    if (a == b) return 0;
    const T mx = std::numeric_limits<T>::max();
    double extra = 0;
    if (std::isinf(a)) { a = a > 0 ? mx : -mx; extra += 1; }
    if (std::isinf(b)) { b = b > 0 ? mx : -mx; extra += 1; }
    T m = std::max(std::fabs(b), std::numeric_limits<T>::min());
    int ex;
    std::frexp(m, &ex);
    T ulp = std::ldexp(std::numeric_limits<T>::epsilon(), ex - 1);
    if (ulp < std::numeric_limits<T>::denorm_min()) ulp = std::numeric_limits<T>::denorm_min();
    T d = std::fabs(a / 2 - b / 2); // no overflow
    return static_cast<double>(d / ulp) * 2 + extra;
}

template <typename T>
static double tolerance(T want, std::size_t digits)
{
    bool sub = std::fabs(want) < std::numeric_limits<T>::min() * 64;
    if (std::is_same<T, long double>::value)
        return sub ? 32 : (digits > 19 ? 32 : 12); // documented conversion uses at most 19 digits
    return sub ? 4 : 3;
}

static std::size_t significant(const std::string& s)
{
    std::size_t n = 0;
    bool lead = true;
    for (char ch : s)
    {
        if (ch == 'e' || ch == 'E') break;
        if (ch < '0' || ch > '9') continue;
        if (lead && ch == '0') continue;
        lead = false;
        ++n;
    }
    return n;
}

static double worst[3];

template <typename T>
static void one(Case& c, const std::string& s)
{
    Exact e(s);
    gul14::optional<T> got = gul14::to_number<T>(e.sv());
    T want = conv(s.c_str(), T());
    std::string name = Name<T>::n();
    CHECK(got.has_value(), "rejected-" + name, show(s));
    CHECK(!std::isnan(*got), "nan-" + name, show(s));
    double u = ulps(*got, want);
    char b1[64], b2[64];
    std::snprintf(b1, sizeof b1, "%.25Lg", static_cast<long double>(*got));
    std::snprintf(b2, sizeof b2, "%.25Lg", static_cast<long double>(want));
    CHECK(u <= tolerance(want, significant(s)), "inaccurate-" + name, show(s) << " gives " << b1 << " expected " << b2 << ", off by " << u << " ULP");
    CHECK(std::signbit(*got) == (s[0] == '-'), "sign-" + name, show(s) << " gives " << b1);
    int k = sizeof(T) == 4 ? 0 : sizeof(T) == 8 ? 1 : 2;
    if (u > worst[k] && !(std::fabs(want) < std::numeric_limits<T>::min() * 64)) { worst[k] = u; }
    c.eval();
}

static void all(Case& c, const std::string& s)
{
    c.desc(show(s));
    one<float>(c, s);
    one<double>(c, s);
    one<long double>(c, s);
    c.distinct(hash_str(s));
    if (s.size() > 8) c.sample(show(s));
}

static std::string digits(Rng& r, std::size_t n)
{
    switch (r.below(6))
    {
    case 0: return std::string(n, '9');
    case 1: return n ? "1" + std::string(n - 1, '0') : "";
    case 2: return rand_from(r, "09", n);
    case 3: return rand_from(r, "01", n);
    default: return rand_from(r, "0123456789", n);
    }
}

// Decimal numbers of any layout: zeros, digits, decimal point anywhere, exponent compensating or not
static std::string number(Rng& r)
{
    std::string d = digits(r, 1 + r.below(r.chance(1, 5) ? 45 : 22));
    std::string m = d;
    int shift = 0;
    if (r.chance(2, 3)) { m.insert(r.below(m.size() + 1), "."); }
    if (r.chance(1, 4)) m.insert(0, r.below(30), '0');
    if (r.chance(1, 4)) { if (m.find('.') == std::string::npos) m += "."; m.append(r.below(30), '0'); }
    if (r.chance(1, 10)) { std::size_t k = r.below(r.chance(1, 10) ? 6000 : 400); m = "0." + std::string(k, '0') + d; shift = static_cast<int>(k); }
    else if (r.chance(1, 10)) { std::size_t k = r.below(r.chance(1, 10) ? 6000 : 400); m = d + std::string(k, '0'); shift = -static_cast<int>(k); }
    std::string s = r.chance(1, 3) ? "-" + m : m;
    if (shift != 0 || r.chance(3, 4))
    {
        int e;
        switch (r.below(9))
        {
        case 0: e = static_cast<int>(r.range(-20, 20)); break;
        case 1: e = static_cast<int>(r.range(-45, 40)); break;
        case 2: e = static_cast<int>(r.range(-345, 310)); break;
        case 3: e = static_cast<int>(r.range(-4990, 4935)); break;
        case 4: { static const int b[] = { 15, 16, 17, 31, 32, 33, 38, 39, 63, 64, 127, 128, 255, 256, 307, 308, 309, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 4931, 4932, 4950 };
            e = r.pick(b); if (r.chance(1, 2)) e = -e; break; }
        case 5: e = static_cast<int>(r.range(-50, 50)); break;
        case 6: { static const int b[] = { 8191, 8192, 10000, 99999, 100000, 1000000, 2147483647, 2147483646, -2147483647 };
            e = r.pick(b); break; }
        default: e = 0;
        }
        if (e > -1000000 && e < 1000000) e += shift;
        s += r.chance(1, 2) ? "e" : "E";
        std::string es = std::to_string(e);
        if (es[0] != '-' && r.chance(1, 3)) es = "+" + es;
        if (r.chance(1, 6)) es.insert(es[0] == '-' || es[0] == '+' ? 1u : 0u, r.below(12), '0');
        s += es;
    }
    return s;
}

GROUP("random_numbers", 150000, 3000000) { all(c, number(c.rng)); }

GROUP("powers_of_ten", 10000, 10000) // every power of ten that matters, several layouts
{
    int e = static_cast<int>(c.idx) - 5000;
    for (const char* m : { "1", "9.9999999999999999999", "1.5", "10", "0.1", "3" })
        all(c, std::string(m) + "e" + std::to_string(e));
    all(c, "-" + std::to_string(c.idx * 7919 + 3) + "e" + std::to_string(e));
}

GROUP("small_decimals", 20000, 400000)
{
    long long k = static_cast<long long>(c.rng.below(100000));
    all(c, std::to_string(k));
    all(c, std::to_string(k / 100) + "." + std::to_string(k % 100));
    all(c, "." + std::to_string(k));
    all(c, "-" + std::to_string(k) + ".");
}

GROUP("zeros", 3000, 30000)
{
    std::string s(c.rng.below(40), '0');
    if (c.rng.chance(1, 2) || s.empty()) { s += "."; s.append(c.rng.below(40) + 1, '0'); }
    if (c.rng.chance(1, 2)) s = "-" + s;
    if (c.rng.chance(1, 2)) s += "e" + std::to_string(c.rng.range(-100000, 100000));
    all(c, s);
}

// Shortest exact representations must come back (nearly) unchanged
template <typename T>
static void roundtrip(Case& c)
{
    T x;
    if (sizeof(T) == 4) { std::uint32_t b = static_cast<std::uint32_t>(c.rng.next()); std::memcpy(&x, &b, 4); }
    else if (sizeof(T) == 8) { std::uint64_t b = c.rng.next(); std::memcpy(&x, &b, 8); }
    else
    {
        long double m = static_cast<long double>(c.rng.next() | 0x8000000000000000ull);
        x = static_cast<T>(std::ldexp(m, static_cast<int>(c.rng.range(-16445 - 63, 16320))));
        if (c.rng.chance(1, 2)) x = static_cast<T>(std::ldexp(m, static_cast<int>(c.rng.range(-120, 10))));
    }
    if (!std::isfinite(x)) return;
    char buf[128];
    std::snprintf(buf, sizeof buf, Name<T>::fmt(), std::numeric_limits<T>::max_digits10 - 1, x);
    std::string s = buf;
    c.desc(s);
    Exact e(s);
    auto got = gul14::to_number<T>(e.sv());
    CHECK(got.has_value(), std::string("roundtrip-rejected-") + Name<T>::n(), s);
    double u = ulps(*got, x);
    CHECK(u <= tolerance(x, significant(s)), std::string("roundtrip-") + Name<T>::n(), s << " off by " << u << " ULP");
    c.eval();
    c.distinct(hash_str(s));
    if (*got == x) c.count(std::string("exact_roundtrips_") + Name<T>::n());
    std::snprintf(buf, sizeof buf, sizeof(T) == 16 ? "%.20Lf" : "%.20f", x);
    if (std::strlen(buf) < 60) all(c, buf);
}
GROUP("roundtrip_float", 40000, 1000000) { roundtrip<float>(c); }
GROUP("roundtrip_double", 40000, 1000000) { roundtrip<double>(c); }
GROUP("roundtrip_long_double", 40000, 1000000) { roundtrip<long double>(c); }

GROUP("report", 8, 8)
{
    c.count("max_error_milliulp_float", 0);
    auto& g = G().counters;
    g["max_error_milliulp_float"] = std::max<std::uint64_t>(g["max_error_milliulp_float"], static_cast<std::uint64_t>(worst[0] * 1000));
    g["max_error_milliulp_double"] = std::max<std::uint64_t>(g["max_error_milliulp_double"], static_cast<std::uint64_t>(worst[1] * 1000));
    g["max_error_milliulp_long_double"] = std::max<std::uint64_t>(g["max_error_milliulp_long_double"], static_cast<std::uint64_t>(worst[2] * 1000));
}
