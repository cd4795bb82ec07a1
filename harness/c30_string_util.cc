// C30: hex_string(), repeat(), safe_string(), default_whitespace_characters, hex_digits
#include "gen.h"
#include <array>
#include <forward_list>
#include <list>
#include <gul14/SmallVector.h>
#include <gul14/span.h>
#include <gul14/string_util.h>
using namespace vm;

template <typename T>
static std::string ref_hex(T v)
{
    char buf[40];
    unsigned long long u = static_cast<unsigned long long>(v);
    if (sizeof(T) < 8) u &= (1ull << (8 * sizeof(T))) - 1;
    std::snprintf(buf, sizeof buf, "%0*llx", static_cast<int>(2 * sizeof(T)), u);
    return buf;
}

template <typename T> static T val(Rng& r)
{
    switch (r.below(5))
    {
    case 0: return std::numeric_limits<T>::max();
    case 1: return std::numeric_limits<T>::lowest();
    case 2: return static_cast<T>(r.below(300));
    default: return static_cast<T>(r.next() >> r.below(64));
    }
}

template <typename T>
static void hex(Case& c)
{
    Rng& r = c.rng;
    T v = val<T>(r);
    CHECK(gul14::hex_string(v) == ref_hex(v), "hex-value", gul14::hex_string(v) << " expected " << ref_hex(v));
    std::vector<T> vec(r.below(20));
    std::string sep = r.chance(1, 3) ? "" : rand_string(r);
    std::string want, want_ns;
    for (std::size_t i = 0; i != vec.size(); ++i)
    {
        vec[i] = val<T>(r);
        if (i) want += sep;
        want += ref_hex(vec[i]);
        want_ns += ref_hex(vec[i]);
    }
    vec.shrink_to_fit();
    Exact es(sep, true, static_cast<unsigned>(c.idx));
    CHECK(gul14::hex_string(vec.begin(), vec.end(), es.sv()) == want, "hex-range", gul14::hex_string(vec.begin(), vec.end(), es.sv()) << " expected " << want);
    CHECK(gul14::hex_string(vec.begin(), vec.end()) == want_ns, "hex-range-default", "");
    CHECK(gul14::hex_string(vec, es.sv()) == want, "hex-container", "");
    CHECK(gul14::hex_string(vec) == want_ns, "hex-container-default", "");
    CHECK(gul14::hex_string(vec.data(), vec.data() + vec.size(), es.sv()) == want, "hex-pointers", "");
    std::forward_list<T> fl(vec.begin(), vec.end());
    CHECK(gul14::hex_string(fl.begin(), fl.end(), es.sv()) == want, "hex-forward_list", "");
    std::list<T> li(vec.begin(), vec.end());
    CHECK(gul14::hex_string(li, es.sv()) == want, "hex-list", "");
    gul14::SmallVector<T, 3> sv(vec.begin(), vec.end());
    CHECK(gul14::hex_string(sv, es.sv()) == want, "hex-SmallVector", "");
    T arr[3] = { val<T>(r), val<T>(r), val<T>(r) };
    CHECK(gul14::hex_string(arr, es.sv()) == ref_hex(arr[0]) + sep + ref_hex(arr[1]) + sep + ref_hex(arr[2]), "hex-array", "");
    CHECK(gul14::hex_string(arr) == ref_hex(arr[0]) + ref_hex(arr[1]) + ref_hex(arr[2]), "hex-array-default", "");
    c.eval(10);
    if (!want.empty()) c.distinct(hash_str(want));
    if (vec.size() > 2) c.sample(want.substr(0, 200));
}
GROUP("hex_char", 2500, 40000) { hex<char>(c); }
GROUP("hex_schar", 2500, 40000) { hex<signed char>(c); }
GROUP("hex_uchar", 2500, 40000) { hex<unsigned char>(c); }
GROUP("hex_short", 2500, 40000) { hex<short>(c); }
GROUP("hex_ushort", 2500, 40000) { hex<unsigned short>(c); }
GROUP("hex_int", 2500, 40000) { hex<int>(c); }
GROUP("hex_uint", 2500, 40000) { hex<unsigned>(c); }
GROUP("hex_long", 2500, 40000) { hex<long>(c); }
GROUP("hex_ullong", 2500, 40000) { hex<unsigned long long>(c); }
GROUP("hex_llong", 2500, 40000) { hex<long long>(c); }

GROUP("hex_all_16_bit", 256, 256)
{
    for (int k = 0; k != 256; ++k)
    {
        auto v = static_cast<std::int16_t>(c.idx * 256 + static_cast<unsigned>(k));
        CHECK(gul14::hex_string(v) == ref_hex(v), "hex-16", v);
        CHECK(gul14::hex_string(static_cast<std::uint16_t>(v)) == ref_hex(static_cast<std::uint16_t>(v)), "hex-u16", v);
    }
    c.eval(512);
    auto b = static_cast<signed char>(c.idx);
    CHECK(gul14::hex_string(b) == ref_hex(b) && gul14::hex_string(static_cast<char>(b)) == ref_hex(b) && gul14::hex_string(static_cast<unsigned char>(b)) == ref_hex(b), "hex-8", int(b));
    c.distinct(c.idx);
}

GROUP("repeat", 20000, 300000)
{
    std::string s = rand_string(c.rng);
    std::size_t n = c.rng.chance(1, 8) ? c.rng.below(300) : c.rng.below(8);
    Exact e(s, true, static_cast<unsigned>(c.idx));
    std::string want;
    for (std::size_t i = 0; i != n; ++i) want.append(s);
    std::string got = gul14::repeat(e.sv(), n);
    CHECK(got == want, "repeat", show(s) << " times " << n << " gives " << show(got));
    c.eval();
    if (n > 1 && !s.empty()) c.distinct(hash_str(s, n));
    if (s.empty()) { CHECK(gul14::repeat(e.sv(), 1000 + c.rng.below(1000)).empty(), "repeat-empty", ""); }
}

GROUP("safe_string", 40000, 600000)
{
    Rng& r = c.rng;
    std::string s = rand_string(r);
    if (r.chance(1, 3) && !s.empty()) s[r.below(s.size())] = '\0';
    Exact e(s, false, 1);
    // exactly sized buffer without terminator: the length is the limit
    std::size_t n = r.chance(1, 2) ? s.size() : r.below(s.size() + 1);
    std::string want = s.substr(0, n);
    want = want.substr(0, want.find('\0'));
    std::string got = gul14::safe_string(e.data(), n);
    CHECK(got == want, "safe_string", show(s) << " length " << n << " gives " << show(got) << " expected " << show(want));
    CHECK(gul14::safe_string(nullptr, r.below(100000)).empty(), "null", "");
    CHECK(gul14::safe_string(nullptr, 0).empty(), "null0", "");
    c.eval(3);
    if (!want.empty()) c.distinct(hash_str(s, n));
}

GROUP("constants", 8, 8)
{
    std::string w = str(gul14::default_whitespace_characters);
    std::set<char> got(w.begin(), w.end()), want{ ' ', '\t', '\r', '\n', '\a', '\b', '\f', '\v' };
    CHECK(got == want && w.size() == 8, "whitespace", show(w));
    CHECK(std::string(gul14::hex_digits.begin(), gul14::hex_digits.end()) == "0123456789abcdef", "hex_digits", "");
    c.eval(2);
}
// Numbers of elements beyond 8- and 16-bit counters
GROUP("large", 12, 100)
{
    Rng& r = c.rng;
    const std::size_t counts[] = { 255, 256, 257, 32768, 65535, 65536, 65537, 100001 };
    std::size_t n = counts[c.idx % 8] + r.below(3);
    std::vector<unsigned short> v(n);
    std::string sep = r.chance(1, 3) ? "" : ", ", want;
    for (std::size_t i = 0; i != n; ++i) { v[i] = static_cast<unsigned short>(r.next()); if (i) want += sep; want += ref_hex(v[i]); }
    CHECK(gul14::hex_string(v, sep) == want, "large-hex", n << " elements");
    std::list<unsigned short> li(v.begin(), v.end());
    CHECK(gul14::hex_string(li.begin(), li.end(), sep) == want, "large-hex-list", n << " elements");
    std::string unit = r.chance(1, 3) ? std::string("x") : "ab" + std::to_string(r.below(1000)), rep;
    for (std::size_t i = 0; i != n; ++i) rep += unit;
    CHECK(gul14::repeat(unit, n) == rep, "large-repeat", unit << " " << n);
    CHECK(gul14::repeat("q", n) == std::string(n, 'q'), "large-repeat-char", n);
    std::string longu(n, 'w'); longu.back() = 'e';
    CHECK(gul14::repeat(longu, 3) == longu + longu + longu, "large-repeat-unit", n);
    std::string buf(n + 8, 's');
    std::size_t z = n - r.below(20);
    buf[z] = '\0';
    CHECK(gul14::safe_string(buf.data(), n) == buf.substr(0, std::min(z, n)), "large-safe_string", n << " " << z);
    c.eval(6);
    c.distinct(hash_mix(n, hash_str(unit)));
}
