// C19: to_number<integer> and to_number<bool> against exact 128-bit arithmetic
#include "gen.h"
#include <gul14/to_number.h>
#include <limits>
using namespace vm;

// Exact reference: -1 invalid, otherwise value in out
template <typename T>
static bool ref(const std::string& s, T& out)
{
    std::size_t i = 0;
    bool neg = false;
    if (std::is_signed<T>::value && !s.empty() && s[0] == '-') { neg = true; i = 1; }
    if (i == s.size()) return false;
    unsigned __int128 v = 0;
    const unsigned __int128 cap = static_cast<unsigned __int128>(1) << 100;
    for (; i != s.size(); ++i)
    {
        unsigned char ch = static_cast<unsigned char>(s[i]);
        if (ch < 48 || ch > 57) return false;
        v = v * 10 + (ch - 48);
        if (v > cap) v = cap; // saturate: out of range of any type
    }
    unsigned __int128 lim = static_cast<unsigned __int128>(std::numeric_limits<T>::max()) + (neg ? 1 : 0);
    if (v > lim) return false;
    __int128 sv = neg ? -static_cast<__int128>(v) : static_cast<__int128>(v);
    out = static_cast<T>(sv);
    return true;
}

template <typename T>
static void one(Case& c, const std::string& s, const char* type)
{
    Exact e(s, true, static_cast<unsigned>(c.idx));
    gul14::optional<T> got = gul14::to_number<T>(e.sv());
    T want = 0;
    bool valid = ref<T>(s, want);
    CHECK(got.has_value() == valid, std::string(valid ? "rejected-" : "accepted-") + type,
        show(s) << (valid ? " should be accepted" : " should be rejected") << (got ? " got " + std::to_string(*got) : ""));
    if (valid) CHECK(*got == want, std::string("value-") + type, show(s) << " gives " << +*got << " expected " << +want);
    c.eval();
    c.count(valid ? "accepted" : "rejected");
}

static void all(Case& c, const std::string& s)
{
    c.desc("text " + show(s));
    one<signed char>(c, s, "signed-char");
    one<unsigned char>(c, s, "unsigned-char");
    one<char>(c, s, "char");
    one<short>(c, s, "short");
    one<unsigned short>(c, s, "unsigned-short");
    one<int>(c, s, "int");
    one<unsigned>(c, s, "unsigned");
    one<long>(c, s, "long");
    one<unsigned long>(c, s, "unsigned-long");
    one<long long>(c, s, "long-long");
    one<unsigned long long>(c, s, "unsigned-long-long");
    one<wchar_t>(c, s, "wchar_t");
    one<char16_t>(c, s, "char16_t");
    c.distinct(hash_str(s));
    if (s.size() > 6) c.sample(show(s));
}

static std::string str128(__int128 v)
{
    bool neg = v < 0;
    unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
    std::string s;
    do { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10))); u /= 10; } while (u);
    return neg ? "-" + s : s;
}

GROUP("small_all", 4200, 70000) // consecutive integers around 0, in blocks
{
    __int128 base = (static_cast<__int128>(c.idx) - (c.thorough() ? 35000 : 2100)) * (c.thorough() ? 2 : 33);
    for (int k = 0; k != (c.thorough() ? 2 : 3); ++k)
    {
        std::string s = str128(base + (c.thorough() ? k : static_cast<int>(c.rng.below(33))));
        all(c, s);
        if (c.rng.chance(1, 8)) { std::size_t p = s[0] == '-' ? 1 : 0; s.insert(p, c.rng.below(30), '0'); all(c, s); }
    }
}

GROUP("eight_bit_all", 1024, 1024)
{
    std::string s = str128(static_cast<int>(c.idx) - 512);
    all(c, s);
    all(c, "0" + s);
    all(c, s + "0");
}

GROUP("boundaries", 20000, 400000)
{
    static const int bits[] = { 7, 8, 15, 16, 31, 32, 63, 64, 65, 66, 67, 68, 127 };
    int b = c.rng.pick(bits);
    unsigned __int128 p = b == 127 ? ~static_cast<unsigned __int128>(0) >> 1 : static_cast<unsigned __int128>(1) << b;
    __int128 v = static_cast<__int128>(p);
    if (b != 127) v += c.rng.range(-20, 20);
    if (c.rng.chance(1, 3) && b < 100) v = v * c.rng.range(1, 30) + c.rng.range(-3, 3); // wraps around in the type
    if (c.rng.chance(1, 3) && b < 100) v = v / 10 * 10 + c.rng.range(-2, 12);
    if (c.rng.chance(1, 2)) v = -v;
    std::string s = str128(v);
    if (c.rng.chance(1, 4)) s.insert(s[0] == '-' ? 1u : 0u, c.rng.below(40), '0');
    all(c, s);
}

GROUP("random_digits", 20000, 400000)
{
    std::string s = rand_from(c.rng, "0123456789", 1 + c.rng.below(c.rng.chance(1, 20) ? 200 : 24));
    if (c.rng.chance(1, 3)) s = "-" + s;
    all(c, s);
}

GROUP("mutations", 60000, 1200000)
{
    std::string s = str128(static_cast<__int128>(static_cast<std::int64_t>(c.rng.next() >> c.rng.below(64))));
    if (c.rng.chance(1, 3)) s = "-" + s;
    static const std::string bad = lit("+- \t\n.,eExX'\"\0/:aAfF_#lLuU\x80\xff\xb0\xb2");
    switch (c.rng.below(5))
    {
    case 0: s.insert(s.begin(), bad[c.rng.below(bad.size())]); break;
    case 1: s += bad[c.rng.below(bad.size())]; break;
    case 2: s.insert(c.rng.below(s.size() + 1), 1, bad[c.rng.below(bad.size())]); break;
    case 3: s[c.rng.below(s.size())] = bad[c.rng.below(bad.size())]; break;
    default: s[c.rng.below(s.size())] = static_cast<char>(c.rng.next()); break;
    }
    all(c, s);
}

GROUP("single_and_double_chars", 65793, 65793)
{
    std::string s;
    if (c.idx >= 257) { std::uint64_t k = c.idx - 257; s += static_cast<char>(k >> 8); s += static_cast<char>(k); }
    else if (c.idx >= 1) s += static_cast<char>(c.idx - 1);
    if (!c.thorough() && c.idx > 300 && (mix(c.idx) % 4) != G().opt.seed % 4 && !(s[0] == '-' || (s[1] >= '-' && s[1] <= ';'))) return;
    all(c, s);
}

GROUP("bool", 30000, 600000)
{
    Rng& r = c.rng;
    std::string s = r.chance(1, 2) ? "true" : "false";
    for (auto& ch : s) if (r.chance(1, 2)) ch = static_cast<char>(ch ^ 0x20);
    switch (r.below(12))
    {
    case 0: s += static_cast<char>(r.next()); break;
    case 1: s.pop_back(); break;
    case 2: s[r.below(s.size())] ^= static_cast<char>(1 << r.below(8)); break;
    case 3: s.insert(s.begin(), static_cast<char>(r.next())); break;
    case 4: s = std::string(1, static_cast<char>(r.next())); break;
    case 5: s = r.chance(1, 2) ? "1" : "0"; break;
    case 6: s = rand_from(r, "01-+ tfTF", r.below(4)); break;
    case 7: s = rand_string(r); break;
    case 8: s = s.substr(0, r.below(s.size())); break;
    default: break;
    }
    c.desc(show(s));
    Exact e(s, true, static_cast<unsigned>(c.idx));
    auto got = gul14::to_number<bool>(e.sv());
    std::string l = low(s);
    bool valid = l == "true" || l == "false" || s == "1" || s == "0";
    CHECK(got.has_value() == valid, "bool-validity", show(s));
    if (valid) CHECK(*got == (l == "true" || s == "1"), "bool-value", show(s));
    c.eval();
    c.distinct(hash_str(s));
}
