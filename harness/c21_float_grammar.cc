// C21: which strings to_number<floating point> accepts, against an independent recognizer
#include "gen.h"
#include <cmath>
#include <gul14/to_number.h>
#include <limits>
using namespace vm;

static bool dig(char ch) { return ch >= '0' && ch <= '9'; }

enum class Kind { invalid, number, inf, nan, unspecified };

static Kind classify(std::string s)
{
    if (!s.empty() && s[0] == '-') s.erase(0, 1);
    if (s.empty()) return Kind::invalid;
    std::string l = low(s);
    if (l == "inf" || l == "infinity") return Kind::inf;
    if (l.compare(0, 3, "nan") == 0)
    {
        if (l.size() == 3) return Kind::nan;
        if (l.size() < 5 || l[3] != '(' || l.back() != ')') return Kind::invalid;
        for (std::size_t i = 4; i + 1 < l.size(); ++i)
            if (!(dig(l[i]) || (l[i] >= 'a' && l[i] <= 'z') || l[i] == '_')) return Kind::invalid;
        return Kind::nan;
    }
    std::size_t i = 0, n = 0;
    while (i < s.size() && dig(s[i])) { ++i; ++n; }
    if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && dig(s[i])) { ++i; ++n; } }
    if (n == 0) return Kind::invalid;
    if (i == s.size()) return Kind::number;
    if (s[i] != 'e' && s[i] != 'E') return Kind::invalid;
    ++i;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    std::size_t d = 0;
    while (i < s.size() && s[i] == '0') { ++i; ++d; }
    std::string sig;
    while (i < s.size() && dig(s[i])) { sig += s[i]; ++i; ++d; }
    if (d == 0 || i != s.size()) return Kind::invalid;
    // exponents that do not fit into an int may be rejected as out of range
    if (sig.size() > 10 || (sig.size() == 10 && sig > "2147483647")) return Kind::unspecified;
    return Kind::number;
}

template <typename T>
static void one(Case& c, const std::string& s, const char* type)
{
    Exact e(s, true, static_cast<unsigned>(c.idx));
    gul14::optional<T> got = gul14::to_number<T>(e.sv());
    Kind k = classify(s);
    c.eval();
    if (k == Kind::unspecified) { c.count("unspecified"); return; }
    CHECK(got.has_value() == (k != Kind::invalid), std::string(k == Kind::invalid ? "accepted-" : "rejected-") + type, show(s));
    if (!got) { c.count("rejected"); return; }
    c.count(k == Kind::number ? "numbers" : k == Kind::nan ? "nans" : "infs");
    bool neg = s[0] == '-';
    if (k == Kind::nan) CHECK(std::isnan(*got), std::string("not-nan-") + type, show(s));
    else if (k == Kind::inf) CHECK(std::isinf(*got) && std::signbit(*got) == neg, std::string("not-inf-") + type, show(s));
    else
    {
        CHECK(!std::isnan(*got) && std::signbit(*got) == neg, std::string("number-") + type, show(s));
        if (s.size() < 25 && s.find_first_of("eE") == std::string::npos)
            CHECK(std::isfinite(*got), std::string("number-infinite-") + type, show(s));
    }
}

static void all(Case& c, const std::string& s)
{
    c.desc(show(s));
    one<float>(c, s, "float");
    one<double>(c, s, "double");
    one<long double>(c, s, "long-double");
    c.distinct(hash_str(s));
}

// every string up to length 4 (thorough: 5) over the alphabet of numbers and a few others
static const std::string small_alphabet = lit("01.-+eE iN\0");

GROUP("exhaustive_short", 11111, 122222)
{
    // index -> base-11 string of length 0..4 / 0..5
    std::uint64_t k = c.idx, len = 0, block = 1;
    while (k >= block) { k -= block; block *= small_alphabet.size(); ++len; }
    std::string s;
    for (std::uint64_t i = 0; i != len; ++i) { s += small_alphabet[k % small_alphabet.size()]; k /= small_alphabet.size(); }
    all(c, s);
    if (c.idx % 977 == 0) c.sample(show(s));
}

static std::string valid(Rng& r)
{
    std::string s = r.chance(1, 3) ? "-" : "";
    if (r.chance(1, 5))
    {
        static const char* w[] = { "inf", "infinity", "nan", "nan()", "nan(1)", "nan(_aZ09)", "nan(infinity)", "nan(nan)" };
        std::string t = r.pick(w);
        for (auto& ch : t) if (r.chance(1, 2) && ((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z'))) ch = static_cast<char>(ch ^ 0x20);
        return s + t;
    }
    std::size_t a = r.chance(1, 4) ? r.below(40) : r.below(5), b = r.chance(1, 4) ? r.below(40) : r.below(5);
    std::string x = rand_from(r, r.chance(1, 4) ? "0" : "0123456789", a), y = rand_from(r, r.chance(1, 4) ? "0" : "0123456789", b);
    if (a + b == 0) x = "7";
    s += x;
    if (r.chance(2, 3) || x.empty()) s += "." + (y.empty() && x.empty() ? "3" : y);
    if (r.chance(1, 2))
    {
        s += r.chance(1, 2) ? "e" : "E";
        if (r.chance(1, 2)) s += r.chance(1, 2) ? "+" : "-";
        s += rand_from(r, "0123456789", 1 + r.below(r.chance(1, 6) ? 12 : 3));
    }
    return s;
}

GROUP("valid", 60000, 1000000) { std::string s = valid(c.rng); all(c, s); c.sample(show(s)); }

GROUP("mutated", 200000, 4000000)
{
    Rng& r = c.rng;
    std::string s = valid(r);
    static const std::string bad = lit("+-.eE 0\t\n\0xXpPdDfFlL(),_'/:nNiIaAtTyY\x80\xff\xb2");
    int n = r.chance(1, 4) ? 2 : 1;
    while (n--)
    {
        char ch = r.chance(1, 5) ? static_cast<char>(r.next()) : bad[r.below(bad.size())];
        switch (r.below(7))
        {
        case 0: s += ch; break;
        case 1: s.insert(s.begin(), ch); break;
        case 2: case 3: s.insert(r.below(s.size() + 1), 1, ch); break;
        case 4: if (!s.empty()) s[r.below(s.size())] = ch; break;
        case 5: if (!s.empty()) s.erase(r.below(s.size()), 1); break;
        default: if (!s.empty()) s = s.substr(0, r.below(s.size())); break;
        }
    }
    all(c, s);
    c.sample(show(s));
}

GROUP("garbage", 40000, 800000)
{
    Rng& r = c.rng;
    std::string s = r.chance(1, 2) ? rand_string(r) : rand_from(r, "0123456789.-+eEnaifNAIFtyTY()_ ", r.below(12));
    all(c, s);
}

// a long mantissa with one wrong character anywhere (digits beyond the precision must be checked, too)
GROUP("long_mantissa", 30000, 500000)
{
    Rng& r = c.rng;
    std::string s = rand_from(r, "0123456789", 1 + r.below(60));
    if (r.chance(2, 3)) s.insert(r.below(s.size() + 1), ".");
    if (r.chance(1, 2)) s += "e" + std::to_string(r.range(-400, 400));
    if (r.chance(3, 4))
    {
        static const std::string bad = lit("x. -+\0,:/aeE");
        s[r.below(s.size())] = bad[r.below(bad.size())];
    }
    all(c, s);
}
