// C28: contains / starts_with / ends_with and the case-insensitive variants
#include "gen.h"
#include <gul14/substring_checks.h>
using namespace vm;

static bool at(const std::string& s, std::size_t i, const std::string& n)
{
    if (i + n.size() > s.size()) return false;
    for (std::size_t k = 0; k < n.size(); ++k) if (s[i + k] != n[k]) return false;
    return true;
}
static bool has(const std::string& s, const std::string& n)
{
    for (std::size_t i = 0; i + n.size() <= s.size(); ++i) if (at(s, i, n)) return true;
    return false;
}

static void check(Case& c, const std::string& s, const std::string& n)
{
    c.desc(show(s) + " ? " + show(n));
    Exact es(s, true, static_cast<unsigned>(c.idx)), en(n, true, static_cast<unsigned>(c.idx / 2));
    auto v = es.sv();
    auto w = en.sv();
    const std::string sl = low(s), nl = low(n);
    bool C = has(s, n), S = at(s, 0, n), E = n.size() <= s.size() && at(s, s.size() - n.size(), n);
    bool Cn = has(sl, nl), Sn = at(sl, 0, nl), En = nl.size() <= sl.size() && at(sl, sl.size() - nl.size(), nl);
    CHECK(gul14::contains(v, w) == C, "contains", "expected " << C);
    CHECK(gul14::starts_with(v, w) == S, "starts_with", "expected " << S);
    CHECK(gul14::ends_with(v, w) == E, "ends_with", "expected " << E);
    CHECK(gul14::contains_nocase(v, w) == Cn, "contains_nocase", "expected " << Cn);
    CHECK(gul14::starts_with_nocase(v, w) == Sn, "starts_with_nocase", "expected " << Sn);
    CHECK(gul14::ends_with_nocase(v, w) == En, "ends_with_nocase", "expected " << En);
    const bool Q = sl.size() == nl.size() && at(sl, 0, nl);
    CHECK(gul14::equals_nocase(v, w) == Q && gul14::equals_nocase(w, v) == Q, "equals_nocase", "expected " << Q);
    {   // the same length: the text itself in another case, and with one changed character
        std::string o = s;
        for (char& x : o) if (c.rng.chance(1, 2)) { if (x >= 'a' && x <= 'z') x = char(x - 32); else if (x >= 'A' && x <= 'Z') x = char(x + 32); }
        Exact eo(o, true, static_cast<unsigned>(c.idx / 3));
        CHECK(gul14::equals_nocase(v, eo.sv()) && gul14::equals_nocase(eo.sv(), v), "equals_nocase-same", show(o));
        if (!o.empty())
        {
            const std::size_t k = c.rng.below(o.size()); o[k] = c.rng.chance(1, 2) ? char(o[k] ^ (1 << c.rng.below(8))) : char(c.rng.below(256));
            Exact ex(o, true, static_cast<unsigned>(c.idx / 3)); const bool q = low(o) == sl;
            CHECK(gul14::equals_nocase(v, ex.sv()) == q && gul14::equals_nocase(ex.sv(), v) == q, "equals_nocase-changed", show(o) << " expected " << q);
            c.count(q ? "equals_nocase.yes" : "equals_nocase.no");
        }
    }
    c.eval(11);
    // the overloads for std::string and C strings give the same answers
    if (n.find('\0') == std::string::npos && s.find('\0') == std::string::npos)
    {
        CHECK(gul14::contains(s, n.c_str()) == C && gul14::starts_with(s.c_str(), n) == S && gul14::ends_with(s, n.c_str()) == E,
            "cstring-overloads", "");
        CHECK(gul14::contains_nocase(s.c_str(), n.c_str()) == Cn && gul14::starts_with_nocase(s, n.c_str()) == Sn
                && gul14::ends_with_nocase(s.c_str(), n) == En && gul14::equals_nocase(s.c_str(), n) == Q && gul14::equals_nocase(s, n.c_str()) == Q, "cstring-overloads-nocase", "");
        c.eval(6);
    }
    c.count(std::string("contains_") + (C ? "yes" : Cn ? "nocase_only" : "no"));
    if (!n.empty() && (Cn || n.size() == 1)) c.distinct(hash_str(s + '\1' + n));
    c.sample(show(s) + " ? " + show(n) + " contains=" + (C ? "1" : "0") + " nocase=" + (Cn ? "1" : "0"));
}

static void check_char(Case& c, const std::string& s, char ch)
{
    c.desc(show(s) + " ? char " + std::to_string(int(ch)));
    Exact es(s, true, static_cast<unsigned>(c.idx));
    auto v = es.sv();
    std::string n(1, ch);
    const std::string sl = low(s), nl = low(n);
    CHECK(gul14::contains(v, ch) == has(s, n), "contains-char", "");
    CHECK(gul14::starts_with(v, ch) == at(s, 0, n), "starts_with-char", "");
    CHECK(gul14::ends_with(v, ch) == (!s.empty() && s.back() == ch), "ends_with-char", "");
    CHECK(gul14::contains_nocase(v, ch) == has(sl, nl), "contains_nocase-char", "");
    CHECK(gul14::starts_with_nocase(v, ch) == at(sl, 0, nl), "starts_with_nocase-char", "");
    CHECK(gul14::ends_with_nocase(v, ch) == (!sl.empty() && sl.back() == nl[0]), "ends_with_nocase-char", "");
    c.eval(6);
}

GROUP("all_byte_pairs", 256, 256)
{
    char a = static_cast<char>(c.idx);
    for (int k = 0; k < 256; ++k)
    {
        char b = static_cast<char>(k);
        check_char(c, std::string(1, a), b);
        if (c.idx % 4 == static_cast<unsigned>(k % 4)) check(c, std::string(1, a), std::string(1, b));
    }
    check_char(c, "", a);
    c.distinct(c.idx);
}

GROUP("exhaustive_small", 1, 1)
{
    std::vector<std::string> v{ "" };
    for (std::size_t b = 0, l = 0; l < 6; ++l)
        for (std::size_t e = v.size(); b < e; ++b) { v.push_back(v[b] + 'a'); v.push_back(v[b] + 'B'); }
    for (auto& s : v)
        for (auto& n : v)
            if (n.size() <= 4)
            {
                check(c, s, n);
                if (n.size() == 3) { std::string m = n; m[1] ^= 0x20; check(c, s, m); }
            }
}

GROUP("random", 60000, 1000000)
{
    std::string s = rand_string(c.rng);
    std::string n = related_string(c.rng, s);
    check(c, s, n);
    check_char(c, s, s.empty() || c.rng.chance(1, 4) ? static_cast<char>(c.rng.next() >> 9) : static_cast<char>(s[c.rng.below(s.size())] ^ (c.rng.chance(1, 2) ? 0x20 : 0)));
}
