// C27: ASCII case conversion
#include "gen.h"
#include <clocale>
#include <gul14/case_ascii.h>
using namespace vm;

static char lo(char ch) { unsigned char u = static_cast<unsigned char>(ch); return u >= 65 && u <= 90 ? static_cast<char>(u + 32) : ch; }
static char up(char ch) { unsigned char u = static_cast<unsigned char>(ch); return u >= 97 && u <= 122 ? static_cast<char>(u - 32) : ch; }

static void check(Case& c, const std::string& s)
{
    c.desc(show(s));
    std::string l = s, u = s;
    for (auto& ch : l) ch = lo(ch);
    for (auto& ch : u) ch = up(ch);
    Exact e(s, true, static_cast<unsigned>(c.idx));
    CHECK(gul14::lowercase_ascii(e.sv()) == l, "lowercase-differs", "");
    CHECK(gul14::uppercase_ascii(e.sv()) == u, "uppercase-differs", "");
    CHECK(str(e.sv()) == s, "input-modified", "");
    std::string a = s, b = s;
    CHECK(&gul14::lowercase_ascii_inplace(a) == &a && a == l, "lowercase_inplace-differs", show(a));
    CHECK(&gul14::uppercase_ascii_inplace(b) == &b && b == u, "uppercase_inplace-differs", show(b));
    c.eval(4);
    c.count("characters", s.size());
    if (l != s || u != s) c.distinct(hash_str(s));
    c.sample(show(s) + " -> " + show(l) + " / " + show(u));
}

GROUP("all_characters", 256, 256)
{
    char ch = static_cast<char>(c.idx);
    CHECK(gul14::lowercase_ascii(ch) == lo(ch), "char-lower", int(ch));
    CHECK(gul14::uppercase_ascii(ch) == up(ch), "char-upper", int(ch));
    c.eval(2);
    c.distinct(c.idx);
    // at each position of strings of all small lengths (vectorised code has special heads and tails)
    for (std::size_t n = 1; n <= 40; ++n)
        for (std::size_t p : { std::size_t(0), n / 2, n - 1 })
        {
            std::string s(n, 'm');
            s[p] = ch;
            check(c, s);
            s.assign(n, '[');
            s[p] = ch;
            check(c, s);
        }
}

GROUP("random", 20000, 400000) { check(c, rand_string(c.rng)); }

GROUP("long", 300, 4000) { check(c, rand_bytes(c.rng, c.rng.below(5000))); }

GROUP("locales", 40, 400)
{
    static const char* locs[] = { "C", "C.UTF-8", "POSIX", "en_US.ISO-8859-1", "de_DE", "tr_TR.UTF-8", "" };
    const char* l = locs[c.idx % 7];
    if (std::setlocale(LC_ALL, l)) c.count(std::string("locale:") + l);
    std::string s(256, '\0');
    for (int i = 0; i < 256; ++i) s[static_cast<std::size_t>(i)] = static_cast<char>(i);
    check(c, s);
    check(c, rand_bytes(c.rng, 100));
    std::setlocale(LC_ALL, "C");
}
