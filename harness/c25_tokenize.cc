// C25: tokenize() / tokenize_sv() against a reference
#include "gen.h"
#include <deque>
#include <list>
#include <queue>
#include <set>
#include <gul14/SmallVector.h>
#include <gul14/tokenize.h>
using namespace vm;

struct Tok { std::size_t pos; std::string text; };

static std::vector<Tok> ref(const std::string& s, const std::string& delims)
{
    bool is[256] = {};
    for (unsigned char ch : delims) is[ch] = true;
    std::vector<Tok> v;
    for (std::size_t i = 0; i < s.size();)
    {
        if (is[static_cast<unsigned char>(s[i])]) { ++i; continue; }
        std::size_t e = i;
        while (e < s.size() && !is[static_cast<unsigned char>(s[e])]) ++e;
        v.push_back({ i, s.substr(i, e - i) });
        i = e;
    }
    return v;
}

template <typename C>
static std::vector<std::string> flat(const C& cont)
{
    std::vector<std::string> v;
    for (auto& x : cont) v.push_back(std::string(x.data(), x.size()));
    return v;
}

static const std::string ws = " \t\r\n\a\b\f\v";

static void check(Case& c, const std::string& s, const std::string& d, bool dflt)
{
    c.desc("tokenize(" + show(s) + ", " + (dflt ? std::string("default") : show(d)) + ")");
    auto want = ref(s, dflt ? ws : d);
    std::vector<std::string> w;
    for (auto& t : want) w.push_back(t.text);
    Exact es(s, true, static_cast<unsigned>(c.idx)), ed(d, true, static_cast<unsigned>(c.idx / 2));
    auto sv = es.sv();
    auto dv = ed.sv();

    auto a = dflt ? gul14::tokenize(sv) : gul14::tokenize(sv, dv);
    CHECK(a == w, "tokenize-differs", "got " << a.size() << " tokens, expected " << w.size());
    auto b = dflt ? gul14::tokenize_sv(sv) : gul14::tokenize_sv(sv, dv);
    CHECK(flat(b) == w, "tokenize_sv-differs", "got " << b.size() << " tokens, expected " << w.size());
    for (std::size_t i = 0; i < b.size(); ++i)
        CHECK(b[i].data() == es.data() + want[i].pos, "sv-position", "token " << i << " does not point to its place in the text");
    c.eval(2);
    if (c.idx % 4 == 0)
    {
        if (!dflt)
        {
            auto l = gul14::tokenize<std::list<std::string>>(sv, dv);
            CHECK(flat(l) == w, "list-differs", "");
            auto q = gul14::tokenize<std::deque<gul14::string_view>>(sv, dv);
            CHECK(flat(q) == w, "deque-differs", "");
            auto smv = gul14::tokenize_sv<gul14::SmallVector<std::string, 3>>(sv, dv);
            CHECK(flat(smv) == w, "smallvector-differs", "");
            auto st = gul14::tokenize<std::multiset<std::string>>(sv, dv);
            CHECK(flat(st) == flat(std::multiset<std::string>(w.begin(), w.end())), "multiset-differs", "");
            std::vector<std::string> seen;
            using Q = std::queue<std::string>;
            auto ins = [&seen](Q& qq, gul14::string_view v) { seen.push_back(str(v)); qq.emplace(str(v)); };
            auto qq = gul14::tokenize<Q>(sv, dv, ins);
            CHECK(seen == w && qq.size() == w.size(), "inserter-differs", "");
            auto qs = gul14::tokenize_sv<Q>(sv, dv, ins);
            CHECK(qs.size() == w.size() && seen.size() == 2 * w.size(), "inserter-sv-differs", "");
            c.eval(6);
        }
        else
        {
            auto l = gul14::tokenize<std::list<std::string>>(sv);
            CHECK(flat(l) == w, "list-differs", "");
            auto q = gul14::tokenize_sv<std::deque<std::string>>(sv);
            CHECK(flat(q) == w, "deque-differs", "");
            c.eval(2);
        }
    }
    c.count("tokens", w.size());
    if (w.size() > 1 || (w.size() == 1 && w[0] != s)) c.distinct(hash_str(s + '\1' + d));
    c.sample(show(s) + " by " + (dflt ? std::string("default") : show(d)) + " -> " + std::to_string(w.size()) + " tokens");
}

GROUP("all_delimiter_bytes", 256, 256)
{
    // each byte as the only delimiter and as default whitespace or not
    std::string d(1, static_cast<char>(c.idx));
    std::string s = "ab" + d + "cd" + d + d + "e" + d;
    check(c, s, d, false);
    check(c, d + s, d, false);
    check(c, s, "", true);
    check(c, s, "", false);
    check(c, d, d, false);
    check(c, d + d, "", true);
}

GROUP("random", 50000, 1000000)
{
    std::string s = rand_string(c.rng);
    std::string d;
    switch (c.rng.below(4))
    {
    case 0: d = related_string(c.rng, s); break;
    case 1: d = rand_from(c.rng, ws, 1 + c.rng.below(4)); break;
    case 2: d = rand_string(c.rng); break;
    default: if (!s.empty()) d = std::string(1, s[c.rng.below(s.size())]);
    }
    check(c, s, d, c.rng.chance(1, 4));
}

GROUP("long_texts", 200, 4000)
{
    std::string s;
    std::size_t n = 200 + c.rng.below(2000);
    for (std::size_t i = 0; i < n; ++i) s += rand_from(c.rng, "xyz", c.rng.below(6)) + rand_from(c.rng, " ,\n", c.rng.below(3));
    check(c, s, " ,", c.rng.chance(1, 2));
}
// Numbers of tokens and lengths beyond 8- and 16-bit counters
GROUP("large", 16, 120)
{
    Rng& r = c.rng;
    const std::size_t counts[] = { 255, 256, 257, 65535, 65536, 65537, 70001, 140000 };
    std::size_t n = counts[c.idx % 8] + r.below(3);
    std::string text;
    const std::size_t gap_at = r.below(n), long_at = r.below(n);
    for (std::size_t k = 0; k != n; ++k)
    {
        if (k || r.chance(1, 2)) text += std::string(k == gap_at ? 65530 + r.below(12) : 1 + r.below(2), ' ');
        text += std::string(k == long_at ? 65530 + r.below(12) : 1 + r.below(3), static_cast<char>('a' + r.below(26)));
    }
    check(c, text, " ", c.idx % 2 == 0);
    c.count("tokens in large texts", n);
}
