// C24: split()/split_sv()/join() against a direct search
#include "gen.h"
#include <deque>
#include <forward_list>
#include <list>
#include <queue>
#include <regex>
#include <set>
#include <gul14/join_split.h>
#include <gul14/SmallVector.h>
using namespace vm;

static std::vector<std::string> ref_split(const std::string& t, const std::string& d)
{
    std::vector<std::string> r;
    std::size_t p = 0;
    for (;;)
    {
        std::size_t h = std::string::npos;
        for (std::size_t i = p; i + d.size() <= t.size(); ++i)
            if (std::memcmp(t.data() + i, d.data(), d.size()) == 0) { h = i; break; }
        if (h == std::string::npos) break;
        r.push_back(t.substr(p, h - p));
        p = h + d.size();
    }
    r.push_back(t.substr(p));
    return r;
}

static std::string ref_join(const std::vector<std::string>& v, const std::string& g)
{
    std::string r;
    for (std::size_t i = 0; i != v.size(); ++i) { if (i) r += g; r += v[i]; }
    return r;
}

template <typename C>
static std::vector<std::string> strs(const C& c)
{
    std::vector<std::string> r;
    for (const auto& s : c) r.push_back(std::string(s.data() ? s.data() : "", s.size()));
    return r;
}

static std::string showv(const std::vector<std::string>& v)
{
    std::string r = "[";
    for (auto& s : v) r += show(s) + ",";
    return r + "]";
}

static void check_split(Case& c, const std::string& t, const std::string& d)
{
    c.desc("split " + show(t) + " at " + show(d));
    Exact et(t, true, static_cast<unsigned>(c.idx)), ed(d, true, static_cast<unsigned>(c.idx + 1));
    auto a = gul14::split(et.sv(), ed.sv());
    auto b = gul14::split_sv(et.sv(), ed.sv());
    std::vector<std::string> got = a;
    if (!d.empty())
    {
        auto want = ref_split(t, d);
        CHECK(got == want, "split", showv(got) << " expected " << showv(want));
        for (auto& s : got) CHECK(s.find(d) == std::string::npos, "delimiter-in-piece", showv(got));
        if (want.size() > 1) c.distinct(hash_str(t, hash_str(d)));
    }
    CHECK(!got.empty(), "no-piece", "");
    CHECK(strs(b) == got, "split_sv", showv(strs(b)) << " split() " << showv(got));
    // views point into the text, at the right place
    std::size_t pos = 0;
    for (auto& v : b)
    {
        CHECK(v.empty() || (v.data() == et.data() + pos), "view-position", "at " << pos);
        pos += v.size() + d.size();
    }
    // inverse
    std::string back = gul14::join(a, ed.sv());
    CHECK(back == t, "not-inverse", show(back));
    CHECK(gul14::join(b, ed.sv()) == t, "not-inverse-sv", "");
    // other containers, inserters
    CHECK(strs(gul14::split<std::list<std::string>>(et.sv(), ed.sv())) == got, "list", "");
    CHECK(strs(gul14::split<std::deque<gul14::string_view>>(et.sv(), ed.sv())) == got, "deque-sv", "");
    auto small = gul14::split<gul14::SmallVector<std::string, 3>>(et.sv(), ed.sv());
    CHECK(strs(small) == got, "SmallVector", "");
    CHECK(gul14::join(small, ed.sv()) == t, "not-inverse-small", "");
    auto small_sv = gul14::split_sv<gul14::SmallVector<gul14::string_view, 2>>(et.sv(), ed.sv());
    CHECK(strs(small_sv) == got, "SmallVector-sv", "");
    CHECK(gul14::join(small_sv.begin(), small_sv.end(), ed.sv()) == t, "not-inverse-small-sv", "");
    auto q = gul14::split<std::queue<std::string>>(et.sv(), ed.sv(),
        [](std::queue<std::string>& qq, gul14::string_view sv) { qq.emplace(std::string(sv)); });
    std::vector<std::string> qs;
    for (; !q.empty(); q.pop()) qs.push_back(q.front());
    CHECK(qs == got, "queue", "");
    auto ms = gul14::split<std::multiset<std::string>>(et.sv(), ed.sv(), [](std::multiset<std::string>& s, gul14::string_view sv) { s.insert(std::string(sv)); });
    CHECK(ms == std::multiset<std::string>(got.begin(), got.end()), "multiset", "");
    auto ms2 = gul14::split<std::multiset<gul14::string_view>>(et.sv(), ed.sv()); // emplace() instead of emplace_back()
    CHECK(ms2.size() == got.size(), "multiset-emplace", ms2.size());
    c.eval(12);
    c.count("pieces", got.size());
    if (got.size() > 2) c.sample(show(t) + " at " + show(d) + " -> " + showv(got));
}

GROUP("random", 25000, 500000)
{
    Rng& r = c.rng;
    std::string t = rand_string(r);
    std::string d = related_string(r, t);
    if (r.chance(1, 2)) d = d.substr(0, 1 + r.below(3));
    check_split(c, t, d);
}

GROUP("constructed", 25000, 500000) // many delimiters, also at the ends and adjacent
{
    Rng& r = c.rng;
    static const std::vector<std::string> ds{ ",", "ab", "aa", "aba", "<>", "--", lit("\0"), lit("a\0b"), "\xff\x80", "aab", "abab", "" };
    std::string d = r.pick(ds);
    std::string t;
    std::size_t n = r.below(12);
    for (std::size_t i = 0; i != n; ++i)
    {
        switch (r.below(5))
        {
        case 0: case 1: t += d; break;
        case 2: t += d.substr(0, r.below(d.size() + 1)); break;
        case 3: t += rand_from(r, "ab", r.below(4)); break;
        default: t += rand_bytes(r, r.below(3));
        }
    }
    check_split(c, t, d);
}

GROUP("exhaustive_small", 255, 2047)
{
    std::size_t k = c.idx + 1;
    int bits = 0;
    while ((k >> (bits + 1)) != 0) ++bits;
    std::string t;
    for (int i = bits - 1; i >= 0; --i) t += (k >> i) & 1 ? 'b' : 'a';
    for (const char* d : { "", "a", "b", "aa", "ab", "ba", "bb", "aba", "aaa", "bab", "aab", "abab", "aaaa" }) check_split(c, t, d);
}

GROUP("join", 25000, 500000)
{
    Rng& r = c.rng;
    std::vector<std::string> v(r.below(r.chance(1, 6) ? 30 : 6));
    for (auto& s : v) s = r.chance(1, 4) ? "" : rand_string(r);
    std::string g = r.chance(1, 3) ? "" : rand_string(r);
    c.desc(showv(v) + " glue " + show(g));
    Exact eg(g, true, static_cast<unsigned>(c.idx));
    std::string want = ref_join(v, g);
    CHECK(gul14::join(v, eg.sv()) == want, "vector", "");
    std::list<std::string> l(v.begin(), v.end());
    CHECK(gul14::join(l, eg.sv()) == want, "list", "");
    std::forward_list<std::string> f(v.begin(), v.end());
    CHECK(gul14::join(f, eg.sv()) == want, "forward_list", "");
    CHECK(gul14::join(v.begin(), v.end(), eg.sv()) == want, "iterators", "");
    std::vector<std::unique_ptr<Exact>> keep;
    std::deque<gul14::string_view> sv;
    for (auto& s : v) { keep.emplace_back(new Exact(s, true, static_cast<unsigned>(r.below(2)))); sv.push_back(keep.back()->sv()); }
    CHECK(gul14::join(sv, eg.sv()) == want, "views", "");
    CHECK(gul14::join(sv.begin(), sv.end(), eg.sv()) == want, "views-iterators", "");
    std::vector<std::string> rv(v.rbegin(), v.rend());
    CHECK(gul14::join(v.rbegin(), v.rend(), eg.sv()) == ref_join(rv, g), "reverse-iterators", "");
    c.eval(7);
    if (v.size() > 1) c.distinct(hash_str(want, hash_str(g)));
}

// Expressions with anchors, look-ahead, back-references and flags: the matches are those of std::sregex_iterator
GROUP("regex_context", 6000, 100000)
{
    Rng& r = c.rng;
    static const std::vector<std::string> res{ "^a", "b$", "\\bab", "a\\b", "(a)\\1", "a(?=b)", "a(?!b)", "(a|ab)(b|ab)", "[^a]", "a+?", "\\W", "(,)|(x)", "a.", "^", "x*", "\\b", "(?=b)", "" };
    const std::size_t first_empty = 13; // these can match the empty string
    static std::vector<std::regex>* compiled = [] { auto* v = new std::vector<std::regex>; for (auto& s : res) { v->emplace_back(s); v->emplace_back(s, std::regex::icase | std::regex::ECMAScript); } return v; }();
    std::size_t k = r.below(2 * res.size());
    const std::regex& re = (*compiled)[k];
    std::string t = rand_from(r, r.chance(1, 2) ? "abAB,x \n" : "ab", r.below(14));
    c.desc("split " + show(t) + " at regex " + res[k / 2]);
    Exact et(t, false, 1);
    auto gv = gul14::split<std::vector<gul14::string_view>>(et.sv(), re);
    auto got = gul14::split(et.sv(), re);
    CHECK(strs(gv) == got && !got.empty(), "regex-context-sv", showv(strs(gv)) << " and " << showv(got));
    const char* last = et.data();
    for (auto& v : gv) { CHECK(et.contains(v.data(), v.size()) && v.data() >= last, "regex-context-view", "the pieces are not in order"); last = v.data() + v.size(); }
    c.eval(2);
    if (k / 2 < first_empty)
    {
        std::vector<std::string> want;
        std::size_t p = 0;
        for (std::sregex_iterator it(t.begin(), t.end(), re), e; it != e; ++it) { auto at = static_cast<std::size_t>(it->position(0)); want.push_back(t.substr(p, at - p)); p = at + static_cast<std::size_t>(it->length(0)); }
        want.push_back(t.substr(p));
        CHECK(got == want, "regex-context", showv(got) << " expected " << showv(want));
        if (want.size() > 1) c.distinct(hash_str(t, k));
        if (want.size() > 2) c.sample(show(t) + " at regex " + res[k / 2] + " -> " + showv(want));
    }
    else { CHECK(last == et.data() + t.size(), "regex-empty-rest", "the rest of the text is missing"); c.count("expressions matching the empty string"); }
}

GROUP("regex", 8000, 120000)
{
    Rng& r = c.rng;
    static const std::vector<std::string> res{ ",", "[ab]", "a+", "[^[:print:]]", "a|bb", "(a)(b)?", "\\s+", "x", "ab", "a{2}" };
    static std::vector<std::regex>* compiled = [] { auto* v = new std::vector<std::regex>; for (auto& s : res) v->emplace_back(s); return v; }();
    std::size_t k = r.below(res.size());
    std::string t = rand_from(r, r.chance(1, 2) ? "ab,x \n" : "ab", r.below(14));
    const std::regex& re = (*compiled)[k];
    c.desc("split " + show(t) + " at regex " + res[k]);
    Exact et(t, false, 1);
    std::vector<std::string> want;
    std::size_t p = 0;
    while (p <= t.size())
    {
        std::smatch m;
        std::string rest = t.substr(p);
        auto fl = p ? std::regex_constants::match_prev_avail : std::regex_constants::match_default;
        (void)fl;
        if (!std::regex_search(rest, m, re)) break;
        want.push_back(rest.substr(0, static_cast<std::size_t>(m.position(0))));
        p += static_cast<std::size_t>(m.position(0) + m.length(0)); // none of the expressions matches the empty string
    }
    want.push_back(t.substr(std::min(p, t.size())));
    auto got = gul14::split(et.sv(), re);
    CHECK(got == want, "regex", showv(got) << " expected " << showv(want));
    auto gv = gul14::split<std::vector<gul14::string_view>>(et.sv(), re);
    CHECK(strs(gv) == want, "regex-sv", "");
    for (auto& v : gv) CHECK(v.empty() || et.contains(v.data(), v.size()), "regex-view", "");
    auto gq = gul14::split<std::queue<std::string>>(et.sv(), re, [](std::queue<std::string>& q, gul14::string_view sv) { q.emplace(std::string(sv)); });
    CHECK(gq.size() == want.size(), "regex-queue", gq.size());
    c.eval(3);
    if (want.size() > 1) c.distinct(hash_str(t, k));
    if (want.size() > 2) c.sample(show(t) + " at regex " + res[k] + " -> " + showv(want));
}
// Numbers of pieces and lengths beyond 8- and 16-bit counters
GROUP("large", 16, 120)
{
    Rng& r = c.rng;
    const std::size_t counts[] = { 255, 256, 257, 65535, 65536, 65537, 70001, 140000 };
    std::size_t n = counts[c.idx % 8] + r.below(3);
    std::string d(1 + r.below(3), '/');
    d.back() = ';';
    std::vector<std::string> pieces(n);
    for (auto& p : pieces) { std::size_t l = r.below(4); for (std::size_t i = 0; i != l; ++i) p += static_cast<char>('a' + r.below(26)); }
    if (r.chance(1, 2)) pieces[r.below(n)] = std::string(65530 + r.below(20), 'z');
    std::string text;
    for (std::size_t i = 0; i != n; ++i) { if (i) text += d; text += pieces[i]; }
    c.desc(std::to_string(n) + " pieces, " + std::to_string(text.size()) + " characters, delimiter " + show(d));
    Exact et(text, true, static_cast<unsigned>(c.idx)), ed(d, true, static_cast<unsigned>(c.idx));
    auto same = [&](const auto& got, const char* what) { CHECK(got.size() == n && strs(got) == pieces, what, got.size() << " pieces"); c.eval(); };
    same(gul14::split(et.sv(), ed.sv()), "large-split");
    same(gul14::split_sv(et.sv(), ed.sv()), "large-split_sv");
    same(gul14::split<gul14::SmallVector<std::string, 5>>(et.sv(), ed.sv()), "large-split-SmallVector");
    same(gul14::split<std::list<gul14::string_view>>(et.sv(), ed.sv()), "large-split-list");
    if (c.idx % 4 == 0) same(gul14::split(et.sv(), std::regex(d)), "large-split-regex");
    CHECK(gul14::join(pieces, ed.sv()) == text, "large-join", "");
    CHECK(gul14::join(pieces.begin(), pieces.end(), ed.sv()) == text, "large-join-iterators", "");
    std::list<gul14::string_view> views;
    for (auto& p : pieces) views.emplace_back(p);
    CHECK(gul14::join(views, ed.sv()) == text, "large-join-views", "");
    c.eval(3);
    c.distinct(hash_str(text));
}
