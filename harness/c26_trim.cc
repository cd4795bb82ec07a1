// C26: the trim family against a reference
#include "gen.h"
#include <gul14/trim.h>
using namespace vm;

static const std::string ws = " \t\r\n\a\b\f\v";

static void check(Case& c, const std::string& s, const std::string& set, bool dflt)
{
    c.desc("trim(" + show(s) + ", " + (dflt ? std::string("default") : show(set)) + ")");
    bool is[256] = {};
    for (unsigned char ch : (dflt ? ws : set)) is[ch] = true;
    std::size_t b = 0, e = s.size();
    while (b < s.size() && is[static_cast<unsigned char>(s[b])]) ++b;
    while (e > 0 && is[static_cast<unsigned char>(s[e - 1])]) --e;
    const std::string left = s.substr(b), right = s.substr(0, e), both = b < e ? s.substr(b, e - b) : std::string();
    Exact es(s, true, static_cast<unsigned>(c.idx)), ew(set, true, static_cast<unsigned>(c.idx / 2));
    auto v = es.sv();
    auto w = ew.sv();
    using gul14::string_view;
    auto sv = [&](string_view r, const std::string& want, std::size_t pos, const char* what) {
        CHECK(str(r) == want, std::string(what) + "-differs", "got " << show(str(r)) << " expected " << show(want));
        if (!want.empty())
            CHECK(r.data() == es.data() + pos, std::string(what) + "-position", "view does not point to the right place of the input");
        c.eval();
    };
    auto st = [&](const std::string& r, const std::string& want, const char* what) {
        CHECK(r == want, std::string(what) + "-differs", "got " << show(r) << " expected " << show(want));
        c.eval();
    };
    if (dflt)
    {
        st(gul14::trim(v), both, "trim");
        st(gul14::trim_left(v), left, "trim_left");
        st(gul14::trim_right(v), right, "trim_right");
        sv(gul14::trim_sv(v), both, b, "trim_sv");
        sv(gul14::trim_left_sv(v), left, b, "trim_left_sv");
        sv(gul14::trim_right_sv(v), right, 0, "trim_right_sv");
    }
    else
    {
        st(gul14::trim(v, w), both, "trim");
        st(gul14::trim_left(v, w), left, "trim_left");
        st(gul14::trim_right(v, w), right, "trim_right");
        sv(gul14::trim_sv(v, w), both, b, "trim_sv");
        sv(gul14::trim_left_sv(v, w), left, b, "trim_left_sv");
        sv(gul14::trim_right_sv(v, w), right, 0, "trim_right_sv");
    }
    if (both != s) { c.distinct(hash_str(s + '\1' + (dflt ? std::string("D") : set))); c.count("something_trimmed"); }
    if (both.empty() && !s.empty()) c.count("everything_trimmed");
    if (both != s) c.sample(show(s) + " by " + (dflt ? std::string("default") : show(set)) + " -> " + show(both));
}

GROUP("all_bytes", 256, 256)
{
    std::string d(1, static_cast<char>(c.idx));
    for (const std::string& s : { d, d + d, d + "a", "a" + d, d + "a" + d, d + d + "a" + d + "b" + d, " " + d + " ", d + " " + d, std::string() })
    {
        check(c, s, "", true);
        check(c, s, d, false);
        check(c, s, d + "a", false);
        check(c, s, "", false);
        check(c, s, "b" + d, false);
    }
}

GROUP("random", 60000, 1000000)
{
    std::string s = rand_string(c.rng);
    if (c.rng.chance(1, 2)) s = rand_from(c.rng, ws, c.rng.below(5)) + s + rand_from(c.rng, ws, c.rng.below(5));
    std::string set = c.rng.chance(1, 2) ? related_string(c.rng, s) : rand_string(c.rng);
    if (!s.empty() && c.rng.chance(1, 3)) { set = std::string(1, s[0]); if (c.rng.chance(1, 2)) set += s.back(); }
    check(c, s, set, c.rng.chance(1, 3));
}
