// C23: replace() / replace_inplace() against a reference
#include "gen.h"
#include <gul14/replace.h>
using namespace vm;

static std::string ref(const std::string& h, const std::string& n, const std::string& r, std::size_t& hits)
{
    hits = 0;
    if (n.empty()) return h;
    std::string out;
    for (std::size_t i = 0; i < h.size();)
    {
        bool m = h.size() - i >= n.size();
        for (std::size_t k = 0; m && k < n.size(); ++k) m = h[i + k] == n[k];
        if (m) { out += r; i += n.size(); ++hits; }
        else out += h[i++];
    }
    return out;
}

static void check(Case& c, const std::string& h, const std::string& n, std::string r)
{
    {
        std::size_t k = 0; // keep the result below 4 MB
        if (h.size() * r.size() > 4000000 && !n.empty()) for (std::size_t p = h.find(n); p != std::string::npos; p = h.find(n, p + n.size())) ++k;
        if (k && k * r.size() > 4000000) r.resize(4000000 / k);
    }
    c.desc("replace(" + show(h) + ", " + show(n) + ", " + show(r) + ")");
    std::size_t hits = 0;
    const std::string want = ref(h, n, r, hits);
    Exact eh(h, true, static_cast<unsigned>(c.idx)), en(n, true, static_cast<unsigned>(c.idx / 2)), er(r, true, static_cast<unsigned>(c.idx / 4));
    const std::string got = gul14::replace(eh.sv(), en.sv(), er.sv());
    CHECK(got == want, "replace-differs", "got " << show(got) << " expected " << show(want));
    CHECK(str(eh.sv()) == h && str(en.sv()) == n && str(er.sv()) == r, "input-modified", "");
    std::string in = h;
    if (c.idx % 3 == 0) in.reserve(h.size() * 3 + 100);
    std::string& ret = gul14::replace_inplace(in, en.sv(), er.sv());
    CHECK(&ret == &in, "inplace-return", "does not return a reference to its argument");
    CHECK(in == want, "inplace-differs", "got " << show(in) << " expected " << show(want));
    c.eval(2);
    c.count("replacements", hits);
    if (hits)
    {
        c.distinct(hash_str(h + '\1' + n + '\2' + r));
        c.count(r.size() > n.size() ? "growing" : r.size() < n.size() ? "shrinking" : "same_length");
        if (r.find(n) != std::string::npos) c.count("replacement_contains_needle");
        c.sample(show(h) + ", " + show(n) + ", " + show(r) + " -> " + show(want));
    }
}

// All haystacks over {a,b} up to length L, all needles up to 3, some replacements
GROUP("exhaustive_small", 1, 1)
{
    auto all = [](int maxlen) {
        std::vector<std::string> v{ "" };
        for (std::size_t b = 0, l = 0; l < static_cast<std::size_t>(maxlen); ++l)
        {
            std::size_t e = v.size();
            for (; b < e; ++b) { v.push_back(v[b] + 'a'); v.push_back(v[b] + 'b'); }
        }
        return v;
    };
    auto hs = all(c.thorough() ? 9 : 7);
    auto ns = all(3);
    const std::vector<std::string> rs{ "", "a", "b", "ab", "aa", "ba", "abab", "xyz" };
    for (auto& h : hs)
        for (auto& n : ns)
            for (auto& r : rs) check(c, h, n, r);
}

GROUP("random", 60000, 1000000)
{
    std::string h = rand_string(c.rng), n = related_string(c.rng, h);
    if (c.rng.chance(1, 2) && n.size() > 3) n.resize(1 + c.rng.below(3));
    std::string r = c.rng.chance(1, 3) ? rand_string(c.rng) : related_string(c.rng, c.rng.chance(1, 2) ? n : h);
    check(c, h, n, r);
}

GROUP("large", 60, 2000)
{
    std::string h = rand_from(c.rng, c.rng.chance(1, 2) ? "ab" : "abcdefghijklmnop", 2000 + c.rng.below(20000));
    std::string n = rand_from(c.rng, "ab", 1 + c.rng.below(4));
    std::string r = rand_from(c.rng, "abc", c.rng.below(10));
    check(c, h, n, r);
}

// Needle and replacement may be parts of the string that is modified
GROUP("own_parts", 20000, 400000)
{
    Rng& r = c.rng;
    std::string h = r.chance(1, 2) ? rand_from(r, "abc", 1 + r.below(40)) : rand_string(r);
    if (h.size() > 300) h.resize(300); // the result can have the square of the length
    const unsigned mode = static_cast<unsigned>(r.below(3)); // which of the two is a part
    std::size_t p = r.below(h.size() + 1), n = r.below(std::min<std::size_t>(h.size() - p, 4) + 1), q = r.below(h.size() + 1), m = r.below(h.size() - q + 1);
    std::string needle = mode == 1 ? related_string(r, h) : h.substr(p, n), hammer = mode == 0 ? rand_string(r).substr(0, 300) : h.substr(q, m);
    c.desc("replace_inplace(" + show(h) + ", " + (mode == 1 ? "" : "own part ") + show(needle) + ", " + (mode == 0 ? "" : "own part ") + show(hammer) + ")");
    std::size_t hits = 0;
    const std::string want = ref(h, needle, hammer, hits);
    std::string in = h;
    if (r.chance(1, 2)) in.shrink_to_fit(); else in.reserve(1000);
    gul14::string_view nv = mode == 1 ? gul14::string_view(needle) : gul14::string_view(in.data() + p, n), hv = mode == 0 ? gul14::string_view(hammer) : gul14::string_view(in.data() + q, m);
    std::string copy = gul14::replace(in, nv, hv);
    CHECK(copy == want, "own-part-replace", "got " << show(copy) << " expected " << show(want));
    std::string& ret = gul14::replace_inplace(in, nv, hv);
    CHECK(&ret == &in && in == want, "own-part-inplace", "got " << show(in) << " expected " << show(want));
    c.eval(2);
    if (hits) { c.count("replacements with own parts", hits); c.distinct(hash_str(h + '\1' + needle + '\2' + hammer)); }
}
