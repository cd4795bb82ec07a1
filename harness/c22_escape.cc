// C22: escape()/unescape() against an independent reference and as inverse functions
#include "gen.h"
#include <gul14/escape.h>
using namespace vm;

static std::string ref_escape(const std::string& in)
{
    std::string r;
    const char* hex = "0123456789abcdef";
    for (unsigned char ch : in)
    {
        switch (ch)
        {
        case '\r': r += "\\r"; break;
        case '\n': r += "\\n"; break;
        case '\t': r += "\\t"; break;
        case '\\': r += "\\\\"; break;
        case '"': r += "\\\""; break;
        default:
            if (ch < 32 || ch > 126) { r += "\\x"; r += hex[ch >> 4]; r += hex[ch & 15]; }
            else r += static_cast<char>(ch);
        }
    }
    return r;
}

static int hexval(char ch)
{
    if (ch >= '0' && ch <= '9') return ch - '0';
    if (ch >= 'a' && ch <= 'f') return ch - 'a' + 10;
    if (ch >= 'A' && ch <= 'F') return ch - 'A' + 10;
    return -1;
}

// Sequences that are not produced by escape() are left as they are
static std::string ref_unescape(const std::string& in, bool& unspecified)
{
    std::string r;
    unspecified = false;
    for (std::size_t i = 0; i < in.size();)
    {
        if (in[i] != '\\') { r += in[i++]; continue; }
        if (i + 1 >= in.size()) { r += '\\'; ++i; continue; }
        char k = in[i + 1];
        switch (k)
        {
        case 'r': r += '\r'; i += 2; break;
        case 'n': r += '\n'; i += 2; break;
        case 't': r += '\t'; i += 2; break;
        case '\\': r += '\\'; i += 2; break;
        case '"': r += '"'; i += 2; break;
        case 'x':
            if (i + 3 < in.size() && hexval(in[i + 2]) >= 0 && hexval(in[i + 3]) >= 0)
            {
                if ((in[i + 2] >= 'A' && in[i + 2] <= 'F') || (in[i + 3] >= 'A' && in[i + 3] <= 'F'))
                    unspecified = true; // uppercase digits: escape() never produces them
                r += static_cast<char>(hexval(in[i + 2]) * 16 + hexval(in[i + 3]));
                i += 4;
                break;
            }
            r += '\\'; ++i;
            break;
        default: r += '\\'; ++i;
        }
    }
    return r;
}

static void roundtrip(Case& c, const std::string& s)
{
    c.desc("escape " + show(s));
    Exact e(s, true, static_cast<unsigned>(c.idx));
    std::string esc = gul14::escape(e.sv());
    c.eval();
    for (unsigned char ch : esc)
        CHECK(ch >= 32 && ch <= 126, "not-printable", "escape() produced byte " << int(ch) << " in " << show(esc));
    CHECK(esc == ref_escape(s), "escape-differs", "got " << show(esc) << " expected " << show(ref_escape(s)));
    Exact e2(esc, true, static_cast<unsigned>(c.idx + 1));
    std::string back = gul14::unescape(e2.sv());
    CHECK(back == s, "no-roundtrip", "unescape(escape(x)) is " << show(back));
    if (esc != s) c.distinct(hash_str(s));
    c.count("bytes_escaped", s.size());
    if (c.want_sample() && esc != s) c.sample(show(s) + " -> " + show(esc));
}

GROUP("single_bytes", 256, 256)
{
    char ch = static_cast<char>(c.idx);
    for (const char* ctx : { "", "a", "\\", "0", "f", "x" })
    {
        roundtrip(c, std::string(ctx) + ch);
        roundtrip(c, ch + std::string(ctx));
        roundtrip(c, std::string(ctx) + ch + ctx);
    }
}

GROUP("byte_pairs", 4096, 65536)
{
    std::uint64_t k = c.thorough() ? c.idx : (mix(c.idx * 2654435761u + G().opt.seed) & 0xffff);
    std::string s{ static_cast<char>(k >> 8), static_cast<char>(k) };
    roundtrip(c, s);
}

GROUP("random_strings", 60000, 1200000) { roundtrip(c, rand_string(c.rng)); }

GROUP("unescape_arbitrary", 60000, 1200000)
{
    std::string s;
    std::size_t n = c.rng.below(14);
    static const std::string al = lit("\\\\\\\\xxrnt\"0139afAFgG\0 \x80");
    if (c.rng.chance(3, 4)) s = rand_from(c.rng, al, n);
    else s = rand_string(c.rng);
    if (c.rng.chance(1, 8)) s += "\\";
    if (c.rng.chance(1, 8)) s += "\\x";
    if (c.rng.chance(1, 8)) s += "\\x4";
    c.desc("unescape " + show(s));
    Exact e(s, true, static_cast<unsigned>(c.idx));
    std::string got = gul14::unescape(e.sv());
    bool unspec = false;
    std::string want = ref_unescape(s, unspec);
    c.eval();
    if (!unspec)
        CHECK(got == want, "unescape-differs", "got " << show(got) << " expected " << show(want));
    CHECK(got.size() <= s.size(), "unescape-longer", show(got));
    if (want != s) c.distinct(hash_str(s));
    c.sample(show(s) + " -> " + show(got));
}
