// C17: gul14::basic_string_view against std::basic_string, which is specified identically
#include "gen.h"
#include <algorithm>
#include <iomanip>
#include <sstream>
#include <gul14/string_view.h>
using namespace vm;

template <typename C> using S = std::basic_string<C>;
template <typename C> using V = gul14::basic_string_view<C>;

static const std::size_t npos = static_cast<std::size_t>(-1);

template <typename C>
struct Buf // exactly sized, not null-terminated
{
    C* p;
    std::size_t n;
    explicit Buf(const S<C>& s, bool null_if_empty) : p(nullptr), n(s.size())
    {
        if (n == 0 && null_if_empty) return;
        p = new C[n];
        std::copy(s.begin(), s.end(), p);
    }
    Buf(const Buf&) = delete;
    ~Buf() { delete[] p; }
    V<C> v() const { return V<C>(p, n); }
};

template <typename C>
struct ZBuf // exactly sized, null-terminated
{
    C* p;
    explicit ZBuf(const S<C>& s) : p(new C[s.size() + 1])
    {
        std::copy(s.begin(), s.end(), p);
        p[s.size()] = C();
    }
    ZBuf(const ZBuf&) = delete;
    ~ZBuf() { delete[] p; }
};

template <typename C>
S<C> to_str(V<C> v) { return v.data() ? S<C>(v.data(), v.size()) : S<C>(); }

template <typename C>
std::string sh(const S<C>& s)
{
    std::ostringstream o;
    o << "{" << std::hex;
    for (auto ch : s) o << static_cast<unsigned long>(ch) << ' ';
    o << "}";
    return o.str();
}
static std::string sh(const S<char>& s) { return show(s); }

template <typename C>
S<C> rstr(Rng& r, std::size_t n)
{
    static const C specials[] = { C('a'), C('b'), C('\0'), static_cast<C>(-1), static_cast<C>(0x80), static_cast<C>(0x7f), static_cast<C>(0xff) };
    static const C wide[] = { static_cast<C>(0x161), static_cast<C>(0x61), static_cast<C>(0x10061), static_cast<C>(0x100), static_cast<C>(0x8061), C(0) };
    S<C> s(n, C());
    unsigned mode = static_cast<unsigned>(r.below(5));
    for (auto& ch : s)
        ch = mode <= 1 ? C('a' + r.below(2)) : mode == 2 ? specials[r.below(7)] : mode == 3 ? wide[r.below(6)]
            : static_cast<C>(r.next());
    return s;
}

static std::size_t rpos(Rng& r, std::size_t n)
{
    switch (r.below(12))
    {
    case 0: return npos;
    case 1: return npos - r.below(n + 3);
    case 2: return n;
    case 3: return n + 1;
    case 4: return n + r.below(5);
    case 5: return npos / 2 + r.below(4);
    case 6: return 0;
    case 7: return n ? n - 1 : 0;
    default: return r.below(n + 2);
    }
}

template <typename F>
static bool throws_oor(F f)
{
    try { f(); } catch (const std::out_of_range&) { return true; }
    return false;
}

static int sgn(int x) { return (x > 0) - (x < 0); }

template <typename C>
S<C> needle(Rng& r, const S<C>& s)
{
    if (s.empty() || r.chance(1, 4)) return rstr<C>(r, r.below(4));
    std::size_t a = r.below(s.size());
    S<C> t = s.substr(a, r.chance(1, 8) ? npos : r.below(5));
    if (!t.empty() && r.chance(1, 3)) t[r.below(t.size())] = rstr<C>(r, 1)[0];
    return t;
}

#define SAME(a, b, key) CHECK((a) == (b), key, "got " << (a) << " expected " << (b) << ", text " << sh(s) << ", argument " << sh(t) << ", pos " << pos << ", n " << n)

template <typename C>
static void one(Case& c)
{
    Rng& r = c.rng;
    S<C> s = rstr<C>(r, rand_len(r) % 70);
    if (r.chance(1, 3)) s += s;
    S<C> t = needle(r, s);
    std::size_t pos = rpos(r, s.size()), n = rpos(r, s.size()), pos2 = rpos(r, t.size()), n2 = rpos(r, t.size());
    Buf<C> bs(s, r.chance(1, 2)), bt(t, r.chance(1, 2));
    const V<C> v = bs.v(), w = bt.v();
    if (c.want_sample() && !t.empty()) c.sample("text " + sh(s) + ", argument " + sh(t) + ", pos " + std::to_string(pos));

    // ---- size and access
    CHECK(v.size() == s.size() && v.length() == s.size() && v.empty() == s.empty(), "size", v.size());
    CHECK(v.data() == bs.p, "data", "");
    CHECK(std::equal(v.begin(), v.end(), s.begin()) && static_cast<std::size_t>(v.end() - v.begin()) == s.size(), "iteration", sh(s));
    CHECK(S<C>(v.cbegin(), v.cend()) == s, "const-iteration", sh(s));
    CHECK(S<C>(v.rbegin(), v.rend()) == S<C>(s.rbegin(), s.rend()), "reverse-iteration", sh(s));
    CHECK(S<C>(v.crbegin(), v.crend()) == S<C>(s.rbegin(), s.rend()), "const-reverse-iteration", sh(s));
    if (!s.empty())
    {
        std::size_t k = r.below(s.size());
        CHECK(&v[k] == bs.p + k && &v.at(k) == bs.p + k, "element", k);
        CHECK(&v.front() == bs.p && &v.back() == bs.p + s.size() - 1, "front-back", sh(s));
    }
    {
        bool th = throws_oor([&] { (void)v.at(pos); });
        CHECK(th == (pos >= s.size()), "at-throws", "pos " << pos << " size " << s.size());
    }
    // ---- construction, conversion
    {
        V<C> a(s);
        CHECK(a.data() == s.data() && a.size() == s.size(), "from-string", "");
        ZBuf<C> z(s);
        V<C> b(z.p);
        std::size_t zl = std::min(s.find(C()), s.size());
        CHECK(b.data() == z.p && b.size() == zl, "from-c-string", b.size() << " expected " << zl);
        V<C> d;
        CHECK(d.empty() && d.size() == 0 && d.data() == nullptr, "default", "");
        S<C> back(v);
        CHECK(back == s, "to-string", sh(back));
        V<C> a2 = a;
        V<C> b2;
        b2 = b;
        a2.swap(b2);
        CHECK(a2.data() == b.data() && a2.size() == b.size() && b2.data() == a.data() && b2.size() == a.size(), "swap", "");
    }
    // ---- modifiers
    {
        V<C> a = v;
        std::size_t k = r.below(s.size() + 1), l = r.below(s.size() - k + 1);
        a.remove_prefix(k);
        a.remove_suffix(l);
        CHECK(a.data() == bs.p + k && a.size() == s.size() - k - l, "remove", "prefix " << k << " suffix " << l);
        V<C> b = v, d = v; const std::size_t more = r.chance(1, 2) ? s.size() + 1 + r.below(5) : V<C>::npos - r.below(3);
        b.remove_prefix(more); d.remove_suffix(more); CHECK(b.empty() && d.empty() && d.data() == bs.p && b.data() == bs.p + s.size(), "remove-more", more);
    }
    // ---- copy, substr
    {
        if (pos > s.size())
        {
            C dummy[1];
            CHECK(throws_oor([&] { v.copy(dummy, n, pos); }), "copy-throws", pos);
            CHECK(throws_oor([&] { (void)v.substr(pos, n); }), "substr-throws", pos);
            CHECK(throws_oor([&] { (void)v.substr(pos); }), "substr1-throws", pos);
        }
        else
        {
            S<C> want = s.substr(pos, n);
            C* out = new C[want.size()];
            std::size_t k = v.copy(out, n, pos);
            CHECK(k == want.size() && S<C>(out, k) == want, "copy", k << " expected " << want.size());
            delete[] out;
            V<C> a = v.substr(pos, n), b = v.substr(pos);
            CHECK(a.data() == bs.p + pos && a.size() == want.size(), "substr", "pos " << pos << " n " << n << " got size " << a.size());
            CHECK(b.data() == bs.p + pos && b.size() == s.size() - pos, "substr1", "pos " << pos);
        }
        C* out = new C[s.size()];
        CHECK(v.copy(out, npos) == s.size() && S<C>(out, s.size()) == s, "copy-all", "");
        delete[] out;
    }
    // ---- compare
    {
        ZBuf<C> z(t);
        S<C> zt(z.p);
        SAME(sgn(v.compare(w)), sgn(s.compare(t)), "compare");
        SAME(sgn(w.compare(v)), sgn(t.compare(s)), "compare-swapped");
        SAME(sgn(v.compare(z.p)), sgn(s.compare(zt)), "compare-c");
        bool th = pos > s.size();
        CHECK(throws_oor([&] { (void)v.compare(pos, n, w); }) == th, "compare3-throws", pos);
        CHECK(throws_oor([&] { (void)v.compare(pos, n, z.p); }) == th, "compare3c-throws", pos);
        CHECK(throws_oor([&] { (void)v.compare(pos, n, bt.p, t.size()); }) == th, "compare4-throws", pos);
        CHECK(throws_oor([&] { (void)v.compare(pos, n, w, pos2, n2); }) == (th || pos2 > t.size()), "compare5-throws", pos << " " << pos2);
        if (!th)
        {
            SAME(sgn(v.compare(pos, n, w)), sgn(s.compare(pos, n, t)), "compare3");
            SAME(sgn(v.compare(pos, n, z.p)), sgn(s.compare(pos, n, zt)), "compare3c");
            std::size_t k = r.below(t.size() + 1);
            SAME(sgn(v.compare(pos, n, bt.p, k)), sgn(s.compare(pos, n, t.substr(0, k))), "compare4");
            if (pos2 <= t.size())
                SAME(sgn(v.compare(pos, n, w, pos2, n2)), sgn(s.compare(pos, n, t, pos2, n2)), "compare5");
        }
        // operators in all combinations
        S<C> u = r.chance(1, 3) ? s : r.chance(1, 2) ? t : s.substr(0, r.below(s.size() + 1));
        Buf<C> bu(u, r.chance(1, 2));
        ZBuf<C> zu(u);
        S<C> uz(zu.p);
        V<C> x = bu.v();
#define OPS(a, b, sb, k)                                                                            \
        CHECK((a == b) == (s == sb) && (a != b) == (s != sb) && (a < b) == (s < sb) && (a > b) == (s > sb)    \
              && (a <= b) == (s <= sb) && (a >= b) == (s >= sb), "op-" k, sh(s) << " vs " << sh(sb));          \
        CHECK((b == a) == (sb == s) && (b != a) == (sb != s) && (b < a) == (sb < s) && (b > a) == (sb > s)    \
              && (b <= a) == (sb <= s) && (b >= a) == (sb >= s), "rop-" k, sh(s) << " vs " << sh(sb));
        OPS(v, x, u, "view")
        OPS(v, u, u, "string")
        OPS(v, static_cast<const C*>(zu.p), uz, "c-string")
#undef OPS
    }
    // ---- searches
    {
        ZBuf<C> z(t);
        S<C> zt(z.p);
        C ch = t.empty() ? C('a') : t[0];
        std::size_t k = r.below(t.size() + 1);
        S<C> tk = t.substr(0, k);
#define FIND(f)                                                                                     \
        SAME(v.f(w, pos), s.f(t, pos), #f);                                                         \
        SAME(v.f(w), s.f(t), #f "-default");                                                        \
        SAME(v.f(ch, pos), s.f(ch, pos), #f "-char");                                               \
        SAME(v.f(ch), s.f(ch), #f "-char-default");                                                 \
        SAME(v.f(bt.p, pos, k), s.f(tk, pos), #f "-pointer");                                       \
        SAME(v.f(static_cast<const C*>(z.p), pos), s.f(zt, pos), #f "-c-string");                    \
        SAME(v.f(static_cast<const C*>(z.p)), s.f(zt), #f "-c-string-default");
        FIND(find)
        FIND(rfind)
        FIND(find_first_of)
        FIND(find_last_of)
        FIND(find_first_not_of)
        FIND(find_last_not_of)
#undef FIND
        if (s.find(t) != npos && !t.empty()) c.count("needle_found");
    }
    if (!s.empty() && !t.empty()) c.distinct(hash_bytes(s.data(), s.size() * sizeof(C), hash_bytes(t.data(), t.size() * sizeof(C), pos * 31 + n)));
    c.eval(90);
}

GROUP("char", 40000, 800000) { one<char>(c); }
GROUP("wchar_t", 15000, 300000) { one<wchar_t>(c); }
GROUP("char16_t", 15000, 300000) { one<char16_t>(c); }
GROUP("char32_t", 15000, 300000) { one<char32_t>(c); }

// Exhaustive over small texts: all texts over {a,b} up to length 6 against all needles up to 3, all positions
GROUP("small_exhaustive", 127, 127)
{
    auto nth = [](std::size_t k) { // 0 -> "", 1.. -> binary strings by length
        std::string s;
        ++k;
        int bits = 0;
        while ((k >> (bits + 1)) != 0) ++bits;
        for (int i = bits - 1; i >= 0; --i) s += (k >> i) & 1 ? 'b' : 'a';
        return s;
    };
    std::string s = nth(c.idx);
    Buf<char> bs(s, false);
    gul14::string_view v = bs.v();
    for (std::size_t j = 0; j != 15; ++j)
    {
        std::string t = nth(j);
        Buf<char> bt(t, false);
        auto w = bt.v();
        for (std::size_t p = 0; p <= s.size() + 2; ++p)
        {
            std::size_t pos = p == s.size() + 2 ? npos : p, n = 0;
            SAME(v.find(w, pos), s.find(t, pos), "find");
            SAME(v.rfind(w, pos), s.rfind(t, pos), "rfind");
            SAME(v.find_first_of(w, pos), s.find_first_of(t, pos), "find_first_of");
            SAME(v.find_last_of(w, pos), s.find_last_of(t, pos), "find_last_of");
            SAME(v.find_first_not_of(w, pos), s.find_first_not_of(t, pos), "find_first_not_of");
            SAME(v.find_last_not_of(w, pos), s.find_last_not_of(t, pos), "find_last_not_of");
            c.eval(6);
        }
        CHECK(sgn(v.compare(w)) == sgn(s.compare(t)), "compare", s << " " << t);
        c.distinct(hash_str(s) ^ j);
    }
}

template <typename C>
static void stream(Case& c)
{
    Rng& r = c.rng;
    S<C> s = rstr<C>(r, r.below(24));
    Buf<C> b(s, r.chance(1, 2));
    std::basic_ostringstream<C> o1, o2;
    for (int k = 0; k != 2; ++k)
    {
        auto& o = k ? o2 : o1;
        (void)o;
    }
    C fill = r.chance(1, 2) ? C(' ') : C('*');
    int w = static_cast<int>(r.chance(1, 4) ? 0 : r.below(48));
    auto adj = r.below(4);
    auto prep = [&](std::basic_ostringstream<C>& o) {
        o.fill(fill);
        o.width(w);
        if (adj == 0) o << std::left; else if (adj == 1) o << std::right; else if (adj == 2) o << std::internal;
    };
    prep(o1);
    prep(o2);
    bool bad = r.chance(1, 16);
    if (bad) { o1.setstate(std::ios::failbit); o2.setstate(std::ios::failbit); }
    auto& ret = (o1 << b.v());
    o2 << s;
    CHECK(&ret == &o1, "stream-return", "");
    o1 << C('|') << 17;
    o2 << C('|') << 17;
    CHECK(o1.str() == o2.str(), "stream", "got " << sh(o1.str()) << " expected " << sh(o2.str()) << " width " << w);
    CHECK(o1.rdstate() == o2.rdstate() && o1.fill() == o2.fill() && o1.flags() == o2.flags(), "stream-state", "");
    if (!bad) CHECK(o1.width() == 0, "stream-width", o1.width());
    c.eval();
    c.distinct(hash_mix(hash_bytes(s.data(), s.size() * sizeof(C)), static_cast<std::uint64_t>(w * 8) + adj));
}
GROUP("stream_char", 12000, 200000) { stream<char>(c); }
GROUP("stream_wchar", 6000, 100000) { stream<wchar_t>(c); }

GROUP("concatenation", 12000, 200000)
{
    std::string a = rand_string(c.rng), b = rand_string(c.rng);
    Buf<char> ba(a, c.rng.chance(1, 2)), bb(b, c.rng.chance(1, 2));
    CHECK(a + bb.v() == a + b, "plus", show(a) << show(b));
    CHECK(ba.v() + b == a + b, "rplus", show(a) << show(b));
    CHECK(std::string(a) + bb.v() == a + b, "plus-rvalue", show(a) << show(b));
    CHECK(ba.v() + std::string(b) == a + b, "rplus-rvalue", show(a) << show(b));
    std::string d = a;
    std::string& ref = (d += bb.v());
    CHECK(&ref == &d && d == a + b, "plus-assign", show(a) << show(b));
    std::string e = a; // appending a view of the string itself
    std::size_t p = c.rng.below(e.size() + 1), n = c.rng.below(e.size() - p + 1);
    std::string want = a + a.substr(p, n);
    e += gul14::string_view(e.data() + p, n);
    CHECK(e == want, "plus-assign-self", show(a) << " pos " << p << " n " << n);
    c.eval(6);
    c.distinct(hash_str(a, hash_str(b)));
}
