// C41: all functions on texts in memory that is surrounded by inaccessible pages and cannot be written to; the
// results must be those for an ordinary string, whatever follows and precedes the text
#include "ops.h"
#include <sys/mman.h>
using namespace vm;

static const std::size_t PAGE = 4096, CAP = 192 * 1024;
class Arena
{
public:
    Arena()
    {
        base_ = static_cast<char*>(::mmap(nullptr, CAP + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (base_ == MAP_FAILED) std::abort();
        lo_ = base_ + PAGE;
    }
    // side 0: the text ends right before an inaccessible page, 1: it starts right behind one; the rest of the
    // accessible pages is filled with text that would change the result if it was read
    gul14::string_view place(const std::string& s, int side, Rng& r, std::size_t align = 1)
    {
        std::size_t need = s.size() == 0 ? PAGE : (s.size() + PAGE - 1) / PAGE * PAGE;
        if (need > CAP) std::abort();
        char* area = side == 0 ? lo_ + CAP - need : lo_;
        if (::mprotect(area, need, PROT_READ | PROT_WRITE) != 0) std::abort();
        static const std::string fill[] = { "0123456789", "aAbB", "nan(1)", "inf", "e5", " \t\n", "\\x41", ",;", std::string(1, '\0'), "\xff", "." };
        const std::string& f = r.pick(fill);
        char* p = side == 0 ? area + need - s.size() : area;
        (void)align;
        // only the neighbourhood matters
        char* f0 = side == 0 ? std::max(area, p - 64) : p + s.size();
        char* f1 = side == 0 ? p : std::min(area + need, p + s.size() + 64);
        if (r.chance(1, 3) && !s.empty()) for (std::size_t k = 0; f0 + k < f1; ++k) f0[k] = side == 0 ? s[s.size() - 1 - ((std::size_t)(f1 - f0) - 1 - k) % s.size()] : s[k % s.size()]; // repeats the text itself
        else for (std::size_t k = 0; f0 + k < f1; ++k) f0[k] = f[k % f.size()];
        if (!s.empty()) std::memcpy(p, s.data(), s.size());
        if (::mprotect(area, need, PROT_READ) != 0) std::abort();
        area_ = area; need_ = need;
        return gul14::string_view(p, s.size());
    }
    void release() { if (area_) { ::mprotect(area_, need_, PROT_NONE); area_ = nullptr; } }
    // a pointer to nothing that may be read, for empty texts
    const char* nowhere() const { return base_ + PAGE / 2; }
private:
    char* base_ = nullptr; char* lo_ = nullptr; char* area_ = nullptr; std::size_t need_ = 0;
};
static Arena& arena(int i) { static Arena* a = new Arena[3]; return a[i]; }

static std::string rand_number(Rng& r)
{
    std::string s;
    if (r.chance(1, 3)) s += "+-"[r.below(2)];
    switch (r.below(8))
    {
    case 0: s += r.chance(1, 2) ? "nan" : "NaN"; if (r.chance(1, 2)) s += "(" + rand_from(r, "09azAZ_", r.below(5)) + (r.chance(3, 4) ? ")" : ""); break;
    case 1: s += r.chance(1, 2) ? "inf" : "INFINITY"; if (r.chance(1, 4)) s = s.substr(0, r.below(s.size() + 1)); break;
    case 2: s += rand_from(r, "0123456789", r.below(400)); break;
    default:
        s += rand_from(r, r.chance(1, 4) ? "0" : "0123456789", r.below(r.chance(1, 4) ? 40 : 6));
        if (r.chance(2, 3)) s += "." + rand_from(r, r.chance(1, 4) ? "0" : "0123456789", r.below(r.chance(1, 4) ? 40 : 6));
        if (r.chance(1, 2)) { s += "eE"[r.below(2)]; if (r.chance(1, 2)) s += "+-"[r.below(2)]; s += rand_from(r, "0123456789", r.below(r.chance(1, 8) ? 25 : 5)); }
    }
    if (r.chance(1, 8)) s.insert(r.below(s.size() + 1), 1, "0.eE+-( )x"[r.below(10)]);
    return s;
}
static void make_texts(Rng& r, std::string (&t)[3])
{
    t[0] = r.chance(1, 4) ? rand_number(r) : rand_string(r);
    t[1] = r.chance(1, 3) ? rand_string(r) : related_string(r, t[0]);
    t[2] = r.chance(1, 2) ? rand_string(r) : related_string(r, t[0]);
    if (t[1].size() > 3000) t[1].resize(r.below(3000));
    if (t[2].size() > 3000) t[2].resize(r.below(3000));
}
// The cost of some functions is a product of lengths
static bool too_expensive(const std::string& name, const ops::In& in)
{
    std::size_t occ = in.a.size();
    if (name == "repeat" || name == "join") { if (occ * in.n > 1000000) return true; }
    if (name.find("replace") == 0 || name.find("join") == 0) return occ * (in.c.size() + in.b.size() + 1) > 4000000;
    if (name.find("hexdump") == 0 || name.find("hex_string") == 0) return occ > 20000 || occ * (in.b.size() + in.c.size()) > 1000000;
    return occ * in.b.size() > 20000000;
}
static std::string run(const ops::Op& op, const ops::In& in, const char* where)
{
    std::string o;
    try { op.fn(in, o); }
    catch (const std::exception& e) { VIOL("exception", op.name << " on " << where << " memory: " << e.what()); }
    return o;
}
GROUP("functions", 4000, 60000)
{
    Rng& r = c.rng;
    std::string t[3];
    make_texts(r, t);
    ops::In in[4];
    int side[3] = { (int)r.below(2), (int)r.below(2), (int)r.below(2) };
    std::size_t n = r.below(4) ? r.below(8) : r.below(t[0].size() + 3), k = r.below(4) ? r.below(8) : r.below(t[0].size() + 3);
    Exact e0(t[0], true, (unsigned)r.below(2)), e1(t[1], true, (unsigned)r.below(2)), e2(t[2], true, (unsigned)r.below(2));
    c.desc(show(t[0]) + " " + show(t[1]) + " " + show(t[2]) + " " + std::to_string(n) + " " + std::to_string(k));
    in[0] = { t[0], t[1], t[2], n, k };
    in[1] = { e0.sv(), e1.sv(), e2.sv(), n, k };
    for (int s = 0; s < 2; ++s)
    {
        gul14::string_view v[3];
        for (int q = 0; q < 3; ++q)
        {
            if (t[q].empty() && r.chance(1, 2)) v[q] = gul14::string_view(r.chance(1, 2) ? arena(q).nowhere() : nullptr, 0);
            else v[q] = arena(q).place(t[q], side[q] ^ s, r);
        }
        in[2] = { v[0], v[1], v[2], n, k };
        for (const ops::Op& op : ops::table())
        {
            if (too_expensive(op.name, in[0])) continue;
            std::string want = run(op, in[0], "ordinary");
            std::string g = run(op, in[2], "guarded");
            CHECK(g == want, std::string("depends-on-surroundings-") + op.name, show(g) << " instead of " << show(want));
            if (s == 0)
            {
                std::string e = run(op, in[1], "exact");
                CHECK(e == want, std::string("depends-on-memory-") + op.name, show(e) << " instead of " << show(want));
            }
            c.eval();
            if (want.find("OUTSIDE") != std::string::npos && t[0].find("OUTSIDE") == std::string::npos) VIOL("view-outside", op.name << ": " << show(want));
        }
        for (int q = 0; q < 3; ++q) arena(q).release();
    }
    c.count(t[0].empty() ? "text.empty" : t[0].size() > 1024 ? "text.long" : "text.short");
    c.count(std::string("placed.") + (side[0] ? "behind" : "before") + "-guard");
    c.distinct(hash_str(t[0] + '|' + t[1] + '|' + t[2]));
    if (c.want_sample()) c.sample(show(t[0]) + ", " + show(t[1]));
}
// safe_string: does not look beyond the first null character
GROUP("safe_string", 3000, 40000)
{
    Rng& r = c.rng;
    std::string s = rand_string(r);
    for (auto& ch : s) if (!ch) ch = 'x';
    std::string z = s + '\0';
    auto v = arena(0).place(z, 0, r);
    std::size_t len = z.size() + r.below(r.chance(1, 2) ? 4 : 100000);
    c.desc(show(s) + " " + std::to_string(len));
    std::string got = gul14::safe_string(v.data(), len);
    CHECK(got == s, "result", show(got));
    CHECK(gul14::safe_string(nullptr, len).empty(), "null", len);
    CHECK(gul14::safe_string(arena(1).nowhere(), 0).empty(), "zero", len);
    arena(0).release();
    c.eval(3);
    c.distinct(hash_str(z));
}
// Ranges of other element types and with iterators that know their range
template <typename T> struct It
{
    typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
    const T* lo = nullptr; const T* hi = nullptr; const T* p = nullptr;
    It& go(std::ptrdiff_t d) { if (d > hi - p || d < lo - p) VIOL("iterator-moved-outside", (p - lo) << " by " << d << " of " << (hi - lo)); p += d; return *this; }
    const T& operator*() const { if (p < lo || p >= hi) VIOL("dereferenced-outside", (p - lo) << " of " << (hi - lo)); return *p; }
    const T* operator->() const { return &**this; }
    const T& operator[](std::ptrdiff_t d) const { It x = *this; x.go(d); return *x; }
    It& operator++() { return go(1); } It& operator--() { return go(-1); }
    It operator++(int) { It x = *this; go(1); return x; } It operator--(int) { It x = *this; go(-1); return x; }
    It& operator+=(std::ptrdiff_t d) { return go(d); } It& operator-=(std::ptrdiff_t d) { return go(-d); }
    friend It operator+(It a, std::ptrdiff_t d) { a.go(d); return a; } friend It operator+(std::ptrdiff_t d, It a) { a.go(d); return a; } friend It operator-(It a, std::ptrdiff_t d) { a.go(-d); return a; }
    friend std::ptrdiff_t operator-(const It& a, const It& b) { return a.p - b.p; }
    friend bool operator==(const It& a, const It& b) { return a.p == b.p; } friend bool operator!=(const It& a, const It& b) { return a.p != b.p; }
    friend bool operator<(const It& a, const It& b) { return a.p < b.p; } friend bool operator>(const It& a, const It& b) { return a.p > b.p; }
    friend bool operator<=(const It& a, const It& b) { return a.p <= b.p; } friend bool operator>=(const It& a, const It& b) { return a.p >= b.p; }
};
template <typename T> struct Cont { typedef T value_type; typedef It<T> const_iterator; typedef It<T> iterator; It<T> b, e; It<T> begin() const { return b; } It<T> end() const { return e; } It<T> cbegin() const { return b; } It<T> cend() const { return e; } std::size_t size() const { return (std::size_t)(e - b); } };
template <typename T, bool Integral> struct IntOps { static void run(const Cont<T>&, const std::vector<T>&) {} };
template <typename T> struct IntOps<T, true>
{
    static void run(const Cont<T>& x, const std::vector<T>& v)
    {
        CHECK(gul14::hex_string(x.begin(), x.end(), "-") == gul14::hex_string(v, "-"), "hex_string", v.size());
        CHECK(gul14::hex_string(x) == gul14::hex_string(v), "hex_string", v.size());
        CHECK(gul14::hexdump(x.begin(), x.end()) == gul14::hexdump(v), "hexdump", v.size());
        CHECK(gul14::hexdump(x, "p") == gul14::hexdump(v, "p"), "hexdump", v.size());
    }
};
template <typename T> void ranges(Case& c, const char* name)
{
    Rng& r = c.rng;
    std::size_t n = r.chance(1, 50) ? r.below(5000) : r.below(40);
    std::vector<T> v;
    for (std::size_t i = 0; i < n; ++i) v.push_back((T)(r.range(-100, 100)));
    std::string bytes(reinterpret_cast<const char*>(v.data()), n * sizeof(T));
    int side = (int)r.below(2);
    auto s = arena(0).place(bytes, side, r);
    const T* p = reinterpret_cast<const T*>(s.data());
    c.desc(std::string(name) + " x " + std::to_string(n) + (side ? " behind" : " before") + " guard");
    Cont<T> x{ { p, p + n, p }, { p, p + n, p + n } };
    IntOps<T, std::is_integral<T>::value>::run(x, v);
    auto same = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); };
    CHECK(same(gul14::mean(x.begin(), x.end()), gul14::mean(v)) && same(gul14::mean(x), gul14::mean(v)), "mean", n);
    CHECK(same(gul14::rms(x.begin(), x.end()), gul14::rms(v)), "rms", n);
    CHECK(same(gul14::median(x.begin(), x.end()), gul14::median(v)), "median", n);
    CHECK(same(gul14::standard_deviation(x.begin(), x.end()).sigma(), gul14::standard_deviation(v).sigma()), "standard_deviation", n);
    CHECK(same((double)gul14::minimum(x.begin(), x.end()), (double)gul14::minimum(v)) && same((double)gul14::maximum(x.begin(), x.end()), (double)gul14::maximum(v)), "minimum", n);
    auto mm = gul14::min_max(x.begin(), x.end());
    CHECK(same((double)mm.min, (double)gul14::minimum(v)) && same((double)mm.max, (double)gul14::maximum(v)), "min_max", n);
    std::vector<T> copy(x.begin(), x.end()); std::vector<T> out = gul14::remove_outliers(v, r.below(n + 2)); CHECK(out.size() <= n, "remove_outliers", n);
    gul14::SmallVector<T, 5> sv(x.begin(), x.end()); CHECK(sv.size() == n && std::equal(v.begin(), v.end(), sv.begin()), "smallvector", n);
    sv.insert(sv.begin() + (std::ptrdiff_t)r.below(n + 1), x.begin(), x.end()); CHECK(sv.size() == 2 * n, "smallvector-insert", n);
    sv.assign(x.begin(), x.end()); CHECK(sv.size() == n && std::equal(v.begin(), v.end(), sv.begin()), "smallvector-assign", n);
    gul14::span<const T> sp(p, n); std::size_t a = r.below(n + 1), b = r.below(n - a + 1);
    std::vector<T> w; for (const T& e : sp.subspan(a, b)) w.push_back(e);
    CHECK(w == std::vector<T>(v.begin() + (std::ptrdiff_t)a, v.begin() + (std::ptrdiff_t)(a + b)), "span", a << ' ' << b);
    arena(0).release();
    c.eval(12);
    c.count(std::string("ranges.") + name);
    c.distinct(hash_mix(hash_str(name), hash_str(bytes)));
}
GROUP("ranges", 6000, 80000)
{
    switch (c.idx / 64 % 8)
    {
    case 0: ranges<signed char>(c, "signed char"); break; case 1: ranges<short>(c, "short"); break; case 2: ranges<int>(c, "int"); break; case 3: ranges<unsigned>(c, "unsigned"); break;
    case 4: ranges<long long>(c, "long long"); break; case 5: ranges<double>(c, "double"); break; case 6: ranges<float>(c, "float"); break; default: ranges<unsigned char>(c, "unsigned char");
    }
}
// string views of wider characters
template <typename Ch> void wide(Case& c)
{
    Rng& r = c.rng;
    typedef std::basic_string<Ch> S; typedef gul14::basic_string_view<Ch> V;
    S t[2]; for (auto& x : t) { std::size_t n = r.below(24); for (std::size_t i = 0; i < n; ++i) x += (Ch)("abA "[r.below(4)]); }
    if (r.chance(1, 2) && !t[0].empty()) t[1] = t[0].substr(r.below(t[0].size()), r.below(5));
    for (int side = 0; side < 2; ++side)
    {
        V v[2];
        for (int q = 0; q < 2; ++q) { auto s = arena(q).place(std::string(reinterpret_cast<const char*>(t[q].data()), t[q].size() * sizeof(Ch)), side ^ (int)r.below(2), r); v[q] = V(reinterpret_cast<const Ch*>(s.data()), t[q].size()); }
        std::size_t p = r.below(t[0].size() + 2), n = r.below(6);
        auto sg = [](int x) { return x < 0 ? -1 : x > 0; };
        CHECK(v[0].find(v[1], p) == t[0].find(t[1], p) && v[0].rfind(v[1], p) == t[0].rfind(t[1], p), "find", p);
        CHECK(v[0].find_first_of(v[1], p) == t[0].find_first_of(t[1], p) && v[0].find_first_not_of(v[1], p) == t[0].find_first_not_of(t[1], p), "find_first", p);
        CHECK(v[0].find_last_of(v[1], p) == t[0].find_last_of(t[1], p) && v[0].find_last_not_of(v[1], p) == t[0].find_last_not_of(t[1], p), "find_last", p);
        CHECK(sg(v[0].compare(v[1])) == sg(t[0].compare(t[1])) && (v[0] == v[1]) == (t[0] == t[1]) && (v[0] < v[1]) == (t[0] < t[1]), "compare", p);
        if (p <= t[0].size()) { CHECK(S(v[0].substr(p, n)) == t[0].substr(p, n), "substr", p); CHECK(sg(v[0].compare(p, n, v[1])) == sg(t[0].compare(p, n, t[1])), "compare", p); Ch buf[8] = {}; v[0].copy(buf, n, p); CHECK(S(buf) == t[0].substr(p, n), "copy", p); }
        CHECK(S(v[0]) == t[0], "string", p);
        c.eval(8);
        arena(0).release(); arena(1).release();
    }
    c.distinct(hash_bytes(t[0].data(), t[0].size() * sizeof(Ch)) ^ hash_bytes(t[1].data(), t[1].size() * sizeof(Ch)));
}
GROUP("wide", 6000, 80000) { switch (c.idx / 64 % 3) { case 0: wide<wchar_t>(c); break; case 1: wide<char16_t>(c); break; default: wide<char32_t>(c); } }
