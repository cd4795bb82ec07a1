// C31: hexdump()/hexdump_stream() against an independent formatter
#include "gen.h"
#include <array>
#include <deque>
#include <forward_list>
#include <iomanip>
#include <list>
#include <locale>
#include <memory>
#include <gul14/hexdump.h>
#include <gul14/SmallVector.h>
using namespace vm;

template <typename T>
static std::string ref_dump(const std::vector<T>& v, const std::string& prompt)
{
    std::string out;
    char buf[40];
    std::size_t n = std::min<std::size_t>(v.size(), 16000);
    for (std::size_t i = 0; i < n || i == 0; i += 16)
    {
        out += i == 0 ? prompt : std::string(prompt.size(), ' ');
        std::snprintf(buf, sizeof buf, "%06zx: ", i);
        out += buf;
        for (std::size_t j = 0; j != 16; ++j)
        {
            if (i + j < v.size())
            {
                unsigned long long u = static_cast<unsigned long long>(v[i + j]);
                if (sizeof(T) < 8) u &= (1ull << (8 * sizeof(T))) - 1;
                std::snprintf(buf, sizeof buf, "%0*llx ", static_cast<int>(2 * sizeof(T)), u);
                out += buf;
            }
            else if (sizeof(T) == 1) out += "   ";
        }
        if (sizeof(T) == 1)
        {
            out += ' ';
            for (std::size_t j = 0; j != 16 && i + j < v.size(); ++j)
            {
                auto u = static_cast<unsigned char>(v[i + j]);
                out += u >= 32 && u < 127 ? static_cast<char>(u) : '.';
            }
        }
        out += '\n';
    }
    if (v.size() > 16000) out += std::string(prompt.size(), ' ') + "[output truncated...]\n";
    return out;
}

// Locales in which numbers look different
struct Punct : std::numpunct<char>
{
    std::string g; char sep, point;
    Punct(std::string gg, char s, char p) : g(std::move(gg)), sep(s), point(p) {}
    std::string do_grouping() const override { return g; }
    char do_thousands_sep() const override { return sep; }
    char do_decimal_point() const override { return point; }
};
static std::locale punct_locale(Rng& r)
{
    static const std::locale l[] = { std::locale(std::locale::classic(), new Punct("\3", ',', '.')), std::locale(std::locale::classic(), new Punct("\3", '.', ',')),
        std::locale(std::locale::classic(), new Punct("\1", '\'', '.')), std::locale(std::locale::classic(), new Punct("\3\2", ' ', ';')) };
    return l[r.below(4)];
}

static void setup_stream(Rng& r, std::ostream& o)
{
    if (r.chance(1, 4)) return;
    static const std::ios_base::fmtflags fl[] = { std::ios_base::hex, std::ios_base::oct, std::ios_base::showbase, std::ios_base::uppercase,
        std::ios_base::left, std::ios_base::right, std::ios_base::internal, std::ios_base::showpos, std::ios_base::scientific, std::ios_base::boolalpha, std::ios_base::unitbuf };
    unsigned n = static_cast<unsigned>(r.below(4));
    while (n--) o.setf(r.pick(fl));
    if (r.chance(1, 2)) o.fill("* 0x"[r.below(4)]);
    if (r.chance(1, 3)) o.imbue(punct_locale(r));
    if (r.chance(1, 3)) o.precision(static_cast<int>(r.below(9)));
}

template <typename O>
static std::string probe(O& o) // how the stream formats numbers
{
    std::ostringstream p;
    p.flags(o.flags());
    p.fill(o.fill());
    p.precision(o.precision());
    p << std::setw(8) << 254 << '|' << 1.5 << '|' << true;
    return p.str();
}

__attribute__((noinline)) static void streamed_(Case& c, void (*put)(std::ostream&, const void*), const void* x, const std::string& want, const char* what)
{
    std::ostringstream o;
    setup_stream(c.rng, o);
    auto flags = o.flags();
    auto fill = o.fill();
    auto prec = o.precision();
    auto loc = o.getloc();
    std::string before = probe(o);
    put(o, x);
    CHECK(o.str() == want, std::string("stream-") + what, "got " << show(o.str()) << " expected " << show(want));
    CHECK(o.flags() == flags && o.fill() == fill && o.precision() == prec && o.getloc() == loc && probe(o) == before, std::string("stream-format-changed-") + what, "");
    CHECK(o.good(), "stream-state", what);
    c.eval(2);
}
template <typename T, typename X>
static void streamed(Case& c, const X& x, const std::string& want, const char* what)
{
    streamed_(c, [](std::ostream& o, const void* p) { o << *static_cast<const X*>(p); }, &x, want, what);
}
__attribute__((noinline)) static void same(Case& c, const std::string& got, const std::string& want, const char* what)
{
    CHECK(got == want, what, "got " << got.substr(0, 2000) << " expected " << want.substr(0, 2000));
    c.eval();
}

// Objects that own a temporary can be kept, copied, moved and assigned; the originals are gone afterwards
template <typename T, typename Cont>
static void owning(Case& c, const Cont& cont, const Cont& other, const std::string& prompt, const std::string& want, const std::string& want_other, const char* what)
{
    using F = decltype(gul14::hexdump_stream(Cont(cont), prompt));
    auto gone = [](std::unique_ptr<F>& p) { p.reset(); };
    auto a = std::make_unique<F>(gul14::hexdump_stream(Cont(cont), prompt));
    auto b = std::make_unique<F>(*a);
    auto d = std::make_unique<F>(std::move(*a));
    gone(a);
    streamed<T>(c, *b, want, what);
    streamed<T>(c, *d, want, what);
    auto e = std::make_unique<F>(gul14::hexdump_stream(Cont(other), "x"));
    streamed<T>(c, *e, want_other, what);
    *e = *b;
    auto f = std::make_unique<F>(gul14::hexdump_stream(Cont(other), "x"));
    auto g = std::make_unique<F>(*f);
    *f = std::move(*b);
    gone(b);
    { F& alias = *e; *e = alias; }
    { F& alias = *f; *f = alias; *f = std::move(alias); }
    streamed<T>(c, *e, want, what);
    streamed<T>(c, *f, want, what);
    std::swap(*f, *g);
    streamed<T>(c, *f, want_other, what);
    streamed<T>(c, *g, want, what);
    gone(f);
    streamed<T>(c, *g, want, what);
    std::vector<F> v; // moved by reallocations
    for (int i = 0; i != 3; ++i) v.push_back(gul14::hexdump_stream(Cont(i == 1 ? other : cont), i == 1 ? std::string("x") : prompt));
    for (int i = 0; i != 3; ++i) streamed<T>(c, v[static_cast<std::size_t>(i)], i == 1 ? want_other : want, what);
}

// The same for objects that refer to elements owned by someone else
template <typename T, typename F>
static void referring(Case& c, const F& first, const F& second, const std::string& want, const std::string& want_second, const char* what)
{
    auto a = std::make_unique<F>(first), b = std::make_unique<F>(second), d = std::make_unique<F>(*a);
    streamed<T>(c, *a, want, what); streamed<T>(c, *b, want_second, what);
    a.reset();
    streamed<T>(c, *d, want, what);
    *b = *d;
    streamed<T>(c, *b, want, what);
    *d = second;
    streamed<T>(c, *d, want_second, what);
    *d = std::move(*b);
    b.reset();
    streamed<T>(c, *d, want, what);
    F& alias = *d; *d = alias;
    streamed<T>(c, *d, want, what);
    *d = std::move(alias);
    streamed<T>(c, *d, want, what);
    F s(second); std::swap(s, *d);
    streamed<T>(c, s, want, what); streamed<T>(c, *d, want_second, what);
}

template <typename T> static void own(Case&, const std::vector<T>&, const std::string&, const std::string&, std::false_type) {}
template <typename T> static void own(Case& c, const std::vector<T>& v, const std::string& prompt, const std::string& want, std::true_type)
{
    {
        std::vector<T> o{ T(1), T(2), T(77) };
        const std::string want_o = ref_dump(o, "x");
        owning<T>(c, v, o, prompt, want, want_o, "owned-vector");
        using F = gul14::HexdumpParameterForward<typename std::vector<T>::const_iterator>;
        referring<T>(c, F(v.begin(), v.end(), prompt, nullptr), F(o.cbegin(), o.cend(), "x", nullptr), want, want_o, "kept-iterators");
        owning<T>(c, gul14::SmallVector<T, 20>(v.begin(), v.end()), gul14::SmallVector<T, 20>(o.begin(), o.end()), prompt, want, want_o, "owned-SmallVector");
        if (c.idx % 4 == 0) owning<T>(c, std::basic_string<T>(v.begin(), v.end()), std::basic_string<T>(o.begin(), o.end()), prompt, want, want_o, "owned-string");
        if (c.idx % 4 == 1) owning<T>(c, std::list<T>(v.begin(), v.end()), std::list<T>(o.begin(), o.end()), prompt, want, want_o, "owned-list");
        if (v.size() >= 9)
        {
            std::array<T, 9> x, y; std::copy(v.begin(), v.begin() + 9, x.begin()); std::copy(v.rbegin(), v.rbegin() + 9, y.begin());
            owning<T>(c, x, y, prompt, ref_dump(std::vector<T>(x.begin(), x.end()), prompt), ref_dump(std::vector<T>(y.begin(), y.end()), "x"), "owned-array");
        }
    }
}

template <typename T>
static void dump(Case& c, std::size_t n)
{
    Rng& r = c.rng;
    std::vector<T> v(n);
    unsigned mode = static_cast<unsigned>(r.below(3));
    for (auto& x : v) x = mode == 0 ? static_cast<T>(r.next()) : mode == 1 ? static_cast<T>(32 + r.below(95)) : static_cast<T>(r.next() >> r.below(64));
    v.shrink_to_fit();
    std::string prompt = r.chance(1, 3) ? "" : rand_from(r, "abc-> \t\x80%", r.below(r.chance(1, 8) ? 80 : 12));
    std::string want = ref_dump(v, prompt), want0 = ref_dump(v, "");
    Exact ep(prompt, true, static_cast<unsigned>(c.idx));
    c.desc("prompt " + show(prompt) + ", " + std::to_string(n) + " elements of " + std::to_string(sizeof(T)) + " bytes");
    same(c, gul14::hexdump(v, ep.sv()), want, "container");
    same(c, gul14::hexdump(v.begin(), v.end(), ep.sv()), want, "iterators");
    same(c, gul14::hexdump(v.data(), v.data() + v.size(), ep.sv()), want, "pointers");
    const T* cp = v.data();
    same(c, gul14::hexdump(cp, cp + v.size()), want0, "const-pointers");
    same(c, gul14::hexdump(v), want0, "no-prompt");
    std::list<T> li(v.begin(), v.end());
    std::forward_list<T> fl(v.begin(), v.end());
    std::deque<T> de(v.begin(), v.end());
    gul14::SmallVector<T, 5> sm(v.begin(), v.end());
    same(c, gul14::hexdump(li, ep.sv()), want, "list");
    same(c, gul14::hexdump(fl, ep.sv()), want, "forward_list");
    same(c, gul14::hexdump(de.cbegin(), de.cend(), ep.sv()), want, "deque");
    same(c, gul14::hexdump(sm, ep.sv()), want, "SmallVector");
    streamed<T>(c, gul14::hexdump_stream(v, prompt), want, "lvalue");
    streamed<T>(c, gul14::hexdump_stream(v.begin(), v.end(), prompt), want, "iterators");
    streamed<T>(c, gul14::hexdump_stream(cp, cp + v.size(), prompt), want, "pointers");
    streamed<T>(c, gul14::hexdump_stream(std::vector<T>(v), prompt), want, "temporary");
    streamed<T>(c, gul14::hexdump_stream(std::list<T>(li)), want0, "temporary-list");
    streamed<T>(c, gul14::hexdump_stream(gul14::SmallVector<T, 5>(sm), prompt), want, "temporary-SmallVector");
    const auto& cv = v;
    streamed<T>(c, gul14::hexdump_stream(cv), want0, "const-lvalue");
    own<T>(c, v, prompt, want, std::integral_constant<bool, std::is_same<T, unsigned char>::value || std::is_same<T, int>::value>());
    if (n) c.distinct(hash_str(want));
    if (n > 3 && n < 20) c.sample(want);
}

static std::size_t len(Rng& r)
{
    switch (r.below(5)) { case 0: return 16 * r.below(5); case 1: return 16 * r.below(5) + 1; case 2: return 16 * r.below(5) + 15; default: return r.below(80); }
}
#if !defined(PART) || PART == 1
GROUP("char", 800, 16000) { dump<char>(c, len(c.rng)); }
#endif
#if !defined(PART) || PART == 2
GROUP("uchar", 800, 16000) { dump<unsigned char>(c, len(c.rng)); }
#endif
#if !defined(PART) || PART == 1
GROUP("schar", 800, 16000) { dump<signed char>(c, len(c.rng)); }
GROUP("short", 600, 12000) { dump<short>(c, len(c.rng)); }
#endif
#if !defined(PART) || PART == 3
GROUP("ushort", 600, 12000) { dump<unsigned short>(c, len(c.rng)); }
#endif
#if !defined(PART) || PART == 3
GROUP("int", 600, 12000) { dump<int>(c, len(c.rng)); }
#endif
#if !defined(PART) || PART == 4
GROUP("uint", 600, 12000) { dump<unsigned>(c, len(c.rng)); }
#endif
#if !defined(PART) || PART == 4
GROUP("llong", 600, 12000) { dump<long long>(c, len(c.rng)); }
#endif
#if !defined(PART) || PART == 4
GROUP("ullong", 600, 12000) { dump<unsigned long long>(c, len(c.rng)); }
#endif
#if !defined(PART) || PART == 3
GROUP("global_locale", 200, 4000)
{
    std::locale old = std::locale::global(punct_locale(c.rng));
    if (c.idx % 2) dump<unsigned short>(c, c.idx % 50 == 1 ? 16001 : len(c.rng));
    else dump<int>(c, c.idx % 50 == 2 ? 16001 : len(c.rng));
    std::locale::global(old);
}
#endif
#if !defined(PART) || PART == 2
GROUP("long_data_char", 20, 100)
{
    static const std::size_t n[] = { 15999, 16000, 16001, 15984, 15985, 16016, 20000, 4096, 15990, 32000 };
    dump<unsigned char>(c, n[c.idx % 10]);
}
#endif
#if !defined(PART) || PART == 3
GROUP("long_data_int", 10, 60)
{
    static const std::size_t n[] = { 15999, 16000, 16001, 15984, 15985, 16016 };
    dump<int>(c, n[c.idx % 6]);
}
#endif
