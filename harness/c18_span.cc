// C18: gul14::span against positions of the underlying range
#include "gen.h"
#include <array>
#include <gul14/span.h>
#include <gul14/SmallVector.h>
using namespace vm;
using gul14::span;
using gul14::dynamic_extent;

struct Big { std::int32_t a, b, c; bool operator!=(const Big& o) const { return a != o.a; } bool operator<(const Big& o) const { return a < o.a; } bool operator>(const Big& o) const { return a > o.a; } };

template <typename T> T make(Rng& r) { return static_cast<T>(r.next() >> r.below(60)); }
template <> Big make<Big>(Rng& r) { std::int32_t k = static_cast<std::int32_t>(r.below(3)); return { k, 2, 3 }; }
template <> double make<double>(Rng& r) { return static_cast<double>(r.range(-3, 3)); }

// The span must denote exactly p[0..n)
template <typename T, std::size_t E>
static void exact(Case& c, span<T, E> s, const typename std::remove_cv<T>::type* p, std::size_t n, const char* what)
{
    CHECK(s.size() == n, std::string(what) + "-size", s.size() << " expected " << n);
    CHECK(n == 0 || s.data() == p, std::string(what) + "-data", "offset " << (s.data() - p));
    CHECK(s.empty() == (n == 0) && s.size_bytes() == n * sizeof(T), std::string(what) + "-bytes", s.size_bytes());
    CHECK(static_cast<std::size_t>(s.end() - s.begin()) == n && s.cend() - s.cbegin() == s.end() - s.begin(), std::string(what) + "-iterators", "");
    CHECK(n == 0 || (s.begin() == p && s.cbegin() == p && begin(s) == p && end(s) == p + n), std::string(what) + "-begin", "");
    std::size_t k = n;
    for (auto it = s.rbegin(); it != s.rend(); ++it) { CHECK(k > 0, "reverse", what); --k; CHECK(&*it == p + k, std::string(what) + "-reverse", k); }
    CHECK(k == 0, "reverse-count", what);
    k = n;
    for (auto it = s.crbegin(); it != s.crend(); ++it) { CHECK(k > 0, "creverse", what); --k; CHECK(&*it == p + k, std::string(what) + "-creverse", k); }
    CHECK(k == 0, "creverse-count", what);
    for (std::size_t i = 0; i != n; ++i) CHECK(&s[i] == p + i, std::string(what) + "-index", i);
    if (n) CHECK(&s.front() == p && &s.back() == p + n - 1, std::string(what) + "-front-back", "");
    auto b = gul14::as_bytes(s);
    CHECK(b.size() == n * sizeof(T) && (n == 0 || b.data() == reinterpret_cast<const unsigned char*>(p)), std::string(what) + "-as_bytes", b.size());
    if (n) { unsigned char last; std::memcpy(&last, reinterpret_cast<const char*>(p) + n * sizeof(T) - 1, 1); CHECK(b[n * sizeof(T) - 1] == last, "as_bytes-value", what); }
    span<const typename std::remove_cv<T>::type, E> cs(s);
    CHECK(cs.size() == n && cs.data() == s.data(), std::string(what) + "-to-const", "");
    span<T> ds(s);
    CHECK(ds.size() == n && ds.data() == s.data(), std::string(what) + "-to-dynamic", "");
    span<T, E> copy(s), asg(s);
    asg = copy;
    CHECK(asg.size() == n && asg.data() == s.data(), std::string(what) + "-copy", "");
    c.eval(8 + n);
}

template <typename T, std::size_t E>
static void subs(Case& c, span<T, E> s, const typename std::remove_cv<T>::type* p, std::size_t n)
{
    Rng& r = c.rng;
    for (int i = 0; i != 4; ++i)
    {
        std::size_t k = r.below(n + 1);
        exact(c, s.first(k), p, k, "first");
        exact(c, s.last(k), p + (n - k), k, "last");
        exact(c, s.subspan(k), p + k, n - k, "subspan1");
        std::size_t l = r.below(n - k + 1);
        exact(c, s.subspan(k, l), p + k, l, "subspan2");
        // chained
        std::size_t m = r.below(l + 1);
        exact(c, s.subspan(k, l).last(m).first(m / 2), p + k + l - m, m / 2, "chain");
    }
    exact(c, s.template first<0>(), p, 0, "first0");
    exact(c, s.template last<0>(), p + n, 0, "last0");
    if (n >= 3)
    {
        exact(c, s.template first<3>(), p, 3, "first3");
        exact(c, s.template last<3>(), p + n - 3, 3, "last3");
        exact(c, s.template last<1>(), p + n - 1, 1, "last1");
        exact(c, s.template subspan<2>(), p + 2, n - 2, "subspan<2>");
        exact(c, s.template subspan<1, 2>(), p + 1, 2, "subspan<1,2>");
        exact(c, s.template subspan<3, 0>(), p + 3, 0, "subspan<3,0>");
        exact(c, s.template subspan<0>(), p, n, "subspan<0>");
        exact(c, s.template first<3>().template subspan<1>(), p + 1, 2, "fixed-subspan<1>");
        exact(c, s.template first<3>().subspan(1), p + 1, 2, "fixed-subspan");
        CHECK(&gul14::get<0>(s) == p && &gul14::get<2>(s) == p + 2, "get", "");
    }
    // writing through the span changes the element and only it
}

template <typename T>
static void run(Case& c)
{
    Rng& r = c.rng;
    std::size_t n = r.below(20);
    T* buf = new T[n];
    for (std::size_t i = 0; i != n; ++i) buf[i] = make<T>(r);
    exact(c, span<T>(buf, n), buf, n, "ptr-count");
    exact(c, span<T>(buf, buf + n), buf, n, "ptr-ptr");
    exact(c, span<const T>(buf, n), buf, n, "const-ptr-count");
    subs(c, span<T>(buf, n), buf, n);
    subs(c, span<const T>(buf, n), buf, n);
    if (n >= 5)
    {
        exact(c, span<T, 5>(buf, 5), buf, 5, "fixed-ptr-count");
        exact(c, span<T, 5>(buf, buf + 5), buf, 5, "fixed-ptr-ptr");
        subs(c, span<T, 5>(buf, 5), buf, 5);
        span<T, 5> f(buf, 5);
        exact(c, f.template subspan<4>(), buf + 4, 1, "fixed-subspan<4>");
        exact(c, f.template subspan<5>(), buf + 5, 0, "fixed-subspan<5>");
        static_assert(decltype(f.template subspan<4>())::extent == 1, "");
        static_assert(decltype(f.template subspan<1, 2>())::extent == 2, "");
        static_assert(decltype(f.template first<2>())::extent == 2, "");
        auto bytes = gul14::as_bytes(f);
        static_assert(decltype(bytes)::extent == 5 * sizeof(T), "");
        CHECK(bytes.size() == 5 * sizeof(T), "fixed-as-bytes", bytes.size());
    }
    {
        std::vector<T> v(buf, buf + n);
        exact(c, span<T>(v), v.data(), n, "vector");
        const std::vector<T>& cv = v;
        exact(c, span<const T>(cv), v.data(), n, "const-vector");
        exact(c, span<const T>(v), v.data(), n, "vector-to-const");
        gul14::SmallVector<T, 4> sv(buf, buf + n);
        exact(c, span<T>(sv), sv.data(), n, "SmallVector");
        // no copy: writing through the span changes exactly this element
        if (n)
        {
            std::size_t k = r.below(n);
            T x = make<T>(r);
            std::vector<T> before = v;
            span<T> sp{v};
            sp[k] = x;
            before[k] = x;
            CHECK(std::memcmp(before.data(), v.data(), n * sizeof(T)) == 0, "write-through", k);
            auto wb = gul14::as_writable_bytes(span<T>(v).subspan(k, 1));
            CHECK(wb.size() == sizeof(T), "writable-bytes-size", wb.size());
            std::size_t bi = r.below(sizeof(T));
            wb[bi] = static_cast<unsigned char>(wb[bi] ^ 0x5a);
            reinterpret_cast<unsigned char*>(before.data() + k)[bi] ^= 0x5a;
            CHECK(std::memcmp(before.data(), v.data(), n * sizeof(T)) == 0, "write-bytes", k);
        }
    }
    {
        T arr[7];
        std::array<T, 7> sa;
        for (int i = 0; i != 7; ++i) arr[i] = sa[static_cast<std::size_t>(i)] = make<T>(r);
        const std::array<T, 7>& csa = sa;
        exact(c, span<T>(arr), arr, 7, "array");
        exact(c, span<T, 7>(arr), arr, 7, "array-fixed");
        exact(c, span<T>(sa), sa.data(), 7, "std-array");
        exact(c, span<T, 7>(sa), sa.data(), 7, "std-array-fixed");
        exact(c, span<const T>(csa), sa.data(), 7, "const-std-array");
        exact(c, span<const T, 7>(csa), sa.data(), 7, "const-std-array-fixed");
        subs(c, span<T, 7>(arr), arr, 7);
    }
    {
        span<T> e;
        CHECK(e.size() == 0 && e.data() == nullptr && e.begin() == e.end(), "default", "");
        span<T, 0> e0;
        CHECK(e0.size() == 0 && e0.data() == nullptr, "default0", "");
    }
    c.distinct(hash_bytes(buf, n * sizeof(T)));
    delete[] buf;
}

GROUP("bytes", 1500, 30000) { run<unsigned char>(c); }
GROUP("ints", 1500, 30000) { run<int>(c); }
GROUP("int64", 1500, 30000) { run<std::int64_t>(c); }
GROUP("structs", 1500, 30000) { run<Big>(c); }
GROUP("doubles", 1500, 30000) { run<double>(c); }

GROUP("comparisons", 60000, 800000)
{
    Rng& r = c.rng;
    std::vector<int> a, b;
    std::size_t n = r.below(6), m = r.below(6);
    for (std::size_t i = 0; i != n; ++i) a.push_back(static_cast<int>(r.below(3)) - 1);
    for (std::size_t i = 0; i != m; ++i) b.push_back(static_cast<int>(r.below(3)) - 1);
    if (r.chance(1, 3)) { b = a; if (r.chance(1, 2) && !b.empty()) b.pop_back(); else if (r.chance(1, 3) && !b.empty()) b.back()++; }
    a.shrink_to_fit();
    b.shrink_to_fit();
    span<int> x(a);
    span<const int> y(b);
    CHECK((x == y) == (a == b) && (y == x) == (a == b), "eq", n << " " << m);
    CHECK((x != y) == (a != b), "ne", "");
    CHECK((x < y) == (a < b) && (y < x) == (b < a), "lt", "");
    CHECK((x > y) == (a > b), "gt", "");
    CHECK((x <= y) == (a <= b) && (y <= x) == (b <= a), "le", "");
    CHECK((x >= y) == (a >= b), "ge", "");
    if (a.size() >= 2)
    {
        span<int, 2> f(a.data(), 2);
        std::vector<int> fa(a.begin(), a.begin() + 2);
        CHECK((f == y) == (fa == b) && (f < y) == (fa < b) && (y < f) == (b < fa) && (f <= y) == (fa <= b), "fixed", "");
    }
    // elements of different type
    std::vector<unsigned char> u;
    for (int i : a) u.push_back(static_cast<unsigned char>(i + 1));
    std::vector<int> ui(u.begin(), u.end());
    span<unsigned char> z(u);
    CHECK((z == y) == (ui == b) && (z < y) == (ui < b) && (y < z) == (b < ui), "mixed", "");
    c.eval(12);
    c.distinct(hash_bytes(a.data(), a.size() * 4, hash_bytes(b.data(), b.size() * 4)));
}
// Long ranges
GROUP("large", 12, 100)
{
    Rng& r = c.rng;
    const std::size_t sizes[] = { 255, 256, 257, 65535, 65536, 65537, 100000, 131073, 300000 };
    std::size_t n = sizes[c.idx % 9] + r.below(3);
    std::vector<unsigned short> v(n);
    for (std::size_t i = 0; i != n; ++i) v[i] = static_cast<unsigned short>(i * 7 + i / 65536);
    span<unsigned short> s(v);
    exact(c, s, v.data(), n, "large");
    for (int i = 0; i != 3; ++i)
    {
        std::size_t k = r.below(n + 1), l = r.below(n - k + 1);
        exact(c, s.first(k), v.data(), k, "large-first");
        exact(c, s.last(k), v.data() + (n - k), k, "large-last");
        exact(c, s.subspan(k, l), v.data() + k, l, "large-subspan");
    }
    auto w = v;
    span<unsigned short> t(w);
    std::size_t at = r.chance(1, 2) ? n - 1 - r.below(3) : r.below(n);
    CHECK(s == t && !(s != t) && !(s < t) && !(s > t) && s <= t && s >= t, "large-equal", n);
    w[at] = static_cast<unsigned short>(w[at] + 1);
    const bool less = v[at] < w[at];
    CHECK(!(s == t) && s != t && (s < t) == less && (s > t) == !less && (s <= t) == less && (s >= t) == !less, "large-differ", n << " differs at " << at);
    w = v;
    span<unsigned short> u(w.data(), n - 1 - r.below(200));
    CHECK(!(s == u) && s != u && u < s && s > u && u <= s && s >= u && !(s < u) && !(u > s), "large-prefix", n << " and " << u.size());
    unsigned char* raw = reinterpret_cast<unsigned char*>(w.data());
    auto wb = gul14::as_writable_bytes(t);
    CHECK(wb.size() == 2 * n && wb.data() == raw && &wb[2 * n - 1] == raw + 2 * n - 1, "large-writable-bytes", wb.size());
    c.eval(4);
    c.distinct(hash_mix(n, at));
}
