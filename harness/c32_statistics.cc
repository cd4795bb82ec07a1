// C32: statistics functions against definitions evaluated in extended precision
#include "gen.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <deque>
#include <limits>
#include <list>
#include <gul14/SmallVector.h>
#include <gul14/statistics.h>
using namespace vm;

struct Item { int id; double x; float y; };
static double get_x(const Item& i) { return i.x; }

static bool eq(long double a, long double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

template <typename R>
static void near_(Case& c, long double got, long double want, long double tol, const char* key)
{
    if (std::isnan(want)) { CHECK(std::isnan(got), key, "got " << got << " expected NaN"); c.eval(); return; }
    CHECK(std::fabs(got - want) <= tol, key, "got " << static_cast<double>(got) << " expected " << static_cast<double>(want) << " tolerance " << static_cast<double>(tol));
    c.eval();
}

struct Ref { long double mean, rms, median, sigma, maxabs; };
template <typename T>
static Ref reference(const std::vector<T>& v)
{
    Ref r{};
    long double n = static_cast<long double>(v.size()), s = 0, q = 0;
    r.maxabs = 0;
    for (T x : v) { s += x; q += static_cast<long double>(x) * x; r.maxabs = std::max(r.maxabs, std::fabs(static_cast<long double>(x))); }
    r.mean = v.empty() ? NAN : s / n;
    r.rms = v.empty() ? NAN : std::sqrt(q / n);
    if (v.empty()) r.median = NAN;
    else
    {
        std::vector<T> w = v;
        std::sort(w.begin(), w.end());
        r.median = w.size() % 2 ? static_cast<long double>(w[w.size() / 2]) : (static_cast<long double>(w[w.size() / 2 - 1]) + static_cast<long double>(w[w.size() / 2])) / 2;
    }
    if (v.size() < 2) r.sigma = NAN;
    else
    {
        long double d = 0;
        for (T x : v) d += (x - r.mean) * (x - r.mean);
        r.sigma = std::sqrt(d / (n - 1));
    }
    return r;
}

template <typename R, typename T, typename C>
static void all_of(Case& c, const C& cont, const std::vector<T>& v, const char* what)
{
    Ref r = reference(v);
    long double eps = std::numeric_limits<R>::epsilon();
    long double n = static_cast<long double>(v.size());
    long double abs_tol = 8 * (n + 4) * eps * r.maxabs + std::numeric_limits<R>::denorm_min();
    (void)what;
    near_<R>(c, gul14::mean<R>(cont), r.mean, abs_tol, "mean");
    near_<R>(c, gul14::mean<R>(cont.begin(), cont.end()), r.mean, abs_tol, "mean-iterators");
    near_<R>(c, gul14::rms<R>(cont), r.rms, abs_tol, "rms");
    near_<R>(c, gul14::rms<R>(cont.begin(), cont.end()), r.rms, abs_tol, "rms-iterators");
    long double med_tol = 4 * eps * r.maxabs + std::numeric_limits<R>::denorm_min();
    near_<R>(c, gul14::median<R>(cont), r.median, med_tol, "median");
    near_<R>(c, gul14::median<R>(cont.begin(), cont.end()), r.median, med_tol, "median-iterators");
    auto sd = gul14::standard_deviation<R>(cont);
    auto sdi = gul14::standard_deviation<R>(cont.begin(), cont.end());
    near_<R>(c, sd.sigma(), r.sigma, 16 * abs_tol, "sigma");
    near_<R>(c, sd.mean(), r.mean, abs_tol, "sigma-mean");
    near_<R>(c, sdi.sigma(), r.sigma, 16 * abs_tol, "sigma-iterators");
    near_<R>(c, sdi.mean(), r.mean, abs_tol, "sigma-mean-iterators");
    CHECK(eq(static_cast<R>(sd), sd.sigma()), "sigma-conversion", "");
    // extremes
    if (!v.empty())
    {
        T mn = *std::min_element(v.begin(), v.end()), mx = *std::max_element(v.begin(), v.end());
        CHECK(gul14::minimum(cont) == mn && gul14::minimum(cont.begin(), cont.end()) == mn, "minimum", "");
        CHECK(gul14::maximum(cont) == mx && gul14::maximum(cont.begin(), cont.end()) == mx, "maximum", "");
        auto mm = gul14::min_max(cont);
        auto mmi = gul14::min_max(cont.begin(), cont.end());
        CHECK(mm.min == mn && mm.max == mx && mmi.min == mn && mmi.max == mx, "min_max", "");
    }
    else
    {
        const bool fl = std::is_floating_point<T>::value;
        T mn = gul14::minimum(cont), mx = gul14::maximum(cont);
        auto mm = gul14::min_max(cont);
        if (fl) CHECK(mn != mn && mx != mx && mm.min != mm.min && mm.max != mm.max, "empty-extremes", "");
        else CHECK(mn == std::numeric_limits<T>::max() && mx == std::numeric_limits<T>::lowest() && mm.min == std::numeric_limits<T>::max() && mm.max == std::numeric_limits<T>::lowest(), "empty-extremes-int", "");
    }
    // user-defined accumulation: called once per element, in order, starting with a zero
    {
        std::vector<long double> seen;
        bool first = true, zero = true;
        auto op = [&](R a, T b) -> R { if (first) { zero = a == R{}; first = false; } seen.push_back(b); return static_cast<R>(seen.size()); };
        R res = gul14::accumulate<R>(cont, op);
        std::vector<long double> want(v.begin(), v.end());
        CHECK(seen == want && zero && res == static_cast<R>(v.size()), "accumulate", seen.size() << " calls");
        seen.clear();
        first = true;
        R res2 = gul14::accumulate<R>(cont.begin(), cont.end(), op);
        CHECK(seen == want && zero && res2 == res, "accumulate-iterators", seen.size() << " calls");
    }
    c.eval(6);
}

template <typename T>
static std::vector<T> data(Rng& r, std::size_t n)
{
    std::vector<T> v(n);
    unsigned mode = static_cast<unsigned>(r.below(5));
    double off = mode == 3 ? static_cast<double>(r.range(-1000000, 1000000)) : 0;
    for (auto& x : v)
    {
        if (std::is_floating_point<T>::value)
            x = static_cast<T>(mode == 0 ? static_cast<double>(r.range(-3, 3)) : mode == 1 ? (r.unit() - 0.5) * std::pow(10.0, static_cast<double>(r.range(-12, 12)))
                : mode == 3 ? off + r.unit() : (r.unit() - 0.5) * 100);
        else if (sizeof(T) >= 4)
            x = static_cast<T>(mode == 0 ? r.range(0, 5) : mode == 1 ? static_cast<long long>(r.next() >> (33 + r.below(30))) : r.range(std::is_signed<T>::value ? -1000 : 0, 1000));
        else
            x = mode == 0 ? static_cast<T>(r.below(4)) : static_cast<T>(r.next());
    }
    return v;
}

static std::size_t len(Rng& r) { switch (r.below(8)) { case 0: return 0; case 1: return 1; case 2: return 2; case 3: return 3; case 4: return 4; case 5: return r.below(60); default: return r.below(14); } }

template <typename T>
static void run(Case& c)
{
    auto v = data<T>(c.rng, len(c.rng));
    auto copy = v;
    {
        std::ostringstream o;
        for (auto x : v) o << +x << ' ';
        c.desc(o.str().substr(0, 500));
        if (v.size() > 3) c.sample(o.str().substr(0, 200));
    }
    all_of<double>(c, v, v, "vector");
    all_of<long double>(c, v, v, "vector");
    if (c.idx % 4 == 0) all_of<float>(c, v, v, "vector-float");
    std::list<T> li(v.begin(), v.end());
    all_of<double>(c, li, v, "list");
    gul14::SmallVector<T, 4> sm(v.begin(), v.end());
    all_of<double>(c, sm, v, "SmallVector");
    CHECK(v == copy && std::equal(li.begin(), li.end(), copy.begin()), "input-modified", "");
    // default result type
    Ref r = reference(v);
    near_<double>(c, gul14::mean(v), r.mean, 8 * (v.size() + 4) * 2.3e-16L * r.maxabs, "mean-default");
    near_<double>(c, gul14::median(v), r.median, 1e-15L * r.maxabs + 5e-324L, "median-default");
    if (v.size() > 1) c.distinct(hash_bytes(v.data(), v.size() * sizeof(T)));
}
GROUP("double", 3000, 60000) { run<double>(c); }
GROUP("float", 2000, 40000) { run<float>(c); }
GROUP("int", 3000, 60000) { run<int>(c); }
GROUP("uint", 1500, 30000) { run<unsigned>(c); }
GROUP("uchar", 1500, 30000) { run<unsigned char>(c); }
GROUP("schar", 1500, 30000) { run<signed char>(c); }
GROUP("short", 1500, 30000) { run<short>(c); }
GROUP("int64", 1500, 30000) { run<std::int64_t>(c); }

GROUP("median_permutations", 3000, 60000) // any order of the same values
{
    Rng& r = c.rng;
    std::size_t n = 1 + r.below(9);
    std::vector<int> v(n);
    for (auto& x : v) x = static_cast<int>(r.below(n));
    double want = static_cast<double>(reference(v).median);
    for (int k = 0; k != 12; ++k)
    {
        for (std::size_t i = n; i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
        CHECK(gul14::median(v) == want, "median-order", gul14::median(v) << " expected " << want);
        c.eval();
        c.distinct(hash_bytes(v.data(), n * 4));
    }
}

GROUP("nan_handling", 6000, 120000)
{
    Rng& r = c.rng;
    std::size_t n = 1 + r.below(9);
    std::vector<double> v(n), good;
    for (auto& x : v)
    {
        x = r.chance(1, 2) ? NAN : r.chance(1, 8) ? (r.chance(1, 2) ? INFINITY : -INFINITY) : static_cast<double>(r.range(-9, 9));
        if (!std::isnan(x)) good.push_back(x);
    }
    double mn = good.empty() ? NAN : *std::min_element(good.begin(), good.end());
    double mx = good.empty() ? NAN : *std::max_element(good.begin(), good.end());
    auto mm = gul14::min_max(v);
    CHECK(eq(gul14::minimum(v), mn) && eq(gul14::maximum(v), mx), "nan-min-max", gul14::minimum(v) << " " << gul14::maximum(v) << " expected " << mn << " " << mx);
    CHECK(eq(mm.min, mn) && eq(mm.max, mx), "nan-min_max", mm.min << " " << mm.max << " expected " << mn << " " << mx);
    CHECK(eq(gul14::minimum(v.begin(), v.end()), mn) && eq(gul14::maximum(v.begin(), v.end()), mx), "nan-min-max-iterators", "");
    c.eval(3);
    c.distinct(hash_bytes(v.data(), n * 8));
}

GROUP("accessor", 4000, 80000)
{
    Rng& r = c.rng;
    auto v = data<double>(r, len(r));
    std::vector<Item> items;
    std::list<Item> litems;
    int id = 0;
    for (double x : v) { items.push_back({ id++, x, static_cast<float>(x) }); litems.push_back(items.back()); }
    auto acc = [](const Item& i) { return i.x; };
    Ref q = reference(v);
    long double tol = 8 * (v.size() + 4) * 2.3e-16L * q.maxabs + 5e-324L;
    near_<double>(c, gul14::mean(items, acc), q.mean, tol, "acc-mean");
    near_<double>(c, gul14::mean(items, get_x), q.mean, tol, "acc-mean-function");
    near_<double>(c, gul14::mean(litems.begin(), litems.end(), acc), q.mean, tol, "acc-mean-iterators");
    near_<double>(c, gul14::rms(items, acc), q.rms, tol, "acc-rms");
    near_<double>(c, gul14::rms(litems.begin(), litems.end(), acc), q.rms, tol, "acc-rms-iterators");
    near_<double>(c, gul14::median(items, acc), q.median, tol, "acc-median");
    near_<double>(c, gul14::median(litems.begin(), litems.end(), acc), q.median, tol, "acc-median-iterators");
    near_<double>(c, gul14::standard_deviation(items, acc).sigma(), q.sigma, 16 * tol, "acc-sigma");
    near_<double>(c, gul14::standard_deviation(litems.begin(), litems.end(), acc).sigma(), q.sigma, 16 * tol, "acc-sigma-iterators");
    double mn = v.empty() ? NAN : *std::min_element(v.begin(), v.end()), mx = v.empty() ? NAN : *std::max_element(v.begin(), v.end());
    CHECK(eq(gul14::minimum(items, acc), mn) && eq(gul14::maximum(items, acc), mx), "acc-extremes", "");
    CHECK(eq(gul14::minimum(litems.begin(), litems.end(), acc), mn) && eq(gul14::maximum(litems.begin(), litems.end(), acc), mx), "acc-extremes-iterators", "");
    auto mm = gul14::min_max(items, acc);
    CHECK(eq(mm.min, mn) && eq(mm.max, mx), "acc-min_max", "");
    double sum = gul14::accumulate<double>(items, [](double a, double b) { return a * 0.5 + b; }, acc), want = 0;
    for (double x : v) want = want * 0.5 + x;
    CHECK(sum == want, "acc-accumulate", sum << " " << want);
    c.eval(6);
    if (v.size() > 1) c.distinct(hash_bytes(v.data(), v.size() * 8));
}

// All results that removing k times an element with the largest distance (ties: any of them) can have
static void outcomes(const std::vector<Item>& v, std::size_t k, std::set<std::vector<int>>& out, long double slack)
{
    if (k == 0 || v.empty())
    {
        std::vector<int> ids;
        for (auto& i : v) ids.push_back(i.id);
        out.insert(ids);
        return;
    }
    if (out.size() > 3000) return;
    long double m = 0, mx = -1, scale = 0;
    for (auto& i : v) { m += i.x; scale = std::max(scale, std::fabs(static_cast<long double>(i.x))); }
    m /= static_cast<long double>(v.size());
    for (auto& i : v) mx = std::max(mx, std::fabs(i.x - m));
    for (std::size_t a = 0; a != v.size(); ++a)
        if (std::fabs(v[a].x - m) >= mx - slack * scale)
        {
            auto w = v;
            w.erase(w.begin() + static_cast<std::ptrdiff_t>(a));
            outcomes(w, k - 1, out, slack);
        }
}

GROUP("outliers", 12000, 200000)
{
    Rng& r = c.rng;
    std::size_t n = r.below(9), k = r.chance(1, 5) ? r.below(12) : r.below(4);
    std::vector<Item> items;
    unsigned mode = static_cast<unsigned>(r.below(3));
    for (std::size_t i = 0; i != n; ++i)
    {
        double x = mode == 0 ? static_cast<double>(r.range(-4, 4)) : mode == 1 ? r.unit() * 10 : std::pow(10.0, r.unit() * 6) * (r.chance(1, 2) ? 1 : -1);
        items.push_back({ static_cast<int>(i), x, 0 });
    }
    std::set<std::vector<int>> ok;
    outcomes(items, k, ok, 1e-13L);
    if (ok.size() > 3000) return;
    auto acc = [](const Item& i) { return i.x; };
    auto ids = [](const std::vector<Item>& w) { std::vector<int> o; for (auto& i : w) o.push_back(i.id); return o; };
    {
        std::ostringstream o;
        o << k << " outliers of ";
        for (auto& i : items) o << i.x << ' ';
        c.desc(o.str());
        if (k && n > k) c.sample(o.str());
    }
    const auto& citems = items;
    auto res = gul14::remove_outliers(citems, k, acc);
    CHECK(ok.count(ids(res)) == 1, "outliers-copy", res.size() << " left");
    CHECK(items.size() == n, "outliers-modified-input", "");
    auto res2 = gul14::remove_outliers(items.begin(), items.end(), k, acc);
    CHECK(ok.count(ids(res2)) == 1, "outliers-iterators", res2.size() << " left");
    auto tmp = items;
    auto& ref = gul14::remove_outliers(std::move(tmp), k, acc);
    CHECK(&ref == &tmp && ok.count(ids(tmp)) == 1, "outliers-in-place", tmp.size() << " left");
    // plain numbers, without accessor
    std::vector<double> plain;
    for (auto& i : items) plain.push_back(i.x);
    const auto& cplain = plain;
    auto p = gul14::remove_outliers(cplain, k);
    bool found = false;
    for (auto& o : ok)
    {
        std::vector<double> w;
        for (int id : o) w.push_back(items[static_cast<std::size_t>(id)].x);
        if (w == p) { found = true; break; }
    }
    CHECK(found, "outliers-plain", p.size() << " left");
    c.eval(4);
    if (k && n > k) c.distinct(hash_bytes(plain.data(), plain.size() * 8, k));
}

// Sizes around the limits of 8- and 16-bit counters, and beyond
GROUP("large", 24, 150)
{
    Rng& r = c.rng;
    const std::size_t sizes[] = { 255, 256, 257, 1000, 4096, 32767, 32768, 65535, 65536, 65537, 100003, 131072 };
    std::size_t n = sizes[c.idx % 12] + (r.chance(1, 3) ? r.below(3) : 0);
    c.desc("n = " + std::to_string(n));
    auto d = data<double>(r, n);
    all_of<double>(c, d, d, "large");
    auto i = data<int>(r, n);
    all_of<double>(c, i, i, "large-int");
    auto u = data<unsigned char>(r, n);
    all_of<double>(c, u, u, "large-uchar");
    auto s = data<short>(r, n);
    std::deque<short> dq(s.begin(), s.end());
    all_of<double>(c, dq, s, "large-short");
    // outliers that stand out clearly, at any positions
    std::vector<double> x(n);
    for (auto& e : x) e = r.unit();
    std::size_t k = 1 + r.below(4);
    std::set<std::size_t> where;
    while (where.size() < k) where.insert(r.chance(1, 3) ? n - 1 - r.below(3) : r.below(n));
    double big = 1e6;
    for (auto p : where) { x[p] = r.chance(1, 2) ? big : -big; big *= 20; }
    std::vector<double> want;
    for (std::size_t p = 0; p != n; ++p) if (!where.count(p)) want.push_back(x[p]);
    const auto& cx = x;
    CHECK(gul14::remove_outliers(cx, k) == want, "large-outliers", n << " elements, " << k << " outliers");
    CHECK(gul14::remove_outliers(x.begin(), x.end(), k) == want, "large-outliers-iterators", n << " elements, " << k << " outliers");
    gul14::remove_outliers(std::move(x), k);
    CHECK(x == want, "large-outliers-in-place", n << " elements, " << k << " outliers");
    c.eval(3);
    c.distinct(hash_bytes(d.data(), n * 8));
}
