// C12: contents of SmallVector against a model
#include "smallvec.h"
using namespace vm;
using A = Elem<1, Copy::throwing, Move::nothrow>;  // copyable, movable
using B = Elem<2, Copy::throwing, Move::throwing>; // moves may throw: copied on growth
using C_ = Elem<3, Copy::throwing, Move::none>;    // copy-only
using D = Elem<4, Copy::no, Move::nothrow>;        // move-only
using F = Elem<5, Copy::no, Move::throwing>;       // move-only, moves may throw

namespace vm {
template <> struct Ev<std::string> { static std::string make(int k) { return std::to_string(k) + std::string((std::size_t)(k % 4 * 7), '.'); } static int get(const std::string& s) { return s.empty() ? 0 : std::atoi(s.c_str()); } static int dflt() { return 0; }
    static bool identity(const std::string&, std::uint64_t&, unsigned&) { return false; } static const bool copyable = true, strong = true, noexcept_copy = false, tracked = false; };
template <> struct Ev<unsigned char> { static unsigned char make(int k) { return (unsigned char)(k & 127); } static int get(unsigned char s) { return s; } static int dflt() { return 0; }
    static bool identity(unsigned char, std::uint64_t&, unsigned&) { return false; } static const bool copyable = true, strong = true, noexcept_copy = true, tracked = false; };
}
// A type with an initializer list constructor from itself, deleted operator& and deleted class-specific allocation
struct Nasty
{
    int value = 0; int depth = 0;
    Nasty() = default;
    explicit Nasty(int k) : value(k) {}
    Nasty(std::initializer_list<Nasty> l) : value(l.size() ? l.begin()->value : 0), depth(l.size() ? l.begin()->depth + 1 : 1) {}
    Nasty(const Nasty&) = default; Nasty(Nasty&&) noexcept = default; Nasty& operator=(const Nasty&) = default; Nasty& operator=(Nasty&&) noexcept = default;
    friend bool operator==(const Nasty& a, const Nasty& b) { return a.value == b.value && a.depth == b.depth; }
};
namespace vm {
template <> struct Ev<Nasty> { static Nasty make(int k) { return Nasty(k); } static int get(const Nasty& s) { return s.value + 1000000 * s.depth; } static int dflt() { return 0; }
    static bool identity(const Nasty&, std::uint64_t&, unsigned&) { return false; } static const bool copyable = true, strong = true, noexcept_copy = true, tracked = false; };
}
template <typename T, std::size_t N> void go(Case& c, const char* tn) { SvRun<T, N> r(c, Mode::contents, tn); r.run(10 + (int)c.rng.below(c.thorough() ? 60 : 30)); }

#if !defined(PART) || PART == 1
GROUP("copyable", 700, 20000) { go<A, 1>(c, "copy+move"); go<A, 3>(c, "copy+move"); go<A, 8>(c, "copy+move"); go<A, 0>(c, "copy+move"); }
#endif
#if !defined(PART) || PART == 2
GROUP("throwing-move", 700, 20000) { go<B, 2>(c, "copy+throwing move"); go<B, 5>(c, "copy+throwing move"); }
#endif
#if !defined(PART) || PART == 3
GROUP("copy-only", 700, 20000) { go<C_, 2>(c, "copy-only"); go<C_, 4>(c, "copy-only"); }
#endif
#if !defined(PART) || PART == 4
GROUP("move-only", 700, 20000) { go<D, 1>(c, "move-only"); go<D, 4>(c, "move-only"); go<F, 3>(c, "throwing-move-only"); }
#endif
#if !defined(PART) || PART == 5
GROUP("string", 700, 20000) { go<std::string, 1>(c, "string"); go<std::string, 4>(c, "string"); go<Nasty, 3>(c, "initializer_list constructor"); }
#endif
// Ranges of other types, comparisons with the standard vector
#if !defined(PART) || PART == 6
GROUP("conversions", 2000, 20000)
{
    Rng& r = c.rng;
    std::vector<int> src; std::size_t n = r.below(12); for (std::size_t i = 0; i < n; ++i) src.push_back((int)r.range(-1000000, 1000000));
    std::vector<double> dsrc; for (int x : src) dsrc.push_back(x + 0.75);
    std::list<short> ssrc; for (int x : src) ssrc.push_back((short)x);
    auto same = [&](const auto& a, const auto& b, const char* what) { CHECK(std::equal(a.begin(), a.end(), b.begin(), b.end()), "conversion", what); c.eval(); };
    { gul14::SmallVector<long, 4> v(src.begin(), src.end()); std::vector<long> m(src.begin(), src.end()); same(v, m, "int to long");
      std::size_t p = r.below(n + 1); v.insert(v.cbegin() + p, ssrc.begin(), ssrc.end()); m.insert(m.begin() + (std::ptrdiff_t)p, ssrc.begin(), ssrc.end()); same(v, m, "short to long");
      v.assign(ssrc.begin(), ssrc.end()); m.assign(ssrc.begin(), ssrc.end()); same(v, m, "assign short to long"); }
    { gul14::SmallVector<int, 4> v(dsrc.begin(), dsrc.end()); std::vector<int> m(dsrc.begin(), dsrc.end()); same(v, m, "double to int"); }
    { std::vector<std::string> w; for (int x : src) w.push_back(std::to_string(x)); std::vector<const char*> p; for (auto& s : w) p.push_back(s.c_str());
      gul14::SmallVector<std::string, 3> v(p.begin(), p.end()); std::vector<std::string> m(p.begin(), p.end()); same(v, m, "const char* to string");
      std::istringstream is("3 4 5 6 7"), is2("3 4 5 6 7"); gul14::SmallVector<int, 2> q((std::istream_iterator<int>(is)), std::istream_iterator<int>()); std::vector<int> qm((std::istream_iterator<int>(is2)), std::istream_iterator<int>()); same(q, qm, "istream"); }
    { std::vector<int> small; for (int x : src) small.push_back(x & 7); gul14::SmallVector<std::vector<int>, 2> v(small.begin(), small.end()); std::vector<std::vector<int>> m(small.begin(), small.end()); same(v, m, "explicit constructor"); }
    { gul14::SmallVector<std::vector<std::string>, 2> v{ { "a", "b" }, {}, { "c" } }; auto w = v; CHECK(w == v, "copy of nested vectors", ""); }
    { gul14::SmallVector<bool, 2> v; std::vector<char> m; for (int x : src) { v.push_back((x & 1) != 0); m.push_back((x & 1) != 0); } same(v, m, "bool"); }
    { gul14::SmallVector<unsigned char, 4> v(3u, (unsigned char)200); gul14::SmallVector<int, 4> i(3, 7); gul14::SmallVector<int, 4> il{ 3, 7 }; CHECK(v.size() == 3 && v[2] == 200 && i.size() == 3 && i[0] == 7 && il.size() == 2 && il[0] == 3 && il[1] == 7, "count-vs-list", ""); i.assign(2, 9); CHECK(i.size() == 2 && i[1] == 9, "assign-count", ""); i.insert(i.cbegin(), 2, 4); CHECK(i.size() == 4 && i[1] == 4 && i[2] == 9, "insert-count", ""); }
    c.distinct(hash_bytes(src.data(), src.size() * sizeof(int)));
}
// Long vectors: sizes beyond 8- and 16-bit counters
template <typename T, std::size_t N, typename Mk> static void large_(Case& c, Mk mk)
{
    Rng& r = c.rng;
    using V = gul14::SmallVector<T, N>;
    const std::size_t sizes[] = { 200, 255, 256, 300, 32767, 32768, 65535, 65536, 65537, 70000, 131073 };
    auto some = [&]() { std::size_t s = r.pick(sizes); return s + r.below(4); };
    V v; std::vector<T> m; std::string hist;
    auto same = [&](const char* what) {
        CHECK(v.size() == m.size() && v.capacity() >= v.size() && std::equal(v.begin(), v.end(), m.begin(), m.end()), "large", what << " (size " << v.size() << ", expected " << m.size() << "): " << hist);
        if (!m.empty()) { std::size_t i = r.below(m.size()); CHECK(v[i] == m[i] && v.at(i) == m[i] && v.front() == m.front() && v.back() == m.back() && *v.rbegin() == m.back() && v.data()[i] == m[i], "large-access", what << " " << i); }
        c.eval();
    };
    auto same_q = same;
    for (int step = 0; step != 10; ++step)
    {
        std::size_t n = some(), p = r.below(m.size() + 1);
        if (m.size() > 400000) { v.clear(); m.clear(); p = 0; }
        unsigned op = (unsigned)r.below(12);
        hist += std::to_string(op) + "(" + std::to_string(n) + "," + std::to_string(p) + ") ";
        switch (op)
        {
            case 0: for (std::size_t i = 0; i != n; ++i) { v.push_back(mk(i)); m.push_back(mk(i)); } same_q("push_back"); break;
            case 1: for (std::size_t i = 0; i != n; ++i) { v.emplace_back(mk(i * 3)); m.emplace_back(mk(i * 3)); } same_q("emplace_back"); break;
            case 2: { auto it = v.insert(v.cbegin() + p, n, mk(7)); CHECK((std::size_t)(it - v.begin()) == p, "large-position", "insert"); m.insert(m.begin() + (std::ptrdiff_t)p, n, mk(7)); same_q("insert count"); break; }
            case 3: { std::vector<T> s; for (std::size_t i = 0; i != n; ++i) s.push_back(mk(i ^ 5)); auto it = v.insert(v.cbegin() + p, s.begin(), s.end()); CHECK((std::size_t)(it - v.begin()) == p, "large-position", "insert range"); m.insert(m.begin() + (std::ptrdiff_t)p, s.begin(), s.end()); same_q("insert range"); break; }
            case 4: v.insert(v.cbegin() + p, mk(n)); m.insert(m.begin() + (std::ptrdiff_t)p, mk(n)); same_q("insert"); break;
            case 5: { std::size_t q = p + r.below(m.size() - p + 1); auto it = v.erase(v.cbegin() + p, v.cbegin() + q); CHECK((std::size_t)(it - v.begin()) == p, "large-position", "erase"); m.erase(m.begin() + (std::ptrdiff_t)p, m.begin() + (std::ptrdiff_t)q); same_q("erase range"); break; }
            case 6: if (p < m.size()) { v.erase(v.cbegin() + p); m.erase(m.begin() + (std::ptrdiff_t)p); same_q("erase"); } break;
            case 7: v.resize(n); m.resize(n); same_q("resize"); break;
            case 8: v.resize(n, mk(9)); m.resize(n, mk(9)); same_q("resize value"); break;
            case 9: v.assign(n, mk(4)); m.assign(n, mk(4)); same_q("assign"); break;
            case 10: { v.reserve(n); CHECK(v.capacity() >= n, "large-reserve", n); same_q("reserve"); if (r.chance(1, 2)) { v.shrink_to_fit(); same_q("shrink_to_fit"); } break; }
            default: { V w(v); same_q("copied from"); V x(std::move(v)); CHECK(w == x && x.size() == m.size(), "large-copy", hist); v = r.chance(1, 2) ? std::move(w) : V(x.begin(), x.end()); same_q("moved to"); swap(v, x); same_q("swap"); break; }
        }
    }
    c.distinct(hash_str(hist, N));
}
GROUP("large", 24, 60)
{
    switch (c.idx % 4)
    {
        case 0: large_<int, 4>(c, [](std::size_t k) { return (int)(k * 7 + 1); }); break;
        case 1: large_<unsigned char, 300>(c, [](std::size_t k) { return (unsigned char)(k * 7 + k / 256); }); break;
        case 2: large_<std::string, 2>(c, [](std::size_t k) { return std::string(1 + k % 3, (char)('a' + k % 26)); }); break;
        default: large_<unsigned short, 65600>(c, [](std::size_t k) { return (unsigned short)(k * 7 + k / 256); }); break;
    }
}
#endif
