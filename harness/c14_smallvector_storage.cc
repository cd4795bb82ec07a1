// C14: storage of SmallVector: addresses, capacities, allocations
#include "smallvec.h"
using namespace vm;
using A = Elem<1, Copy::nothrow, Move::nothrow>;
using B = Elem<2, Copy::throwing, Move::throwing>;
using C_ = Elem<3, Copy::nothrow, Move::none>;
using D = Elem<4, Copy::no, Move::nothrow>;
template <typename T, std::size_t N> void go(Case& c, const char* tn) { SvRun<T, N> r(c, Mode::storage, tn); r.run(10 + (int)c.rng.below(c.thorough() ? 60 : 30)); }
#if !defined(PART) || PART == 1
GROUP("copyable", 3000, 40000) { go<A, 1>(c, "copy+move"); go<A, 3>(c, "copy+move"); go<A, 8>(c, "copy+move"); go<A, 13>(c, "copy+move"); }
#endif
#if !defined(PART) || PART == 2
GROUP("throwing-move", 3000, 40000) { go<B, 2>(c, "copy+throwing move"); go<B, 5>(c, "copy+throwing move"); }
#endif
#if !defined(PART) || PART == 3
GROUP("copy-only", 3000, 40000) { go<C_, 2>(c, "copy-only"); go<C_, 9>(c, "copy-only"); }
#endif
#if !defined(PART) || PART == 4
GROUP("move-only", 3000, 40000) { go<D, 1>(c, "move-only"); go<D, 6>(c, "move-only"); }
#endif

template <typename T, std::size_t N> void aligned(Case& c, const char* tn, bool heap)
{
    using V = gul14::SmallVector<T, N>;
    char* mem = static_cast<char*>(std::malloc(sizeof(V) + 256));
    char* p = reinterpret_cast<char*>((reinterpret_cast<std::uintptr_t>(mem) + 255) & ~std::uintptr_t(255)) - 0;
    std::size_t off = alignof(V) * c.rng.below(128 / alignof(V) + 1);
    if (p + off + sizeof(V) > mem + sizeof(V) + 256) off = 0;
    V* v = ::new (p + off) V();
    for (std::size_t i = 0; i < (heap ? 3 * N : N); ++i)
    {
        v->emplace_back();
        for (auto& e : *v) CHECK(reinterpret_cast<std::uintptr_t>(&e) % alignof(T) == 0, "alignment", tn << " element misaligned");
        CHECK(&v->back() - v->data() == (std::ptrdiff_t)i, "contiguous", tn);
        if (i < N) { auto d = reinterpret_cast<char*>(v->data()); CHECK(d >= reinterpret_cast<char*>(v) && d + N * sizeof(T) <= reinterpret_cast<char*>(v) + sizeof(V), "inside", tn << ": inline elements outside of the object"); }
    }
    v->~V(); std::free(mem);
    c.eval();
}
struct alignas(16) A16 { char x[16]; }; struct alignas(64) A64 { char x[3]; }; struct S3 { char x[3]; };
#if !defined(PART) || PART == 5
GROUP("alignment", 200, 2000)
{
    aligned<char, 5>(c, "char", true); aligned<short, 3>(c, "short", true); aligned<double, 3>(c, "double", true); aligned<long double, 2>(c, "long double", true);
    aligned<A16, 3>(c, "align16", true); aligned<A64, 2>(c, "align64 (inline only)", false); aligned<S3, 5>(c, "3 bytes", true); aligned<std::string, 2>(c, "string", true);
    c.distinct(c.idx);
}
#endif
// Cost of appending: number of element constructions and allocations
template <typename T, std::size_t N> void amortized(Case& c, const char* tn)
{
    gul14::SmallVector<T, N> v;
    const std::uint64_t n = 200 + c.rng.below(c.thorough() ? 20000 : 3000);
    auto c0 = life().constructed; alloc_mon().allocations = 0;
    for (std::uint64_t i = 0; i < n; ++i) { life().paused = true; T t((int)i); alloc_mon().armed = c.idx % 2 == 0; v.push_back(std::move(t)); alloc_mon().armed = false; }
    life().paused = false;
    // 2 per append are due to the harness and to the element itself
    auto made = life().constructed - c0;
    CHECK(made <= 12 * n + 64, "amortized-moves", tn << ": " << made << " constructions for " << n << " appends");
    double lg = 0; for (double x = (double)n; x > 1; x /= 1.2) ++lg;
    auto& l = life(); auto& am = alloc_mon();
    // the lifetime monitor itself allocates nothing while armed (bookkeeping is paused)
    if (c.idx % 2 == 0) CHECK(am.allocations <= (std::uint64_t)lg + 16, "amortized-allocations", tn << ": " << am.allocations << " allocations for " << n << " appends");
    (void)l;
    c.eval(); c.count("appends", n); c.count("constructions while appending", made);
}
#if !defined(PART) || PART == 6
GROUP("amortized", 40, 400)
{
    amortized<A, 1>(c, "copy+move"); amortized<A, 10>(c, "copy+move"); amortized<C_, 4>(c, "copy-only"); amortized<D, 2>(c, "move-only");
    c.distinct(c.idx);
}
#endif
