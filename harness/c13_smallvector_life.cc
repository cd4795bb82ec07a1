// C13: lifetimes of the elements of SmallVector with exceptions injected everywhere
#include "smallvec.h"
using namespace vm;
using A = Elem<1, Copy::throwing, Move::nothrow>;
using B = Elem<2, Copy::throwing, Move::throwing>;
using C_ = Elem<3, Copy::throwing, Move::none>;
using D = Elem<4, Copy::no, Move::nothrow>;
using F = Elem<5, Copy::no, Move::throwing>;
using H = Elem<6, Copy::nothrow, Move::nothrow>;
template <typename T, std::size_t N> void go(Case& c, const char* tn) { SvRun<T, N> r(c, Mode::faults, tn); r.run(6 + (int)c.rng.below(c.thorough() ? 60 : 30)); }
#if !defined(PART) || PART == 1
GROUP("copyable", 3000, 40000) { go<A, 1>(c, "copy+move"); go<A, 3>(c, "copy+move"); go<A, 6>(c, "copy+move"); go<A, 0>(c, "copy+move"); }
#endif
#if !defined(PART) || PART == 2
GROUP("throwing-move", 3000, 40000) { go<B, 1>(c, "copy+throwing move"); go<B, 2>(c, "copy+throwing move"); go<B, 5>(c, "copy+throwing move"); }
#endif
#if !defined(PART) || PART == 3
GROUP("copy-only", 3000, 40000) { go<C_, 2>(c, "copy-only"); go<C_, 4>(c, "copy-only"); }
#endif
#if !defined(PART) || PART == 4
GROUP("move-only", 3000, 40000) { go<D, 1>(c, "move-only"); go<D, 4>(c, "move-only"); go<F, 3>(c, "throwing-move-only"); go<F, 6>(c, "throwing-move-only"); }
#endif
#if !defined(PART) || PART == 5
GROUP("nothrow", 1500, 20000) { go<H, 2>(c, "nothrow copy"); go<H, 5>(c, "nothrow copy"); }
#endif
#if !defined(PART) || PART == 6
// Element with a throwing copy constructor but noexcept copy assignment
struct Half
{
    int v; static int countdown;
    explicit Half(int x) : v(x) { LifeBase::born(this); }
    Half(const Half& o) : v(o.v) { if (countdown >= 0 && countdown-- == 0) throw 7; LifeBase::born(this); }
    Half& operator=(const Half& o) noexcept { v = o.v; return *this; }
    ~Half() { LifeBase::dies(this); }
};
int Half::countdown = -1;
GROUP("noexcept-assign", 500, 5000)
{
    Rng& r = c.rng;
    {
        gul14::SmallVector<Half, 3> a, b;
        int na = (int)r.below(7), nb = (int)r.below(7);
        for (int i = 0; i < na; ++i) a.emplace_back(i);
        for (int i = 0; i < nb; ++i) b.emplace_back(100 + i);
        int thrown = 0;
        Half::countdown = (int)r.below(8);
        try { a = b; } catch (int) { ++thrown; }
        try { gul14::SmallVector<Half, 3> d(b); } catch (int) { ++thrown; }
        Half::countdown = -1;
        CHECK(b.size() == (unsigned)nb, "source", "");
        for (auto& e : a) CHECK(life().live.count(&e), "element-dead", "");
        CHECK(life().live.size() == a.size() + b.size(), "alive", life().live.size() << " vs. " << a.size() + b.size());
        if (thrown) c.count("exceptions"); else c.count("no exception");
        c.eval(); c.distinct(hash_mix(na * 100 + nb, thrown));
    }
    CHECK(life().live.empty(), "leak", "");
}
#endif
