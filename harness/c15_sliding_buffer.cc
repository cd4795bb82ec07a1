// C15: SlidingBuffer against a bounded deque
#include "sliding.h"
using namespace vm;

struct Iteration
{
    Case& c;
    template <typename Buf> void operator()(Buf& b, const std::deque<int>& m, std::size_t, const std::string& ops) const
    {
        using T = typename Buf::value_type;
        const Buf& cb = b;
        auto ids = [](auto from, auto to, std::size_t limit) { std::vector<int> v; for (; from != to && v.size() <= limit; ++from) v.push_back(El<T>::id(*from)); return v; };
        const std::vector<int> fw(m.begin(), m.end()), bw(m.rbegin(), m.rend());
        const std::size_t n = m.size();
        CHECK(ids(b.begin(), b.end(), n) == fw, "iterate", ops);
        CHECK(ids(cb.begin(), cb.end(), n) == fw, "iterate-const", ops);
        CHECK(ids(b.cbegin(), b.cend(), n) == fw, "iterate-c", ops);
        CHECK(ids(b.rbegin(), b.rend(), n) == bw, "iterate-reverse", ops);
        CHECK(ids(b.crbegin(), b.crend(), n) == bw, "iterate-creverse", ops);
        auto bg = b.begin(), en = b.end();
        CHECK(en - bg == (std::ptrdiff_t)n && bg + (std::ptrdiff_t)n == en && en - (std::ptrdiff_t)n == bg && (std::ptrdiff_t)n + bg == en, "iterator-distance", ops);
        auto cbg = cb.begin();
        CHECK(cb.end() - cbg == (std::ptrdiff_t)n, "const-iterator-distance", ops);
        if (n)
        {
            std::size_t i = c.rng.below(n), j = c.rng.below(n);
            auto it = bg; it += (std::ptrdiff_t)i;
            auto jt = en; jt -= (std::ptrdiff_t)(n - j);
            CHECK(&*it == &b[i] && &*jt == &b[j] && &bg[(std::ptrdiff_t)i] == &b[i] && it.operator->() == &b[i], "iterator-access", ops << " i " << i << " j " << j);
            CHECK(jt - it == (std::ptrdiff_t)j - (std::ptrdiff_t)i, "iterator-difference", ops);
            CHECK((it == jt) == (i == j) && (it != jt) == (i != j) && (it < jt) == (i < j) && (it > jt) == (i > j) && (it <= jt) == (i <= j) && (it >= jt) == (i >= j), "iterator-compare", ops);
            auto p = it++; CHECK(&*p == &b[i] && it - p == 1, "iterator-postinc", ops);
            auto q = it--; CHECK(q - it == 1 && &*it == &b[i], "iterator-postdec", ops);
            ++it; --it; CHECK(&*it == &b[i], "iterator-incdec", ops);
            CHECK(&*(cbg + (std::ptrdiff_t)i) == &b[i] && (cbg + (std::ptrdiff_t)i).operator->() == &b[i], "const-iterator-access", ops);
        }
        c.eval(6);
        c.count("states", 1);
    }
};
template <typename Buf, bool Resizable, bool CanClear = true> void run(Case& c, std::size_t cap, const char* tn)
{
    Buf* b = nullptr;
    if (Resizable) { if (cap == 0) b = new Buf(); else b = make<Buf>(cap, std::integral_constant<bool, Resizable>()); }
    else b = new Buf();
    sliding_history<Buf, Resizable, CanClear>(c, b, cap, tn, Iteration{ c });
}
GROUP("resizable", 1500, 40000)
{
    std::size_t cap = c.rng.chance(1, 8) ? 0 : 1 + c.rng.below(8);
    run<gul14::SlidingBuffer<int>, true>(c, cap, "vector<int>");
    run<gul14::SlidingBuffer<std::string>, true>(c, cap, "vector<string>");
    run<gul14::SlidingBuffer<Tracked>, true>(c, cap, "vector<Tracked>");
    run<gul14::SlidingBuffer<MoveOnly>, true, false>(c, cap, "vector<MoveOnly>");
    run<gul14::SlidingBuffer<int, 0, std::deque<int>>, true>(c, cap, "deque<int>");
}
GROUP("fixed", 1500, 40000)
{
    run<gul14::SlidingBuffer<int, 1>, false>(c, 1, "array<int,1>");
    run<gul14::SlidingBuffer<int, 2>, false>(c, 2, "array<int,2>");
    run<gul14::SlidingBuffer<std::string, 3>, false>(c, 3, "array<string,3>");
    run<gul14::SlidingBuffer<Tracked, 5>, false>(c, 5, "array<Tracked,5>");
    run<gul14::SlidingBuffer<MoveOnly, 4>, false, false>(c, 4, "array<MoveOnly,4>");
    run<gul14::SlidingBuffer<int, 17>, false>(c, 17, "array<int,17>");
}
// Every (capacity, position in the ring, fill level) combined with every operation
GROUP("states", 8, 13)
{
    const std::size_t cap = c.idx + 1;
    for (std::size_t pos = 0; pos < cap; ++pos)
        for (std::size_t fill = 0; fill <= cap; ++fill)
            for (int op = 0; op < 9; ++op)
                for (std::size_t arg = 0; arg <= (op >= 5 ? cap + 2 : 0); ++arg)
                {
                    gul14::SlidingBuffer<Tracked> b(cap);
                    std::deque<int> m;
                    std::size_t ncap = cap;
                    for (std::size_t i = 0; i < pos; ++i) { b.push_back(Tracked(-5)); b.pop_front(); }
                    for (std::size_t i = 0; i < fill; ++i) { b.push_back(Tracked((int)i)); m.push_back((int)i); }
                    std::string ops = "cap " + std::to_string(cap) + " pos " + std::to_string(pos) + " fill " + std::to_string(fill) + " op " + std::to_string(op) + "/" + std::to_string(arg);
                    auto shrink = [&](std::size_t n, bool kb) { while (m.size() > n) { if (kb) m.pop_front(); else m.pop_back(); } ncap = n; };
                    switch (op)
                    {
                    case 0: b.push_back(Tracked(100)); if (m.size() == cap) m.pop_front(); m.push_back(100); break;
                    case 1: b.push_front(Tracked(100)); if (m.size() == cap) m.pop_back(); m.push_front(100); break;
                    case 2: if (fill) { b.pop_back(); m.pop_back(); } break;
                    case 3: if (fill) { b.pop_front(); m.pop_front(); } break;
                    case 4: b.clear(); m.clear(); break;
                    case 5: b.resize(arg, gul14::ShrinkBehavior::keep_front_elements); shrink(arg, false); break;
                    case 6: b.resize(arg, gul14::ShrinkBehavior::keep_back_elements); shrink(arg, true); break;
                    case 7: b.reserve(arg, gul14::ShrinkBehavior::keep_front_elements); shrink(arg, false); break;
                    default: b.reserve(arg, gul14::ShrinkBehavior::keep_back_elements); shrink(arg, true); break;
                    }
                    Iteration it{ c };
                    compare(c, b, m, ncap, ops); it(b, m, ncap, ops);
                    if (ncap) // and it still works afterwards
                        for (std::size_t i = 0; i < ncap + 1; ++i)
                        {
                            bool back = (i + op + pos) % 3 != 0;
                            if (back) { b.push_back(Tracked((int)i + 200)); if (m.size() == ncap) m.pop_front(); m.push_back((int)i + 200); }
                            else { b.push_front(Tracked((int)i + 200)); if (m.size() == ncap) m.pop_back(); m.push_front((int)i + 200); }
                            compare(c, b, m, ncap, ops + " +" + std::to_string(i));
                        }
                    c.distinct(hash_str(ops)); c.count("enumerated states x operations");
                }
}
// Algorithms through the iterators
GROUP("algorithms", 600, 10000)
{
    Rng& r = c.rng;
    std::size_t cap = 1 + r.below(20);
    gul14::SlidingBuffer<int> b(cap);
    std::deque<int> m;
    std::size_t n = r.below(3 * cap);
    for (std::size_t i = 0; i < n; ++i) { int k = (int)r.below(50); if (r.chance(3, 4)) { b.push_back(k); if (m.size() == cap) m.pop_front(); m.push_back(k); } else { b.push_front(k); if (m.size() == cap) m.pop_back(); m.push_front(k); } }
    std::reverse(b.begin(), b.end()); std::reverse(m.begin(), m.end()); compare(c, b, m, cap, "reverse");
    std::sort(b.begin(), b.end()); std::sort(m.begin(), m.end()); compare(c, b, m, cap, "sort");
    std::size_t k = m.empty() ? 0 : r.below(m.size());
    std::rotate(b.begin(), b.begin() + (std::ptrdiff_t)k, b.end()); std::rotate(m.begin(), m.begin() + (std::ptrdiff_t)k, m.end()); compare(c, b, m, cap, "rotate");
    c.distinct(hash_mix(cap, n));
}
// What the stream output of a buffer consists of
template <typename Buf, typename Elem> static void dump_one(Case& c, Buf& b, const std::deque<Elem>& m, const char* what)
{
    const Buf& cb = b; std::ostringstream got, want; const std::string before = [&] { std::ostringstream o; for (std::size_t i = 0; i < m.size(); ++i) o << b[i] << ','; return o.str(); }();
    if (c.rng.chance(1, 3)) { got << std::hex << std::showbase; want << std::hex << std::showbase; }
    got << "<" << cb << ">"; want << "<"; for (const auto& e : m) want << e << "  "; want << '\n' << ">";
    CHECK(got.str() == want.str(), "dump", what << ": got " << show(got.str()) << ", expected " << show(want.str()));
    std::ostringstream o; for (std::size_t i = 0; i < m.size(); ++i) o << b[i] << ','; CHECK(o.str() == before && b.size() == m.size(), "dump-changed", what); c.eval(2);
}
template <template <typename, std::size_t, typename> class B> static void dumps(Case& c)
{
    Rng& r = c.rng; const std::size_t cap = 1 + r.below(9); B<int, 0, std::vector<int>> a(cap); B<std::string, 0, std::vector<std::string>> s(cap); B<int, 3, std::array<int, 3>> f; std::deque<int> ma, mf; std::deque<std::string> ms;
    auto push = [](auto& b, auto& m, std::size_t n, auto e, bool back) { if (back) { b.push_back(e); m.push_back(e); if (m.size() > n) m.pop_front(); } else { b.push_front(e); m.push_front(e); if (m.size() > n) m.pop_back(); } };
    auto all = [&] { dump_one(c, a, ma, "int"); dump_one(c, s, ms, "string"); dump_one(c, f, mf, "fixed"); };
    all();
    for (std::size_t i = 0, n = r.below(25); i != n; ++i)
    {
        bool back = r.chance(2, 3); push(a, ma, cap, (int)r.range(-99, 99), back); push(s, ms, cap, rand_string(r), back); push(f, mf, 3, (int)r.range(0, 1000), back);
        if (r.chance(1, 4)) { a.pop_front(); ma.pop_front(); s.pop_back(); ms.pop_back(); }
        all();
    }
    c.distinct(hash_mix(cap, ma.size())); if (c.want_sample()) { std::ostringstream o; o << s; c.sample(show(o.str())); }
}
GROUP("dump", 300, 6000) { dumps<gul14::SlidingBuffer>(c); }
// Capacities beyond 8- and 16-bit counters
GROUP("large", 16, 120)
{
    Rng& r = c.rng;
    const std::size_t caps[] = { 255, 256, 257, 300, 32768, 65535, 65536, 65537, 70000, 131075 };
    std::size_t cap = caps[c.idx % 10];
    gul14::SlidingBuffer<int> b(cap);
    std::deque<int> m;
    std::string ops = "cap " + std::to_string(cap);
    int k = 0;
    auto pb = [&](std::size_t n) { for (std::size_t i = 0; i != n; ++i) { b.push_back(++k); if (m.size() == cap) m.pop_front(); m.push_back(k); } ops += " pb" + std::to_string(n); };
    auto pf = [&](std::size_t n) { for (std::size_t i = 0; i != n; ++i) { b.push_front(++k); if (m.size() == cap) m.pop_back(); m.push_front(k); } ops += " pf" + std::to_string(n); };
    auto pop = [&](std::size_t n, bool back) { n = std::min(n, m.size()); for (std::size_t i = 0; i != n; ++i) { if (back) { b.pop_back(); m.pop_back(); } else { b.pop_front(); m.pop_front(); } } ops += " pop" + std::to_string(n) + (back ? "b" : "f"); };
    auto rs = [&](std::size_t n, bool kb) { b.resize(n, kb ? gul14::ShrinkBehavior::keep_back_elements : gul14::ShrinkBehavior::keep_front_elements); while (m.size() > n) { if (kb) m.pop_front(); else m.pop_back(); } cap = n; ops += " resize" + std::to_string(n) + (kb ? "b" : "f"); };
    for (int step = 0; step != 8; ++step)
    {
        switch (r.below(7))
        {
        case 0: pb(r.below(2 * cap)); break;
        case 1: pf(r.below(2 * cap)); break;
        case 2: pb(cap + r.below(5)); break;
        case 3: pop(r.below(cap), r.chance(1, 2)); break;
        case 4: rs(r.pick(caps), r.chance(1, 2)); break;
        case 5: rs(cap + 1 - r.below(3), r.chance(1, 2)); break;
        default: { auto copy = b; b = std::move(copy); ops += " copy"; break; }
        }
        // all elements, without the bookkeeping of the small histories
        CHECK(b.size() == m.size() && b.capacity() == cap && b.filled() == (m.size() == cap) && b.empty() == m.empty(), "large-size", ops << ": " << b.size() << "/" << b.capacity() << " expected " << m.size());
        std::size_t bad = 0;
        for (std::size_t i = 0; i != m.size(); ++i) bad += b[i] != m[i];
        CHECK(bad == 0, "large-content", ops << ": " << bad << " elements differ");
        if (!m.empty()) CHECK(b.front() == m.front() && b.back() == m.back() && b.at(m.size() - 1) == m.back(), "large-ends", ops);
        int thrown = 0;
        try { (void)b.at(m.size()); } catch (const std::out_of_range&) { ++thrown; }
        CHECK(thrown == 1, "large-at", ops);
        CHECK(b.end() - b.begin() == (std::ptrdiff_t)m.size() && std::equal(b.begin(), b.end(), m.begin(), m.end()) && std::equal(b.crbegin(), b.crend(), m.rbegin(), m.rend()), "large-iterate", ops);
        c.eval(3 + m.size());
    }
    c.distinct(hash_str(ops));
}
