// C16: SlidingBufferExposed: same content, and traversal of the storage
#include "sliding.h"
using namespace vm;

struct Traversal
{
    Case& c;
    template <typename Buf> void operator()(Buf& b, const std::deque<int>& m, std::size_t cap, const std::string& ops) const
    {
        using T = typename Buf::value_type;
        const Buf& cb = b;
        std::map<const T*, std::size_t> valid;
        bool wraps = false;
        for (std::size_t i = 0; i < m.size(); ++i)
        {
            valid[&b[i]] = i;
            if (i && &b[i] != &b[i - 1] + 1) wraps = true;
        }
        CHECK(valid.size() == m.size(), "overlap", ops << ": elements share a slot");
        auto walk = [&](auto from, auto to, const char* what, bool forward) {
            std::vector<const T*> seen;
            auto dist = to - from;
            CHECK(dist >= 0 && (std::size_t)dist <= cap, "range", ops << " " << what << ": " << dist << " elements");
            for (; from != to; ++from)
            {
                const T& ref = *from;
                (void)El<T>::id(ref); // reads the element: inside of the storage according to ASan
                seen.push_back(&ref);
            }
            std::size_t n = 0;
            for (auto p : seen) n += valid.count(p);
            CHECK(n == m.size(), "visits", ops << " " << what << ": " << n << " visits to " << m.size() << " valid elements");
            auto s = seen; std::sort(s.begin(), s.end());
            CHECK(std::unique(s.begin(), s.end()) == s.end(), "duplicates", ops << " " << what);
            if (!forward) std::reverse(seen.begin(), seen.end());
            CHECK(std::is_sorted(seen.begin(), seen.end()), "storage-order", ops << " " << what);
            if (!wraps) CHECK(seen.size() == m.size(), "unused-slots", ops << " " << what << ": " << seen.size() << " visited, " << m.size() << " valid");
            else c.count("traversals while wrapped around");
            CHECK(seen.empty() == m.empty(), "empty", ops << " " << what);
            c.eval(); c.count("elements visited", seen.size());
            if (seen.size() > m.size()) c.count("unused slots visited while wrapped", seen.size() - m.size());
        };
        walk(b.begin(), b.end(), "begin/end", true);
        walk(cb.begin(), cb.end(), "const begin/end", true);
        walk(b.cbegin(), b.cend(), "cbegin/cend", true);
        walk(b.rbegin(), b.rend(), "rbegin/rend", false);
        walk(b.crbegin(), b.crend(), "crbegin/crend", false);
    }
};
template <typename Buf, bool Resizable, bool CanClear = true> void run(Case& c, std::size_t cap, const char* tn)
{
    Buf* b = cap == 0 ? new Buf() : make<Buf>(cap, std::integral_constant<bool, Resizable>());
    sliding_history<Buf, Resizable, CanClear>(c, b, cap, tn, Traversal{ c });
}
GROUP("resizable", 1500, 40000)
{
    std::size_t cap = c.rng.chance(1, 8) ? 0 : 1 + c.rng.below(8);
    run<gul14::SlidingBufferExposed<int>, true>(c, cap, "vector<int>");
    run<gul14::SlidingBufferExposed<std::string>, true>(c, cap, "vector<string>");
    run<gul14::SlidingBufferExposed<Tracked>, true>(c, cap, "vector<Tracked>");
    run<gul14::SlidingBufferExposed<MoveOnly>, true, false>(c, cap, "vector<MoveOnly>");
}
GROUP("fixed", 1500, 40000)
{
    run<gul14::SlidingBufferExposed<int, 1>, false>(c, 1, "array<int,1>");
    run<gul14::SlidingBufferExposed<int, 2>, false>(c, 2, "array<int,2>");
    run<gul14::SlidingBufferExposed<std::string, 3>, false>(c, 3, "array<string,3>");
    run<gul14::SlidingBufferExposed<Tracked, 5>, false>(c, 5, "array<Tracked,5>");
    run<gul14::SlidingBufferExposed<MoveOnly, 4>, false, false>(c, 4, "array<MoveOnly,4>");
    run<gul14::SlidingBufferExposed<int, 17>, false>(c, 17, "array<int,17>");
}
// Every (capacity, position in the ring, fill level) combined with every resize
GROUP("states", 8, 13)
{
    const std::size_t cap = c.idx + 1;
    for (std::size_t pos = 0; pos < cap; ++pos)
        for (std::size_t fill = 0; fill <= cap; ++fill)
            for (int op = 0; op < 7; ++op)
                for (std::size_t arg = 0; arg <= (op < 3 ? cap + 3 : 0); ++arg)
                {
                    gul14::SlidingBufferExposed<Tracked> b(cap);
                    std::deque<int> m;
                    std::size_t ncap = cap;
                    for (std::size_t i = 0; i < pos; ++i) { b.push_back(Tracked(-5)); b.pop_front(); }
                    for (std::size_t i = 0; i < fill; ++i) { b.push_back(Tracked((int)i)); m.push_back((int)i); }
                    std::string ops = "cap " + std::to_string(cap) + " pos " + std::to_string(pos) + " fill " + std::to_string(fill) + " op " + std::to_string(op) + "/" + std::to_string(arg);
                    auto shrink = [&](std::size_t n, bool kb) { while (m.size() > n) { if (kb) m.pop_front(); else m.pop_back(); } ncap = n; };
                    switch (op)
                    {
                    case 0: b.resize(arg, gul14::ShrinkBehavior::keep_front_elements); shrink(arg, false); break;
                    case 1: b.resize(arg, gul14::ShrinkBehavior::keep_back_elements); shrink(arg, true); break;
                    case 2: b.reserve(arg); shrink(arg, false); break;
                    case 3: b.clear(); m.clear(); break;
                    case 4: if (fill) { b.pop_front(); m.pop_front(); } break;
                    case 5: if (fill) { b.pop_back(); m.pop_back(); } break;
                    default: b.push_front(Tracked(100)); if (m.size() == cap) m.pop_back(); m.push_front(100); break;
                    }
                    Traversal t{ c };
                    compare(c, b, m, ncap, ops); t(b, m, ncap, ops);
                    if (ncap)
                        for (std::size_t i = 0; i < ncap + 1; ++i)
                        {
                            bool back = (i + op + pos) % 3 != 0;
                            if (back) { b.push_back(Tracked((int)i + 200)); if (m.size() == ncap) m.pop_front(); m.push_back((int)i + 200); }
                            else { b.push_front(Tracked((int)i + 200)); if (m.size() == ncap) m.pop_back(); m.push_front((int)i + 200); }
                            compare(c, b, m, ncap, ops + " +" + std::to_string(i)); t(b, m, ncap, ops);
                        }
                    c.distinct(hash_str(ops)); c.count("enumerated states x operations");
                }
}
// What the stream output of a buffer consists of
template <typename Buf, typename Elem> static void dump_one(Case& c, Buf& b, const std::deque<Elem>& m, const char* what)
{
    const Buf& cb = b; std::ostringstream got, want; const std::string before = [&] { std::ostringstream o; for (std::size_t i = 0; i < m.size(); ++i) o << b[i] << ','; return o.str(); }();
    if (c.rng.chance(1, 3)) { got << std::hex << std::showbase; want << std::hex << std::showbase; }
    got << "<" << cb << ">"; want << "<"; for (const auto& e : m) want << e << "  "; want << '\n' << ">";
    CHECK(got.str() == want.str(), "dump", what << ": got " << show(got.str()) << ", expected " << show(want.str()));
    std::ostringstream o; for (std::size_t i = 0; i < m.size(); ++i) o << b[i] << ','; CHECK(o.str() == before && b.size() == m.size(), "dump-changed", what); c.eval(2);
}
template <template <typename, std::size_t, typename> class B> static void dumps(Case& c)
{
    Rng& r = c.rng; const std::size_t cap = 1 + r.below(9); B<int, 0, std::vector<int>> a(cap); B<std::string, 0, std::vector<std::string>> s(cap); B<int, 3, std::array<int, 3>> f; std::deque<int> ma, mf; std::deque<std::string> ms;
    auto push = [](auto& b, auto& m, std::size_t n, auto e, bool back) { if (back) { b.push_back(e); m.push_back(e); if (m.size() > n) m.pop_front(); } else { b.push_front(e); m.push_front(e); if (m.size() > n) m.pop_back(); } };
    auto all = [&] { dump_one(c, a, ma, "int"); dump_one(c, s, ms, "string"); dump_one(c, f, mf, "fixed"); };
    all();
    for (std::size_t i = 0, n = r.below(25); i != n; ++i)
    {
        bool back = r.chance(2, 3); push(a, ma, cap, (int)r.range(-99, 99), back); push(s, ms, cap, rand_string(r), back); push(f, mf, 3, (int)r.range(0, 1000), back);
        if (r.chance(1, 4)) { a.pop_front(); ma.pop_front(); s.pop_back(); ms.pop_back(); }
        all();
    }
    c.distinct(hash_mix(cap, ma.size())); if (c.want_sample()) { std::ostringstream o; o << s; c.sample(show(o.str())); }
}
GROUP("dump", 300, 6000) { dumps<gul14::SlidingBufferExposed>(c); }
// Capacities beyond 8- and 16-bit counters
GROUP("large", 16, 120)
{
    Rng& r = c.rng;
    const std::size_t caps[] = { 255, 256, 257, 300, 32768, 65535, 65536, 65537, 70000, 131075 };
    std::size_t cap = caps[c.idx % 10];
    gul14::SlidingBufferExposed<int> b(cap);
    std::deque<int> m;
    std::string ops = "cap " + std::to_string(cap);
    int k = 0;
    auto pb = [&](std::size_t n) { for (std::size_t i = 0; i != n; ++i) { b.push_back(++k); if (m.size() == cap) m.pop_front(); m.push_back(k); } ops += " pb" + std::to_string(n); };
    auto pf = [&](std::size_t n) { for (std::size_t i = 0; i != n; ++i) { b.push_front(++k); if (m.size() == cap) m.pop_back(); m.push_front(k); } ops += " pf" + std::to_string(n); };
    auto pop = [&](std::size_t n, bool back) { n = std::min(n, m.size()); for (std::size_t i = 0; i != n; ++i) { if (back) { b.pop_back(); m.pop_back(); } else { b.pop_front(); m.pop_front(); } } ops += " pop" + std::to_string(n) + (back ? "b" : "f"); };
    auto rs = [&](std::size_t n, bool kb) { b.resize(n, kb ? gul14::ShrinkBehavior::keep_back_elements : gul14::ShrinkBehavior::keep_front_elements); while (m.size() > n) { if (kb) m.pop_front(); else m.pop_back(); } cap = n; ops += " resize" + std::to_string(n) + (kb ? "b" : "f"); };
    for (int step = 0; step != 8; ++step)
    {
        switch (r.below(7))
        {
        case 0: pb(r.below(2 * cap)); break;
        case 1: pf(r.below(2 * cap)); break;
        case 2: pb(cap + r.below(5)); break;
        case 3: pop(r.below(cap), r.chance(1, 2)); break;
        case 4: rs(r.pick(caps), r.chance(1, 2)); break;
        case 5: rs(cap + 1 - r.below(3), r.chance(1, 2)); break;
        default: { auto copy = b; b = std::move(copy); ops += " copy"; break; }
        }
        // all elements, without the bookkeeping of the small histories
        CHECK(b.size() == m.size() && b.capacity() == cap && b.filled() == (m.size() == cap) && b.empty() == m.empty(), "large-size", ops << ": " << b.size() << "/" << b.capacity() << " expected " << m.size());
        std::size_t bad = 0;
        for (std::size_t i = 0; i != m.size(); ++i) bad += b[i] != m[i];
        CHECK(bad == 0, "large-content", ops << ": " << bad << " elements differ");
        if (!m.empty()) CHECK(b.front() == m.front() && b.back() == m.back() && b.at(m.size() - 1) == m.back(), "large-ends", ops);
        int thrown = 0;
        try { (void)b.at(m.size()); } catch (const std::out_of_range&) { ++thrown; }
        CHECK(thrown == 1, "large-at", ops);
        std::set<int> left(m.begin(), m.end());
        std::size_t visits = 0;
        const int* prev = nullptr;
        bool wraps = false;
        for (std::size_t i = 1; i < m.size(); ++i) wraps = wraps || &b[i] != &b[i - 1] + 1;
        std::set<const int*> valid;
        for (std::size_t i = 0; i < m.size(); ++i) valid.insert(valid.end(), &b[i]);
        CHECK(valid.size() == m.size(), "large-overlap", ops);
        for (auto it = b.begin(); it != b.end(); ++it)
        {
            const int* p = &*it;
            CHECK(!prev || p > prev, "large-storage-order", ops);
            prev = p;
            ++visits;
            if (valid.erase(p)) left.erase(*p);
        }
        CHECK(valid.empty() && left.empty() && visits <= cap && (wraps || visits == m.size()), "large-visits", ops << ": " << visits << " visits, " << valid.size() << " not visited");
        visits = 0; prev = nullptr;
        for (auto it = b.crbegin(); it != b.crend(); ++it) { const int* p = &*it; CHECK(!prev || p < prev, "large-reverse-order", ops); prev = p; ++visits; }
        CHECK(visits <= cap && visits >= m.size() && (wraps || visits == m.size()), "large-reverse-visits", ops << ": " << visits);
        c.eval(3 + m.size());
    }
    c.distinct(hash_str(ops));
}
