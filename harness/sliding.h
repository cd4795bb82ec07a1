// Common parts of the SlidingBuffer monitors: a bounded deque as the model
#pragma once
#include "gen.h"
#include <algorithm>
#include <deque>
#include <iterator>
#include <stdexcept>
#include <gul14/SlidingBuffer.h>

namespace vm {

template <typename T> struct El; // creation and identification of elements
template <> struct El<int> { static int make(int k) { return k; } static int id(int v) { return v; } static const bool copyable = true; };
template <> struct El<std::string> { static std::string make(int k) { return "element number " + std::to_string(k) + std::string(k % 3 * 9, '.'); }
    static int id(const std::string& s) { return s.empty() ? -1 : std::atoi(s.c_str() + 15); } static const bool copyable = true; };
struct MoveOnly { std::unique_ptr<int> p; MoveOnly() = default; explicit MoveOnly(int k) : p(new int(k)) {} };
template <> struct El<MoveOnly> { static MoveOnly make(int k) { return MoveOnly(k); } static int id(const MoveOnly& m) { return m.p ? *m.p : -1; } static const bool copyable = false; };
// A type whose move leaves the source detectably empty
struct Tracked { int k = -1; bool moved = false; Tracked() = default; explicit Tracked(int i) : k(i) {}
    Tracked(const Tracked& o) : k(o.k), moved(o.moved) {} Tracked& operator=(const Tracked& o) { k = o.k; moved = o.moved; return *this; }
    Tracked(Tracked&& o) noexcept : k(o.k), moved(o.moved) { o.k = -77; o.moved = true; }
    Tracked& operator=(Tracked&& o) noexcept { if (this != &o) { k = o.k; moved = o.moved; o.k = -77; o.moved = true; } return *this; } };
template <> struct El<Tracked> { static Tracked make(int k) { return Tracked(k); } static int id(const Tracked& m) { return m.k; } static const bool copyable = true; };

template <typename Buf> Buf* make(std::size_t cap, std::true_type) { return new Buf(cap); }
template <typename Buf> Buf* make(std::size_t, std::false_type) { return new Buf(); }

// All accessors and queries against the model
template <typename Buf>
void compare(Case& c, Buf& b, const std::deque<int>& m, std::size_t cap, const std::string& ops)
{
    using T = typename Buf::value_type;
    const Buf& cb = b;
    auto id = [](const T& v) { return El<T>::id(v); };
    CHECK(cb.size() == m.size(), "size", ops << ": " << cb.size() << " expected " << m.size());
    CHECK(cb.capacity() == cap, "capacity", ops << ": " << cb.capacity() << " expected " << cap);
    CHECK(cb.empty() == m.empty(), "empty", ops);
    CHECK(cb.filled() == (m.size() == cap && cap > 0), "filled", ops << " filled " << cb.filled() << " size " << m.size() << " capacity " << cap);
    for (std::size_t i = 0; i < m.size(); ++i)
    {
        CHECK(id(b[i]) == m[i] && id(cb[i]) == m[i], "index", ops << ": [" << i << "] = " << id(b[i]) << " expected " << m[i]);
        CHECK(&b.at(i) == &b[i] && &cb.at(i) == &b[i] && &cb[i] == &b[i], "at", ops << ": at(" << i << ")");
    }
    if (!m.empty())
    {
        CHECK(id(b.front()) == m.front() && &b.front() == &b[0] && &cb.front() == &b[0], "front", ops << ": " << id(b.front()) << " expected " << m.front());
        CHECK(id(b.back()) == m.back() && &b.back() == &b[m.size() - 1] && &cb.back() == &b[m.size() - 1], "back", ops << ": " << id(b.back()) << " expected " << m.back());
    }
    const std::size_t bad[] = { m.size(), m.size() + 1, cap, cap + 1, 2 * cap, static_cast<std::size_t>(-1), static_cast<std::size_t>(-1) - m.size() };
    if (c.rng.chance(1, 6))
    {
        std::size_t i = bad[c.rng.below(7)];
        if (i < m.size()) i = m.size();
        int thrown = 0;
        try { (void)b.at(i); } catch (const std::out_of_range&) { ++thrown; }
        try { (void)cb.at(i); } catch (const std::out_of_range&) { ++thrown; }
        CHECK(thrown == 2, "at-out-of-range", ops << ": at(" << i << ") with size " << m.size() << " did not throw");
    }
    c.eval(4 + 2 * m.size());
}

template <typename Buf> void sliding_push(Buf& b, int k, bool back, bool, std::false_type)
{
    using T = typename Buf::value_type;
    if (back) b.push_back(El<T>::make(k)); else b.push_front(El<T>::make(k));
}
template <typename Buf> void sliding_push(Buf& b, int k, bool back, bool lv, std::true_type)
{
    using T = typename Buf::value_type;
    if (lv) { const T v = El<T>::make(k); if (back) b.push_back(v); else b.push_front(v); }
    else sliding_push(b, k, back, false, std::false_type());
}
template <typename Buf> bool sliding_push_own(Buf& b, std::size_t j, bool back, std::true_type)
{
    const auto& v = b[j];
    if (back) b.push_back(v); else b.push_front(v);
    return true;
}
template <typename Buf> bool sliding_push_own(Buf&, std::size_t, bool, std::false_type) { return false; }
template <typename Buf> bool sliding_clear(Buf& b, std::true_type) { b.clear(); return true; }
template <typename Buf> bool sliding_clear(Buf&, std::false_type) { return false; }
template <typename Buf> void sliding_replace(std::unique_ptr<Buf>& b, unsigned how, std::true_type)
{
    using T = typename Buf::value_type;
    std::unique_ptr<Buf> n;
    switch (how)
    {
    case 0: n.reset(new Buf(*b)); break;
    case 1: n.reset(new Buf(std::move(*b))); break;
    case 2: n.reset(new Buf(*b)); if (b->capacity()) n->push_back(El<T>::make(999999)); *n = *b; break;
    default: n.reset(new Buf(*b)); if (b->capacity()) n->push_front(El<T>::make(999999)); *n = std::move(*b); break;
    }
    // An independent copy is not affected by what happens to the original
    if ((how == 0 || how == 2) && b->capacity()) { b->push_back(El<T>::make(888888)); b->push_front(El<T>::make(777777)); }
    b = std::move(n);
}
template <typename Buf> void sliding_replace(std::unique_ptr<Buf>& b, unsigned, std::false_type)
{
    std::unique_ptr<Buf> n(new Buf(std::move(*b)));
    b = std::move(n);
}
template <typename Buf> void sliding_resize(Case& c, Buf& b, std::deque<int>& m, std::size_t& cap, std::string& ops, std::true_type)
{
    Rng& r = c.rng;
    std::size_t n = r.chance(1, 3) ? r.below(12) : r.chance(1, 2) ? cap + r.below(4) : cap - r.below(std::min<std::size_t>(cap, 3) + 1);
    if (n == 0 && r.chance(2, 3)) n = 1;
    bool kb = r.chance(1, 2), dflt = !kb && r.chance(1, 2), res = r.chance(1, 4);
    auto how = kb ? gul14::ShrinkBehavior::keep_back_elements : gul14::ShrinkBehavior::keep_front_elements;
    ops += std::string(res ? " reserve" : " resize") + std::to_string(n) + (kb ? "b" : "f");
    if (res) { if (dflt) b.reserve(n); else b.reserve(n, how); } else { if (dflt) b.resize(n); else b.resize(n, how); }
    while (m.size() > n) { if (kb) m.pop_front(); else m.pop_back(); }
    c.count(n > cap ? "resize up" : n < cap ? (kb ? "resize down, keep back" : "resize down, keep front") : "resize same");
    cap = n;
}
template <typename Buf> void sliding_resize(Case&, Buf&, std::deque<int>&, std::size_t&, std::string&, std::false_type) {}

// Runs a random history; 'extra' is called after each operation with the buffer and the model
template <typename Buf, bool Resizable, bool CanClear, typename Extra>
void sliding_history(Case& c, Buf* first, std::size_t cap, const char* tn, Extra extra)
{
    using T = typename Buf::value_type;
    Rng& r = c.rng;
    std::unique_ptr<Buf> b(first);
    std::deque<int> m;
    int next = 1;
    std::string ops = std::string(tn) + " cap " + std::to_string(cap) + ":";
    const int n = 4 + (int)r.below(c.thorough() ? 60 : 36);
    const unsigned push_bias = (unsigned)r.below(3);
    auto check = [&] { compare(c, *b, m, cap, ops); extra(*b, m, cap, ops); };
    check();
    for (int i = 0; i < n; ++i)
    {
        unsigned op = (unsigned)r.below(20);
        if (op >= 18 && push_bias) op = push_bias == 1 ? 0 : 2;
        if (op < 8 && cap > 0)
        {
            bool back = (op & 2) == 0, lv = (op & 1) != 0;
            int k = next++;
            ops += back ? " pb" : " pf";
            if (back) { if (m.size() == cap) m.pop_front(); } else if (m.size() == cap) m.pop_back();
            sliding_push(*b, k, back, lv, std::integral_constant<bool, El<T>::copyable>());
            if (back) m.push_back(k); else m.push_front(k);
            c.count(back ? "push_back" : "push_front");
        }
        else if (op < 10 && !m.empty()) { ops += " ob"; b->pop_back(); m.pop_back(); c.count("pop_back"); }
        else if (op < 12 && !m.empty()) { ops += " of"; b->pop_front(); m.pop_front(); c.count("pop_front"); }
        else if (op == 12 && !m.empty())
        {
            std::size_t j = r.below(m.size()); int k = next++;
            ops += " set" + std::to_string(j);
            if (r.chance(1, 2)) (*b)[j] = El<T>::make(k); else if (r.chance(1, 2)) b->at(j) = El<T>::make(k); else if (r.chance(1, 2)) { j = 0; b->front() = El<T>::make(k); } else { j = m.size() - 1; b->back() = El<T>::make(k); }
            m[j] = k;
        }
        else if (op == 13 && r.chance(1, 3)) { if (sliding_clear(*b, std::integral_constant<bool, CanClear>())) { ops += " clear"; m.clear(); c.count("clear"); } }
        else if (op == 14 && !m.empty())
        {   // pushing an element of the buffer itself
            std::size_t j = r.below(m.size()); int k = m[j]; bool back = r.chance(1, 2);
            if (sliding_push_own(*b, j, back, std::integral_constant<bool, El<T>::copyable>()))
            {
                ops += (back ? " pb[" : " pf[") + std::to_string(j) + "]";
                if (back) { if (m.size() == cap) m.pop_front(); m.push_back(k); } else { if (m.size() == cap) m.pop_back(); m.push_front(k); }
                c.count("push own element");
            }
        }
        else if (op == 15 && r.chance(1, 2))
        {   // copy / move / assign the whole buffer
            unsigned how = (unsigned)r.below(4);
            sliding_replace(b, how, std::integral_constant<bool, El<T>::copyable>());
            ops += " copy" + std::to_string(how);
        }
        else if (op == 16 || op == 17)
            sliding_resize(c, *b, m, cap, ops, std::integral_constant<bool, Resizable>());
        check();
    }
    c.distinct(hash_str(ops));
    c.sample(ops);
}

} // namespace vm
