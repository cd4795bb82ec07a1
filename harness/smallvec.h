// Random histories of SmallVector operations with a model of the contents. Three monitors:
// contents (C12), lifetimes and injected exceptions (C13), storage and allocations (C14).
#pragma once
#include "gen.h"
#include "lifetime.h"
#include <algorithm>
#include <iterator>
#include <list>
#include <stdexcept>
#include <gul14/SmallVector.h>

namespace vm {

template <typename T> struct Ev // creation and value of elements
{
    static T make(int k) { return T(k); }
    static int get(const T& t) { return t.value; }
    static int dflt() { return 0; }
    static bool identity(const T& t, std::uint64_t& s, unsigned& g) { s = t.serial; g = t.gen; return true; }
    static const bool copyable = T::copyable, strong = T::strong, noexcept_copy = std::is_nothrow_copy_constructible<T>::value, tracked = true;
};

// A single-pass iterator that notices if it is used for more than one pass
template <typename T, typename Ref>
struct OnePass
{
    using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T*; using reference = Ref;
    std::vector<T>* src = nullptr; std::shared_ptr<std::size_t> shared; std::size_t pos = 0;
    Ref operator*() const { if (pos != *shared) VIOL("multi-pass", "a single-pass iterator was used for several passes"); return static_cast<Ref>((*src)[pos]); }
    OnePass& operator++() { if (pos != *shared) VIOL("multi-pass", "a single-pass iterator was incremented twice"); ++*shared; ++pos; return *this; }
    OnePass operator++(int) { OnePass o = *this; ++*this; return o; }
    bool at_end() const { return !src || pos >= src->size(); }
    friend bool operator==(const OnePass& a, const OnePass& b) { return a.at_end() == b.at_end() && (a.at_end() || a.pos == b.pos); }
    friend bool operator!=(const OnePass& a, const OnePass& b) { return !(a == b); }
};

__attribute__((noinline)) inline std::string nm(const char* n, long a = -1, long b = -1, long c = -1)
{
    std::string s = n;
    for (long x : { a, b, c }) if (x >= 0) s += "_" + std::to_string(x);
    return s + "_";
}

enum class Mode { contents, faults, storage };

struct Meta
{
    bool append = false;      // strong guarantee promised
    long pos = -1;            // first index that is modified (-1: storage may change)
    long reserve = 0;         // capacity requested
    bool copying_vector = false; // declared noexcept for elements with non-throwing copy
    bool no_touch = false;
};

template <typename T, std::size_t N>
struct SvRun
{
    using V = gul14::SmallVector<T, N>;
    using E = Ev<T>;
    enum { K = 3 };
    Case& c; Mode mode; const char* tn;
    std::unique_ptr<V> v[K];
    std::vector<int> m[K];
    bool grew[K] = {};
    std::string ops;
    int next = 1;
    bool threw = false; std::string threw_where;
    Meta meta; int ia = 0, ib = -1;

    SvRun(Case& cc, Mode md, const char* t) : c(cc), mode(md), tn(t)
    {
        for (auto& p : v) p.reset(new V());
        ops = std::string(tn) + "/" + std::to_string(N) + ":";
    }
    bool inline_storage(int i) const
    {
        auto p = reinterpret_cast<const char*>(v[i]->data()), o = reinterpret_cast<const char*>(v[i].get());
        return N == 0 ? v[i]->capacity() == 0 : p >= o && p < o + sizeof(V);
    }
    std::vector<int> actual(int i) const { std::vector<int> r; for (auto p = v[i]->data(), e = p + v[i]->size(); p != e; ++p) r.push_back(E::get(*p)); return r; }
    static std::string sh(const std::vector<int>& x) { std::string s = "["; for (int k : x) s += std::to_string(k) + " "; return s + "]"; }

    // Full comparison with the model
    void compare()
    {
        for (int i = 0; i < K; ++i)
        {
            V& x = *v[i]; const V& cx = x;
            const auto& mm = m[i];
            CHECK(cx.size() == mm.size(), "size", ops << " vector " << i << ": size " << cx.size() << " expected " << mm.size());
            CHECK(cx.empty() == mm.empty(), "empty", ops);
            CHECK(actual(i) == mm, "contents", ops << " vector " << i << ": " << sh(actual(i)) << " expected " << sh(mm));
            CHECK(cx.capacity() >= cx.size() && cx.capacity() >= N && cx.inner_capacity() == N, "capacity", ops << " capacity " << cx.capacity());
            if (mode == Mode::contents)
            {
                CHECK(cx.begin() == cx.data() && x.begin() == x.data() && x.end() == x.data() + mm.size() && cx.end() == cx.data() + mm.size() && x.cbegin() == x.begin() && x.cend() == x.end(), "iterators", ops);
                for (std::size_t k = 0; k < mm.size(); ++k)
                    CHECK(&x.at((unsigned)k) == x.data() + k && &cx.at((unsigned)k) == x.data() + k && &x[(unsigned)k] == x.data() + k && &cx[(unsigned)k] == x.data() + k, "access", ops << " index " << k);
                if (!mm.empty()) CHECK(&x.front() == x.data() && &cx.front() == x.data() && &x.back() == x.data() + mm.size() - 1 && &cx.back() == x.data() + mm.size() - 1, "front-back", ops);
                std::vector<int> rv; for (auto it = x.rbegin(); it != x.rend(); ++it) rv.push_back(E::get(*it));
                std::vector<int> rc; for (auto it = x.crbegin(); it != x.crend(); ++it) rc.push_back(E::get(*it));
                CHECK(std::equal(rv.begin(), rv.end(), mm.rbegin(), mm.rend()) && rv == rc, "reverse", ops);
                if (c.rng.chance(1, 12))
                {
                    const std::size_t bad[] = { mm.size(), mm.size() + 1, x.capacity(), 0xffffffffu };
                    std::size_t k = bad[c.rng.below(4)]; if (k < mm.size()) k = mm.size();
                    int t = 0;
                    try { (void)x.at((unsigned)k); } catch (const std::out_of_range&) { ++t; }
                    try { (void)cx.at((unsigned)k); } catch (const std::out_of_range&) { ++t; }
                    CHECK(t == 2, "at-range", ops << " at(" << k << ") did not throw");
                }
                for (int j = 0; j < K; ++j)
                    CHECK((x == *v[j]) == (m[i] == m[j]) && (x != *v[j]) == (m[i] != m[j]), "compare", ops << " vectors " << i << ", " << j);
            }
            c.eval();
        }
        if (E::tracked)
        {
            std::size_t n = 0;
            for (int i = 0; i < K; ++i) n += v[i]->size();
            for (int i = 0; i < K; ++i)
                for (auto& e : *v[i]) CHECK(life().live.count(&e), "element-dead", ops << ": vector " << i << " contains an object that is not alive");
            CHECK(life().live.size() == n, "alive", ops << ": " << life().live.size() << " objects alive, " << n << " elements");
        }
    }

    // Executes one operation under the monitors. 'act' returns an index (or -1), 'upd' changes the model and returns the expected index.
    __attribute__((noinline)) void exec(const std::string& name, int a, int b, const Meta& mt, FnRef<long> act, FnRef<long> upd)
    {
        ops += " " + name + std::to_string(a) + (b >= 0 ? "," + std::to_string(b) : "");
        G().desc = ops;
        meta = mt; ia = a; ib = b; threw = false;
        life().context = G().desc.c_str();
        struct Before { const T* data; std::size_t cap; std::vector<std::uint64_t> ser; std::vector<unsigned> gen; bool inl; } be[K];
        if (mode == Mode::storage)
            for (int i = 0; i < K; ++i)
            {
                be[i].data = v[i]->data(); be[i].cap = v[i]->capacity(); be[i].inl = inline_storage(i);
                if (E::tracked) for (auto& e : *v[i]) { std::uint64_t s; unsigned g; E::identity(e, s, g); be[i].ser.push_back(s); be[i].gen.push_back(g); }
            }
        const bool fault = mode == Mode::faults && c.rng.chance(2, 3);
        bool fault_alloc = fault && c.rng.chance(1, 4);
        if (fault_alloc && mt.copying_vector && E::noexcept_copy) fault_alloc = false; // declared noexcept: would terminate
        auto l0 = life();
        if (fault && !fault_alloc) life().countdown = (long)(c.rng.chance(1, 2) ? c.rng.below(4) : c.rng.below(14));
        alloc_mon().allocations = 0; alloc_mon().countdown = fault_alloc ? (long)c.rng.below(2) : -1;
        long got = -2;
        alloc_mon().armed = true;
        try { got = act(); }
        catch (const Injected& e) { threw = true; threw_where = e.where; }
        catch (const std::bad_alloc&) { threw = true; threw_where = "allocation"; if (!fault_alloc) { alloc_mon().armed = false; VIOL("bad_alloc", ops); } }
        alloc_mon().armed = false;
        auto allocs = alloc_mon().allocations;
        alloc_mon().countdown = -1; life().countdown = -1;
        c.count("operations");
        if (threw) { c.count("exceptions injected in " + threw_where); return; }
        std::vector<int> om[K]; for (int i = 0; i < K; ++i) om[i] = m[i];
        long want = upd();
        CHECK(got == want, "result", ops << ": returned position " << got << " expected " << want);
        for (int i = 0; i < K; ++i) if (v[i]->size() > N || (i == a && mt.reserve > (long)N)) grew[i] = true;
        if (mode != Mode::storage) return;
        // storage monitors
        for (int i = 0; i < K; ++i)
        {
            CHECK(reinterpret_cast<std::uintptr_t>(v[i]->data()) % alignof(T) == 0, "alignment", ops);
            if (!grew[i]) CHECK(inline_storage(i), "inline", ops << ": vector " << i << " of size " << v[i]->size() << " never grew but is not stored inside of the object");
            if (i != a && i != b) CHECK(v[i]->data() == be[i].data && v[i]->capacity() == be[i].cap, "uninvolved", ops);
        }
        if (!grew[a] && (b < 0 || !grew[b])) CHECK(allocs == 0, "allocation", ops << ": " << allocs << " allocations although inline capacity suffices");
        if (mt.reserve > 0) CHECK((long)v[a]->capacity() >= mt.reserve, "reserve", ops << ": capacity " << v[a]->capacity());
        if (mt.pos >= 0 && v[a]->size() <= be[a].cap && mt.reserve <= (long)be[a].cap)
        {
            CHECK(v[a]->data() == be[a].data, "reallocated", ops << ": reallocated although the capacity suffices");
            CHECK(v[a]->capacity() == be[a].cap, "capacity-changed", ops << ": capacity changed from " << be[a].cap << " to " << v[a]->capacity() << " although it suffices");
            if (E::tracked)
                for (std::size_t k = 0; k < (std::size_t)mt.pos && k < v[a]->size() && k < be[a].ser.size(); ++k)
                {
                    std::uint64_t s; unsigned g; E::identity((*v[a])[(unsigned)k], s, g);
                    CHECK(s == be[a].ser[k] && g == be[a].gen[k], "touched", ops << ": element " << k << " in front of the point of modification was touched");
                }
            c.count("operations within capacity");
        }
        if (mt.no_touch)
        {
            if (name[0] == 's') { if (!be[a].inl && !be[b].inl && a != b) { CHECK(v[a]->data() == be[b].data && v[b]->data() == be[a].data && v[a]->capacity() == be[b].cap && v[b]->capacity() == be[a].cap, "swap-transfer", ops); CHECK(life().constructed == l0.constructed && life().assigns == l0.assigns && allocs == 0, "swap-touch", ops); c.count("heap swaps"); } }
            else if (!be[b].inl && a != b) { CHECK(v[a]->data() == be[b].data && v[a]->capacity() == be[b].cap, "move-transfer", ops); CHECK(life().constructed == l0.constructed && life().assigns == l0.assigns && allocs == 0, "move-touch", ops); c.count("heap moves"); }
        }
        if (name == "shrink")
        {
            if (v[a]->size() <= N) CHECK(inline_storage(a), "shrink-inline", ops << ": size " << v[a]->size());
            CHECK(v[a]->capacity() == std::max<std::size_t>(N, v[a]->size()), "shrink-capacity", ops << ": capacity " << v[a]->capacity() << " size " << v[a]->size());
            if (v[a]->size() <= N) grew[a] = false;
        }
    }

    // After an operation that failed: all elements alive, contents as promised
    void after_throw(const std::vector<int> (&before)[K])
    {
        for (int i = 0; i < K; ++i)
        {
            if (E::tracked) for (auto& e : *v[i]) CHECK(life().live.count(&e), "element-dead", ops << " threw in " << threw_where << ": contains an object that is not alive");
            bool unchanged = (i != ia && i != ib) || (meta.append && E::strong && i == ia);
            if (unchanged) CHECK(actual(i) == before[i], "strong-guarantee", ops << " threw in " << threw_where << ": vector " << i << " is " << sh(actual(i)) << " but was " << sh(before[i]));
            m[i] = actual(i);
            if (v[i]->size() > N || !inline_storage(i)) grew[i] = true;
        }
    }

    std::vector<T> source(std::vector<int>& ids)
    {
        Pause p;
        std::size_t n = c.rng.chance(1, 6) ? 0 : c.rng.chance(1, 3) ? c.rng.below(2 * N + 3) : c.rng.below(4);
        std::vector<T> s; s.reserve(n); ids.clear();
        for (std::size_t i = 0; i < n; ++i) { ids.push_back(next); s.push_back(E::make(next++)); }
        return s;
    }
    template <typename It> It at(It b, std::size_t i) { return b + (std::ptrdiff_t)i; }

    void common_op(int op, int a, int b)
    {
        V& x = *v[a]; auto& mm = m[a];
        Rng& r = c.rng;
        std::size_t pos = r.chance(1, 5) ? 0 : r.chance(1, 4) ? mm.size() : r.below(mm.size() + 1);
        int k = next++;
        switch (op)
        {
        case 0: { T t = [&] { Pause p; return E::make(k); }(); exec("push_back&&", a, -1, app(mm), [&] { x.push_back(std::move(t)); return -1L; }, [&] { mm.push_back(k); return -1L; }); break; }
        case 1: exec("emplace_back", a, -1, app(mm), [&] { auto& ref = x.emplace_back(E::make(k)); if (&ref != &x.back()) VIOL("emplace_back-result", ops); return -1L; }, [&] { mm.push_back(k); return -1L; }); break;
        case 2: { Meta mt; mt.pos = (long)pos; mt.append = pos == mm.size(); exec(nm("emplace", (long)pos), a, -1, mt, [&] { return (long)(x.emplace(at(x.cbegin(), pos), E::make(k)) - x.begin()); }, [&] { mm.insert(at(mm.begin(), pos), k); return (long)pos; }); break; }
        case 3: { Meta mt; mt.pos = (long)pos; mt.append = pos == mm.size(); T t = [&] { Pause p; return E::make(k); }(); exec(nm("insert&&", (long)pos), a, -1, mt, [&] { return (long)(x.insert(at(x.cbegin(), pos), std::move(t)) - x.begin()); }, [&] { mm.insert(at(mm.begin(), pos), k); return (long)pos; }); break; }
        case 4: if (mm.empty()) break; else { pos = r.below(mm.size()); Meta mt; mt.pos = (long)pos; exec(nm("erase", (long)pos), a, -1, mt, [&] { return (long)(x.erase(at(x.cbegin(), pos)) - x.begin()); }, [&] { mm.erase(at(mm.begin(), pos)); return (long)pos; }); } break;
        case 5: { std::size_t p2 = pos + r.below(mm.size() - pos + 1); Meta mt; mt.pos = (long)pos; exec(nm("erase-range", (long)pos, (long)p2), a, -1, mt, [&] { return (long)(x.erase(at(x.cbegin(), pos), at(x.cbegin(), p2)) - x.begin()); }, [&] { mm.erase(at(mm.begin(), pos), at(mm.begin(), p2)); return (long)pos; }); break; }
        case 6: if (mm.empty()) break; else { Meta mt; mt.pos = (long)mm.size() - 1; exec("pop", a, -1, mt, [&] { x.pop_back(); return -1L; }, [&] { mm.pop_back(); return -1L; }); } break;
        case 7: if (r.chance(1, 2)) { Meta mt; mt.pos = 0; exec("clear", a, -1, mt, [&] { x.clear(); return -1L; }, [&] { mm.clear(); return -1L; }); } break;
        case 8: { Meta mt; mt.pos = (long)mm.size(); mt.reserve = (long)r.below(2 * N + 6); exec(nm("reserve", mt.reserve), a, -1, mt, [&] { x.reserve((unsigned)mt.reserve); return -1L; }, [] { return -1L; }); break; }
        case 9: exec("shrink", a, -1, Meta(), [&] { x.shrink_to_fit(); return -1L; }, [] { return -1L; }); break;
        case 10: { std::size_t n = r.chance(1, 2) ? r.below(2 * N + 4) : r.below(mm.size() + 3); Meta mt; mt.pos = (long)std::min(n, mm.size()); exec(nm("resize", (long)n), a, -1, mt, [&] { x.resize((unsigned)n); return -1L; }, [&] { mm.resize(n, E::dflt()); return -1L; }); break; }
        case 11: // move-construct
        {
            if (a == b) break;
            std::unique_ptr<V> old = std::move(v[a]);
            old.reset();
            Meta mt; mt.no_touch = true;
            bool g = grew[b];
            v[a] = nullptr;
            ops += " (replace)";
            // storage monitor needs an object: create an empty one first
            v[a].reset(new V()); m[a].clear(); grew[a] = false;
            void* mem = std::malloc(sizeof(V) + 64);
            V* nv = nullptr;
            bool tr = false;
            ops += " move-construct" + std::to_string(a) + "," + std::to_string(b); G().desc = ops; life().context = G().desc.c_str();
            auto odata = v[b]->data(); auto ocap = v[b]->capacity(); bool oinl = inline_storage(b); auto l0 = life();
            if (mode == Mode::faults && r.chance(2, 3)) life().countdown = (long)r.below(6);
            alloc_mon().allocations = 0; alloc_mon().armed = true;
            try { nv = ::new (mem) V(std::move(*v[b])); } catch (const Injected& e) { tr = true; threw_where = e.where; }
            alloc_mon().armed = false; life().countdown = -1;
            if (tr)
            {
                std::free(mem);
                c.count("exceptions injected in " + threw_where);
                if (E::strong) CHECK(actual(b) == m[b], "failed-move-source", ops << ": source changed by a failed move");
                m[b] = actual(b);
                break;
            }
            CHECK(v[b]->empty(), "moved-from", ops << ": the source of a move is not empty");
            if (mode == Mode::storage && !oinl) { CHECK(nv->data() == odata && nv->capacity() == ocap, "move-transfer", ops); CHECK(life().constructed == l0.constructed && life().assigns == l0.assigns && alloc_mon().allocations == 0, "move-touch", ops); c.count("heap moves"); }
            if (mode == Mode::storage && !g) CHECK(alloc_mon().allocations == 0, "allocation", ops);
            { std::vector<int> got; for (auto& e : *nv) got.push_back(E::get(e)); CHECK(got == m[b], "contents", ops << ": " << sh(got) << " expected " << sh(m[b])); }
            m[a] = m[b]; m[b].clear();
            // keep the contents in a vector owned by the harness
            { Pause p; v[a]->swap(*nv); grew[a] = grew[b]; nv->~V(); }
            std::free(mem);
            break;
        }
        case 12: if (a == b) break; else { Meta mt; mt.no_touch = true; bool gb = grew[b]; auto mb = m[b]; std::vector<int> src = actual(b);
            exec("move-assign", a, b, mt, [&] { V& ret = (x = std::move(*v[b])); if (&ret != &x) VIOL("assign-result", ops); return -1L; }, [&] { mm = m[b]; m[b].clear(); grew[a] = gb; return -1L; });
            if (threw && E::strong) CHECK(actual(b) == src, "failed-move-source", ops << ": source changed by a failed move"); } break;
        case 13: { Meta mt; mt.no_touch = true; bool fr = r.chance(1, 2); exec("swap", a, b, mt, [&] { if (fr) { using std::swap; swap(x, *v[b]); } else x.swap(*v[b]); return -1L; }, [&] { std::swap(m[a], m[b]); bool g = grew[a] || grew[b]; grew[a] = grew[b] = g; return -1L; }); break; }
        case 14: { std::vector<int> ids; auto s = source(ids); Meta mt; mt.pos = (long)pos;
            exec(nm("insert-move-range", (long)pos, (long)ids.size()), a, -1, mt, [&] { return (long)(x.insert(at(x.cbegin(), pos), std::make_move_iterator(s.begin()), std::make_move_iterator(s.end())) - x.begin()); }, [&] { mm.insert(at(mm.begin(), pos), ids.begin(), ids.end()); return (long)pos; });
            Pause p; s.clear(); break; }
        case 15: { std::vector<int> ids; auto s = source(ids); Meta mt; mt.pos = 0;
            exec(nm("assign-move-range", (long)ids.size()), a, -1, mt, [&] { x.assign(std::make_move_iterator(s.begin()), std::make_move_iterator(s.end())); return -1L; }, [&] { mm = ids; return -1L; });
            Pause p; s.clear(); break; }
        case 16: { std::vector<int> ids; auto s = source(ids); Meta mt; mt.pos = (long)pos;
            using It = OnePass<T, T&&>; It f; f.src = &s; f.shared = std::make_shared<std::size_t>(0);
            exec(nm("insert-onepass", (long)pos, (long)ids.size()), a, -1, mt, [&] { return (long)(x.insert(at(x.cbegin(), pos), f, It()) - x.begin()); }, [&] { mm.insert(at(mm.begin(), pos), ids.begin(), ids.end()); return (long)pos; });
            Pause p; s.clear(); break; }
        case 17: { std::vector<int> ids; auto s = source(ids); Meta mt; mt.pos = 0;
            using It = OnePass<T, T&&>; It f; f.src = &s; f.shared = std::make_shared<std::size_t>(0);
            exec(nm("assign-onepass", (long)ids.size()), a, -1, mt, [&] { x.assign(f, It()); return -1L; }, [&] { mm = ids; return -1L; });
            Pause p; s.clear(); break; }
        case 18: if (mm.empty()) break; else { Pause p; pos = r.below(mm.size()); x[(unsigned)pos] = E::make(k); mm[pos] = k; ops += " set" + std::to_string(pos); } break;
        case 19: exec("self-move-nothing", a, -1, Meta(), [&] { V t; t.swap(x); x.swap(t); return -1L; }, [&] { return -1L; }); if (threw) {} break;
        case 20: // construct from single-pass or moving ranges, or with a number of default elements
        {
            std::vector<int> ids; auto s = source(ids);
            using It = OnePass<T, T&&>; It f; f.src = &s; f.shared = std::make_shared<std::size_t>(0);
            int how = (int)r.below(3);
            construct(a, nm("construct", how), [&]() -> V* { return how == 0 ? new V(f, It()) : how == 1 ? new V(std::make_move_iterator(s.begin()), std::make_move_iterator(s.end())) : new V((unsigned)ids.size()); },
                how == 2 ? std::vector<int>(ids.size(), E::dflt()) : ids);
            Pause p; s.clear(); break;
        }
        default: break;
        }
    }
    Meta app(const std::vector<int>& mm) { Meta mt; mt.append = true; mt.pos = (long)mm.size(); return mt; }

    __attribute__((noinline)) void construct(int a, const std::string& name, FnRef<V*> mk, const std::vector<int>& want_)
    {
        ops += " " + name + std::to_string(a); G().desc = ops; life().context = G().desc.c_str();
        const std::vector<int> want = want_;
        V* nv = nullptr; bool tr = false;
        if (mode == Mode::faults && c.rng.chance(2, 3)) life().countdown = (long)c.rng.below(8);
        // the vector object itself is the only allocation that is allowed if the inline capacity suffices
        alloc_mon().allocations = 0; alloc_mon().armed = true;
        try { nv = mk(); } catch (const Injected& e) { tr = true; threw_where = e.where; }
        alloc_mon().armed = false; life().countdown = -1;
        c.count("operations");
        if (tr) { c.count("exceptions injected in " + threw_where); return; }
        if (mode == Mode::storage && want.size() <= N) CHECK(alloc_mon().allocations == 1, "allocation", ops << ": constructor allocates although the inline capacity suffices");
        { Pause p; v[a].reset(nv); m[a] = want; grew[a] = want.size() > N; }
    }

    void copy_op(int op, int a, int b, std::false_type) { common_op(op % 19, a, b); }
    void copy_op(int op, int a, int b, std::true_type)
    {
        V& x = *v[a]; auto& mm = m[a];
        Rng& r = c.rng;
        std::size_t pos = r.chance(1, 5) ? 0 : r.chance(1, 4) ? mm.size() : r.below(mm.size() + 1);
        std::size_t own = mm.empty() ? 0 : r.below(mm.size());
        int k = next++;
        T t = [&] { Pause p; return E::make(k); }();
        std::size_t n = r.chance(1, 6) ? 0 : r.chance(1, 3) ? r.below(2 * N + 3) : r.below(4);
        const long P = (long)pos, X = (long)n, O = (long)own;
        Meta mp; mp.pos = (long)pos; Meta m1 = mp; m1.append = pos == mm.size();
        Meta m0; m0.pos = 0;
        switch (op)
        {
        case 0: exec("push_back", a, -1, app(mm), [&] { x.push_back(static_cast<const T&>(t)); return -1L; }, [&] { mm.push_back(k); return -1L; }); break;
        case 1: if (mm.empty()) break; exec(nm("push_back-own", O), a, -1, app(mm), [&] { x.push_back(static_cast<const T&>(x[(unsigned)own])); return -1L; }, [&] { mm.push_back(int(mm[own])); return -1L; }); break;
        case 2: if (mm.empty()) break; exec(nm("emplace_back-own", O), a, -1, app(mm), [&] { x.emplace_back(x[(unsigned)own]); return -1L; }, [&] { mm.push_back(int(mm[own])); return -1L; }); break;
        case 3: exec(nm("insert", P), a, -1, m1, [&] { return (long)(x.insert(at(x.cbegin(), pos), static_cast<const T&>(t)) - x.begin()); }, [&] { mm.insert(at(mm.begin(), pos), k); return (long)pos; }); break;
        case 4: if (mm.empty()) break; exec(nm("insert-own", P, O), a, -1, m1, [&] { return (long)(x.insert(at(x.cbegin(), pos), static_cast<const T&>(x[(unsigned)own])) - x.begin()); }, [&] { int q = mm[own]; mm.insert(at(mm.begin(), pos), q); return (long)pos; }); break;
        case 5: if (mm.empty()) break; exec(nm("emplace-own", P, O), a, -1, m1, [&] { return (long)(x.emplace(at(x.cbegin(), pos), static_cast<const T&>(x[(unsigned)own])) - x.begin()); }, [&] { int q = mm[own]; mm.insert(at(mm.begin(), pos), q); return (long)pos; }); break;
        case 6: exec(nm("insert-n", P, X), a, -1, mp, [&] { return (long)(x.insert(at(x.cbegin(), pos), (unsigned)n, t) - x.begin()); }, [&] { mm.insert(at(mm.begin(), pos), n, k); return (long)pos; }); break;
        case 7: if (mm.empty()) break; exec(nm("insert-n-own", P, X, O), a, -1, mp, [&] { return (long)(x.insert(at(x.cbegin(), pos), (unsigned)n, x[(unsigned)own]) - x.begin()); }, [&] { int q = mm[own]; mm.insert(at(mm.begin(), pos), n, q); return (long)pos; }); break;
        case 8: { std::vector<int> ids; auto s = source(ids); int how = (int)r.below(3); std::list<T> l; { Pause p; for (auto& e : s) l.push_back(e); }
            using It = OnePass<T, const T&>; It f; f.src = &s; f.shared = std::make_shared<std::size_t>(0);
            exec(nm("insert-range", how, P, (long)ids.size()), a, -1, mp, [&] {
                auto at_ = at(x.cbegin(), pos);
                return (long)((how == 0 ? x.insert(at_, s.begin(), s.end()) : how == 1 ? x.insert(at_, l.begin(), l.end()) : x.insert(at_, f, It())) - x.begin()); },
                [&] { mm.insert(at(mm.begin(), pos), ids.begin(), ids.end()); return (long)pos; });
            Pause p; l.clear(); s.clear(); break; }
        case 9: { std::vector<int> ids; auto s = source(ids); int how = (int)r.below(3); std::list<T> l; { Pause p; for (auto& e : s) l.push_back(e); }
            using It = OnePass<T, const T&>; It f; f.src = &s; f.shared = std::make_shared<std::size_t>(0);
            exec(nm("assign-range", how, (long)ids.size()), a, -1, m0, [&] { if (how == 0) x.assign(s.begin(), s.end()); else if (how == 1) x.assign(l.begin(), l.end()); else x.assign(f, It()); return -1L; }, [&] { mm = ids; return -1L; });
            Pause p; l.clear(); s.clear(); break; }
        case 10: exec(nm("assign-n", X), a, -1, m0, [&] { x.assign((unsigned)n, t); return -1L; }, [&] { mm.assign(n, k); return -1L; }); break;
        case 11: { Pause* p = new Pause; std::initializer_list<T> il{ t, t, t }; bool as = r.chance(1, 2); delete p;
            exec(as ? "assign-il " : "=il ", a, -1, m0, [&] { if (as) x.assign(il); else x = il; return -1L; }, [&] { mm.assign(3, k); return -1L; }); p = new Pause; delete p; break; }
        case 12: { std::initializer_list<T> il{ t, t }; exec(nm("insert-il", P), a, -1, mp, [&] { return (long)(x.insert(at(x.cbegin(), pos), il) - x.begin()); }, [&] { mm.insert(at(mm.begin(), pos), 2, k); return (long)pos; }); break; }
        case 13: { Meta mt = m0; mt.copying_vector = true; if (a == b) mt.pos = (long)mm.size(); exec("copy-assign", a, b, mt, [&] { V& ret = (x = static_cast<const V&>(*v[b])); if (&ret != &x) VIOL("assign-result", ops); return -1L; }, [&] { mm = std::vector<int>(m[b]); return -1L; });
            if (threw && a != b) CHECK(actual(b) == m[b], "copy-source", ops << ": source changed by a copy"); break; }
        case 14: { Meta mt; mt.pos = (long)std::min(n, mm.size()); exec(nm("resize", X), a, -1, mt, [&] { x.resize((unsigned)n, t); return -1L; }, [&] { mm.resize(n, k); return -1L; }); break; }
        case 15: if (mm.empty()) break; else { Meta mt; mt.pos = (long)std::min(n, mm.size()); exec(nm("resize-own", X, O), a, -1, mt, [&] { x.resize((unsigned)n, x[(unsigned)own]); return -1L; }, [&] { int q = mm[own]; mm.resize(n, q); return -1L; }); } break;
        case 16: if (a == b) break; construct(a, nm("copy-construct", b), [&] { return new V(static_cast<const V&>(*v[b])); }, m[b]); break;
        case 17: { std::vector<int> ids; auto s = source(ids); std::list<T> l; { Pause p; for (auto& e : s) l.push_back(e); } bool li = r.chance(1, 2);
            construct(a, "range-construct", [&] { return li ? new V(l.begin(), l.end()) : new V(s.begin(), s.end()); }, ids); Pause p; l.clear(); s.clear(); break; }
        case 18: construct(a, nm("n-construct", X), [&] { return new V((unsigned)n, t); }, std::vector<int>(n, k)); break;
        case 19: { std::initializer_list<T> il{ t, t, t, t }; construct(a, "il-construct", [&] { return new V(il); }, std::vector<int>(4, k)); break; }
        default: break;
        }
        Pause p; // destruction of t
    }

    void run(int steps)
    {
        Rng& r = c.rng;
        compare();
        for (int i = 0; i < steps; ++i)
        {
            int a = r.chance(1, 2) ? 0 : (int)r.below(K), b = (int)r.below(K);
            std::vector<int> before[K];
            for (int j = 0; j < K; ++j) before[j] = m[j];
            threw = false;
            // keep sizes around the interesting transition
            int op = (int)r.below(21);
            if (m[a].size() > 3 * N + 12) op = r.chance(1, 2) ? 7 : 5;
            if (E::copyable && r.chance(1, 2)) copy_op((int)r.below(20), a, b, std::integral_constant<bool, E::copyable>());
            else common_op(op, a, b);
            if (threw) after_throw(before);
            compare();
        }
        c.distinct(hash_str(ops));
        c.sample(ops);
        for (auto& p : v) p.reset();
        if (E::tracked) CHECK(life().live.empty(), "leak", ops << ": " << life().live.size() << " objects alive at the end");
    }
};

} // namespace vm
