// Lifetime-tracking element types, injection of exceptions and monitoring of allocations.
// Include in exactly one translation unit per harness (it replaces operator new and delete).
#pragma once
#include "monitor.h"
#include <new>
#include <unordered_map>

namespace vm {

struct Injected { const char* where; };

// ---- allocation monitor -------------------------------------------------------------------
struct AllocMon
{
    bool armed = false;              // count (and maybe fail) allocations
    std::uint64_t allocations = 0;   // while armed
    std::size_t largest = 0;         // while armed
    long countdown = -1;             // fail the n-th allocation while armed (-1: never)
    std::uint64_t failed = 0;
};
inline AllocMon& alloc_mon() { static AllocMon a; return a; }

// ---- lifetime monitor ---------------------------------------------------------------------
struct LifeMon
{
    // Open addressing table of living objects would be faster; a std::unordered_map is fine here
    std::unordered_map<const void*, int> live; // address -> type tag
    std::uint64_t serial = 0, constructed = 0, destroyed = 0, copies = 0, moves = 0, assigns = 0;
    long countdown = -1;  // throw at the n-th operation that may throw
    bool fired = false;
    const char* context = "";
    bool paused = false;  // no injection
};
inline LifeMon& life() { static LifeMon* l = new LifeMon; return *l; }

struct Pause // the harness itself constructs elements without injection
{
    bool l, a;
    Pause() : l(life().paused), a(alloc_mon().armed) { life().paused = true; alloc_mon().armed = false; }
    ~Pause() { life().paused = l; alloc_mon().armed = a; }
};

inline void may_throw(const char* where)
{
    auto& l = life();
    if (l.paused || l.countdown < 0) return;
    if (l.countdown-- == 0) { l.fired = true; l.countdown = -1; throw Injected{ where }; }
}

enum class Copy { no, nothrow, throwing };
enum class Move { none, nothrow, throwing }; // none: not declared, copies are used instead

// Base with all bookkeeping
struct LifeBase
{
    int value;
    std::uint64_t serial; // identity of this object
    unsigned gen;         // number of modifications since construction
    bool moved_from;
    static void born(const void* p)
    {
        Pause ps;
        auto& l = life();
        ++l.constructed;
        if (!l.live.emplace(p, 1).second) VIOL("construct-over-living", "an object was constructed over a living one: " << l.context);
    }
    static void dies(const void* p)
    {
        Pause ps;
        auto& l = life();
        ++l.destroyed;
        if (l.live.erase(p) == 0) VIOL("destroy-dead", "an object was destroyed that is not alive: " << l.context);
    }
    static void alive(const void* p, const char* what)
    {
        auto& l = life();
        if (l.live.find(p) == l.live.end()) VIOL("use-dead", what << " an object that is not alive: " << l.context);
    }
};

template <Copy C> struct CopyTag {};
template <int Tag, Copy CP, Move MV>
struct Elem : LifeBase
{
    static const bool copyable = CP != Copy::no;
    static const bool movable = MV != Move::none;
    static const bool strong = copyable || MV == Move::nothrow;
    Elem() { may_throw("default constructor"); value = 0; init(); }
    explicit Elem(int v) { may_throw("value constructor"); value = v; init(); }
    Elem(const Elem& o) noexcept(CP == Copy::nothrow) : LifeBase()
    {
        alive(&o, "copying from");
        if (CP == Copy::throwing) may_throw("copy constructor");
        value = o.value; init(); moved_from = o.moved_from; ++life().copies;
    }
    Elem& operator=(const Elem& o) noexcept(CP == Copy::nothrow)
    {
        alive(this, "assigning to"); alive(&o, "copying from");
        if (CP == Copy::throwing) may_throw("copy assignment");
        value = o.value; moved_from = o.moved_from; ++gen; ++life().assigns;
        return *this;
    }
    Elem(Elem&& o) noexcept(MV == Move::nothrow) : LifeBase()
    {
        alive(&o, "moving from");
        if (MV == Move::throwing) may_throw("move constructor");
        value = o.value; init(); moved_from = o.moved_from; ++life().moves;
        o.value = -1; o.moved_from = true; ++o.gen;
    }
    Elem& operator=(Elem&& o) noexcept(MV == Move::nothrow)
    {
        alive(this, "assigning to"); alive(&o, "moving from");
        if (MV == Move::throwing) may_throw("move assignment");
        ++gen; ++life().assigns;
        if (this != &o) { value = o.value; moved_from = o.moved_from; o.value = -1; o.moved_from = true; ++o.gen; }
        return *this;
    }
    ~Elem() { dies(this); value = -99; }
    friend bool operator==(const Elem& a, const Elem& b) { alive(&a, "comparing"); alive(&b, "comparing"); return a.value == b.value; }
    friend bool operator!=(const Elem& a, const Elem& b) { return !(a == b); }
    friend bool operator<(const Elem& a, const Elem& b) { alive(&a, "comparing"); alive(&b, "comparing"); return a.value < b.value; }
    friend bool operator>(const Elem& a, const Elem& b) { return b < a; }
    friend bool operator<=(const Elem& a, const Elem& b) { return !(b < a); }
    friend bool operator>=(const Elem& a, const Elem& b) { return !(a < b); }
private:
    void init() { serial = ++life().serial; gen = 0; moved_from = false; born(this); }
};
// Copy-only: no move operations declared
template <int Tag, Copy CP>
struct Elem<Tag, CP, Move::none> : LifeBase
{
    static const bool copyable = true;
    static const bool movable = false;
    static const bool strong = true;
    Elem() { may_throw("default constructor"); value = 0; init(); }
    explicit Elem(int v) { may_throw("value constructor"); value = v; init(); }
    Elem(const Elem& o) noexcept(CP == Copy::nothrow) : LifeBase()
    {
        alive(&o, "copying from");
        if (CP == Copy::throwing) may_throw("copy constructor");
        value = o.value; init(); ++life().copies;
    }
    Elem& operator=(const Elem& o) noexcept(CP == Copy::nothrow)
    {
        alive(this, "assigning to"); alive(&o, "copying from");
        if (CP == Copy::throwing) may_throw("copy assignment");
        value = o.value; ++gen; ++life().assigns;
        return *this;
    }
    ~Elem() { dies(this); value = -99; }
    friend bool operator==(const Elem& a, const Elem& b) { alive(&a, "comparing"); alive(&b, "comparing"); return a.value == b.value; }
    friend bool operator!=(const Elem& a, const Elem& b) { return !(a == b); }
    friend bool operator<(const Elem& a, const Elem& b) { alive(&a, "comparing"); alive(&b, "comparing"); return a.value < b.value; }
    friend bool operator>(const Elem& a, const Elem& b) { return b < a; }
    friend bool operator<=(const Elem& a, const Elem& b) { return !(b < a); }
    friend bool operator>=(const Elem& a, const Elem& b) { return !(a < b); }
private:
    void init() { serial = ++life().serial; gen = 0; moved_from = false; born(this); }
};
// Move-only
template <int Tag, Move MV>
struct Elem<Tag, Copy::no, MV> : LifeBase
{
    static const bool copyable = false;
    static const bool movable = true;
    static const bool strong = MV == Move::nothrow;
    Elem() { may_throw("default constructor"); value = 0; init(); }
    explicit Elem(int v) { may_throw("value constructor"); value = v; init(); }
    Elem(const Elem&) = delete;
    Elem& operator=(const Elem&) = delete;
    Elem(Elem&& o) noexcept(MV == Move::nothrow) : LifeBase()
    {
        alive(&o, "moving from");
        if (MV == Move::throwing) may_throw("move constructor");
        value = o.value; init(); moved_from = o.moved_from; ++life().moves;
        o.value = -1; o.moved_from = true; ++o.gen;
    }
    Elem& operator=(Elem&& o) noexcept(MV == Move::nothrow)
    {
        alive(this, "assigning to"); alive(&o, "moving from");
        if (MV == Move::throwing) may_throw("move assignment");
        ++gen; ++life().assigns;
        if (this != &o) { value = o.value; moved_from = o.moved_from; o.value = -1; o.moved_from = true; ++o.gen; }
        return *this;
    }
    ~Elem() { dies(this); value = -99; }
    friend bool operator==(const Elem& a, const Elem& b) { alive(&a, "comparing"); alive(&b, "comparing"); return a.value == b.value; }
    friend bool operator!=(const Elem& a, const Elem& b) { return !(a == b); }
    friend bool operator<(const Elem& a, const Elem& b) { alive(&a, "comparing"); alive(&b, "comparing"); return a.value < b.value; }
    friend bool operator>(const Elem& a, const Elem& b) { return b < a; }
    friend bool operator<=(const Elem& a, const Elem& b) { return !(b < a); }
    friend bool operator>=(const Elem& a, const Elem& b) { return !(a < b); }
private:
    void init() { serial = ++life().serial; gen = 0; moved_from = false; born(this); }
};

// Reference to a callable (keeps the number of template instantiations small)
template <typename R> struct FnRef
{
    const void* obj; R (*call)(const void*);
    template <typename F> FnRef(const F& f) : obj(&f), call([](const void* o) -> R { return (*static_cast<const F*>(o))(); }) {}
    R operator()() const { return call(obj); }
};

} // namespace vm

#ifndef VM_NO_ALLOC_HOOK
inline void* vm_alloc(std::size_t n)
{
    auto& a = vm::alloc_mon();
    if (a.armed)
    {
        if (a.countdown >= 0 && a.countdown-- == 0) { a.countdown = -1; ++a.failed; return nullptr; }
        ++a.allocations;
        if (n > a.largest) a.largest = n;
    }
    return std::malloc(n ? n : 1);
}
void* operator new(std::size_t n) { void* p = vm_alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { void* p = vm_alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return vm_alloc(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return vm_alloc(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
#endif
