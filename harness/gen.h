// Generators of hostile inputs and exactly bounded buffers
#pragma once
#include "monitor.h"
#include <memory>
#include <gul14/string_view.h>

namespace vm {

inline std::size_t rand_len(Rng& r)
{
    static const std::size_t special[] = { 7, 8, 9, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025 };
    switch (r.below(16))
    {
    case 0: return 0;
    case 1: return 1;
    case 2: case 3: case 4: return r.below(5);
    case 5: case 6: case 7: case 8: case 9: return r.below(13);
    case 10: case 11: case 12: return r.below(40);
    case 13: case 14: return r.pick(special) ;
    default: return r.below(400);
    }
}

inline std::string rand_from(Rng& r, const std::string& alphabet, std::size_t n)
{
    std::string s(n, '\0');
    for (auto& ch : s) ch = alphabet[r.below(alphabet.size())];
    return s;
}

inline std::string rand_bytes(Rng& r, std::size_t n)
{
    std::string s(n, '\0');
    for (auto& ch : s) ch = static_cast<char>(r.next() >> 13);
    return s;
}

template <std::size_t N>
std::string lit(const char (&a)[N]) { return std::string(a, N - 1); } // keeps embedded null characters

inline const std::vector<std::string>& alphabets()
{
    static const std::vector<std::string>* a = [] {
        auto* v = new std::vector<std::string>;
        v->push_back("ab");
        v->push_back("a");
        v->push_back("abc ");
        v->push_back(" \t\r\n\a\b\f\v");
        v->push_back(lit(" \t\r\n\a\b\f\v\0xy\x01\x06\x0e\x1f\x21\x7f\x80\x85\xa0\xff"));
        v->push_back("@AZ[`az{\xc1\xe1\xda\xfa\xff\x80MmNn");
        v->push_back(lit("\\\"\r\n\txX0123456789abcdefABCDEF\0\x01\x1f\x7f\x80\xff"));
        v->push_back("0123456789.-+eEnaifNAIF()_ ");
        v->push_back("<>-,;:");
        v->push_back("aAbB");
        return v;
    }();
    return *a;
}

// A random string of random character
inline std::size_t rand_long_len(Rng& r)
{
    static const std::size_t special[] = { 2047, 2049, 4095, 4096, 4097, 8191, 8193, 16383, 16385, 32767, 32768, 32769, 65535, 65536, 65537 };
    if (r.chance(1, 3)) return r.pick(special);
    return r.below(std::size_t(1) << (10 + r.below(8)));
}

// A long string: random characters, or few special characters in a monotonous text
inline std::string rand_long_string(Rng& r)
{
    const std::string& a = r.pick(alphabets());
    std::size_t n = rand_long_len(r);
    if (r.chance(1, 3)) return rand_from(r, a, n);
    std::string s(n, r.chance(1, 2) ? 'q' : a[r.below(a.size())]);
    std::string other = r.chance(1, 3) ? rand_bytes(r, 8) : a;
    for (std::size_t k = r.below(6); n && k > 0; --k)
    {
        std::size_t pos = r.chance(1, 4) ? 0 : r.chance(1, 3) ? n - 1 : r.below(n);
        std::size_t run = r.chance(1, 2) ? 1 : 1 + r.below(4);
        for (; run > 0 && pos < n; --run, ++pos) s[pos] = other[r.below(other.size())];
    }
    return s;
}

inline std::string rand_string(Rng& r)
{
    if (r.chance(1, 400)) return rand_long_string(r);
    std::size_t n = rand_len(r);
    switch (r.below(6))
    {
    case 0: return rand_bytes(r, n);
    case 1: { std::string s(n, '\0'); for (auto& ch : s) ch = static_cast<char>(32 + r.below(95)); return s; }
    default: return rand_from(r, r.pick(alphabets()), n);
    }
}

// A string that is related to another one: a piece, a modified piece, ...
inline std::string related_string(Rng& r, const std::string& s)
{
    if (s.empty() || r.chance(1, 6)) return rand_string(r);
    std::size_t a = r.below(s.size() + 1);
    std::size_t maxl = s.size() - a;
    std::size_t l = r.chance(2, 3) ? r.below(std::min<std::size_t>(maxl, 4) + 1) : r.below(maxl + 1);
    switch (r.below(8)) { case 0: a = 0; l = r.below(s.size() + 1); break; case 1: l = maxl; break; case 2: a = 0; l = s.size(); break; default: break; }
    std::string t = s.substr(a, l);
    switch (r.below(8))
    {
    case 0: if (!t.empty()) t[r.below(t.size())] ^= static_cast<char>(1u << r.below(8)); break;
    case 1: t += static_cast<char>(r.next() >> 20); break;
    case 2: t.insert(t.begin(), static_cast<char>(r.next() >> 20)); break;
    case 3: for (auto& ch : t) if (r.chance(1, 2) && ((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z'))) ch ^= 0x20; break;
    default: break;
    }
    return t;
}

// A heap buffer of exactly the needed size (bounded by redzones of the address sanitizer); not
// null-terminated. Empty contents are represented by a null or by a non-dereferencable pointer.
class Exact
{
public:
    Exact(const std::string& s, bool allow_null = true, unsigned variant = 0) : n_(s.size())
    {
        if (n_ == 0 && allow_null && variant % 2 == 0) return;
        p_ = static_cast<char*>(std::malloc(n_ == 0 ? 1 : n_));
        if (n_) std::memcpy(p_, s.data(), n_);
        base_ = p_;
        if (n_ == 0) ++p_; // one past the end: must not be dereferenced
    }
    Exact(const Exact&) = delete;
    Exact& operator=(const Exact&) = delete;
    ~Exact() { std::free(base_); }
    const char* data() const { return p_; }
    char* mut() { return p_; }
    std::size_t size() const { return n_; }
    gul14::string_view sv() const { return gul14::string_view(p_, n_); }
    bool contains(const char* b, std::size_t len) const { return b >= p_ && b + len <= p_ + n_; }
private:
    char* p_ = nullptr;
    char* base_ = nullptr;
    std::size_t n_;
};

inline std::string str(gul14::string_view v) { return std::string(v.data() ? v.data() : "", v.size()); }

inline char low(char ch) { return ch >= 'A' && ch <= 'Z' ? static_cast<char>(ch + 32) : ch; }
inline std::string low(std::string s) { for (auto& ch : s) ch = low(ch); return s; }

} // namespace vm
