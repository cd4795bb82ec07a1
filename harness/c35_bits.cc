// C35: bit functions against byte-wise arithmetic in 64 bits
#include "gen.h"
#include <gul14/bit_manip.h>
using namespace vm;

template <typename T> void one(Case& c, T v, unsigned bit, const char* tn)
{
    typedef std::make_unsigned_t<T> U;
    const unsigned long long u = (unsigned long long)(U)v, m = 1ull << bit;
    auto ul = [](T x) { return (unsigned long long)(U)x; };
    c.desc(std::string(tn) + " value " + std::to_string(u) + " bit " + std::to_string(bit));
    static_assert(std::is_same<decltype(gul14::bit_set(v, bit)), T>::value && std::is_same<decltype(gul14::bit_reset(v, bit)), T>::value
        && std::is_same<decltype(gul14::bit_flip(v, bit)), T>::value && std::is_same<decltype(gul14::bit_set<T>(bit)), T>::value && std::is_same<decltype(gul14::bit_test(v, bit)), bool>::value, "types");
    CHECK(ul(gul14::bit_set<T>(bit)) == m, "bit_set-single", ul(gul14::bit_set<T>(bit)));
    CHECK(ul(gul14::bit_set(v, bit)) == (u | m), "bit_set", ul(gul14::bit_set(v, bit)));
    CHECK(ul(gul14::bit_reset(v, bit)) == (u & ~m), "bit_reset", ul(gul14::bit_reset(v, bit)));
    CHECK(ul(gul14::bit_flip(v, bit)) == (u ^ m), "bit_flip", ul(gul14::bit_flip(v, bit)));
    CHECK(gul14::bit_test(v, bit) == ((u >> bit & 1) != 0), "bit_test", gul14::bit_test(v, bit));
    const T cv = v;
    CHECK(ul(gul14::bit_set(cv, bit)) == (u | m), "bit_set-const", "");
    c.eval(6);
    c.count(u & m ? "bit.set" : "bit.clear");
    c.distinct(hash_mix(hash_mix(u, bit), hash_str(tn)));
}
#define TYPES(M) M(signed char) M(unsigned char) M(char) M(short) M(unsigned short) M(int) M(unsigned) M(long) M(unsigned long) M(long long) M(unsigned long long) M(wchar_t) M(char16_t) M(char32_t)
GROUP("random", 3000, 60000)
{
    unsigned long long base = c.rng.next();
    switch (c.idx % 5) { case 0: base = 0; break; case 1: base = ~0ull; break; case 2: base = 1ull << c.rng.below(64); break; case 3: base = ~(1ull << c.rng.below(64)); break; default: break; }
#define M(T) for (unsigned b = 0; b < sizeof(T) * 8; ++b) one<T>(c, (T)base, b, #T);
    TYPES(M)
#undef M
    if (c.want_sample()) c.sample("base " + std::to_string(base) + ", all bits of 14 types");
}
GROUP("all_8_16bit", 256, 256)
{
    for (unsigned b = 0; b < 8; ++b) { one<signed char>(c, (signed char)c.idx, b, "signed char"); one<unsigned char>(c, (unsigned char)c.idx, b, "unsigned char"); }
    for (unsigned lo = 0; lo < 256; ++lo)
        for (unsigned b = 0; b < 16; ++b) { one<short>(c, (short)(c.idx * 256 + lo), b, "short"); one<unsigned short>(c, (unsigned short)(c.idx * 256 + lo), b, "ushort"); }
}
GROUP("endian", 1, 1)
{
    auto probe = [](auto v, bool& little) { unsigned char b[sizeof v]; std::memcpy(b, &v, sizeof v); little = b[0] == 1 && b[sizeof v - 1] == 0; };
    bool l2, l4, l8;
    probe((std::uint16_t)1, l2); probe((std::uint32_t)1, l4); probe((std::uint64_t)1, l8);
    CHECK(l2 == l4 && l4 == l8, "layout", "mixed");
    CHECK(gul14::is_little_endian() == l4, "is_little_endian", "");
    CHECK(gul14::is_big_endian() == !l4, "is_big_endian", "");
    CHECK((gul14::endian::native == gul14::endian::little) == l4 && (gul14::endian::native == gul14::endian::big) == !l4, "endian-native", "");
    CHECK(gul14::endian::little != gul14::endian::big, "endian-values", "");
    CHECK(gul14::bit_set(3) == 8u, "bit_set-default", "");
    c.eval(5);
}
static_assert(gul14::bit_set<unsigned char>(7) == 128, ""); static_assert(gul14::bit_test(6, 1), "");
