// A table of (nearly) all functions of the library that take texts or ranges, in a form that can be applied to
// any memory (C41) and from any thread (C42): three texts and a number in, a printable digest of the result out.
#pragma once
#include "gen.h"
#include <gul14/gul.h>
#include <gul14/date.h>
#include <gul14/type_name.h>
#include <cmath>
#include <deque>
#include <list>
#include <set>
#include <sstream>

namespace ops {
using gul14::string_view;
struct In
{
    string_view a, b, c;
    std::size_t n; // a small number
    std::size_t k; // another one
};
// No function may change its input: the views are passed by value
typedef void (*Fn)(const In&, std::string& out);
struct Op { const char* name; Fn fn; bool noexc; };

inline void put(std::string& o, const std::string& s) { o += '['; o += s; o += ']'; }
inline void put(std::string& o, string_view s) { o += '['; o.append(s.data() ? s.data() : "", s.size()); o += ']'; }
inline void put(std::string& o, const char* s) { o += '['; o += s; o += ']'; }
inline void put(std::string& o, bool b) { o += b ? 'T' : 'F'; }
inline void put(std::string& o, char ch) { o += ch; }
template <typename T> auto put(std::string& o, T x) -> std::enable_if_t<std::is_integral<T>::value> { o += std::to_string(x); o += ','; }
inline void put(std::string& o, long double x) { char b[64]; if (std::isnan(x)) std::snprintf(b, sizeof b, "%snan,", std::signbit(x) ? "-" : ""); else std::snprintf(b, sizeof b, "%La,", x); o += b; }
inline void put(std::string& o, double x) { put(o, (long double)x); }
inline void put(std::string& o, float x) { put(o, (long double)x); }
template <typename T> void put(std::string& o, const gul14::optional<T>& x) { if (x) put(o, *x); else o += "none,"; }
template <typename C> void put_all(std::string& o, const C& x) { o += '{'; for (const auto& e : x) put(o, e); o += '}'; }
inline void put_pos(std::string& o, std::size_t p) { if (p == string_view::npos) o += "npos,"; else put(o, p); }
// position of a returned view in its argument: it must be a part of it
inline void put_view(std::string& o, string_view v, string_view in) { put(o, v); if (!v.empty()) { if (v.data() < in.data() || v.data() + v.size() > in.data() + in.size()) o += "OUTSIDE"; else put(o, (std::size_t)(v.data() - in.data())); } }

#define OP(...) [](const In& in, std::string& o) { (void)in; (void)o; __VA_ARGS__ }
template <typename T> void num(const In& in, std::string& o) { put(o, gul14::to_number<T>(in.a)); }
template <typename F> void views(const In& in, std::string& o, const F& v) { o += '{'; for (const auto& e : v) put_view(o, e, in.a); o += '}'; }
// elements of another type made from the bytes of a text (values only: not part of the guarded memory)
inline std::vector<double> numbers(string_view a) { std::vector<double> v; for (char ch : a) v.push_back((signed char)ch * 0.25); return v; }

inline const std::vector<Op>& table()
{
    static const std::vector<Op>* t = new std::vector<Op>{
    { "lowercase_ascii", OP(put(o, gul14::lowercase_ascii(in.a));), true },
    { "uppercase_ascii", OP(put(o, gul14::uppercase_ascii(in.a));), true },
    { "case_inplace", OP(std::string s(in.a); put(o, gul14::lowercase_ascii_inplace(s)); put(o, gul14::uppercase_ascii_inplace(s));), true },
    { "cat2", OP(put(o, gul14::cat(in.a, in.b));), true },
    { "cat3", OP(put(o, gul14::cat(in.a, in.b, in.c));), true },
    { "cat_many", OP(put(o, gul14::cat(in.a, in.n, in.b, 'x', in.c, -7, 2.5, in.a));), true },
    { "cat_list", OP(put(o, gul14::cat({ in.c, in.a, in.b }));), true },
    { "escape", OP(put(o, gul14::escape(in.a));), true },
    { "unescape", OP(put(o, gul14::unescape(in.a));), true },
    { "unescape_escape", OP(put(o, gul14::unescape(gul14::escape(in.a)) == in.a);), true },
    { "hexdump", OP(put(o, gul14::hexdump(in.a, in.b));), true },
    { "hexdump_iter", OP(put(o, gul14::hexdump(in.a.begin(), in.a.end(), in.c));), true },
    { "hexdump_ptr", OP(put(o, gul14::hexdump(in.a.data(), in.a.data() + in.a.size()));), true },
    { "hexdump_stream", OP(std::ostringstream s; s << gul14::hexdump_stream(in.a.begin(), in.a.end(), "p"); put(o, s.str());), true },
    { "hexdump_stream_cont", OP(std::ostringstream s; s << gul14::hexdump_stream(in.a, "p"); put(o, s.str());), true },
    { "hexdump_span", OP(gul14::span<const char> sp(in.a.data(), in.a.size()); put(o, gul14::hexdump(sp));), true },
    { "split", OP(put_all(o, gul14::split(in.a, in.b));), true },
    { "split_sv", OP(views(in, o, gul14::split_sv(in.a, in.b));), true },
    { "split_container", OP(put_all(o, gul14::split<std::list<std::string>>(in.a, in.b)); put_all(o, gul14::split_sv<gul14::SmallVector<string_view, 4>>(in.a, in.c));), true },
    { "split_regex", OP(string_view s = in.a.substr(0, 200); static const std::regex re("[,;a-c0-9 ]+"); put_all(o, gul14::split(s, re));), true },
    { "join", OP(std::vector<string_view> v(in.n, in.a); v.push_back(in.c); v.push_back(string_view()); put(o, gul14::join(v, in.b)); put(o, gul14::join(v.begin(), v.end(), in.c));), true },
    { "replace", OP(put(o, gul14::replace(in.a, in.b, in.c));), true },
    { "replace_inplace", OP(std::string s(in.a); put(o, gul14::replace_inplace(s, in.b, in.c));), true },
    { "hex_string", OP(put(o, gul14::hex_string(in.a)); put(o, gul14::hex_string(in.a.begin(), in.a.end(), in.b)); gul14::span<const char> sp(in.a.data(), in.a.size()); put(o, gul14::hex_string(sp, in.c));), true },
    { "repeat", OP(put(o, gul14::repeat(in.a, in.n));), true },
    { "safe_string", OP(put(o, gul14::safe_string(in.a.data(), in.a.size())); put(o, gul14::safe_string(in.a.data(), in.a.size() / 2));), true },
    { "contains", OP(put(o, gul14::contains(in.a, in.b)); put(o, gul14::contains(in.a, (char)in.n)); put(o, gul14::contains_nocase(in.a, in.b)); put(o, gul14::contains_nocase(in.a, 'q'));), true },
    { "starts_with", OP(put(o, gul14::starts_with(in.a, in.b)); put(o, gul14::starts_with(in.a, 'a')); put(o, gul14::starts_with_nocase(in.a, in.b)); put(o, gul14::starts_with_nocase(in.a, 'a'));), true },
    { "ends_with", OP(put(o, gul14::ends_with(in.a, in.b)); put(o, gul14::ends_with(in.a, 'a')); put(o, gul14::ends_with_nocase(in.a, in.b)); put(o, gul14::ends_with_nocase(in.a, 'a'));), true },
    { "equals_nocase", OP(put(o, gul14::equals_nocase(in.a, in.b)); put(o, gul14::equals_nocase(in.a, in.c)); put(o, gul14::equals_nocase(in.a, in.a));), true },
    { "to_number_int", OP(num<int>(in, o); num<unsigned>(in, o);), true },
    { "to_number_long", OP(num<long long>(in, o); num<unsigned long long>(in, o);), true },
    { "to_number_small", OP(num<short>(in, o); num<unsigned short>(in, o); num<signed char>(in, o); num<unsigned char>(in, o);), true },
    { "to_number_bool", OP(num<bool>(in, o);), true },
    { "to_number_float", OP(num<float>(in, o);), true },
    { "to_number_double", OP(num<double>(in, o);), true },
    { "to_number_long_double", OP(num<long double>(in, o);), true },
    { "tokenize", OP(put_all(o, gul14::tokenize(in.a)); put_all(o, gul14::tokenize(in.a, in.b));), true },
    { "tokenize_sv", OP(views(in, o, gul14::tokenize_sv(in.a)); views(in, o, gul14::tokenize_sv(in.a, in.b));), true },
    { "tokenize_container", OP(put_all(o, gul14::tokenize<std::deque<std::string>>(in.a, in.b)); put_all(o, gul14::tokenize<std::set<std::string>>(in.a, in.c, [](std::set<std::string>& s, string_view v) { s.emplace(v); }));), true },
    { "trim", OP(put(o, gul14::trim(in.a)); put(o, gul14::trim(in.a, in.b)); put_view(o, gul14::trim_sv(in.a), in.a); put_view(o, gul14::trim_sv(in.a, in.b), in.a);), true },
    { "trim_left", OP(put(o, gul14::trim_left(in.a)); put(o, gul14::trim_left(in.a, in.b)); put_view(o, gul14::trim_left_sv(in.a), in.a); put_view(o, gul14::trim_left_sv(in.a, in.b), in.a);), true },
    { "trim_right", OP(put(o, gul14::trim_right(in.a)); put(o, gul14::trim_right(in.a, in.b)); put_view(o, gul14::trim_right_sv(in.a), in.a); put_view(o, gul14::trim_right_sv(in.a, in.b), in.a);), true },
    { "sv_find", OP(put_pos(o, in.a.find(in.b)); put_pos(o, in.a.find(in.b, in.n)); put_pos(o, in.a.find('a', in.n)); put_pos(o, in.a.find(in.b.data() ? in.b.data() : in.c.data(), in.n, in.b.data() ? in.b.size() : 0));), true },
    { "sv_rfind", OP(put_pos(o, in.a.rfind(in.b)); put_pos(o, in.a.rfind(in.b, in.n)); put_pos(o, in.a.rfind('a', in.n)); put_pos(o, in.a.rfind('b'));), true },
    { "sv_find_first", OP(put_pos(o, in.a.find_first_of(in.b, in.n)); put_pos(o, in.a.find_first_not_of(in.b, in.n)); put_pos(o, in.a.find_first_of('a', in.n)); put_pos(o, in.a.find_first_not_of('a', in.n));), true },
    { "sv_find_last", OP(put_pos(o, in.a.find_last_of(in.b)); put_pos(o, in.a.find_last_not_of(in.b)); put_pos(o, in.a.find_last_of(in.b, in.n)); put_pos(o, in.a.find_last_not_of(in.b, in.n)); put_pos(o, in.a.find_last_of('a', in.n)); put_pos(o, in.a.find_last_not_of('a', in.n));), true },
    { "sv_compare", OP(auto sg = [](int x) { return x < 0 ? -1 : x > 0; }; put(o, sg(in.a.compare(in.b))); std::size_t p = std::min(in.n, in.a.size()); put(o, sg(in.a.compare(p, in.k, in.b))); std::size_t q = std::min(in.k, in.b.size()); put(o, sg(in.a.compare(p, in.k, in.b, q, in.n))); put(o, in.a == in.b); put(o, in.a < in.b); put(o, in.a >= in.b);), true },
    { "sv_parts", OP(std::size_t p = std::min(in.n, in.a.size()); put_view(o, in.a.substr(p, in.k), in.a); string_view x = in.a; x.remove_prefix(p); put_view(o, x, in.a); x = in.a; x.remove_suffix(p); put_view(o, x, in.a); put(o, std::string(in.a)); if (!in.a.empty()) { put(o, in.a.front()); put(o, in.a.back()); put(o, in.a.at(in.a.size() - 1)); }), true },
    { "sv_copy", OP(std::size_t p = std::min(in.n, in.a.size()); std::vector<char> buf(in.k + 1, '#'); put(o, in.a.copy(buf.data(), in.k, p)); o.append(buf.data(), buf.size());), true },
    { "sv_stream", OP(std::ostringstream s; s.width((std::streamsize)in.n); s << in.a; s << in.b; s.width((std::streamsize)in.k); s.fill('_'); s << std::left << in.c; put(o, s.str());), true },
    { "sv_iterate", OP(std::string s(in.a.begin(), in.a.end()); std::string t(in.a.rbegin(), in.a.rend()); put(o, s); put(o, t);), true },
    { "sv_concat", OP(std::string s("x"); s.append(in.a.begin(), in.a.end()); put(o, s);), true },
    { "span", OP(gul14::span<const char> sp(in.a.data(), in.a.size()); std::size_t p = std::min(in.n, sp.size()); std::size_t q = std::min(in.k, sp.size() - p); for (char ch : sp.first(p)) put(o, ch); o += '|'; for (char ch : sp.last(p)) put(o, ch); o += '|'; for (char ch : sp.subspan(p, q)) put(o, ch); for (auto it = sp.rbegin(); it != sp.rend(); ++it) put(o, *it); put(o, (std::size_t)gul14::as_bytes(sp).size());), true },
    { "smallvec", OP(gul14::SmallVector<char, 6> v(in.a.begin(), in.a.end()); v.insert(v.begin() + (std::ptrdiff_t)std::min<std::size_t>(in.n, v.size()), in.b.begin(), in.b.end()); v.assign(in.c.begin(), in.c.end()); v.insert(v.end(), in.a.begin(), in.a.end()); put_all(o, v);), true },
    { "statistics", OP(if (in.a.size() > 1) { auto v = numbers(in.a); put(o, gul14::mean(v)); put(o, gul14::rms(v)); put(o, gul14::median(v)); put(o, gul14::minimum(v)); put(o, gul14::maximum(v)); put(o, gul14::standard_deviation(v).sigma()); auto m = gul14::min_max(v); put(o, m.min); put(o, m.max); put_all(o, gul14::remove_outliers(v, 1)); }), true },
    { "statistics_chars", OP(if (in.a.size() > 1) { put(o, gul14::mean(in.a)); put(o, gul14::rms(in.a)); put(o, gul14::median(in.a)); put(o, (int)gul14::minimum(in.a)); put(o, (int)gul14::maximum(in.a)); put(o, gul14::standard_deviation(in.a).sigma()); }), true },
    { "statistics_iterators", OP(if (in.a.size() > 1) { auto b = in.a.begin(); auto e = in.a.end(); put(o, gul14::mean(b, e)); put(o, gul14::rms(b, e)); put(o, gul14::median(b, e)); put(o, (int)gul14::minimum(b, e)); put(o, (int)gul14::maximum(b, e)); put(o, gul14::standard_deviation(b, e).sigma()); }), true },
    };
    return *t;
}
} // namespace ops
