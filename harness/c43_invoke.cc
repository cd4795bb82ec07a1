// C43: invoke calls exactly what it is given and returns its result unchanged; type_name names the type
#include "gen.h"
#include <memory>
#include <list>
#include <map>
#include <array>
#include <gul14/traits.h>
#include <gul14/type_name.h>
#include <gul14/string_view.h>
using namespace vm;

// ---------------------------------------------------------------- invoke
// An argument that records how it was passed on
struct Log { int copies = 0, moves = 0, calls = 0; std::string how; };
static Log g;
struct Arg
{
    int v; bool moved = false;
    explicit Arg(int x) : v(x) {}
    Arg(const Arg& o) : v(o.v) { ++g.copies; }
    Arg(Arg&& o) noexcept : v(o.v) { o.moved = true; ++g.moves; }
};
struct Res { int v; explicit Res(int x) : v(x) {} Res(Res&& o) noexcept : v(o.v) { o.v = -1; } Res(const Res&) = delete; };

struct Base
{
    int data; Arg member{ 0 };
    explicit Base(int d) : data(d) {}
    virtual ~Base() {}
    int& field() & { ++g.calls; g.how += "&"; return data; }
    int field() && { ++g.calls; g.how += "&&"; return data; }
    int add(int x) { ++g.calls; g.how += "m"; return data + x; }
    int cadd(int x) const { ++g.calls; g.how += "c"; return data - x; }
    int lref(int) & { ++g.calls; g.how += "l"; return data; }
    int clref(int) const & { ++g.calls; g.how += "cl"; return data; }
    int rref(int) && { ++g.calls; g.how += "r"; return data; }
    virtual int virt(int x) { ++g.calls; g.how += "B"; return data * x; }
    Res take(Arg a, std::unique_ptr<int> p) { ++g.calls; g.how += "t"; return Res(a.v + *p + data); }
    int& ref(int& x) { ++g.calls; g.how += "f"; return x; }
    void nothing(int& x) noexcept { ++g.calls; x = data; }
};
struct Derived : Base
{
    explicit Derived(int d) : Base(d) {}
    int virt(int x) override { ++g.calls; g.how += "D"; return data + 1000 * x; }
};
struct Functor
{
    int id;
    int operator()(int x) & { ++g.calls; g.how += "F&"; return id + x; }
    int operator()(int x) const & { ++g.calls; g.how += "Fc&"; return id - x; }
    int operator()(int x) && { ++g.calls; g.how += "F&&"; return id * x; }
    std::string operator()(const Arg&) { ++g.calls; g.how += "lv"; return "lvalue"; }
    std::string operator()(Arg&&) { ++g.calls; g.how += "rv"; return "rvalue"; }
    int operator()() { ++g.calls; return 42; }
    int operator()(int a, int b, int cc, int d) { ++g.calls; return a * 1000 + b * 100 + cc * 10 + d; }
};
static int free_fn(int a, int b) { ++g.calls; return a - 2 * b; }
static int& free_ref(int& a) noexcept { ++g.calls; return a; }
static Res free_move(std::unique_ptr<int> p) { ++g.calls; return Res(*p); }
struct Thrower { int operator()(int x) const { ++g.calls; throw x; } };
template <typename T> struct Ptr // a pointer-like class
{
    T* p;
    T& operator*() const { return *p; }
};

#define ONCE(tag) CHECK(g.calls == 1, "calls", tag << ": called " << g.calls << " times"); CHECK(g.copies == 0, "copies", tag << ": " << g.copies << " copies of the argument"); evals++
#define HOW(tag, want) CHECK(g.how == want, "wrong-target", tag << ": " << g.how << " was called instead of " << want)
#define RESET g = Log()

GROUP("invoke", 20000, 400000)
{
    Rng& r = c.rng;
    int x = (int)r.below(1000) - 500, y = (int)r.below(1000) - 500, d = (int)r.below(100);
    long evals = 0;
    using gul14::invoke;
    // functions
    RESET; CHECK(gul14::invoke(free_fn, x, y) == x - 2 * y, "function", x << " " << y); ONCE("function");
    RESET; CHECK(gul14::invoke(&free_fn, y, x) == y - 2 * x, "function", x << " " << y); ONCE("function pointer");
    RESET; int& rx = gul14::invoke(free_ref, x); CHECK(&rx == &x, "reference-result", "a copy was returned"); ONCE("reference");
    RESET; CHECK(gul14::invoke(free_move, std::unique_ptr<int>(new int(y))).v == y, "move-only", y); ONCE("move-only");
    // function objects and their value categories
    Functor f{ d }; const Functor cf{ d };
    RESET; CHECK(gul14::invoke(f, x) == d + x, "functor", ""); HOW("lvalue functor", "F&"); ONCE("lvalue functor");
    RESET; CHECK(gul14::invoke(cf, x) == d - x, "functor", ""); HOW("const functor", "Fc&"); ONCE("const functor");
    RESET; CHECK(gul14::invoke(std::move(f), x) == d * x, "functor", ""); HOW("rvalue functor", "F&&"); ONCE("rvalue functor");
    RESET; CHECK(gul14::invoke(Functor{ d }, x) == d * x, "functor", ""); HOW("temporary functor", "F&&"); ONCE("temporary functor");
    RESET; CHECK(gul14::invoke(f) == 42, "functor", ""); ONCE("no arguments");
    RESET; CHECK(gul14::invoke(f, 1, 2, 3, 4) == 1234, "argument-order", ""); ONCE("four arguments");
    { Arg a(x); RESET; CHECK(gul14::invoke(f, a) == "lvalue" && !a.moved, "category", "lvalue argument"); HOW("lvalue argument", "lv"); ONCE("lvalue argument"); CHECK(g.moves == 0, "moves", ""); }
    { const Arg a(x); RESET; CHECK(gul14::invoke(f, a) == "lvalue", "category", "const argument"); ONCE("const argument"); }
    { Arg a(x); RESET; CHECK(gul14::invoke(f, std::move(a)) == "rvalue" && !a.moved, "category", "rvalue argument"); HOW("rvalue argument", "rv"); ONCE("rvalue argument"); CHECK(g.moves == 0, "moves", ""); }
    { int cap = x; auto l = [&cap](int z) mutable { ++g.calls; cap += z; return cap; }; RESET; CHECK(gul14::invoke(l, y) == x + y && cap == x + y, "lambda", ""); ONCE("lambda"); }
    { std::function<int(int)> sf = [&](int z) { ++g.calls; return z + d; }; RESET; CHECK(gul14::invoke(sf, y) == y + d, "std::function", ""); ONCE("std::function"); RESET; CHECK(gul14::invoke(std::ref(sf), y) == y + d, "ref", ""); ONCE("reference_wrapper of a function object"); }
    // members, through every kind of object expression
    Base b(d); Derived dv(d + 1); const Base cb(d + 2); const Derived cdv(d + 3);
    Base* pb = &b; Base* pv = &dv; const Base* pcb = &cb; Derived* pd = &dv;
    auto sp = std::make_shared<Derived>(d + 4); std::unique_ptr<Base> up(new Derived(d + 5)); Ptr<Derived> cp{ &dv };
    auto wb = std::ref(b); auto wv = std::ref(dv); auto wc = std::cref(cb); std::reference_wrapper<Base> wbase(dv);
#define CALL(tag, expr, want, how_) RESET; CHECK((expr) == (want), "member", tag << ": got " << (expr) << ", expected " << (want)); g.how = g.how.substr(0, std::string(how_).size()); HOW(tag, how_); evals++
#define CALL1(tag, expr, want, how_) do { RESET; auto res_ = (expr); CHECK(res_ == (want), "member", tag << ": got " << res_ << ", expected " << (want)); ONCE(tag); HOW(tag, how_); } while (0)
    CALL1("object", gul14::invoke(&Base::add, b, x), d + x, "m");
    CALL1("derived object", gul14::invoke(&Base::add, dv, x), d + 1 + x, "m");
    CALL1("pointer", gul14::invoke(&Base::add, pb, x), d + x, "m");
    CALL1("pointer to derived", gul14::invoke(&Base::add, pd, x), d + 1 + x, "m");
    CALL1("shared_ptr", gul14::invoke(&Base::add, sp, x), d + 4 + x, "m");
    CALL1("unique_ptr", gul14::invoke(&Base::add, up, x), d + 5 + x, "m");
    CALL1("class pointer", gul14::invoke(&Base::add, cp, x), d + 1 + x, "m");
    CALL1("reference_wrapper", gul14::invoke(&Base::add, wb, x), d + x, "m");
    CALL1("reference_wrapper to derived", gul14::invoke(&Base::add, wv, x), d + 1 + x, "m");
    CALL1("const object", gul14::invoke(&Base::cadd, cb, x), d + 2 - x, "c");
    CALL1("const derived", gul14::invoke(&Base::cadd, cdv, x), d + 3 - x, "c");
    CALL1("pointer to const", gul14::invoke(&Base::cadd, pcb, x), d + 2 - x, "c");
    CALL1("cref", gul14::invoke(&Base::cadd, wc, x), d + 2 - x, "c");
    CALL1("rvalue", gul14::invoke(&Base::rref, Base(y), x), y, "r");
    CALL1("moved", gul14::invoke(&Base::rref, std::move(b), x), d, "r");
    CALL1("lvalue-qualified", gul14::invoke(&Base::lref, b, x), d, "l");
    CALL1("const-lvalue-qualified", gul14::invoke(&Base::clref, b, x), d, "cl");
    CALL1("lvalue-qualified through pointer", gul14::invoke(&Base::lref, pb, x), d, "l");
    CALL1("lvalue-qualified through rvalue pointer", gul14::invoke(&Base::lref, &b, x), d, "l");
    CALL1("virtual, reference", gul14::invoke(&Base::virt, static_cast<Base&>(dv), x), d + 1 + 1000 * x, "D");
    CALL1("virtual, pointer", gul14::invoke(&Base::virt, pv, x), d + 1 + 1000 * x, "D");
    CALL1("virtual, unique_ptr", gul14::invoke(&Base::virt, up, x), d + 5 + 1000 * x, "D");
    CALL1("virtual, wrapper", gul14::invoke(&Base::virt, wbase, x), d + 1 + 1000 * x, "D");
    CALL1("virtual, base", gul14::invoke(&Base::virt, b, x), d * x, "B");
    { using LF = int& (Base::*)() &; using RF = int (Base::*)() &&;
      RESET; int& q = gul14::invoke(static_cast<LF>(&Base::field), b); CHECK(&q == &b.data, "reference-result", "member function"); HOW("overload", "&"); ONCE("overload");
      RESET; CHECK(gul14::invoke(static_cast<RF>(&Base::field), std::move(b)) == d, "member", ""); HOW("overload", "&&"); ONCE("overload"); }
    { Arg a(x); RESET; CHECK(gul14::invoke(&Base::take, b, std::move(a), std::unique_ptr<int>(new int(y))).v == x + y + d, "member", ""); CHECK(g.copies == 0 && g.moves == 1 && a.moved, "copies", g.copies << " copies, " << g.moves << " moves"); CHECK(g.calls == 1, "calls", g.calls); }
    { int t = x; RESET; int& q = gul14::invoke(&Base::ref, sp, t); CHECK(&q == &t, "reference-result", ""); ONCE("reference argument"); }
    { int t = x - 1; RESET; gul14::invoke(&Base::nothing, wb, t); CHECK(t == d, "void", ""); ONCE("void"); }
    // data members: the very member of the very object
    CHECK(&gul14::invoke(&Base::data, b) == &b.data, "data", "object"); CHECK(&gul14::invoke(&Base::data, dv) == &dv.data, "data", "derived");
    CHECK(&gul14::invoke(&Base::data, pb) == &b.data, "data", "pointer"); CHECK(&gul14::invoke(&Base::data, pv) == &dv.data, "data", "pointer to base");
    CHECK(&gul14::invoke(&Base::data, sp) == &sp->data, "data", "shared_ptr"); CHECK(&gul14::invoke(&Base::data, up) == &up->data, "data", "unique_ptr");
    CHECK(&gul14::invoke(&Base::data, wb) == &b.data, "data", "wrapper"); CHECK(&gul14::invoke(&Base::data, wv) == &dv.data, "data", "wrapper of derived");
    CHECK(&gul14::invoke(&Base::data, cb) == &cb.data, "data", "const"); CHECK(&gul14::invoke(&Base::data, wc) == &cb.data, "data", "cref"); CHECK(&gul14::invoke(&Base::data, cp) == &dv.data, "data", "class pointer");
    gul14::invoke(&Base::data, wb) = y; CHECK(b.data == y, "data", "assignment through invoke");
    { RESET; Base src(x); Arg got(gul14::invoke(&Base::member, std::move(src))); CHECK(src.member.moved && g.moves == 1 && g.copies == 0, "category", "data member of an rvalue is an rvalue"); }
    { RESET; Base src(x); Arg got(gul14::invoke(&Base::member, src)); CHECK(!src.member.moved && g.copies == 1, "category", "data member of an lvalue is an lvalue"); }
    evals += 15;
    // exceptions come out unchanged
    { RESET; bool caught = false; try { gul14::invoke(Thrower(), x); } catch (int e) { caught = e == x; } CHECK(caught, "exception", x); ONCE("throwing"); }
    c.eval(evals); c.count("calls", evals); c.distinct(hash_mix(hash_mix((std::uint64_t)x, (std::uint64_t)y), (std::uint64_t)d));
}

// ---------------------------------------------------------------- traits
#define SAME(...) do { bool ok_ = std::is_same<__VA_ARGS__>::value; CHECK(ok_, "trait", #__VA_ARGS__); ++n; } while (0)
#define YES(...) do { bool ok_ = __VA_ARGS__::value; CHECK(ok_, "trait", "should hold: " #__VA_ARGS__); ++n; } while (0)
#define NO(...) do { bool ok_ = !__VA_ARGS__::value; CHECK(ok_, "trait", "should not hold: " #__VA_ARGS__); ++n; } while (0)
struct Incomplete;
struct NotContainer { void cbegin(); };
struct HasBoth { using value_type = int; int* cbegin(); int* cend(); };
struct NoValueType { int* cbegin(); int* cend(); };
struct Explicit { explicit Explicit(int) {} };
GROUP("traits", 3, 10)
{
    long n = 0;
    using namespace gul14;
    YES(is_invocable<int(int), int>); YES(is_invocable<int (*)(int), short>); NO(is_invocable<int(int)>); NO(is_invocable<int(int), int, int>); NO(is_invocable<int(int*), int>);
    YES(is_invocable<Functor&, int>); YES(is_invocable<const Functor&, int>); YES(is_invocable<Functor, int>); NO(is_invocable<const Functor&>); NO(is_invocable<Functor&, int, int>);
    YES(is_invocable<decltype(&Base::add), Base&, int>); YES(is_invocable<decltype(&Base::add), Base*, int>); NO(is_invocable<decltype(&Base::add), const Base&, int>); NO(is_invocable<decltype(&Base::add), const Base*, int>); NO(is_invocable<decltype(&Base::add), Base&>);
    YES(is_invocable<decltype(&Base::rref), Base, int>); NO(is_invocable<decltype(&Base::rref), Base&, int>); NO(is_invocable<decltype(&Base::lref), Base, int>); YES(is_invocable<decltype(&Base::lref), Base&, int>);
    YES(is_invocable<decltype(&Base::data), Base&>); YES(is_invocable<decltype(&Base::data), std::shared_ptr<Derived>>); NO(is_invocable<decltype(&Base::data), int>); NO(is_invocable<decltype(&Base::data), Base&, int>); YES(is_invocable<decltype(&Base::data), std::reference_wrapper<Derived>>);
    NO(is_invocable<int, int>); NO(is_invocable<void>); NO(is_invocable<std::string, int>);
    YES(is_invocable_r<long, int(int), int>); YES(is_invocable_r<int, decltype(&Base::cadd), const Base*, char>); NO(is_invocable_r<std::string, int(int), int>); NO(is_invocable_r<Explicit, int(int), int>); NO(is_invocable_r<int, int(int)>); NO(is_invocable_r<int, void(int), int>); YES(is_invocable_r<void, void(int), int>); NO(is_invocable_r<int*, int(int), int>);
    SAME(invoke_result_t<int(int), int>, int); SAME(invoke_result_t<decltype(free_ref)&, int&>, int&); SAME(invoke_result_t<decltype(&Base::data), Base&>, int&); SAME(invoke_result_t<decltype(&Base::data), const Base&>, const int&); SAME(invoke_result_t<decltype(&Base::data), Base>, int&&); SAME(invoke_result_t<decltype(&Base::data), Base*>, int&); SAME(invoke_result_t<decltype(&Base::data), std::reference_wrapper<const Base>>, const int&);
    SAME(invoke_result_t<decltype(&Base::take), Base&, Arg, std::unique_ptr<int>>, Res); SAME(invoke_result_t<Functor&, Arg&>, std::string); SAME(typename invoke_result<Functor&>::type, int);
    SAME(remove_cvref_t<const volatile int&>, int); SAME(remove_cvref_t<int&&>, int); SAME(remove_cvref_t<const int* const&>, const int*); SAME(remove_cvref_t<void>, void); SAME(remove_cvref_t<int (&)[3]>, int[3]); SAME(remove_cvref_t<const int (&)[3]>, int[3]); SAME(typename remove_cvref<const std::string&>::type, std::string); SAME(remove_cvref_t<int(&)(int)>, int(int));
    SAME(void_t<int, char>, void); SAME(void_t<>, void);
    YES(IsContainerLike<std::vector<int>>); YES(IsContainerLike<std::list<std::string>>); YES(IsContainerLike<std::string>); YES(IsContainerLike<std::array<int, 3>>); YES(IsContainerLike<std::map<int, int>>); YES(IsContainerLike<std::set<int>>); YES(IsContainerLike<string_view>); YES(IsContainerLike<HasBoth>); YES(IsContainerLike<const std::vector<int>>);
    NO(IsContainerLike<int>); NO(IsContainerLike<int*>); NO(IsContainerLike<int[3]>); NO(IsContainerLike<NotContainer>); NO(IsContainerLike<NoValueType>); NO(IsContainerLike<void>); NO(IsContainerLike<Base>);
    c.eval(n); c.count("traits", n); c.distinct(1);
}

// ---------------------------------------------------------------- type_name
// The name of a type has to be its spelling (up to blanks); the expected spelling is the one in this source.
static std::string squeeze(const std::string& s)
{
    std::string o;
    for (std::size_t i = 0; i < s.size(); ++i)
    {
        if (s[i] == '\'' && i + 2 < s.size()) { o += s.substr(i, 3); i += 2; } // character literal
        else if (s[i] != ' ') o += s[i];
    }
    return o;
}
namespace tn {
struct S {};
enum class E { a, b };
template <typename...> struct T {};
template <char...> struct C {};
template <int...> struct I {};
template <typename A, int N> struct M { struct Inner {}; };
template <template <typename...> class X> struct TT {};
union U { int i; };
struct a_type_with_a_rather_long_name_to_make_sure_that_no_fixed_length_buffer_is_used_anywhere_in_the_implementation {};
}
struct Results { std::map<std::string, int> names; int next = 0; };
template <typename T> void name(Results& res, const char* spelled)
{
    const std::string got = std::string(gul14::type_name<T>());
    CHECK(squeeze(got) == squeeze(spelled), "type-name", "\"" << got << "\" instead of \"" << spelled << "\"");
    CHECK(gul14::type_name<T>() == gul14::string_view(got), "type-name-repeat", got);
    CHECK(res.names.emplace(got, res.next++).second, "type-name-distinct", "two types are called \"" << got << "\"");
}
#define N(...) name<__VA_ARGS__>(res, #__VA_ARGS__)
template <char... Cs> struct AllChars
{
    template <char Ch> static int one(Results& res)
    {
        const std::string got = std::string(gul14::type_name<tn::C<Ch>>());
        if (Ch > 32 && Ch < 127 && Ch != '\'' && Ch != '\\' && Ch != '"')
        {
            const std::string want = std::string("tn::C<'") + Ch + "'>";
            CHECK(got == want, "type-name", got << " instead of " << want);
            const std::string g2 = squeeze(std::string(gul14::type_name<tn::T<tn::C<Ch, Ch>, const int*>>())), w2 = std::string("tn::T<tn::C<'") + Ch + "','" + Ch + "'>,constint*>";
            CHECK(g2 == w2, "type-name", g2 << " instead of " << w2);
        }
        CHECK(got.size() > 6 && got.substr(0, 6) == "tn::C<" && got.back() == '>', "type-name", got);
        CHECK(res.names.emplace(got, res.next++).second, "type-name-distinct", "two types are called \"" << got << "\"");
        return 0;
    }
};
template <std::size_t... Is> void all_chars(Results& res, std::index_sequence<Is...>) { int x[] = { AllChars<>::one<static_cast<char>(Is)>(res)... }; (void)x; }
template <typename T> struct Nest { using type = tn::T<T, tn::I<1>>; };
template <typename T, int K> struct Deep { static void go(Results& res, std::string want)
{
    const std::string got = squeeze(std::string(gul14::type_name<T>()));
    CHECK(got == want, "type-name", got << " instead of " << want); ++res.next;
    Deep<tn::T<T, tn::C<';'>>, K - 1>::go(res, "tn::T<" + want + ",tn::C<';'>>");
} };
template <typename T> struct Deep<T, 0> { static void go(Results&, std::string) {} };
GROUP("type_name", 3, 10)
{
    Results res;
    N(int); N(char); N(bool); N(double); N(float); N(void); N(unsigned int); N(unsigned char); N(signed char); N(long double); N(wchar_t);
    N(const int); N(volatile int); N(const volatile int); N(int*); N(const int*); N(int* const); N(int&); N(int&&); N(const int&); N(const int&&); N(int**); N(const int* const*);
    N(int[3]); N(int[4]); N(int[]); N(int[3][4]); N(int (*)[3]); N(int (&)[3]); N(int (&&)[3]); N(int(int)); N(int()); N(void()); N(int(*)(int)); N(int(&)(char, int)); N(void(*)(int, ...));
    N(tn::S); N(tn::S&); N(const tn::S*); N(tn::E); N(tn::U); N(tn::S[2]); N(int tn::S::*); N(void (tn::S::*)(int)); N(void (tn::S::*)(int) const);
    N(tn::T<>); N(tn::T<int>); N(tn::T<int, char>); N(tn::T<tn::T<int>, tn::T<>>); N(tn::I<>); N(tn::I<1>); N(tn::I<1, 2>); N(tn::I<-1>); N(tn::M<int, 3>); N(tn::M<tn::S, 3>::Inner); N(tn::M<int, 3>&); N(tn::TT<tn::T>);
    N(tn::C<'a', ';', 'b'>); N(tn::C<';'>); N(tn::C<'=', ';', '='>); N(tn::T<tn::C<';'>, int>); N(const tn::C<']'>&); N(tn::C<'[', ';', ']'>*); N(tn::T<tn::C<'=', ';'>, tn::S*>&&); N(tn::C<' ', '=', ' '>); N(tn::C<';', ' ', '=', ' '>);
    N(tn::a_type_with_a_rather_long_name_to_make_sure_that_no_fixed_length_buffer_is_used_anywhere_in_the_implementation);
    N(tn::T<tn::a_type_with_a_rather_long_name_to_make_sure_that_no_fixed_length_buffer_is_used_anywhere_in_the_implementation, tn::a_type_with_a_rather_long_name_to_make_sure_that_no_fixed_length_buffer_is_used_anywhere_in_the_implementation>);
    Results chars; all_chars(chars, std::make_index_sequence<256>());
    Deep<int, 12>::go(res, "int");
    constexpr auto at_compile_time = gul14::type_name<tn::S>(); CHECK(at_compile_time == "tn::S", "type-name", "");
    c.eval(res.next + chars.next); c.count("types", res.next + chars.next); c.distinct(2); c.sample(std::string(gul14::type_name<tn::T<tn::C<';'>, int>>()));
}
