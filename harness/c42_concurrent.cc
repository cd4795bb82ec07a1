// C42: all free functions, const functions of shared objects and all functions of separate objects from several
// threads at the same time; the results are those of a single thread. The threads of the harness are not
// synchronized while they work, so that the race detector sees every access to shared state.
#include "ops.h"
#include "perturb.h"
#include <locale>
#include <thread>
#include <unordered_map>
using namespace vm;
using gul14::string_view;
namespace d = gul14::date;

// The character classification of the C++ library fills caches on first use without synchronization (also those of
// std::regex); fill them here, so that the race detector reports the shared state of gul14 only
static const bool warm = [] {
    const auto& f = std::use_facet<std::ctype<char>>(std::locale());
    char all[256], out[256];
    for (int i = 0; i < 256; ++i) { all[i] = (char)i; f.narrow((char)i, '\0'); f.narrow((char)i, 'x'); f.widen((char)i); }
    f.narrow(all, all + 256, '\0', out); f.widen(all, all + 256, out);
    return true;
}();
// Start line without a happens-before edge between the threads
struct Line { std::atomic<unsigned> n{ 0 }; void wait(unsigned all) { n.fetch_add(1, std::memory_order_relaxed); for (int i = 0; n.load(std::memory_order_relaxed) < all && i < 2000000; ++i) if (i > 1000) ::usleep(1); } };

template <typename F> void threads(unsigned n, F f)
{
    Line line;
    std::vector<std::thread> ts;
    for (unsigned k = 0; k < n; ++k) ts.emplace_back([&, k] { line.wait(n); f(k); });
    for (auto& t : ts) t.join();
}

static void make_inputs(Rng& r, std::string (&t)[3])
{
    t[0] = r.chance(1, 3) ? rand_from(r, "0123456789.e-+naif", r.below(20)) : rand_string(r);
    if (t[0].size() > 1500) t[0].resize(1500);
    t[1] = r.chance(1, 3) ? rand_string(r) : related_string(r, t[0]);
    t[2] = r.chance(1, 2) ? rand_string(r) : related_string(r, t[0]);
    for (int i = 1; i < 3; ++i) if (t[i].size() > 60) t[i].resize(60);
}
static std::string digest(const ops::Op& op, const ops::In& in)
{
    std::string o;
    try { op.fn(in, o); } catch (const std::exception& e) { o += std::string("exception ") + e.what(); }
    return o;
}
static void functions(Case& c, unsigned nt, unsigned reps, std::size_t few)
{
    Rng& r = c.rng;
    std::string t[3];
    make_inputs(r, t);
    const ops::In in{ t[0], t[1], t[2], r.below(12), r.below(12) };
    const auto& all = ops::table();
    std::vector<const ops::Op*> use;
    if (few == 0) for (auto& op : all) use.push_back(&op);
    else for (std::size_t k = 0; k < few; ++k) use.push_back(&all[r.below(all.size())]);
    c.desc(show(t[0]) + " " + show(t[1]) + " " + show(t[2]));
    std::vector<std::vector<std::string>> got(nt, std::vector<std::string>(use.size()));
    std::uint64_t seed = r.next();
    std::vector<int> unsteady(nt, -1);
    threads(nt, [&](unsigned k) {
        Rng q(mix(seed + k));
        std::vector<std::size_t> order;
        for (unsigned x = 0; x < reps; ++x) for (std::size_t i = 0; i < use.size(); ++i) order.push_back(i);
        if (q.chance(1, 2)) for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[q.below(i)]);
        std::vector<char> have(use.size(), 0);
        for (std::size_t i : order)
        {
            std::string o = digest(*use[i], in);
            if (have[i] && o != got[k][i]) unsteady[k] = (int)i;
            got[k][i] = o; have[i] = 1;
        }
    });
    for (unsigned k = 0; k < nt; ++k) if (unsteady[k] >= 0) VIOL("unsteady", use[(std::size_t)unsteady[k]]->name << " gave different results for the same input");
    for (std::size_t i = 0; i < use.size(); ++i)
    {
        std::string want = digest(*use[i], in);
        for (unsigned k = 0; k < nt; ++k) CHECK(got[k][i] == want, std::string("differs-") + use[i]->name, "thread " << k << ": " << show(got[k][i]) << " instead of " << show(want));
    }
    c.eval(nt * reps * use.size());
    c.count("threads", nt); c.count("calls", nt * reps * use.size());
    c.distinct(hash_mix(hash_str(t[0] + '|' + t[1] + '|' + t[2]), hash_mix(nt, use.size())));
}
// Must stay the first group: nothing has been called before in this process, so that the threads compete for
// the initialization of everything that is initialized on first use
GROUP("first_use", 12, 12) { functions(c, 6, 1, 0); }
GROUP("all_functions", 200, 900) { functions(c, 2 + (unsigned)c.rng.below(5), 1, 0); }
GROUP("same_function", 1200, 5000) { functions(c, 2 + (unsigned)c.rng.below(7), 6, 1 + c.rng.below(3)); }

// Const access to one object
template <typename V> void put_any(std::string& o, const V& v) { for (auto& x : v) ops::put(o, x); o += '|'; for (auto it = v.crbegin(); it != v.crend(); ++it) ops::put(o, *it); o += '|'; }
struct Shared
{
    gul14::SmallVector<std::string, 4> sv; gul14::SmallVector<int, 8> si;
    gul14::SlidingBuffer<std::string, 5> rb; gul14::SlidingBuffer<int> rd{ 7 }; gul14::SlidingBufferExposed<int, 6> re;
    gul14::optional<std::string> op; gul14::optional<int> on; gul14::expected<std::string, int> ex; gul14::expected<int, std::string> er{ gul14::unexpected<std::string>("bad") };
    gul14::variant<int, std::string, double> va; gul14::Trigger tr; std::vector<double> nums; std::string text;
    d::sys_seconds tp; d::year_month_day ymd;
    std::shared_ptr<gul14::ThreadPool> pool;
    explicit Shared(Rng& r)
    {
        for (std::size_t k = r.below(9); k > 0; --k) { sv.push_back(rand_from(r, "abc", r.below(30))); si.push_back((int)r.below(100)); }
        for (std::size_t k = r.below(12); k > 0; --k) { rb.push_front(rand_from(r, "abc", r.below(30))); rd.push_back((int)r.below(100)); re.push_front((int)r.below(100)); }
        if (r.chance(2, 3)) op = rand_from(r, "abc", r.below(30));
        if (r.chance(1, 2)) on = (int)r.below(100);
        ex = rand_from(r, "abc", r.below(30));
        if (r.chance(1, 2)) va = rand_from(r, "abc", r.below(30)); else va = 2.5;
        if (r.chance(1, 2)) tr = true;
        for (std::size_t k = 2 + r.below(20); k > 0; --k) nums.push_back((double)r.range(-50, 50) * 0.5);
        text = rand_string(r).substr(0, 200);
        tp = d::sys_seconds{ std::chrono::seconds{ r.range(0, 4000000000ll) } };
        ymd = d::year_month_day{ d::sys_days{ d::days{ (int)r.below(40000) } } };
        pool = gul14::make_thread_pool(1 + r.below(2), 10);
    }
};
static std::string look(const Shared& s)
{
    std::string o;
    put_any(o, s.sv); put_any(o, s.si);
    ops::put(o, (std::size_t)s.sv.size()); ops::put(o, s.sv.empty()); if (!s.sv.empty()) { ops::put(o, s.sv.front()); ops::put(o, s.sv.back()); ops::put(o, s.sv.at(0)); ops::put(o, s.sv[0]); }
    gul14::SmallVector<std::string, 4> copy(s.sv); ops::put(o, copy == s.sv); ops::put(o, copy != s.sv);
    for (auto& x : s.rb) ops::put(o, x);
    for (auto& x : s.rd) ops::put(o, x);
    for (auto& x : s.re) ops::put(o, x);
    ops::put(o, (std::size_t)s.rb.size()); ops::put(o, s.rb.filled()); ops::put(o, (std::size_t)s.rd.capacity()); if (!s.rb.empty()) { ops::put(o, s.rb.front()); ops::put(o, s.rb.back()); ops::put(o, s.rb[0]); }
    gul14::SlidingBuffer<std::string, 5> rcopy(s.rb); ops::put(o, (std::size_t)rcopy.size());
    ops::put(o, s.op); ops::put(o, s.on); ops::put(o, s.op.has_value()); ops::put(o, s.op.value_or("none")); ops::put(o, s.op == s.op); gul14::optional<std::string> oc(s.op); ops::put(o, oc == s.op);
    ops::put(o, s.ex.has_value()); ops::put(o, *s.ex); ops::put(o, s.er.error()); ops::put(o, s.er.value_or(3)); auto ec = s.ex; ops::put(o, ec == s.ex); ops::put(o, s.ex.map([](const std::string& x) { return x.size(); }).value());
    try { s.er.value(); } catch (const std::exception& e) { ops::put(o, e.what()); }
    ops::put(o, (std::size_t)s.va.index()); gul14::visit([&](const auto& x) { ops::put(o, x); }, s.va); auto vc = s.va; ops::put(o, vc == s.va); ops::put(o, std::hash<gul14::variant<int, std::string, double>>()(s.va) == std::hash<gul14::variant<int, std::string, double>>()(vc));
    try { gul14::get<int>(s.va); } catch (const std::exception& e) { ops::put(o, e.what()); }
    ops::put(o, bool(s.tr)); ops::put(o, s.tr.wait_for(std::chrono::milliseconds(0)));
    ops::put(o, gul14::mean(s.nums)); ops::put(o, gul14::median(s.nums)); ops::put(o, gul14::rms(s.nums)); ops::put(o, gul14::standard_deviation(s.nums).sigma()); ops::put(o, gul14::min_max(s.nums).max); ops::put_all(o, gul14::remove_outliers(s.nums, 1)); ops::put(o, gul14::accumulate<double>(s.nums, [](double a, double b) { return a + b; }));
    gul14::span<const double> sp(s.nums); ops::put(o, sp.back()); ops::put(o, (std::size_t)sp.subspan(1).size());
    ops::put(o, gul14::hexdump(s.text)); { std::ostringstream str; str << gul14::hexdump_stream(s.text); ops::put(o, str.str()); }
    ops::put(o, d::format("%F %T %A %j %U", s.tp)); ops::put(o, d::format("%c|%x|%X|%p", s.tp));
    { std::istringstream is(d::format("%d %b %Y %I:%M:%S %p", s.tp)); d::sys_seconds q{}; is >> d::parse("%d %b %Y %I:%M:%S %p", q); ops::put(o, q == s.tp); }
    { std::ostringstream str; using gul14::date::operator<<; str << s.ymd << ' ' << d::weekday(d::sys_days(s.ymd)); ops::put(o, str.str()); }
    ops::put(o, (std::size_t)s.pool->count_threads()); ops::put(o, (std::size_t)s.pool->capacity()); ops::put(o, (std::size_t)s.pool->count_pending()); ops::put(o, s.pool->is_full()); ops::put(o, s.pool->is_idle()); ops::put(o, s.pool->is_shutdown_requested()); ops::put_all(o, s.pool->get_pending_task_names()); ops::put_all(o, s.pool->get_running_task_names());
    ops::put(o, gul14::type_name<std::vector<int>>()); ops::put(o, gul14::type_name<Shared>());
    return o;
}
GROUP("const_objects", 500, 2500)
{
    Rng& r = c.rng;
    watch("const objects");
    unsigned nt = 2 + (unsigned)r.below(6);
    const Shared s(r);
    std::vector<std::string> got(nt);
    threads(nt, [&](unsigned k) { for (int i = 0; i < 3; ++i) { std::string o = look(s); if (i == 0) got[k] = o; else if (o != got[k]) got[k] = "unsteady: " + got[k] + " / " + o; } });
    std::string want = look(s);
    for (unsigned k = 0; k < nt; ++k) CHECK(got[k] == want, "const-object", "thread " << k << ": " << show(got[k]) << " instead of " << show(want));
    unwatch();
    c.eval(nt * 3); c.count("const_looks", nt * 3); c.distinct(hash_str(want));
    if (c.want_sample()) c.sample(show(want.substr(0, 200)));
}

// Separate objects: a deterministic program per seed
static std::string program(std::uint64_t seed)
{
    Rng r(mix(seed));
    std::string o;
    gul14::SmallVector<std::string, 3> v; gul14::SlidingBuffer<std::string, 4> b; gul14::SlidingBuffer<int> bd{ 3 }; gul14::SlidingBufferExposed<std::string> be(4); gul14::optional<std::string> op; gul14::expected<std::string, std::string> ex; gul14::variant<std::string, int> va; gul14::Trigger tr;
    int fin = 0;
    for (int step = 0; step < 40; ++step)
    {
        std::string x = rand_from(r, "abcd", r.below(25));
        switch (r.below(16))
        {
        case 0: v.push_back(x); break;
        case 1: v.insert(v.begin() + (std::ptrdiff_t)r.below(v.size() + 1), x); break;
        case 2: if (!v.empty()) v.erase(v.begin() + (std::ptrdiff_t)r.below(v.size())); break;
        case 3: { auto w = v; std::swap(v, w); w.clear(); v.shrink_to_fit(); break; }
        case 4: b.push_front(x); bd.push_back(step); be.push_back(x); break;
        case 5: b.push_back(x); bd.push_front(step); be.push_front(x); break;
        case 6: bd.resize(1 + r.below(6)); be.resize(1 + r.below(6)); break;
        case 7: op = x; ex = x; va = x; break;
        case 8: op.reset(); ex = gul14::unexpected<std::string>(x); va = step; break;
        case 9: tr = r.chance(1, 2); ops::put(o, bool(tr)); ops::put(o, tr.wait_for(std::chrono::milliseconds(0))); break;
        case 10: { auto f = gul14::finally([&] { fin += step; }); break; }
        case 11: { auto t = gul14::tic(); ops::put(o, gul14::toc(t) >= 0.0); gul14::sleep(0.00001); ops::put(o, gul14::toc<std::chrono::microseconds>(t) >= 0); break; }
        case 12: { std::ostringstream s; s << std::oct << gul14::hexdump_stream(x) << 8; ops::put(o, s.str()); break; }
        case 13: { d::sys_seconds tp{ std::chrono::seconds{ r.range(0, 4000000000ll) } }, q{}; std::string s = d::format("%A %d %B %Y %T", tp); std::istringstream is(s); is >> d::parse("%A %d %B %Y %T", q); ops::put(o, s); ops::put(o, q == tp); break; }
        case 14: { ops::put(o, gul14::to_number<double>(gul14::cat((int)r.below(1000), ".", r.below(1000), "e", r.range(-30, 30)))); ops::put(o, gul14::gcd(12 + (int)r.below(100), 18)); ops::put(o, gul14::within_ulp(1.0, 1.0 + 1e-16, 2)); break; }
        default:
            if (r.chance(1, 4))
            {
                auto p = gul14::make_thread_pool(1 + r.below(3));
                auto h = p->add_task([x] { return x + "!"; }, "task " + x); auto g = p->add_task([](gul14::ThreadPool& q) { return q.count_threads(); });
                ops::put(o, h.get_result()); ops::put(o, (std::size_t)g.get_result());
            }
        }
    }
    put_any(o, v); for (auto& x : b) ops::put(o, x); for (auto& x : bd) ops::put(o, x); for (auto& x : be) ops::put(o, x);
    ops::put(o, op); ops::put(o, ex ? *ex : ex.error()); ops::put(o, (std::size_t)va.index()); ops::put(o, fin);
    return o;
}
GROUP("separate_objects", 800, 4000)
{
    Rng& r = c.rng;
    watch("separate objects");
    unsigned nt = 2 + (unsigned)r.below(6);
    std::vector<std::string> got(nt);
    std::uint64_t seed = r.next();
    threads(nt, [&](unsigned k) { got[k] = program(seed + k); });
    for (unsigned k = 0; k < nt; ++k) { std::string want = program(seed + k); CHECK(got[k] == want, "separate-objects", "thread " << k << ": " << show(got[k]) << " instead of " << show(want)); c.distinct(hash_str(want)); }
    unwatch();
    c.eval(nt); c.count("programs", nt);
}
