// Common runtime-monitoring framework for all harnesses in /verif/harness.
//
// A harness registers "groups". A group is a function that executes ONE case; all random
// decisions of a case come from a generator that is seeded with (seed, group, case number), so
// that a case can be replayed on its own:  ./harness --seed S --only GROUP --case N
//
// A monitor (oracle) that sees the property broken calls VIOL(key, message) or CHECK(...); this
// writes a violation record and ends the process. Everything observed is counted and written
// to the file given by --out, from which check.py composes the evidence.
#pragma once
#include <atomic>
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vm {

inline std::uint64_t mix(std::uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

inline std::uint64_t hash_bytes(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull)
{
    auto c = static_cast<const unsigned char*>(p);
    for (std::size_t i = 0; i != n; ++i)
        h = (h ^ c[i]) * 1099511628211ull;
    return mix(h ^ n);
}
inline std::uint64_t hash_str(const std::string& s, std::uint64_t h = 1469598103934665603ull)
{
    return hash_bytes(s.data(), s.size(), h);
}
inline std::uint64_t hash_mix(std::uint64_t a, std::uint64_t b) { return mix(a * 31 + b); }

struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 0) : s(seed) {}
    std::uint64_t next()
    {
        s += 0x9e3779b97f4a7c15ull;
        std::uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    std::uint64_t operator()() { return next(); }
    // 0 <= x < n
    std::size_t below(std::size_t n) { return n == 0 ? 0 : static_cast<std::size_t>(next() % n); }
    // a <= x <= b
    long long range(long long a, long long b)
    {
        return a + static_cast<long long>(next() % static_cast<std::uint64_t>(b - a + 1));
    }
    bool chance(unsigned num, unsigned den) { return next() % den < num; }
    double unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
    template <typename C>
    auto pick(const C& c) -> decltype(c[0]) { return c[below(c.size())]; }
    template <typename T, std::size_t N>
    const T& pick(const T (&a)[N]) { return a[below(N)]; }
};

struct Options
{
    std::uint64_t seed = 1;
    bool thorough = false;
    int shard = 0, nshards = 1;
    std::string out, progress, only;
    long long only_case = -1;
    double scale = 1.0;
};

inline std::string json_quote(const std::string& s)
{
    std::string r = "\"";
    char buf[8];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 32 || c >= 127) { std::snprintf(buf, sizeof buf, "\\u%04x", c); r += buf; }
        else r += static_cast<char>(c);
    }
    return r + "\"";
}

// Printable form of an arbitrary byte string
inline std::string show(const char* p, std::size_t n)
{
    std::string r = "\"";
    char buf[8];
    for (std::size_t i = 0; i != n && i < 400; ++i)
    {
        unsigned char c = static_cast<unsigned char>(p[i]);
        if (c < 32 || c >= 127 || c == '"' || c == '\\') { std::snprintf(buf, sizeof buf, "\\x%02x", c); r += buf; }
        else r += static_cast<char>(c);
    }
    if (n > 400) r += "...(" + std::to_string(n) + ")";
    return r + "\"";
}
inline std::string show(const std::string& s) { return show(s.data(), s.size()); }

class Case;

struct Group
{
    std::string name;
    std::uint64_t quick, thorough;
    std::function<void(Case&)> fn;
};

struct Global
{
    Options opt;
    std::vector<Group> groups;
    std::mutex m;
    std::uint64_t evaluations = 0;
    std::map<std::string, std::uint64_t> counters;
    std::unordered_set<std::uint64_t> distinct;
    std::map<std::string, std::vector<std::string>> samples;
    char* progress = nullptr; // mmap'ed: survives a crash
    const Group* cur_group = nullptr;
    std::uint64_t cur_case = 0;
    std::string desc;
};
inline Global& G() { static Global* g = new Global; return *g; }

struct Registrar
{
    Registrar(std::string name, std::uint64_t quick, std::uint64_t thorough, std::function<void(Case&)> fn)
    {
        G().groups.push_back({ std::move(name), quick, thorough, std::move(fn) });
    }
};

inline void write_out(const std::string& viol)
{
    auto& g = G();
    if (g.opt.out.empty()) return;
    FILE* f = std::fopen(g.opt.out.c_str(), "w");
    if (!f) return;
    std::fprintf(f, "{\"evaluations\": %" PRIu64 ", \"counters\": {", g.evaluations);
    bool first = true;
    for (auto& c : g.counters)
    {
        std::fprintf(f, "%s%s: %" PRIu64, first ? "" : ", ", json_quote(c.first).c_str(), c.second);
        first = false;
    }
    std::fprintf(f, "}, \"samples\": [");
    first = true;
    for (auto& kv : g.samples)
        for (auto& s : kv.second)
        {
            std::fprintf(f, "%s%s", first ? "" : ", ", json_quote(kv.first + ": " + s).c_str());
            first = false;
        }
    std::fprintf(f, "], \"distinct\": %zu, \"violation\": %s}\n", g.distinct.size(), viol.empty() ? "null" : viol.c_str());
    std::fclose(f);
    f = std::fopen((g.opt.out + ".distinct").c_str(), "wb");
    if (f)
    {
        std::vector<std::uint64_t> v(g.distinct.begin(), g.distinct.end());
        if (!v.empty()) std::fwrite(v.data(), 8, v.size(), f);
        std::fclose(f);
    }
}

[[noreturn]] inline void violation(const std::string& key, const std::string& msg)
{
    static std::atomic<bool> once{ false };
    if (once.exchange(true))
        for (;;) ::usleep(100000); // another thread is already reporting
    auto& g = G();
    std::string grp = g.cur_group ? g.cur_group->name : "?";
    std::string text = msg;
    if (!g.desc.empty()) text += " | case: " + g.desc;
    std::string v = "{\"key\": " + json_quote(grp + ":" + key) + ", \"group\": " + json_quote(grp)
        + ", \"case\": " + std::to_string(g.cur_case) + ", \"seed\": " + std::to_string(g.opt.seed)
        + ", \"detail\": " + json_quote(text) + "}";
    std::fprintf(stderr, "MONITOR VIOLATION key=%s:%s case=%" PRIu64 " seed=%" PRIu64 "\n  %s\n", grp.c_str(),
        key.c_str(), g.cur_case, g.opt.seed, text.c_str());
    write_out(v);
    std::fflush(nullptr);
    if (std::getenv("VM_PAUSE")) for (;;) ::usleep(100000); // for a debugger
    ::_exit(1);
}

class Case
{
public:
    Rng rng;
    std::uint64_t idx;
    std::string group;
    Case(std::uint64_t seed, const std::string& grp, std::uint64_t i)
        : rng(mix(mix(seed * 0x9e3779b97f4a7c15ull + 17) ^ hash_str(grp) ^ mix(i + 0x5151))), idx(i), group(grp)
    {}
    // Not thread-safe: to be called from the main thread of the harness only
    void eval(std::uint64_t n = 1) { G().evaluations += n; }
    void count(const std::string& what, std::uint64_t n = 1) { G().counters[what] += n; }
    void distinct(std::uint64_t h)
    {
        if (G().distinct.size() < 3000000) G().distinct.insert(hash_mix(h, hash_str(group)));
    }
    bool want_sample() const
    {
        auto it = G().samples.find(group);
        return it == G().samples.end() || it->second.size() < 2;
    }
    void sample(const std::string& s) { if (want_sample()) G().samples[group].push_back(s.substr(0, 600)); }
    void desc(std::string s) { G().desc = std::move(s); }
    bool thorough() const { return G().opt.thorough; }
};

// Reporting is kept out of line, unoptimised and uninstrumented: it keeps compile times low
#if defined(__clang__)
#define VM_COLD __attribute__((noinline, cold, no_sanitize("address", "undefined", "thread")))
#else
#define VM_COLD __attribute__((noinline, cold, no_sanitize("address", "undefined"), optimize("O0")))
#endif
#define VIOL(key, msg)                                                                             \
    [&]() VM_COLD {                                                                                \
        std::ostringstream vm_o_;                                                                  \
        vm_o_ << msg;                                                                              \
        ::vm::violation(key, vm_o_.str());                                                         \
    }()

#define CHECK(cond, key, msg)                                                                      \
    do {                                                                                           \
        if (!(cond)) VIOL(key, "[" #cond "] " << msg);                                             \
    } while (0)

#define VM_CAT2(a, b) a##b
#define VM_CAT(a, b) VM_CAT2(a, b)
#define GROUP(name, quick, thorough) GROUP_I(name, quick, thorough, VM_CAT(vm_grp_, __LINE__))
#define GROUP_I(name, quick, thorough, id)                                                         \
    static void id(::vm::Case& c);                                                                 \
    static ::vm::Registrar VM_CAT(id, _r){ name, quick, thorough, id };                            \
    static void id(::vm::Case& c)

inline int run_main(int argc, char** argv)
{
    auto& g = G();
    auto& o = g.opt;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return ++i < argc ? argv[i] : ""; };
        if (a == "--seed") o.seed = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--thorough") o.thorough = true;
        else if (a == "--shard") { o.shard = std::atoi(val().c_str()); }
        else if (a == "--nshards") { o.nshards = std::atoi(val().c_str()); }
        else if (a == "--out") o.out = val();
        else if (a == "--progress") o.progress = val();
        else if (a == "--only") o.only = val();
        else if (a == "--case") o.only_case = std::atoll(val().c_str());
        else if (a == "--scale") o.scale = std::atof(val().c_str());
        else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if (!o.progress.empty())
    {
        int fd = ::open(o.progress.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ::ftruncate(fd, 4096) == 0)
        {
            void* p = ::mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) g.progress = static_cast<char*>(p);
        }
        if (fd >= 0) ::close(fd);
    }
    for (auto& grp : g.groups)
    {
        if (!o.only.empty() && o.only != grp.name) continue;
        g.cur_group = &grp;
        std::uint64_t n = static_cast<std::uint64_t>(static_cast<double>(o.thorough ? grp.thorough : grp.quick) * o.scale);
        if (n == 0 && (o.thorough ? grp.thorough : grp.quick) != 0) n = 1;
        std::uint64_t first = 0, last = n;
        if (o.only_case >= 0) { first = static_cast<std::uint64_t>(o.only_case); last = first + 1; }
        for (std::uint64_t i = first; i < last; ++i)
        {
            if (o.only_case < 0 && static_cast<int>(i % static_cast<std::uint64_t>(o.nshards)) != o.shard) continue;
            g.cur_case = i;
            g.desc.clear();
            if (g.progress) std::snprintf(g.progress, 4000, "%s %" PRIu64 "\n", grp.name.c_str(), i);
            Case c(o.seed, grp.name, i);
            try
            {
                grp.fn(c);
            }
            catch (const std::exception& e)
            {
                violation("unexpected-exception", std::string("exception escaped: ") + e.what());
            }
            catch (...)
            {
                violation("unexpected-exception", "unknown exception escaped");
            }
            ++g.counters["cases." + grp.name];
        }
    }
    g.cur_group = nullptr;
    write_out("");
    return 0;
}

} // namespace vm

#ifndef VM_NO_MAIN
int main(int argc, char** argv) { return vm::run_main(argc, argv); }
#endif
