// C40: calendar computations against an incremental civil calendar, glibc's gmtime/strftime and 128-bit arithmetic
#include "gen.h"
#include <gul14/date.h>
#include <ctime>
#include <sstream>
#include <functional>
#include <iomanip>
using namespace vm;
namespace d = gul14::date;
typedef long long ll;
typedef __int128 i128;

static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static unsigned last_day(int y, unsigned m) { static const unsigned t[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 2 && leap(y) ? 29 : t[m - 1]; }
static ll fdiv(ll a, ll b) { ll q = a / b; return a % b != 0 && (a % b < 0) != (b < 0) ? q - 1 : q; }
static ll fmod_(ll a, ll b) { return a - fdiv(a, b) * b; }
static ll year_start(int y) { ll p = (ll)y - 1; return 365 * ((ll)y - 1970) + (fdiv(p, 4) - fdiv(p, 100) + fdiv(p, 400)) - (1969 / 4 - 1969 / 100 + 1969 / 400); }
static ll day_no(int y, unsigned m, unsigned dd) { ll n = year_start(y); for (unsigned k = 1; k < m; ++k) n += last_day(y, k); return n + dd - 1; }
struct Civil { int y; unsigned m, d; };
static Civil civil(ll n) // by search, not by formula
{
    int y = 1970 + (int)fdiv(n, 366);
    while (year_start(y + 1) <= n) ++y;
    while (year_start(y) > n) --y;
    ll r = n - year_start(y);
    unsigned m = 1;
    while (r >= (ll)last_day(y, m)) { r -= last_day(y, m); ++m; }
    return { y, m, (unsigned)r + 1 };
}
static const int YMIN = -32767, YMAX = 32767;
static int rand_year(Rng& r) { switch (r.below(6)) { case 0: return YMIN + (int)r.below(3); case 1: return YMAX - (int)r.below(3); case 2: return (int)r.range(-10, 10); case 3: return (int)r.range(1800, 2200); default: return (int)r.range(YMIN, YMAX); } }
static std::string ymds(int y, unsigned m, unsigned dd) { std::ostringstream o; o << y << '/' << m << '/' << dd; return o.str(); }

#if !defined(PART) || PART == 6
// ---- every day of every supported year
GROUP("every_day", 65535, 65535)
{
    const int y = YMIN + (int)c.idx;
    const d::year yy{ y };
    ll n = year_start(y);
    CHECK(yy.ok() && (int)yy == y, "year-ok", y);
    CHECK(yy.is_leap() == leap(y), "is_leap", y);
    for (unsigned m = 1; m <= 12; ++m)
    {
        const d::month mm{ m };
        const unsigned L = last_day(y, m);
        const d::year_month_day_last ymdl = yy / mm / d::last;
        CHECK((unsigned)ymdl.day() == L && ymdl.ok(), "last-day", y << '/' << m << ": " << (unsigned)ymdl.day());
        CHECK(d::sys_days(ymdl).time_since_epoch().count() == n + (int)L - 1 && d::local_days(ymdl).time_since_epoch().count() == n + (int)L - 1, "last-day-count", y << '/' << m);
        CHECK(d::year_month_day(ymdl) == yy / mm / d::day{ L }, "last-day-ymd", y << '/' << m);
        for (unsigned dd = 1; dd <= L; ++dd, ++n)
        {
            const d::year_month_day ymd{ yy, mm, d::day{ dd } };
            CHECK(ymd.ok(), "ok", ymds(y, m, dd));
            const d::sys_days sd = ymd;
            CHECK(sd.time_since_epoch().count() == n, "to-days", ymds(y, m, dd) << ": " << sd.time_since_epoch().count() << " instead of " << n);
            const d::year_month_day back = d::sys_days{ d::days{ (int)n } };
            CHECK((int)back.year() == y && (unsigned)back.month() == m && (unsigned)back.day() == dd, "from-days", n << ": " << (int)back.year() << '/' << (unsigned)back.month() << '/' << (unsigned)back.day());
            const d::weekday wd = d::sys_days{ d::days{ (int)n } };
            const unsigned w = (unsigned)fmod_(n + 4, 7);
            CHECK(wd.ok() && wd.c_encoding() == w && wd.iso_encoding() == (w ? w : 7u), "weekday", ymds(y, m, dd) << ": " << wd.c_encoding());
            const d::year_month_weekday ymw = sd;
            CHECK(ymw.ok() && (int)ymw.year() == y && (unsigned)ymw.month() == m && ymw.index() == (dd - 1) / 7 + 1 && ymw.weekday() == wd, "year_month_weekday", ymds(y, m, dd));
            CHECK(d::sys_days(yy / mm / wd[(dd - 1) / 7 + 1]).time_since_epoch().count() == n, "nth-weekday", ymds(y, m, dd));
            if (dd + 7 > L)
            {
                const auto lw = yy / mm / wd[d::last];
                CHECK(lw.ok() && d::sys_days(lw).time_since_epoch().count() == n, "last-weekday", ymds(y, m, dd));
                CHECK(d::local_days(lw).time_since_epoch().count() == n, "last-weekday-local", ymds(y, m, dd));
                CHECK((yy / mm / wd[5]).ok() == (dd > 28), "fifth-weekday-ok", ymds(y, m, dd));
            }
            CHECK(d::local_days(ymd).time_since_epoch().count() == n && d::year_month_day(d::local_days{ d::days{ (int)n } }) == ymd && d::weekday(d::local_days{ d::days{ (int)n } }) == wd, "local-days", ymds(y, m, dd));
        }
        for (unsigned dd = L + 1; dd <= 33; ++dd)
        {
            const d::year_month_day ymd{ yy, mm, d::day{ dd } };
            CHECK(!ymd.ok(), "ok-too-late", ymds(y, m, dd));
            CHECK(d::sys_days(ymd).time_since_epoch().count() == n + (ll)(dd - L) - 1, "overflowing-day", ymds(y, m, dd));
        }
        CHECK(!d::year_month_day(yy, mm, d::day{ 0 }).ok(), "ok-day-0", ymds(y, m, 0));
    }
    CHECK(!d::year_month_day(yy, d::month{ 0 }, d::day{ 1 }).ok() && !d::year_month_day(yy, d::month{ 13 }, d::day{ 1 }).ok(), "ok-month", y);
    CHECK(n == year_start(y + 1), "internal", y);
    c.eval(365);
    c.count("days", (ll)(n - year_start(y)));
    c.distinct((std::uint64_t)(y + 40000));
    if (c.want_sample()) c.sample("all days of year " + std::to_string(y));
}
// ---- arithmetic on years, months, days and weekdays
GROUP("arithmetic", 30000, 600000)
{
    Rng& r = c.rng;
    int y = rand_year(r);
    unsigned m = 1 + (unsigned)r.below(12), dd = 1 + (unsigned)r.below(28);
    int dm = r.chance(1, 2) ? (int)r.range(-40, 40) : (int)r.range(-30000, 30000);
    int dy = r.chance(1, 2) ? (int)r.range(-8, 8) : (int)r.range(-2000, 2000);
    ll t = (ll)y * 12 + (m - 1) + dm;
    ll ty = fdiv(t, 12); unsigned tm = (unsigned)fmod_(t, 12) + 1;
    c.desc(ymds(y, m, dd) + " months " + std::to_string(dm) + " years " + std::to_string(dy));
    const d::year yy{ y }; const d::month mm{ m }; const d::day D{ dd };
    const d::year_month ym = yy / mm;
    const d::year_month_day ymd = ym / D;
    if (ty >= YMIN && ty <= YMAX)
    {
        auto chk = [&](d::year a, d::month b, const char* k) { CHECK((int)a == ty && (unsigned)b == tm, k, (int)a << '/' << (unsigned)b << " instead of " << ty << '/' << tm); };
        auto p = ym + d::months{ dm }; chk(p.year(), p.month(), "ym+months");
        p = d::months{ dm } + ym; chk(p.year(), p.month(), "months+ym");
        p = ym - d::months{ -dm }; chk(p.year(), p.month(), "ym-months");
        p = ym; p += d::months{ dm }; chk(p.year(), p.month(), "ym+=months");
        p = ym; p -= d::months{ -dm }; chk(p.year(), p.month(), "ym-=months");
        auto q = ymd + d::months{ dm }; chk(q.year(), q.month(), "ymd+months"); CHECK((unsigned)q.day() == dd, "ymd+months-day", (unsigned)q.day());
        q = d::months{ dm } + ymd; chk(q.year(), q.month(), "months+ymd"); CHECK((unsigned)q.day() == dd, "months+ymd-day", (unsigned)q.day());
        q = ymd - d::months{ -dm }; chk(q.year(), q.month(), "ymd-months"); CHECK((unsigned)q.day() == dd, "ymd-months-day", (unsigned)q.day());
        q = ymd; q += d::months{ dm }; chk(q.year(), q.month(), "ymd+=months"); CHECK((unsigned)q.day() == dd, "ymd+=months-day", (unsigned)q.day());
        q = ymd; q -= d::months{ -dm }; chk(q.year(), q.month(), "ymd-=months"); CHECK((unsigned)q.day() == dd, "ymd-=months-day", (unsigned)q.day());
        auto l = ym / d::last;
        auto l2 = l + d::months{ dm }; chk(l2.year(), l2.month(), "ymdl+months"); CHECK((unsigned)l2.day() == last_day((int)ty, tm), "ymdl+months-day", (unsigned)l2.day());
        l2 = l - d::months{ -dm }; chk(l2.year(), l2.month(), "ymdl-months");
        l2 = l; l2 += d::months{ dm }; chk(l2.year(), l2.month(), "ymdl+=months");
        l2 = l; l2 -= d::months{ -dm }; chk(l2.year(), l2.month(), "ymdl-=months");
        auto w = ym / d::weekday{ dd % 7 }[1 + dd % 5];
        auto w2 = w + d::months{ dm }; chk(w2.year(), w2.month(), "ymw+months"); CHECK(w2.weekday_indexed() == w.weekday_indexed(), "ymw+months-wd", "");
        w2 = w - d::months{ -dm }; chk(w2.year(), w2.month(), "ymw-months");
        auto wl = ym / d::weekday{ dd % 7 }[d::last];
        auto wl2 = wl + d::months{ dm }; chk(wl2.year(), wl2.month(), "ymwl+months"); CHECK(wl2.weekday() == wl.weekday(), "ymwl+months-wd", "");
        wl2 = wl - d::months{ -dm }; chk(wl2.year(), wl2.month(), "ymwl-months");
        CHECK(((d::year{ (int)ty } / d::month{ tm }) - ym).count() == dm, "ym-ym", ((d::year{ (int)ty } / d::month{ tm }) - ym).count());
        c.eval(22);
    }
    if (y + dy >= YMIN && y + dy <= YMAX)
    {
        CHECK((int)(yy + d::years{ dy }) == y + dy && (int)(d::years{ dy } + yy) == y + dy && (int)(yy - d::years{ -dy }) == y + dy, "year+years", (int)(yy + d::years{ dy }));
        d::year z = yy; z += d::years{ dy }; CHECK((int)z == y + dy, "year+=", (int)z); z -= d::years{ dy }; CHECK(z == yy, "year-=", (int)z);
        CHECK((d::year{ y + dy } - yy).count() == dy, "year-year", "");
        auto q = ymd + d::years{ dy }; CHECK((int)q.year() == y + dy && q.month() == mm && q.day() == D, "ymd+years", "");
        q = ymd - d::years{ -dy }; CHECK((int)q.year() == y + dy && q.month() == mm && q.day() == D, "ymd-years", "");
        q = ymd; q += d::years{ dy }; CHECK((int)q.year() == y + dy && q.month() == mm && q.day() == D, "ymd+=years", "");
        q = ymd; q -= d::years{ -dy }; CHECK((int)q.year() == y + dy && q.month() == mm && q.day() == D, "ymd-=years", "");
        auto p = ym + d::years{ dy }; CHECK((int)p.year() == y + dy && p.month() == mm, "ym+years", "");
        p = ym - d::years{ -dy }; CHECK((int)p.year() == y + dy && p.month() == mm, "ym-years", "");
        p = ym; p += d::years{ dy }; p -= d::years{ dy }; CHECK(p == ym, "ym+=-=years", "");
        auto l2 = ym / d::last + d::years{ dy }; CHECK((int)l2.year() == y + dy && l2.month() == mm, "ymdl+years", "");
        auto w2 = ym / d::Tuesday[2] + d::years{ dy }; CHECK((int)w2.year() == y + dy && w2.month() == mm && w2.weekday_indexed() == d::Tuesday[2], "ymw+years", "");
        auto w3 = ym / d::Tuesday[d::last] - d::years{ -dy }; CHECK((int)w3.year() == y + dy && w3.month() == mm && w3.weekday() == d::Tuesday, "ymwl-years", "");
        c.eval(14);
    }
    // months and weekdays wrap around
    {
        unsigned em = (unsigned)fmod_((ll)m - 1 + dm, 12) + 1;
        CHECK((unsigned)(mm + d::months{ dm }) == em && (unsigned)(d::months{ dm } + mm) == em && (unsigned)(mm - d::months{ -dm }) == em, "month+months", (unsigned)(mm + d::months{ dm }));
        d::month x = mm; x += d::months{ dm }; CHECK((unsigned)x == em, "month+=", (unsigned)x); x -= d::months{ dm }; CHECK(x == mm, "month-=", (unsigned)x);
        x = mm; ++x; CHECK((unsigned)x == m % 12 + 1, "++month", (unsigned)x); x--; --x; CHECK((unsigned)x == (m + 10) % 12 + 1, "--month", (unsigned)x);
        unsigned m2 = 1 + (unsigned)r.below(12);
        CHECK((mm - d::month{ m2 }).count() == fmod_((ll)m - m2, 12), "month-month", (mm - d::month{ m2 }).count());
        unsigned w = (unsigned)r.below(7), w2 = (unsigned)r.below(7);
        const d::weekday W{ w }, W2{ w2 };
        CHECK((W + d::days{ dm }).c_encoding() == (unsigned)fmod_((ll)w + dm, 7) && (d::days{ dm } + W).c_encoding() == (unsigned)fmod_((ll)w + dm, 7) && (W - d::days{ -dm }).c_encoding() == (unsigned)fmod_((ll)w + dm, 7), "weekday+days", (W + d::days{ dm }).c_encoding());
        d::weekday X = W; X += d::days{ dm }; CHECK(X.c_encoding() == (unsigned)fmod_((ll)w + dm, 7), "weekday+=", ""); X -= d::days{ dm }; CHECK(X == W, "weekday-=", ""); ++X; CHECK(X.c_encoding() == (w + 1) % 7, "++weekday", ""); X--; --X; CHECK(X.c_encoding() == (w + 6) % 7, "--weekday", "");
        CHECK((W - W2).count() == fmod_((ll)w - w2, 7), "weekday-weekday", (W - W2).count());
        CHECK(d::weekday{ 7 } == d::Sunday && d::weekday{ 0 } == d::Sunday, "weekday-7", "");
        c.eval(14);
    }
    // comparisons and differences of dates
    {
        int y2 = r.chance(1, 2) ? y : rand_year(r); unsigned m2 = r.chance(1, 2) ? m : 1 + (unsigned)r.below(12), d2 = 1 + (unsigned)r.below(last_day(y2, m2));
        const d::year_month_day o{ d::year{ y2 }, d::month{ m2 }, d::day{ d2 } };
        ll a = day_no(y, m, dd), b = day_no(y2, m2, d2);
        CHECK((ymd < o) == (a < b) && (ymd == o) == (a == b) && (ymd != o) == (a != b) && (ymd <= o) == (a <= b) && (ymd > o) == (a > b) && (ymd >= o) == (a >= b), "ymd-compare", ymds(y2, m2, d2));
        const d::year_month o2 = o.year() / o.month();
        ll am = (ll)y * 12 + m, bm = (ll)y2 * 12 + m2;
        CHECK((ym < o2) == (am < bm) && (ym == o2) == (am == bm) && (ym > o2) == (am > bm) && (ym <= o2) == (am <= bm) && (ym >= o2) == (am >= bm) && (ym != o2) == (am != bm), "ym-compare", ymds(y2, m2, d2));
        CHECK((mm / D < o.month() / o.day()) == (m * 40 + dd < m2 * 40 + d2) && (mm / D == o.month() / o.day()) == (m == m2 && dd == d2), "md-compare", ymds(y2, m2, d2));
        CHECK((ym / d::last < o2 / d::last) == (am < bm) && (ym / d::last == o2 / d::last) == (am == bm) && (ym / d::last >= o2 / d::last) == (am >= bm), "ymdl-compare", ymds(y2, m2, d2));
        CHECK((d::sys_days(o) - d::sys_days(ymd)).count() == b - a, "difference", ymds(y2, m2, d2));
        d::year_month_day s = d::sys_days(ymd) + d::days{ (int)(b - a) }; CHECK(s == o, "plus-days", ymds(y2, m2, d2));
        CHECK((ll)(d::floor<d::weeks>(d::sys_days(o) - d::sys_days(ymd)).count()) == fdiv(b - a, 7), "weeks", "");
        c.eval(8);
    }
    // all the ways to write a date
    {
        const int iy = y; const int im = (int)m, id = (int)dd;
        CHECK(yy / mm / D == ymd && yy / mm / id == ymd && yy / im / D == ymd && yy / im / id == ymd && yy / (mm / D) == ymd && iy / (mm / D) == ymd, "y/m/d", "");
        CHECK(mm / D / yy == ymd && mm / id / yy == ymd && mm / id / iy == ymd && (mm / D) / iy == ymd && im / D / yy == ymd && im / D / iy == ymd, "m/d/y", "");
        CHECK(D / mm / yy == ymd && D / mm / iy == ymd && (D / mm) / yy == ymd, "d/m/y", "");
        CHECK(d::last / mm / yy == yy / mm / d::last && mm / d::last / yy == yy / mm / d::last && yy / mm / d::last == yy / im / d::last, "last", "");
        const auto wi = d::weekday{ dd % 7 }[1 + dd % 5]; const auto wl = d::weekday{ dd % 7 }[d::last];
        CHECK(wi / mm / yy == yy / mm / wi && mm / wi / yy == yy / mm / wi && yy / (mm / wi) == yy / mm / wi && wi / im / iy == yy / mm / wi, "weekday_indexed", "");
        CHECK(wl / mm / yy == yy / mm / wl && mm / wl / yy == yy / mm / wl && yy / (mm / wl) == yy / mm / wl && wl / im / iy == yy / mm / wl, "weekday_last", "");
        c.eval(6);
    }
    // single components
    {
        unsigned u = (unsigned)r.below(256);
        CHECK(d::day{ u }.ok() == (u >= 1 && u <= 31) && (unsigned)d::day{ u } == u, "day-ok", u);
        CHECK(d::month{ u }.ok() == (u >= 1 && u <= 12) && (unsigned)d::month{ u } == u, "month-ok", u);
        unsigned w7 = (unsigned)r.below(16);
        CHECK(d::weekday{ w7 }.ok() == (w7 <= 7), "weekday-ok", w7);
        unsigned ix = (unsigned)r.below(8), wq = (unsigned)r.below(7);
        CHECK(d::weekday{ wq }[ix].ok() == (ix >= 1 && ix <= 5), "weekday_indexed-ok", ix);
        unsigned mq = (unsigned)r.below(14), dq = (unsigned)r.below(33);
        CHECK((d::month{ mq } / d::day{ dq }).ok() == (mq >= 1 && mq <= 12 && dq >= 1 && dq <= last_day(2000, mq)), "month_day-ok", mq << '/' << dq);
        CHECK((d::month{ mq } / d::last).ok() == (mq >= 1 && mq <= 12), "month_day_last-ok", mq);
        // nth weekday may not exist
        ll first = day_no(y, m, 1); unsigned fw = (unsigned)fmod_(first + 4, 7);
        unsigned nth = 1 + (unsigned)fmod_((ll)wq - fw, 7) + (ix ? ix - 1 : 0) * 7;
        if (ix >= 1 && ix <= 5)
        {
            const auto ymw = yy / mm / d::weekday{ wq }[ix];
            CHECK(ymw.ok() == (nth <= last_day(y, m)), "nth-weekday-ok", wq << '[' << ix << ']');
            CHECK(d::sys_days(ymw).time_since_epoch().count() == first + (ll)nth - 1, "nth-weekday-count", wq << '[' << ix << ']');
        }
        d::day dx{ dd }; ++dx; CHECK((unsigned)dx == dd + 1, "++day", ""); --dx; dx += d::days{ 2 }; dx -= d::days{ 1 }; CHECK((unsigned)dx == dd + 1, "day+=", ""); CHECK((unsigned)(D + d::days{ 2 }) == dd + 2 && (unsigned)(d::day{ dd + 2 } - d::days{ 2 }) == dd && (d::day{ dd + 2 } - D).count() == 2, "day+-", "");
        if (y < YMAX) { d::year q = yy; ++q; CHECK((int)q == y + 1, "++year", ""); q--; CHECK(q == yy, "year--", ""); }
        CHECK((int)(-yy) == -y && (int)(+yy) == y, "-year", "");
        CHECK((int)d::year::min() == YMIN && (int)d::year::max() == YMAX, "year-range", "");
        c.eval(12);
    }
    c.distinct(hash_mix(hash_mix(y + 40000, m * 40 + dd), hash_mix(dm + 100000, dy + 5000)));
}
// ---- rounding of durations and time points
template <typename To, typename From> void rounding(Case& c, const char* name)
{
    typedef std::ratio_divide<typename From::period, typename To::period> Q; // one From = num/den To
    Rng& r = c.rng;
    ll v;
    switch (r.below(5)) { case 0: v = r.range(-20, 20); break; case 1: v = r.range(-100000, 100000); break; case 2: v = (ll)Q::den / (ll)(Q::num % 2 == 0 && Q::den % 2 ? 1 : 2) * r.range(-9, 9) + (Q::den > 1 ? r.range(-1, 1) : 0); break; case 3: v = (ll)Q::den * r.range(-9, 9) + r.range(-1, 1); break; default: v = r.range(-1000000000ll, 1000000000ll); }
    // like those of std::chrono, the functions compare the durations in their common type: it must be able to represent them
    typedef typename std::common_type<To, From>::type Common;
    typedef std::ratio_divide<typename From::period, typename Common::period> FC;
    typedef std::ratio_divide<typename To::period, typename Common::period> TC;
    const i128 lim = ((i128)std::numeric_limits<typename Common::rep>::max() - 2 * (i128)TC::num) / FC::num;
    if (v > lim || v < -lim) { c.count("outside of the common type"); v %= (ll)lim; }
    i128 num = (i128)v * Q::num, den = Q::den;
    i128 q = num / den; if (num % den != 0 && num < 0) --q; // floor
    i128 rem = num - q * den;
    ll fl = (ll)q, ce = (ll)(rem ? q + 1 : q), tr = v < 0 ? ce : fl;
    ll ro = rem * 2 < den ? fl : rem * 2 > den ? ce : fl % 2 == 0 ? fl : ce;
    if (rem == 0) ro = fl;
    const From f{ (typename From::rep)v };
    c.desc(std::string(name) + " " + std::to_string(v));
    CHECK(d::floor<To>(f).count() == fl, "floor", d::floor<To>(f).count() << " instead of " << fl);
    CHECK(d::ceil<To>(f).count() == ce, "ceil", d::ceil<To>(f).count() << " instead of " << ce);
    CHECK(d::round<To>(f).count() == ro, "round", d::round<To>(f).count() << " instead of " << ro);
    CHECK(d::trunc<To>(f).count() == tr, "trunc", d::trunc<To>(f).count() << " instead of " << tr);
    CHECK(d::abs(f).count() == (v < 0 ? -v : v), "abs", d::abs(f).count());
    const d::sys_time<From> tp{ f };
    CHECK(d::floor<To>(tp).time_since_epoch().count() == fl && d::ceil<To>(tp).time_since_epoch().count() == ce && d::round<To>(tp).time_since_epoch().count() == ro, "time-point", "");
    c.eval(8);
    c.count(rem == 0 ? "exact" : "inexact");
    c.distinct(hash_mix((std::uint64_t)v, hash_str(name)));
}
GROUP("rounding", 20000, 400000)
{
    using namespace std::chrono;
    rounding<seconds, milliseconds>(c, "s<-ms"); rounding<milliseconds, nanoseconds>(c, "ms<-ns"); rounding<d::days, seconds>(c, "days<-s");
    rounding<d::days, hours>(c, "days<-h"); rounding<d::weeks, d::days>(c, "weeks<-days"); rounding<hours, minutes>(c, "h<-min"); rounding<minutes, milliseconds>(c, "min<-ms");
    rounding<duration<ll, std::ratio<1, 3>>, duration<ll, std::ratio<1, 2>>>(c, "1/3<-1/2"); rounding<seconds, minutes>(c, "s<-min"); rounding<duration<ll, std::ratio<7>>, duration<ll, std::ratio<3, 5>>>(c, "7<-3/5");
    rounding<d::years, d::days>(c, "years<-days"); rounding<d::months, d::days>(c, "months<-days");
}
#endif

// ---- times of day
template <typename Dur> __attribute__((noinline)) void tod(Case& c, ll v, const char* name, unsigned width)
{
    const Dur du{ (typename Dur::rep)v };
    c.desc(std::string(name) + " " + std::to_string(v));
    const auto t = d::make_time(du);
    const bool neg = v < 0;
    const i128 P = Dur::period::num, Q = Dur::period::den;
    i128 a = (i128)(neg ? -(i128)v : (i128)v) * P; // in 1/Q s
    ll s = (ll)(a / Q); i128 sub = a % Q; // sub/Q s
    CHECK(t.is_negative() == neg, "is_negative", "");
    CHECK(t.hours().count() == s / 3600 && t.minutes().count() == s / 60 % 60 && t.seconds().count() == s % 60, "h-m-s", t.hours().count() << ':' << t.minutes().count() << ':' << t.seconds().count());
    typedef typename std::decay_t<decltype(t)>::precision Pr;
    i128 es = sub * Pr::period::den / (Q * (i128)Pr::period::num);
    CHECK((i128)t.subseconds().count() == es, "subseconds", (ll)t.subseconds().count());
    CHECK(t.to_duration() == du, "to_duration", "");
    std::ostringstream o; o << t;
    char buf[80]; int k = std::snprintf(buf, sizeof buf, "%s%02lld:%02lld:%02lld", neg ? "-" : "", s / 3600, s / 60 % 60, s % 60);
    if (width) { i128 f = sub; for (unsigned i = 0; i < width; ++i) f *= 10; f /= Q; std::snprintf(buf + k, sizeof buf - k, ".%0*lld", (int)width, (ll)f); }
    CHECK(o.str() == buf, "stream", show(o.str()) << " instead of " << show(buf));
    CHECK(d::format("%T", du) == buf, "format-T", show(d::format("%T", du)) << " instead of " << show(buf));
    c.eval(7);
    c.count(neg ? "tod.negative" : "tod.positive");
    c.distinct(hash_mix((std::uint64_t)v, hash_str(name)));
}
static ll rand_tod(Rng& r, ll per_sec)
{
    switch (r.below(5)) { case 0: return r.range(-3, 3); case 1: return per_sec * r.range(-90000, 90000) + r.range(-1, 1); case 2: return (per_sec * 86400 - 1) * (r.chance(1, 2) ? 1 : -1); case 3: return r.range(-per_sec * 86400, per_sec * 86400); default: return r.range(-per_sec * 400000, per_sec * 400000); }
}
// ---- formatting and parsing
struct Flds { int Y; unsigned m, d; int H, M, S; int wd; int yd; std::string frac; std::tm tm; };
static std::string expect(const std::string& fmt, const Flds& f)
{
    std::string o;
    auto two = [](int v) { char b[16]; std::snprintf(b, sizeof b, "%02d", v); return std::string(b); };
    for (std::size_t i = 0; i < fmt.size(); ++i)
    {
        if (fmt[i] != '%') { o += fmt[i]; continue; }
        char x = fmt[++i], b[64];
        switch (x)
        {
        case 'Y': std::snprintf(b, sizeof b, "%04d", f.Y); o += b; break;
        case 'm': o += two((int)f.m); break;
        case 'd': o += two((int)f.d); break;
        case 'e': std::snprintf(b, sizeof b, "%2u", f.d); o += b; break;
        case 'F': std::snprintf(b, sizeof b, "%04d-%02u-%02u", f.Y, f.m, f.d); o += b; break;
        case 'D': std::snprintf(b, sizeof b, "%02u/%02u/%02d", f.m, f.d, f.Y % 100); o += b; break;
        case 'C': o += two(f.Y / 100); break;
        case 'y': o += two(f.Y % 100); break;
        case 'H': o += two(f.H); break;
        case 'I': o += two(f.H % 12 ? f.H % 12 : 12); break;
        case 'p': o += f.H < 12 ? "AM" : "PM"; break;
        case 'M': o += two(f.M); break;
        case 'S': o += two(f.S) + f.frac; break;
        case 'T': o += two(f.H) + ":" + two(f.M) + ":" + two(f.S) + f.frac; break;
        case 'R': o += two(f.H) + ":" + two(f.M); break;
        case 'j': std::snprintf(b, sizeof b, "%03d", f.yd + 1); o += b; break;
        case 'u': o += std::to_string(f.wd ? f.wd : 7); break;
        case 'w': o += std::to_string(f.wd); break;
        case 'n': o += '\n'; break;
        case 't': o += '\t'; break;
        case '%': o += '%'; break;
        case 'z': o += "+0000"; break;
        case 'Z': o += "UTC"; break;
        case 'G': { char g[64]; std::strftime(g, sizeof g, "%G", &f.tm); std::snprintf(b, sizeof b, "%04d", std::atoi(g)); o += b; break; }
        default: { char ff[3] = { '%', x, 0 }; std::strftime(b, sizeof b, ff, &f.tm); o += b; } // a A b B h g U V W r X c x
        }
    }
    return o;
}
template <typename Dur> Flds fields_of(ll v, unsigned width)
{
    Flds f;
    const i128 P = Dur::period::num, Q = Dur::period::den;
    i128 a = (i128)v * P;
    i128 s = a / Q; if (a % Q != 0 && a < 0) --s;
    i128 sub = a - s * Q;
    ll sec = (ll)s, day = fdiv(sec, 86400), r = sec - day * 86400;
    Civil cv = civil(day);
    f.Y = cv.y; f.m = cv.m; f.d = cv.d; f.H = (int)(r / 3600); f.M = (int)(r / 60 % 60); f.S = (int)(r % 60);
    f.wd = (int)fmod_(day + 4, 7); f.yd = (int)(day - year_start(cv.y));
    if (width) { i128 x = sub; for (unsigned i = 0; i < width; ++i) x *= 10; x /= Q; char b[32]; std::snprintf(b, sizeof b, ".%0*lld", (int)width, (ll)x); f.frac = b; }
    f.tm = std::tm{}; f.tm.tm_year = cv.y - 1900; f.tm.tm_mon = (int)cv.m - 1; f.tm.tm_mday = (int)cv.d; f.tm.tm_hour = f.H; f.tm.tm_min = f.M; f.tm.tm_sec = f.S; f.tm.tm_wday = f.wd; f.tm.tm_yday = f.yd;
    return f;
}
template <typename TP> bool parse_as(const std::string& s, const std::string& fmt, TP& tp) { std::istringstream i(s); i >> d::parse(fmt, tp); return !i.fail(); }

static const char* const full_formats[] = { "%F %T", "%Y-%m-%d %H:%M:%S", "%d.%m.%Y %H:%M:%S", "%Y%m%d%H%M%S", "%FT%TZ", "%d %B %Y, %I:%M:%S %p", "%a, %d %b %Y %T %z", "%A %d %h %Y %T", "%Y-%j %T", "%C%y/%m/%d %R:%S",
    "%G-W%V-%u %T", "%Y %U %w %T", "%Y %W %a %T", "%Y week %W %U day %A%n%T", "%S %M %H %d %m %Y", "%T%t%D of century %C", "%F %T %Z", "%%%F%%%T%%", "%Y-%m-%d %j %a %G %V %u %H %I %p %M:%S" };
static const char* const format_only[] = { "%g", "%U %V %W", "%R", "%y", "%D", "%a %A %b %B %h", "%u%w", "%j", "%I%p", "%n%t%%", "%Z %z", "%S", "text only", "" };

template <typename Dur> __attribute__((noinline)) void one_time(Case& c, ll v, const char* name, unsigned width, bool exact)
{
    Rng& r = c.rng;
    const d::sys_time<Dur> tp{ Dur{ (typename Dur::rep)v } };
    const d::local_time<Dur> lp{ Dur{ (typename Dur::rep)v } };
    const Flds f = fields_of<Dur>(v, width);
    if (f.Y < 1 || f.Y > 9999) return;
    c.desc(std::string(name) + " " + std::to_string(v) + " = " + expect("%F %T", f));
    for (int k = 0; k < 3; ++k)
    {
        std::string fmt = k == 0 ? "%F %T" : r.pick(full_formats);
        std::string s = d::format(fmt, tp), e = expect(fmt, f);
        CHECK(s == e, "format", show(fmt) << ": " << show(s) << " instead of " << show(e));
        CHECK(d::format(fmt.c_str(), tp) == s, "format-c-string", show(fmt));
        if (fmt.find("%z") == std::string::npos && fmt.find("%Z") == std::string::npos) CHECK(d::format(fmt, lp) == s, "format-local", show(fmt) << ": " << show(d::format(fmt, lp)));
        if (exact)
        {
            d::sys_time<Dur> q{ Dur{ 12345 } };
            CHECK(parse_as(s, fmt, q), "parse-fails", show(s) << " with " << show(fmt));
            CHECK(q == tp, "parse", show(s) << " with " << show(fmt) << ": " << (ll)q.time_since_epoch().count());
            d::local_time<Dur> ql{ Dur{ 12345 } };
            CHECK(parse_as(s, fmt, ql) && ql == lp, "parse-local", show(s) << " with " << show(fmt) << ": " << (ll)ql.time_since_epoch().count());
        }
        c.eval(4);
    }
    std::string fo = r.pick(format_only);
    if (f.Y >= 1000 && r.chance(1, 2)) fo = r.chance(1, 2) ? "%x" : width ? "%x" : "%c";
    CHECK(d::format(fo, tp) == expect(fo, f), "format", show(fo) << ": " << show(d::format(fo, tp)) << " instead of " << show(expect(fo, f)));
    if (!width) CHECK(d::format("%r|%X", tp) == expect("%r|%X", f), "format", show(d::format("%r|%X", tp)));
    if (exact)
    {
        // with an offset from UTC
        int off = (int)r.range(-14 * 60, 14 * 60);
        if (std::ratio_greater<typename Dur::period, std::ratio<60>>::value) off -= off % 60; // must be a multiple of the resolution
        char z[40]; std::snprintf(z, sizeof z, "%c%02d%02d", off < 0 ? '-' : '+', std::abs(off) / 60, std::abs(off) % 60);
        char z2[40]; std::snprintf(z2, sizeof z2, "%c%02d:%02d", off < 0 ? '-' : '+', std::abs(off) / 60, std::abs(off) % 60);
        d::sys_time<Dur> q{}; std::chrono::minutes mo{ 7 }; std::string ab = "?";
        std::string s = expect("%F %T", f);
        std::istringstream i(s + " " + z + " CET"); i >> d::parse(std::string("%F %T %z %Z"), q, ab, mo);
        CHECK(!i.fail() && mo.count() == off && ab == "CET", "parse-offset", show(s) << ' ' << z << ": " << mo.count() << ' ' << ab);
        CHECK(q == d::sys_time<Dur>(std::chrono::time_point_cast<Dur>(tp - std::chrono::minutes{ off })), "parse-offset-time", show(s) << ' ' << z);
        std::istringstream i2(s + z2); d::sys_time<Dur> q2{}; i2 >> d::parse("%F %T%Ez", q2);
        CHECK(!i2.fail() && q2 == q, "parse-offset-E", show(s) << z2);
        std::istringstream i3(s + " " + z + " CET"); d::local_time<Dur> q3{}; i3 >> d::parse(std::string("%F %T %z %Z"), q3, ab, mo);
        CHECK(!i3.fail() && q3 == lp && mo.count() == off, "parse-offset-local", show(s) << ' ' << z);
        c.eval(4);
    }
    c.count("time", 1); c.count(v < 0 ? "time.before-1970" : "time.after-1970");
    c.distinct(hash_mix((std::uint64_t)v, hash_str(name)));
    if (c.want_sample()) c.sample(expect("%F %T", f));
}
static ll rand_time(Rng& r, ll lo_sec, ll hi_sec, ll per_sec, ll sec_per)
{
    ll s;
    switch (r.below(5))
    {
    case 0: s = r.range(-3, 3); break;
    case 1: s = 86400 * r.range(fdiv(lo_sec, 86400) + 1, fdiv(hi_sec, 86400)) + r.range(-1, 1); break;
    case 2: { int y0 = civil(fdiv(lo_sec, 86400)).y + 1, y1 = civil(fdiv(hi_sec, 86400)).y; s = y1 > y0 ? 86400 * (year_start((int)r.range(y0, y1)) + r.range(-8, 8)) + (ll)r.below(86400) : r.range(lo_sec, hi_sec); break; }
    default: s = r.range(lo_sec, hi_sec);
    }
    if (s < lo_sec) s = lo_sec;
    if (s > hi_sec) s = hi_sec;
    if (sec_per > 1) return fdiv(s, sec_per);
    ll f = 0;
    switch (r.below(5)) { case 0: break; case 1: f = per_sec - 1; break; case 2: f = per_sec > 1; break; default: f = (ll)r.below((std::size_t)per_sec); }
    return s * per_sec + f;
}
static const ll LO = -62135596800ll, HI = 253402300799ll; // years 1 to 9999
static const ll NLO = -9000000000ll, NHI = 9000000000ll; // nanoseconds in 64 bits
using namespace std::chrono;
typedef duration<ll, std::ratio<1, 2>> halves; typedef duration<ll, std::ratio<1, 8>> eighths; typedef duration<ll, std::deci> decis; typedef duration<ll, std::centi> centis; typedef duration<ll, std::ratio<1, 10000000>> ticks100; typedef duration<ll, std::pico> picos;
typedef duration<ll, std::ratio<1, 48000>> samples48k; typedef duration<ll, std::ratio<1, 3>> thirds;
#if !defined(PART) || PART == 1
GROUP("time_seconds", 4000, 80000) { one_time<seconds>(c, rand_time(c.rng, LO, HI, 1, 1), "s", 0, true); tod<seconds>(c, rand_tod(c.rng, 1), "tod s", 0); }
GROUP("time_milliseconds", 4000, 80000) { one_time<milliseconds>(c, rand_time(c.rng, LO, HI, 1000, 1), "ms", 3, true); tod<milliseconds>(c, rand_tod(c.rng, 1000), "tod ms", 3); }
// Locales that group the digits of numbers
struct Punct : std::numpunct<char> { std::string do_grouping() const override { return "\3"; } char do_thousands_sep() const override { return '\''; } };
GROUP("global_locale", 500, 10000)
{
    const std::locale old = std::locale::global(std::locale(std::locale::classic(), new Punct));
    one_time<milliseconds>(c, rand_time(c.rng, LO, HI, 1000, 1), "ms", 3, true); tod<milliseconds>(c, rand_tod(c.rng, 1000), "tod ms", 3);
    one_time<seconds>(c, rand_time(c.rng, LO, HI, 1, 1), "s", 0, true);
    std::locale::global(old);
}
GROUP("time_hours", 1500, 30000) { one_time<hours>(c, rand_time(c.rng, LO, HI, 1, 3600), "h", 0, true); tod<minutes>(c, c.rng.range(-6000, 6000), "tod min", 0); tod<hours>(c, c.rng.range(-120, 120), "tod h", 0); }
#endif
#if !defined(PART) || PART == 2
GROUP("time_nanoseconds", 4000, 80000) { one_time<nanoseconds>(c, rand_time(c.rng, NLO, NHI, 1000000000, 1), "ns", 9, true); tod<nanoseconds>(c, rand_tod(c.rng, 1000000000), "tod ns", 9); }
GROUP("time_microseconds", 3000, 60000) { one_time<microseconds>(c, rand_time(c.rng, LO, HI, 1000000, 1), "us", 6, true); tod<microseconds>(c, rand_tod(c.rng, 1000000), "tod us", 6); }
GROUP("time_minutes", 1000, 20000) { one_time<minutes>(c, rand_time(c.rng, LO, HI, 1, 60), "min", 0, true); }
#endif
#if !defined(PART) || PART == 3
GROUP("time_halves", 1000, 20000) { one_time<halves>(c, rand_time(c.rng, LO, HI, 2, 1), "1/2", 1, true); tod<halves>(c, rand_tod(c.rng, 2), "tod 1/2", 1); }
GROUP("time_eighths", 1000, 20000) { one_time<eighths>(c, rand_time(c.rng, LO, HI, 8, 1), "1/8", 3, true); tod<eighths>(c, rand_tod(c.rng, 8), "tod 1/8", 3); }
GROUP("time_decis", 1000, 20000) { one_time<decis>(c, rand_time(c.rng, LO, HI, 10, 1), "1/10", 1, true); tod<decis>(c, rand_tod(c.rng, 10), "tod 1/10", 1); }
#endif
#if !defined(PART) || PART == 4
GROUP("time_centis", 1000, 20000) { one_time<centis>(c, rand_time(c.rng, LO, HI, 100, 1), "1/100", 2, true); tod<centis>(c, rand_tod(c.rng, 100), "tod 1/100", 2); }
GROUP("time_100ns", 1500, 30000) { one_time<ticks100>(c, rand_time(c.rng, NLO, NHI, 10000000, 1), "100ns", 7, true); tod<ticks100>(c, rand_tod(c.rng, 10000000), "tod 100ns", 7); }
GROUP("time_picos", 1000, 20000) { one_time<picos>(c, rand_time(c.rng, -9000000, 9000000, 1000000000000ll, 1), "ps", 12, true); tod<picos>(c, c.rng.range(-86400, 86399) * 1000000000000ll + (ll)c.rng.below(1000000000000ll), "tod ps", 12); }
#endif
#if !defined(PART) || PART == 5
GROUP("dates", 6000, 120000)
{
    Rng& r = c.rng;
    ll n = r.chance(1, 3) ? year_start((int)r.range(1, 9999)) + r.range(0, 1) * 364 : r.range(fdiv(LO, 86400), fdiv(HI, 86400));
    const d::sys_days sd{ d::days{ (int)n } };
    Civil cv = civil(n);
    Flds f = fields_of<seconds>(n * 86400, 0);
    c.desc(ymds(cv.y, cv.m, cv.d));
    static const char* const fm[] = { "%F", "%Y-%m-%d", "%d.%m.%Y", "%Y%m%d", "%Y-%j", "%G-W%V-%u", "%Y %W %u", "%Y %U %w", "%A, %d. %B %Y", "%a %d %b %Y", "%C%y%m%d", "%D %C", "%m/%d/%Y", "%h %d %Y" };
    for (const char* x : fm)
    {
        std::string s = d::format(x, sd), e = expect(x, f);
        CHECK(s == e, "format", show(x) << ": " << show(s) << " instead of " << show(e));
        d::sys_days q{}; CHECK(parse_as(s, x, q) && q == sd, "parse", show(s) << " with " << show(x) << ": " << q.time_since_epoch().count());
        d::local_days ql{}; CHECK(parse_as(s, x, ql) && ql.time_since_epoch() == sd.time_since_epoch(), "parse-local", show(s) << " with " << show(x));
        d::year_month_day ymd{}; CHECK(parse_as(s, x, ymd) && ymd == d::year_month_day(sd), "parse-ymd", show(s) << " with " << show(x));
        CHECK(d::format(x, d::year_month_day(sd)) == e, "format-ymd", show(x));
        c.eval(5);
    }
    // two-digit years: 1969 to 2068
    {
        int y = (int)r.range(1969, 2068); unsigned m = 1 + (unsigned)r.below(12), dd = 1 + (unsigned)r.below(last_day(y, m));
        char b[64]; std::snprintf(b, sizeof b, "%02d/%02u/%02u", y % 100, m, dd);
        d::sys_days q{}; CHECK(parse_as(b, "%y/%m/%d", q) && q.time_since_epoch().count() == day_no(y, m, dd), "parse-y", b);
        std::snprintf(b, sizeof b, "%02u/%02u/%02d", m, dd, y % 100);
        CHECK(parse_as(b, "%D", q) && q.time_since_epoch().count() == day_no(y, m, dd), "parse-D", b);
    }
    // stream output of the components
    {
        auto str_of = [](const auto& x) { using gul14::date::operator<<; std::ostringstream o; o << x; return o.str(); };
        const d::year_month_day ymd = sd;
        if (cv.y >= 1000) CHECK(str_of(ymd) == expect("%F", f), "out-ymd", str_of(ymd));
        if (cv.y >= 1000) CHECK(str_of(sd) == expect("%F", f), "out-days", str_of(sd));
        CHECK(str_of(ymd.year()) == expect("%Y", f) && str_of(ymd.month()) == expect("%b", f) && str_of(ymd.day()) == expect("%d", f) && str_of(d::weekday(sd)) == expect("%a", f), "out-parts", str_of(ymd.year()) << str_of(ymd.month()) << str_of(ymd.day()) << str_of(d::weekday(sd)));
        CHECK(str_of(ymd.year() / ymd.month()) == expect("%Y/%b", f), "out-ym", str_of(ymd.year() / ymd.month()));
        CHECK(str_of(ymd.month() / ymd.day()) == expect("%b/%d", f), "out-md", str_of(ymd.month() / ymd.day()));
        CHECK(str_of(ymd.year() / ymd.month() / d::last) == expect("%Y/%b/last", f), "out-ymdl", str_of(ymd.year() / ymd.month() / d::last));
        CHECK(str_of(d::year_month_weekday(sd)) == expect("%Y/%b/%a", f) + "[" + std::to_string((cv.d - 1) / 7 + 1) + "]", "out-ymw", str_of(d::year_month_weekday(sd)));
        // formatting a stream with a state of its own
        std::ostringstream o; o << std::hex << std::setfill('*') << std::left << std::showbase << d::format("%F", sd) << ' '; o << ymd << ' ' << 255;
        CHECK(cv.y < 1000 || o.str() == expect("%F %F 0xff", f), "out-state", o.str());
        c.eval(8);
    }
    // components
    {
        d::year py{ 1 }; d::month pm{ 1 }; d::day pd{ 1 }; d::weekday pw{ 0u }; d::year_month pym{ d::year{ 1 }, d::month{ 1 } }; d::month_day pmd{ d::month{ 1 }, d::day{ 1 } };
        CHECK(parse_as(expect("%Y", f), "%Y", py) && (int)py == cv.y, "parse-year", (int)py);
        CHECK(parse_as(expect(r.chance(1, 2) ? "%m" : "%m", f), "%m", pm) && (unsigned)pm == cv.m, "parse-month", "");
        CHECK(parse_as(expect("%B", f), "%B", pm) && (unsigned)pm == cv.m && parse_as(expect("%b", f), "%b", pm) && (unsigned)pm == cv.m, "parse-month-name", "");
        CHECK(parse_as(expect("%d", f), "%d", pd) && (unsigned)pd == cv.d, "parse-day", "");
        CHECK(parse_as(expect("%A", f), "%A", pw) && pw == d::weekday(sd) && parse_as(expect("%u", f), "%u", pw) && pw == d::weekday(sd), "parse-weekday", "");
        CHECK(parse_as(expect("%Y-%m", f), "%Y-%m", pym) && pym == d::year{ cv.y } / d::month{ cv.m }, "parse-ym", "");
        CHECK(parse_as(expect("%m-%d", f), "%m-%d", pmd) && pmd == d::month{ cv.m } / d::day{ cv.d }, "parse-md", "");
        c.eval(7);
    }
    c.distinct((std::uint64_t)(n + 4000000));
}
// ---- what is no date or time must not be accepted, and leaves the target unchanged
GROUP("invalid", 6000, 120000)
{
    Rng& r = c.rng;
    int y = (int)r.range(0, 9999), H = (int)r.below(24), M = (int)r.below(60), S = (int)r.below(60);
    unsigned m = 1 + (unsigned)r.below(12), dd = 1 + (unsigned)r.below(last_day(y, m));
    int what = (int)r.below(9);
    bool mustfail = true;
    std::string sep = "-";
    switch (what)
    {
    case 0: dd = last_day(y, m) + 1 + (unsigned)r.below(3); break;
    case 1: m = 13 + (unsigned)r.below(80); break;
    case 2: m = 0; break;
    case 3: dd = 0; break;
    case 4: H = (int)r.range(24, 99); break;
    case 5: M = (int)r.range(60, 99); break;
    case 6: S = (int)r.range(60, 99); break;
    case 7: sep = r.pick(std::vector<std::string>{ "/", "", "x", ":", "--", "- x" }); break;
    default: mustfail = false;
    }
    char b[80]; std::snprintf(b, sizeof b, "%04d%s%02u-%02u %02d:%02d:%02d", y, sep.c_str(), m, dd, H, M, S);
    c.desc(b);
    ll old = r.range(-1000, 1000);
    d::sys_seconds q{ seconds{ old } };
    bool ok = parse_as(b, r.chance(1, 2) ? "%F %T" : "%Y-%m-%d %H:%M:%S", q);
    if (mustfail)
    {
        CHECK(!ok, "accepted", q.time_since_epoch().count());
        CHECK(q.time_since_epoch().count() == old, "changed", q.time_since_epoch().count());
        c.count("rejected");
    }
    else
    {
        CHECK(ok && q.time_since_epoch().count() == day_no(y, m, dd) * 86400 + H * 3600 + M * 60 + S, "valid", q.time_since_epoch().count());
        c.count("accepted");
        // contradicting weekday, day of year or 12-hour clock
        unsigned w = (unsigned)fmod_(day_no(y, m, dd) + 4, 7), w2 = (unsigned)r.below(7);
        char e[100]; std::snprintf(e, sizeof e, "%s %u", b, w2); d::sys_seconds q2{};
        CHECK(parse_as(e, "%F %T %w", q2) == (w == w2), "weekday-mismatch", e);
        int I = 1 + (int)r.below(12), p = (int)r.below(2);
        std::snprintf(e, sizeof e, "%s %02d %s", b, I, p ? "PM" : "AM");
        CHECK(parse_as(e, "%F %T %I %p", q2) == (I % 12 + 12 * p == H), "12h-mismatch", e);
    }
    // too short
    std::string t = b; t = t.substr(0, r.below(t.size() - 1));
    if (t.size() < 18) { d::sys_seconds q3{ seconds{ old } }; CHECK(!parse_as(t, "%F %T", q3) && q3.time_since_epoch().count() == old, "truncated", show(t)); }
    c.eval(3);
    c.distinct(hash_str(b));
}
GROUP("twelve_hours", 1, 1)
{
    for (int h = 0; h < 24; ++h)
    {
        CHECK(d::is_am(hours{ h }) == (h < 12) && d::is_pm(hours{ h }) == (h >= 12), "is_am", h);
        CHECK(d::make12(hours{ h }).count() == (h % 12 ? h % 12 : 12), "make12", h);
        CHECK(d::make24(d::make12(hours{ h }), h >= 12).count() == h, "make24", h);
        c.eval(3);
    }
}
GROUP("parse_arbitrary", 4000, 80000)
{
    // no input or format may do more than fail
    Rng& r = c.rng;
    std::string s, fmt;
    if (r.chance(1, 2)) { static const char* const ff[] = { "%F %T", "%Y-%m-%d", "%c", "%a %b %d %H:%M:%S %Y", "%G-W%V-%u", "%D %r", "%y%C%g%G%U%W", "%Ez %Z", "%j", "%p %I" }; fmt = r.pick(ff); }
    else for (std::size_t k = r.below(12); k > 0; --k) { fmt += r.chance(3, 4) ? "%" : ""; static const char fl[] = "aAbBhcCdDeFgGHIjmMnprRStTuUVwWxXyYzZEO% -:/9"; if (r.chance(1, 8)) fmt += r.chance(1, 2) ? "E" : "O"; if (r.chance(1, 8)) fmt += std::to_string(r.below(9)); fmt += fl[r.below(sizeof fl - 1)]; }
    s = r.chance(1, 3) ? rand_string(r) : rand_from(r, "0123456789-:/ .+APMJanuryFebMoSd\t%", r.below(40));
    c.desc(show(s) + " with " + show(fmt));
    d::sys_time<milliseconds> q{}; std::string ab; minutes mo{};
    std::istringstream i(s); i >> d::parse(fmt, q, ab, mo);
    d::year_month_day ymd{}; parse_as(s, fmt, ymd);
    c.count(i.fail() ? "arbitrary.rejected" : "arbitrary.accepted");
    c.eval();
    c.distinct(hash_str(s + fmt));
}
#endif
#if !defined(PART) || PART == 7
// ---- all relations, steps and spellings of the calendar types, against tuples of their fields
template <typename T, typename K> void six(Case& c, const char* n, const T& a, const T& b, const K& ka, const K& kb)
{
    CHECK((a == b) == (ka == kb) && (a != b) == (ka != kb) && (a < b) == (ka < kb) && (a > b) == (kb < ka) && (a <= b) == !(kb < ka) && (a >= b) == !(ka < kb), "compare", n);
    c.eval(6); c.count(ka == kb ? "relation.equal" : "relation.unequal");
}
template <typename T, typename K> void two(Case& c, const char* n, const T& a, const T& b, const K& ka, const K& kb)
{
    CHECK((a == b) == (ka == kb) && (a != b) == (ka != kb), "equality", n);
    c.eval(2); c.count(ka == kb ? "relation.equal" : "relation.unequal");
}
template <typename T> std::string str7(const T& x) { using gul14::date::operator<<; std::ostringstream o; o << x; return o.str(); }
GROUP("relations", 20000, 400000)
{
    Rng& r = c.rng;
    auto any_year = [&] { return r.chance(1, 2) ? (int)r.range(1999, 2001) : r.chance(1, 2) ? (int)r.range(-2, 2) : rand_year(r); };
    const int y[2] = { any_year(), any_year() };
    unsigned m[2], dd[2], w[2], ix[2];
    for (int i = 0; i < 2; ++i) { m[i] = r.chance(1, 2) ? 6 + (unsigned)r.below(2) : (unsigned)r.below(14); dd[i] = r.chance(1, 2) ? 14 + (unsigned)r.below(2) : (unsigned)r.below(34); w[i] = (unsigned)r.below(r.chance(1, 2) ? 2 : 7); ix[i] = 1 + (unsigned)r.below(r.chance(1, 2) ? 2 : 5); }
    c.desc(ymds(y[0], m[0], dd[0]) + " " + std::to_string(w[0]) + "[" + std::to_string(ix[0]) + "], " + ymds(y[1], m[1], dd[1]) + " " + std::to_string(w[1]) + "[" + std::to_string(ix[1]) + "]");
    const d::year Y[2] = { d::year{ y[0] }, d::year{ y[1] } }; const d::month M[2] = { d::month{ m[0] }, d::month{ m[1] } }; const d::day D[2] = { d::day{ dd[0] }, d::day{ dd[1] } };
    const d::weekday W[2] = { d::weekday{ w[0] }, d::weekday{ w[1] } };
    typedef std::pair<int, unsigned> P; typedef std::pair<unsigned, unsigned> U; typedef std::pair<P, unsigned> T3; typedef std::pair<P, U> T4; typedef std::pair<unsigned, U> U3;
    six(c, "day", D[0], D[1], dd[0], dd[1]); six(c, "month", M[0], M[1], m[0], m[1]); six(c, "year", Y[0], Y[1], y[0], y[1]);
    two(c, "weekday", W[0], W[1], w[0], w[1]); two(c, "weekday_indexed", W[0][ix[0]], W[1][ix[1]], U(w[0], ix[0]), U(w[1], ix[1])); two(c, "weekday_last", W[0][d::last], W[1][d::last], w[0], w[1]);
    six(c, "year_month", Y[0] / M[0], Y[1] / M[1], P(y[0], m[0]), P(y[1], m[1]));
    six(c, "month_day", M[0] / D[0], M[1] / D[1], U(m[0], dd[0]), U(m[1], dd[1]));
    six(c, "month_day_last", M[0] / d::last, M[1] / d::last, m[0], m[1]);
    two(c, "month_weekday", M[0] / W[0][ix[0]], M[1] / W[1][ix[1]], U3(m[0], U(w[0], ix[0])), U3(m[1], U(w[1], ix[1])));
    two(c, "month_weekday_last", M[0] / W[0][d::last], M[1] / W[1][d::last], U(m[0], w[0]), U(m[1], w[1]));
    six(c, "year_month_day", Y[0] / M[0] / D[0], Y[1] / M[1] / D[1], T3(P(y[0], m[0]), dd[0]), T3(P(y[1], m[1]), dd[1]));
    six(c, "year_month_day_last", Y[0] / M[0] / d::last, Y[1] / M[1] / d::last, P(y[0], m[0]), P(y[1], m[1]));
    two(c, "year_month_weekday", Y[0] / M[0] / W[0][ix[0]], Y[1] / M[1] / W[1][ix[1]], T4(P(y[0], m[0]), U(w[0], ix[0])), T4(P(y[1], m[1]), U(w[1], ix[1])));
    two(c, "year_month_weekday_last", Y[0] / M[0] / W[0][d::last], Y[1] / M[1] / W[1][d::last], T3(P(y[0], m[0]), w[0]), T3(P(y[1], m[1]), w[1]));
    CHECK((M[0] / W[0][ix[0]]).ok() == (m[0] >= 1 && m[0] <= 12) && (M[0] / W[0][d::last]).ok() == (m[0] >= 1 && m[0] <= 12) && (Y[0] / M[0] / W[0][d::last]).ok() == (m[0] >= 1 && m[0] <= 12) && (Y[0] / M[0] / d::last).ok() == (m[0] >= 1 && m[0] <= 12) && (Y[0] / M[0]).ok() == (m[0] >= 1 && m[0] <= 12), "ok", "");
    // the fields come back
    { auto a = Y[0] / M[0] / W[0][ix[0]]; CHECK(a.year() == Y[0] && a.month() == M[0] && a.weekday() == W[0] && a.index() == ix[0], "ymw-fields", ""); auto b = Y[0] / M[0] / W[0][d::last]; CHECK(b.year() == Y[0] && b.month() == M[0] && b.weekday() == W[0] && b.weekday_last() == W[0][d::last], "ymwl-fields", ""); auto e = Y[0] / M[0] / d::last; CHECK(e.year() == Y[0] && e.month() == M[0] && e.month_day_last() == M[0] / d::last, "ymdl-fields", ""); CHECK(W[0].iso_encoding() == (w[0] ? w[0] : 7), "iso_encoding", ""); }
    // stream output says what is not valid
    auto bad = [](std::string s, bool ok, const char* t) { return ok ? s : s + " is not a valid " + t; };
    auto num = [](int v, int width) { char b[32]; std::snprintf(b, sizeof b, v < 0 ? "-%0*d" : "%0*d", width, std::abs(v)); return std::string(b); };
    static const char* const mn[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" }; static const char* const wn[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
    const bool mo = m[0] >= 1 && m[0] <= 12, dok = dd[0] >= 1 && dd[0] <= 31;
    const std::string ys = num(y[0], 4), ms = mo ? mn[m[0] - 1] : std::to_string(m[0]), ds = num((int)dd[0], 2), ws = wn[w[0]], wi = ws + "[" + std::to_string(ix[0]) + "]", wl = ws + "[last]";
    const bool wok = [&] { if (!mo) return false; ll first = day_no(y[0], m[0], 1); return 1 + (unsigned)fmod_((ll)w[0] - fmod_(first + 4, 7), 7) + (ix[0] - 1) * 7 <= last_day(y[0], m[0]); }();
    auto out = [&](const std::string& a, const std::string& b, const char* k) { CHECK(a == b, "stream-output", k << ": " << show(a) << " instead of " << show(b)); c.eval(); };
    out(str7(D[0]), bad(ds, dok, "day"), "day"); out(str7(M[0]), bad(ms, mo, "month"), "month"); out(str7(Y[0]), ys, "year"); out(str7(W[0]), ws, "weekday"); out(str7(d::weekday{ 8 + w[0] }), bad(std::to_string(8 + w[0]), false, "weekday"), "weekday");
    out(str7(W[0][ix[0]]), wi, "weekday_indexed"); out(str7(W[0][d::last]), wl, "weekday_last");
    out(str7(Y[0] / M[0]), bad(ys + "/" + ms, mo, "year_month"), "year_month");
    out(str7(M[0] / D[0]), bad(ms + "/" + ds, mo && dok && dd[0] <= last_day(2000, m[0]), "month_day"), "month_day");
    out(str7(M[0] / d::last), bad(ms + "/last", mo, "month_day_last"), "month_day_last");
    out(str7(M[0] / W[0][ix[0]]), bad(ms + "/" + wi, mo, "month_weekday"), "month_weekday"); out(str7(M[0] / W[0][d::last]), bad(ms + "/" + wl, mo, "month_weekday_last"), "month_weekday_last");
    if (y[0] >= 1000) out(str7(Y[0] / M[0] / D[0]), bad(ys + "-" + num((int)m[0], 2) + "-" + ds, mo && dok && dd[0] <= last_day(y[0], m[0]), "year_month_day"), "year_month_day");
    out(str7(Y[0] / M[0] / d::last), bad(ys + "/" + ms + "/last", mo, "year_month_day_last"), "year_month_day_last");
    out(str7(Y[0] / M[0] / W[0][ix[0]]), bad(ys + "/" + ms + "/" + wi, wok, "year_month_weekday"), "year_month_weekday"); out(str7(Y[0] / M[0] / W[0][d::last]), bad(ys + "/" + ms + "/" + wl, mo, "year_month_weekday_last"), "year_month_weekday_last");
    c.distinct(hash_mix(hash_mix((std::uint64_t)(y[0] + 40000), m[0] * 40 + dd[0]), hash_mix((std::uint64_t)(y[1] + 40000), m[1] * 4000 + dd[1] * 100 + w[0] * 10 + ix[0])));
}
GROUP("steps", 10000, 200000)
{
    Rng& r = c.rng;
    const int y = (int)r.range(-30000, 30000), dy = (int)r.range(-2000, 2000), dm = (int)r.range(-500, 500);
    const unsigned m = 1 + (unsigned)r.below(12), dd = 1 + (unsigned)r.below(28), w = (unsigned)r.below(7), ix = 1 + (unsigned)r.below(5);
    c.desc(ymds(y, m, dd) + " months " + std::to_string(dm) + " years " + std::to_string(dy));
    const d::year Y{ y }; const d::month M{ m }; const d::day D{ dd }; const d::weekday W{ w };
    { d::day a = D, b = a++; CHECK(b == D && (unsigned)a == dd + 1, "day++", ""); b = a--; CHECK((unsigned)b == dd + 1 && a == D, "day--", ""); CHECK((unsigned)++a == dd + 1 && (unsigned)--a == dd && (unsigned)(d::days{ 3 } + D) == dd + 3 && (unsigned)(D + d::days{ -1 }) == dd - 1, "day-steps", ""); }
    { d::month a = M, b = a++; CHECK(b == M && (unsigned)a == m % 12 + 1, "month++", ""); b = a--; CHECK((unsigned)b == m % 12 + 1 && a == M, "month--", ""); CHECK((unsigned)++a == m % 12 + 1 && (unsigned)--a == m, "month-steps", ""); }
    { d::year a = Y, b = a++; CHECK(b == Y && (int)a == y + 1, "year++", ""); b = a--; CHECK((int)b == y + 1 && a == Y, "year--", ""); CHECK((int)++a == y + 1 && (int)--a == y, "year-steps", ""); }
    { d::weekday a = W, b = a++; CHECK(b == W && a.c_encoding() == (w + 1) % 7, "weekday++", ""); b = a--; CHECK(b.c_encoding() == (w + 1) % 7 && a == W, "weekday--", ""); CHECK((++a).c_encoding() == (w + 1) % 7 && (--a).c_encoding() == w, "weekday-steps", ""); }
    const ll t = (ll)y * 12 + (m - 1) + dm; const int ty = (int)fdiv(t, 12); const unsigned tm = (unsigned)fmod_(t, 12) + 1;
    auto all = [&](const auto& x, const char* n)
    {   // all ways to add years and months
        typedef std::decay_t<decltype(x)> T;
        const d::years p{ dy }, q{ -dy }; const d::months s{ dm }, u{ -dm };
        auto same_rest = [&](T z) { z -= (z.year() / z.month() - x.year() / x.month()); return z == x; };
        auto chk = [&](const T& z, int ey, unsigned em, const char* op) { CHECK((int)z.year() == ey && (unsigned)z.month() == em && same_rest(z), "add", n << ' ' << op << ": " << (int)z.year() << '/' << (unsigned)z.month()); c.eval(); };
        T z = x;
        chk(x + p, y + dy, m, "+ years"); chk(p + x, y + dy, m, "years +"); chk(x - q, y + dy, m, "- years"); z += p; chk(z, y + dy, m, "+= years"); z = x; z -= q; chk(z, y + dy, m, "-= years");
        chk(x + s, ty, tm, "+ months"); chk(s + x, ty, tm, "months +"); chk(x - u, ty, tm, "- months"); z = x; z += s; chk(z, ty, tm, "+= months"); z = x; z -= u; chk(z, ty, tm, "-= months");
    };
    all(Y / M, "year_month"); all(Y / M / D, "year_month_day"); all(Y / M / d::last, "year_month_day_last"); all(Y / M / W[ix], "year_month_weekday"); all(Y / M / W[d::last], "year_month_weekday_last");
    // every way to write a date
    {
        const int iy = y, im = (int)m, id = (int)dd; const auto wi = W[ix]; const auto wl = W[d::last]; const auto L = Y / M / d::last; const auto A = Y / M / D; const auto B = Y / M / wi; const auto E = Y / M / wl;
        CHECK(D / im == M / D && D / M == M / D && M / id == M / D && im / D == M / D, "month_day", "");
        CHECK(d::last / im == M / d::last && im / d::last == M / d::last && d::last / M == M / d::last && wi / im == M / wi && wi / M == M / wi && im / wi == M / wi && wl / im == M / wl && wl / M == M / wl && im / wl == M / wl, "month_x", "");
        CHECK(iy / (M / d::last) == L && (M / d::last) / iy == L && (M / d::last) / Y == L && Y / (M / d::last) == L && Y / im / d::last == L, "y/mdl", "");
        CHECK(iy / (M / wi) == B && (M / wi) / iy == B && (M / wi) / Y == B && Y / (M / wi) == B && Y / im / wi == B, "y/mwd", "");
        CHECK(iy / (M / wl) == E && (M / wl) / iy == E && (M / wl) / Y == E && Y / (M / wl) == E && Y / im / wl == E, "y/mwdl", "");
        CHECK(iy / (M / D) == A && (M / D) / iy == A && Y / im / id == A && D / im / iy == A && D / im / Y == A && M / id / iy == A && im / D / iy == A, "y/m/d", "");
        using namespace gul14::date::literals;
        CHECK(15_d == d::day{ 15 } && 2021_y == d::year{ 2021 } && 31_d != d::day{ 15 } && (int)-1_y == -1 && (int)32767_y == 32767, "literals", "");
        CHECK((unsigned)d::January == 1 && (unsigned)d::February == 2 && (unsigned)d::March == 3 && (unsigned)d::April == 4 && (unsigned)d::May == 5 && (unsigned)d::June == 6 && (unsigned)d::July == 7 && (unsigned)d::August == 8 && (unsigned)d::September == 9 && (unsigned)d::October == 10 && (unsigned)d::November == 11 && (unsigned)d::December == 12, "months", "");
        CHECK((unsigned)d::jan == 1 && (unsigned)d::feb == 2 && (unsigned)d::mar == 3 && (unsigned)d::apr == 4 && (unsigned)d::may == 5 && (unsigned)d::jun == 6 && (unsigned)d::jul == 7 && (unsigned)d::aug == 8 && (unsigned)d::sep == 9 && (unsigned)d::oct == 10 && (unsigned)d::nov == 11 && (unsigned)d::dec == 12, "months", "");
        CHECK(d::Sunday.c_encoding() == 0 && d::Monday.c_encoding() == 1 && d::Tuesday.c_encoding() == 2 && d::Wednesday.c_encoding() == 3 && d::Thursday.c_encoding() == 4 && d::Friday.c_encoding() == 5 && d::Saturday.c_encoding() == 6 && d::sun == d::Sunday && d::mon == d::Monday && d::tue == d::Tuesday && d::wed == d::Wednesday && d::thu == d::Thursday && d::fri == d::Friday && d::sat == d::Saturday, "weekdays", "");
        c.eval(9);
    }
    c.distinct(hash_mix(hash_mix((std::uint64_t)(y + 40000), m * 40 + dd), hash_mix((std::uint64_t)(dm + 1000), (std::uint64_t)(dy + 5000))));
}
// ---- modifiers, literal text and fields that do not exist
static bool format_throws(const std::function<void()>& f) { try { f(); } catch (const std::ios_base::failure&) { return true; } return false; }
GROUP("formats", 3000, 60000)
{
    Rng& r = c.rng;
    const ll v = rand_time(r, -30610224000ll /* year 1000 */, 253402300799ll, 1, 1);
    const Flds f = fields_of<std::chrono::seconds>(v, 0);
    const d::sys_seconds tp{ std::chrono::seconds{ v } };
    const d::year_month_day ymd = d::floor<d::days>(tp);
    c.desc(expect("%F %T", f));
    // locale's alternative representations do not differ in the "C" locale
    for (const char* x : { "Ec", "EC", "Ex", "EX", "Ey", "EY", "Od", "Oe", "OH", "OI", "Om", "OM", "OS", "Ou", "OU", "OV", "Ow", "OW", "Oy" })
    {
        const std::string e = expect(std::string("<%") + x[1] + ">", f), s = d::format(std::string("<%") + x + ">", tp);
        CHECK(s == e, "modifier", x << ": " << show(s) << " instead of " << show(e));
        c.eval();
    }
    CHECK(d::format("%Ez|%Oz|%z", tp) == "+00:00|+00:00|+0000", "modifier-z", d::format("%Ez|%Oz|%z", tp));
    // text that contains no directives stays as it is
    {
        std::string t = r.chance(1, 2) ? std::string("aAbBhcxCdeDFgGHIjmMnpQqrRStTuUVwWXyYzZEO") : rand_from(r, "aAbBhcxCdeDFgGHIjmMnpQqrRStTuUVwWXyYzZEO 0,.-", r.below(20));
        CHECK(d::format(t, tp) == t && d::format(t, ymd) == t && d::format(t, std::chrono::seconds{ 5 }) == t, "literal", show(t) << ": " << show(d::format(t, tp)));
        std::string u = t + "%Y" + t, p;
        CHECK(d::format(u, tp) == t + expect("%Y", f) + t, "literal-around", show(u));
        const bool z = t.find_first_of(" \n\t") != std::string::npos || t.empty();
        d::sys_seconds q{}; std::string s = t + expect("%F %T", f);
        if (!z) CHECK(parse_as(s, t + "%F %T", q) && q == tp, "literal-parse", show(s));
        if (!z) { std::string s2 = s; std::size_t k = r.below(t.size()); s2[k] = s2[k] == '#' ? '$' : '#'; d::sys_seconds q2{ std::chrono::seconds{ 7 } }; CHECK(!parse_as(s2, t + "%F %T", q2) && q2.time_since_epoch().count() == 7, "literal-mismatch", show(s2) << " for " << show(t)); }
        c.eval(5);
    }
    // parsing with modifiers
    for (const char* x : { "%EY-%Om-%Od %OH:%OM:%OS", "%Y-%m-%d %OH:%M:%OS", "%EC%y/%Om/%Oe %T", "%F %OH:%OM:%S" })
    {
        std::string s = d::format(std::string(x), tp); d::sys_seconds q{};
        CHECK(parse_as(s, x, q) && q == tp, "modifier-parse", show(s) << " with " << x);
        c.eval();
    }
    if (f.Y >= 1969 && f.Y <= 2068) for (const char* x : { "%x %X", "%Ex %EX", "%D %r", "%y/%m/%d %T", "%Ey %Om %Od %T", "%Oy %Om %Od %T", "%m/%d %g %V %u %T" })
    {
        std::string s = d::format(std::string(x), tp); d::sys_seconds q{};
        if (x == std::string("%m/%d %g %V %u %T") && (f.Y == 1969 || f.Y == 2068)) continue; // the ISO year may be outside of the century
        CHECK(parse_as(s, x, q) && q == tp, "parse-two-digits", show(s) << " with " << x << ": " << q.time_since_epoch().count());
        c.eval();
    }
    // directives for fields that the object does not have
    auto fails = [&](const char* x, const auto& o, const char* n) { CHECK(format_throws([&] { d::format(x, o); }), "missing-field", x << " of a " << n); c.eval(); };
    for (const char* x : { "%H", "%I", "%M", "%S", "%T", "%R", "%p", "%r", "%X", "%c", "%z", "%Z" }) fails(x, ymd, "year_month_day");
    for (const char* x : { "%Y", "%y", "%C", "%m", "%d", "%e", "%F", "%D", "%a", "%b", "%x", "%c", "%G", "%g", "%U", "%V", "%W", "%u", "%w", "%z", "%Z" }) fails(x, std::chrono::seconds{ 5 }, "duration");
    for (const char* x : { "%F", "%D", "%a", "%j", "%m", "%d", "%U", "%H" }) fails(x, ymd.year(), "year");
    for (const char* x : { "%F", "%Y", "%a", "%j", "%d", "%W", "%H" }) fails(x, ymd.month(), "month");
    for (const char* x : { "%F", "%Y", "%a", "%b", "%m", "%V" }) fails(x, ymd.day(), "day");
    for (const char* x : { "%F", "%Y", "%d", "%b", "%j" }) fails(x, d::weekday(d::sys_days(ymd)), "weekday");
    for (const char* x : { "%F", "%d", "%a", "%j" }) fails(x, ymd.year() / ymd.month(), "year_month");
    for (const char* x : { "%F", "%Y", "%a", "%j" }) fails(x, ymd.month() / ymd.day(), "month_day");
    for (const char* x : { "%F", "%a", "%j", "%D" }) fails(x, ymd.year() / ymd.month() / d::day{ last_day(f.Y, f.m) + 1 }, "invalid year_month_day");
    CHECK(d::format("%Y|%y|%C", ymd.year()) == expect("%Y|%y|%C", f) && d::format("%m|%b|%B|%h", ymd.month()) == expect("%m|%b|%B|%h", f) && d::format("%d|%e", ymd.day()) == expect("%d|%e", f) && d::format("%a|%A|%u|%w", d::weekday(d::sys_days(ymd))) == expect("%a|%A|%u|%w", f) && d::format("%Y-%m|%b %C%y", ymd.year() / ymd.month()) == expect("%Y-%m|%b %C%y", f) && d::format("%d.%m.|%B", ymd.month() / ymd.day()) == expect("%d.%m.|%B", f), "format-component", "");
    c.distinct((std::uint64_t)v);
}
// ---- durations
template <typename Dur> std::string count_str(Dur x) { return std::to_string(x.count()); }
GROUP("durations", 6000, 120000)
{
    Rng& r = c.rng;
    using namespace std::chrono;
    const ll v = r.chance(1, 3) ? r.range(-100, 100) : r.range(-400000, 400000);
    c.desc(std::to_string(v));
    const bool neg = v < 0; const ll a = neg ? -v : v; const std::string sg = neg ? "-" : "";
    auto n2 = [](ll x) { char b[32]; std::snprintf(b, sizeof b, "%02lld", x); return std::string(b); };
    const ll H = a / 3600, M = a / 60 % 60, S = a % 60;
    struct E { const char* f; std::string e; };
    const E es[] = { { "%H:%M:%S", sg + n2(H) + ":" + n2(M) + ":" + n2(S) }, { "%M:%S", sg + n2(M) + ":" + n2(S) }, { "%S", sg + n2(S) }, { "%M", sg + n2(M) }, { "%H", sg + n2(H) }, { "%R", sg + n2(H) + ":" + n2(M) }, { "[%R:%S]", "[" + sg + n2(H) + ":" + n2(M) + ":" + n2(S) + "]" }, { "%T", sg + n2(H) + ":" + n2(M) + ":" + n2(S) }, { "%Q%q", std::to_string(v) + "s" }, { "t=%Q", "t=" + std::to_string(v) } };
    for (const E& e : es) { std::string s = d::format(e.f, seconds{ v }); CHECK(s == e.e, "duration-format", e.f << ": " << show(s) << " instead of " << show(e.e)); c.eval(); }
    if (!neg) { char b[32]; std::snprintf(b, sizeof b, "%03lld", a / 86400); CHECK(d::format("%j", seconds{ v }) == b, "duration-j", d::format("%j", seconds{ v })); if (a < 86400) CHECK(d::format("%I %p", seconds{ v }) == n2(H % 12 ? H % 12 : 12) + (H < 12 ? " AM" : " PM") && d::format("%r", seconds{ v }) == n2(H % 12 ? H % 12 : 12) + ":" + n2(M) + ":" + n2(S) + (H < 12 ? " AM" : " PM"), "duration-12h", d::format("%I %p %r", seconds{ v })); }
    CHECK(d::format("%Q%q", milliseconds{ v }) == std::to_string(v) + "ms" && d::format("%Q%q", microseconds{ v }) == std::to_string(v) + "\xC2\xB5s" && d::format("%Q%q", nanoseconds{ v }) == std::to_string(v) + "ns", "duration-unit", "");
    CHECK(str7(seconds{ v }) == std::to_string(v) + "s" && str7(milliseconds{ v }) == std::to_string(v) + "ms" && str7(microseconds{ v }) == std::to_string(v) + "\xC2\xB5s" && str7(nanoseconds{ v }) == std::to_string(v) + "ns" && str7(minutes{ v }) == std::to_string(v) + "min" && str7(hours{ v }) == std::to_string(v) + "h" && str7(d::days{ (int)v }) == std::to_string(v) + "d" && str7(d::weeks{ (int)v }) == std::to_string(v) + "[604800]s" && str7(duration<int, std::ratio<1, 3>>{ (int)v }) == std::to_string(v) + "[1/3]s" && str7(duration<ll, std::centi>{ v }) == std::to_string(v) + "cs" && str7(duration<ll, std::deci>{ v }) == std::to_string(v) + "ds" && str7(duration<ll, std::pico>{ v }) == std::to_string(v) + "ps" && str7(duration<ll, std::kilo>{ v }) == std::to_string(v) + "ks" && str7(duration<ll, std::mega>{ v }) == std::to_string(v) + "Ms", "duration-stream", str7(seconds{ v }) << ' ' << str7(microseconds{ v }) << ' ' << str7(d::weeks{ (int)v }));
    c.eval(3);
    if (!neg && H < 100)
    {   // and back
        seconds q{ -1 }; std::string s = d::format("%T", seconds{ v });
        CHECK(parse_as(s, "%T", q) && q.count() == v && parse_as(s, "%H:%M:%S", q) && q.count() == v && parse_as(s, "%R:%S", q) && q.count() == v, "duration-parse", show(s) << ": " << q.count());
        minutes qm{ -1 }; s = d::format("%R", seconds{ v }); CHECK(parse_as(s, "%R", qm) && qm.count() == v / 60, "duration-parse-R", show(s) << ": " << qm.count());
        const ll ms = v * 10 + (ll)r.below(10); milliseconds qs{ -1 }; s = d::format("%H:%M:%S", milliseconds{ ms }); CHECK(parse_as(s, "%H:%M:%S", qs) && qs.count() == ms, "duration-parse-ms", show(s) << ": " << qs.count());
        hours qh{ -1 }; CHECK(parse_as(n2(H), "%H", qh) && qh.count() == H, "duration-parse-H", "");
        if (H < 24) { s = d::format("%I:%M:%S %p", seconds{ v }); CHECK(parse_as(s, "%I:%M:%S %p", q) && q.count() == v, "duration-parse-12h", show(s)); s = d::format("%H %I %M %S", seconds{ v }); CHECK(parse_as(s, "%H %I %M %S", q) && q.count() == v, "duration-parse-HI", show(s)); }
        { const ll days = (ll)r.below(400); char b[64]; std::snprintf(b, sizeof b, "%03lld %s", days, d::format("%T", seconds{ v }).c_str()); q = seconds{ -1 }; CHECK(parse_as(b, "%j %T", q) && q.count() == v + days * 86400, "duration-parse-j", show(b) << ": " << q.count()); }
        seconds q2{ 77 }; CHECK(!parse_as("2021-01-01", "%F", q2) && q2.count() == 77, "duration-from-date", "");
        const int I = 1 + (int)r.below(12), hh = (int)r.below(24); char b[32]; std::snprintf(b, sizeof b, "%02d %02d", hh, I); q2 = seconds{ 77 };
        CHECK(parse_as(b, "%H %I", q2) == (hh % 12 == I % 12) && q2.count() == (hh % 12 == I % 12 ? hh * 3600 : 77), "H-and-I", b);
        q2 = seconds{ 77 }; CHECK(!parse_as(n2(I), "%I", q2) && q2.count() == 77, "I-is-ambiguous", I);
        c.eval(10);
    }
    c.distinct((std::uint64_t)(v + 1000000));
}
// ---- more fields than needed: accepted if and only if they agree
GROUP("redundant", 8000, 160000)
{
    Rng& r = c.rng;
    const ll n = r.chance(1, 2) ? year_start((int)r.range(1000, 9999)) + r.range(-8, 8) : r.range(year_start(1000), year_start(9999));
    const Civil cv = civil(n); const Flds f = fields_of<std::chrono::seconds>(n * 86400 + (ll)r.below(86400), 0);
    if (cv.y < 1000 || cv.y > 9999) return;
    static const char* const full[] = { "%Y-%m-%d", "%F", "%Y-%j", "%G-%V-%u", "%Y %U %w", "%Y %W %a" };
    static const char* const more[] = { "%j", "%a", "%A", "%u", "%w", "%U", "%W", "%G", "%V", "%m", "%d", "%b", "%B", "%y" };
    std::string fmt = r.pick(full), s = expect(fmt, f), wrong;
    bool agree = true; bool has_year = fmt[1] != 'G';
    for (std::size_t k = 1 + r.below(4); k > 0; --k)
    {
        std::string x = r.pick(more), e = expect(x, f);
        if (x == "%y" && !has_year) continue; // a century would be assumed
        if (agree && r.chance(1, 4))
        {   // the field of another day
            Flds g; for (int i = 0; i < 20 && e == expect(x, f); ++i) { g = fields_of<std::chrono::seconds>(r.range(year_start(1001), year_start(9999)) * 86400, 0); e = expect(x, g); }
            if (e != expect(x, f)) { agree = false; wrong = x; }
        }
        fmt += " " + x; s += " " + e;
    }
    fmt += " %H:%M:%S"; s += expect(" %H:%M:%S", f);
    c.desc(show(s) + " with " + show(fmt));
    d::sys_seconds q{ std::chrono::seconds{ 5 } }; const bool ok = parse_as(s, fmt, q);
    const ll want = n * 86400 + f.H * 3600 + f.M * 60 + f.S;
    CHECK(ok == agree, agree ? "redundant-rejected" : "contradiction-accepted", wrong << " gives " << (ok ? d::format("%F %T", q) : std::string("failure")));
    CHECK(q.time_since_epoch().count() == (agree ? want : 5), "redundant-value", q.time_since_epoch().count());
    c.eval(2); c.count(agree ? "redundant.agree" : "redundant.contradict");
    // days of the year and weeks that do not exist
    {
        const int y = (int)r.range(1000, 9999), j = (int)r.below(999); char b[64]; std::snprintf(b, sizeof b, "%04d-%03d", y, j);
        d::sys_days qd{ d::days{ 3 } }; const bool jo = j >= 1 && j <= (leap(y) ? 366 : 365);
        CHECK(parse_as(b, "%Y-%j", qd) == jo && qd.time_since_epoch().count() == (jo ? year_start(y) + j - 1 : 3), "day-of-year", b << ": " << qd.time_since_epoch().count());
        const int jj = (leap(y) ? 366 : 365) + (int)r.range(-1, 1); std::snprintf(b, sizeof b, "%04d-%03d", y, jj); qd = d::sys_days{ d::days{ 3 } }; const bool jo2 = jj <= (leap(y) ? 366 : 365);
        CHECK(parse_as(b, "%Y-%j", qd) == jo2, "day-of-year", b);
        const int v = r.chance(1, 2) ? (int)r.range(51, 54) : (int)r.below(100), u = 1 + (int)r.below(7); std::snprintf(b, sizeof b, "%04d-W%02d-%d", y, v, u);
        auto monday1 = [](int g) { ll j4 = day_no(g, 1, 4); return j4 - fmod_(j4 + 3, 7); }; // the week of January 4
        const ll wk = (monday1(y + 1) - monday1(y)) / 7; const bool vo = v >= 1 && v <= wk; qd = d::sys_days{ d::days{ 3 } };
        CHECK(parse_as(b, "%G-W%V-%u", qd) == vo && qd.time_since_epoch().count() == (vo ? monday1(y) + (v - 1) * 7 + u - 1 : 3), "iso-week", b << ": " << qd.time_since_epoch().count());
        const int wu = (int)r.below(60), wd = (int)r.below(7); std::snprintf(b, sizeof b, "%04d %02d %d", y, wu, wd);
        ll j1 = day_no(y, 1, 1), fs = j1 + fmod_(3 - j1, 7), fm = j1 + fmod_(4 - j1, 7); // first Sunday, first Monday: day 0 was a Thursday
        const ll du = fs + (wu - 1) * 7 + wd, dw = fm + (wu - 1) * 7 + (wd + 6) % 7;
        const bool uo = civil(du).y == y, wo = civil(dw).y == y;
        qd = d::sys_days{ d::days{ 3 } }; CHECK(parse_as(b, "%Y %U %w", qd) == uo && qd.time_since_epoch().count() == (uo ? du : 3), "week-U", b << ": " << qd.time_since_epoch().count());
        qd = d::sys_days{ d::days{ 3 } }; CHECK(parse_as(b, "%Y %W %w", qd) == wo && qd.time_since_epoch().count() == (wo ? dw : 3), "week-W", b << ": " << qd.time_since_epoch().count());
        c.eval(5);
    }
    // components
    {
        const unsigned x = (unsigned)r.below(100); char b[16]; std::snprintf(b, sizeof b, "%02u", x);
        d::month pm{ 77 }; CHECK(parse_as(b, "%m", pm) == (x >= 1 && x <= 12) && (unsigned)pm == (x >= 1 && x <= 12 ? x : 77), "component-month", b);
        d::day pd{ 77 }; CHECK(parse_as(b, "%d", pd) == (x >= 1 && x <= 31) && (unsigned)pd == (x >= 1 && x <= 31 ? x : 77), "component-day", b);
        const unsigned w = (unsigned)r.below(10); std::snprintf(b, sizeof b, "%u", w);
        d::weekday pw{ 3u }; CHECK(parse_as(b, "%w", pw) == (w <= 6) && pw.c_encoding() == (w <= 6 ? w : 3), "component-weekday-w", b);
        pw = d::weekday{ 3u }; CHECK(parse_as(b, "%u", pw) == (w >= 1 && w <= 7) && pw.c_encoding() == (w >= 1 && w <= 7 ? w % 7 : 3), "component-weekday-u", b);
        d::year_month pym = d::year{ 77 } / 7; std::snprintf(b, sizeof b, "2020-%02u", x); CHECK(parse_as(b, "%Y-%m", pym) == (x >= 1 && x <= 12) && pym == (x >= 1 && x <= 12 ? d::year{ 2020 } / d::month{ x } : d::year{ 77 } / 7), "component-year_month", b); pym = d::year{ 77 } / 7; CHECK(!parse_as("11", "%m", pym) && !parse_as("2011", "%Y", pym) && pym == d::year{ 77 } / 7, "component-year_month-incomplete", ""); d::month_day pmi = d::month{ 7 } / 7; CHECK(!parse_as("11", "%m", pmi) && !parse_as("11", "%d", pmi) && pmi == d::month{ 7 } / 7, "component-month_day-incomplete", "");
        d::month_day pmd = d::month{ 7 } / 7; const unsigned mm = 1 + (unsigned)r.below(12), dd = (unsigned)r.below(34); const bool mo = dd >= 1 && dd <= last_day(2000, mm); std::snprintf(b, sizeof b, "%02u-%02u", mm, dd); CHECK(parse_as(b, "%m-%d", pmd) == mo && pmd == (mo ? d::month{ mm } / d::day{ dd } : d::month{ 7 } / 7), "component-month_day", b);
        d::year py{ 77 }; CHECK(!parse_as("x", "%Y", py) && (int)py == 77 && !parse_as("", "%Y", py) && !parse_as("-", "%Y", py) && (int)py == 77, "component-year", "");
        std::string nm = r.pick(std::vector<std::string>{ "Foo", "Janx", "Ja", "M", "", "Sunda", "Octobe", "12" }); pm = d::month{ 5 };
        CHECK(!parse_as(nm, "%B", pm) || nm == "Janx", "component-name", show(nm)); 
        c.eval(8);
    }
    c.distinct(hash_str(s + fmt));
}
#endif
