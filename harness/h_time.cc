// C28 calendar arithmetic and intervals, C22 reference time expressions
#include "common_types.h"
#include <arki/core/binary.h>
#include <arki/core/fuzzytime.h>
#include <arki/matcher.h>
#include <arki/matcher/parser.h>
#include <arki/matcher/utils.h>
#include <arki/summary.h>
#include <arki/types/reftime.h>
#include <cstring>
#include <sqlite3.h>

using namespace arki;
using namespace vh;
using core::FuzzyTime;
using core::Interval;

/*
 * Reference calendar, counting days one by one from a table of a 400 years
 * cycle, and independent from the code under test
 */
static bool ref_leap(long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int ref_dim(long y, int m)
{
    static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && ref_leap(y) ? 29 : d[m - 1];
}
// Days from 0001-01-01, by the usual days-from-civil formula
static long ref_days(long y, long m, long d)
{
    y -= m <= 2;
    long era      = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe  = (unsigned)(y - era * 400);
    unsigned mp   = (unsigned)((m + 9) % 12);
    unsigned doy  = (153 * mp + 2) / 5 + (unsigned)d - 1;
    unsigned doe  = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (long)doe - 306;
}
static void ref_civil(long days, long& y, int& m, int& d)
{
    long z       = days + 306;
    long era     = (z >= 0 ? z : z - 146096) / 146097;
    unsigned doe = (unsigned)(z - era * 146097);
    unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    y            = (long)yoe + era * 400;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    unsigned mp  = (5 * doy + 2) / 153;
    d            = (int)(doy - (153 * mp + 2) / 5 + 1);
    m            = (int)(mp < 10 ? mp + 3 : mp - 9);
    y += m <= 2;
}
static long long ref_secs(const core::TimeBase& t)
{
    return (long long)ref_days(t.ye, t.mo, t.da) * 86400 + t.ho * 3600 + t.mi * 60 + t.se;
}
static Time ref_time(long long s)
{
    long days = (long)(s / 86400);
    long rem  = (long)(s % 86400);
    if (rem < 0)
    {
        rem += 86400;
        --days;
    }
    long y;
    int m, d;
    ref_civil(days, y, m, d);
    return Time((int)y, m, d, (int)(rem / 3600), (int)(rem % 3600 / 60), (int)(rem % 60));
}
static std::string str(const core::TimeBase& t)
{
    return cat(t.ye, "/", t.mo, "/", t.da, " ", t.ho, ":", t.mi, ":", t.se);
}
static std::string str(const Interval& i)
{
    return cat("[", i.begin.isset() ? str(i.begin) : "-", " .. ", i.end.isset() ? str(i.end) : "-", ")");
}

static void expect(const char* what, const std::string& in, const core::TimeBase& got, const core::TimeBase& exp)
{
    count("checks");
    if (!(got == exp))
        violation(std::string("date:") + what, cat(what, " of ", in, " is ", str(got), " instead of ", str(exp)));
}
template <typename T> static void expect_val(const char* what, const std::string& in, T got, T exp)
{
    count("checks");
    if (!(got == exp))
        violation(std::string("value:") + what, cat(what, " of ", in, " is ", got, " instead of ", exp));
}

// Anonymous Gregorian easter by Gauss with the exceptions, a different algorithm from the one in the code
static void ref_easter(int year, int& m, int& d)
{
    int a = year % 19, b = year % 4, c = year % 7;
    int k = year / 100, p = (13 + 8 * k) / 25, q = k / 4;
    int M = (15 - p + k - q) % 30, N = (4 + k - q) % 7;
    int dd = (19 * a + M) % 30;
    int e  = (2 * b + 4 * c + 6 * dd + N) % 7;
    int day = 22 + dd + e;
    if (dd == 29 && e == 6)
        day -= 7;
    else if (dd == 28 && e == 6 && (11 * M + 11) % 30 < 19)
        day -= 7;
    if (day > 31)
    {
        m = 4;
        d = day - 31;
    }
    else
    {
        m = 3;
        d = day;
    }
}

static Time random_time(Rng& rng)
{
    Time t;
    int y = rng.chance(30) ? rng.pick<int>({1900, 1999, 2000, 2004, 2100, 2400, 1970, 1, 9999, 1600, 1582}) : rng.chance(50) ? rng.range(1970, 2040) : rng.range(2, 9998);
    int m = rng.chance(30) ? rng.pick<int>({1, 2, 3, 12}) : rng.range(1, 12);
    int d = rng.chance(40) ? (rng.chance(50) ? 1 : ref_dim(y, m)) : rng.range(1, ref_dim(y, m));
    if (rng.chance(25))
        return Time(y, m, d, 0, 0, 0);
    if (rng.chance(25))
        return Time(y, m, d, 23, 59, 59);
    return Time(y, m, d, rng.range(0, 23), rng.range(0, 59), rng.range(0, 59));
}

static void check_time(Rng& rng, const Time& t)
{
    std::string in = str(t);
    long long s    = ref_secs(t);
    count("evals");
    distinct(in);
    expect("next_instant", in, t.next_instant(), ref_time(s + 1));
    expect("prev_instant", in, t.prev_instant(), ref_time(s - 1));
    expect("start_of_month", in, t.start_of_month(), Time(t.ye, t.mo, 1, 0, 0, 0));
    Time last(t.ye, t.mo, ref_dim(t.ye, t.mo), 23, 59, 59);
    expect("end_of_month", in, t.end_of_month(), last);
    expect("start_of_next_month", in, t.start_of_next_month(), ref_time(ref_secs(last) + 1));
    Time before = ref_time(ref_secs(Time(t.ye, t.mo, 1, 0, 0, 0)) - 1);
    expect("start_of_previous_month", in, t.start_of_previous_month(), Time(before.ye, before.mo, 1, 0, 0, 0));
    expect_val("is_start_of_month", in, t.is_start_of_month(), t.da == 1 && s % 86400 == 0);
    {
        time_t exp = (time_t)(s - (long long)ref_days(1970, 1, 1) * 86400);
        expect_val("to_unix", in, t.to_unix(), t.ye < 1970 ? (time_t)0 : exp);
        struct tm tm;
        gmtime_r(&exp, &tm);
        expect("from tm", in, Time(tm), t);
    }
    // Normalisation of any spelling of the same instant
    for (unsigned i = 0; i < 12; ++i)
    {
        Time n(t);
        // Move amounts from each field to the next ones, keeping the instant
        int k;
        if (rng.chance(70))
        {
            k = rng.range(-3000, 3000);
            n.se -= k * 60;
            n.mi += k;
        }
        if (rng.chance(70))
        {
            k = rng.range(-3000, 3000);
            n.mi -= k * 60;
            n.ho += k;
        }
        if (rng.chance(70))
        {
            k = rng.range(-3000, 3000);
            n.ho -= k * 24;
            n.da += k;
        }
        if (rng.chance(50))
        {
            k = rng.range(-40, 40);
            n.mo -= k * 12;
            n.ye += k;
        }
        if (n.ye < -3000)
            continue;
        std::string nin = str(n);
        // Reference: months first, then days and seconds
        long mo = n.mo - 1, ye = n.ye;
        ye += mo >= 0 ? mo / 12 : -((11 - mo) / 12);
        mo            = ((mo % 12) + 12) % 12;
        long long exp = (long long)(ref_days(ye, mo + 1, 1) + n.da - 1) * 86400 + (long long)n.ho * 3600 + (long long)n.mi * 60 + n.se;
        Time e        = ref_time(exp);
        n.normalise();
        count("normalised");
        expect("normalise", nin, n, e);
    }
    // Text and binary
    expect("iso8601 round trip", in, Time::create_iso8601(t.to_iso8601()), t);
    expect("iso8601 with space round trip", in, Time::create_iso8601(t.to_iso8601(' ')), t);
    expect("sql round trip", in, Time::create_sql(t.to_sql()), t);
    expect("decodeString", in, Time::decodeString(t.to_iso8601()), t);
    expect_val("compare with text", in, t == t.to_iso8601(), true);
    {
        char buf[64];
        snprintf(buf, 64, "%04d-%02d-%02dT%02d:%02d:%02dZ", t.ye, t.mo, t.da, t.ho, t.mi, t.se);
        expect_val("to_iso8601", in, t.to_iso8601(), std::string(buf));
        snprintf(buf, 64, "%04d-%02d-%02d %02d:%02d:%02d", t.ye, t.mo, t.da, t.ho, t.mi, t.se);
        expect_val("to_sql", in, t.to_sql(), std::string(buf));
    }
    std::vector<uint8_t> enc;
    core::BinaryEncoder be(enc);
    t.encodeWithoutEnvelope(be);
    uint8_t fixed[5];
    t.encode_binary(fixed);
    expect_val("size of binary form", in, enc.size(), (size_t)5);
    expect_val("binary forms", in, enc == std::vector<uint8_t>(fixed, fixed + 5), true);
    core::BinaryDecoder bd(enc);
    expect("binary round trip", in, Time::decode(bd), t);

    // Comparison and distance
    Time o = random_time(rng);
    if (rng.chance(50))
        o = ref_time(std::max(s + (rng.chance(50) ? rng.range(-3, 3) : rng.range(-100000000, 100000000)), 0ll));
    if (o.ye > 9999)
        o = t;
    long long so = ref_secs(o);
    std::string both = cat(in, " and ", str(o));
    int cmp = t.compare(o);
    expect_val("compare", both, cmp < 0 ? -1 : cmp > 0 ? 1 : 0, s < so ? -1 : s > so ? 1 : 0);
    expect_val("operators", both, cat(t < o, t <= o, t > o, t >= o, t == o, t != o), cat(s < so, s <= so, s > so, s >= so, s == so, s != so));
    if (std::abs(t.ye - o.ye) < 500)
    {
        expect_val("duration", both, Time::duration(t, o), so - s);
        expect_val("duration of interval", both, Time::duration(Interval(o, t)), s - so);
    }
    // Binary forms keep the order
    uint8_t fo[5];
    o.encode_binary(fo);
    int bc = memcmp(fixed, fo, 5);
    expect_val("order of binary forms", both, bc < 0 ? -1 : bc > 0 ? 1 : 0, s < so ? -1 : s > so ? 1 : 0);
    // SQL text keeps the order
    int tc = t.to_sql().compare(o.to_sql());
    expect_val("order of sql forms", both, tc < 0 ? -1 : tc > 0 ? 1 : 0, s < so ? -1 : s > so ? 1 : 0);

    // Sequences
    {
        int step       = rng.pick<int>({1, 7, 60, 3600, 21600, 86400, 86399, 2678400});
        unsigned n     = rng.below(40);
        long long last = s + (long long)step * n - (rng.chance(50) ? 0 : rng.below(step));
        if (n && last < ref_secs(Time(9999, 12, 31, 0, 0, 0)))
        {
            auto seq = Time::generate(t, ref_time(last), step);
            expect_val("length of generate", cat(in, " step ", step), seq.size(), (size_t)((last - s + step - 1) / step));
            for (size_t i = 0; i < seq.size(); ++i)
                expect("generate", cat(in, " step ", step, " element ", i), seq[i], ref_time(s + (long long)step * i));
            count("generated", seq.size());
        }
    }

    // Partial times
    {
        int f[6] = {t.ye, t.mo, t.da, t.ho, t.mi, t.se};
        unsigned depth = rng.range(1, 6);
        for (unsigned i = depth; i < 6; ++i)
            f[i] = -1;
        Time lo = Time::create_lowerbound(f[0], f[1], f[2], f[3], f[4], f[5]);
        Time hi = Time::create_upperbound(f[0], f[1], f[2], f[3], f[4], f[5]);
        Time elo(f[0], depth > 1 ? f[1] : 1, depth > 2 ? f[2] : 1, depth > 3 ? f[3] : 0, depth > 4 ? f[4] : 0, depth > 5 ? f[5] : 0);
        Time ehi;
        switch (depth)
        {
            case 1: ehi = Time(f[0], 12, 31, 23, 59, 59); break;
            case 2: ehi = Time(f[0], f[1], ref_dim(f[0], f[1]), 23, 59, 59); break;
            case 3: ehi = Time(f[0], f[1], f[2], 23, 59, 59); break;
            case 4: ehi = Time(f[0], f[1], f[2], f[3], 59, 59); break;
            case 5: ehi = Time(f[0], f[1], f[2], f[3], f[4], 59); break;
            default: ehi = t;
        }
        std::string pin = cat(in, " to depth ", depth);
        expect("lower bound", pin, lo, elo);
        expect("upper bound", pin, hi, ehi);
        FuzzyTime ft(f[0], f[1], f[2], f[3], f[4], f[5]);
        ft.validate();
        expect("fuzzy lower bound", pin, ft.lowerbound(), elo);
        expect("fuzzy upper bound", pin, ft.upperbound(), ehi);
        count("partial");
        // A field out of range is refused
        FuzzyTime bad(t.ye, t.mo, t.da, t.ho, t.mi, t.se);
        switch (rng.below(5))
        {
            case 0: bad.mo = rng.pick<int>({0, 13, 99, -2}); break;
            case 1: bad.da = rng.pick<int>({0, ref_dim(t.ye, t.mo) + 1, 32, -5}); break;
            case 2: bad.ho = rng.pick<int>({25, -2, 99}); break;
            case 3: bad.mi = rng.pick<int>({60, -7}); break;
            case 4: bad.se = rng.pick<int>({61, -3}); break;
        }
        bool refused = false;
        try
        {
            bad.validate();
        }
        catch (std::invalid_argument&)
        {
            refused = true;
        }
        expect_val("refusal of invalid date", str(bad), refused, true);
    }
}

/*
 * Intervals: sets of seconds, half open, with unset bounds meaning unbounded
 */
static bool in_interval(const Interval& i, long long s)
{
    if (i.begin.isset() && s < ref_secs(i.begin))
        return false;
    if (i.end.isset() && s >= ref_secs(i.end))
        return false;
    return true;
}

static void check_intervals(Rng& rng)
{
    // Few distinct bounds, so that they often coincide or are adjacent
    std::vector<long long> pts;
    long long base = ref_secs(random_time(rng));
    if (base < 86400 * 800)
        base += 86400 * 800ll;
    if (base > ref_secs(Time(9990, 1, 1, 0, 0, 0)))
        base -= 86400ll * 365 * 20;
    for (unsigned i = 0; i < 4; ++i)
        pts.push_back(base + (rng.chance(50) ? rng.range(0, 5) : rng.range(0, 86400 * 200)));
    auto mk = [&]() {
        Interval res;
        unsigned k = rng.below(10);
        long long a = rng.pick(pts), b = rng.pick(pts);
        if (a > b)
            std::swap(a, b);
        if (a == b)
            ++b;
        if (k > 1)
            res.begin = ref_time(a);
        if (k != 1 && k != 2)
            res.end = ref_time(b);
        if (k == 0)
            res.begin = res.end = Time();
        return res;
    };
    Interval a = mk(), b = mk();
    std::string in = cat(str(a), " with ", str(b));
    count("evals");
    count("intervals");
    distinct(in);
    std::vector<long long> cand;
    for (const Time* t : {&a.begin, &a.end, &b.begin, &b.end})
        if (t->isset())
            for (int d = -1; d <= 1; ++d)
                cand.push_back(ref_secs(*t) + d);
    cand.push_back(86400);
    cand.push_back(ref_secs(Time(9998, 1, 1, 0, 0, 0)));
    cand.push_back(base + rng.range(0, 86400 * 200));

    for (auto s : cand)
        expect_val("contains time", cat(str(a), " and ", str(ref_time(s))), a.contains(ref_time(s)), in_interval(a, s));
    // Inclusion and intersection, on the bounds
    auto lo = [](const Interval& i) { return i.begin.isset() ? ref_secs(i.begin) : -4000000000000ll; };
    auto hi = [](const Interval& i) { return i.end.isset() ? ref_secs(i.end) : 4000000000000ll; };
    bool incl = lo(a) <= lo(b) && hi(b) <= hi(a);
    bool inter = std::max(lo(a), lo(b)) < std::min(hi(a), hi(b));
    expect_val("contains interval", in, a.contains(b), incl);
    expect_val("intersects", in, a.intersects(b), inter);
    expect_val("intersects, swapped", in, b.intersects(a), inter);
    expect_val("is_unbounded", in, a.is_unbounded(), !a.begin.isset() && !a.end.isset());
    const Time *ab = a.begin.isset() ? &a.begin : nullptr, *ae = a.end.isset() ? &a.end : nullptr;
    const Time *bb = b.begin.isset() ? &b.begin : nullptr, *be = b.end.isset() ? &b.end : nullptr;
    expect_val("range_overlaps", in, Time::range_overlaps(ab, ae, bb, be), inter);
    {
        Interval c(a);
        bool res = c.intersect(b);
        expect_val("result of intersect", in, res, inter);
        if (!inter)
            expect_val("interval after failed intersect", in, c == a, true);
        else
        {
            expect_val("begin of intersection", in, lo(c), std::max(lo(a), lo(b)));
            expect_val("end of intersection", in, hi(c), std::min(hi(a), hi(b)));
            for (auto s : cand)
                expect_val("time in intersection", cat(in, " time ", str(ref_time(s))), c.contains(ref_time(s)), in_interval(a, s) && in_interval(b, s));
        }
        if (inter)
            count("intersections");
    }
    {
        Interval c(a);
        c.extend(b);
        expect_val("begin of extension", in, lo(c), std::min(lo(a), lo(b)));
        expect_val("end of extension", in, hi(c), std::max(hi(a), hi(b)));
    }
    expect_val("equality", in, a == b, lo(a) == lo(b) && hi(a) == hi(b));
    expect_val("inequality", in, a != b, !(a == b));
    if (a.begin.isset() && a.end.isset())
    {
        // Months: a partition cut at the beginning of each month
        std::vector<Interval> months;
        a.iter_months([&](const Interval& i) {
            months.push_back(i);
            return true;
        });
        long long cur = lo(a);
        bool whole    = false;
        for (size_t i = 0; i < months.size(); ++i)
        {
            Time b = ref_time(cur);
            long long next = ref_secs(Time(b.ye, b.mo, ref_dim(b.ye, b.mo), 23, 59, 59)) + 1;
            if (b.da == 1 && cur % 86400 == 0 && next <= hi(a))
                whole = true;
            expect("begin of month", cat(str(a), " month ", i), months[i].begin, ref_time(cur));
            expect("end of month", cat(str(a), " month ", i), months[i].end, ref_time(std::min(next, hi(a))));
            cur = std::min(next, hi(a));
        }
        expect_val("end of months", str(a), cur, hi(a));
        expect_val("spans_one_whole_month", str(a), a.spans_one_whole_month(), whole);
        count("month_iterations", months.size());
    }
}

static void c28(Case& c)
{
    // 400 cases go through all the years
    int y0 = (int)(c.index % 400) * 25;
    for (int y = y0 + 1; y <= y0 + 25 && y <= 9999; ++y)
    {
        context(cat("year ", y));
        count("years");
        expect_val("days_in_year", cat(y), Time::days_in_year(y), ref_leap(y) ? 366 : 365);
        for (int m = 1; m <= 12; ++m)
            expect_val("days_in_month", cat(y, "-", m), Time::days_in_month(y, m), ref_dim(y, m));
        int em, ed;
        ref_easter(y, em, ed);
        core::TimeBase e;
        e.set_easter(y);
        expect("easter", cat(y), e, core::TimeBase(y, em, ed, 0, 0, 0));
        // Day by day, the whole year
        long first = ref_days(y, 1, 1);
        Time cur(y, 1, 1, 0, 0, 0);
        for (int d = 0; d < 366; ++d)
        {
            expect("day of the year", cat(y, " day ", d), cur, ref_time((long long)(first + d) * 86400));
            cur.da += 1;
            cur.normalise();
        }
        for (int m = 1; m <= 12; ++m)
            check_time(c.rng, Time(y, m, c.rng.chance(50) ? ref_dim(y, m) : 1, c.rng.chance(50) ? 0 : 23, c.rng.range(0, 59), c.rng.chance(50) ? 0 : 59));
    }
    for (unsigned i = 0; i < 60; ++i)
    {
        Time t = random_time(c.rng);
        if (t.ye < 2 || t.ye > 9998)
            continue;
        context(cat("time ", str(t)));
        check_time(c.rng, t);
        context("intervals");
        check_intervals(c.rng);
        check_intervals(c.rng);
    }
}

/*
 * C22
 */
static std::string two(int v)
{
    char b[8];
    snprintf(b, 8, "%02d", v);
    return b;
}

struct ReftimeGen
{
    Rng& rng;
    std::vector<long long> points; // instants mentioned
    std::vector<int> tods;         // times of day mentioned
    bool rich = true;
    Time base;

    explicit ReftimeGen(Rng& rng) : rng(rng) { base = ref_time(ref_secs(Time(2007, 7, 7, 6, 5, 4)) + (long long)rng.range(-400, 400) * 86400); }

    std::string op() { return rng.pick<const char*>({">=", ">", "<=", "<", "==", "="}); }
    Time near()
    {
        Time t = ref_time(ref_secs(base) + (long long)rng.range(-40, 40) * 86400 + rng.range(0, 86399));
        if (rng.chance(20))
            t.da = ref_dim(t.ye, t.mo);
        return t;
    }
    std::string date()
    {
        Time t = near();
        unsigned depth = rng.range(1, 6);
        Time lo(t.ye, depth > 1 ? t.mo : 1, depth > 2 ? t.da : 1, depth > 3 ? t.ho : 0, depth > 4 ? t.mi : 0, depth > 5 ? t.se : 0);
        points.push_back(ref_secs(lo));
        int f[6] = {t.ye, t.mo, t.da, t.ho, t.mi, t.se};
        for (unsigned i = depth; i < 6; ++i)
            f[i] = -1;
        points.push_back(ref_secs(Time::create_upperbound(f[0], f[1], f[2], f[3], f[4], f[5])) + 1);
        std::string res = cat(t.ye);
        if (depth > 1)
            res += "-" + two(t.mo);
        if (depth > 2)
            res += "-" + two(t.da);
        if (depth > 3)
            res += (rng.chance(20) ? "T" : " ") + two(t.ho);
        if (depth > 4)
            res += ":" + two(t.mi);
        if (depth > 5)
            res += ":" + two(t.se);
        if (depth == 6 && rng.chance(20))
            res += "Z";
        return res;
    }
    std::string abs_date()
    {
        switch (rng.below(12))
        {
            case 0: {
                points.push_back(ref_secs(Time(base.ye, 4, 1, 0, 0, 0)));
                return cat("easter ", base.ye);
            }
            case 1: return cat(rng.range(1, 40), rng.pick<const char*>({" days before ", " hours after ", " minutes after ", " months before ", " weeks after "}), date());
            case 2: return cat(date(), rng.pick<const char*>({" + ", " - "}), rng.range(1, 40), rng.pick<const char*>({" days", " hours", " seconds", " minutes"}));
            case 3: {
                Time t = near();
                points.push_back(ref_secs(Time(t.ye, t.mo, t.da, 0, 0, 0)));
                points.push_back(ref_secs(Time(t.ye, t.mo, t.da, 12, 0, 0)));
                return cat(t.ye, "-", two(t.mo), "-", two(t.da), rng.pick<const char*>({" midday", " midnight", " noon"}));
            }
            case 4: {
                Time t = near();
                points.push_back(ref_secs(Time(t.ye, t.mo, t.da, 0, 0, 0)) + 86400);
                return cat(t.ye, "-", two(t.mo), "-", two(t.da), " 24:00:00");
            }
            default: return date();
        }
    }
    std::string tod()
    {
        int h = rng.range(0, 23), m = rng.range(0, 59), s = rng.range(0, 59);
        if (rng.chance(20))
            h = rng.pick<int>({0, 23, 12});
        if (rng.chance(3))
        {
            tods.push_back(0);
            return rng.pick<const char*>({"24", "24:00", "24:00:00"});
        }
        unsigned depth = rng.range(1, 3);
        tods.push_back(h * 3600 + (depth > 1 ? m * 60 : 0) + (depth > 2 ? s : 0));
        tods.push_back(h * 3600 + (depth > 1 ? m * 60 : 3540) + (depth > 2 ? s : 59));
        std::string res = two(h);
        if (depth > 1)
            res += ":" + two(m);
        if (depth > 2)
            res += ":" + two(s);
        return res;
    }
    std::string step()
    {
        std::string res;
        if (rng.chance(40))
            res += "@" + tod();
        res += rng.pick<const char*>({"%", "%", "every "});
        switch (rng.below(5))
        {
            case 4: return res + rng.pick<const char*>({"1h30m", "12h30m15s", "1h30s", "2m30s", "36h1m"});
            case 0: return res + cat(rng.pick<int>({1, 2, 3, 5, 6, 12, 24, 25, 48}), rng.pick<const char*>({"h", " hours"}));
            case 1: return res + cat(rng.pick<int>({10, 30, 45, 90, 120, 360, 7}), rng.pick<const char*>({"m", "min"}));
            case 2: return res + cat(rng.pick<int>({30, 90, 3600, 3661, 86400, 400, 7201}), "s");
            default: return res + "6h";
        }
    }
    std::string conj()
    {
        std::string res;
        unsigned n = rng.chance(50) ? 1 : rng.range(1, 3);
        for (unsigned i = 0; i < n; ++i)
        {
            if (i)
                res += rng.chance(50) ? "," : ", ";
            switch (rng.below(6))
            {
                case 0: res += op() + tod(); break;
                case 1: res += step(); break;
                case 2: res += op() + tod() + " " + step(); break;
                case 3: res += op() + abs_date() + " " + step(); break;
                default: res += op() + abs_date(); break;
            }
        }
        return res;
    }
    std::string expr()
    {
        std::string res = conj();
        unsigned n = rng.chance(70) ? 0 : rng.range(1, 2);
        for (unsigned i = 0; i < n; ++i)
            res += " or " + conj();
        return res;
    }
};

struct Sqlite
{
    sqlite3* db = nullptr;
    Sqlite() { sqlite3_open(":memory:", &db); }
    ~Sqlite() { sqlite3_close(db); }
    void exec(const std::string& q)
    {
        char* err = nullptr;
        if (sqlite3_exec(db, q.c_str(), nullptr, nullptr, &err) != SQLITE_OK)
            throw std::runtime_error(cat("sqlite: ", err ? err : "?", " in ", q));
    }
    std::set<long> ids(const std::string& q)
    {
        sqlite3_stmt* st = nullptr;
        if (sqlite3_prepare_v2(db, q.c_str(), -1, &st, nullptr) != SQLITE_OK)
        {
            std::string err = sqlite3_errmsg(db);
            throw std::runtime_error(cat("sqlite: ", err, " in ", q));
        }
        std::set<long> res;
        while (sqlite3_step(st) == SQLITE_ROW)
            res.insert(sqlite3_column_int64(st, 0));
        sqlite3_finalize(st);
        return res;
    }
};

static void c22_one(Case& c)
{
    Rng& rng = c.rng;
    ReftimeGen gen(rng);
    std::string text = gen.expr();
    context("reftime:" + text);
    matcher::Parser parser;
    Matcher m;
    try
    {
        m = parser.parse("reftime:" + text);
    }
    catch (std::exception& e)
    {
        violation("does-not-parse", cat("reftime:", text, ": ", e.what()));
        return;
    }
    count("evals");
    count("expressions");
    distinct(text);

    std::vector<long long> cand;
    for (auto p : gen.points)
        for (auto d : {-1, 0, 1})
            cand.push_back(p + d);
    std::vector<long long> days{ref_secs(Time(gen.base.ye, gen.base.mo, gen.base.da, 0, 0, 0))};
    for (auto p : gen.points)
        days.push_back(p - p % 86400);
    for (auto t : gen.tods)
        for (unsigned i = 0; i < 3; ++i)
            cand.push_back(rng.pick(days) + (long long)rng.range(-1, 1) * 86400 + t + rng.range(-1, 1));
    for (unsigned i = 0; i < 24; ++i)
        cand.push_back(rng.pick(days) + (long long)rng.range(-2, 2) * 86400 + (rng.chance(60) ? rng.below(24) * 3600 : rng.below(86400)));

    auto rt = m.get(TYPE_REFTIME);
    if (!rt)
        fail("no-reftime-part", text);
    std::string sql = rt->toReftimeSQL("reftime");
    Sqlite db;
    db.exec("CREATE TABLE t (id INTEGER PRIMARY KEY, reftime TEXT)");
    db.exec("BEGIN");
    for (size_t i = 0; i < cand.size(); ++i)
        db.exec(cat("INSERT INTO t VALUES (", i, ", '", ref_time(cand[i]).to_sql(), "')"));
    db.exec("COMMIT");
    auto ids = db.ids("SELECT id FROM t WHERE " + sql);

    Interval all;
    bool possible = m.intersect_interval(all);
    for (size_t i = 0; i < cand.size(); ++i)
    {
        Time t  = ref_time(cand[i]);
        auto it = types::Reftime::createPosition(t);
        bool matches = m(*it);
        count("times");
        if (matches)
            count("times_matching");
        std::string what = cat("reftime:", text, " and ", str(t), " (matched: ", matches, "): ");
        if ((ids.count((long)i) > 0) != matches)
            violation("sql-differs", cat(what, "sql says ", ids.count((long)i), ": ", sql));
        {
            std::vector<uint8_t> buf;
            core::BinaryEncoder enc(buf);
            it->encodeWithoutEnvelope(enc);
            if (m(TYPE_REFTIME, buf.data(), buf.size()) != matches)
                violation("buffer-differs", what);
        }
        {
            Metadata md;
            md.set(*it);
            if (m(md) != matches)
                violation("metadata-differs", what);
        }
        if (matches && (!possible || !all.contains(t)))
            violation("interval-excludes", cat(what, "possible: ", possible, " interval ", str(all)));
        // Intervals containing the time
        for (unsigned k = 0; k < 4; ++k)
        {
            long long b, e;
            auto dist = [&]() -> long long {
                switch (rng.below(5))
                {
                    case 0: return 0;
                    case 1: return rng.range(1, 7200);
                    case 2: return rng.range(1, 86399);
                    case 3: return cand[i] > rng.pick(cand) ? 3600 : 7;
                    default: return rng.range(86300, 86400 * 30);
                }
            };
            b = cand[i] - dist();
            e = cand[i] + 1 + dist();
            Interval iv(ref_time(b), ref_time(e));
            if (matches && !m(iv))
                violation("skips-interval", cat(what, "does not match ", str(iv)));
            if (matches && e - b < 86400)
                count("intervals_short");
            // Narrowing an interval
            Interval n(iv);
            if (rng.chance(20))
                n.begin = Time();
            if (rng.chance(20))
                n.end = Time();
            Interval orig(n);
            bool res = m.intersect_interval(n);
            if (matches && (!res || !n.contains(t)))
                violation("narrowing-excludes", cat(what, "interval ", str(orig), " became ", str(n), " (", res, ")"));
            if (res && !orig.contains(n) && !(orig == n))
                violation("narrowing-widens", cat(what, "interval ", str(orig), " became ", str(n)));
            count("intervals");
            // A summary with that interval is not skipped
            if (matches && k == 0)
            {
                Summary s;
                for (auto x : {b, e - 1})
                {
                    Metadata md;
                    md.set(*types::Reftime::createPosition(ref_time(x)));
                    s.add(md);
                }
                Summary f;
                s.filter(m, f);
                if (f.count() != s.count())
                    violation("summary-entry-skipped", cat(what, "summary spanning ", str(iv)));
                count("summaries");
            }
        }
    }
    // Whole intervals
    for (unsigned k = 0; k < 6; ++k)
    {
        long long b = rng.pick(days) + (long long)rng.range(-5, 5) * 86400 + (rng.chance(50) ? rng.below(86400) : 0);
        Interval iv(ref_time(b), ref_time(b + (rng.chance(50) ? rng.range(1, 86400) : rng.range(1, 86400 * 10))));
        Matcher mi = Matcher::for_interval(iv);
        for (auto s : cand)
        {
            Time t = ref_time(s);
            if (mi(*types::Reftime::createPosition(t)) != in_interval(iv, s))
                violation("for_interval", cat("matcher for ", str(iv), " on ", str(t)));
        }
        Matcher mm = Matcher::for_month(iv.begin.ye, iv.begin.mo);
        for (auto s : cand)
        {
            Time t = ref_time(s);
            if (mm(*types::Reftime::createPosition(t)) != (t.ye == iv.begin.ye && t.mo == iv.begin.mo))
                violation("for_month", cat("matcher for the month of ", str(iv.begin), " on ", str(t)));
        }
        count("for_interval");
    }
}

static void c22(Case& c)
{
    for (unsigned i = 0; i < 6; ++i)
        c22_one(c);
}

int main(int argc, const char* argv[]) { return run_main(argc, argv, {{"C28", c28}, {"C22", c22}}); }
