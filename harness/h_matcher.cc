// C20 meaning of match expressions, C21 rewriting of match expressions
#include "common_types.h"
#include <algorithm>
#include <arki/core/binary.h>
#include <arki/matcher.h>
#include <arki/matcher/aliases.h>
#include <arki/matcher/parser.h>
#include <arki/matcher/utils.h>
#include <arki/types/itemset.h>
#include <arki/types/reftime.h>
#include <arki/types/timerange.h>
#include <cmath>
#include <ctime>
#include <optional>

using namespace arki;
using namespace arki::types;
using namespace vh;

static std::string two(int v)
{
    char b[8];
    snprintf(b, 8, "%02d", v);
    return b;
}

static std::string upper(std::string s)
{
    for (auto& c : s)
        c = (char)toupper((unsigned char)c);
    return s;
}

/*
 * Values and patterns, described independently from arkimet's classes
 */
struct Val
{
    TypeCode code;
    std::string text;                                    // what arkimet parses
    std::string style;
    std::vector<std::string> f;                          // fields, as they compare
    std::map<std::string, std::string> bag;              // key=value lists
    double dmin = 0, dmax = 0;                           // ODIMH5 levels
    Time rt;
};

/// One expression: text and its meaning
struct Pat
{
    std::string text;
    std::function<bool(const Val&)> match;
};

static const char* type_name(TypeCode c)
{
    switch (c)
    {
        case TYPE_ORIGIN: return "origin";
        case TYPE_PRODUCT: return "product";
        case TYPE_LEVEL: return "level";
        case TYPE_TIMERANGE: return "timerange";
        case TYPE_REFTIME: return "reftime";
        case TYPE_AREA: return "area";
        case TYPE_PRODDEF: return "proddef";
        case TYPE_RUN: return "run";
        case TYPE_TASK: return "task";
        case TYPE_QUANTITY: return "quantity";
        default: return "?";
    }
}

struct Gen
{
    Rng& rng;
    Time base;
    bool strings = true;
    explicit Gen(Rng& rng) : rng(rng) { base = add_seconds(Time(2007, 7, 7, 6, 5, 4), (long long)rng.range(-400, 400) * 86400); }

    std::string small(int max = 255) { return std::to_string(rng.chance(85) ? rng.range(0, 2) : rng.chance(50) ? max : rng.range(0, max)); }
    std::string word() { return rng.pick<const char*>({"PVOL", "SCAN", "itGAT", "it", "02954", "COMP", "abc", "ABC"}); }

    static std::string join(const std::vector<std::string>& f, const char* sep)
    {
        std::string res;
        for (auto& s : f)
            res += (res.empty() ? "" : sep) + s;
        return res;
    }
    /// Value text of a style followed by fields: STYLE(a, b, c)
    static std::string paren(const std::string& style, const std::vector<std::string>& f)
    {
        std::string res = style + "(";
        for (size_t i = 0; i < f.size(); ++i)
            res += (i ? ", " : "") + f[i];
        return res + ")";
    }

    std::map<std::string, std::string> bag(bool allow_empty)
    {
        std::map<std::string, std::string> res;
        unsigned n = rng.range(allow_empty ? 0 : 1, 4);
        for (unsigned i = 0; i < n; ++i)
            res[rng.pick<const char*>({"lat", "lon", "tod", "name", "latfirst", "x", "Z", "t"})] =
                rng.pick<const char*>({"0", "1", "2", "foo", "bar", "-1", "45000000", "synop", "\"12\"", "\"\"", "-33", "70000"});
        return res;
    }
    static std::string bag_text(const std::map<std::string, std::string>& b, const char* sep = ", ")
    {
        std::string res;
        for (auto& i : b)
            res += (res.empty() ? "" : sep) + i.first + "=" + i.second;
        return res;
    }
    std::map<std::string, std::string> sub_bag(const std::map<std::string, std::string>& b)
    {
        std::map<std::string, std::string> res;
        for (auto& i : b)
            if (rng.chance(60))
                res.insert(i);
        if (rng.chance(25))
            for (auto& i : bag(true))
                res[i.first] = i.second;
        return res;
    }
    static bool bag_subset(const std::map<std::string, std::string>& want, const std::map<std::string, std::string>& have)
    {
        for (auto& w : want)
        {
            auto i = have.find(w.first);
            if (i == have.end() || i->second != w.second)
                return false;
        }
        return true;
    }

    Val value(TypeCode code)
    {
        Val v;
        v.code = code;
        switch (code)
        {
            case TYPE_ORIGIN:
                switch (rng.below(4))
                {
                    case 0: v.style = "GRIB1"; v.f = {small(), small(), small()}; break;
                    case 1: v.style = "GRIB2"; v.f = {small(65535), small(65535), small(), small(), small()}; break;
                    case 2: v.style = "BUFR"; v.f = {small(), small()}; break;
                    default: v.style = "ODIMH5"; v.f = {word(), word(), word()}; break;
                }
                v.text = paren(v.style, v.f);
                break;
            case TYPE_PRODUCT:
                switch (rng.below(5))
                {
                    case 0: v.style = "GRIB1"; v.f = {small(), small(), small()}; break;
                    case 1: v.style = "GRIB2"; v.f = {small(65535), small(), small(), small(), small(), small()}; break;
                    case 2:
                        v.style = "BUFR";
                        v.f     = {small(), small(), small()};
                        v.bag   = bag(true);
                        break;
                    case 3: v.style = "ODIMH5"; v.f = {word(), word()}; break;
                    default: v.style = "VM2"; v.f = {small()}; break;
                }
                v.text = paren(v.style, v.f);
                if (!v.bag.empty())
                    v.text.insert(v.text.size() - 1, ", " + bag_text(v.bag));
                break;
            case TYPE_LEVEL:
                switch (rng.below(4))
                {
                    case 0:
                        v.style = "GRIB1";
                        switch (rng.below(3))
                        {
                            case 0: v.f = {rng.pick<const char*>({"1", "2", "3", "102", "200"})}; break;
                            case 1: v.f = {rng.pick<const char*>({"100", "103", "105", "109"}), small(1000)}; break;
                            default: v.f = {rng.pick<const char*>({"101", "104", "106", "112"}), small(), small()}; break;
                        }
                        break;
                    case 1: v.style = "GRIB2S"; v.f = {lev("103"), lev("0"), lev("100000")}; break;
                    case 2: v.style = "GRIB2D"; v.f = {lev("103"), lev("0"), lev("1000"), lev("103"), lev("0"), lev("1100")}; break;
                    default:
                        v.style = "ODIMH5";
                        v.dmin  = rng.range(0, 40) / 4.0;
                        v.dmax  = rng.chance(50) ? v.dmin : v.dmin + rng.range(1, 20) / 4.0;
                        v.f     = {cat(v.dmin), cat(v.dmax)};
                        break;
                }
                v.text = paren(v.style, v.f);
                break;
            case TYPE_TIMERANGE: gen_timerange(v); break;
            case TYPE_AREA:
                v.style = rng.chance(70) ? "GRIB" : "ODIMH5";
                v.bag   = bag(true);
                v.text  = v.style + "(" + bag_text(v.bag) + ")";
                break;
            case TYPE_PRODDEF:
                v.style = "GRIB";
                v.bag   = bag(true);
                v.text  = v.style + "(" + bag_text(v.bag) + ")";
                break;
            case TYPE_RUN:
                v.style = "MINUTE";
                v.f     = {std::to_string(rng.range(0, 3) * 360 % 1440 + rng.pick<int>({0, 0, 30, 59}))};
                {
                    int m  = std::stoi(v.f[0]);
                    v.text = cat("MINUTE(", two(m / 60), ":", two(m % 60), ")");
                }
                break;
            case TYPE_TASK:
                v.f    = {rng.pick<const char*>({"task", "Task one", "foobar", "prova 123", "ONE"})};
                v.text = v.f[0];
                break;
            case TYPE_QUANTITY: {
                std::set<std::string> q;
                unsigned n = rng.range(1, 3);
                for (unsigned i = 0; i < n; ++i)
                    q.insert(rng.pick<const char*>({"ACRR", "BRDR", "DBZH", "VRAD", "dbzh"}));
                v.f.assign(q.begin(), q.end());
                v.text = join(v.f, ", ");
                break;
            }
            case TYPE_REFTIME:
                v.rt   = add_seconds(base, (long long)rng.range(-40, 40) * 86400 + (rng.chance(50) ? rng.range(0, 86399) : rng.range(-10, 10) * 1800));
                v.text = v.rt.to_iso8601();
                break;
            default: throw std::runtime_error("type not handled");
        }
        return v;
    }
    std::string lev(const char* third) { return rng.chance(20) ? "-" : rng.chance(30) ? third : small(254); }

    // A time length: text with its unit, and the canonical length
    struct Len
    {
        std::string text;  // 6h
        std::string canon; // 21600s or 12mo
    };
    /// The same length in another unit which can express it
    std::string other_unit(const std::string& canon)
    {
        long v = std::stol(canon);
        if (canon.back() == 's')
        {
            std::vector<std::string> c{cat(v, "s")};
            if (v % 60 == 0) c.push_back(cat(v / 60, "m"));
            if (v % 3600 == 0) c.push_back(cat(v / 3600, "h"));
            if (v % 86400 == 0) c.push_back(cat(v / 86400, "d"));
            if (v == 0) c.push_back("0");
            return rng.pick(c);
        }
        std::vector<std::string> c{cat(v, "mo")};
        if (v % 12 == 0) c.push_back(cat(v / 12, "y"));
        return rng.pick(c);
    }
    Len len(bool with_seconds)
    {
        int n = rng.pick<int>({0, 1, 2, 6, 12, 24, 60});
        // Zero is the same in any unit
        if (with_seconds && n == 0)
            return {"0s", "0s"};
        switch (rng.below(with_seconds ? 6 : 5))
        {
            case 0: return {cat(n, "m"), cat(n * 60, "s")};
            case 1: return {cat(n, "h"), cat(n * 3600, "s")};
            case 2: return {cat(n, "d"), cat(n * 86400, "s")};
            case 3: return {cat(n, "mo"), cat(n, "mo")};
            case 4: return {cat(n, "y"), cat(n * 12, "mo")};
            default: return {cat(n, "s"), cat(n, "s")};
        }
    }
    void gen_timerange(Val& v)
    {
        // f: type, p1, p2 (empty when the type does not use them), or what the style has
        switch (rng.below(4))
        {
            case 0: {
                v.style  = "GRIB1";
                int type = rng.pick<int>({0, 0, 1, 2, 3, 4, 5});
                Len a = len(false);
                // Same unit for both
                std::string unit = a.text.substr(a.text.find_first_not_of("0123456789"));
                int n            = rng.pick<int>({0, 1, 2, 6, 12, 24, 60});
                long mul         = unit == "m" ? 60 : unit == "h" ? 3600 : unit == "d" ? 86400 : unit == "mo" ? 1 : 12;
                Len b{cat(n, unit), cat(n * mul, unit == "mo" || unit == "y" ? "mo" : "s")};
                if (type == 0)
                {
                    v.f    = {"0", a.canon, ""};
                    v.text = cat("GRIB1(0, ", a.text, ")");
                }
                else if (type == 1)
                {
                    v.f    = {"1", "", ""};
                    v.text = "GRIB1(1)";
                }
                else
                {
                    v.f    = {cat(type), a.canon, b.canon};
                    v.text = cat("GRIB1(", type, ", ", a.text, ", ", b.text, ")");
                }
                break;
            }
            case 1: {
                v.style = "GRIB2";
                std::string a = small(), b = small();
                v.f    = {small(), std::to_string(rng.range(0, 2)), a, b};
                {
                    auto t = Timerange::createGRIB2(std::stoi(v.f[0]), std::stoi(v.f[1]), std::stol(a), std::stol(b));
                    v.text = t->to_string();
                }
                break;
            }
            case 2: {
                v.style = "Timedef";
                // step, statistical processing, its length
                std::string step = "-", type = "-", dur = "-";
                std::string text;
                if (rng.chance(15))
                    text = "-";
                else
                {
                    Len l = len(true);
                    step  = l.canon;
                    text  = l.text;
                }
                if (rng.chance(70))
                {
                    type = small(253);
                    text += ", " + type;
                    if (rng.chance(70))
                    {
                        Len l = len(true);
                        dur   = l.canon;
                        text += ", " + l.text;
                    }
                    else
                        text += ", -";
                }
                v.f    = {step, type, dur};
                v.text = "Timedef(" + text + ")";
                break;
            }
            default: {
                v.style = "BUFR";
                Len l   = len(true);
                while (std::stol(l.canon) == 0)
                    l = len(true);
                v.f    = {l.canon};
                v.text = cat("BUFR(", l.text, ")");
                break;
            }
        }
    }

    /// Choose fields of v to require, sometimes with another value
    std::vector<std::string> choose(const Val& v, const Val& other)
    {
        std::vector<std::string> res;
        for (size_t i = 0; i < v.f.size(); ++i)
            if (rng.chance(45))
                res.push_back("");
            else if (rng.chance(12) && i < other.f.size() && other.style == v.style)
                res.push_back(other.f[i]);
            else
                res.push_back(v.f[i]);
        return res;
    }
    /// STYLE,a,,c with or without trailing commas
    std::string commas(const std::string& style, std::vector<std::string> f)
    {
        if (rng.chance(70))
            while (!f.empty() && f.back().empty())
                f.pop_back();
        std::string res = style;
        for (auto& s : f)
            res += "," + s;
        return res;
    }

    Pat pattern(const Val& v)
    {
        Val other = value(v.code);
        Pat p;
        auto fields = [&](std::vector<std::string> want) {
            std::string style = v.style;
            p.match = [want, style](const Val& v) {
                if (v.style != style)
                    return false;
                for (size_t i = 0; i < want.size(); ++i)
                    if (!want[i].empty() && (i >= v.f.size() || v.f[i] != want[i]))
                        return false;
                return true;
            };
        };
        switch (v.code)
        {
            case TYPE_ORIGIN: {
                auto want = choose(v, other);
                fields(want);
                p.text = commas(v.style, want);
                break;
            }
            case TYPE_PRODUCT: {
                if (v.style == "VM2")
                {
                    // VM2 expressions are not compiled in
                    p.text  = "GRIB1,0";
                    p.match = [](const Val& v) { return v.style == "GRIB1" && v.f[0] == "0"; };
                    break;
                }
                auto want = choose(v, other);
                fields(want);
                p.text = commas(v.style, want);
                if (v.style == "BUFR" && rng.chance(60))
                {
                    auto b = sub_bag(v.bag);
                    p.text = commas(v.style, want) + ":" + bag_text(b, rng.chance(50) ? "," : ", ");
                    auto m = p.match;
                    p.match = [m, b](const Val& v) { return m(v) && bag_subset(b, v.bag); };
                }
                break;
            }
            case TYPE_LEVEL:
                if (v.style == "ODIMH5")
                {
                    auto num = [&] { return rng.chance(50) ? v.dmin : rng.range(0, 60) / 4.0; };
                    switch (rng.below(4))
                    {
                        case 0:
                            p.text  = "ODIMH5";
                            p.match = [](const Val& v) { return v.style == "ODIMH5"; };
                            break;
                        case 1: {
                            double a = num(), b = num();
                            p.text  = cat("ODIMH5,range ", a, " ", b);
                            p.match = [=](const Val& v) {
                                return v.style == "ODIMH5" && v.dmax >= std::min(a, b) && v.dmin <= std::max(a, b);
                            };
                            break;
                        }
                        default: {
                            std::vector<double> vals;
                            unsigned n = rng.range(1, 3);
                            p.text     = "ODIMH5," + std::string(rng.chance(50) ? " " : "");
                            for (unsigned i = 0; i < n; ++i)
                            {
                                vals.push_back(num());
                                p.text += cat(i ? " " : "", vals.back());
                            }
                            double off = 0;
                            if (rng.chance(50))
                            {
                                off = rng.range(0, 8) / 8.0;
                                p.text += cat(" offset ", off);
                            }
                            p.match = [=](const Val& v) {
                                if (v.style != "ODIMH5")
                                    return false;
                                for (auto x : vals)
                                    if (v.dmax >= x - off && v.dmin <= x + off)
                                        return true;
                                return false;
                            };
                            break;
                        }
                    }
                }
                else
                {
                    auto want = choose(v, other);
                    if (v.style == "GRIB1" && rng.chance(10))
                        while (want.size() < 3)
                            want.push_back(rng.chance(50) ? "" : small());
                    fields(want);
                    p.text = commas(v.style, want);
                }
                break;
            case TYPE_TIMERANGE: timerange_pattern(v, other, p); break;
            case TYPE_AREA:
            case TYPE_PRODDEF: {
                auto b            = sub_bag(v.bag);
                std::string style = v.style;
                p.text            = style + ":" + bag_text(b, rng.chance(50) ? "," : ", ");
                p.match           = [style, b](const Val& v) { return v.style == style && bag_subset(b, v.bag); };
                break;
            }
            case TYPE_RUN:
                if (rng.chance(15))
                {
                    p.text  = "MINUTE";
                    p.match = [](const Val&) { return true; };
                }
                else
                {
                    std::string want = rng.chance(75) ? v.f[0] : other.f[0];
                    int m            = std::stoi(want);
                    p.text           = m % 60 == 0 && rng.chance(50) ? cat("MINUTE,", rng.chance(50) ? two(m / 60) : cat(m / 60))
                                                                     : cat("MINUTE,", two(m / 60), ":", two(m % 60));
                    p.match          = [want](const Val& v) { return v.f[0] == want; };
                }
                break;
            case TYPE_TASK: {
                std::string s = rng.chance(70) ? v.f[0] : other.f[0];
                size_t b      = rng.below(s.size());
                s             = s.substr(b, 1 + rng.below(s.size() - b));
                while (!s.empty() && s.front() == ' ')
                    s.erase(0, 1);
                while (!s.empty() && s.back() == ' ')
                    s.pop_back();
                if (s.empty())
                    s = v.f[0];
                p.text  = s;
                s       = upper(s);
                p.match = [s](const Val& v) { return upper(v.f[0]).find(s) != std::string::npos; };
                break;
            }
            case TYPE_QUANTITY: {
                std::string q = rng.chance(70) ? rng.pick(v.f) : other.f[0];
                p.text        = q;
                p.match       = [q](const Val& v) { return std::find(v.f.begin(), v.f.end(), q) != v.f.end(); };
                break;
            }
            case TYPE_REFTIME: reftime_pattern(p); break;
            default: throw std::runtime_error("type not handled");
        }
        return p;
    }

    void timerange_pattern(const Val& v, const Val& other, Pat& p)
    {
        auto want         = choose(v, other);
        std::string style = v.style;
        if (style == "GRIB1")
        {
            if (want[1].empty() != want[2].empty() ? false : !want[1].empty())
            {
                // Both lengths need the same kind of unit, which GRIB1 guarantees except for other's
                if (want[1].back() != want[2].back() && std::stol(want[1]) && std::stol(want[2]))
                    want[2] = "";
            }
            std::vector<std::string> t = want;
            for (unsigned i = 1; i < 3; ++i)
                if (!t[i].empty())
                    t[i] = other_unit(t[i]);
            p.text = commas(style, t);
        }
        else if (style == "GRIB2")
            p.text = commas(style, want);
        else if (style == "Timedef")
        {
            if (want[1] == "-")
                want[2] = "";
            std::vector<std::string> t = want;
            for (unsigned i = 0; i < 3; i += 2)
                if (!t[i].empty() && t[i] != "-")
                {
                    do
                        t[i] = other_unit(want[i]);
                    while (t[i] == "0");
                }
            p.text = commas(style, t);
        }
        else
        {
            if (!want[0].empty())
                p.text = cat("BUFR,", other_unit(want[0]));
            else
                p.text = "BUFR";
        }
        p.match = [want, style](const Val& v) {
            // Timedef expressions also match other styles: not compared here
            if (v.style != style)
                return false;
            for (size_t i = 0; i < want.size(); ++i)
            {
                if (want[i].empty())
                    continue;
                // Arguments that the type of timerange does not have are ignored
                if (style == "GRIB1" && i && v.f[i].empty())
                    continue;
                std::string a = want[i], b = v.f[i];
                if (style == "GRIB1" && (a == "0s" || a == "0mo"))
                    a = "0";
                if (style == "GRIB1" && (b == "0s" || b == "0mo"))
                    b = "0";
                if (a != b)
                    return false;
            }
            return true;
        };
    }

    // A period of time: [lo, hi) in seconds, and its text
    struct Period
    {
        std::string text;
        long long lo, hi;
    };
    Period date(unsigned mindepth = 1)
    {
        Time t = add_seconds(base, (long long)rng.range(-40, 40) * 86400 + rng.range(0, 86399));
        unsigned depth = rng.range((int)mindepth, 6);
        Time lo(t.ye, depth > 1 ? t.mo : 1, depth > 2 ? t.da : 1, depth > 3 ? t.ho : 0, depth > 4 ? t.mi : 0, depth > 5 ? t.se : 0);
        Period p;
        p.lo = to_secs(lo);
        switch (depth)
        {
            case 1: p.hi = to_secs(Time(t.ye + 1, 1, 1, 0, 0, 0)); break;
            case 2: p.hi = to_secs(t.mo == 12 ? Time(t.ye + 1, 1, 1, 0, 0, 0) : Time(t.ye, t.mo + 1, 1, 0, 0, 0)); break;
            case 3: p.hi = p.lo + 86400; break;
            case 4: p.hi = p.lo + 3600; break;
            case 5: p.hi = p.lo + 60; break;
            default: p.hi = p.lo + 1; break;
        }
        p.text = cat(t.ye);
        if (depth > 1) p.text += "-" + two(t.mo);
        if (depth > 2) p.text += "-" + two(t.da);
        if (depth > 3) p.text += (rng.chance(20) ? "T" : " ") + two(t.ho);
        if (depth > 4) p.text += ":" + two(t.mi);
        if (depth > 5) p.text += ":" + two(t.se);
        if (depth == 6 && rng.chance(20)) p.text += "Z";
        return p;
    }
    static void ref_easter(int y, int& m, int& d)
    {
        int a = y % 19, b = y / 100, c = y % 100, e = b / 4, f = b % 4, g = (b + 8) / 25, h = (b - g + 1) / 3;
        int i = (19 * a + b - e - h + 15) % 30, k = c / 4, l = c % 4, n = (32 + 2 * f + 2 * k - i - l) % 7;
        int o = (a + 11 * i + 22 * n) / 451;
        m     = (i + n - 7 * o + 114) / 31;
        d     = (i + n - 7 * o + 114) % 31 + 1;
    }
    Period instant()
    {
        switch (rng.below(10))
        {
            case 0: {
                Period p = date(3);
                int n    = rng.range(1, 40);
                bool sub = rng.chance(50);
                const char* u = rng.pick<const char*>({"day", "week"});
                std::string us = n > 1 ? cat(u, "s") : u;
                long long d = (long long)n * (*u == 'd' ? 86400 : 7 * 86400) * (sub ? -1 : 1);
                p.lo += d;
                p.hi += d;
                if (rng.chance(50))
                    p.text = cat(n, " ", us, sub ? " before " : " after ", p.text);
                else
                    p.text = cat(p.text, sub ? " - " : " + ", n, " ", us);
                return p;
            }
            case 1: {
                Period p = date(5);
                int n = rng.range(1, 50), m = rng.range(1, 70);
                bool sub = rng.chance(50);
                long long d = ((long long)n * 3600 + m * 60) * (sub ? -1 : 1);
                p.lo += d;
                p.hi += d;
                p.text = cat(n, n > 1 ? " hours" : " hour", " and ", m, m > 1 ? " minutes" : " minute", sub ? " before " : " after ", p.text);
                return p;
            }
            case 2: {
                int y = base.ye + rng.range(-1, 1), m, d;
                ref_easter(y, m, d);
                Period p;
                p.lo   = to_secs(Time(y, m, d, 0, 0, 0));
                p.text = cat("easter ", y);
                if (rng.chance(50))
                {
                    p.lo -= 39 * 86400;
                    p.text = cat("processione san luca ", y);
                    // 34 days after easter
                    p.lo += (39 + 34) * 86400;
                }
                p.hi = p.lo + 86400;
                return p;
            }
            case 3: {
                Period p = date(3);
                Time t   = from_secs(p.lo);
                bool mid = rng.chance(50);
                p.lo     = to_secs(Time(t.ye, t.mo, t.da, mid ? 12 : 0, 0, 0));
                p.hi     = p.lo + 1;
                p.text   = cat(t.ye, "-", two(t.mo), "-", two(t.da), mid ? (rng.chance(50) ? " midday" : " noon") : " midnight");
                return p;
            }
            default: return date();
        }
    }
    typedef std::function<bool(long long)> TimeFn;
    static TimeFn range(int op, long long lo, long long hi)
    {
        switch (op)
        {
            case 0: return [=](long long t) { return t >= lo; };
            case 1: return [=](long long t) { return t >= hi; };
            case 2: return [=](long long t) { return t < hi; };
            case 3: return [=](long long t) { return t < lo; };
            default: return [=](long long t) { return t >= lo && t < hi; };
        }
    }
    static long long tod(long long s) { return ((s % 86400) + 86400) % 86400; }
    void step(std::string& text, TimeFn& m, long long first)
    {
        static const std::vector<std::pair<const char*, int>> steps{
            {"12h", 43200}, {"6h", 21600}, {"1h", 3600}, {"30m", 1800}, {"3 hours", 10800}, {"15m", 900}, {"1h30m", 5400},
            {"20s", 20}, {"24h", 86400}, {"2h40m", 9600}};
        auto s = steps[rng.below(steps.size())];
        text += std::string(rng.chance(80) ? "%" : "every ") + s.first;
        long long st = s.second;
        TimeFn prev  = m;
        m            = [=](long long t) { return prev(t) && ((tod(t) - tod(first)) % st + st) % st == 0; };
    }
    void reftime_pattern(Pat& p)
    {
        static const char* ops[] = {">=", ">", "<=", "<", "==", "="};
        unsigned n = rng.chance(60) ? 1 : rng.range(1, 3);
        std::vector<TimeFn> all;
        for (unsigned i = 0; i < n; ++i)
        {
            std::string text;
            TimeFn m;
            unsigned op = rng.below(6);
            switch (rng.below(8))
            {
                case 0: {
                    // Time of day
                    unsigned depth = rng.range(1, 3);
                    int h = rng.range(0, 23), mi = rng.range(0, 59), s = rng.range(0, 59);
                    Time t(2000, 1, 1, 0, 0, 0);
                    if (rng.chance(40))
                    {
                        Time b = base;
                        h = b.ho; mi = b.mi; s = b.se;
                    }
                    long long lo = h * 3600 + (depth > 1 ? mi * 60 : 0) + (depth > 2 ? s : 0);
                    long long hi = lo + (depth == 1 ? 3600 : depth == 2 ? 60 : 1);
                    text         = std::string(ops[op]) + two(h);
                    if (depth > 1) text += ":" + two(mi);
                    if (depth > 2) text += ":" + two(s);
                    auto f = range(op, lo, hi);
                    m      = [f](long long t) { return f(tod(t)); };
                    if (rng.chance(25))
                    {
                        text += rng.chance(50) ? " " : "";
                        step(text, m, lo);
                    }
                    break;
                }
                case 1: {
                    m = [](long long) { return true; };
                    long long first = 0;
                    if (rng.chance(40))
                    {
                        int h = rng.range(0, 23), mi = rng.range(0, 59);
                        text  = cat("@", two(h), ":", two(mi));
                        first = h * 3600 + mi * 60;
                    }
                    step(text, m, first);
                    break;
                }
                case 2: {
                    Period d = date();
                    op       = 0;
                    text     = std::string(ops[op]) + d.text + (rng.chance(50) ? " " : "");
                    m        = range(op, d.lo, d.hi);
                    step(text, m, d.lo);
                    break;
                }
                default: {
                    Period d = instant();
                    text     = std::string(ops[op]) + d.text;
                    m        = range(op, d.lo, d.hi);
                    break;
                }
            }
            p.text += (i ? (rng.chance(50) ? "," : ", ") : "") + text;
            all.push_back(m);
        }
        p.match = [all](const Val& v) {
            long long t = to_secs(v.rt);
            for (auto& f : all)
                if (!f(t))
                    return false;
            return true;
        };
    }
};

// Whole expression, with its meaning
struct FullExpr
{
    std::string text;
    std::map<TypeCode, std::vector<Pat>> parts;
    bool match(const std::map<TypeCode, Val>& item) const
    {
        for (auto& p : parts)
        {
            auto i = item.find(p.first);
            if (i == item.end())
                return false;
            if (!match_type(p.first, i->second))
                return false;
        }
        return true;
    }
    bool match_type(TypeCode code, const Val& v) const
    {
        auto p = parts.find(code);
        if (p == parts.end())
            return true;
        for (auto& a : p->second)
            if (a.match(v))
                return true;
        return false;
    }
};

struct Built
{
    std::map<TypeCode, Val> vals;
    std::map<TypeCode, std::shared_ptr<Type>> types;
    std::shared_ptr<Metadata> md;
    std::string desc;
};

static std::shared_ptr<Type> build_value(const Val& v)
{
    try
    {
        if (v.code == TYPE_REFTIME)
            return Reftime::createPosition(v.rt);
        return dec_string(v.code, v.text);
    }
    catch (std::exception& e)
    {
        fail("value-does-not-parse", cat(type_name(v.code), " ", v.text, ": ", e.what()));
    }
}

static Built build_item(Rng& rng, const std::vector<Val>& pool)
{
    Built res;
    res.md = std::make_shared<Metadata>();
    std::map<TypeCode, std::vector<const Val*>> by;
    for (auto& v : pool)
        by[v.code].push_back(&v);
    for (auto code : item_codes)
    {
        if (rng.chance(8) || by[code].empty())
            continue;
        const Val& v = *rng.pick(by[code]);
        auto t       = build_value(v);
        res.md->test_set(*t);
        res.desc += cat(type_name(code), ":", t->to_string(), "; ");
        res.vals.emplace(code, v);
        res.types.emplace(code, t);
    }
    return res;
}

static const char* sep(Rng& rng) { return rng.pick<const char*>({"; ", ";", "\n", " ;\n ", ";;"}); }

static FullExpr gen_full(Rng& rng, Gen& gen, const std::vector<Val>& pool, const std::vector<TypeCode>& types)
{
    FullExpr res;
    for (auto code : types)
    {
        std::vector<const Val*> by;
        for (auto& v : pool)
            if (v.code == code)
                by.push_back(&v);
        unsigned n = rng.chance(60) ? 1 : rng.range(1, 3);
        std::string text;
        for (unsigned i = 0; i < n; ++i)
        {
            Pat p = gen.pattern(*rng.pick(by));
            text += (i ? rng.pick<const char*>({" or ", " OR ", "  or ", "\tor "}) : "") + p.text;
            res.parts[code].push_back(p);
        }
        std::string name = type_name(code);
        if (rng.chance(10))
            name = upper(name);
        if (!res.text.empty())
            res.text += sep(rng);
        res.text += name + rng.pick<const char*>({":", ": ", " : "}) + text;
    }
    if (rng.chance(10))
        res.text += sep(rng);
    return res;
}

static std::vector<TypeCode> pick_types(Rng& rng, unsigned max)
{
    std::vector<TypeCode> t = item_codes;
    rng.shuffle(t);
    t.resize(rng.range(1, (int)max));
    return t;
}

static std::vector<Val> gen_pool(Rng& rng, Gen& gen)
{
    std::vector<Val> pool;
    for (auto code : item_codes)
    {
        unsigned n = code == TYPE_REFTIME ? 8 : 4;
        for (unsigned i = 0; i < n; ++i)
            pool.push_back(gen.value(code));
    }
    return pool;
}

static Matcher parse(const matcher::Parser& parser, const std::string& text)
{
    try
    {
        return parser.parse(text);
    }
    catch (std::exception& e)
    {
        fail(cat("expression-refused"), cat("'", text, "': ", e.what()));
    }
}

// True when the timerange is of another style than Timedef, but the expression is Timedef: the documentation does not
// say what they match
static bool unspecified(const FullExpr& e, const std::map<TypeCode, Val>& vals)
{
    auto p = e.parts.find(TYPE_TIMERANGE);
    auto v = vals.find(TYPE_TIMERANGE);
    if (p == e.parts.end() || v == vals.end() || v->second.style == "Timedef")
        return false;
    for (auto& a : p->second)
        if (a.text.compare(0, 7, "Timedef") == 0)
            return true;
    return false;
}

static void c20(Case& c)
{
    Rng& rng = c.rng;
    Gen gen(rng);
    auto pool = gen_pool(rng, gen);
    std::vector<Built> items;
    for (unsigned i = 0; i < 25; ++i)
        items.push_back(build_item(rng, pool));
    matcher::Parser parser;
    for (unsigned i = 0; i < 25; ++i)
    {
        FullExpr e = gen_full(rng, gen, pool, rng.chance(60) ? pick_types(rng, 1) : pick_types(rng, 4));
        context(cat("expression: ", e.text));
        Matcher m = parse(parser, e.text);
        count("expressions");
        distinct(e.text);
        if (rng.chance(2))
            sample(e.text);
        for (auto& it : items)
        {
            if (unspecified(e, it.vals))
                continue;
            bool want = e.match(it.vals);
            count("evals");
            count(want ? "matching" : "not_matching");
            auto check = [&](const char* how, bool got, bool want) {
                if (got != want)
                    violation(cat("wrong-answer:", how, e.parts.size() == 1 ? cat(":", type_name(e.parts.begin()->first)) : ""),
                              cat("'", e.text, "' ", how, " answers ", got, " on ", it.desc));
            };
            check("metadata", m(*it.md), want);
            for (auto& t : it.types)
            {
                bool tw = e.match_type(t.first, it.vals.at(t.first));
                check("type", m(*t.second), tw);
                std::vector<uint8_t> buf;
                core::BinaryEncoder enc(buf);
                t.second->encodeWithoutEnvelope(enc);
                check("buffer", m(t.first, buf.data(), buf.size()), tw);
                count("types");
            }
            types::ItemSet is;
            for (auto& t : it.types)
                is.set(*t.second);
            check("itemset", m(is), want);
        }
    }
}

/*
 * C21
 */
static std::vector<bool> answers(const Matcher& m, const std::vector<Built>& items)
{
    std::vector<bool> res;
    for (auto& i : items)
        res.push_back(m(*i.md));
    return res;
}

static void same_meaning(const char* what, const std::string& orig, const std::string& rewritten, const Matcher& a, const Matcher& b,
                         const std::vector<Built>& items, const std::string& detail = "")
{
    auto ra = answers(a, items), rb = answers(b, items);
    for (size_t i = 0; i < items.size(); ++i)
    {
        count("compared");
        if (ra[i])
            count("matching");
        if (ra[i] != rb[i])
            violation(cat("meaning-changed:", what), cat("'", orig, "' became '", rewritten, "': ", ra[i], " became ", rb[i], " on ", items[i].desc, detail));
    }
}

static void check_text(const matcher::Parser& parser, const Matcher& m, const std::string& orig, const std::vector<Built>& items)
{
    matcher::Parser plain;
    auto one = [&](const char* what, const matcher::Parser& p, bool expanded) {
        std::string s = expanded ? m.toStringExpanded() : m.toString();
        Matcher r;
        try
        {
            r = p.parse(s);
        }
        catch (std::exception& e)
        {
            fail(cat("text-refused:", what), cat("'", orig, "' printed as '", s, "': ", e.what()));
        }
        same_meaning(what, orig, s, m, r, items);
        std::string s2 = expanded ? r.toStringExpanded() : r.toString();
        if (s2 != s)
            violation(cat("not-a-fixed-point:", what), cat("'", orig, "' printed as '", s, "' then as '", s2, "'"));
        count("texts");
    };
    one("text", parser, false);
    one("expanded", plain, true);
}

static void c21(Case& c)
{
    Rng& rng = c.rng;
    Gen gen(rng);
    auto pool = gen_pool(rng, gen);
    std::vector<Built> items;
    for (unsigned i = 0; i < 30; ++i)
        items.push_back(build_item(rng, pool));

    // Aliases, some of which refer to others
    std::map<TypeCode, std::map<std::string, std::string>> aliases;     // as written
    std::map<TypeCode, std::map<std::string, std::string>> expansions;  // without aliases
    core::cfg::Sections cfg;
    for (auto code : item_codes)
    {
        unsigned n = rng.below(4);
        std::vector<const Val*> by;
        for (auto& v : pool)
            if (v.code == code)
                by.push_back(&v);
        static const char* names[] = {"zeta", "alpha", "mid", "beta"};
        for (unsigned i = 0; i < n; ++i)
        {
            std::string text, exp;
            unsigned k = rng.range(1, 3);
            for (unsigned j = 0; j < k; ++j)
            {
                text += j ? " or " : "";
                exp += j ? " or " : "";
                auto& known = expansions[code];
                if (!known.empty() && rng.chance(50))
                {
                    auto a = known.begin();
                    std::advance(a, rng.below(known.size()));
                    text += rng.chance(30) ? upper(a->first) : a->first;
                    exp += a->second;
                }
                else
                {
                    std::string p = gen.pattern(*rng.pick(by)).text;
                    text += p;
                    exp += p;
                }
            }
            aliases[code][names[i]]    = text;
            expansions[code][names[i]] = exp;
            cfg.obtain(type_name(code))->set(names[i], text);
            count("aliases");
        }
    }
    matcher::Parser parser;
    parser.load_aliases(cfg);

    // The same, reloaded from its own serialisation
    matcher::Parser reloaded;
    auto ser = parser.serialise_aliases();
    reloaded.load_aliases(*ser);
    matcher::Parser reread;
    std::string saved = ser->to_string();
    reread.load_aliases(*core::cfg::Sections::parse(saved, "memory"));
    // Loading the same definitions twice is not a conflict, and changes nothing
    {
        matcher::AliasDatabase db(cfg);
        try
        {
            db.validate(cfg);
            db.validate(*ser);
        }
        catch (std::exception& e)
        {
            violation("alias-conflict-with-itself", cat(e.what(), " in ", saved));
        }
        db.add(cfg);
    }
    matcher::Parser twice;
    twice.load_aliases(cfg);
    twice.load_aliases(*ser);

    auto gen_one = [&](std::string& expanded, std::vector<TypeCode>* used = nullptr) {
        std::string text;
        expanded.clear();
        auto types = pick_types(rng, rng.chance(60) ? 1 : 4);
        if (used)
            *used = types;
        for (auto code : types)
        {
            std::vector<const Val*> by;
            for (auto& v : pool)
                if (v.code == code)
                    by.push_back(&v);
            unsigned k = rng.range(1, 3);
            std::string a, e;
            for (unsigned j = 0; j < k; ++j)
            {
                a += j ? " or " : "";
                e += j ? " or " : "";
                if (!expansions[code].empty() && rng.chance(40))
                {
                    auto x = expansions[code].begin();
                    std::advance(x, rng.below(expansions[code].size()));
                    a += rng.chance(20) ? upper(x->first) : x->first;
                    e += x->second;
                    count("aliases_used");
                }
                else
                {
                    std::string p = gen.pattern(*rng.pick(by)).text;
                    a += p;
                    e += p;
                }
            }
            if (!text.empty())
            {
                const char* s = sep(rng);
                text += s;
                expanded += s;
            }
            text += cat(type_name(code), ":", a);
            expanded += cat(type_name(code), ":", e);
        }
        return text;
    };

    for (unsigned i = 0; i < 12; ++i)
    {
        std::string exp;
        std::vector<TypeCode> types;
        std::string text = gen_one(exp, &types);
        context(cat("expression: ", text, "\naliases:\n", saved));
        Matcher m = parse(parser, text);
        count("evals");
        distinct(text);
        check_text(parser, m, text, items);
        std::string al = cat("\naliases:\n", saved);
        same_meaning("alias", text, exp, m, parse(matcher::Parser(), exp), items, al);
        same_meaning("aliases-reloaded", text, text, m, parse(reloaded, text), items, al);
        same_meaning("aliases-saved", text, text, m, parse(reread, text), items, al);
        same_meaning("aliases-twice", text, text, m, parse(twice, text), items, al);

        // Combining expressions
        std::string exp2, text2;
        std::vector<TypeCode> types2;
        text2     = gen_one(exp2, &types2);
        Matcher m2 = parse(parser, text2);
        context(cat("expressions: ", text, " and ", text2, "\naliases:\n", saved));
        Matcher merged  = m.merge(m2);
        Matcher updated = m.update(m2);
        check_text(parser, merged, cat(text, " merged with ", text2), items);
        check_text(parser, updated, cat(text, " updated with ", text2), items);
        std::set<TypeCode> s1(types.begin(), types.end()), s2(types2.begin(), types2.end());
        std::set<TypeCode> codes;
        for (auto t : types)
            if (rng.chance(50))
                codes.insert(t);
        if (rng.chance(30))
            codes.insert(TYPE_REFTIME);
        Matcher with, without;
        m.split(codes, with, without);
        for (auto& it : items)
        {
            bool a = m(*it.md), b = m2(*it.md);
            auto type = [&](const Matcher& m, TypeCode code) {
                auto i = it.types.find(code);
                return i != it.types.end() && m(*i->second);
            };
            bool wu = true, wm = true, ww = true, wo = true;
            for (auto t : s1)
            {
                if (s2.count(t))
                    wm = wm && (type(m, t) || type(m2, t));
                else
                    wu = wu && type(m, t);
                (codes.count(t) ? ww : wo) = (codes.count(t) ? ww : wo) && type(m, t);
            }
            for (auto t : s2)
                wu = wu && type(m2, t);
            count("combined");
            auto expect = [&](const char* what, const Matcher& r, bool want) {
                if (r(*it.md) != want)
                    violation(cat("combination:", what), cat("'", text, "' ", what, " '", text2, "' = '", r.toString(), "' answers ", !want, " on ", it.desc));
            };
            expect("merged", merged, wm);
            expect("updated", updated, wu);
            expect("split-with", with, ww);
            expect("split-without", without, wo);
            if ((a || b) && !merged(*it.md))
                violation("merge-not-superset", cat("'", text, "' merged with '", text2, "' does not match ", it.desc));
        }
        if (m.toString() != parse(parser, text).toString())
            violation("combination-changed-operand", text);

        // Narrowing
        core::Interval iv;
        Time a = add_seconds(gen.base, (long long)rng.range(-40, 40) * 86400), b = add_seconds(a, rng.range(1, 86400 * 20));
        if (rng.chance(80))
            iv.begin = a;
        if (rng.chance(80))
            iv.end = b;
        Matcher fi = Matcher::for_interval(iv);
        context(cat("interval ", iv.to_string()));
        check_text(parser, fi, iv.to_string(), items);
        for (auto& it : items)
        {
            auto r = it.vals.find(TYPE_REFTIME);
            if (r == it.vals.end())
                continue;
            long long s = to_secs(r->second.rt);
            bool want   = (!iv.begin.is_set() || s >= to_secs(iv.begin)) && (!iv.end.is_set() || s < to_secs(iv.end));
            if (fi(*it.md) != want)
                violation("for_interval", cat(iv.to_string(), " printed as ", fi.toString(), " on ", it.desc));
            count("narrowed");
        }
        std::set<TypeCode> rt{TYPE_REFTIME};
        Matcher upd = m.update(fi);
        check_text(parser, upd, cat(text, " narrowed to ", iv.to_string()), items);
    }
}

int main(int argc, const char* argv[]) { return run_main(argc, argv, {{"C20", c20}, {"C21", c21}}); }
