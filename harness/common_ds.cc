#include "common_ds.h"
#include <arki/segment/session.h>
#include <algorithm>
#include <arki/dataset/local.h>
#include <arki/metadata/sort.h>
#include <arki/summary/stats.h>
#include <arki/types/bundle.h>
#include <arki/types/itemset.h>
#include <cstring>
#include <sys/stat.h>

using namespace arki;

namespace vh {

bool DsConf::dirs() const
{
    return dir_segments || format == DataFormat::ODIMH5 || format == DataFormat::NETCDF || format == DataFormat::JPEG;
}

std::shared_ptr<core::cfg::Section> DsConf::cfg(const std::filesystem::path& path) const
{
    auto res = std::make_shared<core::cfg::Section>();
    res->set("name", name);
    res->set("type", type);
    res->set("step", step);
    res->set("path", path.native());
    if (type == "iseg")
        res->set("format", format_name(format));
    if (!unique.empty())
        res->set("unique", unique);
    if (!index.empty())
        res->set("index", index);
    if (!replace.empty())
        res->set("replace", replace);
    if (smallfiles)
        res->set("smallfiles", "yes");
    if (eatmydata)
        res->set("eatmydata", "yes");
    if (gz_group >= 0)
        res->set("gz group size", std::to_string(gz_group));
    if (archive_age >= 0)
        res->set("archive age", std::to_string(archive_age));
    if (delete_age >= 0)
        res->set("delete age", std::to_string(delete_age));
    return res;
}

std::string DsConf::desc() const
{
    std::string r = cat(type, "/", step, "/", fmt_name(format));
    if (!unique.empty())
        r += " unique=" + unique;
    if (!index.empty())
        r += " index=" + index;
    if (!replace.empty())
        r += " replace=" + replace;
    if (smallfiles)
        r += " smallfiles";
    if (eatmydata)
        r += " eatmydata";
    if (dir_segments)
        r += " dirs";
    if (gz_group >= 0)
        r += cat(" gz=", gz_group);
    if (archive_age >= 0)
        r += cat(" arc=", archive_age);
    if (delete_age >= 0)
        r += cat(" del=", delete_age);
    return r;
}

static const char* index_types[] = {"origin", "product", "level",   "timerange", "area",
                                    "proddef", "run",    "quantity", "task"};

DsConf ConfGen::make(Rng& rng) const
{
    DsConf c;
    c.type   = rng.pick(types);
    c.step   = rng.pick(steps);
    c.format = rng.pick(formats);
    if (c.type == "iseg" && c.step == "single")
        c.step = "weekly"; // not a documented step: iseg takes ages on it
    auto subset = [&](unsigned n) {
        std::vector<std::string> all(std::begin(index_types), std::end(index_types));
        rng.shuffle(all);
        std::string r = rng.chance(80) ? "reftime" : "";
        for (unsigned i = 0; i < n && i < all.size(); ++i)
            r += (r.empty() ? "" : ", ") + all[i];
        return r;
    };
    if (c.type == "iseg")
    {
        if (rng.chance(unique))
            c.unique = rng.chance(30) ? "reftime, origin, product, level, timerange, area, proddef, run, quantity, task"
                                      : subset(rng.range(1, 5));
        else
            c.unique = "";
        if (rng.chance(60))
            c.index = subset(rng.range(0, 4));
        c.replace = rng.pick(replace);
    }
    c.smallfiles = rng.chance(c.format == DataFormat::VM2 ? 60 : 15);
    c.eatmydata  = rng.chance(15);
    if (rng.chance(30))
        c.gz_group = rng.pick({0, 1, 2, 3, 5});
    if ((c.format == DataFormat::GRIB || c.format == DataFormat::BUFR) && rng.chance(dir_segments))
        c.dir_segments = true;
    return c;
}

std::string seg_name(const std::string& step, const Time& t)
{
    char b[64];
    if (step == "daily")
        snprintf(b, 64, "%04d/%02d-%02d", t.ye, t.mo, t.da);
    else if (step == "weekly")
        snprintf(b, 64, "%04d/%02d-%d", t.ye, t.mo, (t.da - 1) / 7 + 1);
    else if (step == "biweekly")
        snprintf(b, 64, "%04d/%02d-%d", t.ye, t.mo, t.da > 15 ? 2 : 1);
    else if (step == "monthly")
        snprintf(b, 64, "%04d/%02d", t.ye, t.mo);
    else if (step == "yearly")
        snprintf(b, 64, "%02d/%04d", t.ye / 100, t.ye);
    else
        snprintf(b, 64, "all");
    return b;
}

static Time month_after(const Time& t)
{
    return t.mo == 12 ? Time(t.ye + 1, 1, 1, 0, 0, 0) : Time(t.ye, t.mo + 1, 1, 0, 0, 0);
}

std::pair<Time, Time> seg_span(const std::string& step, const Time& t)
{
    if (step == "daily")
    {
        Time b(t.ye, t.mo, t.da, 0, 0, 0);
        return {b, add_seconds(b, 86400)};
    }
    if (step == "weekly")
    {
        int w = (t.da - 1) / 7;
        Time b(t.ye, t.mo, w * 7 + 1, 0, 0, 0);
        Time e = w == 4 ? month_after(t) : add_seconds(b, 86400 * 7);
        Time m = month_after(t);
        if (to_secs(e) > to_secs(m))
            e = m;
        return {b, e};
    }
    if (step == "biweekly")
    {
        if (t.da > 15)
            return {Time(t.ye, t.mo, 16, 0, 0, 0), month_after(t)};
        return {Time(t.ye, t.mo, 1, 0, 0, 0), Time(t.ye, t.mo, 16, 0, 0, 0)};
    }
    if (step == "monthly")
        return {Time(t.ye, t.mo, 1, 0, 0, 0), month_after(t)};
    if (step == "yearly")
        return {Time(t.ye, 1, 1, 0, 0, 0), Time(t.ye + 1, 1, 1, 0, 0, 0)};
    return {Time(1000, 1, 1, 0, 0, 0), Time(100000, 1, 1, 0, 0, 0)};
}

/*
 * Expressions
 */

Expr ExprGen::part(const std::string& type)
{
    const Item& i = rng.pick(pool);
    Expr e;
    auto defined = [&](int v) { return v >= 0 ? v : (int)rng.below(3); };
    if (type == "origin")
    {
        int n = rng.range(0, 3);
        int a = i.o[0] >= 0 ? i.o[0] : 98, b = i.o[1], c = i.o[2];
        bool omit_a = n && rng.chance(20), omit_b = n > 1 && rng.chance(30);
        e.text = "GRIB1";
        if (n > 0)
            e.text += "," + (omit_a ? "" : std::to_string(a));
        if (n > 1)
            e.text += "," + (omit_b ? "" : std::to_string(b));
        if (n > 2)
            e.text += "," + std::to_string(c);
        e.match = [=](const Item& x) {
            return x.o[0] >= 0 && (n < 1 || omit_a || x.o[0] == a) && (n < 2 || omit_b || x.o[1] == b) &&
                   (n < 3 || x.o[2] == c);
        };
    }
    else if (type == "product")
    {
        int n = rng.range(1, 3);
        int a = i.p[0] >= 0 ? i.p[0] : 98, b = i.p[1], c = i.p[2];
        bool omit_a = rng.chance(30), omit_b = rng.chance(30);
        e.text = "GRIB1," + (omit_a ? "" : std::to_string(a));
        if (n > 1)
            e.text += "," + (omit_b ? "" : std::to_string(b));
        if (n > 2)
            e.text += "," + std::to_string(c);
        e.match = [=](const Item& x) {
            return x.p[0] >= 0 && (omit_a || x.p[0] == a) && (n < 2 || omit_b || x.p[1] == b) &&
                   (n < 3 || x.p[2] == c);
        };
    }
    else if (type == "level")
    {
        int a = i.l[0] >= 0 ? i.l[0] : 100, b = i.l[1];
        bool has_b = b >= 0 && rng.chance(60), omit_a = has_b && rng.chance(20);
        e.text = "GRIB1," + (omit_a ? "" : std::to_string(a));
        if (has_b)
            e.text += "," + std::to_string(b);
        e.match = [=](const Item& x) {
            return x.l[0] >= 0 && (omit_a || x.l[0] == a) && (!has_b || x.l[1] == b);
        };
    }
    else if (type == "timerange")
    {
        int t  = i.tr >= 0 ? i.tr : 6;
        e.text = cat("Timedef,", t, "h");
        e.match = [=](const Item& x) { return x.tr == t; };
    }
    else if (type == "area")
    {
        int a = defined(i.a[0]), b = i.a[1];
        bool both = rng.chance(40);
        e.text    = both ? cat("GRIB:lat=", a, ",lon=", b) : cat("GRIB:lat=", a);
        e.match   = [=](const Item& x) { return x.a[0] >= 0 && x.a[0] == a && (!both || x.a[1] == b); };
    }
    else if (type == "proddef")
    {
        int a   = defined(i.pd);
        e.text  = cat("GRIB:tod=", a);
        e.match = [=](const Item& x) { return x.pd == a; };
    }
    else if (type == "run")
    {
        int r = i.run >= 0 ? i.run : 360;
        char b[32];
        if (r % 60 == 0 && rng.chance(50))
            snprintf(b, 32, "MINUTE,%02d", r / 60);
        else
            snprintf(b, 32, "MINUTE,%02d:%02d", r / 60, r % 60);
        e.text  = b;
        e.match = [=](const Item& x) { return x.run == r; };
    }
    else if (type == "task")
    {
        std::string t = i.task.empty() ? "task1" : i.task;
        if (rng.chance(20))
            t = "task";
        e.text  = t;
        e.match = [=](const Item& x) { return !x.task.empty() && x.task.find(t) != std::string::npos; };
    }
    else if (type == "quantity")
    {
        std::string q = i.quantity.empty() ? "ACRR" : i.quantity.substr(0, i.quantity.find(','));
        e.text        = q;
        e.match       = [=](const Item& x) { return ("," + x.quantity + ",").find("," + q + ",") != std::string::npos; };
    }
    return e;
}

static std::string time_text(const Time& t, int prec)
{
    char b[64];
    switch (prec)
    {
        case 0:  snprintf(b, 64, "%04d", t.ye); break;
        case 1:  snprintf(b, 64, "%04d-%02d", t.ye, t.mo); break;
        case 2:  snprintf(b, 64, "%04d-%02d-%02d", t.ye, t.mo, t.da); break;
        case 3:  snprintf(b, 64, "%04d-%02d-%02d %02d", t.ye, t.mo, t.da, t.ho); break;
        case 4:  snprintf(b, 64, "%04d-%02d-%02d %02d:%02d", t.ye, t.mo, t.da, t.ho, t.mi); break;
        default: snprintf(b, 64, "%04d-%02d-%02d %02d:%02d:%02d", t.ye, t.mo, t.da, t.ho, t.mi, t.se); break;
    }
    return b;
}

/// First second of the period and first second after it
static std::pair<long long, long long> period(const Time& t, int prec)
{
    long long b, e;
    switch (prec)
    {
        case 0:
            b = to_secs(Time(t.ye, 1, 1, 0, 0, 0));
            e = to_secs(Time(t.ye + 1, 1, 1, 0, 0, 0));
            break;
        case 1:
            b = to_secs(Time(t.ye, t.mo, 1, 0, 0, 0));
            e = to_secs(month_after(t));
            break;
        case 2:
            b = to_secs(Time(t.ye, t.mo, t.da, 0, 0, 0));
            e = b + 86400;
            break;
        case 3:
            b = to_secs(Time(t.ye, t.mo, t.da, t.ho, 0, 0));
            e = b + 3600;
            break;
        case 4:
            b = to_secs(Time(t.ye, t.mo, t.da, t.ho, t.mi, 0));
            e = b + 60;
            break;
        default:
            b = to_secs(t);
            e = b + 1;
            break;
    }
    return {b, e};
}

Expr ExprGen::reftime_part()
{
    Expr res;
    int n = rng.chance(60) ? 1 : 2;
    std::vector<std::function<bool(long long)>> preds;
    if (!cut_step.empty())
    {
        // Whole segments
        auto a = seg_span(cut_step, rng.pick(pool).rt), b = seg_span(cut_step, rng.pick(pool).rt);
        if (to_secs(b.first) < to_secs(a.first))
            std::swap(a, b);
        long long lo = to_secs(a.first), hi = to_secs(b.second);
        switch (rng.below(6))
        {
            case 0:
                res.text  = cat(">=", time_text(a.first, 5));
                res.match = [=](const Item& x) { return to_secs(x.rt) >= lo; };
                return res;
            case 1:
                res.text  = cat("<", time_text(b.second, 5));
                res.match = [=](const Item& x) { return to_secs(x.rt) < hi; };
                return res;
        }
        res.text  = cat(">=", time_text(a.first, 5), ",<", time_text(b.second, 5));
        res.match = [=](const Item& x) { return to_secs(x.rt) >= lo && to_secs(x.rt) < hi; };
        return res;
    }
    for (int k = 0; k < n; ++k)
    {
        if (!res.text.empty())
            res.text += ",";
        Time t   = rng.pick(pool).rt;
        if (rng.chance(30))
            t = add_seconds(t, rng.range(-40, 40) * 1800);
        if (!contiguous && rng.chance(15))
        {
            // Time of day
            int h = rng.chance(70) ? t.ho : (int)rng.below(24);
            char b[16];
            snprintf(b, 16, "%02d", h);
            switch (rng.below(3))
            {
                case 0:
                    res.text += cat("=", b);
                    preds.push_back([=](long long s) { return ((s % 86400 + 86400) % 86400) / 3600 == h; });
                    break;
                case 1:
                    res.text += cat(">=", b);
                    preds.push_back([=](long long s) { return ((s % 86400 + 86400) % 86400) / 3600 >= h; });
                    break;
                case 2:
                    res.text += cat("<=", b);
                    preds.push_back([=](long long s) { return ((s % 86400 + 86400) % 86400) / 3600 <= h; });
                    break;
            }
            continue;
        }
        int prec = rng.pick({0, 1, 1, 2, 2, 2, 3, 4, 5, 5});
        auto p   = period(t, prec);
        auto b = p.first, e = p.second;
        switch (rng.below(6))
        {
            case 0:
                res.text += ">=" + time_text(t, prec);
                preds.push_back([=](long long s) { return s >= b; });
                break;
            case 1:
                res.text += ">" + time_text(t, prec);
                preds.push_back([=](long long s) { return s >= e; });
                break;
            case 2:
                res.text += "<=" + time_text(t, prec);
                preds.push_back([=](long long s) { return s < e; });
                break;
            case 3:
                res.text += "<" + time_text(t, prec);
                preds.push_back([=](long long s) { return s < b; });
                break;
            default:
                res.text += (rng.below(2) ? "=" : "==") + time_text(t, prec);
                preds.push_back([=](long long s) { return s >= b && s < e; });
                break;
        }
    }
    res.match = [preds](const Item& x) {
        long long s = to_secs(x.rt);
        for (const auto& p : preds)
            if (!p(s))
                return false;
        return true;
    };
    return res;
}

Expr ExprGen::make()
{
    Expr res;
    std::vector<std::function<bool(const Item&)>> preds;
    std::vector<std::string> parts;
    auto add = [&](const std::string& name, bool allow_or) {
        unsigned n = allow_or && rng.chance(35) ? rng.range(2, 3) : 1;
        std::vector<Expr> alts;
        for (unsigned i = 0; i < n; ++i)
            alts.push_back(name == "reftime" ? reftime_part() : part(name));
        std::string t = name + ":";
        for (unsigned i = 0; i < n; ++i)
            t += (i ? " or " : "") + alts[i].text;
        parts.push_back(t);
        preds.push_back([alts](const Item& x) {
            for (const auto& a : alts)
                if (a.match(x))
                    return true;
            return false;
        });
    };
    if (rng.chance(reftime))
        add("reftime", reftime_or);
    unsigned max = rng.chance(70) ? 2 : 4, k = 0;
    std::vector<std::string> names(std::begin(index_types), std::end(index_types));
    rng.shuffle(names);
    for (const auto& t : names)
        if (k < max && rng.chance(others))
        {
            add(t, true);
            ++k;
        }
    rng.shuffle(parts);
    for (const auto& p : parts)
        res.text += (res.text.empty() ? "" : "; ") + p;
    res.match = [preds](const Item& x) {
        for (const auto& p : preds)
            if (!p(x))
                return false;
        return true;
    };
    return res;
}

/*
 * Recorder
 */

std::string Recorder::desc() const
{
    std::string r;
    for (const auto& e : events)
        r += cat("[", e.ds, " ", e.op, " ", e.relpath, ": ", e.message, "]");
    return r.substr(0, 1500);
}

std::vector<Recorder::Event> Recorder::actions() const
{
    std::vector<Event> res;
    for (const auto& e : events)
        if (e.op.substr(0, 8) == "segment_" && e.op != "segment_info")
            res.push_back(e);
        else if (e.op == "operation_manual_intervention" || e.op == "operation_aborted")
            res.push_back(e);
    return res;
}

bool Recorder::has(const std::string& op, const std::string& relpath) const
{
    for (const auto& e : events)
        if (e.op == op && e.relpath == relpath)
            return true;
    return false;
}

unsigned Recorder::n(const std::string& op) const
{
    unsigned r = 0;
    for (const auto& e : events)
        if (e.op == op)
            ++r;
    return r;
}

/*
 * Summaries
 */

static const std::vector<TypeCode> summary_codes = {TYPE_ORIGIN, TYPE_PRODUCT,  TYPE_LEVEL, TYPE_TIMERANGE, TYPE_AREA,
                                                    TYPE_PRODDEF, TYPE_BBOX,     TYPE_RUN,   TYPE_QUANTITY,  TYPE_TASK};

std::string summary_key(const Metadata& md)
{
    std::string k;
    for (auto c : summary_codes)
        if (const types::Type* t = md.get(c))
            k += cat(t->tag(), ":", t->to_string(), "; ");
    return k;
}

void Stat::add(const Item& i)
{
    if (!count || to_secs(i.rt) < to_secs(begin))
        begin = i.rt;
    if (!count || to_secs(i.rt) > to_secs(end))
        end = i.rt;
    ++count;
    size += i.data.size();
}

SummaryMap summary_map(const Summary& s)
{
    struct V : public summary::Visitor
    {
        SummaryMap res;
        std::string dup;
        bool operator()(const std::vector<const types::Type*>& md, const summary::Stats& stats) override
        {
            std::map<TypeCode, const types::Type*> m;
            for (auto t : md)
                if (t)
                    m[t->type_code()] = t;
            std::string k;
            for (auto c : summary_codes)
                if (m.count(c))
                    k += cat(m[c]->tag(), ":", m[c]->to_string(), "; ");
            Stat st;
            st.count = stats.count;
            st.size  = stats.size;
            st.begin = stats.begin;
            st.end   = stats.end;
            if (!res.emplace(k, st).second)
                dup = k;
            return true;
        }
    } v;
    s.visit(v);
    if (!v.dup.empty())
        v.res["duplicate entry " + v.dup] = Stat();
    return v.res;
}

std::string diff_summaries(const SummaryMap& exp, const SummaryMap& got)
{
    std::string r;
    auto desc = [](const Stat& s) {
        return cat(s.count, "/", s.size, "/", s.begin.to_iso8601(), "..", s.end.to_iso8601());
    };
    for (const auto& e : exp)
    {
        auto g = got.find(e.first);
        if (g == got.end())
            r += cat(" missing {", e.first, "}=", desc(e.second));
        else if (!(g->second == e.second))
            r += cat(" {", e.first, "} expected ", desc(e.second), " got ", desc(g->second));
    }
    for (const auto& g : got)
        if (!exp.count(g.first))
            r += cat(" extra {", g.first, "}=", desc(g.second));
    return r.substr(0, 800);
}

/*
 * Store
 */

Store::Store(Rng& rng, const DsConf& conf, const std::filesystem::path& path)
    : rng(rng), conf(conf), path(path), gen(rng)
{
    gen.format = conf.format;
    if (conf.step == "daily")
    {
        gen.span_hours = 24 * rng.pick({2, 4, 10});
        gen.begin      = Time(2007, 7, rng.range(1, 28), 0, 0, 0);
    }
    else if (conf.step == "yearly")
        gen.span_hours = 24 * 366 * 2;
    else if (conf.step == "monthly")
        gen.span_hours = 24 * 100;
    else
        gen.span_hours = 24 * 40;
    // Sometimes across the end of a year, or of February in a leap year
    if (conf.step != "yearly" && rng.chance(30))
    {
        Time around = rng.chance(70) ? Time(rng.pick({2007, 2008}), 12, 31, 0, 0, 0) : Time(2008, 2, 29, 0, 0, 0);
        gen.begin   = add_seconds(around, -86400ll * rng.below(gen.span_hours / 24));
    }
    if (conf.replace == "USN" || rng.chance(10))
        gen.missing = 30;
    gen.variety = rng.pick({1, 2, 3});
    gen.step_hours = rng.pick({6, 12, 24});
    std::filesystem::create_directories(path);
    reopen();
}

void Store::reopen()
{
    session = std::make_shared<dataset::Session>(false);
    ds      = session->dataset(*conf.cfg(path));
    if (conf.dir_segments)
    {
        auto s = std::dynamic_pointer_cast<dataset::segmented::Dataset>(ds);
        s->segment_session->default_file_segment = segment::DefaultFileSegment::SEGMENT_DIR;
    }
}

void Store::maybe_reopen()
{
    if (rng.below(2))
        reopen();
}

void Store::note(const std::string& s)
{
    log += s + "; ";
    if (log.size() > 3000)
        log = "..." + log.substr(log.size() - 2500);
    context(conf.desc() + " | " + log);
}

std::string Store::relpath(const Item& i) const
{
    return seg_name(conf.step, i.rt) + "." + fmt_name(conf.format);
}

std::string Store::unique_key(const Item& i) const
{
    if (!conf.iseg())
        return "";
    std::string k = i.rt.to_iso8601();
    Metadata md;
    i.to_metadata(md);
    std::string u = conf.unique;
    for (auto& c : u)
        if (c == ',')
            c = ' ';
    std::istringstream ss(u);
    std::set<std::string> names;
    std::string n;
    while (ss >> n)
        if (n != "reftime")
            names.insert(n);
    for (const auto& n : names)
    {
        const types::Type* t = md.get(types::parseCodeName(n));
        k += "|" + n + "=" + (t ? t->to_string() : "(none)");
    }
    return k;
}

std::vector<metadata::Inbound::Result> Store::predict(const std::vector<Item>& items,
                                                      std::map<unsigned, Item>& model) const
{
    typedef metadata::Inbound::Result R;
    std::vector<R> res(items.size(), R::OK);
    std::map<std::string, unsigned> keys;
    for (const auto& i : model)
    {
        auto k = unique_key(i.second);
        if (!k.empty() && !archived.count(relpath(i.second)))
            keys[k] = i.first;
    }
    Time del, arc;
    const auto& st = dataset::SessionTime::get();
    if (conf.delete_age != -1)
    {
        time_t n = st.now();
        del      = from_secs(to_secs(Time(1970, 1, 1, 0, 0, 0)) + (n / 86400 - conf.delete_age) * 86400);
    }
    if (conf.archive_age != -1)
    {
        time_t n = st.now();
        arc      = from_secs(to_secs(Time(1970, 1, 1, 0, 0, 0)) + (n / 86400 - conf.archive_age) * 86400);
    }
    for (size_t n = 0; n < items.size(); ++n)
    {
        const Item& i = items[n];
        if (i.format != items[0].format)
        {
            // All data of a batch must be in the same format
            res[n] = R::ERROR;
            continue;
        }
        if (conf.delete_age != -1 && to_secs(i.rt) < to_secs(del))
        {
            res[n] = R::OK;
            continue;
        }
        if (conf.archive_age != -1 && to_secs(i.rt) < to_secs(arc))
        {
            res[n] = R::ERROR;
            continue;
        }
        auto k = unique_key(i);
        if (!k.empty())
        {
            auto old = keys.find(k);
            if (old != keys.end())
            {
                const Item& o = model.at(old->second);
                if (conf.replace == "yes")
                    model.erase(old->second);
                else if (conf.replace == "USN")
                {
                    if (i.usn < 0)
                    {
                        res[n] = R::DUPLICATE;
                        continue;
                    }
                    if (o.usn < 0)
                    {
                        res[n] = R::ERROR;
                        continue;
                    }
                    if (i.usn < o.usn)
                    {
                        res[n] = R::DUPLICATE;
                        continue;
                    }
                    model.erase(old->second);
                }
                else
                {
                    res[n] = R::DUPLICATE;
                    continue;
                }
            }
            keys[k] = i.uid;
        }
        model[i.uid] = i;
    }
    return res;
}

std::vector<Item> Store::make_items(unsigned n)
{
    std::vector<Item> res;
    for (unsigned k = 0; k < n * 20 && res.size() < n; ++k)
    {
        Item i = gen.make();
        if (closed.count(relpath(i)))
            continue;
        if (conf.replace == "USN" && rng.chance(75))
        {
            i.usn = rng.below(4);
            i.build(rng, rng.below(gen.max_filler));
        }
        res.push_back(i);
    }
    return res;
}

Outcome Store::import(const std::vector<Item>& items, bool drop_cached, bool check_results)
{
    Outcome o;
    auto model = live;
    o.expected = predict(items, model);
    metadata::InboundBatch batch;
    for (const auto& i : items)
        batch.add(i.md());
    dataset::AcquireConfig cfg;
    cfg.drop_cached_data_on_commit = drop_cached;
    note(cat("import ", items.size()));
    count("imports");
    {
        auto writer = ds->create_writer();
        try
        {
            writer->acquire_batch(batch, cfg);
        }
        catch (std::exception& e)
        {
            o.exception = e.what();
        }
    }
    for (size_t n = 0; n < items.size(); ++n)
    {
        o.results.emplace_back(items[n], batch[n]->result);
        if (batch[n]->result == metadata::Inbound::Result::OK)
            ++o.ok;
    }
    if (!o.exception.empty())
    {
        if (check_results)
            fail(prefix + "import-throws", o.exception);
        return o;
    }
    live = model;
    count("imported", o.ok);
    if (check_results)
        for (size_t n = 0; n < items.size(); ++n)
            if (batch[n]->result != o.expected[n])
                fail(prefix + "import-result", cat("item ", items[n].desc(), " expected ", o.expected[n], " got ",
                                                   batch[n]->result, " ", batch[n]->md->to_yaml()));
    return o;
}

Recorder Store::run_op(const std::string& op, bool fix)
{
    auto rec = std::make_shared<Recorder>();
    note(op + (fix ? "" : "(dry)"));
    dataset::CheckerConfig cfg(rec, !fix);
    if (op == "repack" && fix && !conf.iseg())
    {
        // A simple dataset asks for a check before it can be repacked
        auto r2 = std::make_shared<Recorder>();
        dataset::CheckerConfig c2(r2, false);
        ds->create_checker()->check(c2);
    }
    auto checker = ds->create_checker();
    if (op == "check")
        checker->check(cfg);
    else if (op == "check-accurate")
    {
        cfg.accurate = true;
        checker->check(cfg);
    }
    else if (op == "repack")
        checker->repack(cfg);
    else if (op == "tar")
        checker->tar(cfg);
    else if (op == "zip")
        checker->zip(cfg);
    else if (op == "compress")
        checker->compress(cfg, conf.gz_group >= 0 ? conf.gz_group : 512);
    else if (op == "remove_old")
        checker->remove_old(cfg);
    else if (op == "remove_all")
        checker->remove_all(cfg);
    else if (op == "state")
        checker->state(cfg);
    else
        throw std::logic_error("unknown op " + op);
    count("op_" + op);
    if (getenv("VH_TRACE"))
    {
        fprintf(stderr, "## %s: %s\n", op.c_str(), rec->desc().c_str());
        for (const auto& e : snapshot(path))
            fprintf(stderr, "     %s %s\n", e.first.c_str(), e.second.substr(0, 60).c_str());
    }
    if (fix && (op == "tar" || op == "zip" || op == "compress"))
        close_converted();
    return *rec;
}

Recorder Store::run_check(bool fix, bool accurate) { return run_op(accurate ? "check-accurate" : "check", fix); }
Recorder Store::run_repack(bool fix) { return run_op("repack", fix); }

Result Store::query(const std::string& expr, const std::string& sort)
{
    Result r;
    query::Data q(session->matcher(expr), true);
    if (!sort.empty())
        q.sorter = metadata::sort::Compare::parse(sort);
    auto reader = ds->create_reader();
    r.res       = reader->query_data(q, [&](std::shared_ptr<Metadata> md) {
        r.mds.push_back(md);
        return true;
    });
    for (auto& md : r.mds)
        r.items.push_back(item_from_data(conf.format, md->get_data().read()));
    count("queries");
    count("items_read", r.items.size());
    return r;
}

void Store::remove(const std::set<unsigned>& uids)
{
    metadata::Collection c;
    auto r = query("");
    for (size_t i = 0; i < r.items.size(); ++i)
        if (uids.count(r.items[i].uid))
        {
            // As if they had been saved and read back: they do not keep readers of the segment
            std::shared_ptr<Metadata> md = r.mds[i]->clone();
            const auto& b = r.mds[i]->sourceBlob();
            md->set_source(types::Source::createBlobUnlocked(b.format, b.basedir, b.filename, b.offset, b.size));
            c.push_back(md);
        }
    r.mds.clear();
    note(cat("remove ", uids.size()));
    auto checker = ds->create_checker();
    checker->remove(c);
    for (auto u : uids)
        live.erase(u);
    count("removed", uids.size());
}

SummaryMap Store::model_summary(std::function<bool(const Item&)> match) const
{
    SummaryMap m;
    for (const auto& i : live)
    {
        if (match && !match(i.second))
            continue;
        Metadata md;
        i.second.to_metadata(md);
        m[summary_key(md)].add(i.second);
    }
    return m;
}

std::string compare_md(const Item& exp, const Metadata& md)
{
    Metadata e;
    exp.to_metadata(e);
    for (auto c : summary_codes)
    {
        const types::Type* a = e.get(c);
        const types::Type* b = md.get(c);
        if (!a && !b)
            continue;
        if (!a)
            return cat("unexpected ", b->tag(), " ", b->to_string());
        if (!b)
            return cat("missing ", a->tag(), " ", a->to_string());
        if (!a->equals(*b))
            return cat(a->tag(), " is ", b->to_string(), " instead of ", a->to_string());
    }
    const types::Type* a = e.get(TYPE_REFTIME);
    const types::Type* b = md.get(TYPE_REFTIME);
    if (!b || !a->equals(*b))
        return cat("reftime is ", b ? b->to_string() : "missing", " instead of ", a->to_string());
    return "";
}

void Store::check_item(const std::string& where, const Item& exp, Metadata& md, const std::vector<uint8_t>& data)
{
    if (data != exp.data)
        fail(prefix + "bytes", cat(where, ": item ", exp.desc(), " has different bytes: ", hex(data)));
    if (md.data_size() != exp.data.size())
        fail(prefix + "size", cat(where, ": item ", exp.desc(), " has size ", md.data_size()));
    std::string d = compare_md(exp, md);
    if (!d.empty())
        fail(prefix + "metadata", cat(where, ": item ", exp.desc(), ": ", d));
}

void Store::check_contents(const std::string& where, bool deep)
{
    auto r = query("");
    std::map<unsigned, unsigned> seen;
    for (size_t i = 0; i < r.items.size(); ++i)
    {
        auto e = live.find(r.items[i].uid);
        if (e == live.end())
            fail(prefix + "unexpected-item", cat(where, ": query returns ", r.items[i].desc()));
        if (seen[e->first]++)
            fail(prefix + "item-twice", cat(where, ": query returns twice ", r.items[i].desc()));
        check_item(where, e->second, *r.mds[i], r.items[i].data);
    }
    for (const auto& i : live)
        if (!seen.count(i.first))
            fail(prefix + "lost-item", cat(where, ": query does not return ", i.second.desc(), " of ", relpath(i.second)));
    count("contents_checked");
    if (!deep)
        return;
    // As a stream of bytes
    {
        std::vector<uint8_t> buf, exp;
        query::Bytes q;
        q.setData(session->matcher(""));
        auto out    = StreamOutput::create(buf);
        auto reader = ds->create_reader();
        reader->query_bytes(q, *out);
        for (const auto& i : r.items)
        {
            exp.insert(exp.end(), i.data.begin(), i.data.end());
            if (conf.format == DataFormat::VM2)
                exp.push_back('\n');
        }
        if (buf != exp)
            fail(prefix + "query-bytes", cat(where, ": query_bytes sends ", buf.size(), " bytes instead of ", exp.size()));
    }
}

std::set<std::string> Store::segments_on_disk() const
{
    std::set<std::string> res;
    for (const auto& e : snapshot(path))
    {
        std::string n = e.first;
        if (n.substr(0, 9) == ".archive/" || n.find(".tmp") != std::string::npos)
            continue;
        for (std::string ext : {"", ".gz", ".tar", ".zip"})
        {
            std::string suf = cat(".", fmt_name(conf.format), ext);
            if (n.size() > suf.size() && n.substr(n.size() - suf.size()) == suf && n.find('/') != std::string::npos)
            {
                // Not the files inside a directory segment
                std::string parent = n.substr(0, n.rfind('/'));
                std::string psuf   = cat(".", fmt_name(conf.format));
                if (parent.size() > psuf.size() && parent.substr(parent.size() - psuf.size()) == psuf)
                    continue;
                res.insert(n.substr(0, n.size() - ext.size()));
            }
        }
    }
    return res;
}

void Store::close_converted()
{
    for (const auto& e : snapshot(path))
        for (std::string ext : {".gz", ".tar", ".zip"})
        {
            std::string n = e.first, suf = cat(".", fmt_name(conf.format), ext);
            if (n.size() > suf.size() && n.substr(n.size() - suf.size()) == suf && n.substr(0, 9) != ".archive/")
                closed.insert(n.substr(0, n.size() - ext.size()));
        }
}

void Store::check_clean(const std::string& where, bool allow_dirty, bool accurate)
{
    auto rec = run_check(false, accurate);
    for (const auto& e : rec.actions())
    {
        if (allow_dirty && (e.op == "segment_repack" || e.op == "segment_remove" || e.op == "segment_archive"))
            continue;
        fail(prefix + "not-clean", cat(where, ": check reports ", rec.desc()));
    }
    count("checked_clean");
}

std::string random_maintenance(Store& s)
{
    std::string op = s.rng.pick({"check", "repack", "tar", "zip", "compress", "repack", "check-accurate"});
    s.maybe_reopen();
    s.run_op(op, true);
    return op;
}

/// Call f on the segment with the given path. Returns false if the dataset does not know it
bool with_segment(Store& s, const std::string& rel, std::function<void(dataset::segmented::CheckerSegment&)> f)
{
    auto checker = std::dynamic_pointer_cast<dataset::segmented::Checker>(s.ds->create_checker());
    bool found   = false;
    std::vector<std::string> paths;
    checker->segments_tracked([&](dataset::segmented::CheckerSegment& seg) {
        if (seg.path_relative() == rel && !found)
        {
            found = true;
            f(seg);
        }
    });
    return found;
}

void move_to_archive(Store& s, int age_days_before_end)
{
    // Archive what is older than a time inside the span of the data
    long long lo = to_secs(s.live.begin()->second.rt), hi = lo;
    for (auto& i : s.live)
    {
        lo = std::min(lo, to_secs(i.second.rt));
        hi = std::max(hi, to_secs(i.second.rt));
    }
    long long epoch = to_secs(Time(1970, 1, 1, 0, 0, 0));
    long long cut   = lo + s.rng.range(0, 100) * (hi - lo + 86400 * 40) / 100;
    time_t now      = cut - epoch + 86400ll * age_days_before_end;
    auto o          = dataset::SessionTime::local_override(now);
    int old         = s.conf.archive_age;
    s.conf.archive_age = age_days_before_end;
    s.reopen();
    s.run_repack(true);
    s.note("archived");
    s.conf.archive_age = old;
    s.reopen();
    for (const auto& e : snapshot(s.path / ".archive"))
        if (e.first.substr(0, 5) == "last/")
        {
            std::string r = e.first.substr(5);
            for (const auto& i : s.live)
                if (r.substr(0, s.relpath(i.second).size()) == s.relpath(i.second))
                {
                    s.archived.insert(s.relpath(i.second));
                    s.closed.insert(s.relpath(i.second));
                }
        }
    count("archivals");
}

void build_mixed(Store& s)
{
    History h;
    h.run(s);
    if (!s.live.empty() && s.rng.chance(35))
    {
        move_to_archive(s, 20);
        if (s.rng.chance(50))
        {
            auto items = s.make_items(s.rng.range(1, 8));
            if (!items.empty())
                s.import(items, false, false);
        }
    }
    s.maybe_reopen();
}

} // namespace vh
