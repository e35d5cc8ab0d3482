// C29: clusters of items, and commands run on each of them.
#include "common.h"
#include "common_types.h"
#include <arki/metadata/clusterer.h>
#include <arki/metadata/xargs.h>
#include <arki/types/reftime.h>
#include <arki/types/source.h>
#include <arki/types/timerange.h>
#include <algorithm>
#include <cstring>
#include <sys/stat.h>
#include <sys/wait.h>

using namespace vh;
using namespace arki;
namespace fs = std::filesystem;

namespace {

struct Limits
{
    size_t count = 0, bytes = 0, interval = 0;
    bool timerange = false;
    std::string desc() const { return cat("count ", count, " bytes ", bytes, " interval ", interval, timerange ? " timerange" : ""); }
};

std::string time_key(const Time& t, size_t interval)
{
    int v[6] = {t.ye, t.mo, t.da, t.ho, t.mi, t.se};
    std::string res;
    for (size_t i = 0; i < interval; ++i)
        res += cat(v[i], "/");
    return res;
}

struct In
{
    Item item;
    bool has_tr = false;
    std::string tr;
};

struct Recording : public metadata::Clusterer
{
    std::vector<std::vector<unsigned>> clusters;
    std::vector<DataFormat> formats;
    bool open      = false;
    bool confused  = false;
    size_t flushed = 0;
    void start_batch(DataFormat f) override
    {
        metadata::Clusterer::start_batch(f);
        if (open)
            confused = true;
        open = true;
        clusters.emplace_back();
        formats.push_back(f);
    }
    void add_to_batch(std::shared_ptr<Metadata> md) override
    {
        metadata::Clusterer::add_to_batch(md);
        if (!open)
            confused = true;
        else
            clusters.back().push_back(item_from_data(md->source().format, md->get_data().read()).uid);
    }
    void flush_batch() override
    {
        metadata::Clusterer::flush_batch();
        if (!open)
            confused = true;
        open = false;
        ++flushed;
    }
};

std::vector<In> gen_input(Rng& rng)
{
    std::vector<In> res;
    unsigned n      = rng.chance(10) ? rng.below(2) : rng.below(40);
    bool many_fmt   = rng.chance(25);
    DataFormat fmt  = rng.pick({DataFormat::GRIB, DataFormat::BUFR, DataFormat::VM2, DataFormat::ODIMH5});
    bool notr       = rng.chance(30); // some items without a timerange
    size_t filler   = rng.pick({10u, 200u, 3000u});
    std::vector<int> steps = {1, 59, 60, 3599, 3600, 86399, 86400, 31 * 86400, 366 * 86400};
    Time t(2000 + rng.below(20), 1 + rng.below(12), 1 + rng.below(28), rng.below(24), rng.below(60), rng.below(60));
    int max_step = rng.pick(steps);
    for (unsigned i = 0; i < n; ++i)
    {
        In in;
        in.item.uid    = i + 1;
        in.item.format = many_fmt && rng.chance(30) ? rng.pick({DataFormat::GRIB, DataFormat::BUFR, DataFormat::VM2, DataFormat::ODIMH5}) : fmt;
        in.item.rt     = t;
        in.item.p[0]   = 1;
        in.item.p[1]   = rng.below(3);
        in.item.p[2]   = 3;
        if (!(notr && rng.chance(40)))
            in.item.tr = rng.below(3);
        in.item.build(rng, rng.chance(10) ? 0 : rng.below(filler));
        if (rng.chance(70))
            t = add_seconds(t, rng.range(0, 2 * max_step) - (rng.chance(30) ? max_step : 0));
        res.push_back(in);
    }
    return res;
}

Limits gen_limits(Rng& rng)
{
    Limits l;
    if (rng.chance(50))
        l.count = rng.range(1, 7);
    if (rng.chance(50))
        l.bytes = rng.pick({1u, 300u, 1000u, 5000u, 50000u}) + rng.below(200);
    if (rng.chance(50))
        l.interval = rng.range(1, 5);
    l.timerange = rng.chance(40);
    return l;
}

/// Check that clusters respect limits, and have all of the input
void check_clusters(const std::vector<In>& in, const Limits& l, const std::vector<std::vector<unsigned>>& clusters, size_t n_in)
{
    std::vector<unsigned> all;
    for (const auto& c : clusters)
    {
        if (c.empty())
            fail("empty-cluster", "a cluster has no items");
        size_t size = 0;
        for (auto uid : c)
        {
            all.push_back(uid);
            size += in[uid - 1].item.data.size();
        }
        const Item& first = in[c[0] - 1].item;
        if (l.count && c.size() > l.count)
            fail("too-many", cat(c.size(), " items in a cluster, with a limit of ", l.count));
        if (l.bytes && size > l.bytes && c.size() > 1)
            fail("too-big", cat(size, " bytes in a cluster of ", c.size(), " items, with a limit of ", l.bytes));
        if (l.bytes && c.size() == 1 && size > l.bytes)
            count("oversized");
        for (auto uid : c)
        {
            const Item& i = in[uid - 1].item;
            if (i.format != first.format)
                fail("mixed-formats", "items of different formats in a cluster");
            if (time_key(i.rt, l.interval) != time_key(first.rt, l.interval))
                fail("mixed-intervals", cat(i.rt.to_iso8601(), " and ", first.rt.to_iso8601(), " in a cluster, splitting at level ", l.interval));
            if (l.timerange && i.tr != first.tr)
                fail("mixed-timeranges", cat(i.tr, " and ", first.tr, " in a cluster"));
        }
        count("clusters");
        if (c.size() > 1)
            count("clusters_of_many");
    }
    for (size_t i = 0; i < n_in; ++i)
        if (i >= all.size() || all[i] != i + 1)
            fail("items", cat("item ", i + 1, " of ", n_in, " lost, repeated or out of order"));
    if (all.size() != n_in)
        fail("items", cat(all.size(), " items in the clusters, ", n_in, " sent"));
    count("items", all.size());
}

void set_limits(metadata::Clusterer& c, const Limits& l)
{
    c.max_count       = l.count;
    c.max_bytes       = l.bytes;
    c.max_interval    = l.interval;
    c.split_timerange = l.timerange;
}

void run_clusterer(Case& c)
{
    auto& rng = c.rng;
    auto in   = gen_input(rng);
    Limits l  = gen_limits(rng);
    context(cat(in.size(), " items, ", l.desc()));
    Recording r;
    set_limits(r, l);
    unsigned flush_at = rng.chance(20) ? rng.below(40) : 1000;
    for (const auto& i : in)
    {
        if (!r.eat(i.item.md()))
            fail("refused", "an item was refused");
        if (i.item.uid == flush_at)
            r.flush();
    }
    r.flush();
    if (rng.chance(20))
        r.flush();
    if (r.confused || r.open)
        fail("sequence", "clusters are not started and ended in sequence");
    check_clusters(in, l, r.clusters, in.size());
    for (size_t i = 0; i < r.clusters.size(); ++i)
        if (r.formats[i] != in[r.clusters[i][0] - 1].item.format)
            fail("format", "cluster started with a format different than that of its items");
    count("clustered");
    distinct(cat(l.desc(), in.size(), r.clusters.size(), in.empty() ? 0 : in[0].item.data.size()));
}

std::map<std::string, std::string> read_env(const fs::path& p)
{
    std::map<std::string, std::string> res;
    std::string all = read_text(p), line;
    std::istringstream ss(all);
    while (std::getline(ss, line))
    {
        size_t pos = line.find('=');
        if (pos != std::string::npos)
            res[line.substr(0, pos)] = line.substr(pos + 1);
    }
    return res;
}

void run_xargs(Case& c)
{
    auto& rng = c.rng;
    fs::create_directories(c.dir / "out");
    fs::create_directories(c.dir / "tmp");
    setenv("TMPDIR", (c.dir / "tmp").c_str(), 1);
    // A variable which should not be inherited
    setenv("ARKI_XARGS_COUNT", "bogus", 1);
    setenv("ARKI_XARGS_OTHER", "bogus", 1);
    setenv("VH_OTHER", "kept", 1);
    auto in  = gen_input(rng);
    Limits l = gen_limits(rng);
    metadata::Xargs x;
    set_limits(x, l);
    static const char* names[] = {"", "year", "month", "day", "hour", "minute"};
    if (l.interval)
    {
        std::string n = names[l.interval];
        if (rng.chance(30))
            n = " " + n + " ";
        if (rng.chance(30))
            n[1] = toupper(n[1]);
        x.set_interval(n);
    }
    x.set_max_bytes(l.bytes);
    // Command: $1 is the output directory, $2 is what to do, $3... may have the file name
    int how = rng.below(4); // appended, replaced, in the middle, not passed
    unsigned fail_at = rng.chance(35) ? rng.range(1, 4) : 0;
    int fail_how     = rng.below(4);
    std::string failure = fail_how == 0 ? "exit 3" : fail_how == 1 ? "kill -9 $$" : fail_how == 2 ? "kill -11 $$" : "exit 255";
    std::string script =
        "n=$(ls $1 | grep -c data); n=$((n+1)); echo \"$@\" > $1/args.$n; env > $1/env.$n; readlink /proc/self/fd/0 > $1/stdin.$n; "
        "cp \"$ARKI_XARGS_FILENAME\" $1/data.$n; ";
    if (fail_at)
        script += cat("if [ $n -eq ", fail_at, " ]; then ", failure, "; fi; ");
    script += "exit 0";
    x.command = {"/bin/sh", "-c", script, "sh", (c.dir / "out").native()};
    switch (how)
    {
        case 0: break;
        case 1:
            x.command.push_back("NAME");
            x.filename_argument = 5;
            break;
        case 2:
            x.command.push_back("NAME");
            x.command.push_back("last");
            x.filename_argument = 5;
            break;
        default: x.filename_argument = 100;
    }
    context(cat(in.size(), " items, ", l.desc(), " xargs ", how, fail_at ? cat(" run ", fail_at, " does ", failure) : ""));
    bool threw = false;
    std::string msg;
    size_t eaten = 0;
    try
    {
        for (const auto& i : in)
        {
            x.eat(i.item.md());
            ++eaten;
        }
        x.flush();
    }
    catch (std::exception& e)
    {
        threw = true;
        msg   = e.what();
    }
    // Runs
    std::vector<std::vector<unsigned>> clusters;
    size_t next = 0;
    unsigned n  = 1;
    for (;; ++n)
    {
        if (!fs::exists(c.dir / "out" / cat("data.", n)))
            break;
        std::string data = read_text(c.dir / "out" / cat("data.", n));
        auto env         = read_env(c.dir / "out" / cat("env.", n));
        std::vector<unsigned> cl;
        // The data have to be those of the next items
        std::string exp;
        size_t pos = 0;
        while (pos < data.size() && next < in.size())
        {
            std::string d(in[next].item.data.begin(), in[next].item.data.end());
            if (in[next].item.format == DataFormat::VM2)
                d += "\n";
            if (data.compare(pos, d.size(), d) != 0)
                fail("xargs-data", cat("run ", n, " has data different from that of item ", next + 1));
            pos += d.size();
            cl.push_back(next + 1);
            ++next;
        }
        if (pos != data.size())
            fail("xargs-data", cat("run ", n, " has more data than was sent"));
        if (cl.empty())
            fail("xargs-empty", cat("run ", n, " has no data"));
        auto check = [&](const std::string& name, const std::string& exp) {
            auto i = env.find(name);
            if (i == env.end() ? !exp.empty() : i->second != exp)
                fail("xargs-env", cat("run ", n, ": ", name, " is ", i == env.end() ? "missing" : i->second, " instead of ", exp));
        };
        Time first = in[cl[0] - 1].item.rt, last = first;
        for (auto u : cl)
        {
            const Time& t = in[u - 1].item.rt;
            if (t < first)
                first = t;
            if (last < t)
                last = t;
        }
        std::string fmt = fmt_name(in[cl[0] - 1].item.format);
        for (auto& ch : fmt)
            ch = toupper(ch);
        check("ARKI_XARGS_COUNT", std::to_string(cl.size()));
        check("ARKI_XARGS_FORMAT", fmt);
        check("ARKI_XARGS_TIME_START", first.to_iso8601(' '));
        check("ARKI_XARGS_TIME_END", last.to_iso8601(' '));
        check("ARKI_XARGS_OTHER", "");
        check("VH_OTHER", "kept");
        std::string name = env["ARKI_XARGS_FILENAME"];
        std::string args = read_text(c.dir / "out" / cat("args.", n)), exp_args = (c.dir / "out").native();
        if (how < 3)
            exp_args += " " + name;
        if (how == 2)
            exp_args += " last";
        if (args != exp_args + "\n")
            fail("xargs-args", cat("run ", n, " got arguments ", args, " instead of ", exp_args));
        if (read_text(c.dir / "out" / cat("stdin.", n)) != "/dev/null\n")
            fail("xargs-stdin", "the standard input of the command is not empty");
        if (fs::exists(name))
            fail("xargs-tempfile", cat("temporary file ", name, " left behind"));
        clusters.push_back(cl);
        count("runs");
    }
    --n;
    if (fail_at && n >= fail_at)
    {
        if (!threw)
            fail("xargs-failure", cat("run ", fail_at, " did ", failure, " and was not reported"));
        if (n > fail_at)
            fail("xargs-goes-on", "commands were run after one failed");
        count("failures");
        check_clusters(in, l, clusters, next);
    }
    else
    {
        if (threw)
            fail("xargs-error", msg);
        check_clusters(in, l, clusters, in.size());
    }
    distinct(cat(l.desc(), in.size(), how, fail_at, failure, clusters.size()));
}

void c29(Case& c)
{
    if (c.rng.chance(25))
        run_xargs(c);
    else
        for (unsigned i = 0; i < 20; ++i)
            run_clusterer(c);
    count("evals");
}

} // namespace

int main(int argc, const char* argv[]) { return run_main(argc, argv, {{"C29", c29}}); }
