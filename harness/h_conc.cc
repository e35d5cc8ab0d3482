// Merged datasets (C16) and concurrent access to a dataset (C17)
#include "common_ds.h"
#include "sortspec.h"
#include <algorithm>
#include <arki/dataset/impl.h>
#include <arki/dataset/merged.h>
#include <arki/dataset/pool.h>
#include <arki/metadata/sort.h>
#include <arki/query.h>
#include <arki/query/progress.h>
#include <arki/stream.h>
#include <arki/summary.h>
#include <atomic>
#include <mutex>
#include <thread>

using namespace vh;
using namespace arki;

namespace {

/*
 * C16
 */

/// Order in which parts produced their data
struct Trace
{
    std::mutex m;
    std::string events;
    void add(char c)
    {
        std::lock_guard<std::mutex> l(m);
        events += c;
    }
};

void nap(unsigned n)
{
    if (n == 1)
        std::this_thread::yield();
    else if (n)
        usleep(n);
}

struct FakeDataset : public dataset::Dataset
{
    using dataset::Dataset::Dataset;
    unsigned part = 0;
    std::vector<Item> items;
    /// Fail before producing this item
    int fail_at = -1;
    /// Fail when asked to stop
    bool fail_on_stop = false;
    std::string error;
    std::vector<unsigned> delays;
    Trace* trace = nullptr;
    /// Observed
    std::atomic<unsigned> produced{0}, after_stop{0};
    std::shared_ptr<dataset::Reader> create_reader() override;
};

struct FakeReader : public dataset::DatasetAccess<FakeDataset, dataset::Reader>
{
    using DatasetAccess::DatasetAccess;
    std::string type() const override { return "fake"; }
    core::Interval get_stored_time_interval() override { return core::Interval(); }
    metadata::Collection select(const Matcher& m)
    {
        metadata::Collection res;
        for (const auto& i : dataset().items)
        {
            auto md = i.md();
            if (m(*md))
                res.acquire(md);
        }
        return res;
    }
    bool impl_query_data(const query::Data& q, metadata_dest_func dest) override
    {
        auto& d  = dataset();
        auto mds = select(q.matcher);
        if (q.sorter)
            mds.sort(*q.sorter);
        unsigned n = 0;
        for (auto& md : mds)
        {
            nap(d.delays[n % d.delays.size()]);
            if ((int)n == d.fail_at)
                throw std::runtime_error(d.error);
            d.trace->add('a' + d.part);
            ++d.produced;
            ++n;
            if (!dest(md))
            {
                if (!d.fail_on_stop)
                    return false;
                nap(d.delays[n % d.delays.size()]);
                throw std::runtime_error(d.error);
            }
        }
        if (d.fail_at >= 0)
            throw std::runtime_error(d.error);
        return true;
    }
    void impl_query_summary(const Matcher& matcher, Summary& summary) override
    {
        auto& d = dataset();
        nap(d.delays[0]);
        if (d.fail_at >= 0)
            throw std::runtime_error(d.error);
        d.trace->add('a' + d.part);
        for (auto& md : select(matcher))
            summary.add(*md);
    }
};

std::shared_ptr<dataset::Reader> FakeDataset::create_reader()
{
    return std::make_shared<FakeReader>(std::static_pointer_cast<FakeDataset>(shared_from_this()));
}

struct Progress : public query::Progress
{
    unsigned starts = 0, dones = 0, items = 0;
    size_t size = 0;
    void start(size_t c, size_t b) override
    {
        ++starts;
        query::Progress::start(c, b);
    }
    void update(size_t c, size_t b) override
    {
        items += c;
        size += b;
    }
    void done() override { ++dones; }
};

struct Abort : public std::exception
{
    const char* what() const noexcept override { return "consumer failed"; }
};

void c16(Case& c)
{
    auto& rng    = c.rng;
    auto session = std::make_shared<dataset::Session>(false);
    auto pool    = std::make_shared<dataset::Pool>(session);
    Trace trace;
    std::map<unsigned, Item> all;
    std::map<unsigned, unsigned> part_of;
    // Parts
    unsigned nparts = rng.pick({0, 1, 2, 2, 2, 3, 3, 4, 6, 9});
    bool may_fail   = rng.chance(30);
    bool late_errors = false;
    bool one_segment = rng.chance(50); // each part is in a single segment
    // Rank of the steps of the segments
    int limit = 5;
    std::vector<std::shared_ptr<FakeDataset>> fakes;
    std::vector<std::string> errors;
    std::vector<std::unique_ptr<Store>> stores;
    std::vector<std::vector<Item>> parts(nparts);
    std::string desc;
    for (unsigned p = 0; p < nparts; ++p)
    {
        if (rng.chance(45))
        {
            // On disk
            ConfGen cg;
            cg.steps    = {"daily", "monthly", "yearly"};
            DsConf conf = cg.make(rng);
            if (one_segment)
                conf.step = conf.iseg() ? "yearly" : "single";
            limit      = std::min(limit, conf.step == "daily" ? 3 : conf.step == "monthly" ? 4 : 5);
            auto s     = std::make_unique<Store>(rng, conf, c.dir / cat("p", p));
            s->gen.next_uid = 1000 * (p + 1);
            History h;
            h.max_batches = 3;
            h.run(*s);
            for (auto& i : s->live)
                parts[p].push_back(i.second);
            one_segment = one_segment && s->segments_on_disk().size() <= 1;
            s->session.reset();
            s->ds.reset();
            auto cfg = conf.cfg(s->path);
            cfg->set("name", cat("p", p));
            pool->add_dataset(*cfg);
            desc += cat(" ", conf.type, "/", conf.step, "/", fmt_name(conf.format), ":", parts[p].size());
            stores.emplace_back(std::move(s));
        }
        else
        {
            auto f = std::make_shared<FakeDataset>(session, cat("p", p));
            ItemGen gen(rng);
            gen.next_uid = 1000 * (p + 1);
            gen.format   = rng.pick({DataFormat::GRIB, DataFormat::BUFR, DataFormat::VM2});
            unsigned n   = rng.pick({0u, 1u, 3u, 9u, 10u, 11u, 12u, 25u, 60u});
            for (unsigned i = 0; i < n; ++i)
                parts[p].push_back(gen.make());
            // Data are in order of time unless otherwise asked
            std::stable_sort(parts[p].begin(), parts[p].end(), [](const Item& a, const Item& b) { return a.rt < b.rt; });
            f->items = parts[p];
            f->part  = p;
            f->trace = &trace;
            unsigned kind = rng.below(4), m = rng.range(1, 6);
            for (unsigned i = 0; i < m; ++i)
                f->delays.push_back(kind == 0 ? 0 : kind == 1 ? rng.below(2) : kind == 2 ? rng.pick({0, 0, 1, 100, 400}) : rng.below(60));
            if (may_fail && rng.chance(50))
            {
                f->fail_at = rng.range(0, n);
                f->error   = cat("part ", p, " is broken");
                errors.push_back(f->error);
            }
            else if (may_fail && rng.chance(50))
            {
                f->fail_on_stop = true;
                f->error        = cat("part ", p, " cannot stop");
                late_errors     = true;
            }
            fakes.push_back(f);
            desc += cat(" fake:", n, f->fail_at >= 0 ? cat("!", f->fail_at) : "", f->fail_on_stop ? "!s" : "");
        }
        for (auto& i : parts[p])
        {
            all[i.uid]     = i;
            part_of[i.uid] = p;
        }
    }
    auto merged = std::make_shared<dataset::merged::Dataset>(pool);
    for (auto& f : fakes)
        merged->datasets.emplace_back(f->create_reader());
    rng.shuffle(merged->datasets);
    auto reader = merged->create_reader();

    ExprGen eg(rng);
    for (auto& i : all)
        eg.pool.push_back(i.second);
    if (eg.pool.empty())
        eg.pool.push_back(ItemGen(rng).make());
    unsigned n = opts.thorough ? 12 : 6;
    for (unsigned k = 0; k < n; ++k)
    {
        Expr e;
        e.match = [](const Item&) { return true; };
        if (rng.chance(40))
            e = eg.make();
        std::set<unsigned> expected;
        for (auto& i : all)
            if (e.match(i.second))
                expected.insert(i.first);
        SortSpec sp;
        bool sorted = rng.chance(60);
        if (sorted)
            sp = gen_sort(rng);
        trace.events.clear();
        for (auto& f : fakes)
            f->produced = 0;
        bool broken = !errors.empty();
        std::string what = cat("parts:", desc, " | query ", e.text, " sort ", sp.text);
        context(what);
        if (rng.chance(70))
        {
            query::Data q(session->matcher(e.text), !stores.empty() || rng.below(2));
            if (sorted)
                q.sorter = metadata::sort::Compare::parse(sp.text);
            auto progress = std::make_shared<Progress>();
            if (rng.below(2))
                q.progress = progress;
            // What the consumer does
            int stop_at = -1;
            bool throws = false;
            if (rng.chance(45))
            {
                stop_at = rng.below(expected.size() + 3);
                throws  = rng.chance(35);
            }
            std::vector<unsigned> naps;
            for (unsigned i = rng.range(1, 4), kind = rng.below(3); i; --i)
                naps.push_back(kind == 0 ? 0 : rng.pick({0, 1, 30, 200}));
            std::vector<std::shared_ptr<Metadata>> got;
            unsigned calls = 0;
            bool stopped = false, res = true;
            std::string error;
            bool aborted = false;
            try
            {
                res = reader->query_data(q, [&](std::shared_ptr<Metadata> md) {
                    if (stopped)
                        fail("called-after-stop", "data are delivered after the consumer asked to stop");
                    nap(naps[calls % naps.size()]);
                    if ((int)calls++ == stop_at)
                    {
                        stopped = true;
                        if (throws)
                            throw Abort();
                        got.push_back(md);
                        return false;
                    }
                    got.push_back(md);
                    return true;
                });
            }
            catch (Failed&)
            {
                throw;
            }
            catch (Abort&)
            {
                aborted = true;
            }
            catch (std::exception& ex)
            {
                error = ex.what();
            }
            count("queries");
            distinct(trace.events);
            context(what + cat(" | stop ", stop_at, throws ? " throwing" : ""));
            std::set<unsigned> seen;
            unsigned switches = 0;
            for (size_t i = 0; i < got.size(); ++i)
            {
                auto it = item_from_data(got[i]->source().format, got[i]->get_data().read());
                if (!all.count(it.uid) || !expected.count(it.uid))
                    fail("unexpected", cat("unexpected item ", it.desc()));
                if (!seen.insert(it.uid).second)
                    fail("twice", cat("item ", it.desc(), " is there twice"));
                if (it.data != all[it.uid].data)
                    fail("bytes", cat("item ", it.desc(), " has other bytes"));
                auto d = compare_md(all[it.uid], *got[i]);
                if (!d.empty())
                    fail("metadata", cat("item ", it.desc(), " ", d));
                if (i && part_of[it.uid] != part_of[item_from_data(got[i - 1]->source().format, got[i - 1]->get_data().read()).uid])
                    ++switches;
            }
            count("items", got.size());
            count("switches", switches);
            if (q.progress && !error.size() && !aborted)
            {
                if (progress->starts != 1 || progress->dones != 1)
                    fail("progress", cat("progress started ", progress->starts, " and ended ", progress->dones, " times"));
                if (progress->items != got.size())
                    fail("progress", cat("progress counted ", progress->items, " items, there were ", got.size()));
                count("progress");
            }
            if (stopped)
            {
                count(throws ? "consumer_threw" : "stopped");
                if (throws && !aborted && !broken && !late_errors)
                    fail("exception-lost", cat("the error of the consumer was not reported: ", error, " ", res));
                if (!throws && !error.empty() && !broken && !late_errors)
                    fail("stop-throws", cat("a query that was stopped throws ", error));
                if (!throws && error.empty() && res)
                    fail("stop-true", "a query that was stopped returns true");
                // Each part has at most what fits in its queue in advance
                for (auto& f : fakes)
                {
                    unsigned mine = 0;
                    for (auto u : seen)
                        mine += part_of[u] == f->part;
                    if (nparts > 1 && f->produced > mine + 40)
                        fail("stop-slow", cat("part ", f->part, " produced ", f->produced.load(), " items, ", mine,
                                              " were used when the query was stopped"));
                }
                if (nparts > 1)
                    count("stopped_merged");
                count("stopped_with_errors", broken);
                count("stopped_with_late_errors", late_errors);
            }
            else if (broken)
            {
                if (error.empty())
                    fail("error-lost", "an error in a part is not reported");
                bool found = false;
                for (auto& x : errors)
                    found = found || error.find(x) != std::string::npos;
                if (!found)
                    fail("error-text", cat("error reported as ", error));
                // All what the other parts have
                if (nparts > 1)
                    for (auto u : expected)
                    {
                        bool b = false;
                        for (auto& f : fakes)
                            b = b || (f->part == part_of[u] && f->fail_at >= 0);
                        if (!b && !seen.count(u))
                            fail("missing-after-error", cat("item ", all[u].desc(), " of a part without errors is missing"));
                    }
                count("errors_reported");
            }
            else
            {
                if (!error.empty())
                    fail("throws", cat("query throws ", error));
                if (!res)
                    fail("false", "a query that was not stopped returns false");
                if (seen != expected)
                    for (auto u : expected)
                        if (!seen.count(u))
                            fail("missing", cat("item ", all[u].desc(), " is missing"));
                count("complete");
            }
            if (sorted && (stores.empty() || one_segment || (sp.interval && sp.interval <= limit)))
            {
                for (size_t i = 1; i < got.size(); ++i)
                {
                    auto ia = interval_id(rt_of(*got[i - 1]), sp.interval), ib = interval_id(rt_of(*got[i]), sp.interval);
                    if (sp.interval && ia > ib)
                        fail("interval-order", cat(rt_of(*got[i - 1]).to_iso8601(), " comes before ", rt_of(*got[i]).to_iso8601()));
                    if (ia == ib && sort_cmp(sp, *got[i - 1], *got[i]) > 0)
                        fail("order", cat("item ", i - 1, " of ", got.size(), " should come after the next one: ", got[i - 1]->to_yaml(), " / ",
                                          got[i]->to_yaml()));
                }
                count("sorted");
            }
            else if (!sorted && stores.empty())
            {
                for (size_t i = 1; i < got.size(); ++i)
                    if (rt_of(*got[i]) < rt_of(*got[i - 1]))
                        fail("time-order", cat(rt_of(*got[i - 1]).to_iso8601(), " comes before ", rt_of(*got[i]).to_iso8601()));
                count("by_time");
            }
        }
        else if (rng.chance(70))
        {
            // Summaries, of the data selected by other things than time
            ExprGen e2(rng);
            e2.pool    = eg.pool;
            e2.reftime = 0;
            e          = e2.make();
            context(cat("parts:", desc, " | summary ", e.text));
            SummaryMap exp;
            for (auto& i : all)
                if (e.match(i.second))
                    exp[summary_key(*i.second.md())].add(i.second);
            Summary s;
            std::string error;
            try
            {
                reader->query_summary(session->matcher(e.text), s);
            }
            catch (std::exception& ex)
            {
                error = ex.what();
            }
            if (broken)
            {
                if (error.empty())
                    fail("error-lost", "an error in the summary of a part is not reported");
                count("summary_errors");
            }
            else
            {
                if (!error.empty())
                    fail("summary-throws", error);
                auto diff = diff_summaries(exp, summary_map(s));
                if (!diff.empty())
                    fail("summary", diff);
                count("summaries");
            }
        }
        else
        {
            // Data
            context(cat("parts:", desc, " | bytes ", e.text));
            query::Bytes q;
            q.setData(session->matcher(e.text));
            std::vector<uint8_t> buf;
            auto out = StreamOutput::create(buf);
            std::string error;
            try
            {
                reader->query_bytes(q, *out);
            }
            catch (std::exception& ex)
            {
                error = ex.what();
            }
            if (broken)
            {
                if (error.empty())
                    fail("error-lost", "an error in a part is not reported getting bytes");
                count("bytes_errors");
                continue;
            }
            if (!error.empty())
                fail("bytes-throws", error);
            // One part after the other
            size_t size = 0;
            for (auto u : expected)
            {
                const auto& d = all[u].data;
                if (std::search(buf.begin(), buf.end(), d.begin(), d.end()) == buf.end())
                    fail("bytes-missing", cat("data of ", all[u].desc(), " are not in the bytes of the query"));
                size += d.size() + (all[u].format == DataFormat::VM2);
            }
            if (size != buf.size())
                fail("bytes-size", cat("got ", buf.size(), " bytes instead of ", size));
            count("bytes");
        }
        count("evals");
    }
}

} // namespace

int main(int argc, const char* argv[]) { return run_main(argc, argv, {{"C16", c16}}); }
