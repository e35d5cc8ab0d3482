// Dataset histories: contents, uniqueness, queries, order, summaries,
// removal, repack and conversion (C01 C05 C09 C10 C11 C12 C30)
#include "common_ds.h"
#include "sortspec.h"
#include <algorithm>
#include <arki/dataset/archive.h>
#include <arki/segment.h>
#include <arki/segment/session.h>
#include <arki/types/bundle.h>
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace vh;
using namespace arki;

namespace {

typedef metadata::Inbound::Result R;

std::vector<uint8_t> slurp(const std::filesystem::path& p)
{
    auto s = read_text(p);
    return std::vector<uint8_t>(s.begin(), s.end());
}

/*
 * C01
 */

void with_newline(const Store& s, std::vector<uint8_t>& v)
{
    if (s.conf.format == DataFormat::VM2)
        v.push_back('\n');
}

void c01(Case& c)
{
    auto& rng = c.rng;
    ConfGen cg;
    cg.steps = {"daily", "monthly"};
    DsConf conf = cg.make(rng);
    Store s(rng, conf, c.dir / "ds");
    s.note("start");
    if (rng.chance(10))
        s.gen.max_filler = 20000;
    unsigned n = rng.range(1, 4);
    for (unsigned b = 0; b < n; ++b)
    {
        s.maybe_reopen();
        auto items = s.make_items(rng.range(1, 12));
        if (items.empty())
            break;
        s.import(items, rng.below(2));
        if (rng.chance(30))
            s.check_contents("after import");
    }
    s.check_contents("after imports");
    if (rng.chance(60))
    {
        auto op = random_maintenance(s);
        s.check_contents("after " + op);
        distinct(cat(conf.desc(), "/", op));
    }
    else
        distinct(conf.desc());

    // Read in different ways
    s.maybe_reopen();
    auto r = s.query("");
    if (r.items.size() != s.live.size())
        fail("lost-item", cat("query returns ", r.items.size(), " items instead of ", s.live.size()));
    r.items.clear();
    // Query again, without reading, so that nothing is cached
    std::vector<std::shared_ptr<Metadata>> mds;
    {
        auto reader = s.ds->create_reader();
        reader->query_data(query::Data(s.session->matcher(""), true), [&](std::shared_ptr<Metadata> md) {
            mds.push_back(md);
            return true;
        });
    }
    if (rng.chance(30))
    {
        // Sources keep what they need
        s.ds.reset();
        s.session.reset();
        count("read_after_close");
    }
    std::vector<unsigned> order;
    for (unsigned i = 0; i < mds.size(); ++i)
        order.push_back(i);
    rng.shuffle(order);
    std::map<unsigned, Item> found;
    for (auto i : order)
    {
        auto md   = mds[i];
        int times = rng.chance(20) ? 2 : 1;
        for (int k = 0; k < times; ++k)
        {
            std::vector<uint8_t> data;
            int how = rng.below(5);
            switch (how)
            {
                case 0: data = md->get_data().read(); break;
                case 1:
                {
                    auto out = StreamOutput::create(data);
                    auto res = md->stream_data(*out);
                    if (conf.format == DataFormat::VM2)
                    {
                        if (data.empty() || data.back() != '\n')
                            fail("stream-newline", "VM2 line is streamed without newline");
                        data.pop_back();
                    }
                    break;
                }
                case 2:
                {
                    auto f = c.dir / "out";
                    {
                        core::File out(f, O_WRONLY | O_CREAT | O_TRUNC, 0666);
                        md->get_data().write(out);
                        out.close();
                    }
                    data = slurp(f);
                    if (conf.format == DataFormat::VM2)
                    {
                        if (data.empty() || data.back() != '\n')
                            fail("write-newline", "VM2 line is written without newline");
                        data.pop_back();
                    }
                    break;
                }
                case 3:
                {
                    auto f   = c.dir / "out2";
                    auto fd  = std::make_shared<core::File>(f, O_WRONLY | O_CREAT | O_TRUNC, 0666);
                    auto out = StreamOutput::create(fd);
                    md->stream_data(*out);
                    out.reset();
                    fd->close();
                    data = slurp(f);
                    if (conf.format == DataFormat::VM2)
                    {
                        if (data.empty() || data.back() != '\n')
                            fail("stream-newline", "VM2 line is streamed without newline");
                        data.pop_back();
                    }
                    break;
                }
                case 4:
                {
                    // Through the source, not the metadata
                    const auto& blob = md->sourceBlob();
                    data             = blob.read_data();
                    break;
                }
            }
            count(cat("read_", how));
            Item got = item_from_data(conf.format, data);
            auto e   = s.live.find(got.uid);
            if (e == s.live.end())
                fail("unexpected-item", cat("read ", got.desc()));
            s.check_item(cat("read ", how), e->second, *md, data);
            found[got.uid] = got;
            if (rng.chance(20))
                md->drop_cached_data();
        }
    }
    if (found.size() != s.live.size())
        fail("lost-item", cat("read ", found.size(), " items instead of ", s.live.size()));
    if (!s.session)
        s.reopen();

    // Reads that cannot be satisfied
    mds.clear();
    r = Result();
    if (s.live.empty())
        return;
    s.reopen();
    {
        auto reader = s.ds->create_reader();
        reader->query_data(query::Data(s.session->matcher(""), true), [&](std::shared_ptr<Metadata> md) {
            md->drop_cached_data();
            mds.push_back(md);
            return true;
        });
    }
    // Take one segment and truncate it
    auto& victim        = *mds[rng.below(mds.size())];
    const auto blob     = victim.sourceBlob();
    auto abspath        = blob.absolutePathname();
    std::string what;
    auto trunc = [&](const std::filesystem::path& p) {
        size_t size = std::filesystem::file_size(p);
        size_t n    = rng.below(size ? size : 1);
        std::filesystem::resize_file(p, n);
        what = cat("truncated ", p.native(), " from ", size, " to ", n);
    };
    std::error_code ec;
    if (std::filesystem::is_directory(abspath, ec))
    {
        char b[32];
        snprintf(b, 32, "%06d.%s", (int)blob.offset, fmt_name(conf.format));
        trunc(abspath / b);
    }
    else if (std::filesystem::exists(abspath))
        trunc(abspath);
    else if (std::filesystem::exists(abspath.native() + ".gz"))
        trunc(abspath.native() + ".gz");
    else if (std::filesystem::exists(abspath.native() + ".tar"))
        trunc(abspath.native() + ".tar");
    else if (std::filesystem::exists(abspath.native() + ".zip"))
        trunc(abspath.native() + ".zip");
    else
        return;
    s.note(what);
    unsigned good = 0, bad = 0;
    for (auto& md : mds)
    {
        std::vector<uint8_t> data;
        int how = rng.below(3);
        try
        {
            switch (how)
            {
                case 0: data = md->get_data().read(); break;
                case 1: data = md->sourceBlob().read_data(); break;
                case 2:
                {
                    auto out = StreamOutput::create(data);
                    md->stream_data(*out);
                    if (conf.format == DataFormat::VM2 && !data.empty())
                        data.pop_back();
                    break;
                }
            }
            ++good;
        }
        catch (std::exception& e)
        {
            ++bad;
            if (md->sourceBlob().absolutePathname() != abspath)
                fail("read-affected", cat("item of another segment cannot be read after: ", what, ": ", e.what()));
            continue;
        }
        Item got;
        bool parsed = parse_payload(conf.format, data.data(), data.size(), got) == data.size() && !data.empty();
        if (!parsed || !s.live.count(got.uid) || s.live[got.uid].data != data || !compare_md(got, *md).empty())
            fail(cat("wrong-bytes-", how), cat("after: ", what, ", reading ", md->sourceBlob().to_string(),
                                               " gives other bytes instead of an error: ", hex(data)));
    }
    count("damaged_read_ok", good);
    count("damaged_read_error", bad);
    count("evals");
    sample(conf.desc() + " | " + s.log);
}

/*
 * C05
 */

/// Physical layout of the online segments must have no gaps and be in order
void check_packed(Store& s, const std::string& where)
{
    std::map<std::string, std::vector<std::shared_ptr<Metadata>>> by_seg;
    auto r = s.query("");
    for (auto& md : r.mds)
        by_seg[md->sourceBlob().absolutePathname()].push_back(md);
    for (auto& i : by_seg)
    {
        auto& v = i.second;
        std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a->sourceBlob().offset < b->sourceBlob().offset; });
        for (size_t k = 1; k < v.size(); ++k)
            if (*v[k]->get(TYPE_REFTIME) < *v[k - 1]->get(TYPE_REFTIME))
                fail("order", cat(where, ": ", i.first, " is not in reference time order"));
        std::error_code ec;
        if (std::filesystem::is_directory(i.first, ec))
        {
            std::set<std::string> names;
            for (auto& e : std::filesystem::directory_iterator(i.first))
                if (e.path().filename() != ".sequence")
                    names.insert(e.path().filename());
            for (size_t k = 0; k < v.size(); ++k)
            {
                char b[32];
                snprintf(b, 32, "%06d.%s", (int)k, fmt_name(s.conf.format));
                if (!names.count(b))
                    fail("gap-dir", cat(where, ": ", i.first, " has no ", b));
            }
            if (names.size() != v.size())
                fail("gap-dir", cat(where, ": ", i.first, " has ", names.size(), " files for ", v.size(), " items"));
        }
        else if (std::filesystem::exists(i.first))
        {
            size_t pad = s.conf.format == DataFormat::VM2 ? 1 : 0;
            size_t pos = 0;
            for (auto& md : v)
            {
                if (md->sourceBlob().offset != pos)
                    fail("gap", cat(where, ": ", i.first, " has a hole at ", pos));
                pos += md->sourceBlob().size + pad;
            }
            if (std::filesystem::file_size(i.first) != pos)
                fail("gap", cat(where, ": ", i.first, " has size ", std::filesystem::file_size(i.first), " instead of ", pos));
        }
        else
            count("packed_in_archive_file");
        count("packed_segments");
    }
}

void c05(Case& c)
{
    auto& rng = c.rng;
    ConfGen cg;
    DsConf conf = cg.make(rng);
    Store s(rng, conf, c.dir / "ds");
    s.note("start");
    History h;
    h.conversions = false;
    h.repacks     = false;
    h.run(s);
    if (rng.chance(50))
        History::remove_some(s);
    s.check_contents("before");
    unsigned n = rng.range(1, 3);
    std::string ops;
    bool repacked_all = false;
    for (unsigned i = 0; i < n; ++i)
    {
        s.maybe_reopen();
        std::string op = i == 0 ? rng.pick({"repack", "repack", "tar", "zip", "compress", "forced"})
                                : rng.pick({"repack", "tar", "zip", "compress", "check", "forced", "archive"});
        ops += op + ",";
        if (op == "forced")
        {
            // Repack each segment, even those that do not need it
            s.note("repack every segment");
            auto checker = std::dynamic_pointer_cast<dataset::segmented::Checker>(s.ds->create_checker());
            unsigned k   = 0;
            checker->segments_tracked([&](dataset::segmented::CheckerSegment& seg) {
                seg.repack();
                ++k;
            });
            count("forced_repacks", k);
            repacked_all = true;
        }
        else if (op == "archive")
        {
            auto now = to_secs(Time(2010, 1, 1, 0, 0, 0)) - to_secs(Time(1970, 1, 1, 0, 0, 0));
            auto o   = dataset::SessionTime::local_override(now);
            Store a(rng, conf, s.path);
            a.conf.archive_age = 10;
            a.reopen();
            a.run_repack(true);
            s.note("archive");
            s.reopen();
            for (const auto& i : s.live)
            {
                s.closed.insert(s.relpath(i.second));
                s.archived.insert(s.relpath(i.second));
            }
        }
        else
        {
            s.run_op(op, true);
            if (op == "repack")
                repacked_all = true;
        }
        s.maybe_reopen();
        s.check_contents("after " + op);
        if (op == "forced" || op == "repack")
            check_packed(s, "after " + op);
        if (op == "repack" || op == "forced")
        {
            if (rng.chance(60))
            {
                // Doing it again changes nothing
                if (op == "forced")
                    s.run_repack(true);
                auto before = snapshot(s.path);
                auto rec    = s.run_repack(true);
                auto after  = snapshot(s.path);
                for (auto i = before.begin(); i != before.end();)
                    i = i->first.find(".summaries") != std::string::npos ? before.erase(i) : std::next(i);
                for (auto i = after.begin(); i != after.end();)
                    i = i->first.find(".summaries") != std::string::npos ? after.erase(i) : std::next(i);
                if (!rec.actions().empty())
                    fail("repack-not-idempotent", rec.desc());
                auto d = diff_snapshots(before, after);
                if (!d.empty())
                    fail("repack-not-idempotent", d);
                count("repacked_twice");
            }
        }
        // and new data can be added after
        if (rng.chance(30))
        {
            auto items = s.make_items(rng.range(1, 5));
            if (!items.empty())
            {
                s.import(items);
                s.check_contents("import after " + op);
            }
            repacked_all = false;
        }
    }
    (void)repacked_all;
    s.check_clean("at end", true);
    distinct(cat(conf.desc(), "/", ops));
    count("evals");
    sample(conf.desc() + " | " + s.log);
}

/*
 * C09
 */
void c09(Case& c)
{
    auto& rng = c.rng;
    ConfGen cg;
    cg.types  = {"iseg"};
    cg.unique = 100;
    DsConf conf = cg.make(rng);
    if (rng.chance(40))
        conf.replace = "USN";
    Store s(rng, conf, c.dir / "ds");
    s.gen.variety    = rng.pick({1, 1, 2});
    s.gen.span_hours = rng.pick({0, 6, 24, 48});
    s.gen.missing    = rng.pick({0, 10, 50});
    if (conf.step == "monthly")
        s.gen.span_hours *= 15;
    s.note("start");
    unsigned n = rng.range(2, 6), dups = 0, ok = 0;
    for (unsigned b = 0; b < n; ++b)
    {
        s.maybe_reopen();
        std::vector<Item> items = s.make_items(rng.range(1, 10));
        // Import again something which is there already, or was there before
        if (!s.live.empty() && rng.chance(50))
        {
            std::vector<unsigned> uids;
            for (auto& i : s.live)
                uids.push_back(i.first);
            for (int k = rng.range(1, 3); k > 0; --k)
            {
                Item i = s.live[uids[rng.below(uids.size())]];
                if (s.closed.count(s.relpath(i)))
                    continue;
                i.uid = s.gen.next_uid++;
                if (conf.replace == "USN" && rng.chance(80))
                    i.usn = rng.below(4);
                i.build(rng, rng.below(50));
                items.push_back(i);
            }
            rng.shuffle(items);
        }
        if (items.size() > 1 && rng.chance(10))
        {
            // Data in another format cannot go in the same batch
            for (int k = rng.range(1, 2); k > 0; --k)
            {
                auto& i = items[1 + rng.below(items.size() - 1)];
                i.format =
                    conf.format == DataFormat::GRIB ? DataFormat::BUFR : DataFormat::GRIB;
                i.build(rng, rng.below(50));
            }
            count("mixed_formats");
        }
        if (items.empty())
            break;
        auto o = s.import(items, rng.below(2));
        ok += o.ok;
        dups += items.size() - o.ok;
        for (auto& r : o.results)
            count(cat("result_", r.second, "_", conf.replace.empty() ? "default" : conf.replace));
        // No two items with the same key
        {
            auto r = s.query("");
            std::map<std::string, unsigned> keys;
            for (auto& i : r.items)
            {
                auto k = s.unique_key(i);
                auto e = keys.emplace(k, i.uid);
                if (!e.second)
                    fail("duplicates", cat("items ", e.first->second, " and ", i.uid, " are both present with key ", k));
            }
        }
        s.check_contents("after import", false);
        auto d = [&] {
            Summary sum;
            s.ds->create_reader()->query_summary(Matcher(), sum);
            return diff_summaries(s.model_summary(), summary_map(sum));
        }();
        if (!d.empty())
            fail("counted", "after replacement the summary does not match what is stored: " + d);
        if (rng.chance(15))
        {
            History::remove_some(s);
            s.check_contents("after remove", false);
        }
        if (rng.chance(15))
        {
            s.run_repack(true);
            s.check_contents("after repack", false);
        }
    }
    distinct(cat(conf.desc(), "/", ok, "/", dups));
    count("evals");
    sample(conf.desc() + " | " + s.log);
}

/*
 * C10, C11, C12
 */

void c10(Case& c)
{
    auto& rng = c.rng;
    ConfGen cg;
    cg.steps    = {"daily", "daily", "monthly", "yearly"};
    DsConf conf = cg.make(rng);
    if (rng.chance(25))
        conf.step = rng.pick({"weekly", "biweekly"});
    Store s(rng, conf, c.dir / "ds");
    s.note("start");
    build_mixed(s);
    // What the dataset contains, according to itself
    auto all = s.query("");
    std::map<unsigned, Item> items;
    std::map<std::string, unsigned> by_source;
    for (size_t i = 0; i < all.items.size(); ++i)
        by_source[all.mds[i]->has_source_blob() ? all.mds[i]->sourceBlob().to_string() : ""] = all.items[i].uid;
    for (auto& i : all.items)
    {
        if (!s.live.count(i.uid))
            fail("unexpected-item", cat("query returns ", i.desc()));
        if (!items.emplace(i.uid, i).second)
            fail("item-twice", cat("query for everything returns twice ", i.desc()));
    }
    for (auto& i : s.live)
        if (!items.count(i.first))
            fail("lost-item", cat("query for everything does not return ", i.second.desc()));
    if (items.empty())
        return;
    ExprGen eg(rng);
    for (auto& i : items)
        eg.pool.push_back(i.second);
    for (int k = 0; k < 2; ++k)
        eg.pool.push_back(s.gen.make());
    std::shared_ptr<dataset::Reader> reader;
    unsigned n = opts.thorough ? 25 : 12;
    for (unsigned q = 0; q < n; ++q)
    {
        Expr e = eg.make();
        if (!reader || rng.below(2))
        {
            s.maybe_reopen();
            reader = s.ds->create_reader();
        }
        s.note("");
        context(conf.desc() + " | query " + e.text + " | " + s.log);
        Matcher m = s.session->matcher(e.text);
        std::set<unsigned> exp, got;
        for (auto& i : items)
        {
            if (e.match(i.second))
                exp.insert(i.first);
            // The same, by matching the metadata one by one
            auto md = i.second.md();
            if (m(*md) != e.match(i.second))
                fail("match-one", cat("expression '", e.text, "' ", m(*md) ? "matches " : "does not match ", i.second.desc()));
        }
        query::Data qd(m, rng.below(2));
        std::vector<std::shared_ptr<Metadata>> mds;
        bool res = reader->query_data(qd, [&](std::shared_ptr<Metadata> md) {
            mds.push_back(md);
            return true;
        });
        if (!res)
            fail("query-false", "a query that was not stopped returns false");
        for (auto& md : mds)
        {
            Item i;
            if (qd.with_data)
                i = item_from_data(conf.format, md->get_data().read());
            else
            {
                auto u = by_source.find(md->has_source_blob() ? md->sourceBlob().to_string() : "");
                if (u == by_source.end())
                    fail("query-extra", cat("query '", e.text, "' returns unknown ", md->to_yaml()));
                i = items[u->second];
            }
            if (!got.insert(i.uid).second)
                fail("query-twice", cat("query '", e.text, "' returns twice ", i.desc()));
            if (!exp.count(i.uid))
                fail("query-extra", cat("query '", e.text, "' returns ", i.desc()));
        }
        for (auto u : exp)
            if (!got.count(u))
                fail("query-missing", cat("query '", e.text, "' does not return ", items[u].desc()));
        if (rng.chance(25))
        {
            std::vector<uint8_t> buf;
            query::Bytes qb;
            qb.setData(m);
            auto out = StreamOutput::create(buf);
            reader->query_bytes(qb, *out);
            size_t size = 0;
            for (auto u : exp)
                size += items[u].data.size() + (conf.format == DataFormat::VM2);
            if (buf.size() != size)
                fail("query-bytes", cat("query '", e.text, "' sends ", buf.size(), " bytes instead of ", size));
        }
        count("expressions");
        if (!exp.empty() && exp.size() < items.size())
            count("selective");
        distinct(cat(conf.type, conf.step, conf.index, "/", e.text));
        if (q == 0)
            sample(conf.desc() + " | " + e.text + cat(" selects ", exp.size(), " of ", items.size()));
    }
    count("evals");
}

void c11(Case& c)
{
    auto& rng = c.rng;
    ConfGen cg;
    DsConf conf = cg.make(rng);
    if (rng.chance(25))
        conf.step = rng.pick({"weekly", "biweekly"});
    Store s(rng, conf, c.dir / "ds");
    s.gen.step_hours = rng.pick({1, 6, 12});
    s.note("start");
    build_mixed(s);
    auto all = s.query("");
    if (all.items.empty())
        return;
    std::map<unsigned, Item> items;
    for (auto& i : all.items)
        items[i.uid] = i;
    ExprGen eg(rng);
    for (auto& i : items)
        eg.pool.push_back(i.second);
    unsigned n = opts.thorough ? 25 : 12, across = 0;
    for (unsigned q = 0; q < n; ++q)
    {
        s.maybe_reopen();
        auto reader = s.ds->create_reader();
        std::string expr;
        if (rng.chance(30))
            expr = eg.make().text;
        bool sorted = rng.chance(65);
        SortSpec sp;
        if (sorted)
            sp = gen_sort(rng);
        context(conf.desc() + " | sort " + sp.text + " query " + expr + " | " + s.log);
        query::Data qd(s.session->matcher(expr), rng.below(2));
        if (sorted)
            qd.sorter = metadata::sort::Compare::parse(sp.text);
        std::vector<std::shared_ptr<Metadata>> mds;
        if (!reader->query_data(qd, [&](std::shared_ptr<Metadata> md) {
                mds.push_back(md);
                return true;
            }))
            fail("query-false", "a query that was not stopped returns false");
        if (sorted)
        {
            count(sp.interval ? "sorted_interval" : "sorted");
            // Intervals that cannot contain data of more than one segment
            int limit = conf.step == "daily" ? 3 : conf.step == "monthly" ? 4 : conf.step == "yearly" ? 5 : 2;
            bool one  = sp.interval && sp.interval <= limit;
            auto key  = [&](size_t i, const char* name) {
                const auto& a = mds[i - 1]->sourceBlob();
                const auto& b = mds[i]->sourceBlob();
                bool arch     = a.absolutePathname().native().find(".archive") != std::string::npos ||
                            b.absolutePathname().native().find(".archive") != std::string::npos;
                if (a.absolutePathname() == b.absolutePathname() || (one && !arch))
                    return name;
                return "order-across-segments";
            };
            if (one)
                count("sorted_interval_in_segment");
            for (size_t i = 1; i < mds.size(); ++i)
            {
                auto ia = interval_id(rt_of(*mds[i - 1]), sp.interval), ib = interval_id(rt_of(*mds[i]), sp.interval);
                std::string k, what;
                if (sp.interval && ia > ib)
                {
                    k    = key(i, "interval-order");
                    what = cat("sorting by ", sp.text, ": ", rt_of(*mds[i - 1]).to_iso8601(), " comes before ", rt_of(*mds[i]).to_iso8601());
                }
                else if (ia == ib && sort_cmp(sp, *mds[i - 1], *mds[i]) > 0)
                {
                    k    = key(i, "order");
                    what = cat("sorting by ", sp.text, ": item ", i - 1, " of ", mds.size(), " should come after the next one: ",
                               mds[i - 1]->to_yaml(), " / ", mds[i]->to_yaml());
                }
                else
                    continue;
                if (k != "order-across-segments")
                    fail(k, what);
                if (!across++)
                    violation(k, what);
            }
        }
        else
        {
            count("unsorted");
            // Reference time order within each segment, and each segment in one go
            std::map<std::string, size_t> last;
            for (size_t i = 0; i < mds.size(); ++i)
            {
                std::string seg = mds[i]->sourceBlob().absolutePathname();
                auto l          = last.find(seg);
                if (l != last.end())
                {
                    if (l->second != i - 1)
                        fail("segment-interleaved", "data of a segment are not together");
                    if (to_secs(rt_of(*mds[i])) < to_secs(rt_of(*mds[i - 1])))
                        fail("segment-order", cat("in ", seg, " ", rt_of(*mds[i - 1]).to_iso8601(), " comes before ",
                                                  rt_of(*mds[i]).to_iso8601()));
                }
                last[seg] = i;
            }
        }
        // Sort a collection, too
        if (sorted)
        {
            metadata::Collection coll;
            for (auto& md : all.mds)
                coll.push_back(md);
            coll.sort(*qd.sorter);
            SortSpec flat = sp;
            for (size_t i = 1; i < coll.size(); ++i)
            {
                auto ia = interval_id(rt_of(coll[i - 1]), sp.interval), ib = interval_id(rt_of(coll[i]), sp.interval);
                if ((sp.interval && ia > ib) || (ia == ib && sort_cmp(flat, coll[i - 1], coll[i]) > 0))
                    fail("collection-order", cat("Collection::sort by ", sp.text));
            }
        }
        // Stop after k items
        if (!mds.empty() && rng.chance(60))
        {
            unsigned k = rng.range(1, mds.size()), calls = 0;
            std::vector<std::shared_ptr<Metadata>> part;
            bool stopped = false;
            auto rd      = s.ds->create_reader();
            bool res     = rd->query_data(qd, [&](std::shared_ptr<Metadata> md) {
                if (stopped)
                    ++calls;
                part.push_back(md);
                if (part.size() >= k)
                {
                    stopped = true;
                    return false;
                }
                return true;
            });
            if (calls)
                fail(sp.interval ? "stop-ignored-interval" : "stop-ignored",
                     cat("after the consumer asked to stop, ", calls, " more items were delivered; sort ", sp.text));
            if (res)
                fail(sp.interval ? "stop-not-reported-interval" : "stop-not-reported",
                     cat("the consumer asked to stop after ", k, " of ", mds.size(), " items, but the query returned true; sort ", sp.text));
            for (size_t i = 0; i < part.size(); ++i)
                if (sorted ? (sp.interval ? interval_id(rt_of(*part[i]), sp.interval) != interval_id(rt_of(*mds[i]), sp.interval)
                                          : sort_cmp(sp, *part[i], *mds[i]) != 0)
                           : part[i]->sourceBlob().to_string() != mds[i]->sourceBlob().to_string())
                    fail("stop-prefix", "a stopped query returns items which are not the first ones");
            count("stopped");
        }
        distinct(cat(conf.type, "/", sp.text, "/", expr, "/", mds.size()));
    }
    count("evals");
    sample(conf.desc() + " | " + s.log);
}

void c12(Case& c)
{
    auto& rng = c.rng;
    ConfGen cg;
    cg.steps    = {"daily", "daily", "monthly", "yearly"};
    DsConf conf = cg.make(rng);
    if (rng.chance(25))
        conf.step = rng.pick({"weekly", "biweekly"});
    Store s(rng, conf, c.dir / "ds");
    // Long enough to have whole months between partial ones
    if (conf.step == "daily" && rng.chance(60))
        s.gen.span_hours = 24 * rng.pick({50, 80, 130});
    s.note("start");
    unsigned n = rng.range(3, 7);
    std::string hist;
    std::shared_ptr<dataset::Reader> keep; // sometimes the same reader lives on
    for (unsigned step = 0; step < n; ++step)
    {
        std::string op;
        if (s.live.empty() || rng.chance(45))
            op = "import";
        else if (!s.archived.empty() && rng.chance(30))
            op = "unarchive";
        else
            op = rng.pick({"remove", "repack", "check", "tar", "zip", "compress", "archive", "remove_old", "remove_segment", "reindex",
                           "remove_index", "unarchive", "import_reopen"});
        hist += op + ",";
        s.maybe_reopen();
        if (op == "import" || op == "import_reopen")
        {
            auto items = s.make_items(rng.chance(15) ? rng.range(15, 30) : rng.range(1, 10));
            if (items.empty())
                continue;
            s.import(items, false, false);
        }
        else if (op == "remove")
            History::remove_some(s);
        else if (op == "archive")
            move_to_archive(s, 15);
        else if (op == "unarchive")
        {
            if (s.archived.empty())
                continue;
            auto rel     = *std::next(s.archived.begin(), rng.below(s.archived.size()));
            // Through a segment of the online part: the call only uses its path
            s.note("unarchive " + rel);
            auto checker = std::dynamic_pointer_cast<dataset::segmented::Checker>(s.ds->create_checker());
            auto sess    = std::dynamic_pointer_cast<dataset::segmented::Dataset>(s.ds)->segment_session;
            checker->segment(sess->segment_from_relpath(rel))->unarchive();
            s.archived.erase(rel);
            count("unarchived");
        }
        else if (op == "remove_old")
        {
            // Remove data by age: the model drops segments which are all older
            long long epoch = to_secs(Time(1970, 1, 1, 0, 0, 0));
            const Item& i   = std::next(s.live.begin(), rng.below(s.live.size()))->second;
            time_t now      = to_secs(i.rt) - epoch + 86400 * 30;
            if (!s.archived.empty())
                continue; // what happens to archives is C13's matter
            auto o            = dataset::SessionTime::local_override(now);
            s.conf.delete_age = 25;
            s.reopen();
            s.run_op("repack", true);
            s.conf.delete_age = -1;
            s.reopen();
            // Trust the data that are left
            auto r = s.query("");
            std::set<unsigned> left;
            for (auto& i : r.items)
                left.insert(i.uid);
            for (auto i = s.live.begin(); i != s.live.end();)
                i = left.count(i->first) ? std::next(i) : s.live.erase(i);
        }
        else if (op == "remove_segment")
        {
            const Item& i = std::next(s.live.begin(), rng.below(s.live.size()))->second;
            auto rel      = s.relpath(i);
            if (s.archived.count(rel))
                continue;
            s.note("remove segment " + rel);
            if (!with_segment(s, rel, [](auto& seg) { seg.remove(true); }))
                continue;
            for (auto i = s.live.begin(); i != s.live.end();)
                i = s.relpath(i->second) == rel ? s.live.erase(i) : std::next(i);
            s.closed.erase(rel);
        }
        else if (op == "reindex" || op == "remove_index")
        {
            const Item& i = std::next(s.live.begin(), rng.below(s.live.size()))->second;
            auto rel      = s.relpath(i);
            if (s.archived.count(rel) || s.closed.count(rel))
                continue; // tar and zip segments cannot be scanned
            if (op == "remove_index")
            {
                s.note("deindex " + rel);
                with_segment(s, rel, [](auto& seg) { seg.remove(false); });
                // Between this and the next check the data are not known
                auto r = s.query("");
                std::map<std::string, Stat> exp;
                for (size_t k = 0; k < r.items.size(); ++k)
                    exp[summary_key(*r.mds[k])].add(r.items[k]);
                Summary sum;
                s.ds->create_reader()->query_summary(Matcher(), sum);
                auto d = diff_summaries(exp, summary_map(sum));
                if (!d.empty())
                    fail("summary-after-deindex", "after a segment is deindexed: " + d);
            }
            else
            {
                s.note("rescan " + rel);
                with_segment(s, rel, [](auto& seg) {
                    Recorder rec;
                    seg.rescan(rec);
                });
            }
            s.run_check(true);
        }
        else
        {
            s.run_op(op, true);
        }

        // Compare summaries with what the dataset returns
        if (rng.below(2))
            s.maybe_reopen();
        auto r = s.query("");
        ExprGen eg(rng);
        eg.reftime_or = false;
        eg.contiguous = true;
        eg.cut_step   = conf.step;
        for (auto& i : r.items)
            eg.pool.push_back(i);
        if (eg.pool.empty())
            eg.pool.push_back(s.gen.make());
        for (int k = 0; k < 4; ++k)
        {
            Expr e;
            e.match = [](const Item&) { return true; };
            if (k)
                e = eg.make();
            context(conf.desc() + " | summary of " + e.text + " after " + op + " | " + s.log);
            SummaryMap exp;
            for (size_t i = 0; i < r.items.size(); ++i)
                if (e.match(r.items[i]))
                    exp[summary_key(*r.mds[i])].add(r.items[i]);
            if (!keep || rng.chance(60))
                keep = s.ds->create_reader();
            Summary sum;
            keep->query_summary(s.session->matcher(e.text), sum);
            auto d = diff_summaries(exp, summary_map(sum));
            if (!d.empty())
                fail(cat("summary-", k ? "query" : "all"), cat("after ", op, ", summary of '", e.text, "': ", d));
            count(k ? "summary_queries" : "summary_all");
            if (exp.size() > 1)
                count("summary_nontrivial");
        }
        count(cat("after_", op));
    }
    distinct(cat(conf.desc(), "/", hist));
    count("evals");
    sample(conf.desc() + " | " + s.log);
}

/*
 * C30
 */
void c30(Case& c)
{
    auto& rng = c.rng;
    ConfGen cg;
    DsConf conf = cg.make(rng);
    Store s(rng, conf, c.dir / "ds");
    s.note("start");
    History h;
    h.removals = false;
    h.big      = 3;
    h.run(s);
    if (!s.live.empty() && rng.chance(20))
        move_to_archive(s, 20);
    unsigned n = rng.range(1, 3);
    for (unsigned k = 0; k < n && !s.live.empty(); ++k)
    {
        s.maybe_reopen();
        std::set<unsigned> uids;
        if (rng.chance(20))
        {
            // A whole segment
            auto rel = s.relpath(std::next(s.live.begin(), rng.below(s.live.size()))->second);
            for (auto& i : s.live)
                if (s.relpath(i.second) == rel)
                    uids.insert(i.first);
        }
        else
        {
            unsigned pct = rng.pick({5, 20, 50, 80, 100});
            for (auto& i : s.live)
                if (rng.chance(pct))
                    uids.insert(i.first);
        }
        if (uids.empty())
            continue;
        bool arch = false;
        for (auto u : uids)
            if (s.archived.count(s.relpath(s.live[u])))
                arch = true;
        if (arch)
        {
            // Data in archives are not removed: this must be said
            auto before = s.live;
            try
            {
                s.remove(uids);
            }
            catch (std::exception& e)
            {
                count("archived_refused");
                s.live = before;
            }
        }
        else
            s.remove(uids);
        s.maybe_reopen();
        s.check_contents("after remove");
        auto r = [&] {
            Summary sum;
            s.ds->create_reader()->query_summary(Matcher(), sum);
            return diff_summaries(s.model_summary(), summary_map(sum));
        }();
        if (!r.empty())
            fail("summary", "after remove: " + r);
        ExprGen eg(rng);
        for (auto& i : s.live)
            eg.pool.push_back(i.second);
        if (!eg.pool.empty())
        {
            Expr e   = eg.make();
            auto got = s.query(e.text);
            for (auto& i : got.items)
                if (!s.live.count(i.uid))
                    fail("still-there", cat("query '", e.text, "' returns removed item ", i.desc()));
        }
        int what = rng.below(4);
        if (what == 0)
        {
            s.run_repack(true);
            s.maybe_reopen();
            s.check_contents("after remove and repack");
            s.check_clean("after remove and repack", false);
        }
        else if (what == 1)
        {
            s.run_check(true);
            s.check_contents("after remove and check");
        }
        else if (what == 2)
        {
            auto items = s.make_items(rng.range(1, 5));
            if (!items.empty())
            {
                s.import(items);
                s.check_contents("after remove and import");
            }
        }
        count("removals");
    }
    distinct(cat(conf.desc(), "/", s.log));
    count("evals");
    sample(conf.desc() + " | " + s.log);
}

} // namespace

int main(int argc, const char* argv[])
{
    install_scanners();
    return run_main(argc, argv,
                    {{"C01", c01}, {"C05", c05}, {"C09", c09}, {"C10", c10}, {"C11", c11}, {"C12", c12}, {"C30", c30}});
}
