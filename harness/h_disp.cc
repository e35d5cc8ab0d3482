// C15: dispatching batches of items to the datasets of a configuration.
#include "common_ds.h"
#include "faults.h"
#include <algorithm>
#include <arki/dataset/file.h>
#include <arki/dataset/pool.h>
#include <arki/dispatcher.h>
#include <arki/matcher/parser.h>
#include <arki/metadata/validator.h>
#include <cstring>

using namespace vh;
using namespace arki;
namespace fs = std::filesystem;
typedef metadata::Inbound::Result R;

namespace {

struct Target
{
    std::string name;
    std::string kind; // store, discard, outbound
    std::string use;  // value of use= in the configuration
    std::string cfg_type;
    DsConf conf;
    fs::path path;
    Expr filter;
    std::unique_ptr<Store> store;
    std::vector<unsigned> sent; // outbound: all what should be there
    bool confused = false; // contents are not known, after an injected failure
    std::shared_ptr<core::cfg::Section> cfg() const
    {
        auto c = conf.cfg(path);
        c->set("name", name);
        c->set("type", cfg_type);
        if (!use.empty())
            c->set("use", use);
        c->set("filter", filter.text);
        return c;
    }
    std::string desc() const { return cat(name, "[", cfg_type, use.empty() ? "" : " use=", use, " ", conf.desc(), " filter ", filter.text, "]"); }
};

struct Elem
{
    Item item;
    bool has_rt = true;
    std::shared_ptr<Metadata> md;
};

struct ExprValidator : public metadata::Validator
{
    Matcher m;
    ExprValidator(const std::string& n, Matcher m) : m(m) { name = n; }
    bool operator()(const Metadata& md, std::vector<std::string>& errors) const override
    {
        if (!m(md))
            return true;
        errors.push_back(name + ": not valid");
        return false;
    }
};

/// Uids of the items in each file of an outbound dataset
std::map<std::string, std::vector<unsigned>> outbound_contents(DataFormat fmt, const fs::path& root)
{
    std::map<std::string, std::vector<unsigned>> res;
    if (!fs::exists(root))
        return res;
    std::vector<fs::path> files;
    for (const auto& e : fs::recursive_directory_iterator(root))
        if (e.is_regular_file() && e.path().extension() == cat(".", fmt_name(fmt)))
            files.push_back(e.path());
    std::sort(files.begin(), files.end());
    for (const auto& f : files)
    {
        auto text      = read_text(f);
        std::string id = fs::relative(f, root).native();
        if (f.parent_path().extension() == cat(".", fmt_name(fmt)))
            id = fs::relative(f.parent_path(), root).native();
        size_t pos = 0;
        while (pos < text.size())
        {
            Item i;
            size_t left = text.size() - pos;
            if (fmt == DataFormat::VM2)
                left = std::min(text.find('\n', pos), text.size()) - pos;
            size_t n = parse_payload(fmt, (const uint8_t*)text.data() + pos, left, i);
            if (!n)
                fail("C15:outbound-data", cat(f.native(), ": cannot find an item at ", pos, " of ", text.size()));
            res[id].push_back(i.uid);
            pos += n;
            if (fmt == DataFormat::VM2 && pos < text.size() && text[pos] == '\n')
                ++pos;
        }
    }
    for (auto& f : res)
        std::sort(f.second.begin(), f.second.end());
    return res;
}

struct World
{
    Case& c;
    Rng& rng;
    DataFormat fmt;
    ItemGen gen;
    std::vector<Item> pool_items; // used to choose filters, and to make duplicates
    std::vector<std::unique_ptr<Target>> targets;
    Target* err = nullptr;
    Target* dup = nullptr; // err if there is none
    std::shared_ptr<dataset::Session> session;
    std::shared_ptr<dataset::Pool> pool;
    std::unique_ptr<Dispatcher> dispatcher;
    std::vector<std::pair<std::string, Expr>> validators;
    std::vector<std::unique_ptr<ExprValidator>> vobjs;
    std::map<unsigned, Item> all;
    std::string log;
    long long outbound_failures = 0;

    World(Case& c) : c(c), rng(c.rng), gen(c.rng)
    {
        static const std::vector<DataFormat> formats = {DataFormat::GRIB, DataFormat::GRIB, DataFormat::BUFR, DataFormat::VM2, DataFormat::VM2,
                                                        DataFormat::ODIMH5, DataFormat::JPEG};
        fmt            = rng.pick(formats);
        gen.format     = fmt;
        gen.span_hours = 24 * rng.pick({3, 10, 40});
        gen.step_hours = rng.pick({6, 12, 24});
        gen.variety    = rng.pick({1, 2, 3});
    }

    void note(const std::string& s)
    {
        log += s + "; ";
        context(log.size() > 6000 ? log.substr(0, 3000) + " ... " + log.substr(log.size() - 3000) : log);
    }

    Target& add(const std::string& name, const std::string& kind, const std::string& type, bool with_unique = true)
    {
        targets.emplace_back(new Target);
        Target& t = *targets.back();
        t.name    = name;
        t.kind    = kind;
        ConfGen g;
        g.formats = {fmt};
        g.types   = {type == "iseg" ? "iseg" : "simple"};
        g.steps   = {"daily", "daily", "monthly", "yearly", "weekly"};
        if (with_unique)
            g.unique = 80;
        t.conf           = g.make(rng);
        t.conf.name      = name;
        t.conf.eatmydata = false;
        t.cfg_type       = type;
        t.path           = c.dir / "root" / name;
        if (kind == "outbound" || kind == "discard")
            t.conf.dir_segments = false;
        return t;
    }

    void make_filters(std::vector<Target*> regular)
    {
        std::map<int, unsigned> origins;
        for (const auto& i : pool_items)
            if (i.o[0] >= 0 && !origins.count(i.o[0]))
                origins[i.o[0]] = rng.below(regular.size() + 1);
        bool part_time = rng.chance(30);
        Time t0 = gen.begin;
        for (size_t n = 0; n < regular.size(); ++n)
        {
            Target& t = *regular[n];
            if (rng.chance(25))
            {
                ExprGen eg(rng);
                eg.pool  = pool_items;
                t.filter = eg.make();
                if (t.filter.text.empty())
                    t.filter = Expr{"origin:GRIB1,255", [](const Item& i) { return i.o[0] == 255; }};
            }
            else if (part_time)
            {
                // Split time in consecutive intervals
                long long len = gen.span_hours * 3600LL / regular.size();
                long long b = to_secs(t0) + len * (long long)n, e = b + len;
                if (rng.chance(15))
                    e += 86400;
                t.filter.text  = cat("reftime:>=", from_secs(b).to_iso8601(' '), ",<", from_secs(e).to_iso8601(' '));
                t.filter.match = [b, e](const Item& i) { return to_secs(i.rt) >= b && to_secs(i.rt) < e; };
            }
            else
            {
                std::set<int> mine;
                for (const auto& o : origins)
                    if (o.second == n || rng.chance(8))
                        mine.insert(o.first);
                std::string text;
                for (auto o : mine)
                    text += cat(text.empty() ? "" : " or ", "GRIB1,", o);
                if (mine.empty())
                {
                    text = "GRIB1,254";
                    mine.insert(254);
                }
                t.filter.text  = "origin:" + text;
                t.filter.match = [mine](const Item& i) { return i.o[0] >= 0 && mine.count(i.o[0]) > 0; };
            }
        }
    }

    void setup()
    {
        fs::create_directories(c.dir / "root");
        pool_items = gen.make(40);
        std::vector<Target*> regular;
        unsigned n = rng.range(1, 4);
        for (unsigned i = 0; i < n; ++i)
        {
            Target& t = rng.chance(8) ? add(cat("ds", i), "discard", "discard") : add(cat("ds", i), "store", rng.chance(70) ? "iseg" : "simple");
            regular.push_back(&t);
            if (t.kind == "store" && t.cfg_type == "iseg" && rng.chance(5))
                t.conf.format = fmt == DataFormat::GRIB ? DataFormat::BUFR : DataFormat::GRIB;
            if (t.kind == "store" && rng.chance(12))
                t.conf.archive_age = rng.range(1, gen.span_hours / 24);
        }
        make_filters(regular);
        n = rng.chance(40) ? rng.range(1, 2) : 0;
        for (unsigned i = 0; i < n; ++i)
        {
            Target& t = add(cat("out", i), "outbound", "outbound");
            ExprGen eg(rng);
            eg.pool  = pool_items;
            eg.reftime = 40;
            eg.others = 25;
            t.filter = eg.make();
            if (t.filter.text.empty())
                t.filter = Expr{"reftime:>=1900", [](const Item& i) { return true; }};
        }
        auto special = [&](const std::string& use, const std::vector<std::string>& names, const std::string& own) -> Target* {
            std::string type = rng.pick(std::vector<std::string>{"simple", "simple", own, own, "iseg", "discard", "outbound"});
            std::string name = rng.pick(names);
            std::string kind = type == "discard" || type == "outbound" ? type : "store";
            bool canonical   = name == names[0];
            Target& t        = add(name, kind, type);
            if (type == own || canonical)
                t.use = rng.chance(30) ? use : "";
            else
                t.use = use;
            t.filter = Expr{rng.chance(30) ? "reftime:>=1900" : "", [](const Item&) { return false; }};
            return &t;
        };
        err = special("error", {"error", "error", "error", "bad", "zz"}, "error");
        dup = rng.chance(70) ? special("duplicates", {"duplicates", "duplicates", "again", "aa"}, "duplicates") : err;
        for (auto& t : targets)
        {
            if (t->kind == "store")
            {
                DsConf conf = t->conf;
                conf.type   = t->cfg_type == "iseg" ? "iseg" : "simple";
                t->store.reset(new Store(rng, conf, t->path));
                t->store->prefix = "C15:" + (t.get() == err ? std::string("error:") : t.get() == dup ? "duplicates:" : "");
            }
            note(t->desc());
        }
        if (rng.chance(25))
        {
            unsigned n = rng.range(1, 2);
            for (unsigned i = 0; i < n; ++i)
            {
                ExprGen eg(rng);
                eg.pool = pool_items;
                auto e  = eg.make();
                if (!e.text.empty())
                {
                    validators.emplace_back(cat("v", i), e);
                    note("validator against " + e.text);
                }
            }
        }
    }

    void open()
    {
        dispatcher.reset();
        session = std::make_shared<dataset::Session>(false);
        pool    = std::make_shared<dataset::Pool>(session);
        std::vector<Target*> ts;
        for (auto& t : targets)
            ts.push_back(t.get());
        rng.shuffle(ts);
        for (auto t : ts)
        {
            pool->add_dataset(*t->cfg());
            if (t->conf.dir_segments && t->kind != "discard")
            {
                auto s = std::dynamic_pointer_cast<dataset::segmented::Dataset>(pool->dataset(t->name));
                s->segment_session->default_file_segment = segment::DefaultFileSegment::SEGMENT_DIR;
            }
        }
        outbound_failures = 0;
        dispatcher.reset(new RealDispatcher(pool));
        add_validators(*dispatcher);
    }

    void add_validators(Dispatcher& d)
    {
        for (const auto& v : validators)
        {
            vobjs.emplace_back(new ExprValidator(v.first, matcher::Parser().parse(v.second.text)));
            d.add_validator(*vobjs.back());
        }
    }

    std::vector<Item> make_items()
    {
        std::vector<Item> res;
        unsigned n = rng.chance(5) ? 0 : rng.range(1, 14);
        for (unsigned k = 0; k < n; ++k)
        {
            Item i;
            if (!pool_items.empty() && rng.chance(50))
            {
                i     = rng.pick(pool_items);
                i.uid = gen.next_uid++;
                if (rng.chance(30))
                    i.usn = rng.below(4);
                i.build(rng, rng.below(gen.max_filler));
            }
            else
            {
                i = gen.make();
                pool_items.push_back(i);
            }
            res.push_back(i);
        }
        return res;
    }

    /// Make the metadata to dispatch: from a file, or with inline data
    std::vector<Elem> make_batch(const std::vector<Item>& items, fs::path& input)
    {
        std::vector<Elem> res;
        bool file = rng.chance(60) && (fmt == DataFormat::GRIB || fmt == DataFormat::BUFR || fmt == DataFormat::VM2) && !items.empty();
        if (file)
        {
            input = c.dir / cat("input", gen.next_uid, ".", fmt_name(fmt));
            std::string text;
            for (const auto& i : items)
            {
                text.append((const char*)i.data.data(), i.data.size());
                if (fmt == DataFormat::VM2)
                    text += '\n';
            }
            write_text(input, text);
            auto s = std::make_shared<dataset::Session>(false);
            auto f = dataset::file::Dataset::from_config(s, *dataset::file::read_config(input));
            metadata::Collection mds(*f, query::Data(Matcher(), true));
            if (mds.size() != items.size())
                fail("C15:harness", cat("input file read as ", mds.size(), " items instead of ", items.size()));
            for (size_t i = 0; i < items.size(); ++i)
            {
                auto md = mds[i].clone();
                res.push_back(Elem{items[i], true, md});
            }
            count("batches_from_files");
        }
        else
            for (const auto& i : items)
                res.push_back(Elem{i, true, i.md()});
        for (auto& e : res)
        {
            // The time of now can be in the key of an iseg dataset
            if (rng.chance(4) && err->cfg_type != "iseg")
            {
                e.has_rt = false;
                e.md->unset(TYPE_REFTIME);
            }
            all[e.item.uid] = e.item;
        }
        return res;
    }

    struct Expected
    {
        std::string route; // name, or !validator !noreftime !none !many
        std::vector<Target*> outbound;
        R result = R::ERROR;
        std::string destination;
    };

    /// Store items in a target, as documented. Returns the results
    std::vector<R> model_store(Target& t, std::vector<Item>& items)
    {
        if (t.kind == "discard")
            return std::vector<R>(items.size(), R::OK);
        if (t.kind == "outbound")
        {
            for (const auto& i : items)
                t.sent.push_back(i.uid);
            return std::vector<R>(items.size(), R::OK);
        }
        if (t.conf.iseg() && t.conf.format != fmt)
            return std::vector<R>(items.size(), R::ERROR);
        return t.store->predict(items, t.store->live);
    }

    std::vector<Expected> predict(const std::vector<Elem>& batch)
    {
        std::vector<Expected> res;
        std::map<Target*, std::vector<size_t>> outbound, regular;
        std::vector<size_t> errors, dups;
        for (size_t n = 0; n < batch.size(); ++n)
        {
            res.emplace_back();
            const auto& e = batch[n];
            Expected& x   = res.back();
            if (!e.has_rt)
            {
                x.route = "!noreftime";
                errors.push_back(n);
                continue;
            }
            bool valid = true;
            for (const auto& v : validators)
                if (v.second.match(e.item))
                    valid = false;
            if (!valid)
            {
                x.route = "!validator";
                errors.push_back(n);
                continue;
            }
            std::vector<Target*> found;
            for (auto& t : targets)
            {
                if (t.get() == err || t.get() == dup || !t->filter.match(e.item))
                    continue;
                if (t->kind == "outbound")
                {
                    outbound[t.get()].push_back(n);
                    x.outbound.push_back(t.get());
                }
                else
                    found.push_back(t.get());
            }
            if (found.size() != 1)
            {
                x.route = found.empty() ? "!none" : "!many";
                errors.push_back(n);
                continue;
            }
            x.route = found[0]->name;
            regular[found[0]].push_back(n);
        }
        auto go = [&](Target& t, const std::vector<size_t>& idx) {
            std::vector<Item> items;
            for (auto i : idx)
            {
                items.push_back(batch[i].item);
                if (!batch[i].has_rt)
                {
                    // Dispatching gives it the time of now
                    auto now      = Time::create_now();
                    items.back().rt = Time(now.ye, now.mo, now.da, 0, 0, 0);
                }
            }
            auto r = model_store(t, items);
            for (size_t k = 0; k < idx.size(); ++k)
            {
                res[idx[k]].result      = r[k];
                res[idx[k]].destination = r[k] == R::OK ? t.name : "";
                count(cat("routed_", &t == err ? "error_" : &t == dup ? "duplicates_" : "", t.kind, "_",
                          r[k] == R::OK ? "ok" : r[k] == R::DUPLICATE ? "duplicate" : "error"));
            }
        };
        for (auto& o : outbound)
            go(*o.first, o.second);
        for (auto& o : regular)
        {
            go(*o.first, o.second);
        }
        // Errors and duplicates are collected by dataset name
        std::map<std::string, Target*> by_name;
        for (auto& o : regular)
            by_name[o.first->name] = o.first;
        for (auto& b : by_name)
            for (auto n : regular[b.second])
                if (res[n].result == R::DUPLICATE)
                    dups.push_back(n);
                else if (res[n].result != R::OK)
                    errors.push_back(n);
        if (!dups.empty())
            go(*dup, dups);
        for (auto n : dups)
            if (res[n].result != R::OK)
                errors.push_back(n);
        if (!errors.empty())
            go(*err, errors);
        return res;
    }

    /// Where items are: name of targets (not outbound ones) for each uid
    std::map<unsigned, std::multiset<std::string>> locate()
    {
        std::map<unsigned, std::multiset<std::string>> res;
        for (auto& t : targets)
        {
            if (t->kind == "discard")
                continue;
            if (t->kind == "outbound")
            {
                for (const auto& f : outbound_contents(fmt, t->path))
                    for (auto u : f.second)
                        res[u].insert(t->name);
                continue;
            }
            if (t->conf.iseg() && t->conf.format != fmt)
                continue;
            t->store->reopen();
            auto r = t->store->query("");
            for (const auto& i : r.items)
                res[i.uid].insert(t->name);
        }
        return res;
    }

    void check_storage(const std::string& where)
    {
        for (auto& t : targets)
        {
            if (t->confused || t->kind == "discard")
                continue;
            if (t->kind == "outbound")
            {
                auto got = outbound_contents(fmt, t->path);
                std::map<std::string, std::vector<unsigned>> exp;
                for (auto u : t->sent)
                    exp[seg_name(t->conf.step, all[u].rt) + "." + fmt_name(fmt)].push_back(u);
                for (auto& e : exp)
                    std::sort(e.second.begin(), e.second.end());
                if (got != exp)
                {
                    std::string d;
                    for (const auto& e : exp)
                        if (got[e.first] != e.second)
                        {
                            d += " " + e.first + ": expected";
                            for (auto u : e.second)
                                d += cat(" ", u);
                            d += " found";
                            for (auto u : got[e.first])
                                d += cat(" ", u);
                        }
                    for (const auto& g : got)
                        if (!exp.count(g.first))
                            d += " unexpected " + g.first;
                    fail("C15:outbound-contents", cat(where, ": outbound ", t->name, d));
                }
                count("outbounds_checked");
                continue;
            }
            if (t->conf.iseg() && t->conf.format != fmt)
                continue;
            t->store->reopen();
            t->store->check_contents(where + " in " + t->name, rng.chance(20));
        }
    }

    void test_dispatch(std::vector<Elem>& batch)
    {
        auto before = snapshot(c.dir, true, true);
        metadata::InboundBatch b;
        for (auto& e : batch)
            b.add(e.md->clone());
        {
            auto s = std::make_shared<dataset::Session>(false);
            auto p = std::make_shared<dataset::Pool>(s);
            for (auto& t : targets)
                p->add_dataset(*t->cfg());
            TestDispatcher d(p);
            add_validators(d);
            d.dispatch(b, false);
            d.flush();
        }
        auto diff = diff_snapshots(before, snapshot(c.dir, true, true));
        if (!diff.empty())
            fail("C15:test-dispatch-writes", cat("a test dispatch changed ", diff));
        for (size_t n = 0; n < batch.size(); ++n)
        {
            // It does not know of duplicates and refusals, so only see that errors are found
            std::vector<std::string> found;
            bool bad = !batch[n].has_rt;
            for (const auto& v : validators)
                bad = bad || v.second.match(batch[n].item);
            for (auto& t : targets)
                if (t.get() != err && t.get() != dup && t->kind != "outbound" && t->filter.match(batch[n].item))
                    found.push_back(t->name);
            bool aged = false;
            for (auto& t : targets)
                aged = aged || t->conf.archive_age >= 0;
            std::string exp = bad || found.size() != 1 ? err->name : found[0];
            if (!aged && b[n]->destination != exp)
                fail("C15:test-dispatch", cat("a test dispatch sends ", batch[n].item.desc(), " to '", b[n]->destination, "' instead of ", exp));
        }
        count("test_dispatches");
    }

    void dispatch()
    {
        auto items = make_items();
        fs::path input;
        auto batch = make_batch(items, input);
        std::map<std::string, std::string> input_before;
        if (!input.empty())
            input_before["input"] = read_text(input);
        if (rng.chance(15))
            test_dispatch(batch);

        bool drop = rng.chance(50);
        note(cat("dispatch ", batch.size(), input.empty() ? "" : " from file", drop ? " drop" : ""));

        // Fail writes on one of the datasets
        Target* failing = nullptr;
        if (rng.chance(15))
            for (unsigned k = 0; k < 5 && !failing; ++k)
            {
                Target* t = rng.pick(targets).get();
                if (t->kind != "discard")
                    failing = t;
            }

        // With a copy of the state of the models, to restore it if there is a failure
        std::map<Target*, std::map<unsigned, Item>> models;
        std::map<Target*, std::vector<unsigned>> sents;
        for (auto& t : targets)
        {
            if (t->store)
                models[t.get()] = t->store->live;
            sents[t.get()] = t->sent;
        }

        auto exp = predict(batch);
        metadata::InboundBatch b;
        for (auto& e : batch)
            b.add(e.md);
        std::string exc;
        auto& f = faults::ctl();
        if (failing)
        {
            fs::create_directories(failing->path);
            f                 = faults::Control();
            f.root            = failing->path.native();
            f.fail_at         = rng.below(rng.pick({6, 15, 40}));
            f.fail_persistent = rng.chance(70);
            f.on              = true;
        }
        try
        {
            dispatcher->dispatch(b, drop);
        }
        catch (std::exception& e)
        {
            exc = e.what();
        }
        f.on = false;
        if (failing && !f.failed)
            failing = nullptr;
        if (!exc.empty() && !failing)
            fail("C15:exception:" + normalise_text(exc), cat("dispatching failed: ", exc));
        if (rng.chance(50))
            dispatcher->flush();
        count("dispatches");
        count("items_dispatched", batch.size());
        if (!input.empty() && read_text(input) != input_before["input"])
            fail("C15:input-changed", "the input file was changed");

        if (failing)
        {
            check_failed(*failing, batch, b, exp, exc, models, sents);
            return;
        }
        for (size_t n = 0; n < batch.size(); ++n)
        {
            const auto& e = batch[n];
            const auto& x = exp[n];
            if (!e.has_rt)
            {
                auto rt = b[n]->md->get<types::reftime::Position>();
                if (!rt)
                    fail("C15:no-reftime", "item without reference time was not given one");
                all[e.item.uid].rt = rt->get_Position();
                for (auto& t : targets)
                    if (t->store && t->store->live.count(e.item.uid))
                        t->store->live[e.item.uid].rt = all[e.item.uid].rt;
            }
            if (b[n]->result != x.result || b[n]->destination != x.destination)
                fail(cat("C15:outcome:", x.route[0] == '!' ? x.route : "routed"),
                     cat(e.item.desc(), " routed to ", x.route, " reported as ", b[n]->result, " in '", b[n]->destination, "' instead of ", x.result,
                         " in '", x.destination, "'"));
            count(cat("route_", x.route[0] == '!' ? x.route.substr(1) : "dataset"));
            if (x.result == R::OK)
                check_source(*b[n], e.item);
        }
        if (dispatcher->outboundFailures() != (size_t)outbound_failures)
            fail("C15:outbound-failures", cat(dispatcher->outboundFailures(), " outbound failures reported instead of ", outbound_failures));
        check_storage("after dispatch");
        distinct(log);
    }

    /// The metadata after dispatch refer to where data have been stored
    void check_source(const metadata::Inbound& in, const Item& item)
    {
        Target* t = nullptr;
        for (auto& x : targets)
            if (x->name == in.destination)
                t = x.get();
        if (!t)
            fail("C15:destination", cat("reported destination '", in.destination, "' does not exist"));
        auto md = in.md->clone();
        md->drop_cached_data();
        std::vector<uint8_t> data;
        if (t->kind != "discard")
        {
            if (!md->has_source_blob())
                fail("C15:source", cat("metadata imported in ", t->name, " has source ", md->source().to_string()));
            const auto& s = md->sourceBlob();
            // iseg replaces items: the data referred may be no longer there, but the segment must be
            auto path = (fs::path(s.basedir) / s.filename).lexically_normal();
            std::string root = t->path.lexically_normal().native() + "/";
            if (path.native().substr(0, root.size()) != root)
                fail("C15:source", cat("metadata imported in ", t->name, " refers to ", path.native()));
        }
        if (t->kind == "discard")
            data = item.data; // source is still the original one
        else
        {
            const auto& s = md->sourceBlob();
            auto path     = s.absolutePathname();
            std::string text;
            if (fs::is_directory(path))
            {
                char name[32];
                snprintf(name, sizeof(name), "%06zu.%s", (size_t)s.offset, fmt_name(fmt));
                text = read_text(path / name);
            }
            else
                text = read_text(path).substr(s.offset);
            text = text.substr(0, s.size);
            data.assign(text.begin(), text.end());
        }
        if (data != item.data)
            fail("C15:source-data", cat(item.desc(), ": metadata after the import in ", t->name, " refer to other data"));
        count("sources_checked");
    }

    void check_failed(Target& bad, std::vector<Elem>& batch, metadata::InboundBatch& b, std::vector<Expected>& exp, const std::string& exc,
                      std::map<Target*, std::map<unsigned, Item>>& models, std::map<Target*, std::vector<unsigned>>& sents)
    {
        count("failures_injected");
        count(exc.empty() ? "failures_reported_in_batch" : "failures_thrown");
        note(cat("failure in ", bad.name, ": ", faults::ctl().failed_what, exc.empty() ? "" : " thrown ", exc));
        // Start again from the files: errors may be kept in the writers
        open();
        std::map<unsigned, std::multiset<std::string>> where = locate();
        for (size_t n = 0; n < batch.size(); ++n)
        {
            const auto& e = batch[n];
            auto& w       = where[e.item.uid];
            // Never stored twice, and never where it should not
            std::multiset<std::string> stored;
            for (const auto& name : w)
            {
                Target* t = nullptr;
                for (auto& x : targets)
                    if (x->name == name)
                        t = x.get();
                bool out = std::find(exp[n].outbound.begin(), exp[n].outbound.end(), t) != exp[n].outbound.end();
                if (out)
                {
                    if (w.count(name) > 1)
                        fail("C15:failed:outbound-twice", cat(e.item.desc(), " is ", w.count(name), " times in ", name));
                    continue;
                }
                stored.insert(name);
                if (name != exp[n].route && t != err && t != dup)
                    fail("C15:failed:wrong-dataset", cat(e.item.desc(), " routed to ", exp[n].route, " is in ", name));
            }
            if (!exc.empty())
            {
                // The report is the exception
                auto others = stored;
                others.erase(bad.name);
                if (others.size() > 1)
                    fail("C15:failed:twice", cat(e.item.desc(), " is stored ", others.size(), " times"));
                continue;
            }
            std::string list;
            for (const auto& s : stored)
                list += " " + s;
            const auto& in = *b[n];
            Target* dest   = nullptr;
            for (auto& x : targets)
                if (x->name == in.destination)
                    dest = x.get();
            if (in.result == R::OK)
            {
                if (!dest)
                    fail("C15:failed:destination", cat(e.item.desc(), " reported as OK in '", in.destination, "'"));
                if (dest->kind == "store" || dest->kind == "outbound")
                {
                    // An item may be replaced by another one of the batch
                    bool replaced = dest->store && dest->conf.iseg() && !dest->conf.replace.empty() && dest->conf.replace != "no";
                    if (!replaced && stored.count(in.destination) != 1)
                        fail("C15:failed:not-stored", cat(e.item.desc(), " reported as OK in ", in.destination, " is in:", list));
                    stored.erase(in.destination);
                }
            }
            else if (!in.destination.empty())
                fail("C15:failed:destination", cat(e.item.desc(), " reported as ", in.result, " in '", in.destination, "'"));
            // Simple datasets may find again, in the next import, data whose import failed after writing them
            if (!bad.conf.iseg())
                stored.erase(bad.name);
            if (!stored.empty())
                fail("C15:failed:also-stored", cat(e.item.desc(), " reported as ", in.result, " in '", in.destination, "' is also in:", list));
            count("failed_outcomes_checked");
            // The items which have nothing to do with the failed dataset
            bool touched = exp[n].route == bad.name || dup == &bad || err == &bad;
            if (!touched && (in.result != exp[n].result || in.destination != exp[n].destination))
                fail("C15:failed:outcome", cat(e.item.desc(), " routed to ", exp[n].route, " reported as ", in.result, " in '", in.destination,
                                               "' instead of ", exp[n].result, " in '", exp[n].destination, "'"));
        }
        // What was there before must still be there, except if it was replaced
        for (auto& t : targets)
            if (t->store && !(t->conf.iseg() && !t->conf.replace.empty() && t->conf.replace != "no"))
                for (const auto& i : models[t.get()])
                    if (where[i.first].count(t->name) != 1)
                        fail("C15:failed:previous", cat(i.second.desc(), " was in ", t->name, " before, and now is there ", where[i.first].count(t->name), " times"));
        throw Failed("end of case"); // nothing else can be predicted
    }
};

void run_c15(Case& c)
{
    World w(c);
    w.setup();
    // Dates are relative to the end of the data, for archive ages
    time_t now = to_secs(add_seconds(w.gen.begin, w.gen.span_hours * 3600LL)) - to_secs(Time(1970, 1, 1, 0, 0, 0));
    auto o     = dataset::SessionTime::local_override(now);
    w.open();
    unsigned n = c.rng.range(1, 4);
    for (unsigned i = 0; i < n; ++i)
    {
        try
        {
            w.dispatch();
        }
        catch (Failed& f)
        {
            if (strcmp(f.what(), "end of case") != 0)
                throw;
            break;
        }
        if (c.rng.chance(40))
            w.open();
    }
    sample(w.log);
}

} // namespace

int main(int argc, const char* argv[]) { return run_main(argc, argv, {{"C15", run_c15}}); }
