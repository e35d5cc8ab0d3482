// The command line tools: arki-query and arki-mergeconf (C34), arki-scan (C35), arki-check (C36)
#include "common_ds.h"
#include "zygote.h"
#include <arki/core/cfg.h>
#include <arki/core/file.h>
#include <arki/dataset/pool.h>
#include <arki/dataset/session.h>
#include <arki/matcher.h>
#include <arki/metadata/collection.h>
#include <arki/metadata/reader.h>
#include <arki/metadata/sort.h>
#include <arki/metadata/xargs.h>
#include <arki/query.h>
#include <arki/types/reftime.h>
#include <arki/structured/json.h>
#include <arki/structured/keys.h>
#include <arki/summary/short.h>
#include <arki/types/source.h>
#include <arki/types/source/blob.h>
#include <cstring>
#include <set>
#include "sortspec.h"

using namespace vh;
using namespace arki;
namespace fs = std::filesystem;

namespace {

std::string quote(const std::string& s) { return s.size() > 600 ? s.substr(0, 300) + "..." + s.substr(s.size() - 300) : s; }

/// Split a stream of data of different formats. Returns false if there is something else in it
bool split_data(const std::string& buf, const std::set<DataFormat>& formats, std::vector<Item>& dest)
{
    size_t pos = 0;
    while (pos < buf.size())
    {
        if (buf[pos] == '\n')
        {
            ++pos;
            continue;
        }
        bool found = false;
        for (auto f : formats)
        {
            Item item;
            size_t max = buf.size() - pos;
            if (f == DataFormat::VM2)
            {
                auto nl = buf.find('\n', pos);
                if (nl != std::string::npos)
                    max = nl - pos;
            }
            size_t len = parse_payload(f, (const uint8_t*)buf.data() + pos, max, item);
            if (!len)
                continue;
            dest.push_back(item);
            pos += len;
            found = true;
            break;
        }
        if (!found)
            return false;
    }
    return true;
}

std::vector<unsigned> uids_of(const std::vector<Item>& items)
{
    std::vector<unsigned> res;
    for (const auto& i : items)
        res.push_back(i.uid);
    return res;
}

std::string list(const std::vector<unsigned>& v)
{
    std::string res;
    for (auto u : v)
        res += cat(" ", u);
    return res.empty() ? " none" : res;
}

template <typename T> std::vector<T> sorted(std::vector<T> v)
{
    std::sort(v.begin(), v.end());
    return v;
}

std::vector<std::shared_ptr<Metadata>> read_mds(const std::string& buf, const fs::path& dir)
{
    auto p = dir / ".mds";
    write_text(p, buf);
    std::vector<std::shared_ptr<Metadata>> res;
    core::File in(p, O_RDONLY);
    metadata::BinaryReader reader(in);
    reader.read_all([&](std::shared_ptr<Metadata> md) {
        res.push_back(md);
        return true;
    });
    fs::remove(p);
    return res;
}

struct Cli
{
    Case& c;
    Rng& rng;
    std::vector<std::unique_ptr<Store>> stores; // sorted by name
    std::map<std::string, std::shared_ptr<core::cfg::Section>> cfgs;
    std::set<DataFormat> formats;
    std::string log;
    bool damaged = false;

    explicit Cli(Case& c) : c(c), rng(c.rng) {}

    void add_store(ConfGen& cg, const std::string& name, unsigned& uid, const History& h, bool mixed = false)
    {
        auto conf = cg.make(rng);
        conf.name = name;
        fs::create_directories(c.dir / name);
        auto s          = std::make_unique<Store>(rng, conf, c.dir / name);
        s->gen.next_uid = uid;
        History hist(h);
        if (mixed)
            build_mixed(*s);
        else
            hist.run(*s);
        uid = s->gen.next_uid + 1000;
        auto sec = std::make_shared<core::cfg::Section>(*conf.cfg(c.dir / name));
        if (rng.chance(60))
            sec->set("restrict", rng.pick({"a", "b", "a, b", "b,c", "ab", ""}));
        if (rng.chance(70))
            sec->set("postprocess", "same, size, fail, late");
        if (rng.chance(30))
            sec->set("filter", "origin:GRIB1 or BUFR");
        write_text(c.dir / name / "config", sec->to_string());
        cfgs[name] = sec;
        formats.insert(conf.format);
        log += cat(log.empty() ? "" : "; ", conf.desc(), ": ", s->log);
        stores.emplace_back(std::move(s));
    }

    bool allowed(const std::string& name, const std::string& restrict_to) const
    {
        auto split = [](const std::string& s) {
            std::set<std::string> res;
            std::string cur;
            for (char ch : s + ",")
                if (ch == ',' || ch == ' ')
                {
                    if (!cur.empty())
                        res.insert(cur);
                    cur.clear();
                }
                else
                    cur += ch;
            return res;
        };
        auto want = split(restrict_to);
        if (want.empty())
            return true;
        for (const auto& o : split(cfgs.at(name)->value("restrict")))
            if (want.count(o))
                return true;
        return false;
    }

    /// Arguments which select datasets, each of them once. Returns the names of the selected datasets
    std::set<std::string> select(std::vector<std::string>& args, std::vector<std::string>& sources, bool use_restrict = true)
    {
        std::set<std::string> names;
        for (const auto& s : stores)
            if (rng.chance(75))
                names.insert(s->conf.name);
        if (names.empty())
            names.insert(stores[rng.below(stores.size())]->conf.name);
        std::vector<std::string> in_config;
        for (const auto& n : names)
            if (rng.chance(50))
                in_config.push_back(n);
            else
                sources.push_back(rng.chance(70) ? n : (c.dir / n).native());
        rng.shuffle(sources);
        for (unsigned part = 0; part < 2 && !in_config.empty(); ++part)
        {
            core::cfg::Sections sec;
            auto rest = in_config;
            if (part == 0 && rng.chance(50))
                rest.resize(rng.range(1, rest.size()));
            in_config.erase(in_config.begin(), in_config.begin() + rest.size());
            for (const auto& n : rest)
                sec.emplace(n, cfgs.at(n));
            auto p = c.dir / cat("conf", part);
            write_text(p, sec.to_string());
            args.push_back(rng.chance(50) ? "-C" : "--config");
            args.push_back(p);
        }
        if (use_restrict && rng.chance(30))
        {
            auto r = rng.pick({"a", "b", "c", "a,c", "b, a", ""});
            args.push_back(cat("--restrict=", r));
            std::set<std::string> res;
            for (const auto& n : names)
                if (allowed(n, r))
                    res.insert(n);
            count("restricted");
            return res;
        }
        return names;
    }

    Tool run(const std::vector<std::string>& argv, const std::string& in = "")
    {
        auto t = Tool::run(c.dir, argv, in);
        if (t.rc < 0)
            fail("crash", cat(t.cmd, " killed by signal ", -t.rc, ": ", quote(t.err), "; ", log));
        count("commands");
        return t;
    }

    std::string desc(const Tool& t) const { return cat(t.cmd, " (exit status ", t.rc, ") ", quote(t.err), "; ", log); }

    Store& store(const std::string& name)
    {
        for (auto& s : stores)
            if (s->conf.name == name)
                return *s;
        throw std::runtime_error("no store " + name);
    }
};

/*
 * C34
 */

std::string sorted_chars(std::string s)
{
    std::sort(s.begin(), s.end());
    return s;
}

void check_query(Cli& n)
{
    auto& rng = n.rng;
    std::vector<std::string> args, sources;
    auto names = n.select(args, sources);
    ExprGen eg(rng);
    for (const auto& s : n.stores)
        for (const auto& i : s->live)
            eg.pool.push_back(i.second);
    if (eg.pool.empty())
        eg.pool.push_back(n.stores[0]->gen.make());
    auto expr = rng.chance(25) ? Expr{"", [](const Item&) { return true; }} : eg.make();

    // Damage a dataset
    std::set<unsigned> damaged_uids;
    bool damaged = false;
    std::string mode = rng.pick({"data", "data", "inline", "inline", "md", "yaml", "json", "summary", "summary-yaml", "summary-short", "tar", "postproc"});
    bool merged = mode.compare(0, 7, "summary") && mode != "postproc" && rng.chance(15);
    std::vector<std::string> argv{"arki-query"};
    argv.insert(argv.end(), args.begin(), args.end());
    std::string sort;
    if (mode == "data" || mode == "inline" || mode == "md" || mode == "yaml" || mode == "json")
        if (!merged && rng.chance(30))
        {
            sort = gen_sort(rng).text;
            argv.push_back("--sort=" + sort);
        }
    std::string command, restrict_types;
    if (mode == "data" || mode == "inline" || mode == "yaml" || mode == "json")
        argv.push_back("--" + mode);
    else if (mode == "summary" || mode == "summary-short")
        argv.push_back("--" + mode);
    else if (mode == "summary-yaml")
    {
        argv.push_back("--summary");
        argv.push_back(rng.pick({"--yaml", "--dump"}));
    }
    else if (mode == "tar")
        argv.push_back("--archive=tar");
    else if (mode == "postproc")
    {
        command = rng.pick({"same", "same", "fail", "notallowed", "late", "size"});
        argv.push_back(rng.chance(50) ? "--postproc=" + command : "-p" + command);
    }
    bool short_json = mode == "summary-short" && rng.chance(40);
    if (short_json)
        argv.push_back("--json");
    if (mode == "summary" && rng.chance(40))
    {
        restrict_types = rng.pick({"origin", "product,level", "reftime", "origin, area", "quantity,task,run"});
        argv.push_back("--summary-restrict=" + restrict_types);
    }
    if (merged)
        argv.push_back("--merged");
    bool full = rng.chance(6);
    fs::path out;
    if (full)
        argv.push_back("--output=/dev/full");
    else if (rng.chance(25))
    {
        out = n.c.dir / "out";
        write_text(out, "previous contents");
        argv.push_back("-o");
        argv.push_back(out);
    }
    if (rng.chance(15))
    {
        write_text(n.c.dir / "query", expr.text + (rng.chance(50) ? "\n" : ""));
        argv.push_back("--file=" + (n.c.dir / "query").native());
    }
    else
        argv.push_back(expr.text);
    argv.insert(argv.end(), sources.begin(), sources.end());

    // The same, from the library
    std::vector<std::vector<unsigned>> by_dataset;
    std::vector<std::string> texts;
    Summary summary;
    if (mode != "postproc" && rng.chance(12) && !names.empty() && !full)
    {
        auto& s = n.store(*std::next(names.begin(), rng.below(names.size())));
        for (const auto& rel : s.segments_on_disk())
        {
            auto p = s.path / rel;
            if (!fs::is_regular_file(p) || !fs::file_size(p))
                continue;
            struct stat st;
            stat(p.c_str(), &st);
            fs::resize_file(p, rng.below(fs::file_size(p)));
            struct timespec ts[2] = {st.st_atim, st.st_mtim};
            utimensat(AT_FDCWD, p.c_str(), ts, 0);
            damaged = true;
        }
        for (const auto& i : s.live)
            damaged_uids.insert(i.first);
    }
    bool lib_failed = false;
    unsigned matching = 0;
    for (const auto& name : names)
    {
        auto& s = n.store(name);
        for (const auto& i : s.live)
            matching += expr.match(i.second);
        if (damaged)
            s.reopen();
        auto reader  = s.session->dataset(*n.cfgs.at(name))->create_reader();
        auto matcher = s.session->matcher(expr.text);
        auto& expected = by_dataset.emplace_back();
        auto& text     = texts.emplace_back();
        try
        {
            if (mode.compare(0, 7, "summary") == 0)
                reader->query_summary(matcher, summary);
            else if (mode != "postproc")
            {
                query::Data q(matcher, mode == "data" || mode == "inline" || mode == "tar");
                if (!sort.empty())
                    q.sorter = metadata::sort::Compare::parse(sort);
                reader->query_data(q, [&](std::shared_ptr<Metadata> md) {
                    if (q.with_data)
                    {
                        // A damaged segment gives an error before anything else
                        auto item = item_from_data(md->source().format, md->get_data().read());
                        expected.push_back(item.uid);
                        md->drop_cached_data();
                    }
                    else
                    {
                        md->make_absolute();
                        expected.push_back(0);
                    }
                    if (mode == "yaml")
                        text += md->to_yaml() + "\n";
                    else if (mode == "json")
                    {
                        std::stringstream ss;
                        structured::JSON json(ss);
                        md->serialise(json, structured::keys_json);
                        text += ss.str();
                    }
                    return true;
                });
            }
        }
        catch (std::exception& e)
        {
            lib_failed = true;
        }
    }
    auto t = n.run(argv);
    count("evals");
    distinct(cat(n.c.index, " ", t.cmd));
    auto got = out.empty() ? t.out : read_text(out);
    // Datasets come one after the other, in any order
    auto arrange = [&](auto starts_with) {
        std::vector<unsigned> order;
        std::set<unsigned> todo;
        for (unsigned i = 0; i < by_dataset.size(); ++i)
            todo.insert(i);
        size_t pos = 0;
        while (!todo.empty())
        {
            auto next = std::find_if(todo.begin(), todo.end(), [&](unsigned i) { return starts_with(i, pos); });
            if (next == todo.end())
                break;
            order.push_back(*next);
            todo.erase(next);
        }
        order.insert(order.end(), todo.begin(), todo.end());
        return order;
    };
    std::vector<unsigned> expected;
    if (names.empty())
    {
        if (t.rc == 0 || !got.empty())
            if (out.empty())
                violation("no-datasets", n.desc(t));
        count("no_datasets");
        return;
    }
    if (mode == "postproc")
    {
        count("postprocessed");
        if (names.size() > 1)
        {
            if (t.rc == 0)
                violation("postproc-many", n.desc(t));
            return;
        }
        auto& s = n.store(*names.begin());
        std::vector<uint8_t> buf;
        std::string err;
        try
        {
            query::Bytes q;
            q.setPostprocess(s.session->matcher(expr.text), command);
            auto o = StreamOutput::create(buf);
            s.session->dataset(*n.cfgs.at(s.conf.name))->create_reader()->query_bytes(q, *o);
        }
        catch (std::exception& e)
        {
            err = e.what();
        }
        if (err.empty() && full && buf.size())
        {
            if (t.rc == 0)
                violation("full-not-reported", n.desc(t));
            count("full");
        }
        else if (err.empty() != (t.rc == 0))
            violation(err.empty() ? "fails" : "failure-not-reported", cat(n.desc(t), " library: ", err));
        else if (err.empty() && !full && got != std::string(buf.begin(), buf.end()))
            violation("postproc-output", cat(n.desc(t), " output ", quote(got)));
        else if (!err.empty())
            count("failures_reported");
        return;
    }
    if (full)
    {
        // Summaries are never empty
        if (t.rc == 0 && (matching || mode == "summary"))
            violation("full-not-reported", cat(n.desc(t), " with ", matching, " items"));
        count("full");
        return;
    }
    if (lib_failed)
    {
        if (t.rc == 0)
            violation("failure-not-reported", n.desc(t));
        count("failures_reported");
        if (mode == "tar" || merged)
            return;
        // What is in other datasets has to be there
        std::vector<Item> items;
        if (mode == "data")
        {
            std::set<unsigned> found;
            // What comes from the damaged dataset can be cut
            for (size_t pos = 0; pos < got.size(); ++pos)
                for (auto f : n.formats)
                {
                    Item item;
                    size_t max = got.size() - pos;
                    if (f == DataFormat::VM2)
                        max = std::min(max, got.find('\n', pos) - pos);
                    if (parse_payload(f, (const uint8_t*)got.data() + pos, max, item))
                        found.insert(item.uid);
                }
            for (const auto& name : names)
                for (const auto& i : n.store(name).live)
                    if (expr.match(i.second) && !damaged_uids.count(i.first) && !found.count(i.first))
                        violation("skipped-after-failure", cat("item ", i.first, " is not in the output of ", n.desc(t)));
            count("others_checked");
        }
        return;
    }
    if (damaged && mode.compare(0, 7, "summary") == 0)
        return;
    if (t.rc != 0)
        fail("fails", n.desc(t));
    count(cat("query_", mode));
    if (mode == "data" || mode == "inline")
    {
        std::vector<Item> items;
        if (mode == "data")
        {
            if (!split_data(got, n.formats, items))
                fail("output", cat("cannot split the output of ", n.desc(t), ": ", quote(got)));
        }
        else
            for (auto& md : read_mds(got, n.c.dir))
            {
                items.push_back(item_from_data(md->source().format, md->get_data().read()));
                auto d = compare_md(items.back(), *md);
                if (!d.empty())
                    violation("inline-metadata", cat(d, "; ", n.desc(t)));
            }
        auto g = uids_of(items);
        for (auto i : arrange([&](unsigned i, size_t& pos) {
                 const auto& e = by_dataset[i];
                 if (pos + e.size() > g.size() || !std::equal(e.begin(), e.end(), g.begin() + pos))
                     return false;
                 pos += e.size();
                 return true;
             }))
            expected.insert(expected.end(), by_dataset[i].begin(), by_dataset[i].end());
        if (merged ? sorted(g) != sorted(expected) : g != expected)
            violation(cat("items:", mode), cat("got", list(g), " instead of", list(expected), "; ", n.desc(t)));
        if (!damaged && g.size() != matching)
            violation(cat("items:", mode), cat("got", list(g), ", but ", matching, " items match; ", n.desc(t)));
        if (merged && mode == "inline")
            for (size_t i = 1; i < items.size(); ++i)
                if (to_secs(items[i].rt) < to_secs(items[i - 1].rt))
                {
                    violation("merged-order", n.desc(t));
                    break;
                }
        count("query_items", g.size());
    }
    else if (mode == "md")
    {
        auto mds = read_mds(got, n.c.dir);
        std::set<std::string> seen;
        for (auto& md : mds)
        {
            seen.insert(md->source().to_string());
            if (md->source().style() != types::Source::Style::BLOB || !fs::path(md->sourceBlob().absolutePathname()).is_absolute())
                violation("md-source", cat(md->source().to_string(), "; ", n.desc(t)));
        }
        if (mds.size() != matching || seen.size() != mds.size())
            violation("items:md", cat(mds.size(), " metadata (", seen.size(), " different) instead of ", matching, "; ", n.desc(t)));
        count("query_items", mds.size());
    }
    else if (mode == "yaml" || mode == "json")
    {
        std::string text;
        for (auto i : arrange([&](unsigned i, size_t& pos) {
                 if (got.compare(pos, texts[i].size(), texts[i]))
                     return false;
                 pos += texts[i].size();
                 return true;
             }))
        {
            text += texts[i];
            expected.insert(expected.end(), by_dataset[i].begin(), by_dataset[i].end());
        }
        if (merged ? sorted_chars(got) != sorted_chars(text) : got != text)
            violation(mode, cat(quote(got), " instead of ", quote(text), "; ", n.desc(t)));
        count("query_items", expected.size());
    }
    else if (mode == "summary" || mode == "summary-yaml")
    {
        Summary exp;
        if (restrict_types.empty())
            exp.add(summary);
        else
            exp.add(summary, types::parse_code_names(restrict_types));
        Summary s;
        if (mode == "summary")
        {
            auto p = n.c.dir / ".summary";
            write_text(p, got);
            s.read_file(p);
            fs::remove(p);
        }
        else
        {
            auto lr = core::LineReader::from_chars(got.data(), got.size());
            s.readYaml(*lr, "output");
        }
        auto d = diff_summaries(summary_map(exp), summary_map(s));
        if (!d.empty())
            violation("summary", cat(d, "; ", n.desc(t)));
        // Summaries of segments cannot tell apart the items in an interval of reference times
        if (expr.text.find("reftime") == std::string::npos ? s.count() != matching : s.count() < matching)
            violation("summary-count", cat(s.count(), " items instead of ", matching, "; ", n.desc(t)));
        count("summaries");
    }
    else if (mode == "summary-short")
    {
        summary::Short c;
        summary.visit(c);
        std::stringstream ss;
        if (short_json)
        {
            structured::JSON json(ss);
            c.serialise(json, structured::keys_json);
        }
        else
            c.write_yaml(ss);
        if (got != ss.str())
            violation("summary-short", cat(quote(got), " instead of ", quote(ss.str()), "; ", n.desc(t)));
        count("summaries");
    }
    else if (mode == "tar")
    {
        for (const auto& e : by_dataset)
            expected.insert(expected.end(), e.begin(), e.end());
        std::vector<unsigned> g;
        size_t pos = 0;
        while (pos + 512 <= got.size() && got[pos])
        {
            std::string name = got.substr(pos, strnlen(got.data() + pos, 100));
            char type        = got[pos + 156];
            size_t size      = strtoul(got.substr(pos + 124, 12).c_str(), nullptr, 8);
            pos += 512;
            if ((type == '0' || type == 0) && name.find("metadata.md") == std::string::npos)
            {
                std::vector<Item> items;
                if (!split_data(got.substr(pos, size), n.formats, items) || items.size() != 1)
                    fail("tar", cat(name, " in the archive does not have an item; ", n.desc(t)));
                g.push_back(items[0].uid);
            }
            pos += (size + 511) / 512 * 512;
        }
        if (sorted(g) != sorted(expected))
            violation("items:tar", cat("got", list(g), " instead of", list(expected), "; ", n.desc(t)));
        count("query_items", g.size());
    }
}

void check_bad_commands(Cli& n)
{
    auto& rng  = n.rng;
    auto name  = n.stores[0]->conf.name;
    auto good  = n.run({"arki-query", "--data", "", name});
    if (good.rc)
        violation("fails", n.desc(good));
    std::vector<std::vector<std::string>> bad{
        {"arki-query", "--data", "origin:NONE,", name},
        {"arki-query", "", "does-not-exist"},
        {"arki-query", "--data", "", name, "does-not-exist"},
        {"arki-query", "--data", "-C", "does-not-exist", ""},
        {"arki-query", "--sort=nothing", "", name},
        {"arki-query", "--sort=day:origin,what", "", name},
        {"arki-query", "--file=does-not-exist", name},
        {"arki-query", "--output=no/such/dir", "", name},
        {"arki-query", "--summary", "--summary-restrict=whatever", "", name},
        {"arki-query", "--archive=arj", "", name},
        {"arki-query", "--data", "--inline", "", name},
        {"arki-query", "--qmacro=nosuchmacro", "x", name},
        {"arki-query", ""},
        {"arki-mergeconf", "does-not-exist"},
        {"arki-mergeconf"},
        {"arki-mergeconf", "-o", "no/such/file", name},
        {"arki-mergeconf", "-o", "/dev/full", name},
        {"arki-mergeconf", "-C", "does-not-exist"},
        {"arki-check", "does-not-exist"},
        {"arki-check"},
        {"arki-check", "--filter=reftime:what", name},
        {"arki-check", "--remove=does-not-exist", name},
        {"arki-check", "-C", "does-not-exist"},
        {"arki-scan", "does-not-exist.grib"},
        {"arki-scan", "--dispatch=does-not-exist", name},
        {"arki-scan", "--files=does-not-exist"},
        {"arki-dump", "does-not-exist"},
        {"arki-dump", "--query", "origin:NONE,"},
    };
    auto before = snapshot(n.stores[0]->path, true, true);
    for (unsigned i = 0; i < 4; ++i)
    {
        auto t = n.run(bad[rng.below(bad.size())]);
        count("bad_commands");
        if (t.rc == 0)
            violation("failure-not-reported", n.desc(t));
        if (t.err.find("NameError") != std::string::npos || t.err.find("AttributeError") != std::string::npos ||
            t.err.find("UnboundLocalError") != std::string::npos)
            violation("broken-tool", n.desc(t));
    }
    // Summaries of queries are cached
    auto after = snapshot(n.stores[0]->path, true, true);
    for (auto* sn : {&before, &after})
        for (auto i = sn->begin(); i != sn->end();)
            i = i->first.compare(0, 10, ".summaries") == 0 || i->first == "summary" ? sn->erase(i) : std::next(i);
    auto d = diff_snapshots(before, after);
    if (!d.empty())
        violation("bad-command-changes", cat(d, "; ", n.log));
}

void check_mergeconf(Cli& n)
{
    auto& rng = n.rng;
    std::vector<std::string> args, sources;
    auto names = n.select(args, sources);
    std::vector<std::string> argv{"arki-mergeconf"};
    argv.insert(argv.end(), args.begin(), args.end());
    // System datasets
    if (rng.chance(30))
    {
        bool ignore = rng.chance(50);
        bool have   = false;
        for (const char* sys : {"error", "duplicates"})
            if (rng.chance(60))
            {
                fs::create_directories(n.c.dir / sys);
                auto sec = std::make_shared<core::cfg::Section>();
                sec->set("type", sys);
                sec->set("step", "daily");
                sec->set("path", (n.c.dir / sys).native());
                sec->set("name", sys);
                write_text(n.c.dir / sys / "config", sec->to_string());
                n.cfgs[sys] = sec;
                sources.push_back(sys);
                bool restricted = false;
                for (const auto& a : argv)
                    if (a.compare(0, 11, "--restrict=") == 0 && !n.allowed(sys, a.substr(11)))
                        restricted = true;
                if (!ignore && !restricted)
                    names.insert(sys);
                have = true;
            }
        if (ignore)
            argv.push_back("--ignore-system-datasets");
        if (have)
            count("system_datasets");
    }
    fs::path out;
    if (rng.chance(30))
    {
        out = n.c.dir / "out";
        argv.push_back("--output=" + out.native());
    }
    bool bad_filter = rng.chance(12) && !names.empty();
    std::string broken;
    if (bad_filter)
    {
        broken = *names.begin();
        core::cfg::Section sec(*n.cfgs.at(broken));
        sec.set("name", broken + "x");
        sec.set("filter", "origin:WHAT,3");
        if (rng.chance(50))
        {
            fs::create_directories(n.c.dir / (broken + "x"));
            write_text(n.c.dir / (broken + "x") / "config", sec.to_string());
            sources.push_back(broken + "x");
        }
        else
        {
            core::cfg::Sections s;
            s.emplace(broken + "x", std::make_shared<core::cfg::Section>(sec));
            write_text(n.c.dir / "broken", s.to_string());
            argv.push_back("-C");
            argv.push_back(n.c.dir / "broken");
        }
    }
    argv.insert(argv.end(), sources.begin(), sources.end());
    auto t = n.run(argv);
    count("evals");
    count("mergeconfs");
    distinct(cat(n.c.index, " ", t.cmd));
    if (t.err.find("NameError") != std::string::npos || t.err.find("AttributeError") != std::string::npos)
        violation("broken-tool", n.desc(t));
    if (names.empty() || bad_filter)
    {
        if (t.rc == 0)
            violation(bad_filter ? "bad-filter-accepted" : "no-datasets", n.desc(t));
        count(bad_filter ? "bad_filters" : "no_datasets");
        if (bad_filter && (t.err.find(broken + "x") == std::string::npos || t.err.find("Traceback") != std::string::npos))
            violation("bad-filter-message", n.desc(t));
        return;
    }
    if (t.rc)
        fail("fails", n.desc(t));
    auto got = core::cfg::Sections::parse(out.empty() ? t.out : read_text(out), "output");
    std::set<std::string> found;
    for (const auto& s : *got)
    {
        found.insert(s.first);
        if (!names.count(s.first))
            continue;
        const auto& exp = *n.cfgs.at(s.first);
        for (const auto& v : exp)
            if (!v.second.empty() && s.second->value(v.first) != v.second && v.first != "path")
                violation("config-value", cat(s.first, ": ", v.first, " is '", s.second->value(v.first), "' instead of '", v.second,
                                              "'; ", n.desc(t)));
        for (const auto& v : *s.second)
            if (!exp.has(v.first))
                violation("config-extra", cat(s.first, ": ", v.first, " = ", v.second, "; ", n.desc(t)));
        if (!fs::equivalent(s.second->value("path"), exp.value("path")) || !fs::path(s.second->value("path")).is_absolute())
            violation("config-path", cat(s.first, ": ", s.second->value("path"), "; ", n.desc(t)));
        count("configs");
    }
    if (found != names)
        violation("config-datasets", cat(got->to_string(), " does not have the datasets asked; ", n.desc(t)));
}

#include "h_cli_archive.h"

void c34(Case& c)
{
    setenv("ARKI_POSTPROC", Zygote::postproc_dir().c_str(), 1);
    Cli n(c);
    auto& rng = c.rng;
    ConfGen cg;
    cg.unique_by_task = true;
    cg.dir_segments   = 0;
    unsigned uid = 1, nds = rng.range(1, 3);
    History h;
    h.max_batches = 2;
    h.max_items   = 10;
    for (unsigned i = 0; i < nds; ++i)
        n.add_store(cg, cat("ds", i), uid, h);
    context(n.log);
    sample(n.log);
    if (rng.chance(25))
        check_bad_commands(n);
    if (rng.chance(40))
        check_mergeconf(n);
    if (rng.chance(12))
        check_archive(n);
    unsigned rounds = rng.range(2, 5);
    for (unsigned i = 0; i < rounds; ++i)
    {
        check_query(n);
        // Damage is not repaired
        bool clean = true;
        for (const auto& s : n.stores)
            if (!s->live.empty())
                try
                {
                    s->reopen();
                    s->query("");
                }
                catch (std::exception&)
                {
                    clean = false;
                }
        if (!clean)
            break;
    }
}

#include "h_cli_scan.h"
#include "h_cli_misc.h"

} // namespace

int main(int argc, const char* argv[]) { return run_main(argc, argv, {{"C34", c34}, {"C35", c35}, {"C36", c36}, {"C37", c37}}); }
