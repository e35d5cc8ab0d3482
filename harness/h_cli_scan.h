// Included by h_cli.cc
#pragma once
#include <arki/dataset/reporter.h>
#include <arki/dataset/segmented.h>
#include <sstream>

/*
 * C36: arki-check does what the library does
 */

void copy_tree(const fs::path& from, const fs::path& to)
{
    fs::remove_all(to);
    fs::create_directories(to.parent_path());
    fs::copy(from, to, fs::copy_options::recursive | fs::copy_options::copy_symlinks);
    for (const auto& e : fs::recursive_directory_iterator(from))
    {
        struct stat st;
        if (lstat(e.path().c_str(), &st))
            continue;
        struct timespec ts[2] = {st.st_atim, st.st_mtim};
        utimensat(AT_FDCWD, (to / e.path().lexically_relative(from)).c_str(), ts, AT_SYMLINK_NOFOLLOW);
    }
}

/// Something for a check to find
void damage(Store& s, Rng& rng, std::string& log)
{
    auto segs = s.segments_on_disk();
    if (segs.empty())
        return;
    auto rel = *std::next(segs.begin(), rng.below(segs.size()));
    auto abs = s.path / rel;
    switch (rng.below(7))
    {
        case 0:
            for (const char* ext : {".index", ".metadata", ".summary"})
                fs::remove(abs.native() + ext);
            log += cat("no sidecars of ", rel, "; ");
            break;
        case 1: {
            struct timespec ts[2] = {{1900000000, 0}, {1900000000, 0}};
            utimensat(AT_FDCWD, abs.c_str(), ts, 0);
            log += cat("touched ", rel, "; ");
            break;
        }
        case 2:
            if (fs::is_regular_file(abs) && fs::file_size(abs))
            {
                fs::resize_file(abs, fs::file_size(abs) - 1);
                log += cat("truncated ", rel, "; ");
            }
            break;
        case 3:
            if (fs::is_regular_file(abs) && rel.find(".gz") == std::string::npos && rel.find(".zip") == std::string::npos)
            {
                write_text(abs, read_text(abs) + "\n\n\n\n");
                log += cat("appended to ", rel, "; ");
            }
            break;
        case 4:
            fs::remove_all(abs);
            log += cat("deleted ", rel, "; ");
            break;
        case 5:
            if (fs::exists(s.path / "index.sqlite"))
            {
                fs::remove(s.path / "index.sqlite");
                log += "no index; ";
            }
            fs::remove(s.path / "MANIFEST");
            break;
        case 6:
            fs::remove_all(s.path / ".summaries");
            write_text(s.path / "needs-check-do-not-pack", "");
            log += "flagged; ";
            break;
    }
}

std::multiset<std::string> lines(std::string text, const std::string& from, const std::string& to)
{
    std::multiset<std::string> res;
    for (size_t p = 0; (p = text.find(from, p)) != std::string::npos; p += to.size())
        text.replace(p, from.size(), to);
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line))
        if (!line.empty())
            res.insert(line);
    return res;
}

std::string diff_lines(const std::multiset<std::string>& exp, const std::multiset<std::string>& got)
{
    std::string res;
    for (const auto& l : exp)
        if (exp.count(l) != got.count(l))
            res += cat(" missing: ", l);
    for (const auto& l : got)
        if (exp.count(l) != got.count(l))
            res += cat(" extra: ", l);
    return res;
}

/// Items found in a dataset; sets err if it cannot be read
std::vector<unsigned> items_of(const core::cfg::Section& cfg, const std::string& query, std::string& err)
{
    std::vector<unsigned> res;
    auto session = std::make_shared<dataset::Session>(false);
    try
    {
        session->dataset(cfg)->create_reader()->query_data(query::Data(session->matcher(query), true), [&](std::shared_ptr<Metadata> md) {
            res.push_back(item_from_data(md->source().format, md->get_data().read()).uid);
            return true;
        });
    }
    catch (std::exception& e)
    {
        err = e.what();
    }
    return res;
}

void check_op(Cli& n)
{
    auto& rng = n.rng;
    auto base = n.c.dir;
    std::vector<std::string> args, sources;
    auto names = n.select(args, sources);
    std::vector<std::string> argv{"arki-check"};
    argv.insert(argv.end(), args.begin(), args.end());
    ExprGen eg(rng);
    for (const auto& s : n.stores)
        for (const auto& i : s->live)
            eg.pool.push_back(i.second);
    if (eg.pool.empty())
        eg.pool.push_back(n.stores[0]->gen.make());
    std::string op = rng.pick({"check", "check", "check", "repack", "repack", "tar", "zip", "compress", "compress", "state", "remove-old",
                               "remove-all", "remove", "remove", "unarchive"});
    // What damaged datasets have can change while they are used
    if (op == "remove" && n.damaged)
        op = "check";
    bool fix = rng.chance(65), accurate = rng.chance(25), online = true, offline = true;
    int group = 512;
    std::string unarchive;
    if (fix)
        argv.push_back(rng.chance(50) ? "-f" : "--fix");
    if (accurate)
        argv.push_back("--accurate");
    if (op == "repack")
        argv.push_back(rng.chance(50) ? "-r" : "--repack");
    else if (op == "compress")
    {
        group = rng.pick({512, 512, 0, 0, 1, 3});
        if (group == 512)
            argv.push_back("--compress");
        else
            argv.push_back(cat("--compress=", group));
        // So that a dataset is not taken for the argument
        argv.push_back("--accurate");
        accurate = true;
    }
    else if (op == "unarchive")
    {
        std::vector<std::string> rels;
        for (const auto& s : n.stores)
            for (const auto& i : s->segments_on_disk())
                if (i.compare(0, 14, ".archive/last/") == 0)
                    rels.push_back(i.substr(14));
        if (rels.empty())
            op = "check";
        else
        {
            // The argument does not have the extensions of compression
            unarchive = rng.pick(rels);
            for (const char* ext : {".gz", ".tar", ".zip"})
                if (unarchive.size() > strlen(ext) && unarchive.compare(unarchive.size() - strlen(ext), std::string::npos, ext) == 0)
                    unarchive.resize(unarchive.size() - strlen(ext));
            argv.push_back("--unarchive=" + unarchive);
        }
    }
    else if (op != "check" && op != "remove")
        argv.push_back("--" + op);
    switch (rng.below(6))
    {
        case 0: argv.push_back("--online"); offline = false; break;
        case 1: argv.push_back("--offline"); online = false; break;
        case 2:
            argv.push_back("--online");
            argv.push_back("--offline");
            break;
        default:
            // As the documentation of the options says
            if (op == "repack" || op == "remove-old" || op == "remove-all")
                offline = false;
            else if (op == "tar" || op == "zip" || op == "compress")
                online = false;
    }
    Expr filter;
    if (op != "remove" && op != "unarchive" && rng.chance(30))
    {
        filter.text = "reftime:" + eg.reftime_part().text;
        argv.push_back("--filter=" + filter.text);
        count("filtered");
    }
    if (op != "remove" && rng.chance(40))
        for (auto& s : n.stores)
            if (rng.chance(60))
            {
                damage(*s, rng, n.log);
                n.damaged = true;
            }
    context(n.log);

    // What to remove, out of a query of some datasets
    std::set<std::string> remove_from;
    bool removable = true;
    std::map<std::string, std::set<unsigned>> to_remove;
    if (op == "remove")
    {
        auto expr = eg.make();
        std::vector<std::string> q{"arki-query", "-o", base / "todo", expr.text};
        for (const auto& s : n.stores)
            if (names.count(s->conf.name) ? rng.chance(80) : rng.chance(8))
            {
                remove_from.insert(s->conf.name);
                q.push_back(s->conf.name);
            }
        if (remove_from.empty())
            return;
        auto t = n.run(q);
        if (t.rc)
            fail("query-fails", n.desc(t));
        for (const auto& name : remove_from)
        {
            std::string err;
            for (auto u : items_of(*n.cfgs.at(name), expr.text, err))
                to_remove[name].insert(u);
            if (!names.count(name) && !to_remove[name].empty())
                removable = false;
        }
        for (const auto& md : read_mds(read_text(base / "todo"), base))
        {
            auto f = md->sourceBlob().filename.native();
            if (md->sourceBlob().absolutePathname().native().find(".archive") != std::string::npos)
                return;
            auto p = md->sourceBlob().absolutePathname().native();
            for (const char* ext : {".gz", ".tar", ".zip"})
                if (fs::exists(p + ext))
                    return;
        }
        argv.push_back("--remove=" + (base / "todo").native());
        if (rng.chance(30))
        {
            // Removing is not affected
            argv.push_back("--accurate");
        }
    }
    argv.insert(argv.end(), sources.begin(), sources.end());

    std::map<std::string, std::map<std::string, std::string>> before;
    for (auto& s : n.stores)
    {
        copy_tree(s->path, base / "ref" / s->conf.name);
        before[s->conf.name] = snapshot(s->path, true, true);
    }

    // The library, on the copies
    std::string lib_out, lib_err;
    std::map<std::string, std::shared_ptr<core::cfg::Section>> ref;
    for (const auto& s : n.stores)
    {
        const auto& name = s->conf.name;
        auto sec         = std::make_shared<core::cfg::Section>(*n.cfgs.at(name));
        sec->set("path", (base / "ref" / name).native());
        ref[name] = sec;
        if (!names.count(name) || op == "remove" || !lib_err.empty())
            continue;
        auto session  = std::make_shared<dataset::Session>(false);
        std::stringstream out;
        {
            dataset::CheckerConfig opts(std::make_shared<dataset::OstreamReporter>(out), !fix);
            opts.online   = online;
            opts.offline  = offline;
            opts.accurate = accurate;
            if (!filter.text.empty())
                opts.segment_filter = session->matcher(filter.text);
            try
            {
                auto checker = session->dataset(*sec)->create_checker();
                if (op == "check")
                    checker->check(opts);
                else if (op == "repack")
                    checker->repack(opts);
                else if (op == "tar")
                    checker->tar(opts);
                else if (op == "zip")
                    checker->zip(opts);
                else if (op == "compress")
                    checker->compress(opts, group);
                else if (op == "state")
                    checker->state(opts);
                else if (op == "remove-old")
                    checker->remove_old(opts);
                else if (op == "remove-all")
                    checker->remove_all(opts);
                else if (op == "unarchive")
                {
                    auto sc  = std::dynamic_pointer_cast<dataset::segmented::Checker>(checker);
                    auto seg = sc->dataset().segment_session->segment_from_relpath(unarchive);
                    sc->segment(seg)->unarchive();
                }
            }
            catch (std::exception& e)
            {
                lib_err = e.what();
            }
        }
        lib_out += out.str();
    }

    auto t = n.run(argv);
    count("evals");
    count(cat("check_", op));
    if (fix)
        count("fixed");
    distinct(cat(n.c.index, " ", t.cmd));
    if (t.err.find("NameError") != std::string::npos || t.err.find("AttributeError") != std::string::npos)
        violation("broken-tool", n.desc(t));
    if (names.empty())
    {
        if (t.rc == 0)
            violation("no-datasets", n.desc(t));
        count("no_datasets");
    }
    else if (op == "remove")
    {
        if (t.rc == 0 && !removable)
            violation("remove-from-others", n.desc(t));
        if (t.rc != 0 && removable)
            violation("fails:remove", n.desc(t));
        if (!removable)
            count("remove_refused");
    }
    else if (lib_err.empty() != (t.rc == 0))
        violation(lib_err.empty() ? "fails" : "failure-not-reported", cat(n.desc(t), "; library: ", lib_err));
    if (!lib_err.empty())
        count("failures_reported");

    for (const auto& s : n.stores)
    {
        const auto& name = s->conf.name;
        auto after       = snapshot(s->path, true, true);
        bool selected    = names.count(name);
        // Unarchiving has no simulation
        if (!selected || (!fix && op != "unarchive") || (op == "remove" && (!removable || !remove_from.count(name))))
        {
            // This can be added to ask for a check
            if (selected && !before[name].count("needs-check-do-not-pack"))
                after.erase("needs-check-do-not-pack");
            auto d = diff_snapshots(before[name], after);
            if (!d.empty())
                violation(cat(selected ? (fix ? "changed:" : "changed-without-fix:") : "changed-other:", op), cat(name, ": ", d, "; ", n.desc(t)));
            count("unchanged_checked");
            continue;
        }
        if (op == "remove")
        {
            std::string err;
            auto left = items_of(*n.cfgs.at(name), "", err);
            std::set<unsigned> g(left.begin(), left.end()), e;
            for (const auto& i : s->live)
                if (!to_remove[name].count(i.first))
                    e.insert(i.first);
            if (g != e || !err.empty() || left.size() != g.size())
                violation("remove", cat(name, ": ", g.size(), " items left instead of ", e.size(), ", ", to_remove[name].size(), " to remove; ",
                                        err, "; ", n.desc(t)));
            count("items_removed", to_remove[name].size());
            std::vector<unsigned> gone;
            for (auto u : to_remove[name])
                s->live.erase(u);
            continue;
        }
        if (!lib_err.empty())
            continue;
        auto a = snapshot(s->path, true), b = snapshot(base / "ref" / name, true);
        for (auto* sn : {&a, &b})
            for (auto i = sn->begin(); i != sn->end(); ++i)
            {
                auto fn = fs::path(i->first).filename().native();
                // They have timestamps of data
                if (fn == "MANIFEST" || fn == "config" || fn.find(".index") != std::string::npos || fn.find("index.sqlite") != std::string::npos)
                    i->second = "";
                // What they have is in no particular order
                if (fn == "summary" || fs::path(fn).extension() == ".summary")
                {
                    Summary sm;
                    try
                    {
                        sm.read_file((sn == &a ? s->path : base / "ref" / name) / i->first);
                        std::string text;
                        for (const auto& e : summary_map(sm))
                            text += cat(e.first, "=", e.second.count, ",", e.second.size, ",", to_secs(e.second.begin), ",",
                                        to_secs(e.second.end), ";");
                        i->second = text;
                    }
                    catch (std::exception& e)
                    {
                        i->second = "unreadable";
                    }
                }
            }
        auto d = diff_snapshots(b, a);
        if (!d.empty())
            violation(cat("effect:", op), cat(name, " (", n.cfgs.at(name)->value("type"), "): ", d, "; ", n.desc(t), "; output ", quote(t.out),
                                              "; library ", quote(lib_out)));
        std::string ea, eb;
        auto ia = items_of(*n.cfgs.at(name), "", ea), ib = items_of(*ref.at(name), "", eb);
        if (ia != ib || ea.empty() != eb.empty())
            violation(cat("contents:", op), cat(name, ":", list(ia), " instead of", list(ib), "; ", ea, "; ", eb, "; ", n.desc(t)));
        count("effects_checked");
        if (before[name] != after)
            count("effects_seen");
        count("items_checked", ia.size());
    }
    if (!names.empty() && op != "remove" && lib_err.empty())
    {
        auto d = diff_lines(lines(lib_out, (base / "ref").native(), base), lines(t.out, base / "ref", base));
        if (!d.empty())
            violation(cat("report:", op), cat(d, "; ", n.desc(t)));
        count("report_lines", lines(lib_out, "@", "@").size());
    }
}

void c36(Case& c)
{
    Cli n(c);
    auto& rng = c.rng;
    ConfGen cg;
    cg.unique_by_task = true;
    cg.dir_segments   = 0;
    unsigned uid = 1, nds = rng.range(1, 3);
    for (unsigned i = 0; i < nds; ++i)
        n.add_store(cg, cat("ds", i), uid, History(), true);
    for (auto& s : n.stores)
    {
        // Relative to today: all of the data is in the past
        if (s->live.empty() || !rng.chance(40))
            continue;
        auto& sec     = *n.cfgs[s->conf.name];
        long long now = to_secs(Time(1970, 1, 1, 0, 0, 0)) + time(nullptr);
        long long at  = to_secs(std::next(s->live.begin(), rng.below(s->live.size()))->second.rt);
        sec.set(rng.pick({"archive age", "archive age", "delete age"}), std::to_string((now - at) / 86400 + rng.range(-1, 1)));
        write_text(c.dir / s->conf.name / "config", sec.to_string());
        count("with_age");
    }
    sample(n.log);
    unsigned rounds = rng.range(1, 4);
    for (unsigned i = 0; i < rounds; ++i)
    {
        context(n.log);
        check_op(n);
        bool clean = true;
        for (const auto& s : n.stores)
        {
            std::string err;
            auto left = items_of(*n.cfgs.at(s->conf.name), "", err);
            // The model follows
            std::set<unsigned> there(left.begin(), left.end());
            for (auto i = s->live.begin(); i != s->live.end();)
                i = there.count(i->first) ? std::next(i) : s->live.erase(i);
            if (!err.empty())
                clean = false;
        }
        if (!clean)
            break;
    }
}


/*
 * C35: arki-scan --dispatch accounts for every item of every file
 */

struct Input
{
    fs::path path;
    std::string name; // as reported
    std::vector<Item> items;
    bool broken = false; // reading it gives an error
    unsigned before_error = 0; // how many items can be read before the error
    size_t cut = 0; // how much there is of the first item that cannot be read
    bool cut_in_header = false;
};

void c35(Case& c)
{
    Cli n(c);
    auto& rng = c.rng;
    auto base = c.dir;
    ConfGen cg;
    cg.unique_by_task = true;
    cg.dir_segments   = 0;
    DataFormat format = rng.pick(cg.formats);
    cg.formats        = {format};
    unsigned uid = 1, nds = rng.range(1, 3);
    History h;
    h.max_batches = 1;
    h.max_items   = 8;
    h.conversions = false;
    for (unsigned i = 0; i < nds; ++i)
        n.add_store(cg, cat("ds", i), uid, h);

    // Input files
    bool single = format == DataFormat::ODIMH5 || format == DataFormat::NETCDF || format == DataFormat::JPEG;
    bool same_names = rng.chance(12);
    ExprGen eg(rng);
    for (const auto& s : n.stores)
        for (const auto& i : s->live)
            eg.pool.push_back(i.second);
    std::vector<Input> inputs;
    auto& gen    = n.stores[0]->gen;
    gen.next_uid = uid;
    for (unsigned f = rng.range(1, 5); f; --f)
    {
        Input in;
        bool bundle = rng.chance(40);
        auto dir    = base / (rng.chance(50) ? "in" : "in2");
        fs::create_directories(dir);
        in.path  = dir / cat("f", same_names ? inputs.size() % 2 : inputs.size(), ".", bundle ? rng.pick({"arkimet", "metadata"}) : fmt_name(format));
        if (fs::exists(in.path))
            continue;
        unsigned count_items = single && !bundle ? 1 : rng.range(0, 9);
        in.items             = n.stores[0]->make_items(count_items);
        // Data which are already somewhere
        for (auto& i : in.items)
            if (rng.chance(25) && !eg.pool.empty())
            {
                auto u = i.uid;
                auto q = i.usn;
                i      = rng.pick(eg.pool);
                i.uid  = u;
                i.usn  = q;
                i.build(rng, rng.below(gen.max_filler));
            }
        for (const auto& i : in.items)
            eg.pool.push_back(i);
        std::string buf;
        std::vector<size_t> ends;
        if (bundle)
        {
            auto p = base / ".bundle";
            for (const auto& i : in.items)
            {
                core::File out(p, O_WRONLY | O_CREAT | O_TRUNC, 0644);
                i.md()->write(out);
                out.close();
                buf += read_text(p);
                ends.push_back(buf.size());
            }
            fs::remove(p);
            if (!buf.empty() && rng.chance(25))
            {
                auto len = rng.range(1, buf.size() - 1);
                if (rng.chance(50))
                    len = buf.size() - rng.range(1, std::min<size_t>(buf.size() - 1, 20));
                in.broken = std::find(ends.begin(), ends.end(), len) == ends.end();
                buf.resize(len);
                in.before_error = std::upper_bound(ends.begin(), ends.end(), len) - ends.begin();
                in.cut          = len - (in.before_error ? ends[in.before_error - 1] : 0);
                in.cut_in_header = in.broken && in.cut < ends[in.before_error] - (in.before_error ? ends[in.before_error - 1] : 0) - in.items[in.before_error].data.size();
                if (!in.broken)
                    in.items.resize(in.before_error);
            }
        }
        else
        {
            for (const auto& i : in.items)
            {
                buf.append((const char*)i.data.data(), i.data.size());
                if (format == DataFormat::VM2)
                    buf += "\n";
            }
            if (single && rng.chance(20))
            {
                buf       = "garbage";
                in.broken = true;
            }
        }
        write_text(in.path, buf);
        inputs.push_back(in);
    }
    if (inputs.empty())
        return;
    if (eg.pool.empty())
        eg.pool.push_back(gen.make());

    // Destinations
    std::vector<Expr> filters;
    core::cfg::Sections conf;
    if (nds > 1 && rng.chance(80))
    {
        // Split what comes, so that each item has one destination
        long long cut = to_secs(rng.pick(eg.pool).rt), cut2 = to_secs(rng.pick(eg.pool).rt);
        if (cut2 < cut)
            std::swap(cut, cut2);
        auto text = [](long long s) {
            auto t = from_secs(s);
            char b[64];
            snprintf(b, 64, "%04d-%02d-%02d %02d:%02d:%02d", t.ye, t.mo, t.da, t.ho, t.mi, t.se);
            return std::string(b);
        };
        filters.push_back({"reftime:<" + text(cut), [cut](const Item& i) { return to_secs(i.rt) < cut; }});
        if (nds == 2)
            filters.push_back({"reftime:>=" + text(cut), [cut](const Item& i) { return to_secs(i.rt) >= cut; }});
        else
        {
            filters.push_back({cat("reftime:>=", text(cut), ",<", text(cut2)),
                               [=](const Item& i) { return to_secs(i.rt) >= cut && to_secs(i.rt) < cut2; }});
            filters.push_back({"reftime:>=" + text(cut2), [cut2](const Item& i) { return to_secs(i.rt) >= cut2; }});
        }
    }
    else
        for (unsigned i = 0; i < nds; ++i)
        {
            auto e = eg.make();
            if (e.text.empty() || (nds == 1 && rng.chance(60)))
                e = {"reftime:>=1900", [](const Item&) { return true; }};
            filters.push_back(e);
        }
    for (unsigned i = 0; i < nds; ++i)
    {
        auto name = cat("ds", i);
        n.cfgs[name]->set("filter", filters[i].text);
        conf.emplace(name, n.cfgs[name]);
    }
    for (const char* sys : {"error", "duplicates"})
    {
        auto sec = std::make_shared<core::cfg::Section>();
        sec->set("name", sys);
        sec->set("type", sys);
        sec->set("step", "daily");
        sec->set("path", (base / sys).native());
        fs::create_directories(base / sys);
        n.cfgs[sys] = sec;
        conf.emplace(sys, sec);
    }
    write_text(base / "dispatch.conf", conf.to_string());

    // Command
    bool test = rng.chance(12), ignore = rng.chance(40), threshold = rng.chance(35);
    std::vector<std::string> argv{"arki-scan", cat(test ? "--testdispatch=" : "--dispatch=", (base / "dispatch.conf").native()), "--status"};
    std::map<std::string, bool> dirs;
    for (const char* d : {"copyok", "copyko", "moveok", "moveko", "movework"})
        if (rng.chance(45) && !(same_names && d[0] == 'm'))
        {
            dirs[d] = true;
            fs::create_directories(base / d);
            argv.push_back(cat("--", d, "=", (base / d).native()));
        }
    if (ignore)
        argv.push_back("--ignore-duplicates");
    if (threshold)
        argv.push_back("--flush-threshold=1");
    fs::path out;
    if (rng.chance(40))
    {
        out = base / "out.md";
        argv.push_back("-o");
        argv.push_back(out);
    }
    std::vector<std::string> files;
    for (auto& i : inputs)
    {
        files.push_back(rng.chance(50) ? i.path.native() : i.path.lexically_relative(base).native());
        i.name = files.back();
    }
    if (rng.chance(30))
    {
        std::string text;
        while (!files.empty() && rng.chance(80))
        {
            text += files.back() + "\n";
            files.pop_back();
        }
        if (!text.empty())
        {
            write_text(base / "files", text);
            argv.push_back("--files=" + (base / "files").native());
        }
    }
    argv.insert(argv.end(), files.begin(), files.end());
    for (unsigned i = 0; i < inputs.size(); ++i)
        n.log += cat(i ? ", " : "; ", inputs[i].path.lexically_relative(base).native(), " ", inputs[i].items.size(),
                     inputs[i].broken ? cat(" broken after ", inputs[i].before_error, "+", inputs[i].cut) : "");
    context(n.log);
    sample(n.log);

    std::map<std::string, std::map<std::string, std::string>> before;
    for (const auto& s : n.cfgs)
        before[s.first] = snapshot(base / s.first, true, true);
    auto inputs_before = inputs;
    std::map<std::string, std::string> contents;
    for (const auto& i : inputs)
        contents[i.path] = read_text(i.path);

    auto t = n.run(argv);
    count("evals");
    distinct(cat(c.index, " ", t.cmd));
    if (t.err.find("Traceback") != std::string::npos)
        fail("broken-tool", n.desc(t));

    // Files are processed in any order: --status tells it
    std::vector<Input> order;
    {
        std::vector<std::pair<size_t, Input>> found;
        std::istringstream in(t.err);
        std::string line;
        size_t pos = 0;
        auto todo  = inputs;
        while (std::getline(in, line))
        {
            ++pos;
            for (size_t i = 0; i < todo.size(); ++i)
            {
                if (line.find("cannot read contents") != std::string::npos)
                    continue;
                bool matches = false;
                for (const char* end : {" failed: ", ": "})
                {
                    auto p = line.find(todo[i].name + end);
                    if (p != std::string::npos && (!p || line[p - 1] == ' '))
                        matches = true;
                }
                if (!matches)
                    continue;
                // A file cut inside the metadata of an item can be taken for one which ends before it
                if (todo[i].broken && line.find(" failed: ") == std::string::npos && todo[i].cut_in_header)
                {
                    todo[i].broken = false;
                    todo[i].items.resize(todo[i].before_error);
                    count("cut_in_header");
                }
                order.push_back(todo[i]);
                todo.erase(todo.begin() + i);
                break;
            }
        }
        if (!todo.empty())
            fail(same_names ? "input-skipped:same-name" : "input-skipped", cat(todo[0].path.native(), " was not processed; ", n.desc(t)));
    }

    // What should have happened
    std::map<std::string, std::map<unsigned, Item>> model;
    std::vector<unsigned> in_error, in_duplicates;
    for (auto& s : n.stores)
        model[s->conf.name] = s->live;
    std::map<std::string, std::vector<unsigned>> copyok, copyko;
    std::map<std::string, bool> success;
    bool all_ok     = true;
    unsigned total  = 0;
    for (const auto& in : order)
    {
        std::vector<Item> got = in.items;
        if (in.broken)
            got.resize(threshold ? std::min<size_t>(in.before_error, got.size()) : 0);
        total += got.size();
        unsigned ok = 0, dups = 0, errors = 0;
        std::vector<std::vector<Item>> batches;
        if (threshold)
            for (const auto& i : got)
                batches.push_back({i});
        else
            batches.push_back(got);
        for (const auto& batch : batches)
        {
            std::map<unsigned, std::string> fate;
            std::map<std::string, std::vector<Item>> by_dataset;
            std::vector<unsigned> err;
            for (const auto& i : batch)
            {
                std::vector<std::string> where;
                for (unsigned d = 0; d < nds; ++d)
                    if (filters[d].match(i))
                        where.push_back(cat("ds", d));
                if (where.size() == 1)
                    by_dataset[where[0]].push_back(i);
                else
                    fate[i.uid] = "error";
            }
            for (const auto& d : by_dataset)
            {
                auto res = n.store(d.first).predict(d.second, model[d.first]);
                for (size_t k = 0; k < res.size(); ++k)
                    fate[d.second[k].uid] = res[k] == metadata::Inbound::Result::OK          ? "ok"
                                            : res[k] == metadata::Inbound::Result::DUPLICATE ? "duplicates"
                                                                                              : "error";
            }
            for (const auto& i : batch)
            {
                const auto& f = fate[i.uid];
                if (f == "ok")
                {
                    ++ok;
                    copyok[in.path.filename()].push_back(i.uid);
                    continue;
                }
                copyko[in.path.filename()].push_back(i.uid);
                if (f == "duplicates")
                {
                    ++dups;
                    in_duplicates.push_back(i.uid);
                }
                else
                {
                    ++errors;
                    in_error.push_back(i.uid);
                }
            }
        }
        bool good = !in.broken && !errors && (ok || (dups && ignore)) && (!dups || ignore);
        success[in.path] = good;
        all_ok           = all_ok && good;
        count(good ? "files_ok" : in.broken ? "files_broken" : "files_ko");
        count("items_ok", ok);
        count("items_duplicate", dups);
        count("items_error", errors);
    }
    auto where = [&] { return n.desc(t); };
    if (test)
    {
        count("tests");
        for (const auto& s : n.cfgs)
        {
            auto d = diff_snapshots(before[s.first], snapshot(base / s.first, true, true));
            if (!d.empty())
                violation("testdispatch-changes", cat(s.first, ": ", d, "; ", where()));
        }
        for (const auto& in : inputs)
        {
            unsigned found = 0;
            for (const auto& p : {in.path, base / "moveok" / in.path.filename(), base / "moveko" / in.path.filename(),
                                  base / "movework" / in.path.filename()})
                if (fs::exists(p) && read_text(p) == contents[in.path])
                    ++found;
            if (!found)
                violation("input-lost", cat(in.path, " ", where()));
        }
        return;
    }
    if ((t.rc == 0) != all_ok)
        violation(all_ok ? "fails" : "failure-not-reported", cat(ignore ? "ignoring duplicates: " : "", where()));
    if (all_ok)
        count("runs_ok");
    for (auto& s : n.stores)
    {
        std::string err;
        auto got = items_of(*n.cfgs.at(s->conf.name), "", err);
        std::vector<unsigned> e;
        for (const auto& i : model[s->conf.name])
            e.push_back(i.first);
        if (!err.empty() || sorted(got) != e)
            violation("destination", cat(s->conf.name, " has", list(sorted(got)), " instead of", list(e), "; ", err, "; ", where()));
    }
    for (const char* sys : {"error", "duplicates"})
    {
        std::string err;
        auto got    = items_of(*n.cfgs.at(sys), "", err);
        const auto& e = sys[0] == 'e' ? in_error : in_duplicates;
        if (!err.empty() || sorted(got) != sorted(e))
            violation(cat("destination:", sys), cat(sys, " has", list(sorted(got)), " instead of", list(sorted(e)), "; ", err, "; ", where()));
    }
    // Copies
    for (const char* what : {"copyok", "copyko"})
    {
        if (!dirs.count(what))
            continue;
        auto& e = what[5] == 'k' && what[4] == 'o' ? copyok : copyko;
        std::set<std::string> names;
        for (const auto& f : fs::directory_iterator(base / what))
            names.insert(f.path().filename());
        for (const auto& in : inputs)
        {
            auto name = in.path.filename().native();
            std::vector<Item> items;
            if (names.count(name) && !split_data(read_text(base / what / name), n.formats, items))
                violation(what, cat(name, " has something which is not data; ", where()));
            if (uids_of(items) != e[name])
                violation(what, cat(name, " has", list(uids_of(items)), " instead of", list(e[name]), "; ", where()));
            count("copies_checked");
        }
        for (const auto& name : names)
            if (e[name].empty())
                violation(what, cat("unexpected file ", name, "; ", where()));
    }
    // Input files
    for (const auto& in : inputs)
    {
        auto name     = in.path.filename();
        bool good     = success[in.path];
        fs::path dest = dirs.count("movework") ? base / "movework" / name : in.path;
        // Files without data are neither
        bool either = in.items.empty() && !in.broken;
        if (dirs.count(good ? "moveok" : "moveko"))
            dest = base / (good ? "moveok" : "moveko") / name;
        bool found = fs::exists(dest) && read_text(dest) == contents[in.path];
        if (!found && !either)
            violation(cat("moved", dirs.count("movework") ? ":movework" : ""), cat(in.path.native(), " (", good ? "" : "not ", "successful) is not in ", dest.native(), "; ", where()));
        if (found && dest != in.path)
        {
            if (fs::exists(in.path))
                violation("moved:copied", cat(in.path.native(), "; ", where()));
            count("moves");
        }
    }
    // Output
    auto mds = read_mds(out.empty() ? t.out : read_text(out), base);
    if (mds.size() != total)
        violation("output", cat(mds.size(), " metadata instead of ", total, "; ", where()));
    std::multiset<std::string> exp, got;
    for (const auto& in : order)
        for (unsigned k = 0; k < in.items.size(); ++k)
            if (!in.broken || (threshold && k < in.before_error))
                exp.insert(summary_key(*in.items[k].md()) + " " + in.items[k].rt.to_iso8601());
    for (const auto& md : mds)
    {
        const auto* rt = md->get<types::reftime::Position>();
        got.insert(summary_key(*md) + " " + (rt ? rt->get_Position().to_iso8601() : ""));
    }
    if (exp != got)
        violation("output-metadata", cat(diff_lines(exp, got), "; ", where()));
    count("output_metadata", mds.size());
}
