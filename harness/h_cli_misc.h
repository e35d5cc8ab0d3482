// Included by h_cli.cc
#pragma once

/*
 * C37: arki-dump and arki-xargs
 */

/// Metadata which do not have data with them
std::shared_ptr<Metadata> make_md(ItemGen& gen, Rng& rng, const fs::path& dir, bool with_data)
{
    auto item = gen.make();
    auto md   = item.md();
    if (with_data)
        md->makeInline();
    else if (rng.chance(25))
        md->set_source(types::Source::createURL(item.format, rng.pick({"http://localhost:8080/ds", "https://www.example.com/a,b?c=d"})));
    else
        md->set_source(types::Source::createBlobUnlocked(item.format, dir, rng.pick({"data", "2007/07-08.grib", "a b", "a:b+c"}), rng.below(100000),
                                                         item.data.size()));
    return md;
}

std::string bytes_of(const std::function<void(core::NamedFileDescriptor&)>& write, const fs::path& dir)
{
    auto p = dir / ".bytes";
    {
        core::File out(p, O_WRONLY | O_CREAT | O_TRUNC, 0666);
        write(out);
        out.close();
    }
    auto res = read_text(p);
    fs::remove(p);
    return res;
}

std::string yamls(const std::vector<std::shared_ptr<Metadata>>& mds)
{
    std::string res;
    for (const auto& md : mds)
        res += md->to_yaml() + "\n";
    return res;
}

std::string output_of(Cli& n, std::vector<std::string>& argv, const std::string& input, bool use_stdin, Tool& t, bool* full = nullptr)
{
    fs::path out;
    if (full && n.rng.chance(10))
    {
        *full = true;
        argv.insert(argv.begin() + 1, "--output=/dev/full");
    }
    else if (n.rng.chance(30))
    {
        out = n.c.dir / "out";
        write_text(out, "previous contents");
        argv.insert(argv.begin() + 1, {"-o", out.native()});
    }
    if (!use_stdin)
    {
        write_text(n.c.dir / "input", input);
        argv.push_back(n.rng.chance(50) ? "input" : (n.c.dir / "input").native());
    }
    else if (n.rng.chance(30))
        argv.push_back("-");
    t = n.run(argv, use_stdin ? input : "");
    count("evals");
    distinct(cat(n.c.index, " ", t.cmd, " ", input.size()));
    if (t.err.find("NameError") != std::string::npos || t.err.find("AttributeError") != std::string::npos)
        violation("broken-tool", n.desc(t));
    return out.empty() ? t.out : read_text(out);
}

void check_dump(Cli& n, ItemGen& gen)
{
    auto& rng      = n.rng;
    bool use_stdin = rng.chance(30), summaries = rng.chance(40), reverse = rng.chance(45), cut = !summaries && !reverse && rng.chance(30);
    // Sources which do not depend on where the metadata is read from
    auto dir = n.c.dir;
    std::string input, expected;
    std::vector<std::pair<size_t, size_t>> sizes; // of input and output
    std::vector<std::shared_ptr<Metadata>> all;
    for (unsigned i = 0, chunks = rng.range(rng.chance(10) ? 0 : 1, 8); i < chunks; ++i)
    {
        std::string buf;
        if (summaries && rng.chance(40) && !reverse)
        {
            Summary s;
            for (unsigned j = 0, m = rng.range(0, 6); j < m; ++j)
                s.add(*gen.make().md());
            buf = bytes_of([&](auto& out) { s.write(out); }, dir);
            Summary r;
            write_text(dir / ".s", buf);
            r.read_file(dir / ".s");
            expected += r.to_yaml() + "\n";
            count("dumped_summaries");
        }
        else
        {
            std::vector<std::shared_ptr<Metadata>> mds;
            for (unsigned j = 0, m = rng.chance(10) ? 400 : rng.range(1, 5); j < m; ++j)
                mds.push_back(make_md(gen, rng, dir, !reverse && rng.chance(40) && m < 10));
            bool groups = rng.chance(40) || mds.size() > 10;
            buf = bytes_of([&](auto& out) {
                if (groups)
                {
                    metadata::Collection coll;
                    for (const auto& md : mds)
                        coll.acquire(md->clone());
                    if (std::all_of(mds.begin(), mds.end(), [](const auto& md) { return md->source().style() != types::Source::Style::INLINE; }))
                    {
                        coll.write_to(out);
                        return;
                    }
                }
                for (const auto& md : mds)
                    md->write(out);
            }, dir);
            if (buf.compare(0, 2, "MG") == 0)
                count("groups");
            auto got = read_mds(buf, dir);
            if (got.size() != mds.size())
                violation("read", cat(got.size(), " metadata read instead of ", mds.size(), "; ", n.log));
            for (size_t k = 0; k < got.size() && k < mds.size(); ++k)
                if (!got[k]->items_equal(*mds[k]))
                    violation("read-items", cat(got[k]->to_yaml(), " instead of ", mds[k]->to_yaml()));
            for (auto& md : got)
                all.push_back(md);
            expected += yamls(got);
            count("dumped_items", got.size());
        }
        input += buf;
        sizes.emplace_back(input.size(), expected.size());
    }
    if (cut)
    {
        if (input.empty())
            return;
        size_t len = rng.below(input.size());
        input.resize(len);
        size_t whole = 0;
        for (const auto& s : sizes)
            if (s.first <= len)
                whole = s.second;
        bool lib_failed = false;
        try
        {
            auto p = dir / "cut";
            write_text(p, input);
            core::File in(p, O_RDONLY);
            metadata::BinaryReader reader(in);
            reader.read_all([&](std::shared_ptr<Metadata> md) { return true; });
        }
        catch (std::exception& e)
        {
            lib_failed = true;
        }
        Tool t;
        std::vector<std::string> argv{"arki-dump"};
        auto got = output_of(n, argv, input, use_stdin, t);
        if (lib_failed != (t.rc != 0))
            violation(lib_failed ? "cut-not-reported" : "cut-fails", n.desc(t));
        if (got.size() < whole || expected.compare(0, got.size(), got))
            violation("cut-output", cat(got.size(), " bytes, not the ones before the cut; ", n.desc(t)));
        count(lib_failed ? "cut_reported" : "cut_tolerated");
        return;
    }
    if (!reverse)
    {
        Tool t;
        std::vector<std::string> argv{"arki-dump"};
        bool full = false;
        auto got  = output_of(n, argv, input, use_stdin, t, &full);
        if (full)
        {
            if (t.rc == 0 && !expected.empty())
                violation("full-not-reported", n.desc(t));
            count("full");
            return;
        }
        if (t.rc)
            violation("fails", n.desc(t));
        // Items of summaries are in no particular order
        if (summaries ? sorted_chars(got) != sorted_chars(expected) : got != expected)
            violation("dump", cat(quote(got), " instead of ", quote(expected), "; ", n.desc(t)));
        count("dumps");
        return;
    }
    bool full = false;
    Tool t;
    if (summaries)
    {
        std::vector<SummaryMap> exp;
        std::string text;
        for (unsigned i = 0, m = rng.range(1, 3); i < m; ++i)
        {
            Summary s;
            for (unsigned j = 0, k = rng.range(1, 8); j < k; ++j)
                s.add(*gen.make().md());
            text += s.to_yaml() + "\n";
            exp.push_back(summary_map(s));
        }
        if (rng.chance(30))
            text.pop_back();
        std::vector<std::string> argv{"arki-dump", "--from-yaml-summary"};
        auto got = output_of(n, argv, text, use_stdin, t, &full);
        if (full)
        {
            if (t.rc == 0)
                violation("full-not-reported", n.desc(t));
            count("full");
            return;
        }
        if (t.rc)
            fail("fails", n.desc(t));
        std::vector<SummaryMap> res;
        write_text(dir / "res", got);
        core::File in(dir / "res", O_RDONLY);
        Summary s;
        while (s.read(in))
        {
            res.push_back(summary_map(s));
            s.clear();
        }
        std::string d;
        if (res.size() != exp.size())
            d = cat(res.size(), " summaries instead of ", exp.size());
        for (size_t i = 0; i < res.size() && i < exp.size(); ++i)
            d += diff_summaries(exp[i], res[i]);
        if (!d.empty())
            violation("from-yaml-summary", cat(d, "; ", n.desc(t)));
        count("reversed_summaries", exp.size());
    }
    else
    {
        std::string text = yamls(all);
        if (text.size() && rng.chance(30))
            text.pop_back();
        std::vector<std::string> argv{"arki-dump", "--from-yaml-data"};
        auto got = output_of(n, argv, text, use_stdin, t, &full);
        if (full)
        {
            if (t.rc == 0 && !all.empty())
                violation("full-not-reported", n.desc(t));
            count("full");
            return;
        }
        if (t.rc)
            fail("fails", n.desc(t));
        auto res = read_mds(got, dir);
        auto y   = yamls(res), e = yamls(all);
        if (y != e)
            violation("from-yaml-data", cat(quote(y), " instead of ", quote(e), "; ", n.desc(t)));
        count("reversed_items", all.size());
    }
}

void check_dump_query(Cli& n, ItemGen& gen)
{
    ExprGen eg(n.rng);
    for (unsigned i = 0; i < 5; ++i)
        eg.pool.push_back(gen.make());
    auto e = eg.make();
    if (e.text.empty())
        return;
    auto t = n.run({"arki-dump", "--query", e.text});
    count("evals");
    count("queries_expanded");
    auto session = std::make_shared<dataset::Session>(false);
    auto exp     = session->matcher(e.text).toStringExpanded() + "\n";
    if (t.rc || t.out != exp)
        violation("query", cat(quote(t.out), " instead of ", quote(exp), "; ", n.desc(t)));
}

void check_xargs(Cli& n, ItemGen& gen)
{
    auto& rng = n.rng;
    auto dir  = n.c.dir;
    std::string input, all;
    std::vector<std::shared_ptr<Metadata>> mds;
    std::vector<std::string> files(rng.range(1, 3));
    for (unsigned i = 0, m = rng.range(0, 40); i < m; ++i)
        mds.push_back(gen.make().md());
    if (rng.chance(60))
        std::stable_sort(mds.begin(), mds.end(), [](const auto& a, const auto& b) { return a->source().format < b->source().format; });
    for (size_t i = 0; i < mds.size(); ++i)
    {
        mds[i]->makeInline();
        files[i * files.size() / mds.size()] += bytes_of([&](auto& out) { mds[i]->write(out); }, dir);
    }
    std::vector<std::string> argv{"arki-xargs"};
    fs::create_directories(dir / "tmp");
    setenv("TMPDIR", (dir / "tmp").c_str(), 1);
    metadata::Xargs x;
    if (rng.chance(60))
    {
        x.max_count = rng.range(1, 9);
        argv.push_back(rng.chance(50) ? cat("--max-args=", x.max_count) : cat("-n", x.max_count));
    }
    if (rng.chance(50))
    {
        size_t size = rng.range(1, 4);
        auto suffix = rng.pick<std::string>({"", "b", "c", "k", "K", "Kb", "Ki", "ki", "M", "Mi", "Gi"});
        static const std::map<std::string, size_t> mul{{"", 1},       {"b", 1},     {"c", 1},     {"k", 1000},    {"K", 1000},         {"Kb", 1000},
                                                      {"Ki", 1024},  {"ki", 1024}, {"M", 1000000}, {"Mi", 1 << 20}, {"Gi", 1 << 30}};
        if (mul.at(suffix) == 1)
            size = rng.range(1, 2000);
        x.set_max_bytes(size * mul.at(suffix));
        argv.push_back(rng.chance(50) ? cat("--max-size=", size, suffix) : cat("-s", size, suffix));
    }
    if (rng.chance(40))
    {
        auto i = rng.pick({"minute", "hour", "day", "month", "year"});
        x.set_interval(i);
        argv.push_back(cat("--time-interval=", i));
    }
    if (rng.chance(25))
    {
        x.split_timerange = true;
        argv.push_back("--split-timerange");
    }
    bool use_stdin = rng.chance(40);
    if (!use_stdin)
        for (size_t i = 0; i < files.size(); ++i)
        {
            write_text(dir / cat("in", i), files[i]);
            argv.push_back(rng.chance(50) ? "-i" : "--input");
            argv.push_back(cat("in", i));
        }
    unsigned fail_at = rng.chance(35) ? rng.range(1, 5) : 0;
    auto script      = cat("echo \"$ARKI_XARGS_COUNT $ARKI_XARGS_FORMAT $ARKI_XARGS_TIME_START $ARKI_XARGS_TIME_END\" >> $1/runs; cat $2 >> $1/data; "
                           "if [ $(wc -l < $1/runs) -eq ", fail_at, " ]; then ", rng.pick({"exit 3", "kill -9 $$", "exit 255"}), "; fi; exit 0");
    if (rng.chance(50))
        argv.push_back("--");
    fs::create_directories(dir / "lib");
    fs::create_directories(dir / "cmd");
    fs::create_directories(dir / "tmp");
    x.command = {"/bin/sh", "-c", script, "sh", dir / "lib"};
    argv.insert(argv.end(), {"/bin/sh", "-c", script, "sh", dir / "cmd"});
    bool lib_failed = false;
    std::string err;
    try
    {
        for (const auto& md : mds)
            x.eat(md->clone());
        x.flush();
    }
    catch (std::exception& e)
    {
        lib_failed = true;
        err = e.what();
    }
    for (const auto& f : files)
        input += f;
    fs::create_directories(dir / "tmp2");
    auto t = Tool::run(dir, argv, use_stdin ? input : "", cat("{\"TMPDIR\":", jstr(dir / "tmp2"), "}"));
    if (t.rc < 0)
        fail("crash", n.desc(t));
    count("evals");
    count("commands");
    count("xargs");
    distinct(cat(n.c.index, " ", t.cmd, " ", input.size()));
    if (t.err.find("NameError") != std::string::npos || t.err.find("AttributeError") != std::string::npos)
        violation("broken-tool", n.desc(t));
    auto read = [&](const char* d, const char* f) { return fs::exists(dir / d / f) ? read_text(dir / d / f) : std::string(); };
    if (lib_failed != (t.rc != 0))
        violation(lib_failed ? "xargs-failure-not-reported" : "xargs-fails", cat(n.desc(t), "; library: ", err));
    if (lib_failed)
        count("xargs_failed");
    auto a = read("lib", "runs"), b = read("cmd", "runs");
    if (a != b)
        violation("xargs-runs", cat(quote(b), " instead of ", quote(a), "; ", n.desc(t)));
    if (read("lib", "data") != read("cmd", "data"))
        violation("xargs-data", n.desc(t));
    if (!fs::is_empty(dir / "tmp2"))
        violation("xargs-tempfile", n.desc(t));
    count("runs", std::count(b.begin(), b.end(), '\n'));
    for (const char* d : {"lib", "cmd", "tmp", "tmp2"})
        fs::remove_all(dir / d);
}

void c37(Case& c)
{
    Cli n(c);
    install_scanners();
    for (unsigned i = 0, rounds = c.rng.range(2, 5); i < rounds; ++i)
    {
        ItemGen gen(c.rng);
        gen.format = c.rng.pick({DataFormat::GRIB, DataFormat::BUFR, DataFormat::VM2, DataFormat::ODIMH5, DataFormat::NETCDF});
        if (c.rng.chance(60))
            check_dump(n, gen);
        else if (c.rng.chance(15))
            check_dump_query(n, gen);
        else
            check_xargs(n, gen);
    }
}
