// Crashes, I/O errors and ordering of flushes (C02 C03 C04 C31)
#include "common_ds.h"
#include <algorithm>
#include <arki/core/time.h>
#include <arki/summary.h>
#include <sys/wait.h>
#include "faults.h"

using namespace vh;
using namespace arki;

namespace {

namespace fs = std::filesystem;
typedef metadata::Inbound::Result R;

void copy_tree(const fs::path& from, const fs::path& to)
{
    faults::Off off;
    fs::create_directory(to);
    for (const auto& e : fs::directory_iterator(from))
    {
        auto dst = to / e.path().filename();
        if (e.is_directory())
            copy_tree(e.path(), dst);
        else
        {
            auto text = read_text(e.path());
            write_text(dst, text);
            struct stat st;
            stat(e.path().c_str(), &st);
            struct timespec ts[2] = {st.st_mtim, st.st_mtim};
            syscall(SYS_utimensat, AT_FDCWD, dst.c_str(), ts, 0);
            chmod(dst.c_str(), st.st_mode & 07777);
        }
    }
}

void remove_tree(const fs::path& p)
{
    faults::Off off;
    fs::remove_all(p);
}

/// What a child process found
struct Report
{
    int status    = 0; // exit status, or -signal
    long events   = 0;
    bool failed   = false;
    std::string failed_what;
    std::string exception;
    std::vector<R> results;
    std::vector<R> results2;
    std::string exception2;
    bool crashed() const { return status == 77; }
};

struct Sim
{
    Case& c;
    Rng& rng;
    Store s;
    fs::path master, report;
    std::map<unsigned, Item> live0, removed;
    std::set<std::string> closed0, archived0;
    std::string log0;

    /// Added to the keys of violations
    std::string prefix;
    [[noreturn]] void bad(const std::string& key, const std::string& detail) { fail(prefix.empty() || prefix.back() == '/' ? prefix + key : prefix, detail); }

    Sim(Case& c, const DsConf& conf)
        : c(c), rng(c.rng), s(c.rng, conf, c.dir / "ds"), master(c.dir / "master"), report(c.dir / "report")
    {
        auto& f = faults::ctl();
        f       = faults::Control();
        f.root  = (c.dir / "ds").native();
        f.clock = ::time(nullptr) - 500000;
        f.tick  = rng.pick({0u, 0u, 3u, 10u, 40u});
        f.state = rng.below(1u << 30);
        f.on    = true;
    }
    ~Sim() { faults::ctl() = faults::Control(); }

    /// Time passes
    void pass(bool really = false)
    {
        if (really)
            faults::ctl().clock += 2;
        if (rng.chance(60))
            faults::ctl().clock += rng.range(1, 5000);
    }
    void save()
    {
        s.ds.reset();
        s.session.reset();
        remove_tree(master);
        copy_tree(s.path, master);
        live0     = s.live;
        closed0   = s.closed;
        archived0 = s.archived;
        log0      = s.log;
        clock0    = faults::ctl().clock;
    }
    long long clock0 = 0;
    /// Items of the batch have been imported more than once
    bool twice = false;
    void restore()
    {
        s.ds.reset();
        s.session.reset();
        remove_tree(s.path);
        copy_tree(master, s.path);
        twice      = false;
        s.live     = live0;
        s.closed   = closed0;
        s.archived = archived0;
        s.log      = log0;
        faults::ctl().clock = clock0;
    }

    /// Run f in another process
    Report run(std::function<void(faults::Control&)> setup, std::function<void(Report&)> f)
    {
        fflush(stdout);
        fflush(stderr);
        {
            faults::Off off;
            write_text(report, "");
        }
        pid_t pid = fork();
        if (pid == 0)
        {
            // If it hangs it is not for long
            alarm(60);
            auto& ctl = faults::ctl();
            Report r;
            ctl.n = 0;
            setup(ctl);
            int st = 0;
            try
            {
                f(r);
            }
            catch (std::exception& e)
            {
                r.exception = e.what();
                st          = 3;
            }
            ctl.on = false;
            std::string out = cat(ctl.n, "\n", ctl.failed, "\n", ctl.failed_what, "\n", r.exception, "\x01\n");
            for (auto x : r.results)
                out += cat((int)x, " ");
            out += "\n";
            for (auto x : r.results2)
                out += cat((int)x, " ");
            out += "\n" + r.exception2;
            write_text(report, out);
            _exit(st);
        }
        int st;
        while (waitpid(pid, &st, 0) != pid)
            ;
        // The time which passed there has passed also here
        if (fs::exists(s.path))
            for (const auto& e : fs::recursive_directory_iterator(s.path))
            {
                struct stat est;
                if (stat(e.path().c_str(), &est) == 0 && S_ISREG(est.st_mode) && est.st_mtime > faults::ctl().clock)
                    faults::ctl().clock = est.st_mtime;
            }
        Report r;
        r.status = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
        if (!r.crashed())
        {
            faults::Off off;
            std::istringstream in(read_text(report));
            std::string l;
            std::getline(in, l);
            r.events = atol(l.c_str());
            std::getline(in, l);
            r.failed = l == "1";
            std::getline(in, r.failed_what);
            std::getline(in, r.exception, '\x01');
            std::getline(in, l);
            auto parse = [&](std::vector<R>& v) {
                std::getline(in, l);
                std::istringstream s2(l);
                int n;
                while (s2 >> n)
                    v.push_back((R)n);
            };
            parse(r.results);
            parse(r.results2);
            std::getline(in, r.exception2, '\x01');
        }
        return r;
    }

    /// Points at which to crash
    std::vector<long> points(long n, unsigned max)
    {
        std::vector<long> res;
        if (n <= (long)max)
            for (long i = 0; i < n; ++i)
                res.push_back(i);
        else
        {
            std::set<long> p;
            while (p.size() < max)
                p.insert(rng.below(n));
            res.assign(p.begin(), p.end());
        }
        return res;
    }

    static void acquire(dataset::Writer& w, const std::vector<Item>& items, std::vector<R>& results, bool drop)
    {
        metadata::InboundBatch batch;
        for (const auto& i : items)
            batch.add(i.md());
        dataset::AcquireConfig cfg;
        cfg.drop_cached_data_on_commit = drop;
        std::exception_ptr e;
        try
        {
            w.acquire_batch(batch, cfg);
        }
        catch (...)
        {
            e = std::current_exception();
        }
        for (auto& b : batch)
            results.push_back(b->result);
        if (e)
            std::rethrow_exception(e);
    }

    struct Found
    {
        std::map<unsigned, Item> items;
        unsigned resurrected = 0;
    };
    /**
     * Compare the contents with what there was before, and the items that were being imported.
     *
     * allow_removed: data removed before can be found again
     */
    Found contents(const std::string& where, const std::vector<Item>& batch, bool allow_removed, bool unchecked = false)
    {
        Found f;
        // Before a check, simple datasets skip segments with data newer than their metadata
        std::set<std::string> touched, visible;
        if (unchecked && !s.conf.iseg())
            for (const auto& i : batch)
                touched.insert(s.relpath(i));
        std::map<std::string, unsigned> keys;
        std::map<unsigned, Item> bm;
        for (const auto& i : batch)
            bm[i.uid] = i;
        Result r;
        try
        {
            r = s.query("");
        }
        catch (Failed&)
        {
            throw;
        }
        catch (std::exception& e)
        {
            bad("query-throws", cat(where, ": query throws ", e.what()));
        }
        for (size_t n = 0; n < r.items.size(); ++n)
        {
            const auto& i = r.items[n];
            auto l        = live0.find(i.uid);
            auto b        = bm.find(i.uid);
            const Item* x = l != live0.end() ? &l->second : b != bm.end() ? &b->second : nullptr;
            if (!x)
            {
                auto rm = removed.find(i.uid);
                if (rm == removed.end())
                    bad("unexpected-item", cat(where, ": unexpected ", i.desc()));
                if (!allow_removed)
                    bad("removed-item", cat(where, ": removed item ", i.desc(), " is there again"));
                x = &rm->second;
                ++f.resurrected;
            }
            if (f.items.count(i.uid) && !(twice && b != bm.end()))
                bad("item-twice", cat(where, ": item ", i.desc(), " is there twice"));
            s.check_item(where, *x, *r.mds[n], i.data);
            f.items[i.uid] = *x;
            visible.insert(s.relpath(i));
            auto k         = s.unique_key(i);
            if (!k.empty() && !s.archived.count(s.relpath(i)))
            {
                if (keys.count(k))
                    bad("not-unique", cat(where, ": items ", i.desc(), " and ", f.items[keys[k]].desc()));
                keys[k] = i.uid;
            }
        }
        if (getenv("VH_TRACE"))
        {
            fprintf(stderr, "## contents %s\n", where.c_str());
            for (const auto& e : snapshot(s.path))
            {
                struct stat st;
                stat((s.path / e.first).c_str(), &st);
                fprintf(stderr, "     %s %lld %lld\n", e.first.c_str(), (long long)st.st_mtime, (long long)st.st_size);
            }
            if (fs::exists(s.path / "MANIFEST"))
                fprintf(stderr, "%s\n", read_text(s.path / "MANIFEST").c_str());
        }
        for (const auto& l : live0)
        {
            if (f.items.count(l.first))
                continue;
            auto k = s.unique_key(l.second);
            if (!k.empty() && s.conf.replace != "no" && keys.count(k) && bm.count(keys[k]))
            {
                count("replaced");
                continue;
            }
            if (touched.count(s.relpath(l.second)) && !visible.count(s.relpath(l.second)))
            {
                count("segments_to_check");
                continue;
            }
            bad("lost-item", cat(where, ": item ", l.second.desc(), " of ", s.relpath(l.second), " is lost"));
        }
        count("contents_verified");
        return f;
    }

    /// Check and repack, and see that nothing is left to do
    void fix(const std::string& where)
    {
        s.reopen();
        pass();
        try
        {
            auto rec = s.run_check(true, rng.chance(20));
            for (const auto& e : rec.actions())
                if (e.op.find("manual") != std::string::npos)
                    bad("manual-intervention", cat(where, ": check asks for manual intervention ", rec.desc()));
        }
        catch (Failed&)
        {
            throw;
        }
        catch (std::exception& e)
        {
            bad("fix-throws", cat(where, ": check throws ", e.what()));
        }
    }

    void converge(const std::string& where)
    {
        pass();
        try
        {
            s.run_op("repack", true);
            s.maybe_reopen();
            auto rec = s.run_check(false, rng.chance(30));
            if (!rec.actions().empty())
                bad("not-converged", cat(where, ": after check and repack, check reports ", rec.desc()));
        }
        catch (Failed&)
        {
            throw;
        }
        catch (std::exception& e)
        {
            bad("repack-throws", cat(where, ": repack throws ", e.what()));
        }
    }

    /// The dataset can be used as if nothing happened
    void carry_on(const std::string& where, const Found& f, const std::vector<Item>& batch)
    {
        s.live = f.items;
        for (const auto& i : s.live)
            if (s.archived.count(s.relpath(i.second)) || s.closed.count(s.relpath(i.second)))
                ;
        std::vector<Item> more = s.make_items(rng.range(1, 4));
        for (const auto& i : batch)
            if (!f.items.count(i.uid))
                more.push_back(i);
        pass();
        s.maybe_reopen();
        auto o = s.import(more, false, false);
        if (!o.exception.empty())
            bad("import-throws", cat(where, ": later import throws ", o.exception));
        for (size_t n = 0; n < o.results.size(); ++n)
            if (o.results[n].second != o.expected[n])
                bad("import-result", cat(where, ": later import of ", o.results[n].first.desc(), " expected ", o.expected[n],
                                          " got ", o.results[n].second));
        s.maybe_reopen();
        s.check_contents(cat(where, ", later import"), false);
        auto rec = s.run_check(false);
        for (const auto& e : rec.actions())
            if (e.op != "segment_repack" && e.op != "segment_archive")
                bad("not-clean", cat(where, ": after a later import, check reports ", rec.desc()));
        count("carried_on");
    }
};

void build(Sim& m, bool archive)
{
    auto& s = m.s;
    s.note("start");
    History h;
    h.max_batches = 3;
    h.max_items   = 8;
    std::map<unsigned, Item> ever;
    unsigned n = m.rng.range(0, 3);
    for (unsigned b = 0; b < n; ++b)
    {
        m.pass();
        s.maybe_reopen();
        auto items = s.make_items(m.rng.range(1, 8));
        if (items.empty())
            break;
        for (auto& i : items)
            ever[i.uid] = i;
        s.import(items, s.rng.below(2), false);
        if (!s.live.empty() && m.rng.chance(25))
            History::remove_some(s);
        if (m.rng.chance(20))
        {
            m.pass();
            s.run_check(true);
            s.run_repack(true);
        }
    }
    if (archive && !s.live.empty() && m.rng.chance(15))
        move_to_archive(s, 20);
    if (m.rng.chance(12))
        random_maintenance(s);
    for (const auto& i : ever)
        if (!s.live.count(i.first))
            m.removed.insert(i);
    m.pass();
}

DsConf make_conf(Rng& rng)
{
    ConfGen cg;
    cg.steps    = {"daily", "daily", "monthly", "monthly", "yearly"};
    DsConf conf = cg.make(rng);
    return conf;
}

/*
 * C03
 */

void c03(Case& c)
{
    auto& rng = c.rng;
    DsConf conf = make_conf(rng);
    // It is documented as being unsafe
    conf.eatmydata = false;
    Sim m(c, conf);
    auto& s = m.s;
    build(m, true);
    auto batch = s.make_items(rng.range(1, 8));
    if (batch.empty())
        return;
    m.save();
    auto op = [&](Report& r) {
        s.reopen();
        auto w = s.ds->create_writer();
        Sim::acquire(*w, batch, r.results, false);
    };
    auto base = m.run([](faults::Control&) {}, op);
    if (base.status)
        fail("import-throws", cat("import gives ", base.status, " ", base.exception));
    count("operations");
    count("crash_points_known", base.events);
    unsigned max = opts.thorough ? 200 : 12;
    for (auto k : m.points(base.events, max))
    {
        m.restore();
        // Pieces of lines of text can look like shorter lines
        bool partial = rng.below(2) && conf.format != DataFormat::VM2;
        auto r       = m.run(
            [&](faults::Control& f) {
                f.crash_at      = k;
                f.crash_partial = partial;
            },
            op);
        if (!r.crashed())
            fail("no-crash", cat("point ", k, " of ", base.events, " gives ", r.status, " ", r.exception));
        s.note(cat("import ", batch.size(), " crash at ", k, "/", base.events, partial ? "p" : ""));
        distinct(cat(conf.desc(), k, partial));
        count("crashes");
        auto where = cat("crash at ", k, " of ", base.events);
        s.reopen();
        m.pass();
        // What was imported before is there, even before checking
        auto f = m.contents(where, batch, false, true);
        if (rng.chance(25))
        {
            // Importing again without checking may not work, but does not lose anything
            where += ", import again";
            m.pass();
            s.note("import again");
            m.twice = !s.conf.iseg();
            s.reopen();
            std::vector<R> results;
            try
            {
                auto w = s.ds->create_writer();
                Sim::acquire(*w, batch, results, false);
            }
            catch (std::exception& e)
            {
                count("unchecked_import_throws");
            }
            for (auto r : results)
                count(r == R::OK ? "unchecked_import_ok" : r == R::DUPLICATE ? "unchecked_import_duplicate" : "unchecked_import_error");
            s.reopen();
        }
        m.fix(where);
        f = m.contents(where + ", check", batch, true);
        count("batch_items_there", f.items.size() - std::min(f.items.size(), m.live0.size()));
        count("resurrected", f.resurrected);
        m.converge(where);
        f = m.contents(where + ", repack", batch, true);
        if (!m.twice)
            m.carry_on(where, f, batch);
        count("evals");
    }
}

/*
 * C04
 */

void c04(Case& c)
{
    auto& rng = c.rng;
    DsConf conf = make_conf(rng);
    conf.eatmydata = false;
    Sim m(c, conf);
    auto& s = m.s;
    build(m, true);
    if (s.live.empty())
        return;
    std::string name = rng.pick({"repack", "repack", "check", "check", "tar", "zip", "compress", "archive", "archive", "unarchive"});
    long long lo = to_secs(s.live.begin()->second.rt), hi = lo;
    for (auto& i : s.live)
    {
        lo = std::min(lo, to_secs(i.second.rt));
        hi = std::max(hi, to_secs(i.second.rt));
    }
    std::unique_ptr<dataset::SessionTimeOverride> o;
    std::string segment;
    bool index_lost = false;
    if (name == "archive")
    {
        long long cut = lo + rng.range(30, 100) * (hi - lo + 86400 * 40) / 100;
        o             = std::make_unique<dataset::SessionTimeOverride>(
            dataset::SessionTime::local_override(cut - to_secs(Time(1970, 1, 1, 0, 0, 0)) + 86400ll * 20));
        s.conf.archive_age = 20;
    }
    else if (name == "repack" && !s.closed.count(s.relpath(s.live.begin()->second)) && rng.chance(80))
    {
        // Make something to repack
        auto uids = History::pick_some(s, 40);
        if (!uids.empty())
        {
            s.reopen();
            for (auto u : uids)
                m.removed[u] = s.live[u];
            s.remove(uids);
        }
    }
    else if (name == "check")
    {
        // Make something to fix
        faults::Off off;
        std::set<std::string> segs;
        for (const auto& i : s.live)
            if (!s.closed.count(s.relpath(i.second)))
                segs.insert(s.relpath(i.second));
        for (const auto& rel : segs)
        {
            if (rng.chance(40))
                continue;
            index_lost = true;
            s.note("index lost " + rel);
            if (s.conf.iseg())
                fs::remove(s.path / (rel + ".index"));
            else
                fs::remove(s.path / (rel + rng.pick({".metadata", ".summary"})));
        }
        if (!s.conf.iseg() && rng.chance(20))
            fs::remove(s.path / "MANIFEST");
    }
    else if (name == "unarchive")
    {
        if (s.archived.empty())
            return;
        segment = *s.archived.begin();
    }
    // Timestamps have a resolution of one second
    m.pass(true);
    m.save();
    auto op = [&](Report& r) {
        s.reopen();
        if (name == "archive")
            s.run_op("repack", true);
        else if (name == "unarchive")
        {
            auto checker = std::dynamic_pointer_cast<dataset::segmented::Checker>(s.ds->create_checker());
            checker
                ->segment(std::dynamic_pointer_cast<dataset::segmented::Dataset>(s.ds)->segment_session->segment_from_relpath(
                    segment))
                ->unarchive();
        }
        else
            s.run_op(name, true);
    };
    auto base = m.run([](faults::Control&) {}, op);
    if (base.status)
        fail("operation-throws", cat(name, " gives ", base.status, " ", base.exception));
    count("operations");
    count("crash_points_known", base.events);
    unsigned max = opts.thorough ? 200 : 12;
    for (auto k : m.points(base.events, max))
    {
        m.restore();
        // Pieces of lines of text can look like shorter lines
        bool partial = rng.below(2) && conf.format != DataFormat::VM2;
        auto r       = m.run(
            [&](faults::Control& f) {
                f.crash_at      = k;
                f.crash_partial = partial;
            },
            op);
        if (!r.crashed())
            fail("no-crash", cat("point ", k, " of ", base.events, " gives ", r.status, " ", r.exception));
        s.note(cat(name, " crash at ", k, "/", base.events, partial ? "p" : ""));
        distinct(cat(conf.desc(), name, k, partial));
        count("crashes");
        count("crash_" + name);
        auto where = cat("crash at ", k, " of ", base.events);
        m.prefix = name + "/";
        if (name == "tar" || name == "zip")
        {
            // After the data has been converted, and before its index is changed
            for (const auto& e : fs::recursive_directory_iterator(m.master))
            {
                if (!e.is_directory())
                    continue;
                auto rel = fs::relative(e.path(), m.master).native();
                if (!fs::exists(m.master / (rel + "." + name)) && fs::exists(s.path / (rel + "." + name)) &&
                    (!fs::exists(s.path / rel) || snapshot(s.path / rel) != snapshot(m.master / rel)))
                {
                    m.prefix = "interrupted-" + name;
                    if (name == "tar")
                    {
                        // At least the data are all there
                        std::string tar = read_text(s.path / (rel + "." + name));
                        for (const auto& l : m.live0)
                            if (s.relpath(l.second) == rel)
                            {
                                const auto& d = l.second.data;
                                if (tar.find(std::string(d.begin(), d.end())) == std::string::npos)
                                    fail("tar/data-lost", cat(where, ": data of ", l.second.desc(), " is not in ", rel, ".tar"));
                                count("found_in_tar");
                            }
                    }
                }
            }
        }
        if (name == "archive" || name == "unarchive")
        {
            // .tar and .zip segments moved without their metadata
            for (const auto& e : fs::recursive_directory_iterator(s.path))
            {
                auto rel = fs::relative(e.path(), s.path).native();
                auto ext = e.path().extension();
                if ((ext != ".tar" && ext != ".zip") || fs::exists(m.master / rel))
                    continue;
                auto base = (s.path / rel.substr(0, rel.size() - 4)).native();
                if (!fs::exists(base + ".metadata") && !fs::exists(base + ".index"))
                    m.prefix = "interrupted-" + name;
            }
        }
        m.fix(where);
        auto f = m.contents(where + ", check", {}, true);
        count("resurrected", f.resurrected);
        auto live_saved    = m.live0;
        auto removed_saved = m.removed;
        if (name != "archive" && name != "unarchive" && s.archived.empty() && rng.chance(50))
        {
            // Something more is removed before what was interrupted is done again
            s.live = f.items;
            s.close_converted();
            std::set<unsigned> uids;
            unsigned percent = rng.pick({30, 60, 90});
            for (const auto& i : s.live)
                if (rng.chance(percent) && !s.closed.count(s.relpath(i.second)))
                    uids.insert(i.first);
            if (!uids.empty())
            {
                for (auto u : uids)
                {
                    m.removed[u] = s.live[u];
                    m.live0.erase(u);
                }
                s.reopen();
                m.pass();
                s.remove(uids);
                count("removed_after_crash", uids.size());
                f = m.contents(where + ", remove", {}, true);
            }
        }
        m.converge(where);
        f = m.contents(where + ", repack", {}, true);
        m.live0   = live_saved;
        m.removed = removed_saved;
        m.prefix = "";
        count("evals");
    }
}

/*
 * C02
 */

void c02(Case& c)
{
    auto& rng = c.rng;
    DsConf conf = make_conf(rng);
    // It is documented as being unsafe
    conf.eatmydata = false;
    Sim m(c, conf);
    auto& s = m.s;
    build(m, true);
    auto batch  = s.make_items(rng.range(1, 8));
    auto batch2 = s.make_items(rng.range(1, 4));
    if (batch.empty())
        return;
    m.save();
    bool second = !batch2.empty() && rng.chance(50);
    auto op     = [&](Report& r) {
        s.reopen();
        std::shared_ptr<dataset::Writer> w;
        try
        {
            w = s.ds->create_writer();
            Sim::acquire(*w, batch, r.results, false);
        }
        catch (std::exception& e)
        {
            r.exception = e.what();
            if (r.exception.empty())
                r.exception = "(empty)";
        }
        auto& f    = faults::ctl();
        f.fail_at  = -1;
        f.short_pending = false;
        if (second)
        {
            // Try again, with the same writer
            try
            {
                if (!w)
                    w = s.ds->create_writer();
                Sim::acquire(*w, batch2, r.results2, false);
            }
            catch (std::exception& e)
            {
                r.exception2 = e.what();
            }
        }
    };
    bool sec = second;
    second   = false;
    auto base = m.run([](faults::Control&) {}, op);
    second    = sec;
    if (base.status || !base.exception.empty())
        fail("import-throws", cat("import gives ", base.status, " ", base.exception));
    count("operations");
    count("fault_points_known", base.events);
    unsigned max = opts.thorough ? 200 : 12;
    for (auto k : m.points(base.events, max))
    {
        m.restore();
        bool shrt = rng.below(2) && conf.format != DataFormat::VM2, persistent = rng.chance(40);
        int err   = persistent ? ENOSPC : rng.pick({ENOSPC, EIO, EDQUOT});
        auto r    = m.run(
            [&](faults::Control& f) {
                f.fail_at         = k;
                f.fail_short      = shrt;
                f.fail_persistent = persistent;
                f.fail_errno      = err;
            },
            op);
        auto where = cat("fault at ", k, " of ", base.events, " ", r.failed_what, persistent ? " persistent" : "", " ", strerror(err));
        s.note(cat("import ", batch.size(), " ", where));
        if (r.status != 0)
            fail("dies", cat(where, ": process ends with ", r.status, " ", r.exception));
        if (!r.failed)
        {
            count("not_reached");
            continue;
        }
        distinct(cat(conf.desc(), k, shrt, persistent));
        count("faults");
        count("fault_" + r.failed_what.substr(0, r.failed_what.find(' ')));
        if (!r.exception.empty())
            count("threw");
        s.reopen();
        m.pass();
        // All the items, except those which were reported as not imported
        std::map<unsigned, R> outcome;
        for (size_t n = 0; n < batch.size(); ++n)
            outcome[batch[n].uid] = n < r.results.size() ? r.results[n] : R::ERROR;
        std::vector<Item> all = batch;
        if (second)
        {
            all.insert(all.end(), batch2.begin(), batch2.end());
            if (!r.exception2.empty())
                fail("second-import-throws", cat(where, ": then importing with the same writer throws ", r.exception2));
            for (size_t n = 0; n < batch2.size(); ++n)
                outcome[batch2[n].uid] = r.results2[n];
        }
        auto look = [&](const std::string& w, bool rm) {
            auto f = m.contents(w, all, rm);
            for (const auto& i : all)
            {
                bool there = f.items.count(i.uid), ok = outcome[i.uid] == R::OK;
                // What was stored before failing to make it visible can be found again by the next import
                bool late = r.failed_what.compare(0, 6, "rename") == 0 || r.failed_what.compare(0, 5, "times") == 0;
                if (there && !ok && !rm && late && second && !s.conf.iseg())
                    count("found_again");
                else if (there && !ok && !rm)
                    fail("failed-item-visible", cat(w, ": item ", i.desc(), " was not reported as imported (", outcome[i.uid], " ", r.exception, ")"));
                if (!there && ok && r.exception.empty())
                {
                    // Unless replaced by one that came later
                    auto k2   = s.unique_key(i);
                    bool over = false;
                    for (const auto& x : f.items)
                        over = over || (!k2.empty() && s.conf.replace != "no" && s.unique_key(x.second) == k2);
                    if (!over)
                        fail("imported-item-lost", cat(w, ": item ", i.desc(), " was reported as imported"));
                }
                if (there)
                    count("items_imported_anyway");
            }
            return f;
        };
        auto f = look(where, false);
        {
            // Summaries are those of the data
            Summary sum;
            s.ds->create_reader()->query_summary(s.session->matcher(""), sum);
            s.live    = f.items;
            auto diff = diff_summaries(s.model_summary(), summary_map(sum));
            if (!diff.empty())
                fail("summary", cat(where, ": summary ", diff));
        }
        m.fix(where);
        f = look(where + ", check", true);
        m.converge(where);
        f = look(where + ", repack", true);
        m.carry_on(where, f, {});
        count("evals");
    }
}

/*
 * C31
 */

void c31(Case& c)
{
    auto& rng = c.rng;
    DsConf conf = make_conf(rng);
    conf.eatmydata = false;
    Sim m(c, conf);
    auto& s = m.s;
    auto& ctl = faults::ctl();
    std::string suffix = cat(".", fmt_name(conf.format));
    std::vector<faults::Event> log;
    auto trace = [&](size_t upto) {
        std::string res;
        for (size_t i = upto > 25 ? upto - 25 : 0; i <= upto && i < log.size(); ++i)
            res += cat("\n  ", faults::kind_name(log[i].kind), " ", log[i].path.substr(std::min(log[i].path.size(), ctl.root.size())), " ",
                       log[i].dest.substr(std::min(log[i].dest.size(), ctl.root.size())), " ", log[i].size);
        return res;
    };
    /// Segment of a file, and if it is data
    auto segment_of = [&](const std::string& path, bool& data) {
        auto p = path.find(suffix, ctl.root.size());
        if (p == std::string::npos)
            return std::string();
        std::string rest = path.substr(p + suffix.size());
        data             = true;
        for (auto x : {".index", ".metadata", ".summary", ".lock", ".gz.idx"})
            if (rest.compare(0, strlen(x), x) == 0)
                data = false;
        if (rest == "/.sequence" || rest == "/.write-lock" || rest == "/.repack-lock")
            data = false;
        if (rest.find("lock") != std::string::npos)
            data = false;
        return path.substr(0, p + suffix.size());
    };
    auto observe = [&](const std::string& op, std::function<void()> f) {
        log.clear();
        ctl.log = &log;
        try
        {
            f();
        }
        catch (...)
        {
            ctl.log = nullptr;
            throw;
        }
        ctl.log = nullptr;
        // Files with data not flushed yet
        std::map<std::string, size_t> dirty;
        auto none_dirty = [&](const std::string& seg, size_t at, const std::string& what) {
            for (const auto& d : dirty)
            {
                bool data = false;
                auto sg   = segment_of(d.first, data);
                if (data && (seg.empty() || sg == seg))
                    fail("not-flushed", cat(op, ": ", what, " while ", d.first.substr(ctl.root.size()), " was written and not flushed", trace(at)));
            }
        };
        for (size_t i = 0; i < log.size(); ++i)
        {
            const auto& e = log[i];
            bool data     = false;
            auto seg      = segment_of(e.path, data);
            switch (e.kind)
            {
                case faults::WRITE: {
                    dirty[e.path] = i;
                    if (data)
                        count("data_writes");
                    break;
                }
                case faults::TRUNC:
                case faults::CREATE: break;
                case faults::SYNC:
                    if (data && dirty.count(e.path))
                        count("data_flushes");
                    dirty.erase(e.path);
                    if (!seg.empty() && e.path.find(".index") != std::string::npos)
                    {
                        none_dirty(seg, i, "index is committed");
                        count("index_commits");
                    }
                    break;
                case faults::RENAME:
                case faults::LINK: {
                    bool ddata = false;
                    auto dseg  = segment_of(e.dest, ddata);
                    if (ddata && dirty.count(e.path))
                        fail("not-flushed", cat(op, ": renamed to ", e.dest.substr(ctl.root.size()), " while not flushed", trace(i)));
                    if (ddata)
                    {
                        // Also of the files in a directory
                        for (const auto& d : dirty)
                        {
                            bool idata = false;
                            segment_of(d.first, idata);
                            if (idata && d.first.compare(0, e.path.size() + 1, e.path + "/") == 0 && d.first.find("/.sequence") == std::string::npos)
                                fail("not-flushed", cat(op, ": directory renamed to ", e.dest.substr(ctl.root.size()), " while ", d.first.substr(ctl.root.size()), " is not flushed", trace(i)));
                        }
                        count("data_renames");
                    }
                    else if (!dseg.empty() && e.dest.find(".metadata") != std::string::npos)
                    {
                        none_dirty(dseg, i, "metadata are replaced");
                        count("metadata_commits");
                    }
                    else if (e.dest.find("/MANIFEST") != std::string::npos)
                    {
                        none_dirty("", i, "manifest is replaced");
                        count("manifest_commits");
                    }
                    std::map<std::string, size_t> nd;
                    for (const auto& d : dirty)
                        if (d.first == e.path)
                            nd[e.dest] = d.second;
                        else if (d.first.compare(0, e.path.size() + 1, e.path + "/") == 0)
                            nd[e.dest + d.first.substr(e.path.size())] = d.second;
                        else
                            nd.insert(d);
                    dirty = nd;
                    break;
                }
                case faults::UNLINK: dirty.erase(e.path); break;
                default: break;
            }
        }
        none_dirty("", log.size(), "it has finished");
        count("observed");
        count("observed_" + op);
        count("events", log.size());
        distinct(cat(conf.desc(), op, log.size()));
    };
    unsigned n = rng.range(2, 6);
    for (unsigned k = 0; k < n; ++k)
    {
        m.pass();
        s.maybe_reopen();
        auto items = s.make_items(rng.range(1, 10));
        if (!items.empty())
            observe("import", [&] { s.import(items, rng.below(2), false); });
        if (s.live.empty())
            continue;
        if (rng.chance(40))
        {
            auto uids = History::pick_some(s, 30);
            if (!uids.empty())
                s.remove(uids);
        }
        m.pass();
        std::string op = rng.pick({"repack", "repack", "check", "tar", "zip", "compress", "archive", "none", "none", "none"});
        if (op == "none" || s.live.empty())
            continue;
        if (op == "archive")
            observe(op, [&] { move_to_archive(s, 20); });
        else
            observe(op, [&] { s.run_op(op, true); });
    }
    s.check_contents("at the end", false);
    count("evals");
}

} // namespace

int main(int argc, const char* argv[])
{
    return run_main(argc, argv, {{"C02", c02}, {"C03", c03}, {"C04", c04}, {"C31", c31}});
}
