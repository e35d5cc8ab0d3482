// Maintenance: damage reports, read only operations, fixing, ageing and
// segment naming (C06 C07 C08 C13 C14)
#include "common_ds.h"
#include <algorithm>
#include <arki/core/time.h>
#include <arki/dataset/archive.h>
#include <arki/dataset/step.h>
#include <arki/matcher/parser.h>
#include <arki/matcher/utils.h>
#include <arki/segment.h>
#include <arki/segment/session.h>
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

using namespace vh;
using namespace arki;

namespace {

namespace fs = std::filesystem;
typedef metadata::Inbound::Result R;

void set_mtime(const fs::path& p, time_t t)
{
    struct timeval tv[2] = {{t, 0}, {t, 0}};
    if (utimes(p.c_str(), tv) != 0)
        throw std::runtime_error("cannot set mtime of " + p.native());
}

time_t get_mtime(const fs::path& p)
{
    struct stat st;
    if (stat(p.c_str(), &st) != 0)
        throw std::runtime_error("cannot stat " + p.native());
    return st.st_mtime;
}

/// Where the data of a segment are: path with suffix, and kind: f(ile), d(ir), g(z), t(ar), z(ip)
struct Disk
{
    fs::path path;
    char kind = 0;
};

Disk find_disk(const fs::path& root, const std::string& rel)
{
    Disk d;
    fs::path p = root / rel;
    if (fs::is_directory(p))
        return {p, 'd'};
    if (fs::exists(p))
        return {p, 'f'};
    for (auto x : {std::make_pair(".gz", 'g'), std::make_pair(".tar", 't'), std::make_pair(".zip", 'z')})
        if (fs::exists(p.native() + x.first))
            return {p.native() + x.first, x.second};
    return d;
}

std::vector<fs::path> item_files(const fs::path& dir)
{
    std::vector<fs::path> res;
    for (const auto& e : fs::directory_iterator(dir))
        if (isdigit((unsigned char)e.path().filename().native()[0]))
            res.push_back(e.path());
    std::sort(res.begin(), res.end());
    return res;
}

/// States of all segments: "dataset:relpath" to state
std::map<std::string, std::string> states(Store& s, bool accurate)
{
    std::map<std::string, std::string> res;
    auto rec = std::make_shared<Recorder>();
    dataset::CheckerConfig cfg(rec, true);
    auto checker = std::dynamic_pointer_cast<dataset::segmented::Checker>(s.ds->create_checker());
    checker->segments_recursive(cfg, [&](dataset::segmented::Checker& c, dataset::segmented::CheckerSegment& seg) {
        auto st = seg.fsck(*rec, !accurate).state;
        std::string k = (&c == checker.get() ? "" : "archive:") + seg.path_relative().native();
        res[k] = st.to_string();
        count("states");
    });
    return res;
}

/// Segments mentioned by a check or by a simulated repack
std::set<std::string> mentioned(const Recorder& rec)
{
    std::set<std::string> res;
    for (const auto& e : rec.actions())
        if (!e.relpath.empty() && e.op.substr(0, 8) == "segment_")
            res.insert((e.ds.find("archive") != std::string::npos ? "archive:" : "") + e.relpath);
    return res;
}

/// What is known of a segment
struct SegModel
{
    long long last = 0;
    bool any = false, dirty = false, unknown = false;
};

/*
 * Damage
 */

struct Damage
{
    std::string what;
    std::string rel;            // segment, as named by states()
    bool accurate     = false;  // only a check which looks at data can see it
    bool all          = false;  // all segments are concerned
    bool manual       = false;  // cannot be fixed automatically
    bool index_lost   = false;  // data need to be found again by scanning
    std::set<unsigned> lost;    // items that are not intact anymore
    std::set<unsigned> copied;  // items of which a copy was added
};

/// Damage a segment. Returns false if this kind of damage does not apply
bool damage(Store& s, const std::string& rel, const std::string& kind, Damage& d)
{
    auto& rng      = s.rng;
    fs::path root  = s.path;
    std::string r  = rel;
    if (r.substr(0, 8) == "archive:")
    {
        r    = r.substr(8);
        root = s.path / ".archive" / "last";
    }
    bool iseg      = s.conf.iseg() && root == s.path;
    d.what         = kind;
    d.rel          = rel;
    auto disk      = find_disk(root, r);
    if (!disk.kind)
        return false;
    std::vector<unsigned> uids;
    for (const auto& i : s.live)
        if (s.relpath(i.second) == r)
            uids.push_back(i.first);
    fs::path base = root / r;
    fs::path meta = base.native() + (iseg ? ".index" : ".metadata");
    // Positions of the data
    std::map<unsigned, std::pair<size_t, size_t>> pos;
    {
        auto q = s.query("");
        for (size_t i = 0; i < q.items.size(); ++i)
            if (s.relpath(q.items[i]) == r)
                pos[q.items[i].uid] = {q.mds[i]->sourceBlob().offset, q.mds[i]->sourceBlob().size};
    }
    if (pos.empty())
        return false;
    auto victim = pos.begin();
    std::advance(victim, rng.below(pos.size()));
    auto itemfile = [&](size_t offset) {
        char b[32];
        snprintf(b, 32, "%06d.%s", (int)offset, fmt_name(s.conf.format));
        return base / b;
    };
    time_t mtime = get_mtime(disk.path);
    time_t dir_mtime = mtime;
    bool keep_mtime  = rng.chance(60);
    auto restore = [&](const fs::path& p, time_t t) {
        if (keep_mtime)
        {
            set_mtime(p, t);
            count("damage_with_old_mtime");
        }
    };
    if (kind == "removed")
    {
        fs::remove_all(disk.path);
        fs::remove(base.native() + ".gz.idx");
        for (auto u : uids)
            d.lost.insert(u);
    }
    else if (kind == "truncated")
    {
        d.manual = true;
        // Data newer than their index are scanned, and what was removed but not repacked is found
        d.index_lost = !keep_mtime;
        if (disk.kind == 'd')
        {
            auto f    = itemfile(victim->second.first);
            time_t ft = get_mtime(f);
            fs::resize_file(f, rng.below(victim->second.second));
            d.lost.insert(victim->first);
            restore(f, ft);
            restore(disk.path, dir_mtime);
        }
        else
        {
            size_t size = fs::file_size(disk.path);
            size_t end  = 0; // end of known data
            for (const auto& p : pos)
                end = std::max(end, p.second.first + p.second.second);
            size_t to;
            if (disk.kind == 'f')
                to = rng.below(end);
            else if (disk.kind == 't')
                // Cut some data, not just what marks the end
                to = rng.below(end);
            else
                to = rng.below(size);
            fs::resize_file(disk.path, to);
            for (const auto& p : pos)
                if (disk.kind != 'f' || p.second.first + p.second.second > to)
                    d.lost.insert(p.first);
            d.what += cat(" from ", size, " to ", to, " (data end at ", end, ")");
            restore(disk.path, mtime);
        }
    }
    else if (kind == "overwritten")
    {
        // Overwrite the beginning or the end of an item
        d.accurate = true;
        d.manual   = true;
        if (s.conf.format == DataFormat::JPEG || s.conf.format == DataFormat::NETCDF || s.conf.format == DataFormat::ODIMH5)
            return false;
        fs::path p = disk.path;
        size_t ofs = 0, size = victim->second.second;
        if (disk.kind == 'd')
            p = itemfile(victim->second.first);
        else if (disk.kind == 'f' || disk.kind == 't')
            ofs = victim->second.first;
        else if (disk.kind == 'z')
        {
            // Look for the data after the local header of the entry
            char b[32];
            snprintf(b, 32, "%06d.%s", (int)victim->second.first, fmt_name(s.conf.format));
            std::string zip = read_text(p);
            size_t h        = zip.find(std::string("PK\003\004"));
            while (h != std::string::npos && zip.compare(h + 30, strlen(b), b) != 0)
                h = zip.find(std::string("PK\003\004"), h + 4);
            if (h == std::string::npos)
                throw std::runtime_error("cannot find zip entry");
            ofs = h + 30 + (uint8_t)zip[h + 26] + 256 * (uint8_t)zip[h + 27] + (uint8_t)zip[h + 28] + 256 * (uint8_t)zip[h + 29];
        }
        else if (disk.kind == 'g')
        {
            // Somewhere in the compressed data, before the checksum
            ofs = 10 + rng.below(fs::file_size(p) - 26);
            size = 4;
            for (auto u : pos)
                d.lost.insert(u.first);
        }
        else
            return false;
        time_t ft = get_mtime(p);
        if (disk.kind == 'z' || disk.kind == 'g')
        {
            std::string all = read_text(p);
            for (int k = 0; k < 4; ++k)
                all[ofs + k] ^= 0x55 + k;
            write_text(p, all);
            d.lost.insert(victim->first);
            restore(p, ft);
            s.note(cat("damage overwritten ", disk.kind, " ", d.rel, " at ", ofs));
            count(cat("damage_overwritten_", disk.kind));
            return true;
        }
        bool tail = rng.below(2) && s.conf.format != DataFormat::VM2;
        {
            utils::sys::File f(p, O_WRONLY);
            f.pwrite("####", 4, tail ? ofs + size - 4 : ofs);
            f.close();
        }
        d.what += tail ? " end" : " begin";
        d.lost.insert(victim->first);
        restore(p, ft);
        restore(disk.path, dir_mtime);
    }
    else if (kind == "extra")
    {
        if (disk.kind == 'd')
        {
            auto files = item_files(disk.path);
            if (files.empty())
                return false;
            char b[32];
            snprintf(b, 32, "%06d.%s", atoi(files.back().filename().c_str()) + 1 + (int)rng.below(3), fmt_name(s.conf.format));
            write_text(base / b, read_text(files.back()));
            auto content = read_text(files.back());
            d.copied.insert(item_from_data(s.conf.format, std::vector<uint8_t>(content.begin(), content.end())).uid);
            restore(disk.path, dir_mtime);
        }
        else if (disk.kind == 'f')
        {
            std::string extra(rng.range(1, 2000), rng.below(2) ? 'x' : '\0');
            write_text(disk.path, read_text(disk.path) + extra);
            restore(disk.path, mtime);
        }
        else
            return false;
    }
    else if (kind == "item-file-removed")
    {
        if (disk.kind != 'd')
            return false;
        d.manual = true;
        fs::remove(itemfile(victim->second.first));
        d.lost.insert(victim->first);
        restore(disk.path, dir_mtime);
    }
    else if (kind == "meta-removed")
    {
        fs::remove(meta);
        d.index_lost = true;
        if (disk.kind == 't' || disk.kind == 'z')
            d.manual = true;
    }
    else if (kind == "summary-removed")
    {
        if (iseg)
            return false;
        fs::remove(base.native() + ".summary");
        d.index_lost = true;
    }
    else if (kind == "newer-data")
    {
        // The timestamp of a directory segment is that of its sequence file
        // Nothing is dated in the future
        time_t t = get_mtime(meta) - rng.below(20);
        set_mtime(disk.kind == 'd' ? base / ".sequence" : disk.path, t);
        set_mtime(meta, t - rng.range(1, 5000));
        if (disk.kind == 't' || disk.kind == 'z')
            d.manual = true;
        d.index_lost = true;
    }
    else if (kind == "manifest-entry-removed")
    {
        if (iseg || !fs::exists(root / "MANIFEST"))
            return false;
        std::string out;
        std::istringstream in(read_text(root / "MANIFEST"));
        std::string line;
        bool found = false;
        while (std::getline(in, line))
            if (line.substr(0, r.size() + 1) == r + ";")
                found = true;
            else
                out += line + "\n";
        if (!found)
            return false;
        write_text(root / "MANIFEST", out);
        d.index_lost = true;
    }
    else if (kind == "manifest-removed")
    {
        if (iseg || !fs::exists(root / "MANIFEST") || root != s.path)
            return false;
        fs::remove(root / "MANIFEST");
        d.all        = true;
        d.index_lost = true;
    }
    else if (kind == "unknown")
    {
        // Copy the segment, but not what describes it, to another name
        if (disk.kind != 'f' && disk.kind != 'g')
            return false;
        if (s.conf.step == "single")
            return false;
        std::string n;
        for (unsigned k = 0; k < 20 && n.empty(); ++k)
        {
            Time t    = add_seconds(s.live[uids[0]].rt, 86400ll * rng.range(-800, 800));
            auto name = seg_name(s.conf.step, t) + "." + fmt_name(s.conf.format);
            if (!find_disk(root, name).kind)
                n = name;
        }
        if (n.empty())
            return false;
        auto dst = (root / n).native() + (disk.kind == 'g' ? ".gz" : "");
        fs::create_directories(fs::path(dst).parent_path());
        fs::copy_file(disk.path, dst);
        if (fs::exists(base.native() + ".gz.idx"))
            fs::copy_file(base.native() + ".gz.idx", (root / n).native() + ".gz.idx");
        d.rel    = (root == s.path ? "" : "archive:") + n;
        d.manual = true;
    }
    else if (kind == "foreign")
    {
        // Data which belongs to another segment, properly indexed
        if ((disk.kind != 'f' && disk.kind != 'd') || root != s.path || s.conf.step == "single")
            return false;
        Item i = s.live[rng.pick(uids)];
        i.uid  = s.gen.next_uid++;
        i.rt   = add_seconds(i.rt, 86400ll * (rng.below(2) ? 800 : -800));
        i.build(rng, rng.below(50));
        std::string data(i.data.begin(), i.data.end());
        if (disk.kind == 'd')
        {
            auto files = item_files(disk.path);
            if (files.empty())
                return false;
            char b[32];
            snprintf(b, 32, "%06d.%s", atoi(files.back().filename().c_str()) + 1, fmt_name(s.conf.format));
            write_text(base / b, data);
        }
        else
            write_text(disk.path, read_text(disk.path) + data + (s.conf.format == DataFormat::VM2 ? "\n" : ""));
        d.manual = true;
        bool done = with_segment(s, r, [](auto& seg) {
            Recorder rec;
            seg.rescan(rec);
        });
        if (!done)
            throw std::logic_error("segment " + r + " not found");
    }
    else
        throw std::logic_error("unknown damage " + kind);
    s.note(cat("damage ", kind, " ", disk.kind, " ", d.rel, " ", d.what, keep_mtime ? " (old mtime)" : ""));
    count("damage_" + kind);
    count(cat("damage_on_", disk.kind));
    return true;
}

const std::vector<std::string> damages = {"removed",         "truncated",  "overwritten",            "extra",
                                          "item-file-removed", "meta-removed", "summary-removed",      "newer-data",
                                          "manifest-entry-removed", "manifest-removed", "unknown"};

std::string random_segment(Store& s)
{
    std::set<std::string> segs;
    for (const auto& i : s.live)
        segs.insert((s.archived.count(s.relpath(i.second)) ? "archive:" : "") + s.relpath(i.second));
    if (segs.empty())
        return "";
    auto i = segs.begin();
    std::advance(i, s.rng.below(segs.size()));
    return *i;
}

/*
 * C06
 */

void c06(Case& c)
{
    auto& rng = c.rng;
    ConfGen cg;
    cg.steps    = {"daily", "daily", "monthly", "yearly", "weekly"};
    DsConf conf = cg.make(rng);
    Store s(rng, conf, c.dir / "ds");
    s.note("start");

    // History, keeping track of what each segment should look like
    std::map<std::string, SegModel> model;
    auto repacked = [&] {
        model.clear();
        for (const auto& i : s.live)
        {
            auto& m = model[s.relpath(i.second)];
            long long t = to_secs(i.second.rt);
            m.last = m.any ? std::max(m.last, t) : t;
            m.any  = true;
        }
    };
    bool sorted_only = rng.chance(40);
    unsigned n       = rng.range(1, 4);
    for (unsigned b = 0; b < n; ++b)
    {
        s.maybe_reopen();
        auto items = s.make_items(rng.range(1, 12));
        if (items.empty())
            break;
        if (sorted_only)
        {
            std::stable_sort(items.begin(), items.end(),
                             [](const Item& a, const Item& b) { return to_secs(a.rt) < to_secs(b.rt); });
            std::vector<Item> keep;
            for (auto& i : items)
                if (!model[s.relpath(i)].any || model[s.relpath(i)].last <= to_secs(i.rt))
                    keep.push_back(i);
            items = keep;
            if (items.empty())
                continue;
        }
        auto before = s.live;
        auto o      = s.import(items, rng.below(2), false);
        // Items which are replaced leave holes
        for (const auto& i : before)
            if (!s.live.count(i.first))
                model[s.relpath(i.second)].dirty = true;
        // Items are sorted by reference time before being appended
        std::vector<std::pair<Item, R>> res = o.results;
        std::stable_sort(res.begin(), res.end(),
                         [](const std::pair<Item, R>& a, const std::pair<Item, R>& b) { return to_secs(a.first.rt) < to_secs(b.first.rt); });
        for (const auto& r : res)
        {
            if (r.second != R::OK)
                continue;
            auto& m = model[s.relpath(r.first)];
            // Replaced inside the same batch
            if (!s.live.count(r.first.uid))
                m.dirty = true;
            if (m.any && to_secs(r.first.rt) < m.last)
                m.dirty = true;
            m.last = m.any ? std::max(m.last, to_secs(r.first.rt)) : to_secs(r.first.rt);
            m.any  = true;
        }
        if (!s.live.empty() && rng.chance(20))
        {
            auto uids = History::pick_some(s, 30);
            for (auto u : uids)
                model[s.relpath(s.live[u])].dirty = true;
            if (!uids.empty())
                s.remove(uids);
        }
        if (rng.chance(25))
        {
            s.run_check(true);
            s.run_repack(true);
            repacked();
        }
    }
    if (rng.chance(40))
    {
        // Conversions
        auto before = s.closed;
        s.maybe_reopen();
        s.run_op(rng.pick({"tar", "zip", "compress"}), true);
        for (const auto& r : s.closed)
            if (!before.count(r))
                model[r].unknown = model[r].dirty;
        if (rng.chance(50))
        {
            s.run_check(true);
            s.run_repack(true);
            repacked();
        }
    }
    if (s.live.empty())
        return;
    std::set<std::string> alive;
    for (const auto& i : s.live)
        alive.insert(s.relpath(i.second));
    if (rng.chance(25))
    {
        // Archival repacks first
        s.run_check(true);
        s.run_repack(true);
        repacked();
        move_to_archive(s, 20);
    }
    s.maybe_reopen();

    // The state must be what the history says
    for (int accurate = 0; accurate < 2; ++accurate)
    {
        auto st = states(s, accurate);
        for (const auto& r : alive)
        {
            auto k = (s.archived.count(r) ? "archive:" : "") + r;
            auto i = st.find(k);
            if (i == st.end())
                fail("segment-not-checked", cat("segment ", k, " with data is not checked"));
            const auto& m = model[r];
            if (m.unknown)
            {
                if (i->second != "OK" && i->second != "DIRTY")
                    fail("false-damage", cat("segment ", k, " is ", i->second));
            }
            else if (m.dirty ? i->second != "DIRTY" : i->second != "OK")
                fail(m.dirty ? "hole-not-reported" : "false-damage",
                     cat("segment ", k, " is ", i->second, " but should be ", m.dirty ? "DIRTY" : "OK", " accurate=", accurate));
            count(m.dirty ? "segments_dirty" : "segments_ok");
        }
        for (const auto& i : st)
        {
            bool known = false;
            for (const auto& r : alive)
                known |= i.first == (s.archived.count(r) ? "archive:" : "") + r;
            // Segments which do not have any data left
            if (!known && i.second != "DELETED" && i.second != "OK")
                fail("false-damage", cat("segment ", i.first, " without data is ", i.second));
        }
        auto rec = s.run_check(false, accurate);
        auto men = mentioned(rec);
        for (const auto& r : alive)
        {
            auto k = (s.archived.count(r) ? "archive:" : "") + r;
            if ((st[k] == "OK") == (bool)men.count(k))
                fail("report-differs", cat("segment ", k, " is ", st[k], " but check reports ", rec.desc()));
        }
    }
    count("evals");

    // Damage something
    Damage d;
    bool done = false;
    for (unsigned k = 0; k < 10 && !done; ++k)
    {
        auto rel  = random_segment(s);
        auto kind = rng.chance(8) ? std::string("foreign") : rng.pick(damages);
        if (rel.empty())
            return;
        s.reopen();
        auto before = states(s, true);
        // Segments which are dirty already are good as well, but extra data there say nothing new
        if (before[rel] != "OK" && (kind == "extra" || before[rel] != "DIRTY"))
            continue;
        d = Damage();
        if (!damage(s, rel, kind, d))
            continue;
        done = true;
        s.reopen();
        bool accurate = d.accurate || rng.chance(30);
        std::map<std::string, std::string> after;
        try
        {
            after = states(s, accurate);
        }
        catch (std::exception& e)
        {
            fail("check-throws:" + kind, cat("check of ", d.rel, " throws: ", e.what()));
        }
        if (before[rel] == "DIRTY" && after[d.rel] == "DIRTY" && kind != "unknown")
            fail("damage-not-reported:" + kind, cat("segment ", d.rel, " is still only DIRTY after damage ", d.what));
        if (!after.count(d.rel) || after[d.rel] == "OK")
            fail("damage-not-reported:" + kind, cat("segment ", d.rel, " is ", after.count(d.rel) ? after[d.rel] : "not checked",
                                                   " after damage ", d.what));
        if (kind == "foreign" && after[d.rel].find("CORRUPTED") == std::string::npos)
            fail("damage-not-reported:foreign", cat("segment ", d.rel, " with data that belong elsewhere is ", after[d.rel]));
        if (d.all)
        {
            for (const auto& r : alive)
                if (!s.archived.count(r) && after[r] == "OK")
                    fail("damage-not-reported:" + kind, cat("segment ", r, " is OK after damage ", d.what));
        }
        else
            for (const auto& i : before)
                if (i.first != d.rel && after[i.first] != i.second)
                    fail("damage-elsewhere:" + kind, cat("segment ", i.first, " goes from ", i.second, " to ", after[i.first],
                                                        " after damage to ", d.rel));
        // And the user is told
        Recorder rec;
        try
        {
            rec = s.run_check(false, accurate);
        }
        catch (std::exception& e)
        {
            fail("check-throws:" + kind, cat("check throws: ", e.what()));
        }
        auto men = mentioned(rec);
        if (!men.count(d.rel))
        {
            auto rec2 = s.run_repack(false);
            if (!mentioned(rec2).count(d.rel) && !rec2.n("operation_aborted"))
                fail("damage-not-told:" + kind, cat("segment ", d.rel, " is ", after[d.rel], " after damage ", d.what,
                                                   " but check reports ", rec.desc(), " and repack ", rec2.desc()));
        }
        count("damages");
        distinct(cat(conf.desc(), "/", d.what.substr(0, 12), "/", find_disk(s.path, rel).kind, "/", accurate));
    }
    sample(conf.desc() + " | " + s.log);
}

/*
 * C07
 */

/// Content of all that matters in a dataset
std::map<std::string, std::string> ds_snapshot(Store& s)
{
    std::map<std::string, std::string> res;
    for (auto& e : snapshot(s.path))
    {
        // Caches of summaries
        if (e.first.find(".summaries") != std::string::npos)
            continue;
        if (e.first == "summary" || e.first.find("/summary") != std::string::npos)
            continue;
        // Empty directories
        if (e.first == ".archive")
            continue;
        res.insert(e);
    }
    return res;
}

std::multiset<std::string> ops_of(const Recorder& rec, const std::set<std::string>& ops)
{
    std::multiset<std::string> res;
    for (const auto& e : rec.events)
        if (ops.count(e.op))
            res.insert(e.ds + ":" + e.op + ":" + e.relpath);
    return res;
}

std::string join(const std::multiset<std::string>& s)
{
    std::string r;
    for (const auto& i : s)
        r += i + " ";
    return r;
}

const std::map<std::string, std::set<std::string>> predicted = {
    {"check", {"segment_rescan", "segment_deindex", "segment_manual_intervention"}},
    {"check-accurate", {"segment_rescan", "segment_deindex", "segment_manual_intervention"}},
    {"repack", {"segment_repack", "segment_archive", "segment_remove", "segment_deindex"}},
    {"tar", {"segment_tar"}},
    {"zip", {"segment_tar"}},
    {"compress", {"segment_compress"}},
    {"remove_old", {"segment_remove"}},
    {"remove_all", {"segment_remove"}},
};

Recorder plain_op(Store& s, const std::string& op, bool fix, const std::string& filter, bool online, bool offline)
{
    auto rec = std::make_shared<Recorder>();
    dataset::CheckerConfig cfg(rec, !fix);
    cfg.online  = online;
    cfg.offline = offline;
    if (!filter.empty())
        cfg.segment_filter = s.session->matcher(filter);
    auto checker = s.ds->create_checker();
    s.note(op + (fix ? "" : "(dry)") + (filter.empty() ? "" : " [" + filter + "]"));
    if (op == "check")
        checker->check(cfg);
    else if (op == "check-accurate")
    {
        cfg.accurate = true;
        checker->check(cfg);
    }
    else if (op == "repack")
        checker->repack(cfg);
    else if (op == "tar")
        checker->tar(cfg);
    else if (op == "zip")
        checker->zip(cfg);
    else if (op == "compress")
        checker->compress(cfg, s.conf.gz_group >= 0 ? s.conf.gz_group : 512);
    else if (op == "remove_old")
        checker->remove_old(cfg);
    else if (op == "remove_all")
        checker->remove_all(cfg);
    else if (op == "state")
        checker->state(cfg);
    else if (op == "issue51")
        checker->check_issue51(cfg);
    count("op_" + op);
    return *rec;
}

void c07(Case& c)
{
    auto& rng = c.rng;
    ConfGen cg;
    cg.steps    = {"daily", "daily", "monthly", "yearly"};
    DsConf conf = cg.make(rng);
    Store s(rng, conf, c.dir / "ds");
    s.note("start");
    build_mixed(s);
    if (s.live.empty())
        return;
    bool damaged = rng.chance(40);
    if (damaged)
    {
        unsigned n = rng.range(1, 2);
        for (unsigned i = 0; i < n; ++i)
        {
            Damage d;
            auto kind = rng.pick(damages);
            if (kind == "overwritten" || (i && (kind == "truncated" || kind == "unknown")))
                continue;
            try
            {
                damage(s, random_segment(s), kind, d);
            }
            catch (std::exception& e)
            {
                // Damaged already in a way that does not allow to query it
                break;
            }
            s.reopen();
            if (kind == "truncated" || kind == "unknown")
                break;
        }
    }
    // Ages which affect part of the dataset
    long long lo = to_secs(s.live.begin()->second.rt), hi = lo;
    for (auto& i : s.live)
    {
        lo = std::min(lo, to_secs(i.second.rt));
        hi = std::max(hi, to_secs(i.second.rt));
    }
    long long cut = lo + rng.range(0, 100) * (hi - lo + 86400 * 40) / 100;
    auto o        = dataset::SessionTime::local_override(cut - to_secs(Time(1970, 1, 1, 0, 0, 0)) + 86400ll * 30);
    if (rng.chance(40))
        s.conf.archive_age = rng.range(20, 40);
    if (rng.chance(30))
        s.conf.delete_age = rng.range(25, 60);
    s.reopen();
    {
        // Whatever is done once when a dataset is first accessed after being damaged
        std::error_code ec;
        s.ds->create_reader();
        s.ds->create_checker();
    }
    auto before = ds_snapshot(s);
    unsigned n  = rng.range(2, 5);
    for (unsigned k = 0; k < n; ++k)
    {
        s.maybe_reopen();
        std::string op = rng.pick({"query", "summary", "bytes", "check", "check-accurate", "repack", "tar", "zip", "compress",
                                   "remove_old", "remove_all", "state", "issue51"});
        try
        {
            ExprGen eg(rng);
            for (auto& i : s.live)
                eg.pool.push_back(i.second);
            if (op == "query")
                s.query(eg.make().text, rng.pick({"", "reftime", "-product", "day:origin"}));
            else if (op == "summary")
            {
                Summary sum;
                s.ds->create_reader()->query_summary(s.session->matcher(eg.make().text), sum);
            }
            else if (op == "bytes")
            {
                std::vector<uint8_t> buf;
                query::Bytes q;
                q.setData(s.session->matcher(eg.make().text));
                auto out = StreamOutput::create(buf);
                s.ds->create_reader()->query_bytes(q, *out);
            }
            else
            {
                if (op == "issue51" && (conf.dirs() || !s.closed.empty() || damaged))
                    continue;
                std::string filter;
                if (rng.chance(30))
                    filter = cat("reftime:>=", from_secs(lo + rng.below(hi - lo + 1)).to_iso8601().substr(0, 10));
                bool online = rng.chance(80), offline = rng.chance(80);
                plain_op(s, op, false, filter, online, offline);
            }
        }
        catch (std::exception& e)
        {
            if (!damaged)
                fail("throws:" + op, cat(op, " throws ", e.what()));
            count("damaged_throws");
        }
        auto after = ds_snapshot(s);
        auto diff  = diff_snapshots(before, after);
        if (!diff.empty())
            fail("modified:" + op, cat(op, " modifies", diff));
        count("unchanged_" + op);
        count("evals");
    }
    // What was announced is what is done
    std::string op = rng.pick({"check", "check-accurate", "repack", "repack", "tar", "zip", "compress", "remove_old", "remove_all"});
    std::string filter;
    if (rng.chance(30))
        filter = cat("reftime:>=", from_secs(lo + rng.below(hi - lo + 1)).to_iso8601().substr(0, 10));
    bool online = rng.chance(80), offline = rng.chance(80);
    s.maybe_reopen();
    Recorder dry, real;
    bool threw = false;
    try
    {
        dry = plain_op(s, op, false, filter, online, offline);
    }
    catch (std::exception& e)
    {
        if (!damaged)
            fail("throws:" + op, cat(op, " throws ", e.what()));
        threw = true;
    }
    s.maybe_reopen();
    try
    {
        real = plain_op(s, op, true, filter, online, offline);
        if (threw)
            count("real_ok_after_dry_throws");
    }
    catch (std::exception& e)
    {
        if (!damaged)
            fail("throws:" + op, cat(op, " throws ", e.what()));
        threw = true;
    }
    if (!threw)
    {
        auto a = ops_of(dry, predicted.at(op)), b = ops_of(real, predicted.at(op));
        if (a != b)
            fail("announced-differs:" + op, cat(op, " announced {", join(a), "} but did {", join(b), "}: dry ", dry.desc(), " real ", real.desc()));
        count("announced", a.size());
        count("compared_" + op);
        distinct(cat(conf.desc(), "/", op, "/", join(a)));
    }
    sample(conf.desc() + " | " + s.log);
}

/*
 * C08
 */

void c08(Case& c)
{
    auto& rng = c.rng;
    ConfGen cg;
    cg.steps    = {"daily", "daily", "daily", "monthly", "yearly"};
    DsConf conf = cg.make(rng);
    Store s(rng, conf, c.dir / "ds");
    s.note("start");
    auto ever = std::map<unsigned, Item>();
    History h;
    h.run(s);
    if (s.live.empty())
        return;
    if (rng.chance(25))
        move_to_archive(s, 20);
    s.reopen();
    std::set<unsigned> lost, copied;
    std::set<std::string> index_lost; // segments where removed data can show up again
    bool manual = false, all_lost = false;
    unsigned n = rng.range(1, 3), done = 0;
    std::set<std::string> hit;
    for (unsigned i = 0; i < n * 3 && done < n; ++i)
    {
        Damage d;
        auto kind = rng.pick(damages);
        auto rel  = random_segment(s);
        // One damage on each segment, as damages of data interact
        if (hit.count(rel) || (kind == "manifest-removed" && !hit.empty()) || kind == "overwritten" || kind == "unknown")
            continue;
        auto st = states(s, false);
        try
        {
            if (!damage(s, rel, kind, d))
                continue;
        }
        catch (std::exception& e)
        {
            // Damaged data cannot be queried as a whole
            break;
        }
        hit.insert(rel);
        ++done;
        lost.insert(d.lost.begin(), d.lost.end());
        copied.insert(d.copied.begin(), d.copied.end());
        if (d.index_lost || kind == "extra")
            index_lost.insert(rel);
        if (d.all)
            all_lost = true;
        if (d.manual)
            manual = true;
        if (kind == "truncated" || kind == "item-file-removed" || kind == "removed" || d.all)
            break;
        s.reopen();
    }
    if (!done)
        return;
    distinct(cat(conf.desc(), "/", s.log.substr(s.log.rfind("damage") == std::string::npos ? 0 : s.log.rfind("damage"), 30)));
    s.reopen();
    bool accurate = rng.chance(30);
    // Some damage is only seen by scanning, or asks for manual intervention
    try
    {
        s.run_check(true, accurate);
    }
    catch (std::exception& e)
    {
        if (!manual)
            fail("fix-throws", cat("check throws: ", e.what()));
        count("manual_throws");
        return;
    }
    s.maybe_reopen();
    if (!manual || rng.chance(50))
    {
        try
        {
            s.run_op("repack", true);
        }
        catch (std::exception& e)
        {
            if (!manual)
                fail("repack-throws", cat("repack throws: ", e.what()));
            count("manual_throws");
            return;
        }
    }
    s.maybe_reopen();
    // What was there and is intact is still there
    std::map<unsigned, unsigned> seen;
    std::map<unsigned, Item> now;
    {
        std::vector<std::shared_ptr<Metadata>> mds;
        auto reader = s.ds->create_reader();
        try
        {
            reader->query_data(query::Data(s.session->matcher(""), true), [&](std::shared_ptr<Metadata> md) {
                mds.push_back(md);
                return true;
            });
        }
        catch (std::exception& e)
        {
            if (!manual)
                fail("query-throws", cat("query throws: ", e.what()));
            count("manual_throws");
            return;
        }
        for (auto& md : mds)
        {
            std::vector<uint8_t> data;
            try
            {
                data = md->get_data().read();
            }
            catch (std::exception& e)
            {
                if (!manual)
                    fail("unreadable", cat("cannot read ", md->sourceBlob().to_string(), ": ", e.what()));
                continue;
            }
            Item i;
            try
            {
                i = item_from_data(conf.format, data);
            }
            catch (std::exception& e)
            {
                if (!manual)
                    fail("wrong-bytes", cat(md->sourceBlob().to_string(), " gives ", hex(data)));
                continue;
            }
            // What remains of a damaged item can look like an item
            if (manual && lost.count(i.uid))
                continue;
            // A copy is legitimate once found by scanning, if nothing says that items are unique
            if (seen[i.uid]++ && ((s.conf.iseg() && !s.archived.count(s.relpath(i))) || seen[i.uid] > 2 || !copied.count(i.uid)))
                fail("item-twice", cat("item ", i.desc(), " is there twice"));
            auto l = s.live.find(i.uid);
            if (l != s.live.end())
            {
                s.check_item("after fix", l->second, *md, data);
                now[i.uid] = l->second;
            }
            else if (!all_lost && !index_lost.count(s.relpath(i)) && !index_lost.count("archive:" + s.relpath(i)))
                fail("removed-item-back", cat("removed item ", i.desc(), " is there again"));
            else
                count("removed_items_found_again");
        }
    }
    for (const auto& i : s.live)
        if (!seen.count(i.first))
        {
            if (lost.count(i.first))
            {
                count("lost_items_gone");
                continue;
            }
            fail("lost-item", cat("intact item ", i.second.desc(), " of ", s.relpath(i.second), " is not queryable"));
        }
        else
            count("items_kept");
    count("evals");
    if (manual)
    {
        count("manual");
        return;
    }
    // Nothing left to do
    for (int k = 0; k < 2; ++k)
    {
        auto rec = s.run_check(false, k);
        if (!rec.actions().empty())
            fail("not-converged", cat("after check and repack, check reports ", rec.desc()));
        for (const auto& st : states(s, k))
            if (st.second != "OK")
                fail("not-converged", cat("after check and repack, ", st.first, " is ", st.second));
    }
    auto rec = s.run_op("repack", false);
    if (!rec.actions().empty())
        fail("not-converged", cat("after check and repack, repack would ", rec.desc()));
    count("converged");
    // A second round does not change anything
    auto before = ds_snapshot(s);
    s.run_check(true, rng.below(2));
    s.run_op("repack", true);
    for (const auto& e : diff_snapshots(before, ds_snapshot(s)) == "" ? std::vector<std::string>() : std::vector<std::string>{"x"})
    {
        (void)e;
        std::string d = diff_snapshots(before, ds_snapshot(s));
        // sqlite changes counters of the file
        if (d.find("added") != std::string::npos || d.find("removed") != std::string::npos)
            fail("not-idempotent", "a second check and repack change files:" + d);
    }
    // And it can be used
    auto items = s.make_items(rng.range(1, 5));
    if (!items.empty())
    {
        auto o = s.import(items, false, false);
        if (!o.exception.empty())
            fail("import-throws", o.exception);
        auto r = s.query("");
        std::set<unsigned> there;
        for (auto& i : r.items)
            there.insert(i.uid);
        for (const auto& i : o.results)
            if (i.second == R::OK && s.live.count(i.first.uid) && !there.count(i.first.uid))
                fail("import-lost", cat("item imported after fixing is not there: ", i.first.desc()));
    }
    sample(conf.desc() + " | " + s.log);
}

/*
 * C13
 */

long long epoch() { return to_secs(Time(1970, 1, 1, 0, 0, 0)); }

void c13(Case& c)
{
    auto& rng = c.rng;
    ConfGen cg;
    cg.steps    = {"daily", "daily", "monthly", "yearly", "weekly", "biweekly"};
    DsConf conf = cg.make(rng);
    Store s(rng, conf, c.dir / "ds");
    s.note("start");
    long long begin = to_secs(s.gen.begin);
    long long span  = s.gen.span_hours * 3600ll;
    long long now   = begin + span / 3 + rng.below(86400);
    unsigned rounds = rng.range(2, 5);
    std::map<unsigned, Item> everything;
    for (unsigned round = 0; round < rounds; ++round)
    {
        auto o = dataset::SessionTime::local_override(now - epoch());
        // Import, possibly in the past
        s.conf.archive_age = rng.chance(75) ? rng.range(1, (int)(span / 86400) + 10) : -1;
        s.conf.delete_age  = rng.chance(40) ? rng.range(1, (int)(span / 86400) + 20) : -1;
        s.reopen();
        s.note(cat("now=", from_secs(now).to_iso8601(), " archive=", s.conf.archive_age, " delete=", s.conf.delete_age));
        auto age = [&](int days) { return now - now % 86400 - days * 86400ll; };
        {
            // Data can also go to segments part of which is archived already
            std::vector<Item> items;
            std::set<std::string> reopened;
            for (unsigned k = 0; k < 10; ++k)
            {
                Item i = s.gen.make();
                if (s.archived.count(s.relpath(i)) || reopened.count(s.relpath(i)))
                {
                    // Uniqueness does not look at archived data
                    auto k    = s.unique_key(i);
                    bool same = false;
                    for (const auto& l : s.live)
                        same = same || (!k.empty() && s.unique_key(l.second) == k);
                    for (const auto& l : items)
                        same = same || (!k.empty() && s.unique_key(l) == k);
                    if (same)
                        continue;
                }
                if (s.closed.count(s.relpath(i)))
                {
                    // Those which were archived can be written again, those which were converted cannot
                    if (!s.archived.count(s.relpath(i)) || rng.chance(50) || find_disk(s.path, s.relpath(i)).kind)
                        continue;
                    count("import_over_archived");
                    s.closed.erase(s.relpath(i));
                    s.archived.erase(s.relpath(i));
                    reopened.insert(s.relpath(i));
                    s.note("over " + s.relpath(i));
                }
                items.push_back(i);
            }
            if (!items.empty())
            {
                auto res = s.import(items, false, false);
                if (!res.exception.empty())
                    fail("import-throws", res.exception);
                for (size_t k = 0; k < res.results.size(); ++k)
                {
                    const Item& i = res.results[k].first;
                    if (s.conf.delete_age != -1 && to_secs(i.rt) < age(s.conf.delete_age))
                        count("import_older_than_delete");
                    else if (s.conf.archive_age != -1 && to_secs(i.rt) < age(s.conf.archive_age))
                    {
                        count("import_older_than_archive");
                        if (res.results[k].second == R::OK)
                            fail("old-import-accepted", cat("item ", i.desc(), " is older than the archive age"));
                    }
                    if (res.results[k].second != res.expected[k])
                        fail("import-result", cat("item ", i.desc(), " expected ", res.expected[k], " got ", res.results[k].second));
                }
            }
        }
        s.check_contents("after import", false);
        // Convert some
        if (rng.chance(20))
        {
            s.run_op(rng.pick({"tar", "zip", "compress"}), true);
            s.check_contents("after conversion", false);
        }
        // A dataset that was just created is not repacked before being checked
        if (fs::exists(s.path / "needs-check-do-not-pack"))
            s.run_check(true, false);
        // Age: what is older than the limit is a matter of the whole segment
        auto op = rng.pick({"repack", "repack", "remove_old", "check"});
        std::map<std::string, std::vector<unsigned>> segs;
        for (const auto& i : s.live)
            segs[s.relpath(i.second)].push_back(i.first);
        std::set<std::string> on_disk = s.segments_on_disk();
        std::set<std::string> want_archived, want_deleted, may_delete;
        for (const auto& g : segs)
        {
            auto sp      = seg_span(conf.step, s.live[g.second[0]].rt);
            long long e  = to_secs(sp.second);
            bool online  = on_disk.count(g.first);
            bool old_del = s.conf.delete_age != -1 && e <= age(s.conf.delete_age);
            bool old_arc = s.conf.archive_age != -1 && e <= age(s.conf.archive_age);
            if (old_del)
            {
                if (op == "remove_old")
                    may_delete.insert(g.first); // also in the archive
                if (online && (op == "repack" || op == "remove_old"))
                    want_deleted.insert(g.first);
            }
            else if (old_arc && online && op == "repack")
                want_archived.insert(g.first);
        }
        // First say what would be done
        {
            auto dry = s.run_op(op, false);
            s.check_contents(std::string(op) + " dry", false);
            for (const auto& r : want_archived)
                if (!dry.has("segment_archive", r))
                    fail("archival-not-announced", cat("segment ", r, ": ", dry.desc()));
            for (const auto& r : want_deleted)
                if (!dry.has("segment_remove", r))
                    fail("deletion-not-announced", cat("segment ", r, ": ", dry.desc()));
            for (const auto& e : dry.events)
            {
                if (e.op == "segment_archive" && !want_archived.count(e.relpath))
                    fail("archival-announced", cat("segment ", e.relpath, " is not old: ", dry.desc()));
                if (e.op == "segment_remove" && segs.count(e.relpath) && !want_deleted.count(e.relpath) &&
                    !may_delete.count(e.relpath))
                    fail("deletion-announced", cat("segment ", e.relpath, " is not old: ", dry.desc()));
            }
        }
        s.maybe_reopen();
        std::string refused;
        try
        {
            s.run_op(op, true);
        }
        catch (std::exception& e)
        {
            refused = e.what();
            if (!want_archived.empty())
                count("archival_refused");
            else
                fail("throws", cat(op, " throws: ", refused));
        }
        s.maybe_reopen();
        // Items which were deleted
        auto r = s.query("");
        std::set<unsigned> there;
        for (auto& i : r.items)
            there.insert(i.uid);
        r = Result();
        for (const auto& g : segs)
        {
            unsigned k = 0;
            for (auto u : g.second)
                k += there.count(u);
            if (want_deleted.count(g.first) && refused.empty())
            {
                // Part of them may be in the archive
                if (find_disk(s.path, g.first).kind)
                    fail("old-segment-kept", cat("segment ", g.first, " is older than the delete age and is still there"));
                for (auto u : g.second)
                    if (!there.count(u))
                        s.live.erase(u);
                count("segments_deleted");
                continue;
            }
            if (may_delete.count(g.first))
            {
                for (auto u : g.second)
                    if (!there.count(u))
                        s.live.erase(u);
                count("archived_segments_deleted", k == 0);
                continue;
            }
            if (k != g.second.size())
                fail("lost-items", cat(g.second.size() - k, " items of segment ", g.first, " are lost after ", op, " ", refused));
        }
        // Whole segments are either online or archived
        for (const auto& g : segs)
        {
            bool online = find_disk(s.path, g.first).kind, arc = find_disk(s.path / ".archive/last", g.first).kind;
            if (want_archived.count(g.first) && refused.empty())
            {
                if (online)
                    fail("old-segment-online", cat("segment ", g.first, " is older than the archive age and is still online"));
                if (!arc)
                    fail("archived-segment-lost", cat("segment ", g.first, " is not in the archive"));
                count("segments_archived");
            }
            else if (on_disk.count(g.first) && !want_deleted.count(g.first) && !online && refused.empty())
                fail("segment-archived", cat("segment ", g.first, " is not old and is not online anymore"));
            if (arc)
            {
                s.archived.insert(g.first);
                s.closed.insert(g.first);
            }
        }
        s.check_contents(cat("after ", op), rng.chance(30));
        // Queries by time look both in the dataset and in its archives
        {
            ExprGen eg(rng);
            for (auto& i : s.live)
                eg.pool.push_back(i.second);
            if (!eg.pool.empty())
            {
                eg.reftime = 90;
                auto ex    = eg.make();
                auto q     = s.query(ex.text);
                unsigned n = 0;
                for (const auto& i : s.live)
                    n += ex.match(i.second);
                if (n != q.items.size())
                    fail("query-archives", cat(ex.text, " returns ", q.items.size(), " items instead of ", n));
                count("queries_compared");
            }
        }
        // Bring something back
        if (rng.chance(20) && !s.archived.empty())
        {
            auto i = s.archived.begin();
            std::advance(i, rng.below(s.archived.size()));
            std::string rel = *i;
            if (!find_disk(s.path, rel).kind && find_disk(s.path / ".archive/last", rel).kind)
            {
                {
                    auto checker = std::dynamic_pointer_cast<dataset::segmented::Checker>(s.ds->create_checker());
                    checker->segment(std::dynamic_pointer_cast<dataset::segmented::Dataset>(s.ds)
                                         ->segment_session->segment_from_relpath(rel))
                        ->unarchive();
                }
                s.note("unarchive " + rel);
                s.archived.erase(rel);
                auto k = find_disk(s.path, rel).kind;
                if (k == 'f' || k == 'd')
                    s.closed.erase(rel);
                s.maybe_reopen();
                s.check_contents("after unarchive", false);
                count("unarchived");
            }
        }
        auto rec = s.run_check(false, rng.below(2));
        for (const auto& e : rec.actions())
            if (e.op != "segment_repack")
                fail("not-clean", cat("after ", op, ": ", rec.desc()));
        now += rng.below(span / 2);
        count("evals");
    }
    distinct(cat(conf.desc(), "/", s.log.size(), "/", s.live.size(), "/", s.archived.size()));
    sample(conf.desc() + " | " + s.log);
}

/*
 * C14
 */

Time random_time(Rng& rng)
{
    int y    = rng.chance(60) ? rng.range(2004, 2009) : rng.chance(70) ? rng.range(1900, 2100) : rng.range(1000, 9998);
    int mo   = rng.range(1, 12);
    int days[] = {31, y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    int da = rng.chance(50) ? rng.pick({1, 7, 8, 14, 15, 16, 21, 22, 28, days[mo - 1]}) : rng.range(1, days[mo - 1]);
    if (rng.chance(40))
        return Time(y, mo, da, 0, 0, 0);
    if (rng.chance(40))
        return Time(y, mo, da, 23, 59, 59);
    return Time(y, mo, da, rng.below(24), rng.below(60), rng.below(60));
}

void c14(Case& c)
{
    auto& rng = c.rng;
    for (std::string step : {"daily", "weekly", "biweekly", "monthly", "yearly", "single"})
    {
        auto st = dataset::Step::create(step);
        auto span_of = [&](const std::string& path, core::Interval& i) {
            return st->path_timespan(path + ".grib", i) && i.begin.is_set() && i.end.is_set();
        };
        std::vector<Time> times;
        unsigned n = 12;
        for (unsigned k = 0; k < n; ++k)
            times.push_back(random_time(rng));
        std::map<std::string, core::Interval> segs;
        for (const auto& t : times)
        {
            context(cat(step, " ", t.to_iso8601()));
            std::string path = (*st)(t).native();
            if (path != seg_name(step, t))
                fail("name:" + step, cat(t.to_iso8601(), " is stored in ", path, " instead of ", seg_name(step, t)));
            core::Interval span;
            if (!span_of(path, span))
                fail("span-missing:" + step, cat("no time span for ", path));
            if (!span.contains(t))
                fail("span-excludes:" + step, cat(path, " spans ", span.begin.to_iso8601(), "..", span.end.to_iso8601(), " without ", t.to_iso8601()));
            if (step == "single")
            {
                count("evals");
                continue;
            }
            auto want = seg_span(step, t);
            if (!(span.begin == want.first) || !(span.end == want.second))
                fail("span:" + step, cat(path, " spans ", span.begin.to_iso8601(), "..", span.end.to_iso8601(), " instead of ",
                                         want.first.to_iso8601(), "..", want.second.to_iso8601()));
            // Everything in the span goes to this segment, and nothing else
            long long b = to_secs(span.begin), e = to_secs(span.end);
            std::vector<long long> in = {b, e - 1};
            for (int k = 0; k < 4; ++k)
                in.push_back(b + rng.next() % (e - b));
            for (auto x : in)
                if ((*st)(from_secs(x)).native() != path)
                    fail("span-hole:" + step, cat(from_secs(x).to_iso8601(), " is in the span of ", path, " but is stored in ",
                                                  (*st)(from_secs(x)).native()));
            for (auto x : {b - 1, e})
            {
                auto other = (*st)(from_secs(x)).native();
                core::Interval o;
                if (other == path)
                    fail("span-short:" + step, cat(from_secs(x).to_iso8601(), " is stored in ", path, " outside of its span"));
                if (!span_of(other, o))
                    fail("span-missing:" + step, cat("no time span for ", other));
                if (x == e ? !(o.begin == span.end) : !(o.end == span.begin))
                    fail("span-gap:" + step, cat("spans of ", path, " and ", other, " are not contiguous"));
                count("neighbours");
            }
            segs[path] = span;
            count("evals");
            distinct(path + step);
        }
        if (step == "single")
            continue;
        // On disk
        fs::path root = c.dir / step;
        std::string format = rng.pick({"grib", "bufr", "vm2", "odimh5"});
        std::map<std::string, core::Interval> files;
        // Some near the others, so that queries have to tell them apart
        for (const auto& t : times)
            if (rng.chance(50))
            {
                Time u    = add_seconds(t, 86400ll * rng.range(-40, 40));
                auto path = (*st)(u).native();
                core::Interval i;
                span_of(path, i);
                segs[path] = i;
            }
        for (const auto& g : segs)
        {
            auto rel = g.first + "." + format;
            auto p   = root / (rel + rng.pick({"", "", "", ".gz", ".tar", ".zip"}));
            fs::create_directories(p.parent_path());
            write_text(p, "x");
            files[rel] = g.second;
            // Things which are not segments
            if (rng.chance(20))
                write_text(root / (rel + ".metadata"), "x");
            if (rng.chance(20))
                write_text(root / (rel + ".summary"), "x");
            if (rng.chance(10))
                write_text(root / (g.first + (format == "grib" ? ".bufr" : ".grib")), "x");
        }
        if (rng.chance(30))
            fs::create_directories(root / ".archive/last/2007");
        matcher::Parser parser;
        for (unsigned k = 0; k < 12; ++k)
        {
            // A range with an end around the beginning or the end of a segment
            auto i = segs.begin();
            std::advance(i, rng.below(segs.size()));
            auto edge = [&]() {
                auto j = segs.begin();
                std::advance(j, rng.below(segs.size()));
                long long x = to_secs(rng.below(2) ? j->second.begin : j->second.end) + rng.pick({-1, 0, 1, 3600, -86400});
                return x;
            };
            long long a = edge(), b = edge();
            if (b < a)
                std::swap(a, b);
            // Interval a <= t < b
            std::string text;
            bool has_a = rng.chance(80), has_b = !has_a || rng.chance(80);
            bool inclusive = rng.chance(50);
            if (has_a)
                text += ">=" + from_secs(a).to_iso8601(' ').substr(0, 19);
            if (has_b)
                text += (text.empty() ? "" : ",") + std::string(inclusive ? "<=" : "<") + from_secs(b).to_iso8601(' ').substr(0, 19);
            if (has_a && has_b && !inclusive && a == b)
                continue;
            auto m = parser.parse("reftime:" + text);
            context(cat(step, " ", text));
            // Segments with at least one second in range
            std::set<std::string> want;
            for (const auto& f : files)
            {
                long long fb = to_secs(f.second.begin), fe = to_secs(f.second.end) - 1;
                if (has_a)
                    fb = std::max(fb, a);
                if (has_b)
                    fe = std::min(fe, inclusive ? b : b - 1);
                if (fb <= fe)
                    want.insert(f.first);
            }
            std::set<std::string> got;
            dataset::step::SegmentQuery q(root, format_from_string(format), m);
            st->list_segments(q, [&](fs::path&& p) {
                if (!got.insert(p.native()).second)
                    fail("listed-twice:" + step, p.native());
            });
            for (const auto& w : want)
                if (!got.count(w))
                    fail("not-listed:" + step, cat("segment ", w, " is not listed for ", text));
            for (const auto& g : got)
            {
                if (!files.count(g))
                    fail("listed-alien:" + step, cat(g, " is listed for ", text));
                if (!want.count(g))
                    count("listed_outside"); // harmless
            }
            auto rt = m.get(TYPE_REFTIME);
            for (const auto& w : want)
                if (!st->pathMatches(w, *rt))
                    fail("path-mismatch:" + step, cat("segment ", w, " does not match ", text));
            count("listed", got.size());
            count("ranges");
        }
        {
            std::set<std::string> got;
            dataset::step::SegmentQuery q(root, format_from_string(format));
            st->list_segments(q, [&](fs::path&& p) { got.insert(p.native()); });
            std::set<std::string> want;
            for (const auto& f : files)
                want.insert(f.first);
            if (got != want)
                fail("list-all:" + step, cat(got.size(), " segments are listed instead of ", want.size()));
            core::Interval ex;
            st->time_extremes(q, ex);
            Time lo, hi;
            bool first = true;
            for (const auto& f : files)
            {
                if (first || to_secs(f.second.begin) < to_secs(lo))
                    lo = f.second.begin;
                if (first || to_secs(f.second.end) > to_secs(hi))
                    hi = f.second.end;
                first = false;
            }
            if (!(ex.begin == lo) || !(ex.end == hi))
                fail("extremes:" + step, cat("time extremes are ", ex.begin.to_iso8601(), "..", ex.end.to_iso8601(), " instead of ",
                                             lo.to_iso8601(), "..", hi.to_iso8601()));
            count("extremes");
        }
    }
    // In a dataset: each item is in the segment of its time, and queries find it
    if (rng.chance(30))
    {
        ConfGen cg;
        cg.steps    = {"daily", "weekly", "biweekly", "monthly", "yearly"};
        DsConf conf = cg.make(rng);
        conf.unique = "";
        Store s(rng, conf, c.dir / "ds");
        s.note("start");
        std::vector<Item> items;
        std::set<std::string> seen;
        for (unsigned k = 0; k < 10; ++k)
        {
            Item i = s.gen.make();
            if (conf.format != DataFormat::VM2)
                i.rt = random_time(rng);
            else
                i.rt = random_time(rng);
            if (i.rt.ye < 1900 || i.rt.ye > 2100 || !seen.insert(i.rt.to_iso8601()).second)
                continue;
            i.build(rng, rng.below(50));
            items.push_back(i);
        }
        if (items.empty())
            return;
        s.import(items);
        s.reopen();
        auto r = s.query("");
        for (size_t k = 0; k < r.items.size(); ++k)
            if (r.mds[k]->sourceBlob().filename.native() != s.relpath(r.items[k]))
                fail("stored-in", cat("item ", r.items[k].desc(), " is in ", r.mds[k]->sourceBlob().filename.native()));
        std::set<std::string> want;
        for (const auto& i : s.live)
            want.insert(s.relpath(i.second));
        if (want != s.segments_on_disk())
            fail("segments-on-disk", "segments on disk are not those of the items");
        r = Result();
        for (const auto& i : s.live)
        {
            auto q = s.query("reftime:=" + i.second.rt.to_iso8601(' ').substr(0, 19));
            bool found = false;
            for (auto& x : q.items)
                found |= x.uid == i.first;
            if (!found)
                fail("not-found", cat("item ", i.second.desc(), " is not found by its time"));
            count("found_by_time");
        }
        for (unsigned k = 0; k < 4; ++k)
        {
            ExprGen eg(rng);
            for (auto& i : s.live)
                eg.pool.push_back(i.second);
            auto ex = eg.reftime_part();
            auto q  = s.query("reftime:" + ex.text);
            std::set<unsigned> got;
            for (auto& x : q.items)
                got.insert(x.uid);
            for (const auto& i : s.live)
                if (ex.match(i.second) != (bool)got.count(i.first))
                    fail("time-range", cat(ex.text, " on ", i.second.desc()));
        }
    }
}

} // namespace

int main(int argc, const char* argv[])
{
    return run_main(argc, argv, {{"C06", c06}, {"C07", c07}, {"C08", c08}, {"C13", c13}, {"C14", c14}});
}
