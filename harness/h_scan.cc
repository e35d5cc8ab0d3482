// C32: scanning files and streams, cached scan results, files as datasets.
#include "common_ds.h"
#include "sortspec.h"
#include <algorithm>
#include <arki/data/grib.h>
#include <arki/dataset/file.h>
#include <arki/segment/metadata.h>
#include <arki/segment/scan.h>
#include <arki/segment/session.h>
#include <cstring>
#include <fcntl.h>
#include <grib_api.h>
#include <poll.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

using namespace vh;
using namespace arki;
namespace fs = std::filesystem;

namespace {

/*
 * Real GRIB messages: the scanner finds them and computes their position, here
 * only the metadata are made in a different way
 */

struct RawScanner : public data::grib::Scanner
{
    std::shared_ptr<Metadata> scan(grib_handle* gh) override
    {
        auto md = std::make_shared<Metadata>();
        md->set(types::Reftime::createPosition(Time(2007, 7, 1, 0, 0, 0)));
        return md;
    }
};

std::vector<uint8_t> real_message(Rng& rng)
{
    static std::vector<grib_handle*> bases;
    if (bases.empty())
        for (auto n : {"GRIB1", "GRIB2"})
        {
            auto gh = grib_handle_new_from_samples(nullptr, n);
            if (!gh)
                throw std::runtime_error("cannot load GRIB samples");
            bases.push_back(gh);
        }
    const void* buf;
    size_t size;
    auto gh = grib_handle_clone(rng.pick(bases));
    grib_set_long(gh, "date", 20070101 + rng.below(28));
    grib_set_long(gh, "step", rng.below(200));
    if (rng.chance(60))
    {
        // Different lengths
        size_t n;
        grib_get_size(gh, "values", &n);
        std::vector<double> vals(n);
        for (auto& v : vals)
            v = rng.below(100000) / 13.0;
        grib_set_long(gh, "bitsPerValue", rng.range(1, 24));
        grib_set_double_array(gh, "values", vals.data(), vals.size());
    }
    if (grib_get_message(gh, &buf, &size) != GRIB_SUCCESS)
        throw std::runtime_error("cannot make a GRIB message");
    std::vector<uint8_t> res((const uint8_t*)buf, (const uint8_t*)buf + size);
    grib_handle_delete(gh);
    return res;
}

std::string garbage(Rng& rng)
{
    std::string res;
    unsigned n = rng.pick({1, 2, 3, 4, 7, 8, 40, 500, 5000});
    n          = rng.range(1, n);
    bool zeros = rng.chance(40);
    for (unsigned i = 0; i < n; ++i)
    {
        char c = zeros ? 0 : (char)rng.below(256);
        // No format starts with these, in the samples and in the synthetic formats
        if (c == 'G' || c == 'B' || c == 'H' || c == (char)0x89 || c == 'C' || c == (char)0xff || c == 'V')
            c = '7';
        res += c;
    }
    return res;
}

struct Found
{
    size_t offset, size;
    std::vector<uint8_t> data;
};

void real_grib(Case& c)
{
    Rng& rng = c.rng;
    std::string text;
    std::vector<Found> exp;
    unsigned n   = rng.chance(10) ? 0 : rng.range(1, 10);
    bool padded  = rng.chance(60);
    for (unsigned i = 0; i < n; ++i)
    {
        if (padded && rng.chance(50))
            text += garbage(rng);
        auto m = rng.chance(10) && !exp.empty() ? rng.pick(exp).data : real_message(rng);
        exp.push_back(Found{text.size(), m.size(), m});
        text.append((const char*)m.data(), m.size());
    }
    if (padded && rng.chance(50))
        text += garbage(rng);
    bool truncated = false;
    if (!exp.empty() && rng.chance(20))
    {
        // Cut in the middle of one
        unsigned k = rng.below(exp.size());
        text.resize(exp[k].offset + rng.range(4, exp[k].size - 1));
        exp.resize(k);
        truncated = true;
    }
    context(cat("real GRIB: ", exp.size(), " messages in ", text.size(), " bytes", padded ? " with padding" : "", truncated ? " truncated" : ""));
    auto path = c.dir / "real.grib";
    write_text(path, text);
    auto scanner = std::make_shared<RawScanner>();

    auto compare = [&](const char* how, const std::vector<Found>& got, const std::string& exc, bool offsets) {
        if (!exc.empty() && !truncated)
            fail("C32:grib:exception", cat(how, " fails: ", exc));
        for (size_t i = 0; i < std::max(got.size(), exp.size()); ++i)
        {
            if (i >= got.size())
                fail("C32:grib:missing", cat(how, " finds ", got.size(), " messages instead of ", exp.size()));
            if (i >= exp.size())
                fail("C32:grib:extra", cat(how, " finds ", got.size(), " messages instead of ", exp.size()));
            if (got[i].data != exp[i].data)
                fail("C32:grib:data", cat(how, ": other bytes for message ", i, ": ", got[i].data.size(), " instead of ", exp[i].size));
            if (offsets && (got[i].offset != exp[i].offset || got[i].size != exp[i].size))
                fail("C32:grib:position", cat(how, ": message ", i, " is at ", got[i].offset, "+", got[i].size, " instead of ", exp[i].offset, "+", exp[i].size));
        }
        count("grib_scans");
        count("grib_messages", got.size());
        if (!exc.empty())
            count("grib_truncated_reported");
    };
    auto run = [&](std::function<void()> f) {
        try
        {
            f();
            return std::string();
        }
        catch (Failed&)
        {
            throw;
        }
        catch (std::exception& e)
        {
            return std::string(e.what());
        }
    };

    // The scanner itself
    std::vector<Found> got;
    auto exc = run([&] {
        scanner->scan_file_multi(path, [&](std::shared_ptr<Metadata> md, off_t offset, std::vector<uint8_t>&& data) {
            got.push_back(Found{(size_t)offset, data.size(), data});
            return true;
        });
    });
    compare("scan_file_multi", got, exc, true);
    // Stop
    if (exp.size() > 1)
    {
        unsigned k = rng.below(exp.size());
        got.clear();
        bool res = scanner->scan_file_multi(path, [&](std::shared_ptr<Metadata> md, off_t offset, std::vector<uint8_t>&& data) {
            got.push_back(Found{(size_t)offset, data.size(), data});
            return got.size() <= k;
        });
        if (res || got.size() != k + 1)
            fail("C32:grib:stop", cat("scan_file_multi stopped at ", k + 1, " gives ", got.size(), " and returns ", res));
    }
    // A pipe
    {
        int fds[2];
        if (pipe(fds) != 0)
            throw std::runtime_error("pipe");
        std::thread writer([&] {
            size_t pos = 0;
            Rng r(text.size());
            while (pos < text.size())
            {
                size_t len = std::min<size_t>(text.size() - pos, r.pick({1, 3, 10, 100, 5000, 65536}));
                // The reader stops at truncated data
                struct pollfd p{fds[1], POLLOUT, 0};
                poll(&p, 1, 1000);
                if (p.revents & POLLERR)
                    break;
                ssize_t w = write(fds[1], text.data() + pos, len);
                if (w < 0)
                    break;
                pos += w;
            }
            close(fds[1]);
        });
        got.clear();
        exc = run([&] {
            core::NamedFileDescriptor in(fds[0], "pipe"); // the scanner closes it
            scanner->scan_pipe(in, [&](std::shared_ptr<Metadata> md) {
                auto d = md->get_data().read();
                got.push_back(Found{0, d.size(), d});
                return true;
            });
        });
        close(fds[0]);
        writer.join();
        compare("scan_pipe", got, exc, false);
    }
    // As a dataset
    auto old = data::Scanner::get(DataFormat::GRIB);
    data::Scanner::register_scanner(DataFormat::GRIB, scanner);
    try
    {
        got.clear();
        exc = run([&] {
            auto ds = dataset::file::Dataset::from_config(std::make_shared<dataset::Session>(false), *dataset::file::read_config(path));
            ds->create_reader()->query_data(query::Data(Matcher(), true), [&](std::shared_ptr<Metadata> md) {
                const auto& b = md->sourceBlob();
                md->drop_cached_data();
                auto d = md->get_data().read();
                got.push_back(Found{(size_t)b.offset, (size_t)b.size, d});
                return true;
            });
        });
        compare("querying the file", got, exc, true);
        if (exp.size() == 1 && !truncated)
        {
            scanner->scan_file_single(path);
            count("grib_single");
        }
    }
    catch (...)
    {
        data::Scanner::register_scanner(DataFormat::GRIB, old);
        throw;
    }
    data::Scanner::register_scanner(DataFormat::GRIB, old);
    distinct(text);
}

/*
 * History of a file, with cached metadata
 */

struct Pos
{
    Item item;
    size_t offset;
};

struct FileHistory
{
    Case& c;
    Rng& rng;
    ItemGen gen;
    DataFormat fmt;
    bool single;
    fs::path path;
    std::string cfg_format; // if not empty, format which is given explicitly
    std::vector<Pos> content;
    std::string text;
    long long clock = 1700000000;
    std::string log;
    std::shared_ptr<dataset::file::Dataset> kept;
    std::vector<std::shared_ptr<Metadata>> kept_mds;

    FileHistory(Case& c) : c(c), rng(c.rng), gen(c.rng)
    {
        struct N
        {
            DataFormat f;
            const char *name, *prefix;
        };
        static const std::vector<N> names = {
            {DataFormat::GRIB, "f.grib", ""},      {DataFormat::GRIB, "f.grib1", ""},    {DataFormat::GRIB, "f.grib2", ""},
            {DataFormat::BUFR, "f.bufr", ""},      {DataFormat::VM2, "f.vm2", ""},       {DataFormat::GRIB, "f", "grib"},
            {DataFormat::BUFR, "data.dat", "BUFR"}, {DataFormat::VM2, "data.grib", "vm2"}, {DataFormat::GRIB, "f.GRIB", ""},
            {DataFormat::ODIMH5, "f.h5", ""},      {DataFormat::ODIMH5, "f.hdf5", ""},   {DataFormat::ODIMH5, "f.odim", ""},
            {DataFormat::NETCDF, "f.nc", ""},      {DataFormat::JPEG, "f.jpg", ""},      {DataFormat::JPEG, "f.jpeg", ""},
        };
        const N& n     = names[rng.chance(70) ? rng.below(8) : rng.below(names.size())];
        fmt            = n.f;
        cfg_format     = n.prefix;
        gen.format     = fmt;
        gen.span_hours = 24 * rng.pick({3, 40});
        gen.variety    = rng.pick({1, 2, 3});
        single         = fmt == DataFormat::ODIMH5 || fmt == DataFormat::NETCDF || fmt == DataFormat::JPEG;
        fs::create_directories(c.dir / "d");
        path = c.dir / "d" / n.name;
        note(path.filename().native() + (cfg_format.empty() ? "" : " as " + cfg_format));
    }

    void note(const std::string& s)
    {
        log += s + "; ";
        context(log);
    }

    void set_mtime(const fs::path& p, long long t)
    {
        struct timespec ts[2] = {{t, 0}, {t, 0}};
        if (utimensat(AT_FDCWD, p.c_str(), ts, 0) != 0)
            throw std::runtime_error("utimensat");
    }

    void append_item(const Item& i)
    {
        if (!single && fmt != DataFormat::VM2 && rng.chance(8))
            text += garbage(rng);
        content.push_back(Pos{i, text.size()});
        text.append((const char*)i.data.data(), i.data.size());
        if (fmt == DataFormat::VM2)
            text += rng.chance(3) ? "\n\n" : "\n";
    }

    void write(bool atomic)
    {
        clock += rng.range(1, 50);
        if (atomic)
        {
            auto tmp = c.dir / "tmpfile";
            write_text(tmp, text);
            set_mtime(tmp, clock);
            fs::rename(tmp, path);
        }
        else
        {
            write_text(path, text);
            set_mtime(path, clock);
        }
        count("file_changes");
    }

    std::shared_ptr<core::cfg::Section> cfg()
    {
        auto r = cfg_format.empty() ? dataset::file::read_config(path)
                 : rng.below(2)     ? dataset::file::read_config(cfg_format, path)
                                    : dataset::file::read_config(path, fmt);
        if (!r)
            fail("C32:format", cat("the format of ", path.native(), " is not recognised"));
        return r;
    }

    void change()
    {
        unsigned op = rng.below(10);
        if (content.empty() || single || op < 3)
        {
            bool atomic = rng.chance(50);
            note(atomic ? "replace" : "rewrite");
            content.clear();
            text.clear();
            unsigned n = single ? 1 : rng.chance(10) ? 0 : rng.range(1, 12);
            for (unsigned i = 0; i < n; ++i)
                append_item(gen.make());
            if (single && rng.chance(8))
            {
                content.clear();
                text.clear();
            }
            write(atomic);
        }
        else if (op < 7)
        {
            bool atomic = rng.chance(20);
            note("append");
            unsigned n = rng.range(1, 5);
            for (unsigned i = 0; i < n; ++i)
                append_item(gen.make());
            write(atomic);
        }
        else if (op < 9)
        {
            bool atomic = rng.chance(50);
            note("truncate");
            unsigned k = rng.below(content.size());
            text.resize(content[k].offset);
            content.resize(k);
            write(atomic);
        }
        else
        {
            note("swap two items");
            std::vector<Item> items;
            for (auto& p : content)
                items.push_back(p.item);
            rng.shuffle(items);
            content.clear();
            text.clear();
            for (auto& i : items)
                append_item(i);
            write(rng.chance(50));
        }
    }

    fs::path with(const char* suffix) { return fs::path(path.native() + suffix); }

    void cache()
    {
        unsigned op = rng.below(10);
        if (op < 6)
        {
            note("cache");
            auto scan_session = std::make_shared<segment::scan::Session>(path.parent_path());
            auto md_session   = std::make_shared<segment::metadata::Session>(path.parent_path());
            metadata::Collection mds;
            auto rl = std::make_shared<core::lock::NullReadLock>();
            scan_session->segment_from_relpath_and_format(path.filename(), fmt)->reader(rl)->read_all(mds.inserter_func());
            check_positions("scan", mds);
            auto seg     = md_session->segment_from_relpath_and_format(path.filename(), fmt);
            auto checker = seg->checker(std::make_shared<core::lock::NullCheckLock>());
            checker->fixer()->reindex(mds);
            clock += rng.pick({0, 0, 1, 10});
            set_mtime(with(".metadata"), clock);
            set_mtime(with(".summary"), clock);
            count("caches_made");
        }
        else if (op < 8)
        {
            note("remove .summary");
            fs::remove(with(".summary"));
        }
        else
        {
            note("remove .metadata");
            fs::remove(with(".metadata"));
        }
    }

    void check_positions(const std::string& where, const metadata::Collection& mds)
    {
        if (mds.size() != content.size())
            fail("C32:scan:count", cat(where, ": ", mds.size(), " items found instead of ", content.size()));
        for (size_t i = 0; i < mds.size(); ++i)
            check_item(where, content[i], mds[i]);
    }

    void check_item(const std::string& where, const Pos& p, const Metadata& md)
    {
        auto d = compare_md(p.item, md);
        if (!d.empty())
            fail("C32:metadata", cat(where, ": ", p.item.desc(), ": ", d));
        const auto& b = md.sourceBlob();
        auto abs      = b.absolutePathname().lexically_normal();
        if (b.offset != p.offset || b.size != p.item.data.size() || abs != fs::canonical(path) || b.format != fmt)
            fail("C32:position", cat(where, ": ", p.item.desc(), " is given as ", b.to_string(), " instead of ", p.offset, "+", p.item.data.size()));
    }

    void query()
    {
        bool reuse = kept && rng.chance(35);
        std::shared_ptr<dataset::file::Dataset> ds;
        if (reuse)
            ds = kept;
        else
        {
            auto section = cfg();
            if (rng.chance(30))
                ds = std::dynamic_pointer_cast<dataset::file::Dataset>(std::make_shared<dataset::Session>(false)->dataset(*section));
            else
                ds = dataset::file::Dataset::from_config(std::make_shared<dataset::Session>(rng.below(2)), *section);
            kept_mds.clear();
        }
        bool cached_metadata = fs::exists(with(".metadata"));
        std::string how      = cat(reuse ? "same dataset " : "", cached_metadata ? "(.metadata exists) " : "");
        ExprGen eg(rng);
        for (auto& p : content)
            eg.pool.push_back(p.item);
        Expr e;
        e.match = [](const Item&) { return true; };
        if (!content.empty() && rng.chance(60))
            e = eg.make();
        auto matcher = ds->session->matcher(e.text);
        std::vector<const Pos*> exp;
        for (auto& p : content)
            if (e.match(p.item))
                exp.push_back(&p);
        // Data
        {
            bool with_data = rng.chance(70);
            query::Data q(matcher, with_data);
            SortSpec sort;
            if (rng.chance(30))
            {
                sort     = gen_sort(rng);
                q.sorter = metadata::sort::Compare::parse(sort.text);
            }
            how += cat("query '", e.text, "' ", with_data ? "with data " : "", sort.text);
            long stop = -1;
            if (rng.chance(15) && !exp.empty())
                stop = rng.below(exp.size());
            std::vector<std::shared_ptr<Metadata>> mds;
            bool res = ds->create_reader()->query_data(q, [&](std::shared_ptr<Metadata> md) {
                mds.push_back(md);
                return stop < 0 || (long)mds.size() <= stop;
            });
            if (stop >= 0)
            {
                if (mds.size() != (size_t)stop + 1)
                    fail("C32:stop", cat(how, " stopped at ", stop + 1, ": ", mds.size(), " items given"));
                if (res && sort.text.empty())
                    fail("C32:stop-result", cat(how, " stopped at ", stop + 1, ": it returns true"));
                return;
            }
            if (!res)
                fail("C32:result", cat(how, " returns false"));
            if (mds.size() != exp.size())
                fail("C32:query:count", cat(how, ": ", mds.size(), " items instead of ", exp.size()));
            std::map<unsigned, const Pos*> by_uid;
            for (auto p : exp)
                by_uid[p->item.uid] = p;
            for (size_t i = 0; i < mds.size(); ++i)
            {
                auto& md     = *mds[i];
                const Pos* p = exp[i];
                if (!sort.text.empty())
                {
                    // Only the position tells which one it is
                    p = nullptr;
                    for (auto x : exp)
                        if (x->offset == md.sourceBlob().offset)
                            p = x;
                    if (!p || !by_uid.erase(p->item.uid))
                        fail("C32:query:sorted", cat(how, ": no item, or twice the same, at ", md.sourceBlob().to_string()));
                    if (i && !sort.interval && sort_cmp(sort, *mds[i - 1], md) > 0)
                        fail("C32:query:order", cat(how, ": item ", i, " is out of order"));
                }
                check_item(how, *p, md);
                if (with_data)
                {
                    if (rng.chance(50))
                        md.drop_cached_data();
                    auto d = md.get_data().read();
                    if (d != p->item.data)
                        fail("C32:query:data", cat(how, ": other data for ", p->item.desc()));
                    count("data_read");
                }
            }
            count(cached_metadata ? "queries_with_cache" : "queries");
            if (!mds.empty() && rng.chance(50))
            {
                kept     = ds;
                kept_mds = mds;
            }
        }
        // Summary
        if (rng.chance(50))
        {
            Summary s;
            ds->create_reader()->query_summary(matcher, s);
            SummaryMap m;
            for (auto p : exp)
            {
                Metadata md;
                p->item.to_metadata(md);
                m[summary_key(md)].add(p->item);
            }
            auto diff = diff_summaries(m, summary_map(s));
            if (!diff.empty())
                fail("C32:summary", cat(how, ": summary ", diff));
            count("summaries");
        }
        // Bytes
        if (rng.chance(40))
        {
            std::vector<uint8_t> buf, all;
            query::Bytes q;
            q.setData(matcher);
            auto out = StreamOutput::create(buf);
            ds->create_reader()->query_bytes(q, *out);
            for (auto p : exp)
            {
                all.insert(all.end(), p->item.data.begin(), p->item.data.end());
                if (fmt == DataFormat::VM2)
                    all.push_back('\n');
            }
            if (buf != all)
                fail("C32:bytes", cat(how, ": ", buf.size(), " bytes instead of ", all.size()));
            count("byte_queries");
        }
    }

    /// Segment readers on the same file
    void segment_query()
    {
        auto session = std::make_shared<segment::scan::Session>(path.parent_path());
        auto seg     = session->segment_from_relpath_and_format(path.filename(), fmt);
        auto reader  = seg->reader(std::make_shared<core::lock::NullReadLock>());
        ExprGen eg(rng);
        for (auto& p : content)
            eg.pool.push_back(p.item);
        Expr e;
        e.match = [](const Item&) { return true; };
        if (!content.empty() && rng.chance(60))
            e = eg.make();
        std::vector<const Pos*> exp;
        for (auto& p : content)
            if (e.match(p.item))
                exp.push_back(&p);
        metadata::Collection mds;
        bool with_data = rng.chance(50);
        reader->query_data(query::Data(dataset::Session(false).matcher(e.text), with_data), mds.inserter_func());
        if (mds.size() != exp.size())
            fail("C32:segment:count", cat("scan '", e.text, "': ", mds.size(), " items instead of ", exp.size()));
        for (size_t i = 0; i < mds.size(); ++i)
        {
            check_item("segment query", *exp[i], mds[i]);
            if (with_data)
            {
                auto md = mds[i].clone();
                md->drop_cached_data();
                if (md->get_data().read() != exp[i]->item.data)
                    fail("C32:segment:data", cat("segment query: other data for ", exp[i]->item.desc()));
            }
        }
        count("segment_queries");
    }

    void run()
    {
        unsigned n = rng.range(3, 14);
        change();
        for (unsigned i = 0; i < n; ++i)
        {
            unsigned op = rng.below(10);
            if (op < 4)
                change();
            else if (op < 7)
                cache();
            else if (op < 8)
                segment_query();
            query();
        }
        distinct(log);
    }
};

/*
 * Files of metadata
 */

void metadata_file(Case& c)
{
    Rng& rng = c.rng;
    ItemGen gen(rng);
    gen.variety = 2;
    struct E
    {
        Item item;
        std::string kind;
        size_t offset = 0;
        std::string file;
    };
    std::vector<E> exp;
    bool yaml    = rng.chance(35);
    auto dir     = c.dir / "m";
    fs::create_directories(dir / "sub");
    unsigned nfiles = rng.range(1, 3);
    std::vector<std::string> files;
    std::map<std::string, std::string> texts;
    std::map<std::string, DataFormat> formats;
    for (unsigned i = 0; i < nfiles; ++i)
    {
        auto f = rng.pick({DataFormat::GRIB, DataFormat::BUFR, DataFormat::VM2});
        std::string n = cat(rng.chance(50) ? "sub/" : "", "f", i, ".", fmt_name(f));
        files.push_back(n);
        formats[n] = f;
    }
    unsigned n = rng.chance(6) ? 0 : rng.range(1, 15);
    bool inside = rng.chance(70); // next to the data
    auto path   = inside ? dir / (yaml ? "list.yaml" : rng.chance(50) ? "list.arkimet" : "list.metadata") : c.dir / (yaml ? "list.yaml" : "list.arkimet");
    metadata::Collection mds;
    for (unsigned i = 0; i < n; ++i)
    {
        E e;
        unsigned k = rng.below(10);
        e.kind     = k < 6 ? "blob" : k < 8 && !yaml ? "inline" : "url";
        e.file     = rng.pick(files);
        gen.format = formats[e.file];
        e.item     = gen.make();
        auto md    = std::make_shared<Metadata>();
        e.item.to_metadata(*md);
        if (e.kind == "inline")
            md = e.item.md();
        else if (e.kind == "url")
            md->set_source(types::Source::createURL(gen.format, "http://localhost/" + e.file));
        else
        {
            std::string& t = texts[e.file];
            e.offset       = t.size();
            t.append((const char*)e.item.data.data(), e.item.data.size());
            if (gen.format == DataFormat::VM2)
                t += '\n';
            fs::path root = inside ? dir : rng.chance(50) ? dir : c.dir;
            auto rel      = fs::relative(dir / e.file, root);
            md->set_source(types::Source::createBlobUnlocked(gen.format, inside ? dir.native() : root.native(), rel.native(), e.offset, e.item.data.size()));
            if (!inside)
                // Paths relative to the metadata file
                md->set_source(types::Source::createBlobUnlocked(gen.format, "", (dir / e.file).native(), e.offset, e.item.data.size()));
        }
        if (md->has_source_blob() && inside)
            md->set_source(types::Source::createBlobUnlocked(gen.format, "", e.file, e.offset, e.item.data.size()));
        mds.acquire(md);
        exp.push_back(e);
    }
    for (auto& t : texts)
        write_text(dir / t.first, t.second);
    {
        fs::remove(path);
        core::File out(path, O_WRONLY | O_CREAT | O_TRUNC, 0666);
        if (yaml)
        {
            std::string t;
            for (const auto& md : mds)
                t += md->to_yaml() + "\n";
            out.write_all_or_throw(t);
        }
        else
            {
                bool has_inline = false;
                for (auto& e : exp)
                    has_inline = has_inline || e.kind == "inline";
                // Only what writes one at a time can write data
                if (has_inline || rng.chance(50))
                    for (const auto& md : mds)
                        md->write(out);
                else
                    mds.write_to(out);
            }
    }
    context(cat("metadata file ", path.filename().native(), " of ", n));
    auto ds = dataset::file::Dataset::from_config(std::make_shared<dataset::Session>(false), *dataset::file::read_config(path));
    unsigned times = rng.range(1, 3);
    for (unsigned t = 0; t < times; ++t)
    {
        Expr e;
        e.match = [](const Item&) { return true; };
        ExprGen eg(rng);
        for (auto& x : exp)
            eg.pool.push_back(x.item);
        if (n && rng.chance(60))
            e = eg.make();
        std::vector<const E*> want;
        for (auto& x : exp)
            if (e.match(x.item))
                want.push_back(&x);
        bool with_data = rng.chance(70);
        size_t i       = 0;
        std::string how = cat("query ", t, " '", e.text, "'", with_data ? " with data" : "");
        bool res = ds->create_reader()->query_data(query::Data(ds->session->matcher(e.text), with_data), [&](std::shared_ptr<Metadata> md) {
            if (i >= want.size())
                fail("C32:mdfile:extra", cat(how, ": more than ", want.size(), " items"));
            auto& x = *want[i++];
            auto d  = compare_md(x.item, *md);
            if (!d.empty())
                fail("C32:mdfile:metadata", cat(how, ": ", x.item.desc(), ": ", d));
            if (x.kind == "blob")
            {
                const auto& b = md->sourceBlob();
                if (b.absolutePathname().lexically_normal() != (dir / x.file).lexically_normal() || b.offset != x.offset || b.size != x.item.data.size())
                    fail("C32:mdfile:position", cat(how, ": ", x.item.desc(), " is given as ", b.to_string(), " instead of ", x.file, ":", x.offset));
            }
            if (with_data && x.kind != "url")
            {
                if (md->get_data().read() != x.item.data)
                    fail("C32:mdfile:data", cat(how, ": other data for ", x.item.desc()));
                count("mdfile_data_read");
            }
            count("mdfile_items");
            return true;
        });
        if (!res || i != want.size())
            fail("C32:mdfile:missing", cat(how, ": ", i, " items instead of ", want.size(), ", result ", res));
        count("mdfile_queries");
    }
    distinct(cat("m", n, yaml, nfiles, inside, read_text(path).size()));
}

/*
 * Segments of datasets
 */

void segments(Case& c)
{
    Rng& rng = c.rng;
    ConfGen cg;
    auto conf = cg.make(rng);
    conf.eatmydata = false;
    Store s(rng, conf, c.dir / "ds");
    s.prefix = "C32:";
    History h;
    h.removals    = false;
    h.conversions = false;
    h.repacks     = false;
    h.run(s);
    s.run_check(true);
    s.run_repack(true); // removes data which were replaced
    std::string conv;
    if (rng.chance(50))
    {
        conv = random_maintenance(s);
        s.close_converted();
    }
    std::map<std::string, std::set<unsigned>> by_seg;
    for (auto& i : s.live)
        by_seg[s.relpath(i.second)].insert(i.first);
    for (auto& b : by_seg)
    {
        auto session = std::make_shared<segment::scan::Session>(s.path);
        auto seg     = session->segment_from_relpath_and_format(b.first, conf.format);
        metadata::Collection mds;
        if (fs::exists(s.path / (b.first + ".tar")) || fs::exists(s.path / (b.first + ".zip")))
        {
            count("segments_not_scannable");
            continue;
        }
        seg->reader(std::make_shared<core::lock::NullReadLock>())->read_all(mds.inserter_func());
        std::set<unsigned> left = b.second;
        size_t last             = 0;
        for (const auto& md : mds)
        {
            auto copy = md->clone();
            copy->drop_cached_data();
            auto d    = copy->get_data().read();
            auto item = item_from_data(conf.format, d);
            auto l    = s.live.find(item.uid);
            if (!left.erase(item.uid) || l == s.live.end())
                fail("C32:segments:extra", cat("scanning ", b.first, " finds unexpected or repeated ", item.desc()));
            if (d != l->second.data)
                fail("C32:segments:data", cat("scanning ", b.first, " finds other data for ", item.desc()));
            auto diff = compare_md(l->second, *md);
            if (!diff.empty())
                fail("C32:segments:metadata", cat("scanning ", b.first, ": ", item.desc(), ": ", diff));
            const auto& blob = md->sourceBlob();
            if (blob.filename != b.first || blob.format != conf.format)
                fail("C32:segments:source", cat("scanning ", b.first, " gives source ", blob.to_string()));
            if (md != *mds.begin() && blob.offset <= last)
                fail("C32:segments:order", cat("scanning ", b.first, " gives items out of order"));
            last = blob.offset;
            count("segment_items");
        }
        if (!left.empty())
            fail("C32:segments:missing", cat("scanning ", b.first, " does not find ", s.live[*left.begin()].desc()));
        count(fs::is_directory(s.path / b.first) ? "segments_dir" : fs::exists(s.path / (b.first + ".gz")) ? "segments_gz" : "segments_file");
    }
    distinct(s.log + conf.desc());
}

void run_c32(Case& c)
{
    unsigned k = c.rng.below(100);
    if (k < 25)
        real_grib(c);
    else if (k < 70)
        FileHistory(c).run();
    else if (k < 85)
        metadata_file(c);
    else
        segments(c);
}

} // namespace

int main(int argc, const char* argv[]) { return run_main(argc, argv, {{"C32", run_c32}}); }
