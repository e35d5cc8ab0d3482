// C26: the tar, zip and gzip files that arkimet writes, as seen by tools which
// share no code with it.
#include "common.h"
#include "common_ds.h"
#include "common_types.h"
#include <arki/metadata/archive.h>
#include <arki/metadata/reader.h>
#include <arki/stream.h>
#include <arki/types/source.h>
#include <arki/types/source/blob.h>
#include <arki/utils/compress.h>
#include <arki/utils/tar.h>
#include <cstring>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace vh;
using namespace arki;
namespace fs = std::filesystem;

namespace {

// Lists the contents of archives with the Python standard library, and tests
// them with tar, unzip and gzip. One line per archive and per entry:
//   A <path>
//   E <hex name> <size> <offset of data, or -1> <hex contents> <hex pax headers>
//   X <hex error>
const char* py_reader = R"PY(
import sys, io, gzip, lzma, tarfile, zipfile, subprocess
def h(b):
    return (b.encode("utf-8", "surrogateescape") if isinstance(b, str) else b).hex() or "-"
def run(*a):
    p = subprocess.run(a, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0 or p.stderr:
        raise RuntimeError("%s: exit status %d: %s" % (a[0], p.returncode, p.stderr.decode(errors="replace")))
    return p.stdout
def do_tar(fd, plain):
    with tarfile.open(fileobj=fd, mode="r:") as t:
        for m in t:
            if not m.isreg():
                print("X", h("entry %r is not a regular file" % m.name))
            print("E", h(m.name), m.size, m.offset_data if plain else -1, h(t.extractfile(m).read()),
                  h("\n".join("%s=%s" % i for i in sorted(m.pax_headers.items()))))
    # What is left must be zeros
    rest = fd.read()
    if rest.strip(b"\0"):
        print("X", h("%d bytes which are not zero after the end of the archive" % len(rest.strip(b"\0"))))
tools = sys.argv[1] == "tools"
for a in sys.argv[2:]:
    kind, path = a.split(":", 1)
    print("A", h(path))
    try:
        if kind == "tar":
            with open(path, "rb") as fd:
                do_tar(fd, True)
            if tools:
                names = run("tar", "--warning=no-unknown-keyword", "-tf", path).decode(errors="surrogateescape").splitlines()
                print("N", len(names))
                print("D", h(run("tar", "--warning=no-unknown-keyword", "-xOf", path)))
        elif kind == "tar.gz":
            with gzip.open(path, "rb") as fd:
                do_tar(io.BytesIO(fd.read()), False)
            if tools:
                print("N", len(run("tar", "-tzf", path).splitlines()))
        elif kind == "tar.xz":
            with lzma.open(path, "rb") as fd:
                do_tar(io.BytesIO(fd.read()), False)
            if tools:
                print("N", len(run("tar", "-tJf", path).splitlines()))
        elif kind == "zip":
            with zipfile.ZipFile(path) as z:
                if z.testzip() is not None:
                    print("X", h("bad entry " + z.testzip()))
                for m in z.infolist():
                    print("E", h(m.filename), m.file_size, -1, h(z.read(m)), "-")
            # unzip complains about empty files
            if tools and z.namelist():
                print("N", len(run("unzip", "-Z1", path).splitlines()))
                print("D", h(run("unzip", "-p", path)))
        elif kind == "gz":
            with gzip.open(path, "rb") as fd:
                data = fd.read()
            print("E", "-", len(data), -1, h(data), "-")
            if tools:
                print("D", h(run("gzip", "-dc", path)))
    except Exception as e:
        print("X", h("%s: %s" % (type(e).__name__, e)))
)PY";

struct Entry
{
    std::string name;
    size_t size = 0;
    long long offset = -1;
    std::string data;
    std::string pax;
};

struct Listing
{
    std::vector<Entry> entries;
    std::vector<std::string> errors;
    long tool_names = -1;
    bool has_tool_data = false;
    std::string tool_data;
    std::string all() const
    {
        std::string res;
        for (const auto& e : entries)
            res += e.data;
        return res;
    }
};

std::string unhex(const std::string& s)
{
    if (s == "-")
        return std::string();
    auto v = [](char c) { return c >= 'a' ? c - 'a' + 10 : c - '0'; };
    std::string res;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        res += (char)(v(s[i]) * 16 + v(s[i + 1]));
    return res;
}

/// files: pairs of kind and path
std::map<std::string, Listing> list_archives(const fs::path& dir, const std::vector<std::pair<std::string, fs::path>>& files,
                                             bool tools)
{
    fs::path out = dir / "listing.txt";
    std::vector<std::string> args{"python3", "-S", "-E", "-c", py_reader, tools ? "tools" : "notools"};
    for (const auto& f : files)
        args.push_back(f.first + ":" + f.second.native());
    std::vector<char*> argv;
    for (auto& a : args)
        argv.push_back(a.data());
    argv.push_back(nullptr);
    int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0666);
    pid_t pid = fork();
    if (pid < 0)
        throw std::runtime_error("cannot fork");
    if (pid == 0)
    {
        setenv("LC_ALL", "C.UTF-8", 1);
        dup2(fd, 1);
        execvp("python3", argv.data());
        _exit(127);
    }
    close(fd);
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR)
        ;
    if (status != 0)
        throw std::runtime_error("the program that lists archives failed");
    std::map<std::string, Listing> res;
    Listing* cur = nullptr;
    std::istringstream in(read_text(out));
    std::string line;
    while (std::getline(in, line))
    {
        std::istringstream f(line);
        std::string code, a, b;
        f >> code;
        if (code == "A")
        {
            f >> a;
            cur = &res[unhex(a)];
        }
        else if (code == "E")
        {
            Entry e;
            std::string n, d, p;
            f >> n >> e.size >> e.offset >> d >> p;
            e.name = unhex(n);
            e.data = unhex(d);
            e.pax  = unhex(p);
            cur->entries.push_back(e);
        }
        else if (code == "X")
        {
            f >> a;
            cur->errors.push_back(unhex(a));
        }
        else if (code == "N")
            f >> cur->tool_names;
        else if (code == "D")
        {
            f >> a;
            cur->has_tool_data = true;
            cur->tool_data     = unhex(a);
        }
    }
    for (const auto& f : files)
        if (!res.count(f.second.native()))
            throw std::runtime_error("the program that lists archives did not list " + f.second.native());
    count("archives_listed", files.size());
    return res;
}

std::string str(const std::vector<uint8_t>& v) { return std::string(v.begin(), v.end()); }

/// Checks which apply to all the listings
void check_listing(const std::string& kind, const std::string& what, const Listing& l)
{
    for (const auto& e : l.errors)
        fail(kind + "-unreadable", cat(what, ": ", e));
    if (l.tool_names >= 0)
    {
        count("listed_by_tools");
        if ((size_t)l.tool_names != l.entries.size())
            fail(kind + "-unreadable", cat(what, ": the command line tool sees ", l.tool_names, " entries, instead of ",
                                           l.entries.size()));
    }
    if (l.has_tool_data && l.tool_data != l.all())
        fail(kind + "-unreadable", cat(what, ": the command line tool extracts ", l.tool_data.size(), " bytes, instead of ",
                                       l.all().size(), " or different ones"));
    for (const auto& e : l.entries)
        if (e.size != e.data.size())
            fail(kind + "-unreadable", cat(what, ": entry ", e.name, " announces ", e.size, " bytes, but has ", e.data.size()));
    count("entries", l.entries.size());
}

/// Amounts of data which matter to those who write in blocks
size_t pick_size(Rng& rng)
{
    switch (rng.below(6))
    {
        case 0:
        case 1: return 512 * rng.range(1, 4);
        case 2: return 512 * rng.range(1, 4) + rng.range(-1, 1);
        case 3: return rng.pick({4095, 4096, 4097, 8191, 8192, 8193, 1024});
        default: return rng.range(150, 1500);
    }
}

void resize_item(Rng& rng, Item& i, size_t size)
{
    i.build(rng, 0);
    if (i.data.size() < size)
        i.build(rng, size - i.data.size());
    if (i.data.size() % 512 == 0)
        count("block_sized");
}

/*
 * Segments
 */

std::string data_name(size_t i, DataFormat f)
{
    char buf[64];
    snprintf(buf, 64, "%06zu.%s", i, fmt_name(f));
    return buf;
}

/// Compare all the archives in the dataset with what a query says is in them
void check_segments(Case& c, Store& s, const std::string& where)
{
    // What arkimet says
    struct Loc
    {
        size_t offset, size;
        std::string data;
        unsigned uid;
        Time rt;
    };
    std::map<std::string, std::vector<Loc>> known;
    {
        auto res = s.query("", "");
        if (res.mds.size() != res.items.size())
            throw std::runtime_error("query did not read all the data");
        for (size_t i = 0; i < res.mds.size(); ++i)
        {
            const auto& b = res.mds[i]->sourceBlob();
            known[b.absolutePathname()].push_back(
                {(size_t)b.offset, (size_t)b.size, str(res.items[i].data), res.items[i].uid, res.items[i].rt});
        }
    }
    std::vector<std::pair<std::string, fs::path>> files;
    for (const auto& e : fs::recursive_directory_iterator(s.path))
    {
        if (!e.is_regular_file())
            continue;
        auto ext = e.path().extension();
        if (ext == ".tar" || ext == ".zip" || ext == ".gz")
            files.emplace_back(ext.native().substr(1), e.path());
    }
    if (files.empty())
        return;
    auto lists = list_archives(c.dir, files, s.rng.chance(30));
    for (const auto& f : files)
    {
        fs::path seg = f.second;
        seg.replace_extension();
        auto k = known.find(seg.native());
        std::vector<Loc> locs;
        if (k != known.end())
            locs = k->second;
        const Listing& l = lists[f.second.native()];
        std::string what = cat(where, ": ", f.second.lexically_relative(s.path).native());
        check_listing(f.first, what, l);
        count("segments_" + f.first);
        if (f.first == "gz")
        {
            std::string all = l.all();
            // Items, one after the other
            std::sort(locs.begin(), locs.end(), [](const Loc& a, const Loc& b) { return a.offset < b.offset; });
            size_t padding = s.conf.format == DataFormat::VM2 ? 1 : 0;
            size_t pos     = 0;
            for (const auto& i : locs)
            {
                if (i.offset != pos)
                    fail("gz-contents", cat(what, ": item ", i.uid, " is said to be at ", i.offset,
                                            ", while what comes before ends at ", pos));
                if (all.size() < i.offset || all.compare(i.offset, i.size, i.data) != 0)
                    fail("gz-contents", cat(what, ": the bytes of item ", i.uid, " are not at offset ", i.offset, "+", i.size));
                pos += i.size;
                if (padding)
                {
                    if (pos >= all.size() || all[pos] != '\n')
                        fail("gz-contents", cat(what, ": item ", i.uid, " is not followed by a newline"));
                    ++pos;
                }
                count("located");
            }
            if (pos != all.size())
                fail("gz-contents", cat(what, ": the items are ", pos, " bytes, the file has ", all.size()));
            continue;
        }
        if (l.entries.size() != locs.size())
            fail(f.first + "-contents", cat(what, ": ", l.entries.size(), " entries are found, for ", locs.size(), " items"));
        std::vector<const Entry*> by_pos;
        for (const auto& e : l.entries)
            by_pos.push_back(&e);
        if (f.first == "tar")
        {
            // Named in order
            for (size_t i = 0; i < l.entries.size(); ++i)
                if (l.entries[i].name != data_name(i, s.conf.format))
                    fail("tar-names", cat(what, ": entry ", i, " is called ", l.entries[i].name));
            for (const auto& i : locs)
            {
                bool found = false;
                for (const auto& e : l.entries)
                    if (e.offset == (long long)i.offset)
                    {
                        found = true;
                        if (e.size != i.size || e.data != i.data)
                            fail("tar-contents", cat(what, ": entry ", e.name, " is not what arkimet says is at ", i.offset, "+",
                                                     i.size, " (item ", i.uid, ")"));
                    }
                if (!found)
                    fail("tar-contents", cat(what, ": no entry has its data at ", i.offset, ", where item ", i.uid, " is"));
                // And in the file itself
                std::string raw(i.size, 0);
                int fd = open(f.second.c_str(), O_RDONLY | O_CLOEXEC);
                ssize_t r = pread(fd, raw.data(), i.size, i.offset);
                close(fd);
                if (r != (ssize_t)i.size || raw != i.data)
                    fail("tar-contents", cat(what, ": the bytes of item ", i.uid, " are not at ", i.offset, "+", i.size));
                count("located");
            }
        }
        else
        {
            std::set<std::string> names;
            for (const auto& e : l.entries)
                if (!names.insert(e.name).second)
                    fail("zip-names", cat(what, ": two entries are called ", e.name));
            for (const auto& i : locs)
            {
                bool found = false;
                for (const auto& e : l.entries)
                    if (e.name == data_name(i.offset, s.conf.format))
                    {
                        found = true;
                        if (e.size != i.size || e.data != i.data)
                            fail("zip-contents", cat(what, ": entry ", e.name, " is not item ", i.uid, " of ", i.size, " bytes"));
                    }
                if (!found)
                    fail("zip-contents", cat(what, ": no entry is called ", data_name(i.offset, s.conf.format)));
                count("located");
            }
        }
    }
}

void segments_case(Case& c)
{
    ConfGen cg;
    DsConf conf = cg.make(c.rng);
    Store s(c.rng, conf, c.dir / "ds");
    s.prefix = "c26:";
    std::string kinds;
    unsigned rounds = c.rng.range(1, 2);
    for (unsigned r = 0; r < rounds; ++r)
    {
        auto items = s.make_items(c.rng.pick({1, 2, 5, 12, 25}));
        if (items.empty())
            break;
        // Many in the same segment
        for (auto& i : items)
            resize_item(c.rng, i, pick_size(c.rng));
        s.import(items, c.rng.below(2), false);
        if (!s.live.empty() && c.rng.chance(20))
            History::remove_some(s);
        std::string op = c.rng.pick({"tar", "zip", "compress", "tar", "zip"});
        // Fresh segments may need to be seen by a check first
        s.run_check(true);
        if (c.rng.chance(30))
            s.run_repack(true);
        s.run_op(op, true);
        s.close_converted();
        kinds += op + " ";
        check_segments(c, s, "after " + op);
        s.check_contents("after " + op, true);
        if (c.rng.chance(30))
        {
            auto uids = std::set<unsigned>();
            for (const auto& i : s.live)
                if (c.rng.chance(30))
                    uids.insert(i.first);
            if (!uids.empty())
            {
                s.remove(uids);
                s.run_repack(true);
                check_segments(c, s, "after removals and repack");
                s.check_contents("after removals and repack", true);
                count("repacked");
                kinds += "removals ";
            }
        }
    }
    count("segment_cases");
    distinct(cat("seg:", conf.desc(), kinds, s.live.size()));
    sample(cat("dataset ", conf.desc(), ": ", kinds, "with ", s.live.size(), " items"));
}

/*
 * Results of queries
 */

std::string source_text(const Metadata& md)
{
    if (!md.has_source())
        return "nothing";
    if (md.has_source_blob())
    {
        const auto& b = md.sourceBlob();
        return cat("BLOB ", fmt_name(b.format), " ", b.filename.native(), ":", b.offset, "+", b.size);
    }
    std::ostringstream ss;
    ss << md.source();
    return ss.str();
}

void results_case(Case& c)
{
    std::string format = c.rng.pick({"tar", "tar", "zip", "zip", "tar.gz", "tar.xz"});
    std::string subdir = "data";
    bool set           = c.rng.chance(60);
    if (set)
        switch (c.rng.below(5))
        {
            case 0: subdir = ""; break;
            case 1: subdir = "a/b"; break;
            case 2: subdir = std::string(c.rng.range(80, 110), 'd'); break;
            case 3: subdir = std::string(c.rng.range(80, 200), 'e') + "/" + std::string(c.rng.range(1, 30), 'f'); break;
            default: subdir = gen_word(c.rng, 12, false); break;
        }
    bool with_md = c.rng.chance(80);
    bool stream  = c.rng.chance(60);
    bool blobs   = c.rng.chance(70);
    std::vector<std::string> sources;
    ItemGen gen(c.rng);
    std::vector<Item> items;
    unsigned n = c.rng.pick({0, 1, 2, 5, 12, 25});
    for (unsigned i = 0; i < n; ++i)
    {
        gen.format = c.rng.pick({DataFormat::GRIB, DataFormat::BUFR, DataFormat::VM2, DataFormat::ODIMH5, DataFormat::NETCDF,
                                 DataFormat::JPEG});
        Item it = gen.make();
        resize_item(c.rng, it, pick_size(c.rng));
        items.push_back(it);
    }
    context(cat("query result of ", n, " items as ", format, " in '", subdir, "', ", stream ? "stream" : "file"));
    fs::path path = c.dir / ("out." + format);
    {
        std::shared_ptr<core::NamedFileDescriptor> fd;
        std::unique_ptr<metadata::ArchiveOutput> out;
        auto file = std::make_shared<core::File>(path, O_WRONLY | O_CREAT | O_TRUNC, 0666);
        if (stream)
            out = metadata::ArchiveOutput::create_stream(format, StreamOutput::create(file));
        else
            out = metadata::ArchiveOutput::create_file(format, file);
        if (set)
            out->set_subdir(subdir);
        for (unsigned i = 0; i < n; ++i)
        {
            std::shared_ptr<Metadata> md = items[i].md();
            if (blobs)
            {
                // As they come from queries
                auto data = md->get_data().read();
                md->set_source(types::Source::createBlobUnlocked(items[i].format, c.dir, "orig/data." + std::string(fmt_name(items[i].format)),
                                                                 i * 10000, data.size()));
                md->set_cached_data(metadata::DataManager::get().to_data(items[i].format, std::move(data)));
            }
            sources.push_back(source_text(*md));
            size_t idx = out->append(*md);
            if (idx != i + 1)
                fail("result-index", cat("item ", i, " was given number ", idx));
            // The caller's metadata is not touched
            if (md->get_data().read() != items[i].data)
                fail("result-source", cat("the data of item ", i, " cannot be read any more after it was archived"));
        }
        out->flush(with_md);
    }
    auto list = list_archives(c.dir, {{format, path}}, c.rng.chance(25))[path.native()];
    check_listing("result-" + format, format, list);
    if (list.entries.size() != n + (with_md ? 1 : 0))
        fail("result-contents", cat(list.entries.size(), " entries for ", n, " items", with_md ? " and their metadata" : ""));
    std::string pfx = subdir.empty() ? "" : subdir + "/";
    for (unsigned i = 0; i < n; ++i)
    {
        if (list.entries[i].name != pfx + data_name(i + 1, items[i].format))
            fail("result-names", cat("entry ", i, " is called ", list.entries[i].name));
        if (list.entries[i].data != str(items[i].data))
            fail("result-contents", cat("entry ", list.entries[i].name, " does not have the data of item ", items[i].uid));
        count("result_items");
    }
    if (with_md)
    {
        if (list.entries.back().name != pfx + "metadata.md")
            fail("result-names", cat("metadata are in ", list.entries.back().name));
        fs::path mdpath = c.dir / "metadata.md";
        write_text(mdpath, list.entries.back().data);
        std::vector<std::shared_ptr<Metadata>> mds;
        core::File in(mdpath, O_RDONLY);
        metadata::BinaryReader reader(in);
        while (auto md = reader.read(false))
            mds.push_back(md);
        if (mds.size() != n)
            fail("result-metadata", cat(mds.size(), " metadata for ", n, " items"));
        unsigned original = 0;
        for (unsigned i = 0; i < n; ++i)
        {
            std::string diff = compare_md(items[i], *mds[i]);
            if (!diff.empty())
                fail("result-metadata", cat("item ", i, ": ", diff));
            if (mds[i]->has_source_blob())
            {
                const auto& b = mds[i]->sourceBlob();
                if (b.filename == list.entries[i].name && b.offset == 0 && b.size == items[i].data.size() &&
                    b.format == items[i].format)
                {
                    count("result_located");
                    continue;
                }
            }
            // Reported once, apart from other reasons: the metadata has the
            // source of the item that was given
            std::string got = source_text(*mds[i]);
            if (got == sources[i])
                ++original;
            else
                fail("result-metadata", cat("item ", i, " is said to be at ", got, ", while it is ", list.entries[i].name, " of ",
                                            items[i].data.size(), " bytes"));
        }
        if (original)
            violation("result-metadata-source", cat("metadata.md says that items are where they were before they were archived (",
                                                    sources[0], ")"));
        count("result_metadata");
    }
    count("result_cases");
    distinct(cat("res:", format, set, subdir.size(), with_md, stream, n));
    sample(cat("query result of ", n, " items as ", format, stream ? " to a stream" : " to a file"));
}

/*
 * Writers
 */

void tar_case(Case& c)
{
    fs::path path = c.dir / "out.tar";
    std::vector<Entry> expected;
    {
        core::File fd(path, O_WRONLY | O_CREAT | O_TRUNC, 0666);
        utils::TarOutput out(fd);
        unsigned n = c.rng.pick({0, 1, 2, 5, 20});
        for (unsigned i = 0; i < n; ++i)
        {
            Entry e;
            std::vector<std::pair<std::string, std::string>> hdrs;
            if (c.rng.chance(40))
            {
                utils::PaxHeader pax;
                unsigned nh = c.rng.range(1, 3);
                for (unsigned h = 0; h < nh; ++h)
                {
                    std::string k = cat("ARKIMET.", h, std::string(c.rng.pick({0, 1, 5, 40}), 'k'));
                    std::string v;
                    for (int j = c.rng.pick({0, 1, 5, 60, 70, 75, 80, 85, 90, 480, 500, 512, 960, 985, 990}) + c.rng.below(12);
                         j > 0; --j)
                        v += (char)c.rng.range('a', 'z');
                    if (c.rng.chance(50))
                        pax.append(k, v);
                    else
                        pax.append(k, std::vector<uint8_t>(v.begin(), v.end()));
                    hdrs.emplace_back(k, v);
                }
                out.append(pax);
                count("pax_headers", nh);
            }
            std::sort(hdrs.begin(), hdrs.end());
            for (const auto& h : hdrs)
                e.pax += (e.pax.empty() ? "" : "\n") + h.first + "=" + h.second;
            e.name = data_name(i, DataFormat::GRIB);
            if (c.rng.chance(40))
                e.name = std::string(c.rng.pick({1, 50, 99, 100}) , 'n');
            size_t size = c.rng.chance(10) ? 0 : pick_size(c.rng);
            e.data      = str(c.rng.bytes(size));
            // Data which look like the end of the archive
            if (c.rng.chance(10))
                e.data = std::string(size, 0);
            e.size = size;
            if (c.rng.chance(50))
                e.offset = out.append(e.name, e.data);
            else
                e.offset = out.append(e.name, std::vector<uint8_t>(e.data.begin(), e.data.end()));
            expected.push_back(e);
        }
        if (c.rng.chance(20))
        {
            bool thrown = false;
            try
            {
                out.append(std::string(101, 'x'), std::string("data"));
            }
            catch (std::exception&)
            {
                thrown = true;
            }
            if (!thrown)
                fail("tar-long-name", "a name which does not fit in the header was accepted");
        }
        out.end();
    }
    auto list = list_archives(c.dir, {{"tar", path}}, c.rng.chance(25))[path.native()];
    check_listing("tar", "tar file", list);
    if (list.entries.size() != expected.size())
        fail("tar-contents", cat(list.entries.size(), " entries are found, ", expected.size(), " were written"));
    for (size_t i = 0; i < expected.size(); ++i)
    {
        const auto &e = expected[i], &g = list.entries[i];
        if (e.name != g.name)
            fail("tar-names", cat("entry ", i, " is called ", g.name, " instead of ", e.name));
        if (e.offset != g.offset)
            fail("tar-contents", cat("entry ", i, " is at ", g.offset, ", while arkimet says ", e.offset));
        if (e.data != g.data)
            fail("tar-contents", cat("entry ", i, " has different data"));
        if (e.pax != g.pax)
            fail("tar-headers", cat("entry ", i, " has extended headers ", jstr(g.pax), " instead of ", jstr(e.pax)));
    }
    if (fs::file_size(path) % 512 != 0)
        fail("tar-unreadable", cat("size ", fs::file_size(path), " is not a multiple of 512"));
    count("tar_cases");
    distinct(cat("tar:", hash_str(list.all())));
}

void gz_case(Case& c)
{
    fs::path path = c.dir / "out.gz";
    unsigned group = c.rng.pick({0, 1, 2, 3, 5, 10, 512});
    std::string all;
    std::vector<std::pair<size_t, size_t>> items;
    bool indexed;
    {
        core::File fd(path, O_WRONLY | O_CREAT | O_TRUNC, 0666);
        utils::compress::GzipWriter out(fd, group);
        unsigned n = c.rng.pick({0, 1, 2, 3, 5, 10, 30});
        for (unsigned i = 0; i < n; ++i)
        {
            size_t size = c.rng.chance(10) ? 20000 + c.rng.below(60000) : pick_size(c.rng);
            auto data   = c.rng.chance(70) ? c.rng.bytes(size) : std::vector<uint8_t>(size, 'a');
            items.emplace_back(all.size(), size);
            all += str(data);
            out.add(data);
            if (c.rng.chance(20))
            {
                out.add({'\n'});
                all += '\n';
            }
            out.close_entry();
        }
        out.flush();
        indexed = !out.idx.only_one_group();
        if (indexed)
        {
            core::File idx(path.native() + ".idx", O_WRONLY | O_CREAT | O_TRUNC, 0666);
            out.idx.write(idx);
        }
    }
    auto list = list_archives(c.dir, {{"gz", path}}, c.rng.chance(25))[path.native()];
    check_listing("gz", "gzip file", list);
    if (list.all() != all)
        fail("gz-contents", cat("the file has ", list.all().size(), " bytes, ", all.size(), " were written, or they differ"));
    // Read back, in any order
    core::File fd(path, O_RDONLY);
    utils::compress::SeekIndexReader reader(fd);
    if (indexed)
    {
        if (!reader.idx.read(path.native() + ".idx"))
            fail("gz-index", "the index cannot be read");
        count("gz_indexed");
        if (group && reader.idx.ofs_unc.size() < items.size() / group)
            fail("gz-index", cat("the index has ", reader.idx.ofs_unc.size(), " groups for ", items.size(), " items"));
    }
    c.rng.shuffle(items);
    for (const auto& i : items)
    {
        auto got = reader.read(i.first, i.second);
        if (str(got) != all.substr(i.first, i.second))
            fail("gz-index", cat("bytes ", i.first, "+", i.second, " are not read back"));
        count("located");
    }
    count("gz_cases");
    distinct(cat("gz:", group, hash_str(all)));
}

void c26(Case& c)
{
    count("evals");
    switch (c.rng.below(10))
    {
        case 0:
        case 1:
        case 2: return results_case(c);
        case 3:
        case 4: return tar_case(c);
        case 5: return gz_case(c);
        default: return segments_case(c);
    }
}

} // namespace

int main(int argc, const char* argv[]) { return run_main(argc, argv, {{"C26", c26}}); }
