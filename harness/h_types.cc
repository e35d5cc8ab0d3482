// C18 metadata encodings, C19 order and identity of values
#include "common_types.h"
#include <arki/core/binary.h>
#include <arki/metadata/reader.h>
#include <arki/metadata/stream.h>
#include <arki/stream.h>
#include <arki/structured/json.h>
#include <arki/structured/keys.h>
#include <arki/structured/memory.h>
#include <arki/types/note.h>
#include <arki/types/source.h>
#include <arki/types/source/blob.h>
#include <arki/types/values.h>
#include <cstring>
#include <sys/wait.h>

using namespace arki;
using namespace arki::types;
using namespace vh;

static int sgn(int v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }

static std::string json_of(const Type& t, const structured::Keys& keys)
{
    std::stringstream out;
    structured::JSON j(out);
    t.serialise(j, keys);
    return out.str();
}

static void check_value_roundtrip(const Type& t)
{
    std::string name = types::tag(t.type_code());
    auto desc        = [&](const char* what, const std::string& other) {
        return cat(what, ": ", name, " ", t.to_string(), " became ", other);
    };
    count("evals");
    // String
    {
        std::string s = t.to_string();
        std::unique_ptr<Type> r;
        try
        {
            r = dec_string(t.type_code(), s);
        }
        catch (std::exception& e)
        {
            violation("string-does-not-parse:" + name, desc("string", e.what()));
        }
        if (r)
        {
            // The text of a blob does not tell its base directory from its relative path
            bool blob = dynamic_cast<const types::source::Blob*>(&t) != nullptr;
            if (!blob && !t.equals(*r))
                violation("string-roundtrip:" + name, desc("string", r->to_string()));
            else if ((!blob && t.compare(*r) != 0) || r->to_string() != s)
                violation("string-roundtrip-form:" + name, desc("string", r->to_string()));
            if (!blob && !(t == s))
                violation("string-compare:" + name, desc("comparison with its own string form", s));
        }
    }
    // Binary
    {
        auto buf = t.encodeBinary();
        core::BinaryDecoder dec(buf);
        auto r = Type::decode(dec);
        if (dec.size)
            violation("binary-leftover:" + name, desc("binary", r->to_string()));
        if (!t.equals(*r) || t.compare(*r) != 0)
            violation("binary-roundtrip:" + name, desc("binary", r->to_string()));
        if (r->encodeBinary() != buf)
            violation("binary-fixpoint:" + name, desc("binary", r->to_string()));
        std::unique_ptr<Type> c(t.clone());
        if (!t.equals(*c) || c->encodeBinary() != buf)
            violation("clone:" + name, desc("clone", c->to_string()));
    }
    // Structured, through JSON text
    for (int k = 0; k < 2; ++k)
    {
        const auto& keys = k ? structured::keys_python : structured::keys_json;
        std::string s    = json_of(t, keys);
        try
        {
            structured::Memory mem;
            structured::JSON::parse(s, mem);
            auto r = types::decode_structure(keys, t.type_code(), mem.root());
            if (!t.equals(*r) || t.compare(*r) != 0)
                violation("structured-roundtrip:" + name, desc(s.c_str(), r->to_string()));
        }
        catch (std::exception& e)
        {
            violation("structured-does-not-parse:" + name, desc(s.c_str(), e.what()));
        }
        // And without JSON
        try
        {
            structured::Memory mem;
            t.serialise(mem, keys);
            auto r = types::decode_structure(keys, t.type_code(), mem.root());
            if (!t.equals(*r) || t.compare(*r) != 0)
                violation("structured-roundtrip:" + name, desc("memory", r->to_string()));
        }
        catch (std::exception& e)
        {
            violation("structured-does-not-parse:" + name, desc("memory", e.what()));
        }
    }
}

static void c19(Case& c)
{
    Rng& r = c.rng;
    std::vector<TypeCode> codes(item_codes);
    codes.insert(codes.end(), {TYPE_NOTE, TYPE_VALUE, TYPE_SOURCE});
    TypeCode code = codes[c.index % codes.size()];
    std::vector<std::unique_ptr<Type>> pool;
    unsigned n = 12;
    for (unsigned i = 0; i < n; ++i)
    {
        if (i >= 4 && r.chance(15))
            pool.emplace_back(pool[r.below(pool.size())]->clone());
        else if (r.chance(10))
            pool.push_back(gen_value(r, codes[r.below(codes.size())], r.chance(50)));
        else
            pool.push_back(gen_value(r, code, r.chance(60)));
    }
    if (c.index < 30)
        sample(cat(types::tag(code), ": ", pool[0]->to_string(), " | ", pool[1]->to_string()));
    std::vector<std::vector<int>> cmp(n, std::vector<int>(n));
    for (unsigned i = 0; i < n; ++i)
    {
        check_value_roundtrip(*pool[i]);
        distinct(pool[i]->to_string());
        for (unsigned j = 0; j < n; ++j)
        {
            const Type &a = *pool[i], &b = *pool[j];
            bool eq        = a.equals(b);
            cmp[i][j]      = sgn(a.compare(b));
            count("pairs");
            auto what = [&] {
                return cat(a.type_code(), " ", a.to_string(), " vs ", b.type_code(), " ", b.to_string(), " compare ",
                           cmp[i][j], "/", sgn(b.compare(a)), " equals ", eq, "/", b.equals(a));
            };
            std::string key = types::tag(a.type_code());
            if (eq != b.equals(a))
                violation("equals-not-symmetric:" + key, what());
            if (cmp[i][j] != -sgn(b.compare(a)))
                violation("compare-not-antisymmetric:" + key, what());
            if (eq != (cmp[i][j] == 0))
                violation("equals-compare-disagree:" + key, what());
            if ((a == b) != eq || (a != b) == eq || (a < b) != (cmp[i][j] < 0) || (a <= b) != (cmp[i][j] <= 0) ||
                (a > b) != (cmp[i][j] > 0) || (a >= b) != (cmp[i][j] >= 0))
                violation("operators-disagree:" + key, what());
            if (i == j && !eq)
                violation("not-equal-to-itself:" + key, what());
            if (a.type_code() != b.type_code())
            {
                if (eq)
                    violation("equal-different-types:" + key, what());
                continue;
            }
            if (!eq && a.encodeBinary() == b.encodeBinary())
                violation("different-same-binary:" + key, what());
            if (!eq && a.to_string() == b.to_string())
                violation("different-same-string:" + key, what());
            // Time ranges are compared in normalised units, and their encoding keeps the original unit
            if (a.type_code() != TYPE_TIMERANGE && a.type_code() != TYPE_SOURCE && eq &&
                (a.encodeBinary() != b.encodeBinary() || a.to_string() != b.to_string()))
                violation("equal-different-form:" + key, what());
        }
    }
    for (unsigned i = 0; i < n; ++i)
        for (unsigned j = 0; j < n; ++j)
            for (unsigned k = 0; k < n; ++k)
            {
                count("triples");
                if (cmp[i][j] <= 0 && cmp[j][k] <= 0 &&
                    (cmp[i][k] > 0 || (cmp[i][k] == 0 && (cmp[i][j] < 0 || cmp[j][k] < 0))))
                    violation(cat("compare-not-transitive:", types::tag(pool[i]->type_code())),
                              cat(pool[i]->to_string(), " <= ", pool[j]->to_string(), " <= ", pool[k]->to_string()));
            }
    // Sources from the whole range of the fields: which one is stored first does not depend on 32 bit wraps
    auto blob = [&](uint64_t off, uint64_t size) {
        return Source::createBlobUnlocked(DataFormat::GRIB, "/tmp", "a", off, size);
    };
    uint64_t o1 = r.next() >> (8 + r.below(50)), o2 = r.chance(30) ? o1 + (1ull << 32) : r.next() >> (8 + r.below(50));
    auto s1 = blob(o1, 10), s2 = blob(o2, 10);
    int want = o1 < o2 ? -1 : o1 > o2 ? 1 : 0;
    count("blob_orders");
    if (sgn(s1->compare(*s2)) != want)
        violation("blob-offset-order", cat("offsets ", o1, " and ", o2, " compare as ", s1->compare(*s2)));
}

/*
 * Metadata
 */

static std::shared_ptr<Metadata> gen_md(Rng& r, int kind, std::vector<uint8_t>& data, const std::string& base)
{
    auto md = std::make_shared<Metadata>();
    for (auto code : item_codes)
        if (r.chance(65))
            md->test_set(gen_value(r, code, r.chance(60)));
    if (r.chance(20))
        md->test_set(gen_value(r, TYPE_ASSIGNEDDATASET, true));
    auto fmt = r.pick({DataFormat::GRIB, DataFormat::BUFR, DataFormat::ODIMH5, DataFormat::NETCDF, DataFormat::JPEG,
                       DataFormat::VM2});
    switch (kind)
    {
        case 0: {
            // Of any size, also larger than the buffers used for reading
            unsigned size = r.chance(10) ? 70000 + r.below(70000) : 1 + r.below(300);
            data          = r.bytes(size);
            md->set_source_inline(fmt, metadata::DataManager::get().to_data(fmt, std::vector<uint8_t>(data)));
            break;
        }
        case 1: md->set_source(Source::createURL(fmt, "http://localhost:8080/" + gen_word(r, 20, false))); break;
        default:
            md->set_source(Source::createBlobUnlocked(fmt, base, gen_word(r, 20, false),
                                                      r.chance(20) ? r.next() >> 10 : r.below(100000),
                                                      r.chance(20) ? r.next() >> 10 : 1 + r.below(100000)));
            break;
    }
    unsigned notes = r.below(3);
    for (unsigned i = 0; i < notes; ++i)
    {
        auto n = gen_value(r, TYPE_NOTE, true);
        md->add_note(std::unique_ptr<Note>(dynamic_cast<Note*>(n.release())));
    }
    return md;
}

static std::vector<const Type*> md_values(const Metadata& md)
{
    std::vector<const Type*> res;
    auto codes = item_codes;
    codes.push_back(TYPE_ASSIGNEDDATASET);
    codes.push_back(TYPE_VALUE);
    for (auto code : codes)
        if (const Type* t = md.get(code))
            res.push_back(t);
    return res;
}

// What a metadata is, apart from its representation in memory
static std::string md_repr(const Metadata& md, bool with_source)
{
    std::string res;
    for (auto v : md_values(md))
    {
        auto buf = v->encodeBinary();
        res += types::tag(v->type_code()) + "=" + std::string(buf.begin(), buf.end()) + ";";
    }
    auto n = md.notes();
    for (auto i = n.first; i != n.second; ++i)
        res += "note=" + (*i)->to_string() + ";";
    if (with_source)
        res += "source=" + md.source().to_string();
    return res;
}

static std::string md_text(const Metadata& md) { return md.to_yaml(); }

struct Expected
{
    std::shared_ptr<Metadata> md;
    std::vector<uint8_t> data;
    int kind;
    std::string repr;
};

static void compare_mds(const char* how, const std::vector<Expected>& exp,
                        const std::vector<std::shared_ptr<Metadata>>& got, bool with_data, bool exact_source)
{
    count(cat("compared_", how), got.size());
    if (exp.size() != got.size())
    {
        violation(cat("wrong-number:", how), cat("written ", exp.size(), " read ", got.size()));
        return;
    }
    for (unsigned i = 0; i < exp.size(); ++i)
    {
        count("evals");
        if (md_repr(*got[i], exact_source) != (exact_source ? exp[i].repr : md_repr(*exp[i].md, false)))
        {
            violation(cat("metadata-differ:", how), cat("#", i, " written:\n", md_text(*exp[i].md), "read:\n", md_text(*got[i])));
            return;
        }
        if (!got[i]->items_equal(*exp[i].md))
            violation(cat("items-equal:", how), cat("#", i, " written:\n", md_text(*exp[i].md), "read:\n", md_text(*got[i])));
        if (with_data && exp[i].kind == 0 && got[i]->get_data().read() != exp[i].data)
            violation(cat("data-differ:", how), cat("#", i, " of ", exp[i].data.size(), " bytes"));
    }
}

struct PieceFile : public core::AbstractInputFile
{
    const std::vector<uint8_t>& buf;
    size_t pos = 0;
    Rng& r;
    std::filesystem::path p;
    PieceFile(const std::vector<uint8_t>& buf, Rng& r, const std::filesystem::path& p) : buf(buf), r(r), p(p) {}
    std::filesystem::path path() const override { return p; }
    size_t read(void* dest, size_t size) override
    {
        size_t n = std::min(size, buf.size() - pos);
        memcpy(dest, buf.data() + pos, n);
        pos += n;
        return n;
    }
};

static void c18(Case& c)
{
    Rng& r                   = c.rng;
    std::filesystem::path bd = std::filesystem::canonical(c.dir);
    unsigned n               = r.chance(10) ? 0 : 1 + r.below(8);
    if (r.chance(4))
        n = 100 + r.below(300); // more than one compressed group
    bool large = n > 50 && r.below(2);
    std::vector<Expected> all, noinline;
    metadata::Collection mds, mds_noinline;
    for (unsigned i = 0; i < n; ++i)
    {
        Expected e;
        e.kind = n > 50 ? 2 : r.below(3);
        e.md   = gen_md(r, e.kind, e.data, bd);
        // Large metadata make groups larger than 64 KB
        if (large)
            e.md->add_note(gen_word(r, 1200, false) + std::string(r.below(800), 'x'));
        e.repr = md_repr(*e.md, true);
        all.push_back(e);
        mds.push_back(e.md);
        if (e.kind != 0)
        {
            noinline.push_back(e);
            mds_noinline.push_back(e.md);
        }
        distinct(e.repr);
    }
    if (n && c.index < 50)
        sample(all[0].md->to_yaml());
    context(cat(n, " metadata"));

    // In memory
    for (auto& e : all)
    {
        auto buf = e.md->encodeBinary();
        core::BinaryDecoder dec(buf);
        std::string sig;
        unsigned ver;
        core::BinaryDecoder inner = dec.pop_metadata_bundle(sig, ver);
        auto got                  = Metadata::read_binary_inner(inner, ver, "test", bd);
        if (md_repr(*got, true) != e.repr || got->encodeBinary() != buf || dec.size)
            violation("metadata-differ:memory", cat("written:\n", md_text(*e.md), "read:\n", md_text(*got)));
        auto cl = got->clone();
        if (!(*cl == *got) || md_repr(*cl, true) != e.repr)
            violation("metadata-differ:clone", md_text(*e.md));
        if (e.kind != 0 && !(*got == *e.md))
            violation("not-equal:memory", md_text(*e.md));
        // Setting all values again in any order changes nothing
        Metadata again;
        std::vector<const Type*> vals = md_values(*e.md);
        r.shuffle(vals);
        for (auto v : vals)
            again.set(*v);
        auto nn = e.md->notes();
        for (auto i = nn.first; i != nn.second; ++i)
            again.add_note(std::unique_ptr<Note>(dynamic_cast<Note*>((*i)->clone())));
        if (md_repr(again, false) != md_repr(*e.md, false) || !again.items_equal(*e.md))
            violation("set-order", md_text(*e.md));
        std::vector<uint8_t> notes;
        core::BinaryEncoder nenc(notes);
        e.md->encode_notes(nenc);
        Metadata wn;
        wn.set_notes_encoded(notes.data(), notes.size());
        std::string a, b;
        for (auto i = nn.first; i != nn.second; ++i)
            a += (*i)->to_string();
        auto nw = wn.notes();
        for (auto i = nw.first; i != nw.second; ++i)
            b += (*i)->to_string();
        if (a != b)
            violation("notes-encoded", cat(a, " became ", b));
    }

    // Stream of metadata with inline data, in one file
    auto fname = bd / "test.md";
    {
        core::File out(fname, O_WRONLY | O_CREAT | O_TRUNC);
        for (auto& md : mds)
            md->write(out);
        out.close();
    }
    std::string text = read_text(fname);
    std::vector<uint8_t> bytes(text.begin(), text.end());
    {
        auto so = StreamOutput::create(fname.native() == "" ? std::make_shared<core::File>(fname) : std::make_shared<core::File>(bd / "test1.md", O_WRONLY | O_CREAT | O_TRUNC));
        for (auto& md : mds)
            md->write(*so);
    }
    if (read_text(bd / "test1.md") != text)
        violation("streamoutput-differs", cat("writing to a file and to a stream output gives ", text.size(), " and ",
                                              read_text(bd / "test1.md").size(), " bytes"));
    for (int how = 0; how < 5; ++how)
    {
        std::vector<std::shared_ptr<Metadata>> got;
        auto dest = [&](std::shared_ptr<Metadata> md) {
            got.push_back(md);
            return true;
        };
        const char* name = "";
        if (how == 0)
        {
            name = "file";
            core::File in(fname, O_RDONLY);
            metadata::BinaryReader reader(in);
            if (!reader.read_all(dest))
                violation("read-all-returned-false", name);
        }
        else if (how == 1)
        {
            name = "abstract";
            PieceFile in(bytes, r, fname);
            metadata::AbstractFileBinaryReader reader(in);
            if (!reader.read_all(dest))
                violation("read-all-returned-false", name);
        }
        else if (how == 2)
        {
            name = "one-by-one";
            core::File in(fname, O_RDONLY);
            metadata::BinaryReader reader(in);
            while (auto md = reader.read())
                got.push_back(md);
        }
        else if (how == 3)
        {
            name = "pipe";
            int fds[2];
            if (pipe(fds) != 0)
                throw std::runtime_error("pipe");
            pid_t pid = fork();
            if (pid == 0)
            {
                close(fds[0]);
                size_t pos = 0;
                while (pos < bytes.size())
                {
                    size_t k  = std::min<size_t>(bytes.size() - pos, 1 + r.below(5000));
                    ssize_t w = ::write(fds[1], bytes.data() + pos, k);
                    if (w <= 0)
                        _exit(1);
                    pos += w;
                }
                _exit(0);
            }
            close(fds[1]);
            {
                core::NamedFileDescriptor in(fds[0], fname);
                metadata::BinaryReader reader(in);
                try
                {
                    reader.read_all(dest);
                }
                catch (...)
                {
                    close(fds[0]);
                    int st;
                    waitpid(pid, &st, 0);
                    throw;
                }
            }
            close(fds[0]);
            int st;
            waitpid(pid, &st, 0);
        }
        else
        {
            name = "pieces";
            metadata::Stream stream(dest, bd);
            size_t pos = 0;
            unsigned maxp = r.pick({1u, 3u, 17u, 400u, 100000u});
            if (bytes.size() > 20000 && maxp < 400)
                maxp = 400;
            while (pos < bytes.size())
            {
                size_t k = std::min<size_t>(bytes.size() - pos, 1 + r.below(maxp));
                stream.readData(bytes.data() + pos, k);
                pos += k;
            }
            if (stream.countBytesUnprocessed())
                violation("stream-leftover", cat(stream.countBytesUnprocessed(), " bytes were not processed"));
        }
        compare_mds(name, all, got, true, true);
        // Stop early
        if (how < 2 && n > 1)
        {
            unsigned stop = r.below(n - 1) + 1, seen = 0;
            core::File in(fname, O_RDONLY);
            metadata::BinaryReader reader(in);
            bool res = reader.read_all([&](std::shared_ptr<Metadata>) { return ++seen < stop; });
            if (res || seen != stop)
                violation("read-stop", cat("asked to stop after ", stop, " got ", seen, " result ", res));
        }
    }
    // A stream truncated anywhere is an error, or a prefix
    if (!bytes.empty() && n <= 50)
    {
        for (int t = 0; t < 4; ++t)
        {
            size_t len = r.below(bytes.size());
            std::vector<uint8_t> part(bytes.begin(), bytes.begin() + len);
            write_text(bd / "part.md", std::string(part.begin(), part.end()));
            std::vector<std::shared_ptr<Metadata>> got;
            bool error = false;
            bool abs   = r.chance(50);
            auto dest = [&](std::shared_ptr<Metadata> md) {
                got.push_back(md);
                return true;
            };
            try
            {
                if (abs)
                {
                    PieceFile in(part, r, bd / "part.md");
                    metadata::AbstractFileBinaryReader reader(in);
                    reader.read_all(dest);
                }
                else
                {
                    core::File in(bd / "part.md", O_RDONLY);
                    metadata::BinaryReader reader(in);
                    reader.read_all(dest);
                }
            }
            catch (std::exception&)
            {
                error = true;
            }
            count("truncations");
            std::vector<Expected> prefix(all.begin(), all.begin() + std::min(got.size(), all.size()));
            compare_mds(abs ? "truncated-abstract" : "truncated", prefix, got, true, true);
            // Where does the prefix end
            size_t end = 0;
            for (auto& e : prefix)
                end += e.md->encodeBinary().size() + (e.kind == 0 ? e.data.size() : 0);
            if (end > len)
                violation("truncation-invents", cat("file cut at ", len, " of ", bytes.size(), " bytes reads ",
                                                      error ? "with" : "without", " error as ", got.size(), " metadata"));
        }
    }

    // Compressed groups: no inline data
    {
        auto fn = bd / "group.md";
        mds_noinline.writeAtomically(fn);
        metadata::Collection got;
        got.read_from_file(fn);
        std::vector<std::shared_ptr<Metadata>> v(got.begin(), got.end());
        compare_mds("compressed", noinline, v, false, true);
        if (std::filesystem::exists(fn.native() + ".tmp"))
            violation("tempfile-left", "writeAtomically left its temporary file");
    }

    // JSON
    for (auto& e : all)
    {
        std::stringstream out;
        structured::JSON j(out);
        e.md->serialise(j, structured::keys_json);
        structured::Memory mem;
        structured::JSON::parse(out.str(), mem);
        auto got = Metadata::read_structure(structured::keys_json, mem.root());
        count("json");
        if (md_repr(*got, false) != md_repr(*e.md, false))
            violation("metadata-differ:json", cat("written:\n", out.str(), "\n", md_text(*e.md), "read:\n", md_text(*got)));
        else if (got->source().to_string() != e.md->source().to_string())
            violation("source-differ:json", cat(out.str(), " gives ", got->source().to_string()));
    }

    // Yaml
    {
        std::string y;
        std::vector<Expected> exp;
        for (auto& e : all)
        {
            // Yaml has comments
            if (e.md->to_yaml().find('#') != std::string::npos)
                continue;
            y += e.md->to_yaml() + "\n";
            exp.push_back(e);
        }
        write_text(bd / "test.yaml", y);
        core::File in(bd / "test.yaml", O_RDONLY);
        metadata::YamlReader reader(in);
        std::vector<std::shared_ptr<Metadata>> got;
        reader.read_all([&](std::shared_ptr<Metadata> md) {
            got.push_back(md);
            return true;
        });
        context(y);
        compare_mds("yaml", exp, got, false, false);
    }
}

int main(int argc, const char* argv[]) { return run_main(argc, argv, {{"C18", c18}, {"C19", c19}}); }
