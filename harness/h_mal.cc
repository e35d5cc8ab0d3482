// C24: malformed input is decoded without memory errors, undefined behaviour,
// endless loops or unbounded allocations. The oracle is the instrumentation
// (AddressSanitizer, every check of UndefinedBehaviorSanitizer, a watch on
// the size of allocations, the driver's time limit); the monitor also asks
// that what is reported be an exception derived from std::exception, and that
// a value which was decoded can be used and encoded.
#include "common_ds.h"
#include "common_types.h"
#include "sortspec.h"
#include <arki/core/binary.h>
#include <arki/core/cfg.h>
#include <arki/core/time.h>
#include <arki/dataset/step.h>
#include <arki/formatter.h>
#include <arki/matcher.h>
#include <arki/matcher/parser.h>
#include <arki/metadata/archive.h>
#include <arki/metadata/reader.h>
#include <arki/metadata/sort.h>
#include <arki/metadata/stream.h>
#include <arki/metadata/validator.h>
#include <arki/structured/json.h>
#include <arki/structured/keys.h>
#include <arki/structured/memory.h>
#include <arki/summary/codec.h>
#include <arki/summary/short.h>
#include <arki/dataset.h>
#include <arki/query.h>
#include <arki/dataset/session.h>
#include <arki/stream.h>
#include <arki/types/area.h>
#include <arki/types/bundle.h>
#include <arki/types/level.h>
#include <arki/types/note.h>
#include <arki/types/origin.h>
#include <arki/types/proddef.h>
#include <arki/types/product.h>
#include <arki/types/reftime.h>
#include <arki/types/run.h>
#include <arki/types/source.h>
#include <arki/types/source/inline.h>
#include <arki/types/timerange.h>
#include <arki/types/values.h>
#include <arki/utils/compress.h>
#include <arki/utils/string.h>
#include <arki/utils/yaml.h>
#include <cmath>
#include <cstring>
#include <fcntl.h>
#include <sanitizer/allocator_interface.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace vh;
using namespace arki;
using namespace arki::types;
namespace sys = arki::utils::sys;
typedef std::vector<uint8_t> Bytes;

/*
 * Watch on allocations
 */

// More than any input of these tests can need
static const size_t MAX_ALLOCATION = 600u << 20;
static thread_local size_t biggest = 0;
static void on_malloc(const volatile void*, size_t size)
{
    if (size > biggest)
        biggest = size;
}
static void on_free(const volatile void*) {}

/*
 * Mutations
 */

static Bytes to_bytes(const std::string& s) { return Bytes(s.begin(), s.end()); }
static std::string to_str(const Bytes& b) { return std::string(b.begin(), b.end()); }

static void mutate(Rng& r, Bytes& b, bool text, const std::vector<std::string>& words)
{
    unsigned n = r.chance(text ? 80 : 60) ? 1 : 1 + r.below(6);
    for (unsigned i = 0; i < n; ++i)
    {
        size_t pos = b.empty() ? 0 : r.below(b.size());
        if (text && r.chance(60))
        {
            // Changes which often leave something that can be parsed
            if (r.chance(60))
            {
                // Replace a number
                size_t from = pos;
                while (from < b.size() && !isdigit(b[from]))
                    ++from;
                if (from == b.size())
                    continue;
                size_t to = from;
                while (to < b.size() && isdigit(b[to]))
                    ++to;
                auto v = r.pick<std::string>({"0", "1", "7", "12", "99", "127", "128", "254", "255", "256", "999", "32767", "32768", "65535", "65536",
                                              "86400", "99999", "8388608", "16777215", "2147483647", "2147483648", "4294967295", "4294967296",
                                              "-1", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808"});
                if (r.chance(30))
                    v = cat(r.next() >> r.below(64));
                b.erase(b.begin() + from, b.begin() + to);
                b.insert(b.begin() + from, v.begin(), v.end());
            }
            else if (!words.empty())
            {
                auto& w = r.pick(words);
                b.insert(b.begin() + pos, w.begin(), w.end());
            }
            continue;
        }
        switch (r.below(text ? 14 : 12))
        {
            case 0:
                if (!b.empty())
                    b[pos] ^= 1 << r.below(8);
                break;
            case 1:
                if (!b.empty())
                    b[pos] = r.pick({0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 0x7f, 0x80, 0x81, 0xc0, 0xe0, 0xfe, 0xff});
                break;
            case 2:
                if (!b.empty())
                    b[pos] = r.next();
                break;
            case 3: b.resize(r.below(b.size() + 1)); break;
            case 4: {
                auto x = r.bytes(1 + r.below(r.chance(10) ? 300 : 9));
                b.insert(b.begin() + pos, x.begin(), x.end());
                break;
            }
            case 5:
                if (!b.empty())
                    b.erase(b.begin() + pos, b.begin() + std::min(b.size(), pos + 1 + r.below(8)));
                break;
            case 6: {
                // Repeat a part
                if (b.empty())
                    break;
                Bytes x(b.begin() + pos, b.begin() + std::min(b.size(), (size_t)(pos + 1 + r.below(40))));
                unsigned times = r.chance(10) ? 1 + r.below(50) : 1;
                for (unsigned t = 0; t < times && b.size() < 100000; ++t)
                    b.insert(b.begin() + pos, x.begin(), x.end());
                break;
            }
            case 7: {
                // A big variable length integer
                Bytes x(r.below(11), 0xff);
                x.push_back(r.pick({0, 1, 0x0f, 0x10, 0x7f, 0x80}));
                if (r.chance(50))
                    b.insert(b.begin() + pos, x.begin(), x.end());
                else
                    for (size_t j = 0; j < x.size() && pos + j < b.size(); ++j)
                        b[pos + j] = x[j];
                break;
            }
            case 8: {
                // Boundary values of big endian integers
                uint64_t v = r.pick<uint64_t>({0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000u,
                                               0xffffffffu, 0xffffffffffffffffull, 0x7fffffffffffffffull, 0x8000000000000000ull});
                unsigned w = r.pick({1, 2, 3, 4, 8});
                for (unsigned j = 0; j < w && pos + j < b.size(); ++j)
                    b[pos + j] = v >> (8 * (w - 1 - j));
                break;
            }
            case 9: {
                // Move a part elsewhere
                if (b.size() < 2)
                    break;
                size_t from = r.below(b.size()), len = 1 + r.below(std::min<size_t>(b.size() - from, 30));
                Bytes x(b.begin() + from, b.begin() + from + len);
                for (size_t j = 0; j < x.size() && pos + j < b.size(); ++j)
                    b[pos + j] = x[j];
                break;
            }
            case 10:
                if (!b.empty())
                    b[pos] += r.range(-3, 3);
                break;
            case 11: {
                Bytes x(1 + r.below(30), r.pick({0, 0xff, 0x20, 0x30}));
                b.insert(b.begin() + pos, x.begin(), x.end());
                break;
            }
            default: {
                std::string w = words.empty() || r.chance(25)
                                    ? r.pick<std::string>({"", " ", "\n", "\r\n", "\t", "\"", "\\", "'", ",", ";", ":", "=", "[", "]", "(", ")",
                                                           "{", "}", "-", "+", ".", "%", "0", "-1", "2147483647", "2147483648", "-2147483648",
                                                           "4294967295", "4294967296", "9223372036854775807", "99999999999999999999999",
                                                           "1e999", "nan", "0x10", "\\x", "\\x4", "%4", "%", "\xff", std::string(1, 0)})
                                    : r.pick(words);
                if (r.chance(50))
                    b.insert(b.begin() + pos, w.begin(), w.end());
                else
                {
                    size_t end = std::min(b.size(), pos + r.below(12));
                    b.erase(b.begin() + pos, b.begin() + end);
                    b.insert(b.begin() + pos, w.begin(), w.end());
                }
                break;
            }
        }
    }
}

/*
 * Use of decoded values
 */

static std::unique_ptr<Formatter> formatter;

static void use_time(const Time& t)
{
    t.to_iso8601();
    t.to_sql();
    t.to_unix();
    t.is_start_of_month();
    t.start_of_month();
    t.start_of_next_month();
    t.start_of_previous_month();
    t.end_of_month();
    t.next_instant();
    t.prev_instant();
    t.compare(Time(2007, 1, 1));
    Time n = t;
    n.normalise();
    Bytes b;
    core::BinaryEncoder enc(b);
    t.encodeWithoutEnvelope(enc);
}

static void try_it(std::function<void()> f)
{
    try
    {
        f();
    }
    catch (std::exception&)
    {
        count("use_refused");
    }
}

static std::vector<std::unique_ptr<Type>> peers;

static void use_type(Rng& r, const Type& t)
{
    try_it([&] { t.to_string(); });
    try_it([&] { t.encodeBinary(); });
    try_it([&] {
        Bytes b;
        core::BinaryEncoder enc(b);
        t.encode_for_indexing(enc);
    });
    try_it([&] { std::unique_ptr<Type> c(t.clone()); c->equals(t); t.compare(*c); });
    try_it([&] {
        std::stringstream out;
        structured::JSON j(out);
        t.serialise(j, structured::keys_json, formatter.get());
    });
    try_it([&] { t.exactQuery(); });
    try_it([&] { formatter->format(t); });
    for (auto& p : peers)
        if (p->type_code() == t.type_code())
        {
            try_it([&] { t.equals(*p); });
            try_it([&] { t.compare(*p); });
            try_it([&] { p->equals(t); });
            try_it([&] { p->compare(t); });
        }
    if (auto rt = dynamic_cast<const Reftime*>(&t))
    {
        try_it([&] { use_time(rt->get_Position()); });
        try_it([&] {
            core::Interval i;
            rt->expand_date_range(i);
            i.to_string();
        });
        try_it([&] {
            for (const char* step : {"daily", "weekly", "biweekly", "monthly", "yearly"})
            {
                auto s = dataset::Step::create(step);
                core::Interval i;
                (*s)(rt->get_Position());
            }
        });
    }
    if (auto tr = dynamic_cast<const Timerange*>(&t))
    {
        int x;
        bool s;
        try_it([&] { tr->get_forecast_step(x, s); });
        try_it([&] { tr->get_proc_type(); });
        try_it([&] { tr->get_proc_duration(x, s); });
        }
    if (auto a = dynamic_cast<const Area*>(&t))
        if (a->style() != area::Style::VM2)
            try_it([&] { a->bbox(); });
    // Keep some to be compared with the next ones
    if (r.chance(10))
        try_it([&] {
            std::unique_ptr<Type> c(t.clone());
            if (peers.size() > 12)
                peers[r.below(peers.size())] = std::move(c);
            else
                peers.push_back(std::move(c));
        });
}

static std::vector<Matcher> matchers;
static std::vector<std::unique_ptr<metadata::sort::Compare>> sorters;
static std::shared_ptr<Metadata> last_md;

static void use_md(Rng& r, Metadata& md, bool deep = true)
{
    count("metadata_decoded");
    try_it([&] { md.to_yaml(); });
    try_it([&] { md.to_yaml(formatter.get()); });
    Bytes enc;
    try_it([&] { enc = md.encodeBinary(); });
    try_it([&] {
        std::stringstream out;
        structured::JSON j(out);
        md.serialise(j, structured::keys_json, formatter.get());
    });
    try_it([&] { md.data_size(); });
    try_it([&] { md.get_last_note(); });
    try_it([&] { md.sourceBlob(); });
    if (!md.has_source() || md.source().style() != types::Source::Style::BLOB)
        try_it([&] { md.get_data(); });
    for (auto& m : matchers)
        try_it([&] { m(md); });
    if (last_md)
    {
        for (auto& s : sorters)
            try_it([&] { s->compare(md, *last_md); });
        try_it([&] { md.items_equal(*last_md); });
        try_it([&] { (void)(md == *last_md); });
        try_it([&] { md.diff_items(*last_md, [](Code, const Type*, const Type*) {}); });
    }
    try_it([&] {
        std::vector<std::string> errors;
        for (const auto& v : metadata::ValidatorRepository::get())
            (*v.second)(md, errors);
    });
    try_it([&] {
        Summary s;
        s.add(md);
        s.encode();
        s.to_yaml();
    });
    try_it([&] { md.clone()->make_absolute(); });
    try_it([&] {
        auto c = md.clone();
        if (last_md)
            c->merge(*last_md);
        c->prepare_for_segment_metadata();
        c->clear_notes();
        c->unset_source();
        c->encodeBinary();
    });
    try_it([&] {
        Bytes notes;
        core::BinaryEncoder e(notes);
        md.encode_notes(e);
        Metadata other;
        other.set_notes_encoded(notes.data(), notes.size());
    });
    if (deep)
        for (auto code : item_codes)
            if (const Type* t = md.get(code))
                use_type(r, *t);
    // What can be encoded can be read again
    if (!enc.empty())
        try_it([&] {
            core::BinaryDecoder dec(enc);
            auto i = dec.pop_data(enc.size(), "all");
            i.skip(8, "header");
            auto back = Metadata::read_binary_inner(i, 0, "test", "/nonexistent");
            count("metadata_reread");
        });
    if (r.chance(20))
        try_it([&] { last_md = md.clone(); });
}

static void use_summary(Rng& r, const Summary& s)
{
    count("summary_decoded");
    try_it([&] { s.encode(r.chance(50)); });
    try_it([&] { s.to_yaml(formatter.get()); });
    try_it([&] { s.count(); });
    try_it([&] { s.size(); });
    try_it([&] { s.get_reference_time(); });
    try_it([&] { core::Interval i; s.expand_date_range(i); });
    try_it([&] { s.getConvexHull(); });
    try_it([&] {
        std::stringstream o;
        s.dump(o);
    });
    try_it([&] {
        std::stringstream out;
        structured::JSON j(out);
        s.serialise(j, structured::keys_json, formatter.get());
    });
    for (auto& m : matchers)
    {
        try_it([&] { s.match(m); });
        try_it([&] {
            Summary f;
            s.filter(m, f);
            f.encode();
        });
    }
    try_it([&] {
        summary::Short sh;
        s.visit(sh);
        std::stringstream o;
        sh.write_yaml(o, formatter.get());
    });
    try_it([&] {
        Summary o;
        o.add(s, {TYPE_ORIGIN, TYPE_AREA});
        o.add(s);
        (void)(o == s);
    });
}

/*
 * Seeds
 */

static std::shared_ptr<Metadata> seed_md(Rng& r, Bytes* data = nullptr)
{
    auto md = std::make_shared<Metadata>();
    for (auto code : item_codes)
        if (r.chance(50))
            md->test_set(gen_value(r, code, r.chance(40)));
    if (r.chance(20))
        md->test_set(gen_value(r, TYPE_ASSIGNEDDATASET, true));
    auto fmt = r.pick({DataFormat::GRIB, DataFormat::BUFR, DataFormat::ODIMH5, DataFormat::VM2});
    switch (r.below(data ? 4 : 3))
    {
        case 0: break;
        case 1: md->set_source(Source::createURL(fmt, "http://localhost:8080/" + gen_word(r, 20, false))); break;
        case 2: md->set_source(Source::createBlobUnlocked(fmt, "/nonexistent", gen_word(r, 20, false), r.next() >> r.below(64), r.next() >> r.below(64))); break;
        default:
            *data = r.bytes(1 + r.below(80));
            md->set_source_inline(fmt, metadata::DataManager::get().to_data(fmt, Bytes(*data)));
            break;
    }
    for (unsigned n = r.below(3); n; --n)
        md->add_note(gen_word(r, 20, true));
    return md;
}

// Metadata encoding, without the header
static Bytes md_inner(const Metadata& md)
{
    auto b = md.encodeBinary();
    return Bytes(b.begin() + 8, b.end());
}

static Bytes bundle(Rng& r, const std::string& sig, unsigned version, const Bytes& body)
{
    Bytes res;
    core::BinaryEncoder enc(res);
    enc.add_raw(to_bytes(sig));
    enc.add_unsigned(version, 2);
    enc.add_unsigned(body.size(), 4);
    enc.add_raw(body);
    return res;
}

static std::shared_ptr<Summary> seed_summary(Rng& r)
{
    auto res   = std::make_shared<Summary>();
    Summary& s = *res;
    for (unsigned n = r.below(6); n; --n)
    {
        Metadata md;
        for (auto code : item_codes)
            if (r.chance(50))
                md.test_set(gen_value(r, code, r.chance(30)));
        if (!md.has(TYPE_REFTIME))
            md.test_set(gen_value(r, TYPE_REFTIME, false));
        md.set_source(Source::createInline(DataFormat::GRIB, r.below(1000)));
        s.add(md);
    }
    return res;
}

static Bytes add_size(Rng& r, const Bytes& body, size_t real)
{
    Bytes res;
    core::BinaryEncoder enc(res);
    enc.add_unsigned(r.chance(70) ? real : r.pick<size_t>({0, 1, real - 1, real + 1, real * 2, 0x7fffffff, 0xffffffff, 0x10000000}), 4);
    enc.add_raw(body);
    return res;
}

static void encode_stats(Rng& r, core::BinaryEncoder& enc, bool v1)
{
    // Count, time span, size
    Bytes b;
    core::BinaryEncoder e(b);
    e.add_unsigned(r.below(100), 4);
    auto t = gen_value(r, TYPE_REFTIME, r.chance(30));
    if (r.chance(50))
    {
        Bytes body;
        core::BinaryEncoder be(body);
        t->encodeWithoutEnvelope(be);
        e.add_varint((unsigned)TYPE_REFTIME);
        e.add_varint(body.size());
        e.add_raw(body);
    }
    else
        e.add_raw(r.bytes(r.below(15)));
    e.add_unsigned(r.below(100), 4);
    e.add_unsigned(r.below(1000), 4);
    if (v1)
    {
        enc.add_unsigned(b.size(), 2);
        enc.add_raw(b);
    }
    else
    {
        enc.add_varint((unsigned)TYPE_SUMMARYSTATS);
        enc.add_varint(b.size());
        enc.add_raw(b);
    }
}

// Old format of summaries: nested stripes of metadata
static void stripe1(Rng& r, core::BinaryEncoder& enc, unsigned pos, unsigned depth)
{
    static const std::vector<TypeCode> mso = {TYPE_ORIGIN, TYPE_PRODUCT, TYPE_LEVEL, TYPE_TIMERANGE, TYPE_AREA, TYPE_PRODDEF, TYPE_BBOX,
                                              TYPE_RUN, TYPE_QUANTITY, TYPE_TASK};
    unsigned len = r.chance(80) ? 1 + r.below(4) : r.pick({0, 0, 1, 10, 11, 12, 40, 65535});
    enc.add_unsigned(len, 2);
    for (unsigned i = 0; i < len && i < 64; ++i)
    {
        Bytes body;
        if (pos + i < mso.size() && mso[pos + i] != TYPE_BBOX && r.chance(70))
        {
            core::BinaryEncoder be(body);
            gen_value(r, mso[pos + i], false)->encodeWithoutEnvelope(be);
        }
        unsigned w = 1 + (r.chance(20) ? r.below(2) : 0);
        enc.add_unsigned(body.size(), w);
        enc.add_raw(body);
    }
    unsigned children = depth > 8 ? 0 : r.chance(40) ? 1 + r.below(2) : 0;
    if (r.chance(3))
        children = 65535;
    enc.add_unsigned(children, 2);
    if (!children)
        encode_stats(r, enc, true);
    else
        for (unsigned i = 0; i < children && i < 3; ++i)
            stripe1(r, enc, pos + len, depth + 1);
}

// A deep chain of empty stripes
static Bytes deep1(Rng& r)
{
    Bytes b;
    for (unsigned n = r.pick({10, 1000, 200000}); n; --n)
        b.insert(b.end(), {0, 0, 0, 1});
    return b;
}

/*
 * Targets
 */

struct Target
{
    const char* name;
    bool text;
    std::vector<std::string> words;
    std::function<Bytes(Rng&)> seed;
    std::function<void(Rng&, Bytes&)> run;
};

struct PieceFile : public core::AbstractInputFile
{
    const Bytes& buf;
    size_t pos = 0;
    Rng& r;
    PieceFile(const Bytes& buf, Rng& r) : buf(buf), r(r) {}
    std::filesystem::path path() const override { return "test"; }
    size_t read(void* dest, size_t size) override
    {
        size_t n = std::min(size, buf.size() - pos);
        memcpy(dest, buf.data() + pos, n);
        pos += n;
        return n;
    }
};

// Exactly as large as its contents, to have every overflow seen
struct Exact
{
    std::unique_ptr<uint8_t[]> p;
    size_t size;
    explicit Exact(const Bytes& b) : p(new uint8_t[b.size()]), size(b.size()) { if (size) memcpy(p.get(), b.data(), size); }
    core::BinaryDecoder dec() const { return core::BinaryDecoder(p.get(), size); }
};

static const std::vector<std::string> type_words = {"GRIB1(", "GRIB2(", "BUFR(", "ODIMH5(", "VM2(", "Timedef(", "MINUTE(", "INLINE(", "URL(", "BLOB(",
    "GRIB(", "x=", "lat=-9000000", "lon=", "type=", ",", "s", "h", "d", "mo", "y", "60m", "-", "2007-01-01T00:00:00Z", " to ", "24:00",
    "00-00", "9999-99-99", "utm=", "Ni=97", "latfirst="};
static const std::vector<std::string> expr_words = {"reftime:", "origin:", "product:", "level:", "timerange:", "area:", "proddef:", "run:", "task:", "quantity:",
    ";", " or ", ">=", "<=", "=", ">", "<", "==", "!=", "%24", "@12:00", "today", "yesterday", "now", "tomorrow", "easter", "processione san luca", " ago", " before ",
    " after ", " from ", "till ", "days", "weeks", "months", "years", "hours", "minutes", "seconds", "GRIB1", "GRIB2", "BUFR", "VM2", "Timedef", "bbox ", "equals ",
    "covers ", "intersects ", "coveredby ", "POINT(11 44)", "POLYGON((0 0, 0 1, 1 1, 0 0))", "coord(", ",", "instant", "24h", "MINUTE", "2007", "2007-13", "2007-02-30",
    "25:61", "99999999999", ":", "octagon", "concert sorato", "conte san"};

static std::string fmt(const char* f, int a, int b = 0, int c = 0)
{
    char buf[100];
    snprintf(buf, sizeof(buf), f, a, b, c);
    return buf;
}

// Text which follows the grammar of reference time expressions
static std::string gen_number(Rng& r)
{
    return r.chance(70) ? cat(r.below(60)) : cat(r.pick<int64_t>({0, 1, 24, 25, 99, 365, 1000, 3600, 86400, 99999, 1000000, 99999999, 100000000, 200000000, 200000001, 2147483647, 2147483648, 4294967296, INT64_MAX}));
}

static std::string gen_reftime(Rng& r)
{
    auto unit = [&] { return r.pick<std::string>({"s", "sec", "second", "seconds", "m", "min", "minute", "minutes", "h", "hour", "hours", "d", "day", "days", "w", "week", "weeks", "month", "months", "y", "year", "years"}); };
    auto interval = [&] {
        std::string res;
        for (unsigned n = r.chance(70) ? 1 : 1 + r.below(4); n; --n)
            res += cat(res.empty() ? "" : r.pick<const char*>({" ", " and "}), r.chance(10) ? std::string("a") : gen_number(r), " ", unit());
        return res;
    };
    auto daytime = [&]() -> std::string {
        switch (r.below(5))
        {
            case 0: return r.pick<std::string>({"midday", "noon", "midnight"});
            case 1: return fmt("%02d", (int)r.below(25));
            case 2: return fmt("%02d:%02d", (int)r.below(25), (int)r.below(61));
            default: return fmt("%02d:%02d:%02d", (int)r.below(24), (int)r.below(60), (int)r.below(60));
        }
    };
    auto date = [&]() -> std::string {
        switch (r.below(8))
        {
            case 0: return "today";
            case 1: return "yesterday";
            case 2: return "tomorrow";
            case 3: return cat(r.pick<const char*>({"easter ", "san luca ", "processione san luca "}), fmt("%04d", (int)r.below(10000)));
            case 4: return fmt("%04d", (int)r.below(10000));
            case 5: return fmt("%04d-%02d", (int)r.below(10000), (int)r.below(14));
            default: return fmt("%04d-%02d-%02d", (int)r.below(10000), (int)r.below(14), (int)r.below(33));
        }
    };
    std::function<std::string(unsigned)> absolute = [&](unsigned depth) -> std::string {
        switch (r.below(depth > 3 ? 3 : 8))
        {
            case 0: return "now";
            case 1: return date();
            case 2: return date() + " " + daytime();
            case 3: return interval() + " ago";
            case 4: return interval() + " before " + absolute(depth + 1);
            case 5: return interval() + " after " + absolute(depth + 1);
            case 6: return absolute(depth + 1) + " + " + interval();
            default: return absolute(depth + 1) + " - " + interval();
        }
    };
    auto step = [&] {
        std::string res = r.chance(20) ? "@" + daytime() : "";
        res += r.pick<const char*>({" %", " every "});
        for (unsigned n = 1 + r.below(2); n; --n)
            res += gen_number(r) + r.pick<std::string>({"h", "m", "s", " hours", " minutes", " seconds", "d"});
        return res;
    };
    std::string res;
    for (unsigned n = 1 + r.below(3); n; --n)
    {
        if (!res.empty())
            res += r.pick<const char*>({",", ", "});
        auto op = r.pick<std::string>({">=", ">", "<=", "<", "=", "==", "from ", "until "});
        switch (r.below(4))
        {
            case 0:  res += step(); break;
            case 1:  res += op + daytime(); break;
            default: res += op + absolute(0); break;
        }
        if (r.chance(15))
            res += step();
    }
    return res;
}

static std::string any_case_text(Rng& r)
{
    // Text of an expression
    std::string res;
    for (unsigned n = 1 + r.below(4); n; --n)
    {
        if (!res.empty())
            res += r.pick<std::string>({";", "; ", "; ", "\n"});
        switch (r.below(3))
        {
            case 0: {
                auto code = r.pick(item_codes);
                auto v    = gen_value(r, code, r.chance(50));
                std::string q;
                try_it([&] { q = v->exactQuery(); });
                if (q.find("not implemented") != std::string::npos)
                    q = gen_word(r, 10, false);
                res += types::formatCode(code) + ":" + q;
                break;
            }
            case 1: {
                Item it;
                ItemGen g(r);
                ExprGen eg(r);
                eg.pool = g.make(3);
                res += eg.make().text;
                break;
            }
            default: {
                res += "reftime:" + gen_reftime(r);
                break;
            }
        }
    }
    return res;
}

static std::string gen_json(Rng& r, unsigned depth)
{
    switch (depth > 4 ? r.below(5) : r.below(7))
    {
        case 0: return r.pick<std::string>({"true", "false", "null"});
        case 1: return cat(r.pick<long long>({0, 1, -1, 42, INT32_MAX, INT32_MIN, (long long)UINT32_MAX, INT64_MAX, INT64_MIN}));
        case 2: return r.pick<std::string>({"1.5", "-0.0", "1e10", "1e999", "-1e-400", "3.141"});
        case 3:
        case 4: return "\"" + r.pick<std::string>({"", "GRIB1", "a\\\"b", "\\n", "type", "Timedef", "2007-01-01T00:00:00Z"}) + "\"";
        case 5: {
            std::string s = "[";
            for (unsigned n = r.below(4); n; --n)
                s += gen_json(r, depth + 1) + (n > 1 ? "," : "");
            return s + "]";
        }
        default: {
            std::string s = "{";
            for (unsigned n = r.below(4); n; --n)
                s += "\"" + r.pick<std::string>({"t", "s", "v", "ce", "sc", "pr", "ty", "l1", "items", "i", "n", "x"}) + "\":" + gen_json(r, depth + 1) + (n > 1 ? "," : "");
            return s + "}";
        }
    }
}

static void run_md_stream(Rng& r, Bytes& b)
{
    unsigned n = 0;
    switch (r.below(4))
    {
        case 0: {
            PieceFile in(b, r);
            metadata::AbstractFileBinaryReader reader(in, "/nonexistent");
            reader.read_all([&](std::shared_ptr<Metadata> md) {
                use_md(r, *md, false);
                return ++n < 20;
            });
            break;
        }
        case 1: {
            PieceFile in(b, r);
            metadata::AbstractFileBinaryReader reader(in, "/nonexistent");
            while (auto md = reader.read())
            {
                use_md(r, *md, false);
                if (++n > 20)
                    break;
            }
            break;
        }
        case 2: {
            sys::write_file("stream.md", b.data(), b.size());
            core::File in("stream.md", O_RDONLY);
            metadata::BinaryReader reader(in, "/nonexistent");
            reader.read_all([&](std::shared_ptr<Metadata> md) {
                use_md(r, *md, false);
                return ++n < 20;
            });
            break;
        }
        default: {
            metadata::Stream s([&](std::shared_ptr<Metadata> md) {
                use_md(r, *md, false);
                return ++n < 20;
            }, "/nonexistent");
            for (size_t pos = 0; pos < b.size();)
            {
                size_t len = std::min<size_t>(b.size() - pos, 1 + r.below(r.chance(50) ? 10 : 1000));
                Bytes piece(b.begin() + pos, b.begin() + pos + len);
                s.readData(piece.data(), piece.size());
                pos += len;
            }
            break;
        }
    }
}

static void run_summary(Rng& r, Bytes& b)
{
    Summary s;
    switch (r.below(3))
    {
        case 0: {
            Exact e(b);
            auto dec = e.dec();
            s.read(dec, "test");
            break;
        }
        case 1: {
            PieceFile in(b, r);
            s.read(in);
            break;
        }
        default:
            sys::write_file("test.summary", b.data(), b.size());
            s.read_file("test.summary");
            break;
    }
    use_summary(r, s);
}

static std::vector<Target> make_targets()
{
    std::vector<Target> t;
    auto add = [&](const char* name, bool text, std::vector<std::string> words, std::function<Bytes(Rng&)> seed, std::function<void(Rng&, Bytes&)> run) {
        t.push_back(Target{name, text, words, seed, run});
    };

    add("item", false, {}, [](Rng& r) {
        if (r.chance(5))
        {
            Bytes b;
            core::BinaryEncoder enc(b);
            auto body = r.bytes(r.below(30));
            enc.add_varint(r.chance(80) ? r.below(24) : (unsigned)(r.next() >> (r.below(32) + 32)));
            enc.add_varint(body.size());
            enc.add_raw(body);
            return b;
        }
        return gen_value(r, r.pick(item_codes), r.chance(50))->encodeBinary();
    }, [](Rng& r, Bytes& b) {
        Exact e(b);
        auto dec = e.dec();
        while (dec)
        {
            if (r.chance(50))
            {
                auto v = Type::decode(dec);
                count("items_decoded");
                use_type(r, *v);
            }
            else
            {
                TypeCode code;
                auto inner = dec.pop_type_envelope(code);
                auto v     = Type::decode_inner(code, inner, true);
                count("items_decoded");
                use_type(r, *v);
            }
        }
    });

    // Bodies, with the type chosen at random
    add("item-body", false, {}, [](Rng& r) {
        Bytes body;
        core::BinaryEncoder enc(body);
        gen_value(r, r.pick(item_codes), r.chance(50))->encodeWithoutEnvelope(enc);
        Bytes res = {(uint8_t)r.below(24)};
        // Mostly of the right type
        res.insert(res.end(), body.begin(), body.end());
        return res;
    }, [](Rng& r, Bytes& b) {
        if (b.empty())
            return;
        Bytes body(b.begin() + 1, b.end());
        Exact e(body);
        auto dec = e.dec();
        auto v   = Type::decodeInner((TypeCode)b[0], dec);
        count("items_decoded");
        use_type(r, *v);
    });

    add("item-text", true, type_words, [](Rng& r) {
        auto code = r.pick(item_codes);
        auto v    = to_bytes(gen_value_text(r, code, r.chance(50)));
        v.insert(v.begin(), (uint8_t)code);
        return v;
    }, [](Rng& r, Bytes& b) {
        if (b.empty())
            return;
        auto v = types::decodeString((TypeCode)b[0], to_str(Bytes(b.begin() + 1, b.end())));
        count("items_decoded");
        use_type(r, *v);
    });

    add("valuebag", false, {}, [](Rng& r) {
        auto v = ValueBag::parse("a=" + cat((int)r.next()) + ",b=" + gen_word(r, 10, false) + ",c=" + cat(r.range(-40, 40)));
        Bytes b;
        core::BinaryEncoder enc(b);
        v.encode(enc);
        return b;
    }, [](Rng& r, Bytes& b) {
        Exact e(b);
        auto dec = e.dec();
        auto v   = r.chance(50) ? ValueBag::decode(dec) : ValueBag::decode_reusing_buffer(dec);
        count("valuebags");
        auto o = ValueBag::parse("a=1,b=foo");
        try_it([&] { v.toString(); });
        try_it([&] { v.compare(o); });
        try_it([&] { o.compare(v); });
        try_it([&] { (void)(o == v); });
        try_it([&] {
            Bytes x;
            core::BinaryEncoder enc(x);
            v.encode(enc);
        });
        try_it([&] { ValueBagMatcher::parse("a=1, c=2").is_subset(v); });
        try_it([&] {
            ValueBag c(v);
            (void)(c == v);
            for (const auto& i : c)
                count("values");
        });
        try_it([&] {
            std::stringstream out;
            structured::JSON j(out);
            v.serialise(j);
        });
    });

    add("valuebag-text", true, {"a=", ",", "\"", "\\", "=", "b=\"1\"", " ", "2147483648", "-2147483649"}, [](Rng& r) {
        return to_bytes("a=" + cat((int)r.next()) + ", b=\"" + gen_word(r, 10, false) + "\", c=" + cat(r.range(-40, 40)));
    }, [](Rng& r, Bytes& b) {
        auto v = ValueBag::parse(to_str(b));
        count("valuebags");
        try_it([&] { v.toString(); });
        try_it([&] { ValueBagMatcher::parse(to_str(b)).is_subset(v); });
        try_it([&] { ValueBagMatcher::parse(to_str(b)).to_string(); });
    });

    add("metadata", false, {}, [](Rng& r) { return md_inner(*seed_md(r)); }, [](Rng& r, Bytes& b) {
        Exact e(b);
        auto dec = e.dec();
        auto md  = Metadata::read_binary_inner(dec, r.chance(98) ? 0 : 1, "test", "/nonexistent");
        e.p.reset();
        use_md(r, *md);
    });

    add("stream", false, {}, [](Rng& r) {
        Bytes res;
        for (unsigned n = 1 + r.below(3); n; --n)
        {
            Bytes data;
            auto md = seed_md(r, &data);
            auto b  = md->encodeBinary();
            res.insert(res.end(), b.begin(), b.end());
            res.insert(res.end(), data.begin(), data.end());
        }
        if (r.chance(10))
        {
            auto s = seed_summary(r)->encode(r.chance(50));
            res.insert(res.end(), s.begin(), s.end());
        }
        return res;
    }, run_md_stream);

    // Compressed groups of metadata, whose contents are damaged before they are compressed
    add("group", false, {}, [](Rng& r) {
        Bytes all;
        for (unsigned n = 1 + r.below(10); n; --n)
        {
            Bytes data;
            auto b = seed_md(r)->encodeBinary();
            all.insert(all.end(), b.begin(), b.end());
        }
        if (r.chance(50))
            mutate(r, all, false, {});
        auto comp = utils::compress::lzo(all.data(), all.size());
        return bundle(r, "MG", r.chance(97) ? 0 : 1, add_size(r, comp, all.size()));
    }, run_md_stream);

    add("summary", false, {}, [](Rng& r) {
        auto s = seed_summary(r);
        if (r.chance(30))
            return s->encode(r.chance(50));
        // Damaged before it is compressed
        auto enc = s->encode(false);
        Bytes inner(enc.begin() + std::min<size_t>(enc.size(), 9), enc.end());
        mutate(r, inner, false, {});
        if (r.chance(50))
        {
            inner.insert(inner.begin(), 0);
            return bundle(r, "SU", 3, inner);
        }
        auto comp = add_size(r, utils::compress::lzo(inner.data(), inner.size()), inner.size());
        comp.insert(comp.begin(), 1);
        return bundle(r, "SU", 3, comp);
    }, run_summary);

    add("summary-old", false, {}, [](Rng& r) {
        Bytes inner;
        if (r.chance(4))
            inner = deep1(r);
        else
        {
            core::BinaryEncoder enc(inner);
            stripe1(r, enc, 0, 0);
        }
        if (r.chance(50))
            return bundle(r, "SU", 1, inner);
        return bundle(r, "SU", 2, add_size(r, utils::compress::lzo(inner.data(), inner.size()), inner.size()));
    }, run_summary);

    static size_t lzo_size;
    add("lzo", false, {}, [](Rng& r) {
        Bytes x;
        for (unsigned n = r.below(200); n; --n)
            x.insert(x.end(), 1 + r.below(20), r.next());
        lzo_size = x.size();
        return utils::compress::lzo(x.data(), x.size());
    }, [](Rng& r, Bytes& b) {
        Exact e(b);
        utils::compress::unlzo(e.p.get(), e.size, r.chance(60) ? lzo_size : r.chance(60) ? r.below(4000) : r.chance(50) ? r.below(100) : 0xffffffff);
        count("unlzo");
    });

    add("gunzip", false, {}, [](Rng& r) {
        Bytes x = r.bytes(r.below(3000));
        sys::write_file("z", x.data(), x.size());
        ::unlink("z.gz");
        try_it([&] {
            core::File out("z.gz", O_WRONLY | O_CREAT | O_TRUNC);
            utils::compress::GzipWriter w(out, r.pick({0, 0, 100}));
            w.add(x);
            w.flush();
        });
        return to_bytes(sys::read_file("z.gz"));
    }, [](Rng& r, Bytes& b) {
        sys::write_file("m.gz", b.data(), b.size());
        auto x = utils::compress::gunzip("m.gz", r.pick({1, 10, 4096}));
        count("gunzip");
    });

    // An index of a compressed file
    add("gzindex", false, {}, [](Rng& r) {
        Bytes b;
        core::BinaryEncoder enc(b);
        for (unsigned n = r.below(6); n; --n)
        {
            enc.add_unsigned((uint64_t)r.below(4000), 8);
            enc.add_unsigned((uint64_t)r.below(4000), 8);
        }
        return b;
    }, [](Rng& r, Bytes& b) {
        sys::write_file("m.gz.idx", b.data(), b.size());
        core::File in("m.gz.idx", O_RDONLY);
        utils::compress::SeekIndex idx;
        idx.read(in);
        count("gzindex");
        for (unsigned i = 0; i < 5; ++i)
            idx.lookup(r.next() >> r.below(64));
    });

    add("yaml", true, type_words, [](Rng& r) {
        std::string s;
        for (unsigned n = 1 + r.below(2); n; --n)
            s += seed_md(r)->to_yaml() + "\n";
        return to_bytes(s);
    }, [](Rng& r, Bytes& b) {
        PieceFile in(b, r);
        metadata::YamlReader reader(in, "/nonexistent");
        unsigned n = 0;
        reader.read_all([&](std::shared_ptr<Metadata> md) {
            use_md(r, *md);
            return ++n < 20;
        });
    });

    add("summary-yaml", true, type_words, [](Rng& r) { return to_bytes(seed_summary(r)->to_yaml()); }, [](Rng& r, Bytes& b) {
        auto s  = to_str(b);
        auto in = core::LineReader::from_chars(s.data(), s.size());
        Summary res;
        res.readYaml(*in, "test");
        use_summary(r, res);
    });

    add("json", true, {"{", "}", "[", "]", "\"", ":", ",", "null", "true", "1.0", "-", "\\u00"}, [](Rng& r) {
        if (r.chance(3))
        {
            std::string s;
            for (unsigned n = r.pick({100, 10000, 300000}); n; --n)
                s += r.pick<std::string>({"[", "[", "[", "{\"a\":"});
            return to_bytes(s);
        }
        return to_bytes(gen_json(r, 0));
    }, [](Rng& r, Bytes& b) {
        structured::Memory mem;
        structured::JSON::parse(to_str(b), mem);
        count("json");
        std::stringstream out;
        try_it([&] { mem.root().repr(); });
        try_it([&] { Metadata::read_structure(structured::keys_json, mem.root()); });
        try_it([&] {
            Summary s;
            s.read(structured::keys_json, mem.root());
        });
    });

    add("metadata-json", true, {"\"t\":", "\"s\":", "\"v\":", "\"i\":", "null", "1.0", "1e400", "[", "]", "{", "}", ",", "\"GRIB1\"", "\"Timedef\"", "\"VM2\"", "[2007,1,1,0,0,0]",
                              "[2007]", "[99999999999,1,1,1,1,1]"}, [](Rng& r) {
        std::stringstream out;
        structured::JSON j(out);
        seed_md(r)->serialise(j, structured::keys_json);
        return to_bytes(out.str());
    }, [](Rng& r, Bytes& b) {
        structured::Memory mem;
        structured::JSON::parse(to_str(b), mem);
        count("json");
        auto md = Metadata::read_structure(structured::keys_json, mem.root());
        use_md(r, *md);
    });

    add("summary-json", true, {"\"t\":", "\"s\":", "\"v\":", "\"items\":", "\"summarystats\":", "null", "1.0", "1e400", "[", "]", "{", "}", ",", "[2007,1,1,0,0,0]"}, [](Rng& r) {
        std::stringstream out;
        structured::JSON j(out);
        seed_summary(r)->serialise(j, structured::keys_json);
        return to_bytes(out.str());
    }, [](Rng& r, Bytes& b) {
        structured::Memory mem;
        structured::JSON::parse(to_str(b), mem);
        count("json");
        Summary s;
        s.read(structured::keys_json, mem.root());
        use_summary(r, s);
    });

    add("expression", true, expr_words, [](Rng& r) { return to_bytes(any_case_text(r)); }, [](Rng& r, Bytes& b) {
        matcher::Parser p;
        auto m = p.parse(to_str(b));
        count("expressions");
        try_it([&] { m.toString(); });
        try_it([&] { m.toStringExpanded(); });
        try_it([&] {
            core::Interval i;
            m.intersect_interval(i);
            i.to_string();
        });
        try_it([&] {
            auto md = seed_md(r);
            m(*md);
        });
        try_it([&] { m.merge(matchers[0]); });
        try_it([&] { p.parse(m.toStringExpanded()); });
        if (r.chance(10))
            matchers[1 + r.below(3)] = m;
    });

    add("aliases", true, {"[origin]", "[", "]", "=", "\n", "GRIB1", "cosmo", ";", "or", "#", "reftime"}, [](Rng& r) {
        return to_bytes("[origin]\ncosmo = GRIB1,200\narpa = cosmo or GRIB1,201\n[level]\ng00 = GRIB1,1 or GRIB1,102\n");
    }, [](Rng& r, Bytes& b) {
        auto cfg = core::cfg::Sections::parse(to_str(b), "test");
        matcher::Parser p;
        p.load_aliases(*cfg);
        count("aliases");
        try_it([&] { p.serialise_aliases(); });
        try_it([&] { p.parse("origin:cosmo or arpa; level:g00").toStringExpanded(); });
    });

    add("config", true, {"[", "]", "=", "\"", "#", ";", "\n", " ", "\\", "type=", "iseg", "step=", "[a]\n"}, [](Rng& r) {
        std::string res = "# comment\n";
        for (unsigned n = 1 + r.below(3); n; --n)
        {
            res += cat("[", r.pick<const char*>({"test", "two words", "error", "duplicates", "a.b", "x"}), n, "]\n");
            res += cat("type = ", r.pick<const char*>({"iseg", "iseg", "simple", "ondisk2", "outbound", "discard", "file", "error", "duplicates", "local", "test"}), "\n");
            res += cat("step = ", r.pick<const char*>({"daily", "weekly", "biweekly", "monthly", "yearly", "single", "hourly"}), "\n");
            if (r.chance(90))
                res += cat("format=", r.pick<const char*>({"grib", "bufr", "vm2", "odimh5", "netcdf", "jpeg", "foo"}), "\n");
            const std::vector<std::string> more = {"unique = reftime, origin, product", "index = origin, product, level", "replace = yes", "replace=USN", "filter = \"origin:GRIB1 or BUFR\"",
                "archive age = 20", "delete age = 30", "delete age = foo", "smallfiles=yes", "summaries = area, level", "eatmydata=yes", "segments = dir", "gz group size = 30", "locking = no",
                "path = /nonexistent # c", "restrict = a, b", "index_type = sqlite", "mockdata=yes", "offline=true", "  indented = a", "offset = 12", "use = duplicates", "postprocess=x"};
            for (unsigned m = r.below(5); m; --m)
                res += r.pick(more) + "\n";
        }
        return to_bytes(res);
    }, [](Rng& r, Bytes& b) {
        auto cfg = core::cfg::Sections::parse(to_str(b), "test");
        count("configs");
        try_it([&] { cfg->to_string(); });
        try_it([&] { core::cfg::Section::parse(to_str(b), "test")->to_string(); });
        try_it([&] {
            for (const auto& s : *cfg)
                s.second->value_bool("a");
        });
        try_it([&] {
            for (const auto& s : *cfg)
            {
                auto c = std::make_shared<core::cfg::Section>(*s.second);
                c->set("path", "/nonexistent/test");
                try_it([&] { dataset::Step::create(c->value("step")); });
                if (c->value("type") == "remote")
                    continue;
                auto session = std::make_shared<dataset::Session>(false);
                session->dataset(*c);
                count("config_datasets");
            }
        });
    });

    add("sort", true, {"minute:", "hour:", "day:", "month:", "year:", ",", "-", "+", "reftime", "origin", ":", " "}, [](Rng& r) {
        return to_bytes(gen_sort(r).text);
    }, [](Rng& r, Bytes& b) {
        auto c = metadata::sort::Compare::parse(to_str(b));
        count("sorters");
        if (last_md)
            try_it([&] { c->compare(*last_md, *last_md); });
        if (r.chance(10))
            sorters[r.below(sorters.size())] = std::move(c);
    });

    add("time", true, {"2007", "-", "T", ":", "Z", "00", "99", "0000", " "}, [](Rng& r) {
        auto t = gen_time(r, true);
        return to_bytes(r.chance(50) ? t.to_iso8601() : t.to_sql());
    }, [](Rng& r, Bytes& b) {
        auto s = to_str(b);
        try_it([&] { use_time(Time::create_iso8601(s)); });
        try_it([&] { use_time(Time::create_sql(s)); });
        use_time(Time::decodeString(s));
        count("times");
    });

    add("time-binary", false, {}, [](Rng& r) {
        Bytes b;
        core::BinaryEncoder enc(b);
        gen_time(r, true).encodeWithoutEnvelope(enc);
        return b;
    }, [](Rng& r, Bytes& b) {
        Exact e(b);
        auto dec = e.dec();
        use_time(Time::decode(dec));
        count("times");
    });

    add("strings", true, {"\\x", "\\x4", "\\0", "\\", "%4", "%", "%zz", "=", "==", "+", "/"}, [](Rng& r) {
        auto w = gen_word(r, 40, true);
        switch (r.below(3))
        {
            case 0:  return to_bytes(utils::str::encode_cstring(w));
            case 1:  return to_bytes(utils::str::encode_url(w));
            default: return to_bytes(utils::str::encode_base64(w));
        }
    }, [](Rng& r, Bytes& b) {
        auto s = to_str(b);
        size_t len;
        try_it([&] { utils::str::decode_cstring(s, len); });
        try_it([&] { utils::str::decode_url(s); });
        try_it([&] { utils::str::decode_base64(s); });
        try_it([&] { utils::str::encode_cstring(s); });
        try_it([&] { utils::str::encode_base64(s); });
        try_it([&] { types::parseCodeName(s); });
        count("strings");
    });

    add("notes", false, {}, [](Rng& r) {
        Bytes b;
        core::BinaryEncoder enc(b);
        for (unsigned n = 1 + r.below(3); n; --n)
            gen_value(r, r.chance(90) ? TYPE_NOTE : r.pick(item_codes), true)->encodeBinary(enc);
        return b;
    }, [](Rng& r, Bytes& b) {
        Exact e(b);
        Metadata md;
        md.set_notes_encoded(e.p.get(), e.size);
        count("notes");
        use_md(r, md, false);
    });
    return t;
}

/*
 * Datasets with damaged files
 */

static void copy_tree(const std::filesystem::path& from, const std::filesystem::path& to)
{
    std::filesystem::remove_all(to);
    std::filesystem::create_directories(to);
    std::vector<std::filesystem::path> dirs;
    for (const auto& e : std::filesystem::recursive_directory_iterator(from))
    {
        auto dst = to / std::filesystem::relative(e.path(), from);
        if (e.is_directory())
        {
            std::filesystem::create_directories(dst);
            continue;
        }
        std::filesystem::copy_file(e.path(), dst);
        std::filesystem::last_write_time(dst, std::filesystem::last_write_time(e.path()));
    }
}

static void damage_file(Rng& r, const std::vector<std::filesystem::path>& files, std::string& log)
{
    auto path  = r.pick(files);
    if (!std::filesystem::exists(path))
        return;
    auto mtime = std::filesystem::last_write_time(path);
    auto b     = to_bytes(sys::read_file(path));
    std::string what;
    switch (r.below(12))
    {
        case 0:
            b.clear();
            what = "emptied";
            break;
        case 1:
            b.resize(r.below(b.size() + 1));
            what = "truncated";
            break;
        case 2:
        {
            auto other = r.pick(files);
            if (!std::filesystem::exists(other))
                return;
            b    = to_bytes(sys::read_file(other));
            what = "replaced";
            break;
        }
        case 3:
            if (r.chance(50))
            {
                std::filesystem::remove(path);
                log += cat(" removed:", path.filename().native());
                return;
            }
            b    = r.bytes(r.below(200));
            what = "random";
            break;
        default:
            for (unsigned n = 1 + r.below(3); n; --n)
                mutate(r, b, false, {});
            what = "mutated";
            break;
    }
    // Same file, new contents
    sys::write_file(path, b.data(), b.size());
    if (r.chance(60))
        std::filesystem::last_write_time(path, mtime);
    auto name = path.filename().native();
    count(cat("damaged_", path.has_extension() ? name.substr(name.rfind('.') + 1) : name));
    log += cat(" ", what, ":", name);
}

static void damaged_store(Case& c)
{
    Rng& r = c.rng;
    ConfGen cg;
    auto conf = cg.make(r);
    auto base = c.dir / "base", work = c.dir / "test";
    std::vector<Item> more;
    std::vector<std::string> exprs;
    {
        Store s(r, conf, work);
        build_mixed(s);
        if (r.chance(60))
        {
            try_it([&] { s.run_op(r.pick<std::string>({"tar", "zip", "compress", "compress"}), true); });
            s.close_converted();
        }
        more = s.make_items(5);
        ExprGen eg(r);
        for (const auto& i : s.live)
            eg.pool.push_back(i.second);
        if (eg.pool.empty())
            return;
        exprs.push_back("");
        for (unsigned i = 0; i < 3; ++i)
            exprs.push_back(eg.make().text);
        context(s.log.substr(0, 2000));
    }
    copy_tree(work, base);
    for (unsigned iter = 0; iter < 5; ++iter)
    {
        if (iter)
            copy_tree(base, work);
        std::vector<std::filesystem::path> files, preferred;
        for (const auto& e : std::filesystem::recursive_directory_iterator(work))
            if (e.is_regular_file() && e.path().filename() != "lock")
            {
                files.push_back(e.path());
                auto ext = e.path().extension();
                if (ext == ".gz" || ext == ".idx" || ext == ".tar" || ext == ".zip" || ext == ".metadata" || ext == ".summary" || ext == ".index" ||
                    e.path().filename() == "MANIFEST" || e.path().filename() == ".sequence")
                    preferred.push_back(e.path());
            }
        std::sort(files.begin(), files.end());
        std::sort(preferred.begin(), preferred.end());
        if (files.empty())
            return;
        std::string log;
        for (unsigned n = r.chance(70) ? 1 : 1 + r.below(4); n; --n)
            damage_file(r, preferred.empty() || r.chance(30) ? files : preferred, log);
        // Files may have been removed
        count("evals");
        count("in_store");
        biggest = 0;
        context(cat("damaged store #", iter, log));
        distinct(cat(c.index, log));
        bool refused = false;
        auto attempt = [&](const char* name, std::function<void()> f) {
            try
            {
                f();
                count(cat("store_ok_", name));
            }
            catch (Failed&)
            {
                throw;
            }
            catch (std::exception& e)
            {
                refused = true;
                count(cat("store_refused_", name));
                if (r.chance(1))
                    sample(cat("store ", name, ": ", normalise_text(e.what())).substr(0, 200));
            }
            catch (...)
            {
                violation(cat("not-an-exception:store:", name), "what was thrown is not derived from std::exception");
            }
        };
        std::unique_ptr<Store> s;
        attempt("open", [&] { s.reset(new Store(r, conf, work)); });
        if (!s)
            continue;
        auto reads = [&] {
            auto expr = r.pick(exprs);
            attempt("query", [&] {
                auto reader = s->ds->create_reader();
                arki::query::Data q(matcher::Parser().parse(expr), r.chance(60));
                reader->query_data(q, [&](std::shared_ptr<Metadata> md) {
                    try_it([&] { md->get_data(); count("store_data_read"); });
                    try_it([&] { md->to_yaml(); });
                    return true;
                });
            });
            attempt("bytes", [&] {
                auto reader = s->ds->create_reader();
                std::vector<uint8_t> out;
                auto so = StreamOutput::create(out);
                arki::query::Bytes q;
                q.with_data = true;
                q.matcher   = matcher::Parser().parse(expr);
                q.type      = arki::query::Bytes::BQ_DATA;
                reader->query_bytes(q, *so);
            });
            attempt("summary", [&] {
                auto reader = s->ds->create_reader();
                Summary sum;
                reader->query_summary(matcher::Parser().parse(expr), sum);
                use_summary(r, sum);
            });
            attempt("interval", [&] { s->ds->create_reader()->get_stored_time_interval(); });
        };
        reads();
        attempt("check", [&] { s->run_check(false, r.chance(50)); });
        if (r.chance(50))
            reads();
        if (r.chance(40))
            attempt("import", [&] { s->import(more, r.chance(50), false); });
        if (r.chance(70))
            attempt("fix", [&] { s->run_check(true, r.chance(30)); });
        if (r.chance(60))
            attempt("repack", [&] { s->run_repack(true); });
        if (r.chance(40))
        {
            auto op = r.pick<std::string>({"tar", "zip", "compress", "remove_old", "state"});
            attempt("convert", [&] { s->run_op(op, true); });
        }
        reads();
        if (biggest > MAX_ALLOCATION)
            violation("allocation:store", cat(biggest, " bytes allocated"));
        if (!refused)
            count("ok_store");
        else
            count("refused_store");
    }
}

static void c24(Case& c)
{
    static std::vector<Target> targets = make_targets();
    static bool hooked                 = false;
    if (!hooked)
    {
        __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
        hooked = true;
    }
    Rng& r = c.rng;
    std::filesystem::current_path(c.dir);
    formatter = Formatter::create();
    // The state used by each case depends only on the case
    peers.clear();
    last_md.reset();
    matchers.clear();
    matcher::Parser parser;
    for (const char* e : {"reftime:>=2007-07-01,<=2007-08-01", "origin:GRIB1,200; level:GRIB1,105; product:BUFR; timerange:Timedef,6h",
                          "area:GRIB:lat=1; proddef:GRIB:tod=1; run:MINUTE,12; task:foo; quantity:bar", "area:bbox intersects POLYGON((0 0, 20 0, 20 60, 0 60, 0 0))"})
        matchers.push_back(parser.parse(e));
    sorters.clear();
    for (const char* e : {"reftime", "day:origin,-level,timerange", "-product,area,proddef", "month:-run,task,quantity"})
        sorters.push_back(metadata::sort::Compare::parse(e));

    std::string only = opts.get("target");
    unsigned which   = c.index % (targets.size() + 1);
    if (which == targets.size())
    {
        if (only.empty() || only == "store")
            damaged_store(c);
        std::filesystem::current_path("/");
        return;
    }
    auto& target = targets[which];
    if (!only.empty() && only != target.name)
        return;
    unsigned iterations = 60;
    for (unsigned i = 0; i < iterations; ++i)
    {
        Bytes b = target.seed(r);
        if (r.chance(target.text ? 90 : 96))
            for (unsigned n = r.chance(80) ? 1 : 3; n; --n)
                mutate(r, b, target.text, target.words);
        context(cat(target.name, " #", i, ": ", target.text ? to_str(b) : hex(b)).substr(0, 3000));
        distinct(cat(target.name, ":", to_str(b)));
        count("evals");
        count(cat("in_", target.name));
        biggest = 0;
        std::string rejected;
        try
        {
            target.run(r, b);
            count(cat("ok_", target.name));
        }
        catch (Failed&)
        {
            throw;
        }
        catch (std::exception& e)
        {
            count(cat("refused_", target.name));
            rejected = e.what();
            if (r.chance(1))
                sample(cat(target.name, ": ", normalise_text(rejected)).substr(0, 200));
        }
        catch (...)
        {
            violation(cat("not-an-exception:", target.name), "what was thrown is not derived from std::exception");
        }
        if (biggest > MAX_ALLOCATION)
            violation(cat("allocation:", target.name), cat(biggest, " bytes allocated to decode ", b.size(), " bytes", rejected.empty() ? "" : ": ", rejected));
    }
    std::filesystem::current_path("/");
}

int main(int argc, const char* argv[])
{
    return run_main(argc, argv, {{"C24", c24}});
}
