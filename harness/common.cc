#include "common.h"
#include <arki/types/reftime.h>
#include <arki/types/source.h>
#include <arki/types/source/blob.h>
#include <arki/types/value.h>
#include <arki/types-init.h>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_set>

using namespace arki;

namespace vh {

Opts opts;
static std::map<std::string, uint64_t> counters;
static std::unordered_set<uint64_t> seen;
static std::vector<std::string> samples;
static long cur_case = -1;
static std::string cur_context;
static unsigned n_violations = 0;

uint64_t hash_str(const std::string& s, uint64_t h)
{
    for (unsigned char c : s)
    {
        h ^= c;
        h *= 1099511628211ull;
    }
    return h;
}

std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += c;
        }
        else if (c < 0x20 || c >= 0x7f)
        {
            char b[8];
            snprintf(b, 8, "\\u%04x", c);
            r += b;
        }
        else
            r += c;
    }
    return r + "\"";
}

static void emit(const std::string& s)
{
    std::string line = "@@ " + s + "\n";
    size_t pos       = 0;
    while (pos < line.size())
    {
        ssize_t r = ::write(1, line.data() + pos, line.size() - pos);
        if (r <= 0)
            break;
        pos += r;
    }
}

void violation(const std::string& key, const std::string& detail)
{
    ++n_violations;
    emit("{\"t\":\"violation\",\"key\":" + jstr(key) + ",\"case\":" + std::to_string(cur_case) +
         ",\"detail\":" + jstr(detail.substr(0, 6000)) + ",\"context\":" + jstr(cur_context.substr(0, 6000)) + "}");
}

void fail(const std::string& key, const std::string& detail)
{
    violation(key, detail);
    throw Failed(key);
}

void count(const std::string& name, uint64_t n) { counters[name] += n; }
void distinct(uint64_t h) { seen.insert(h); }
void sample(const std::string& text)
{
    if (samples.size() < 4)
        samples.push_back(text.substr(0, 1500));
}
void context(const std::string& text)
{
    cur_context = text;
    if (getenv("VH_CONTEXT"))
        fprintf(stderr, "%s\n", text.c_str());
}
std::string& context_ref() { return cur_context; }

static void report_stats()
{
    std::string s = "{\"t\":\"stats\",\"counters\":{";
    bool first    = true;
    for (const auto& i : counters)
    {
        if (!first)
            s += ",";
        first = false;
        s += jstr(i.first) + ":" + std::to_string(i.second);
    }
    s += "},\"samples\":[";
    first = true;
    for (const auto& i : samples)
    {
        if (!first)
            s += ",";
        first = false;
        s += jstr(i);
    }
    s += "],\"distinct\":[";
    first     = true;
    size_t nn = 0;
    for (auto h : seen)
    {
        if (++nn > 200000)
            break;
        if (!first)
            s += ",";
        first = false;
        // 53 bits are enough and survive JSON
        s += std::to_string(h & 0x1fffffffffffffull);
    }
    s += "]}";
    emit(s);
    counters.clear();
    samples.clear();
    seen.clear();
}

std::string normalise_text(const std::string& s)
{
    std::string r;
    std::istringstream ss(s);
    std::string w;
    while (ss >> w && r.size() < 100)
    {
        if (w.find('/') != std::string::npos)
            w = "PATH";
        for (auto& c : w)
            if (!isalpha((unsigned char)c))
                c = '.';
        std::string u;
        for (auto c : w)
            if (c != '.' || u.empty() || u.back() != '.')
                u += c;
        r += (r.empty() ? "" : "_") + u;
    }
    return r;
}

int run_main(int argc, const char* argv[], const std::map<std::string, CheckFn>& checks)
{
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val      = [&]() -> std::string {
            if (i + 1 >= argc)
            {
                fprintf(stderr, "missing value for %s\n", a.c_str());
                exit(3);
            }
            return argv[++i];
        };
        if (a == "--seed")
            opts.seed = std::stoull(val());
        else if (a == "--from")
            opts.from = std::stol(val());
        else if (a == "--to")
            opts.to = std::stol(val());
        else if (a == "--dir")
            opts.dir = val();
        else if (a == "--thorough")
            opts.thorough = true;
        else if (a.substr(0, 2) == "--")
        {
            auto k        = a.substr(2);
            opts.extra[k] = val();
        }
        else
            opts.check = a;
    }
    auto c = checks.find(opts.check);
    if (c == checks.end())
    {
        fprintf(stderr, "check %s not found\n", opts.check.c_str());
        return 3;
    }
    if (opts.dir.empty())
    {
        fprintf(stderr, "--dir is needed\n");
        return 3;
    }
    setenv("TZ", "UTC", 1);
    arki::types::init_default_types();
    install_scanners();
    std::filesystem::create_directories(opts.dir);
    for (long i = opts.from; i < opts.to; ++i)
    {
        cur_case = i;
        cur_context.clear();
        emit("{\"t\":\"case\",\"case\":" + std::to_string(i) + "}");
        Case cs{i, Rng(hash_str(opts.check + "/" + std::to_string(opts.seed) + "/" + std::to_string(i))),
                opts.dir / ("c" + std::to_string(i))};
        std::filesystem::create_directories(cs.dir);
        try
        {
            c->second(cs);
        }
        catch (Failed&)
        {
        }
        catch (std::exception& e)
        {
            violation("exception:" + normalise_text(e.what()), e.what());
        }
        if (opts.get("keep").empty())
            std::filesystem::remove_all(cs.dir);
        if ((i - opts.from) % 64 == 63)
            report_stats();
    }
    report_stats();
    emit("{\"t\":\"done\"}");
    return 0;
}

/*
 * Time, independently of arki::core::Time's own arithmetic
 */

static long long days_from_civil(long long y, unsigned m, unsigned d)
{
    y -= m <= 2;
    const long long era = (y >= 0 ? y : y - 399) / 400;
    const unsigned yoe  = static_cast<unsigned>(y - era * 400);
    const unsigned doy  = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    const unsigned doe  = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097LL + static_cast<long long>(doe) - 719468;
}

long long to_secs(const Time& t)
{
    return days_from_civil(t.ye, t.mo, t.da) * 86400LL + t.ho * 3600LL + t.mi * 60LL + t.se;
}

Time from_secs(long long s)
{
    long long z  = s >= 0 ? s / 86400 : -((-s + 86399) / 86400);
    long long sd = s - z * 86400;
    z += 719468;
    const long long era = (z >= 0 ? z : z - 146096) / 146097;
    const unsigned doe  = static_cast<unsigned>(z - era * 146097);
    const unsigned yoe  = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    long long y         = static_cast<long long>(yoe) + era * 400;
    const unsigned doy  = doe - (365 * yoe + yoe / 4 - yoe / 100);
    const unsigned mp   = (5 * doy + 2) / 153;
    const unsigned d    = doy - (153 * mp + 2) / 5 + 1;
    const unsigned m    = mp + (mp < 10 ? 3 : -9);
    return Time(y + (m <= 2), m, d, sd / 3600, (sd % 3600) / 60, sd % 60);
}

Time add_seconds(const Time& t, long long secs) { return from_secs(to_secs(t) + secs); }

/*
 * Items
 */

static std::string rt_text(const Time& t)
{
    char buf[64];
    snprintf(buf, 64, "%04d-%02d-%02dT%02d:%02d:%02dZ", t.ye, t.mo, t.da, t.ho, t.mi, t.se);
    return buf;
}

std::string Item::text() const
{
    std::ostringstream s;
    s << "uid=" << uid << ";rt=" << rt_text(rt);
    if (o[0] >= 0)
        s << ";o=" << o[0] << "," << o[1] << "," << o[2];
    if (p[0] >= 0)
        s << ";p=" << p[0] << "," << p[1] << "," << p[2];
    if (l[0] >= 0)
        s << ";l=" << l[0] << "," << l[1];
    if (tr >= 0)
        s << ";tr=" << tr;
    if (a[0] >= 0)
        s << ";a=" << a[0] << "," << a[1];
    if (pd >= 0)
        s << ";pd=" << pd;
    if (run >= 0)
        s << ";run=" << run;
    if (!task.empty())
        s << ";task=" << task;
    if (!quantity.empty())
        s << ";q=" << quantity;
    if (usn >= 0)
        s << ";usn=" << usn;
    s << ";";
    return s.str();
}

std::string Item::desc() const { return text() + "size=" + std::to_string(data.size()); }

bool Item::parse_text(const std::string& text, Item& res)
{
    size_t pos = 0;
    bool uid = false, rt = false;
    while (pos < text.size())
    {
        size_t end = text.find(';', pos);
        if (end == std::string::npos)
            break;
        std::string f = text.substr(pos, end - pos);
        pos           = end + 1;
        size_t eq     = f.find('=');
        if (eq == std::string::npos)
            return false;
        std::string k = f.substr(0, eq), v = f.substr(eq + 1);
        if (k == "uid")
        {
            res.uid = std::stoul(v);
            uid     = true;
        }
        else if (k == "rt")
        {
            if (sscanf(v.c_str(), "%d-%d-%dT%d:%d:%dZ", &res.rt.ye, &res.rt.mo, &res.rt.da, &res.rt.ho, &res.rt.mi,
                       &res.rt.se) != 6)
                return false;
            rt = true;
        }
        else if (k == "o")
            sscanf(v.c_str(), "%d,%d,%d", &res.o[0], &res.o[1], &res.o[2]);
        else if (k == "p")
            sscanf(v.c_str(), "%d,%d,%d", &res.p[0], &res.p[1], &res.p[2]);
        else if (k == "l")
            sscanf(v.c_str(), "%d,%d", &res.l[0], &res.l[1]);
        else if (k == "tr")
            res.tr = std::stoi(v);
        else if (k == "a")
            sscanf(v.c_str(), "%d,%d", &res.a[0], &res.a[1]);
        else if (k == "pd")
            res.pd = std::stoi(v);
        else if (k == "run")
            res.run = std::stoi(v);
        else if (k == "task")
            res.task = v;
        else if (k == "q")
            res.quantity = v;
        else if (k == "usn")
            res.usn = std::stoi(v);
        else
            return false;
    }
    return uid && rt;
}

// Payloads. All formats but VM2 are framed as:
//   magic, 32 bit big endian total length, text, NUL, filler, trailer
// VM2 is one line: "VM2," + text + filler in hexadecimal, and no newline
struct Frame
{
    std::vector<uint8_t> magic;
    std::vector<uint8_t> trailer;
};

static const Frame& frame(DataFormat f)
{
    static const Frame grib{{'G', 'R', 'I', 'B'}, {'7', '7', '7', '7'}};
    static const Frame bufr{{'B', 'U', 'F', 'R'}, {'7', '7', '7', '7'}};
    static const Frame h5{{0x89, 'H', 'D', 'F', 0x0d, 0x0a, 0x1a, 0x0a}, {}};
    static const Frame nc{{'C', 'D', 'F', 1}, {}};
    static const Frame jpg{{0xff, 0xd8}, {0xff, 0xd9}};
    switch (f)
    {
        case DataFormat::GRIB:   return grib;
        case DataFormat::BUFR:   return bufr;
        case DataFormat::ODIMH5: return h5;
        case DataFormat::NETCDF: return nc;
        case DataFormat::JPEG:   return jpg;
        default:                 throw std::runtime_error("no frame for format");
    }
}

void Item::build(Rng& rng, size_t filler)
{
    data.clear();
    if (format == DataFormat::VM2)
    {
        std::string s = "VM2," + text();
        static const char* hexd = "0123456789abcdef";
        for (size_t i = 0; i < filler; ++i)
            s += hexd[rng.below(16)];
        data.assign(s.begin(), s.end());
        return;
    }
    const Frame& f = frame(format);
    std::string t  = text();
    size_t total   = f.magic.size() + 4 + t.size() + 1 + filler + f.trailer.size();
    data           = f.magic;
    for (int i = 3; i >= 0; --i)
        data.push_back((total >> (8 * i)) & 0xff);
    data.insert(data.end(), t.begin(), t.end());
    data.push_back(0);
    auto fill = rng.bytes(filler);
    data.insert(data.end(), fill.begin(), fill.end());
    data.insert(data.end(), f.trailer.begin(), f.trailer.end());
}

size_t parse_payload(DataFormat format, const uint8_t* buf, size_t size, Item& res)
{
    res        = Item();
    res.format = format;
    if (format == DataFormat::VM2)
    {
        if (size < 4 || memcmp(buf, "VM2,", 4) != 0)
            return 0;
        std::string s((const char*)buf + 4, size - 4);
        if (s.find('\n') != std::string::npos)
            return 0;
        if (!Item::parse_text(s, res))
            return 0;
        res.data.assign(buf, buf + size);
        return size;
    }
    const Frame& f = frame(format);
    size_t m       = f.magic.size();
    if (size < m + 4 || memcmp(buf, f.magic.data(), m) != 0)
        return 0;
    size_t total = 0;
    for (int i = 0; i < 4; ++i)
        total = (total << 8) | buf[m + i];
    if (total > size || total < m + 5 + f.trailer.size())
        return 0;
    const uint8_t* e = (const uint8_t*)memchr(buf + m + 4, 0, total - m - 4);
    if (!e)
        return 0;
    if (!Item::parse_text(std::string((const char*)buf + m + 4, (const char*)e), res))
        return 0;
    if (memcmp(buf + total - f.trailer.size(), f.trailer.data(), f.trailer.size()) != 0)
        return 0;
    res.data.assign(buf, buf + total);
    return total;
}

Item item_from_data(DataFormat format, const std::vector<uint8_t>& data)
{
    Item res;
    size_t s = parse_payload(format, data.data(), data.size(), res);
    if (s == 0 || s != data.size())
        throw std::runtime_error("data are not one of the generated items: " + hex(data));
    return res;
}

std::string hex(const std::vector<uint8_t>& v, size_t max)
{
    std::string r;
    for (size_t i = 0; i < v.size() && i < max; ++i)
    {
        char b[8];
        if (v[i] >= 0x20 && v[i] < 0x7f)
            snprintf(b, 8, "%c", v[i]);
        else
            snprintf(b, 8, "\\x%02x", v[i]);
        r += b;
    }
    if (v.size() > max)
        r += cat("...(", v.size(), ")");
    return r;
}

void Item::to_metadata(Metadata& md) const
{
    md.test_set(types::Reftime::createPosition(rt));
    if (o[0] >= 0)
        md.test_set("origin", cat("GRIB1(", o[0], ",", o[1], ",", o[2], ")"));
    if (p[0] >= 0)
        md.test_set("product", cat("GRIB1(", p[0], ",", p[1], ",", p[2], ")"));
    if (l[0] >= 0)
        md.test_set("level", l[1] < 0 ? cat("GRIB1(", l[0], ")") : cat("GRIB1(", l[0], ",", l[1], ")"));
    if (tr >= 0)
        md.test_set("timerange", cat("Timedef(", tr, "h)"));
    if (a[0] >= 0)
        md.test_set("area", cat("GRIB(lat=", a[0], ",lon=", a[1], ")"));
    if (pd >= 0)
        md.test_set("proddef", cat("GRIB(tod=", pd, ")"));
    if (run >= 0)
    {
        char b[32];
        snprintf(b, 32, "MINUTE(%02d:%02d)", run / 60, run % 60);
        md.test_set("run", b);
    }
    if (!task.empty())
        md.test_set("task", task);
    if (!quantity.empty())
        md.test_set("quantity", quantity);
    if (format == DataFormat::VM2)
        // As the real VM2 scanner does: what is needed to rebuild the line
        md.set(types::Value::create(std::string(data.begin() + 4, data.end())));
}

std::shared_ptr<Metadata> Item::md() const
{
    auto res = std::make_shared<Metadata>();
    to_metadata(*res);
    res->set_source_inline(format,
                           metadata::DataManager::get().to_data(format, std::vector<uint8_t>(data.begin(), data.end())));
    return res;
}

Item ItemGen::make()
{
    Item i;
    i.uid    = next_uid++;
    i.format = format;
    i.rt     = add_seconds(begin, (long long)rng.below(span_hours / step_hours + 1) * step_hours * 3600);
    auto mis = [&] { return rng.chance(missing); };
    unsigned v = variety;
    if (!mis())
    {
        static const int c[] = {98, 200, 80, 255, 0};
        i.o[0]               = c[rng.below(std::min(v, 5u))];
        i.o[1]               = rng.below(2);
        i.o[2]               = rng.below(2) ? 1 : 101;
    }
    if (!mis())
    {
        i.p[0] = rng.below(2) ? 200 : 98;
        i.p[1] = rng.below(2) ? 2 : 140;
        i.p[2] = 11 + rng.below(v);
    }
    if (!mis())
    {
        if (rng.chance(30))
            i.l[0] = 1;
        else
        {
            i.l[0] = rng.below(2) ? 100 : 105;
            i.l[1] = rng.below(v) * 10;
        }
    }
    if (!mis())
        i.tr = rng.below(v) * 6;
    if (!mis())
    {
        i.a[0] = 40 + rng.below(v);
        i.a[1] = rng.below(2);
    }
    if (rng.chance(50) && !mis())
        i.pd = rng.below(v);
    if (rng.chance(50) && !mis())
        i.run = rng.below(4) * 360;
    if (rng.chance(30) && !mis())
        i.task = cat("task", (int)rng.below(v));
    if (rng.chance(30) && !mis())
    {
        static const char* qs[] = {"ACRR", "BRDR", "CLASS", "VRAD"};
        for (auto q : qs)
            if (rng.below(2))
            {
                if (!i.quantity.empty())
                    i.quantity += ",";
                i.quantity += q;
            }
    }
    size_t filler = rng.chance(5) ? 0 : rng.below(max_filler + 1);
    i.build(rng, filler);
    return i;
}

std::vector<Item> ItemGen::make(unsigned n)
{
    std::vector<Item> res;
    for (unsigned i = 0; i < n; ++i)
        res.push_back(make());
    return res;
}

const char* fmt_name(DataFormat f)
{
    switch (f)
    {
        case DataFormat::GRIB:   return "grib";
        case DataFormat::BUFR:   return "bufr";
        case DataFormat::VM2:    return "vm2";
        case DataFormat::ODIMH5: return "odimh5";
        case DataFormat::NETCDF: return "netcdf";
        case DataFormat::JPEG:   return "jpeg";
        default:                 return "?";
    }
}

/*
 * Files
 */

std::string read_text(const std::filesystem::path& p)
{
    std::ifstream in(p, std::ios::binary);
    std::ostringstream ss;
    ss << in.rdbuf();
    return ss.str();
}

void write_text(const std::filesystem::path& p, const std::string& s)
{
    std::ofstream out(p, std::ios::binary | std::ios::trunc);
    out << s;
}

static void snap(const std::filesystem::path& root, const std::string& rel, std::map<std::string, std::string>& res,
                 bool skip_locks, bool with_mtime)
{
    std::error_code ec;
    for (auto& e : std::filesystem::directory_iterator(root / rel, ec))
    {
        std::string name = e.path().filename().string();
        std::string r    = rel.empty() ? name : rel + "/" + name;
        if (skip_locks && (name == "lock" || name.find(".lock") != std::string::npos))
            continue;
        // State of SQLite's own journals, not of the dataset
        if (name.size() > 8 && (name.substr(name.size() - 8) == "-journal" || name.substr(name.size() - 4) == "-wal" ||
                                name.substr(name.size() - 4) == "-shm"))
            continue;
        struct stat st;
        if (lstat(e.path().c_str(), &st) != 0)
            continue;
        if (S_ISDIR(st.st_mode))
        {
            res[r] = "dir";
            snap(root, r, res, skip_locks, with_mtime);
        }
        else
        {
            res[r] = "file:" + read_text(e.path());
            if (with_mtime)
                res[r] += cat(":", st.st_mtim.tv_sec);
        }
    }
}

std::map<std::string, std::string> snapshot(const std::filesystem::path& root, bool skip_locks, bool with_mtime)
{
    std::map<std::string, std::string> res;
    snap(root, "", res, skip_locks, with_mtime);
    return res;
}

std::string diff_snapshots(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b)
{
    std::string res;
    for (const auto& i : a)
    {
        auto j = b.find(i.first);
        if (j == b.end())
            res += " removed:" + i.first;
        else if (j->second != i.second)
            res += " changed:" + i.first;
    }
    for (const auto& i : b)
        if (a.find(i.first) == a.end())
            res += " added:" + i.first;
    return res;
}

} // namespace vh

/*
 * Scanners for the generated items, and the parts of arkimet which are not
 * built here because DB-All.e and meteo-vm2 are missing
 */
#include <arki/data/bufr.h>
#include <arki/data/vm2.h>

namespace vh {

static void finish(Metadata& md, const Item& item)
{
    item.to_metadata(md);
}

class ItemScanner : public arki::data::Scanner
{
public:
    DataFormat format;
    ItemScanner(DataFormat format) : format(format) {}
    DataFormat name() const override { return format; }

    /// Split a buffer in items, skipping what is not one
    static void split(DataFormat format, const std::vector<uint8_t>& buf,
                      std::function<bool(Item&&, size_t)> dest, bool& res)
    {
        res        = true;
        size_t pos = 0;
        while (pos < buf.size())
        {
            Item item;
            size_t len;
            if (format == DataFormat::VM2)
            {
                const uint8_t* nl = (const uint8_t*)memchr(buf.data() + pos, '\n', buf.size() - pos);
                size_t line       = nl ? nl - (buf.data() + pos) : buf.size() - pos;
                len               = line ? parse_payload(format, buf.data() + pos, line, item) : 0;
                size_t start      = pos;
                pos += line + 1;
                if (len && !dest(std::move(item), start))
                {
                    res = false;
                    return;
                }
            }
            else
            {
                len = parse_payload(format, buf.data() + pos, buf.size() - pos, item);
                if (!len)
                {
                    ++pos;
                    continue;
                }
                size_t start = pos;
                pos += len;
                if (!dest(std::move(item), start))
                {
                    res = false;
                    return;
                }
            }
        }
    }

    static std::vector<uint8_t> slurp(const std::filesystem::path& p)
    {
        auto s = read_text(p);
        return std::vector<uint8_t>(s.begin(), s.end());
    }

    bool scan_file_multi(const std::filesystem::path& abspath, arki::data::scan_file_multi_dest_func dest) override
    {
        auto buf = slurp(abspath);
        bool res;
        split(
            format, buf,
            [&](Item&& i, size_t pos) {
                auto md = std::make_shared<Metadata>();
                finish(*md, i);
                std::vector<uint8_t> d(i.data);
                return dest(md, pos, std::move(d));
            },
            res);
        return res;
    }

    std::shared_ptr<Metadata> scan_file_single(const std::filesystem::path& abspath) override
    {
        auto buf = slurp(abspath);
        Item item;
        size_t n = parse_payload(format, buf.data(), buf.size(), item);
        if (n == 0 || (n != buf.size()))
            throw std::runtime_error(abspath.native() + " does not contain exactly one item");
        auto md = std::make_shared<Metadata>();
        finish(*md, item);
        md->add_note_scanned_from(abspath);
        return md;
    }

    bool scan_pipe(arki::core::NamedFileDescriptor& in, arki::metadata_dest_func dest) override
    {
        std::vector<uint8_t> buf;
        while (true)
        {
            uint8_t b[4096];
            size_t n = in.read(b, sizeof(b));
            if (n == 0)
                break;
            buf.insert(buf.end(), b, b + n);
        }
        bool res;
        split(format, buf, [&](Item&& i, size_t) { return dest(i.md()); }, res);
        return res;
    }

    std::shared_ptr<Metadata> scan_data(const std::vector<uint8_t>& data) override
    {
        return item_from_data(format, data).md();
    }

    bool update_sequence_number(Metadata& md, int& usn) const override
    {
        auto buf  = md.get_data().read();
        auto item = item_from_data(format, buf);
        if (item.usn < 0)
            return false;
        usn = item.usn;
        return true;
    }

    bool update_sequence_number(const arki::types::source::Blob& source, int& usn) const override
    {
        auto buf  = source.read_data();
        auto item = item_from_data(format, buf);
        if (item.usn < 0)
            return false;
        usn = item.usn;
        return true;
    }

    std::vector<uint8_t> reconstruct(const Metadata&, const std::string& value) const override
    {
        std::string s = "VM2," + value;
        return std::vector<uint8_t>(s.begin(), s.end());
    }
};

void install_scanners()
{
    arki::data::Scanner::get(DataFormat::GRIB);
    for (auto f : {DataFormat::GRIB, DataFormat::BUFR, DataFormat::VM2, DataFormat::ODIMH5, DataFormat::NETCDF,
                   DataFormat::JPEG})
        arki::data::Scanner::register_scanner(f, std::make_shared<ItemScanner>(f));
}

} // namespace vh

namespace arki::data::bufr {

struct StubValidator : public Validator
{
    DataFormat format() const override { return DataFormat::BUFR; }
    void validate_file(core::NamedFileDescriptor& fd, off_t offset, size_t size) const override
    {
        if (size < 8)
            throw_check_error(fd, offset, "too short");
        std::vector<uint8_t> buf(size);
        if (fd.pread(buf.data(), size, offset) != size)
            throw_check_error(fd, offset, "short read");
        validate_buf(buf.data(), size);
    }
    void validate_buf(const void* buf, size_t size) const override
    {
        if (size < 8 || memcmp(buf, "BUFR", 4) != 0 || memcmp((const char*)buf + size - 4, "7777", 4) != 0)
            throw_check_error("not a BUFR");
    }
};
static StubValidator stub_validator;
const Validator& validator() { return stub_validator; }

Scanner::Scanner() {}
Scanner::~Scanner() {}
std::shared_ptr<Metadata> Scanner::scan_data(const std::vector<uint8_t>&) { throw std::runtime_error("stub"); }
bool Scanner::scan_file_multi(const std::filesystem::path&, scan_file_multi_dest_func)
{
    throw std::runtime_error("stub");
}
std::shared_ptr<Metadata> Scanner::scan_file_single(const std::filesystem::path&) { throw std::runtime_error("stub"); }
bool Scanner::scan_pipe(core::NamedFileDescriptor&, metadata_dest_func) { throw std::runtime_error("stub"); }
bool Scanner::update_sequence_number(Metadata&, int&) const { throw std::runtime_error("stub"); }
bool Scanner::update_sequence_number(const types::source::Blob&, int&) const { throw std::runtime_error("stub"); }
void MockScanner::scan_extra(dballe::BinaryMessage&, std::shared_ptr<dballe::Message>, std::shared_ptr<Metadata>) {}

} // namespace arki::data::bufr

namespace arki::data::vm2 {

struct StubValidator : public Validator
{
    DataFormat format() const override { return DataFormat::VM2; }
    void validate_file(core::NamedFileDescriptor& fd, off_t offset, size_t size) const override
    {
        std::vector<uint8_t> buf(size);
        if (fd.pread(buf.data(), size, offset) != size)
            throw_check_error(fd, offset, "short read");
        validate_buf(buf.data(), size);
    }
    void validate_buf(const void* buf, size_t size) const override
    {
        vh::Item item;
        if (!vh::parse_payload(DataFormat::VM2, (const uint8_t*)buf, size, item))
            throw_check_error("not a VM2 line");
    }
};
static StubValidator stub_validator;
const Validator& validator() { return stub_validator; }
std::shared_ptr<Metadata> Scanner::scan_data(const std::vector<uint8_t>&) { throw std::runtime_error("stub"); }
bool Scanner::scan_file_multi(const std::filesystem::path&, scan_file_multi_dest_func)
{
    throw std::runtime_error("stub");
}
std::shared_ptr<Metadata> Scanner::scan_file_single(const std::filesystem::path&) { throw std::runtime_error("stub"); }
bool Scanner::scan_pipe(core::NamedFileDescriptor&, metadata_dest_func) { throw std::runtime_error("stub"); }
void Scanner::normalize_before_dispatch(Metadata&) {}
std::vector<uint8_t> Scanner::reconstruct(const Metadata&, const std::string&) const
{
    throw std::runtime_error("stub");
}

} // namespace arki::data::vm2
