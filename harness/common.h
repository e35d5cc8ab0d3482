#pragma once
// Shared parts of the runtime monitors: deterministic case generation, event
// counting, violation reporting, self-describing data items with a reference
// model of their metadata, and the scanners that parse them back.
#include <arki/core/cfg.h>
#include <arki/core/file.h>
#include <arki/core/lock.h>
#include <arki/core/time.h>
#include <arki/data.h>
#include <arki/dataset.h>
#include <arki/dataset/local.h>
#include <arki/dataset/session.h>
#include <arki/defs.h>
#include <arki/metadata.h>
#include <arki/metadata/collection.h>
#include <arki/metadata/data.h>
#include <arki/metadata/inbound.h>
#include <arki/query.h>
#include <arki/segment.h>
#include <arki/summary.h>
#include <arki/types.h>
#include <arki/utils/sys.h>
#include <cstdint>
#include <filesystem>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace vh {

using arki::DataFormat;
using arki::Metadata;
using arki::core::Time;

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    /// 0 <= res < n
    unsigned below(unsigned n) { return n ? (unsigned)(next() % n) : 0; }
    /// a <= res <= b
    int range(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }
    bool chance(unsigned percent) { return below(100) < percent; }
    template <typename T> const T& pick(const std::vector<T>& v)
    {
        return v[below(v.size())];
    }
    template <typename T> T pick(std::initializer_list<T> v)
    {
        return *(v.begin() + below(v.size()));
    }
    template <typename T> void shuffle(std::vector<T>& v)
    {
        for (size_t i = v.size(); i > 1; --i)
            std::swap(v[i - 1], v[below(i)]);
    }
    std::vector<uint8_t> bytes(size_t n)
    {
        std::vector<uint8_t> res(n);
        for (auto& b : res)
            b = (uint8_t)next();
        return res;
    }
};

uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull);

struct Opts
{
    std::string check;
    uint64_t seed = 1;
    long from     = 0;
    long to       = 1;
    bool thorough = false;
    std::filesystem::path dir;
    std::map<std::string, std::string> extra;
    std::string get(const std::string& k, const std::string& def = "") const
    {
        auto i = extra.find(k);
        return i == extra.end() ? def : i->second;
    }
};

extern Opts opts;

struct Case
{
    long index;
    Rng rng;
    std::filesystem::path dir; // scratch directory, fresh for each case
};

/// Report that a property does not hold: key identifies the kind of failure
void violation(const std::string& key, const std::string& detail);
/// Thrown by fail() after reporting, to leave the case
struct Failed : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
[[noreturn]] void fail(const std::string& key, const std::string& detail);
/// Count an observed event
void count(const std::string& name, uint64_t n = 1);
/// Declare this case (or part of it) as a distinct non-trivial one
void distinct(uint64_t h);
inline void distinct(const std::string& s) { distinct(hash_str(s)); }
/// Log a sample of what was run
void sample(const std::string& text);
/// Describe the case that is running, for violation reports
void context(const std::string& text);
std::string& context_ref();
std::string jstr(const std::string& s);

/// Reduce an error message to its fixed words
std::string normalise_text(const std::string& s);
typedef std::function<void(Case&)> CheckFn;
int run_main(int argc, const char* argv[], const std::map<std::string, CheckFn>& checks);

template <typename... Args> std::string cat(Args&&... args)
{
    std::ostringstream ss;
    (void)std::initializer_list<int>{(ss << std::forward<Args>(args), 0)...};
    return ss.str();
}

/*
 * Items
 */

/// Reference description of one data item
struct Item
{
    unsigned uid       = 0;
    DataFormat format  = DataFormat::GRIB;
    Time rt            = Time(2007, 1, 1, 0, 0, 0);
    // origin GRIB1(o[0], o[1], o[2]); o[0] == -1 when missing
    int o[3]           = {-1, 0, 0};
    int p[3]           = {-1, 0, 0};
    // level GRIB1(l[0], l[1]); l[1] == -1 when there is no value
    int l[2]           = {-1, -1};
    int tr             = -1; // Timedef(<tr>h)
    int a[2]           = {-1, 0}; // area GRIB(lat=, lon=)
    int pd             = -1; // proddef GRIB(tod=)
    int run            = -1; // minutes
    std::string task;
    std::string quantity; // comma separated, sorted
    int usn = -1;
    std::vector<uint8_t> data; // the payload
    std::string desc() const;
    /// Text of the item's metadata, as stored in its payload
    std::string text() const;
    /// Build the payload, with the given amount of filler
    void build(Rng& rng, size_t filler);
    static bool parse_text(const std::string& text, Item& res);
    /// Fill metadata types, but not the source
    void to_metadata(Metadata& md) const;
    /// Metadata with an inline source
    std::shared_ptr<Metadata> md() const;
};

struct ItemGen
{
    Rng& rng;
    DataFormat format  = DataFormat::GRIB;
    unsigned next_uid  = 1;
    Time begin         = Time(2007, 7, 1, 0, 0, 0);
    int span_hours     = 24 * 70;
    int step_hours     = 12;
    int missing        = 10; // percent
    size_t max_filler  = 200;
    unsigned variety   = 3;
    ItemGen(Rng& rng) : rng(rng) {}
    Item make();
    std::vector<Item> make(unsigned n);
};

/// Parse payload at the beginning of buf. Returns its size, or 0
size_t parse_payload(DataFormat format, const uint8_t* buf, size_t size, Item& res);
/// Identify an item by its bytes. Throws if it does not parse
Item item_from_data(DataFormat format, const std::vector<uint8_t>& data);

void install_scanners();

std::string read_text(const std::filesystem::path& p);
void write_text(const std::filesystem::path& p, const std::string& s);
/// Map of relative path to (type, contents) for a whole tree
std::map<std::string, std::string> snapshot(const std::filesystem::path& root,
                                            bool skip_locks = true, bool with_mtime = false);
std::string diff_snapshots(const std::map<std::string, std::string>& a,
                           const std::map<std::string, std::string>& b);

Time add_seconds(const Time& t, long long secs);
long long to_secs(const Time& t);
Time from_secs(long long s);

const char* fmt_name(DataFormat f);
std::string hex(const std::vector<uint8_t>& v, size_t max = 64);

} // namespace vh
