#pragma once
// Model-based driver for datasets: a store keeps the set of items that a
// dataset must contain, and compares it with what the dataset returns
#include "common.h"
#include <arki/core/fwd.h>
#include <arki/dataset/reporter.h>
#include <arki/dataset/segmented.h>
#include <arki/dataset/time.h>
#include <arki/matcher.h>
#include <arki/metadata/sort.h>
#include <arki/segment.h>
#include <arki/stream.h>
#include <arki/summary.h>
#include <arki/types/reftime.h>
#include <arki/types/source/blob.h>

namespace vh {

struct DsConf
{
    std::string name = "test";
    std::string type = "iseg";
    std::string step = "daily";
    DataFormat format = DataFormat::GRIB;
    std::string unique, index, replace;
    bool smallfiles  = false;
    bool eatmydata   = false;
    int gz_group     = -1; // -1: default
    int archive_age  = -1;
    int delete_age   = -1;
    bool dir_segments = false; // store in directories formats that can be concatenated
    std::shared_ptr<arki::core::cfg::Section> cfg(const std::filesystem::path& path) const;
    std::string desc() const;
    bool iseg() const { return type == "iseg"; }
    /// True if segments are directories
    bool dirs() const;
};

struct ConfGen
{
    std::vector<std::string> types   = {"iseg", "iseg", "simple"};
    std::vector<std::string> steps   = {"daily", "daily", "daily", "daily", "monthly", "yearly", "weekly", "biweekly", "single"};
    std::vector<DataFormat> formats  = {DataFormat::GRIB, DataFormat::GRIB, DataFormat::GRIB, DataFormat::BUFR,
                                        DataFormat::VM2,  DataFormat::VM2,  DataFormat::ODIMH5, DataFormat::NETCDF,
                                        DataFormat::JPEG};
    unsigned unique                  = 60; // percent chance of having a unique key
    bool unique_by_task              = false;
    std::vector<std::string> replace = {"", "no", "yes", "USN"};
    unsigned dir_segments            = 15;
    DsConf make(Rng& rng) const;
};

/// Documented relative path (without extension) and time span [begin, end) of the segment for a reference time
std::string seg_name(const std::string& step, const Time& t);
std::pair<Time, Time> seg_span(const std::string& step, const Time& t);

/// A match expression, with an independent predicate that says what it means
struct Expr
{
    std::string text;
    std::function<bool(const Item&)> match;
};

struct ExprGen
{
    Rng& rng;
    std::vector<Item> pool; // items to take values from
    unsigned reftime     = 60; // percent chance of having a reftime part
    unsigned others      = 40; // percent chance of having each other part
    bool contiguous      = false; // reftime parts only select intervals
    bool reftime_or      = true; // allow more than one reftime alternative
    std::string cut_step; // if set, reftime only selects whole segments of this step
    ExprGen(Rng& rng) : rng(rng) {}
    Expr make();
    Expr part(const std::string& type);
    Expr reftime_part();
};

/// Records what a maintenance operation reports
struct Recorder : public arki::dataset::Reporter
{
    struct Event
    {
        std::string ds, op, relpath, message;
    };
    std::vector<Event> events;
    void add(const std::string& ds, const char* op, const std::string& relpath, const std::string& msg)
    {
        events.push_back({ds, op, relpath, msg});
    }
    std::string desc() const;
    /// Events which say that something is wrong or that something was or would be done to segments
    std::vector<Event> actions() const;
    bool has(const std::string& op, const std::string& relpath) const;
    unsigned n(const std::string& op) const;
#define VHR(m) \
    void m(const std::string& ds, const std::string& op, const std::string& msg) override { add(ds, #m, op, msg); }
    VHR(operation_progress)
    VHR(operation_manual_intervention)
    VHR(operation_aborted)
    VHR(operation_report)
#undef VHR
#define VHR(m)                                                                                        \
    void m(const std::string& ds, const std::filesystem::path& rel, const std::string& msg) override \
    {                                                                                                 \
        add(ds, #m, rel.native(), msg);                                                               \
    }
    VHR(segment_info)
    VHR(segment_repack)
    VHR(segment_archive)
    VHR(segment_remove)
    VHR(segment_deindex)
    VHR(segment_rescan)
    VHR(segment_tar)
    VHR(segment_compress)
    VHR(segment_issue51)
    VHR(segment_manual_intervention)
#undef VHR
};

struct Outcome
{
    std::vector<std::pair<Item, arki::metadata::Inbound::Result>> results;
    std::vector<arki::metadata::Inbound::Result> expected;
    std::string exception; // if acquire_batch threw
    unsigned ok = 0;
};

/// Text which identifies a combination of metadata in a summary
std::string summary_key(const arki::Metadata& md);
struct Stat
{
    uint64_t count = 0, size = 0;
    Time begin, end;
    void add(const Item& i);
    bool operator==(const Stat& o) const
    {
        return count == o.count && size == o.size && begin == o.begin && end == o.end;
    }
};
typedef std::map<std::string, Stat> SummaryMap;
SummaryMap summary_map(const arki::Summary& s);
std::string diff_summaries(const SummaryMap& expected, const SummaryMap& got);

struct Result
{
    std::vector<std::shared_ptr<Metadata>> mds;
    std::vector<Item> items; // as parsed from the data
    bool res = true;
};

class Store
{
public:
    Rng& rng;
    DsConf conf;
    std::filesystem::path path;
    std::shared_ptr<arki::dataset::Session> session;
    std::shared_ptr<arki::dataset::Dataset> ds;
    std::map<unsigned, Item> live;
    /// Segments (relative paths with format extension) which do not accept new data
    std::set<std::string> closed;
    std::set<std::string> archived;
    /// prefix of violation keys
    std::string prefix;
    std::string log;
    ItemGen gen;

    Store(Rng& rng, const DsConf& conf, const std::filesystem::path& path);
    void reopen();
    /// Reopen the session half of the times
    void maybe_reopen();
    void note(const std::string& s);
    std::string relpath(const Item& i) const;
    /// Key used to tell if two items are duplicates, or "" if there is none
    std::string unique_key(const Item& i) const;

    std::vector<arki::metadata::Inbound::Result> predict(const std::vector<Item>& items,
                                                         std::map<unsigned, Item>& model) const;
    /// Import a batch. Does not throw if arkimet does: see Outcome::exception. Updates the model
    Outcome import(const std::vector<Item>& items, bool drop_cached = false, bool check_results = true);
    /// Make items which do not go to closed segments
    std::vector<Item> make_items(unsigned n);

    Recorder run_check(bool fix, bool accurate = false);
    Recorder run_repack(bool fix);
    Recorder run_op(const std::string& op, bool fix); // check repack tar zip compress remove_old remove_all state
    /// Remove a set of items found with a query
    void remove(const std::set<unsigned>& uids);

    /// Query and read all the data (so it always asks for data)
    Result query(const std::string& expr = "", const std::string& sort = "");
    /// What the items of the store summarise to
    SummaryMap model_summary(std::function<bool(const Item&)> match = nullptr) const;

    /// Compare contents with the model
    void check_contents(const std::string& where, bool deep = true);
    void check_item(const std::string& where, const Item& exp, Metadata& md, const std::vector<uint8_t>& data);
    /// Check that a check finds nothing to do
    void check_clean(const std::string& where, bool allow_dirty, bool accurate = false);

    /// Do not add data to segments which have been converted to formats that cannot be appended to
    void close_converted();
    /// Relative paths of segments on disk
    std::set<std::string> segments_on_disk() const;
};

/// Compare the metadata of an item with the expected ones. Returns a description of the difference, or empty
std::string compare_md(const Item& exp, const Metadata& md);

/// Random operation that changes how data are laid out, but not the contents of the dataset
std::string random_maintenance(Store& s);

/// Build a store with some history. Returns false if an operation that is not
/// under test could not be done
struct History
{
    bool conversions = true, removals = true, repacks = true, usn = true;
    unsigned max_batches = 4, max_items = 14;
    unsigned big         = 1; // percent chance of importing hundreds of items at once
    void run(Store& s)
    {
        unsigned n = s.rng.range(1, max_batches);
        for (unsigned b = 0; b < n; ++b)
        {
            s.maybe_reopen();
            bool many  = !b && s.rng.chance(big);
            auto items = s.make_items(many ? s.rng.range(250, 700) : s.rng.range(1, max_items));
            if (many)
                count("big_imports");
            if (items.empty())
                break;
            s.import(items, s.rng.below(2), false);
            if (removals && !s.live.empty() && s.rng.chance(25))
                remove_some(s);
            if (repacks && s.rng.chance(20))
            {
                s.run_check(true);
                s.run_repack(true);
            }
        }
        if (conversions && s.rng.chance(40))
            random_maintenance(s);
    }
    static std::set<unsigned> pick_some(Store& s, unsigned percent)
    {
        std::set<unsigned> uids;
        if (!s.live.empty() && s.rng.chance(25))
        {
            // All of the oldest, or of the newest
            auto cut    = to_secs(std::next(s.live.begin(), s.rng.below(s.live.size()))->second.rt);
            bool newest = s.rng.chance(60);
            for (const auto& i : s.live)
                if ((newest ? to_secs(i.second.rt) >= cut : to_secs(i.second.rt) <= cut) && !s.closed.count(s.relpath(i.second)))
                    uids.insert(i.first);
            return uids;
        }
        for (const auto& i : s.live)
            if (s.rng.chance(percent) && !s.closed.count(s.relpath(i.second)))
                uids.insert(i.first);
        return uids;
    }
    static void remove_some(Store& s)
    {
        auto uids = pick_some(s, 30);
        if (!uids.empty())
            s.remove(uids);
    }
};

/// Call f on the segment with the given path. Returns false if the dataset does not know it
bool with_segment(Store& s, const std::string& rel, std::function<void(arki::dataset::segmented::CheckerSegment&)> f);
/// Archive what is older than a time inside the span of the data
void move_to_archive(Store& s, int age_days_before_end);
/// Run a random history, with archives
void build_mixed(Store& s);

} // namespace vh
