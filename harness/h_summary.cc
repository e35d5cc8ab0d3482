// C23: summaries add up, in any order
#include "common_types.h"
#include <arki/core/binary.h>
#include <arki/matcher.h>
#include <arki/matcher/parser.h>
#include <arki/matcher/utils.h>
#include <arki/stream.h>
#include <arki/structured/json.h>
#include <arki/structured/keys.h>
#include <arki/structured/memory.h>
#include <arki/summary/short.h>
#include <arki/types/reftime.h>
#include <arki/types/source.h>

using namespace arki;
using namespace vh;
namespace fs = std::filesystem;

namespace {

const std::vector<TypeCode> codes = {TYPE_ORIGIN, TYPE_PRODUCT, TYPE_LEVEL, TYPE_TIMERANGE, TYPE_AREA,
                                     TYPE_PRODDEF, TYPE_BBOX,   TYPE_RUN,   TYPE_QUANTITY,  TYPE_TASK};

/// What an item adds to a summary
struct Entry
{
    std::map<TypeCode, std::shared_ptr<types::Type>> items;
    uint64_t count = 1, size = 0;
    Time begin, end;
    bool single = true; // one item, not aggregated statistics
    std::string key(const std::set<TypeCode>* only = nullptr) const
    {
        std::string res;
        for (const auto& i : items)
        {
            if (only && !only->count(i.first))
                continue;
            auto b = i.second->encodeBinary();
            res += cat((int)i.first, "=", std::string(b.begin(), b.end()), ";");
        }
        return res;
    }
};

struct St
{
    uint64_t count = 0, size = 0;
    Time begin, end;
    Entry e;
    bool operator==(const St& o) const
    {
        return count == o.count && size == o.size && begin == o.begin && end == o.end;
    }
    std::string desc() const
    {
        std::string res = cat(count, "/", size, "/", begin.to_iso8601(), "..", end.to_iso8601(), " {");
        for (const auto& i : e.items)
            res += cat(i.second->tag(), ":", i.second->to_string(), "; ");
        return res + "}";
    }
    void add(const Entry& x)
    {
        if (!count || to_secs(x.begin) < to_secs(begin))
            begin = x.begin;
        if (!count || to_secs(x.end) > to_secs(end))
            end = x.end;
        count += x.count;
        size += x.size;
        e = x;
    }
};
typedef std::map<std::string, St> Map;

Map model(const std::vector<const Entry*>& entries, const std::set<TypeCode>* only = nullptr)
{
    Map res;
    for (auto e : entries)
    {
        if (only)
        {
            Entry p = *e;
            for (auto c : codes)
                if (!only->count(c))
                    p.items.erase(c);
            res[p.key()].add(p);
        }
        else
            res[e->key()].add(*e);
    }
    return res;
}

struct Collect : public summary::Visitor
{
    Map res;
    std::string twice;
    unsigned stop_after = 0, seen = 0;
    bool operator()(const std::vector<const types::Type*>& md, const summary::Stats& stats) override
    {
        Entry e;
        for (size_t i = 0; i < md.size(); ++i)
            if (md[i])
                e.items[md[i]->type_code()].reset(md[i]->clone());
        e.count = stats.count;
        e.size  = stats.size;
        e.begin = stats.begin;
        e.end   = stats.end;
        auto k  = e.key();
        if (res.count(k))
            twice = res[k].desc();
        res[k].add(e);
        ++seen;
        return !stop_after || seen < stop_after;
    }
};

void compare(const std::string& what, const Map& exp, const Collect& got)
{
    if (!got.twice.empty())
        fail("combination-twice:" + what.substr(0, what.find(' ')), cat(what, ": a combination is listed twice: ", got.twice));
    std::string r;
    for (const auto& e : exp)
    {
        auto g = got.res.find(e.first);
        if (g == got.res.end())
            r += cat("; missing ", e.second.desc());
        else if (!(g->second == e.second))
            r += cat("; expected ", e.second.desc(), " got ", g->second.desc());
    }
    for (const auto& g : got.res)
        if (!exp.count(g.first))
            r += cat("; unexpected ", g.second.desc());
    if (!r.empty())
        fail("differs:" + what.substr(0, what.find(' ')), cat(what, r.substr(0, 900)));
    count("combinations", exp.size());
}

/// Check everything a summary tells about itself
void verify(const std::string& what, const Map& exp, const Summary& s)
{
    Collect c;
    s.visit(c);
    compare(what, exp, c);
    uint64_t n = 0, size = 0;
    for (const auto& e : exp)
    {
        n += e.second.count;
        size += e.second.size;
    }
    if (s.count() != n || s.size() != size)
        fail("totals", cat(what, ": count is ", s.count(), " size is ", s.size(), " expected ", n, " ", size));
    if (s.empty() != exp.empty())
        fail("empty", cat(what, ": empty() is ", s.empty()));
    if (exp.empty())
        return;
    Time b = exp.begin()->second.begin, e = exp.begin()->second.end;
    for (const auto& x : exp)
    {
        if (to_secs(x.second.begin) < to_secs(b))
            b = x.second.begin;
        if (to_secs(x.second.end) > to_secs(e))
            e = x.second.end;
    }
    auto iv = s.get_reference_time();
    if (!(iv.begin == b) || to_secs(iv.end) != to_secs(e) + 1)
        fail("time-span", cat(what, ": time span is ", iv.to_string(), " expected ", b.to_iso8601(), " to ", e.to_iso8601()));
    summary::Short sh;
    s.visit(sh);
    if (sh.stats.count != n || sh.stats.size != size || !(sh.stats.begin == b) || !(sh.stats.end == e))
        fail("short-stats", what);
    for (auto code : codes)
    {
        std::set<std::string> values;
        for (const auto& x : exp)
        {
            auto i = x.second.e.items.find(code);
            if (i == x.second.e.items.end())
                continue;
            auto enc = i->second->encodeBinary();
            values.insert(std::string(enc.begin(), enc.end()));
        }
        auto g = sh.items.find(code);
        if ((g == sh.items.end() ? 0 : g->second.size()) != values.size())
            fail("short-values", cat(what, ": ", types::formatCode(code)));
    }
    count("verified");
}

struct Builder
{
    Rng& rng;
    const fs::path dir;
    unsigned files = 0;
    bool text_ok   = true;
    std::string log;

    void fill_md(const Entry& e, Metadata& md)
    {
        for (const auto& i : e.items)
            md.set(*i.second);
        if (e.single)
        {
            md.set(types::Reftime::createPosition(e.begin));
            md.set_source(types::Source::createBlobUnlocked(DataFormat::GRIB, "/", "foo", rng.below(1000), e.size));
        }
    }

    void add_entry(Summary& s, const Entry& e)
    {
        Metadata md;
        fill_md(e, md);
        if (e.single)
            s.add(md);
        else
        {
            summary::Stats st;
            st.count = e.count;
            st.size  = e.size;
            st.begin = e.begin;
            st.end   = e.end;
            s.add(md, st);
        }
    }

    /// Store s somewhere, and load it adding to the content of dest
    void through(const Summary& s, Summary& dest, unsigned how)
    {
        fs::path fn = dir / cat("s", ++files);
        switch (how)
        {
            case 0: // Copy
                dest.add(s);
                break;
            case 1:
            case 2: { // Encoded in memory
                auto enc = s.encode(how == 2);
                core::BinaryDecoder dec(enc);
                dest.read(dec, "memory");
                if (dec.size)
                    fail("leftover", "bytes left after reading a summary");
                break;
            }
            case 3: { // Atomically written file
                Summary copy;
                copy.add(s);
                copy.writeAtomically(fn);
                dest.read_file(fn);
                break;
            }
            case 4: { // Written to a file, read from an abstract file
                {
                    utils::sys::File out(fn, O_WRONLY | O_CREAT);
                    s.write(out);
                    out.close();
                }
                auto text = read_text(fn);
                core::MemoryFile in(text.data(), text.size(), "test");
                if (!dest.read(in))
                    fail("eof", "end of file reading a summary");
                if (dest.read(in))
                    fail("not-eof", "a second summary was read from a file with one");
                break;
            }
            case 5: { // Streamed twice to a file: read one at a time
                std::vector<uint8_t> buf;
                auto out = StreamOutput::create(buf);
                s.write(*out);
                s.write(*out);
                write_text(fn, std::string(buf.begin(), buf.end()));
                utils::sys::File in(fn, O_RDONLY);
                Summary other;
                if (!dest.read(in) || !other.read(in))
                    fail("eof", "end of file reading a sequence of summaries");
                if (!(other == s))
                    fail("second-differs", "second summary of a file differs");
                Summary none;
                if (none.read(in))
                    fail("not-eof", "a third summary was read from a file with two");
                break;
            }
            case 6: { // JSON
                std::stringstream out;
                structured::JSON j(out);
                s.serialise(j, structured::keys_json);
                structured::Memory mem;
                structured::JSON::parse(out.str(), mem);
                dest.read(structured::keys_json, mem.root());
                break;
            }
            case 7: { // Yaml
                auto y = s.to_yaml();
                if (y.find('#') != std::string::npos)
                {
                    dest.add(s);
                    return;
                }
                auto in = core::LineReader::from_chars(y.data(), y.size());
                dest.readYaml(*in, "test");
                break;
            }
        }
        count(cat("through_", how));
    }

    /// Build the summary of entries with a random sequence of operations
    void build(Summary& s, std::vector<const Entry*> entries, unsigned depth)
    {
        if (entries.size() < 2 || depth > 3 || rng.chance(25))
        {
            rng.shuffle(entries);
            for (auto e : entries)
                add_entry(s, *e);
            count("added", entries.size());
            return;
        }
        unsigned parts = rng.range(1, 4);
        std::vector<std::vector<const Entry*>> p(parts);
        for (auto e : entries)
            p[rng.below(parts)].push_back(e);
        for (auto& x : p)
            switch (rng.below(4))
            {
                case 0: build(s, x, depth + 1); break;
                default: {
                    Summary part;
                    build(part, x, depth + 1);
                    if (rng.chance(20))
                        // Nothing to see: visits reorganise the content
                        part.count(), part.match(Matcher());
                    through(part, s, rng.below(8));
                    break;
                }
            }
        count("merged", parts);
    }
};

struct Filter
{
    std::string text;
    std::map<TypeCode, std::shared_ptr<matcher::OR>> parts;
    std::function<bool(const St&)> reftime;
};

void c23(Case& c)
{
    auto& rng     = c.rng;
    bool extremes = rng.chance(40), wide = rng.chance(30);
    // Values to choose from
    std::map<TypeCode, std::vector<std::shared_ptr<types::Type>>> pool;
    for (auto code : codes)
    {
        // There are no values of type bbox, which is only read from old summaries
        if (code == TYPE_BBOX || rng.chance(30))
            continue;
        for (unsigned k = rng.range(1, 4); k; --k)
        {
            std::shared_ptr<types::Type> v = gen_value(rng, code, extremes);
            // Values that are equal although encoded differently (2h and
            // 120m) may be counted together
            bool have = false;
            for (const auto& o : pool[code])
                have = have || *o == *v;
            if (!have)
                pool[code].push_back(v);
        }
    }
    bool many  = rng.chance(10);
    unsigned n = many ? rng.range(200, 1500) : rng.below(40);
    Time base  = gen_time(rng, wide);
    std::vector<Entry> all;
    for (unsigned i = 0; i < n; ++i)
    {
        Entry e;
        for (const auto& p : pool)
            if (!rng.chance(15))
                e.items[p.first] = rng.pick(p.second);
        e.single = !rng.chance(20);
        e.begin  = wide && rng.chance(20) ? gen_time(rng, true) : add_seconds(base, rng.range(0, 86400 * 40) - 86400 * 20);
        if (e.begin.ye < 2 || e.begin.ye > 9998)
            e.begin = Time(2000, 1, 1 + rng.below(28), rng.below(24), 0, 0);
        e.end = e.begin;
        if (rng.chance(30) && i)
            e.begin = e.end = all[rng.below(i)].begin;
        e.size = rng.chance(10) ? rng.next() % (1ull << 50) : rng.below(5000);
        if (!e.single)
        {
            e.count = rng.chance(10) ? rng.range(1, 1 << 20) : rng.range(1, 50);
            e.end   = add_seconds(e.begin, rng.chance(30) ? 0 : rng.below(86400 * 30));
            if (rng.chance(10))
                e.size = 0;
        }
        all.push_back(e);
    }
    std::vector<const Entry*> ptrs;
    for (const auto& e : all)
        ptrs.push_back(&e);
    Map exp = model(ptrs);
    context(cat(n, " entries, ", exp.size(), " combinations, ", pool.size(), " types", wide ? " wide" : "", extremes ? " extremes" : ""));
    Builder b{rng, c.dir};
    Summary s1, s2;
    b.build(s1, ptrs, 0);
    b.build(s2, ptrs, 0);
    if (rng.chance(50))
    {
        verify("built", exp, s1);
        verify("built again", exp, s2);
        if (!(s1 == s2) || !(s2 == s1) || s1 != s2)
            fail("equal-differ", "summaries of the same items are not equal");
    }
    else
    {
        if (!(s1 == s2) || !(s2 == s1))
            fail("equal-differ", "summaries of the same items are not equal");
        verify("built", exp, s1);
        verify("built again", exp, s2);
    }
    count("evals");
    distinct(cat(n, "/", exp.size(), "/", pool.size(), "/", s1.size()));
    // Each way to store it
    for (unsigned how = 0; how < 8; ++how)
    {
        Summary d;
        b.through(s1, d, how);
        verify(cat("stored", how), exp, d);
        if (!(d == s1) || !(s1 == d))
            fail("stored-not-equal", cat("stored with method ", how));
    }
    {
        // Added to itself as a copy
        Summary d;
        d.add(s1);
        d.add(s2);
        Map twice = exp;
        for (auto& x : twice)
        {
            x.second.count *= 2;
            x.second.size *= 2;
        }
        verify("doubled", twice, d);
        if (!exp.empty() && d == s1)
            fail("different-equal", "a summary is equal to its double");
        d.clear();
        verify("cleared", Map(), d);
        b.through(s2, d, rng.below(8));
        verify("reused", exp, d);
    }
    // What is different is not equal
    for (unsigned k = 0; k < 6 && n; ++k)
    {
        std::vector<Entry> other = all;
        unsigned i               = rng.below(n);
        switch (rng.below(6))
        {
            case 0: other.erase(other.begin() + i); break;
            case 1: other[i].size += 1ull << rng.below(45); break;
            case 2: other[i].single = false; other[i].count += 1ull << rng.below(20); break;
            case 3: other[i].begin = other[i].end = add_seconds(other[i].begin, rng.range(-100000, 100000)); break;
            case 4:
                if (!other[i].items.empty())
                    other[i].items.erase(other[i].items.begin());
                break;
            case 5:
                if (!pool.empty())
                {
                    auto p = pool.begin();
                    std::advance(p, rng.below(pool.size()));
                    other[i].items[p->first] = rng.pick(p->second);
                }
                break;
        }
        std::vector<const Entry*> optrs;
        for (const auto& e : other)
            optrs.push_back(&e);
        Map oexp = model(optrs);
        Summary o;
        b.build(o, optrs, 2);
        bool same = oexp == exp;
        if ((o == s1) != same || (s1 == o) != same || (s2 != o) == same)
            fail(same ? "equal-differ" : "different-equal", cat("comparison of a summary with a changed one: same=", same, " ", s1 == o, " ", o == s1));
        count(same ? "compared_same" : "compared_different");
    }
    // Keep some types only
    for (unsigned k = 0; k < 3; ++k)
    {
        std::set<TypeCode> only;
        for (auto code : codes)
            if (rng.chance(40))
                only.insert(code);
        std::set<types::Code> keep(only.begin(), only.end());
        if (rng.chance(20))
            keep.insert(TYPE_REFTIME);
        Summary d;
        d.add(s1, keep);
        verify("projected", model(ptrs, &only), d);
        count("projected");
    }
    // Filters
    for (unsigned k = 0; k < 8; ++k)
    {
        std::string text;
        std::vector<std::pair<TypeCode, std::set<std::string>>> parts;
        for (const auto& p : pool)
        {
            if (rng.chance(55))
                continue;
            std::string t;
            std::set<std::string> exact;
            for (unsigned a = rng.range(1, 2); a; --a)
            {
                auto v = rng.pick(p.second);
                std::string q;
                try
                {
                    q = v->exactQuery();
                    auto m = matcher::Parser().parse(cat(v->tag(), ":", q));
                    // Queries made of words can have separators
                    if (!m(*v) || q.find_first_of(";\n") != std::string::npos || q.find(" or ") != std::string::npos)
                        continue;
                }
                catch (std::exception&)
                {
                    continue;
                }
                t += (t.empty() ? "" : " or ") + q;
            }
            if (t.empty())
                continue;
            text += (text.empty() ? "" : "; ") + types::tag(p.first) + ":" + t;
        }
        std::function<bool(const St&)> in_time = [](const St&) { return true; };
        if (rng.chance(50) && n)
        {
            const auto& r = all[rng.below(n)];
            long long t1  = to_secs(rng.chance(50) ? r.begin : r.end) + rng.range(-1, 1);
            long long t2  = t1 + (rng.chance(50) ? rng.below(3) : rng.below(86400 * 10));
            if (from_secs(t1).ye > 1 && from_secs(t2).ye < 9999)
            {
                text += (text.empty() ? "" : "; ");
                auto f = [](long long t) {
                    auto s = from_secs(t).to_sql();
                    return s;
                };
                switch (rng.below(6))
                {
                    case 0:
                        text += "reftime:>=" + f(t1);
                        in_time = [=](const St& s) { return to_secs(s.end) >= t1; };
                        break;
                    case 1:
                        text += "reftime:>" + f(t1);
                        in_time = [=](const St& s) { return to_secs(s.end) > t1; };
                        break;
                    case 2:
                        text += "reftime:<=" + f(t1);
                        in_time = [=](const St& s) { return to_secs(s.begin) <= t1; };
                        break;
                    case 3:
                        text += "reftime:<" + f(t1);
                        in_time = [=](const St& s) { return to_secs(s.begin) < t1; };
                        break;
                    case 4:
                        text += "reftime:=" + f(t1);
                        in_time = [=](const St& s) { return to_secs(s.begin) <= t1 && to_secs(s.end) >= t1; };
                        break;
                    case 5:
                        text += "reftime:>=" + f(t1) + ",<=" + f(t2);
                        in_time = [=](const St& s) { return to_secs(s.begin) <= t2 && to_secs(s.end) >= t1; };
                        break;
                }
            }
        }
        Matcher m = matcher::Parser().parse(text);
        Map fexp;
        for (const auto& x : exp)
        {
            bool ok = in_time(x.second);
            for (auto code : codes)
                if (auto o = m.get(code))
                {
                    auto i = x.second.e.items.find(code);
                    ok     = ok && i != x.second.e.items.end() && o->matchItem(*i->second);
                }
            if (ok)
                fexp.insert(x);
        }
        Summary f;
        Collect already;
        s1.filter(m, f);
        verify(cat("filtered by ", text), fexp, f);
        if (s2.match(m) != !fexp.empty() && !(exp.empty() && text.empty()))
            fail("match", cat("match() is ", s2.match(m), " for ", text, " which selects ", fexp.size()));
        Collect cv;
        s2.visitFiltered(m, cv);
        compare("visited " + text, fexp, cv);
        if (fexp.size() > 1)
        {
            Collect st;
            st.stop_after = rng.range(1, fexp.size());
            bool r        = s2.visitFiltered(m, st);
            if (st.seen != st.stop_after || r)
                fail("stop", cat("visit went on after a stop: ", st.seen, " of ", st.stop_after, " result ", r));
            count("visit_stopped");
        }
        // What is filtered is added to what is there
        Summary acc;
        acc.add(s2);
        s1.filter(m, acc);
        Map aexp = exp;
        for (auto& x : aexp)
            if (fexp.count(x.first))
            {
                x.second.count *= 2;
                x.second.size *= 2;
            }
        verify("accumulated", aexp, acc);
        count("filtered");
        if (!fexp.empty() && fexp.size() < exp.size())
            count("filtered_selective");
    }
    // Extend time spans
    if (n)
    {
        const auto& r = all[rng.below(n)];
        core::Interval iv(add_seconds(r.begin, -(int)rng.below(100)), add_seconds(r.end, rng.below(100)));
        long long b0 = to_secs(iv.begin), e0 = to_secs(iv.end);
        s1.expand_date_range(iv);
        long long mb = b0, me = e0;
        for (const auto& x : exp)
        {
            mb = std::min(mb, (long long)to_secs(x.second.begin));
            me = std::max(me, (long long)to_secs(x.second.end));
        }
        if (to_secs(iv.begin) != mb || to_secs(iv.end) < me || to_secs(iv.end) > me + 1)
            fail("expand", cat("interval extended to ", iv.to_string()));
        count("expanded");
    }
    sample(context_ref());
}

} // namespace

int main(int argc, const char* argv[]) { return run_main(argc, argv, {{"C23", c23}}); }
