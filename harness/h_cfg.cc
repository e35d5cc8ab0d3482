// C27: configuration means the same after saving and reloading
#include "common.h"
#include <arki/core/cfg.h>
#include <arki/matcher.h>
#include <arki/matcher/parser.h>
#include <unistd.h>

using namespace arki;
using namespace vh;
namespace cfg = arki::core::cfg;
namespace fs  = std::filesystem;

namespace {

typedef std::map<std::string, std::string> Sec;
typedef std::map<std::string, Sec> Secs;

struct Gen
{
    Rng& rng;
    const std::string word = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-";

    std::string chars(const std::string& set, unsigned n)
    {
        std::string r;
        while (n--)
            r += set[rng.below(set.size())];
        return r;
    }
    std::string name() { return chars(word, rng.range(1, rng.chance(10) ? 40 : 6)); }
    std::string key()
    {
        if (rng.chance(40))
            return rng.pick({"name", "path", "type", "filter", "archive age", "delete age", "unique", "index", "format", "step"});
        std::string r = name();
        while (rng.chance(25))
            r += chars(rng.chance(80) ? " " : " \t", rng.range(1, 2)) + name();
        return r;
    }
    std::string value()
    {
        static const std::vector<std::string> fixed = {
            "reftime, origin, product; level", "origin:GRIB1,200", "a = b", "[section]", "# not a comment", "; not a comment", "\"",
            "\"\"",  "\"quoted\"", "\"half", "half\"", " \"x\" ", "'single'", "=", "==", "a;b#c", "x\\", "\\n", "\xc3\xa8 utf8", "0", "yes",
            " leading", "trailing ", "\ttab\t", "  ", "\" \""};
        if (rng.chance(45))
            return rng.pick(fixed);
        static const std::string any = word + " \t!\"#$%&'()*+,/:;<=>?@[\\]^`{|}~" + "\xc3\xa8";
        return chars(any, rng.below(rng.chance(5) ? 3000 : 20));
    }
    Sec section()
    {
        Sec r;
        for (unsigned n = rng.below(rng.chance(5) ? 60 : 8); n; --n)
            r[key()] = rng.chance(6) ? "" : value();
        return r;
    }
    std::string sp() { return chars(" \t", rng.chance(50) ? 0 : rng.range(1, 3)); }
    std::string junk()
    {
        std::string r;
        while (rng.chance(25))
            switch (rng.below(4))
            {
                case 0: r += "\n"; break;
                case 1: r += sp() + "\n"; break;
                default: r += sp() + (rng.chance(50) ? "#" : ";") + chars(word + " =[]\"#;", rng.below(20)) + "\n"; break;
            }
        return r;
    }
    static bool needs_quotes(const std::string& v)
    {
        return !v.empty() && (isspace((unsigned char)v[0]) || isspace((unsigned char)v.back()) || (v[0] == '"' && v.back() == '"'));
    }
    std::string assignment(const std::string& k, const std::string& v)
    {
        std::string q = needs_quotes(v) || rng.chance(30) ? "\"" : "";
        return sp() + k + sp() + "=" + sp() + q + v + q + sp() + "\n";
    }
    /// A text with this content
    std::string text(const Sec& s)
    {
        std::vector<std::string> blocks;
        for (const auto& i : s)
            blocks.push_back(i.first);
        rng.shuffle(blocks);
        std::string r = junk();
        for (const auto& k : blocks)
        {
            // The last assignment is the one that counts
            if (rng.chance(8))
            {
                r += assignment(k, value());
                count("overridden");
            }
            r += assignment(k, s.at(k)) + junk();
        }
        return r;
    }
    std::string header(const std::string& name) { return "[" + sp() + name + sp() + "]" + "\n"; }
    std::string text(const Secs& s)
    {
        std::vector<std::string> names;
        for (const auto& i : s)
            names.push_back(i.first);
        rng.shuffle(names);
        std::string r = junk(), later;
        for (const auto& n : names)
        {
            if (rng.chance(15))
            {
                // In two parts
                Sec a, b;
                for (const auto& i : s.at(n))
                    (rng.chance(50) ? a : b).insert(i);
                r += header(n) + text(a);
                later += header(n) + text(b);
                count("split_sections");
            }
            else
                r += header(n) + text(s.at(n));
        }
        return r + later;
    }
};

Sec get(const cfg::Section& s)
{
    Sec r;
    for (const auto& i : s)
        r.insert(i);
    return r;
}

Secs get(const cfg::Sections& s)
{
    Secs r;
    for (const auto& i : s)
        r[i.first] = get(*i.second);
    return r;
}

std::string str(const Sec& s)
{
    std::string r = "{";
    for (const auto& i : s)
        r += cat("<", i.first, ">=<", i.second, "> ");
    return r + "}";
}
std::string str(const Secs& s)
{
    std::string r;
    for (const auto& i : s)
        r += cat("[", i.first, "]", str(i.second), " ");
    return r;
}

/// Keys without a value are not written
Sec written(Sec s)
{
    for (auto i = s.begin(); i != s.end();)
        if (i->second.empty())
            i = s.erase(i);
        else
            ++i;
    return s;
}
Secs written(Secs s)
{
    for (auto& i : s)
        i.second = written(i.second);
    return s;
}

void cut_newline(Rng& rng, std::string& t)
{
    if (!t.empty() && t.back() == '\n' && rng.chance(40))
    {
        t.pop_back();
        count("no_final_newline");
    }
}

template <typename T> std::string dumped(const T& s, const fs::path& fn)
{
    FILE* f = fopen(fn.c_str(), "w");
    s.dump(f);
    fclose(f);
    return read_text(fn);
}

template <typename T> std::shared_ptr<T> parse_somehow(Rng& rng, const std::string& text, const fs::path& fn, std::string& name)
{
    name = fn;
    switch (rng.below(4))
    {
        case 0: name = "memory buffer"; return T::parse(text);
        case 1: return T::parse(text, fn);
        case 2: {
            write_text(fn, text);
            utils::sys::File in(fn, O_RDONLY);
            return T::parse(in);
        }
        default: {
            write_text(fn, text);
            utils::sys::File in(fn, O_RDONLY);
            auto lr = core::LineReader::from_fd(in);
            return T::parse(*lr, fn);
        }
    }
}

template <typename T, typename M> void roundtrip(Rng& rng, const std::string& what, const M& model, const std::string& text, const fs::path& dir)
{
    context(what + ": " + text.substr(0, 600));
    std::string name;
    auto s = parse_somehow<T>(rng, text, dir / "a", name);
    if (get(*s) != model)
        fail("parsed-differs:" + what, cat("expected ", str(model), " got ", str(get(*s))));
    count("parsed");
    auto saved = s->to_string();
    if (rng.chance(30))
        saved = dumped(*s, dir / "d");
    else if (rng.chance(50))
    {
        std::stringstream out;
        s->write(out);
        saved = out.str();
    }
    auto s2 = parse_somehow<T>(rng, saved, dir / "b", name);
    if (get(*s2) != written(model))
        fail("saved-differs:" + what, cat("saved as ", saved.substr(0, 400), " expected ", str(model), " got ", str(get(*s2))));
    if (s2->to_string() != s->to_string())
        fail("saved-again:" + what, "saving again gives another text");
    count("saved");
    T copy(*s);
    if (get(copy) != model)
        fail("copy-differs:" + what, "");
    distinct(what + saved);
}

template <typename T> void malformed(Rng& rng, const std::string& what, const std::string& text, const fs::path& dir, Gen& g)
{
    static const std::vector<std::string> bad = {"foo", "= value", "foo bar", "f$o = bar", "[unclosed", "[bad name]", "[]", "[a/b]",
                                                 "key : value", "\"key\" = value", "key", "a=b=c" /* good */, " [x] = y", "+", "k\xc3\xa8y = v"};
    std::vector<std::string> lines;
    std::string cur;
    for (char c : text)
        if (c == '\n')
        {
            lines.push_back(cur);
            cur.clear();
        }
        else
            cur += c;
    if (!cur.empty())
        lines.push_back(cur);
    std::string l = rng.pick(bad);
    if (l == "a=b=c")
        return;
    bool section  = what == "section";
    unsigned pos  = rng.below(lines.size() + 1);
    if (section && rng.chance(20))
        l = "[" + g.name() + "]";
    if (!section && rng.chance(20))
    {
        // Assignments before any section
        pos = 0;
        l   = g.key() + " = " + g.value();
    }
    lines.insert(lines.begin() + pos, l);
    std::string t;
    for (const auto& x : lines)
        t += x + "\n";
    cut_newline(rng, t);
    context(what + " with malformed line " + l + ": " + t.substr(0, 600));
    std::string name, error;
    try
    {
        parse_somehow<T>(rng, t, dir / "m", name);
        fail("malformed-accepted:" + what, cat("line ", pos + 1, " is accepted: ", l));
    }
    catch (Failed&)
    {
        throw;
    }
    catch (std::exception& e)
    {
        error = e.what();
    }
    std::string exp = cat(name, ":", pos + 1, ":");
    if (error.compare(0, exp.size(), exp) != 0)
        fail("position:" + what, cat("the error for line ", pos + 1, " (", l, ") is: ", error, ", and does not start with ", exp));
    count("malformed");
}

void c27(Case& c)
{
    auto& rng = c.rng;
    Gen g{rng};
    // Section
    for (unsigned k = 0; k < 6; ++k)
    {
        Sec s  = g.section();
        auto t = g.text(s);
        cut_newline(rng, t);
        roundtrip<cfg::Section>(rng, "section", s, t, c.dir);
        malformed<cfg::Section>(rng, "section", t, c.dir, g);
        // Built by setting values
        cfg::Section b;
        Sec m;
        for (unsigned i = rng.below(20); i; --i)
        {
            std::string k = rng.chance(50) && !m.empty() ? m.begin()->first : g.key(), v = g.value();
            if (rng.chance(20))
            {
                b.unset(k);
                m.erase(k);
            }
            else if (rng.chance(20))
            {
                int n = rng.range(-1000000, 1000000);
                b.set(k, n);
                m[k] = std::to_string(n);
            }
            else
            {
                b.set(k, v);
                m[k] = v;
            }
            if (b.has(k) != (m.count(k) > 0) || b.value(k) != (m.count(k) ? m[k] : ""))
                fail("get", cat("key ", k, " value ", b.value(k)));
        }
        context("built " + str(m));
        auto p = cfg::Section::parse(b.to_string());
        if (get(b) != m || get(*p) != written(m))
            fail("saved-differs:built", cat("expected ", str(m), " got ", str(get(*p)), " from ", b.to_string()));
        count("built");
    }
    // Sections
    for (unsigned k = 0; k < 4; ++k)
    {
        Secs s;
        for (unsigned n = rng.below(6); n; --n)
            s[g.name()] = g.section();
        auto t = g.text(s);
        cut_newline(rng, t);
        roundtrip<cfg::Sections>(rng, "sections", s, t, c.dir);
        malformed<cfg::Sections>(rng, "sections", t, c.dir, g);
        cfg::Sections b;
        for (const auto& i : s)
        {
            auto sec = b.obtain(i.first);
            for (const auto& j : i.second)
                sec->set(j.first, j.second);
            if (b.section(i.first) != sec || b.obtain(i.first) != sec)
                fail("obtain", "sections are not found again");
        }
        if (b.section("not/there"))
            fail("section", "a section that is not there is found");
        context("built " + str(s));
        cfg::Sections copy(b), assigned;
        assigned = b;
        if (!s.empty())
            b.begin()->second->set("changed", "yes");
        if (get(copy) != s || get(assigned) != s)
            fail("copy-shares", "copies of a configuration change with it");
    }
    // Values of booleans
    {
        cfg::Section b;
        static const std::vector<std::pair<std::string, int>> vals = {{"yes", 1}, {"true", 1}, {"on", 1}, {"1", 1}, {"no", 0}, {"false", 0}, {"off", 0},
                                                                     {"0", 0},   {"", 0},     {"maybe", -1}, {"2", -1}, {"y", -1}};
        for (auto v : vals)
        {
            std::string t = v.first;
            for (auto& ch : t)
                if (rng.chance(30))
                    ch = toupper(ch);
            b.set("k", rng.chance(30) ? " " + t + " " : t);
            bool def = rng.chance(50);
            int got;
            try
            {
                got = b.value_bool("k", def);
            }
            catch (std::exception&)
            {
                got = -1;
            }
            if (got != v.second || b.value_bool("other", def) != def)
                fail("bool", cat("value ", t, " gives ", got));
        }
        count("bools");
    }
    // Dataset configurations, read from their directory or from a list of datasets
    {
        Secs all;
        std::map<std::string, Sec> indir;
        for (unsigned n = rng.range(1, 4); n; --n)
        {
            std::string name = "ds" + g.chars("abcdefgh0123_.-", rng.range(1, 8));
            if (all.count(name))
                continue;
            Sec s = g.section();
            s.erase("path");
            s.erase("type");
            s["type"]  = rng.pick({"iseg", "simple", "error", "duplicates", "outbound"});
            s["name"]  = rng.chance(50) ? name : g.value();
            fs::path d = c.dir / name;
            fs::create_directories(d);
            auto t = g.text(s);
            cut_newline(rng, t);
            write_text(d / "config", t);
            context("dataset " + t.substr(0, 600));
            auto got = dataset::Session::read_config(rng.chance(50) ? d : d / "config");
            Sec exp  = s;
            exp["name"] = name;
            exp["path"] = d;
            if (get(*got) != exp)
                fail("dataset-config", cat("expected ", str(exp), " got ", str(get(*got))));
            auto list = dataset::Session::read_configs(d);
            if (get(*list) != Secs{{name, exp}})
                fail("dataset-configs", cat("expected ", str(exp), " got ", str(get(*list))));
            all[name] = exp;
            count("dataset_configs");
        }
        auto t = g.text(all);
        cut_newline(rng, t);
        write_text(c.dir / "list.conf", t);
        context("list " + t.substr(0, 600));
        auto got = dataset::Session::read_configs(c.dir / "list.conf");
        if (get(*got) != all)
            fail("dataset-list", cat("expected ", str(all), " got ", str(get(*got))));
    }
    // Aliases
    {
        static const std::map<std::string, std::vector<std::string>> exprs = {
            {"origin", {"GRIB1,200", "GRIB1,98,,1", "BUFR,1"}},
            {"product", {"GRIB1,200,140,229", "GRIB1,,3"}},
            {"level", {"GRIB1,1", "GRIB1,100,500"}},
            {"timerange", {"GRIB1,0", "Timedef,1h"}},
            {"task", {"foo", "bar"}},
        };
        Secs al;
        std::map<std::string, std::string> expand; // alias query → expanded query
        for (const auto& e : exprs)
        {
            if (rng.chance(40))
                continue;
            for (unsigned n = rng.range(1, 3); n; --n)
            {
                std::string name = "a" + g.chars("abcdefgh", rng.range(1, 4));
                std::string v    = rng.pick(e.second);
                if (rng.chance(40))
                    v += " or " + rng.pick(e.second);
                al[e.first][name] = v;
            }
            for (const auto& i : al[e.first])
                expand[e.first + ":" + i.first] = e.first + ":" + i.second;
        }
        auto t = g.text(al);
        cut_newline(rng, t);
        context("aliases " + t.substr(0, 600));
        matcher::Parser p1, p2;
        p1.load_aliases(*cfg::Sections::parse(t));
        auto saved = p1.serialise_aliases()->to_string();
        cut_newline(rng, saved);
        p2.load_aliases(*cfg::Sections::parse(saved));
        matcher::Parser plain;
        for (const auto& e : expand)
        {
            auto want = plain.parse(e.second).toStringExpanded();
            auto g1 = p1.parse(e.first).toStringExpanded(), g2 = p2.parse(e.first).toStringExpanded();
            if (g1 != want || g2 != want)
                fail("alias", cat(e.first, " should be ", want, " and is ", g1, ", after saving ", g2));
            count("aliases");
        }
        // From a file, replacing what was there
        write_text(c.dir / "aliases", t);
        matcher::Parser p3;
        p3.load_aliases(*dataset::Session::read_configs(c.dir / "aliases"));
        if (p3.serialise_aliases()->to_string() != p1.serialise_aliases()->to_string())
            fail("alias-file", "aliases read from a file differ");
    }
    count("evals");
    sample(context_ref());
}

} // namespace

int main(int argc, const char* argv[]) { return run_main(argc, argv, {{"C27", c27}}); }
