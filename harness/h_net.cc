// Remote access to datasets through arki-server (C33)
#include "common_ds.h"
#include "zygote.h"
#include <set>
#include <arki/core/binary.h>
#include <arki/core/cfg.h>
#include <arki/core/curl.h>
#include <arki/dataset/http.h>
#include <arki/dataset/merged.h>
#include <arki/dataset/pool.h>
#include <arki/metadata/sort.h>
#include <arki/query.h>
#include <arki/query/progress.h>
#include <arki/stream.h>
#include <arki/types/source.h>
#include <arki/types/source/url.h>
#include <thread>
#include "sortspec.h"

using namespace vh;
using namespace arki;

namespace {

/// Metadata without their source
std::string md_text(const Metadata& md)
{
    std::string yaml = md.to_yaml(), res;
    std::istringstream in(yaml);
    std::string line;
    while (std::getline(in, line))
        if (line.compare(0, 7, "Source:") != 0)
            res += line + "\n";
    return res;
}

struct Answer
{
    std::vector<std::string> mds;
    std::vector<std::vector<uint8_t>> data;
    bool res = true;
    std::string error;
    unsigned after_stop = 0;
};

/// Run a query. Stop after the given number of items, if not negative
Answer ask(dataset::Reader& reader, const query::Data& q, int stop, std::function<void(Metadata&)> look = nullptr)
{
    Answer a;
    bool stopped = false;
    try
    {
        a.res = reader.query_data(q, [&](std::shared_ptr<Metadata> md) {
            if (stopped)
            {
                ++a.after_stop;
                return false;
            }
            a.mds.push_back(md_text(*md));
            if (q.with_data)
                a.data.push_back(md->get_data().read());
            if (look)
                look(*md);
            if (stop >= 0 && (int)a.mds.size() >= stop)
            {
                stopped = true;
                return false;
            }
            return true;
        });
    }
    catch (std::exception& e)
    {
        a.error = cat("error: ", e.what());
    }
    return a;
}

struct BytesAnswer
{
    std::vector<uint8_t> bytes;
    std::string error;
};

BytesAnswer ask_bytes(dataset::Reader& reader, const query::Bytes& q)
{
    BytesAnswer a;
    try
    {
        auto out = StreamOutput::create(a.bytes);
        reader.query_bytes(q, *out);
    }
    catch (std::exception& e)
    {
        a.error = cat("error: ", e.what());
    }
    return a;
}

std::string desc_answer(const Answer& a)
{
    return cat(a.mds.size(), " items", a.res ? "" : ", stopped", a.error.empty() ? "" : ", " + a.error);
}

struct Net
{
    Case& c;
    Rng& rng;
    std::vector<std::unique_ptr<Store>> stores;
    std::shared_ptr<core::cfg::Sections> sections;
    std::filesystem::path cfgpath, aliaspath;
    std::string aliases;
    std::unique_ptr<Server> server;
    std::string log;

    explicit Net(Case& c) : c(c), rng(c.rng) {}

    std::string ctx() const { return log; }

    void build(unsigned nds)
    {
        sections = std::make_shared<core::cfg::Sections>();
        ConfGen cg;
        cg.unique_by_task = true;
        unsigned uid      = 1;
        for (unsigned i = 0; i < nds; ++i)
        {
            auto conf = cg.make(rng);
            conf.name = cat("ds", i, rng.chance(10) ? "-x" : "");
            std::filesystem::create_directories(c.dir / conf.name);
            auto s        = std::make_unique<Store>(rng, conf, c.dir / conf.name);
            s->gen.next_uid = uid;
            if (rng.chance(8))
                s->gen.max_filler = 120000;
            History h;
            h.max_batches = 2;
            h.max_items   = 12;
            h.run(*s);
            if (rng.chance(20))
                move_to_archive(*s, rng.below(20));
            uid = s->gen.next_uid + 1000;
            auto sec = std::make_shared<core::cfg::Section>(*conf.cfg(c.dir / conf.name));
            for (const auto& o : std::initializer_list<std::pair<const char*, const char*>>{
                     {"description", "some data"},
                     {"restrict", "a, b"},
                     {"postprocess", "same, size, fail, late, files"},
                     {"filter", "origin:GRIB1 or GRIB2"},
                     {"notes", "100% = of; # data"},
                     {"Mixed_Case", " \"quoted\" "}})
                if (rng.chance(o.first == std::string("postprocess") ? 90 : 30))
                    sec->set(o.first, o.second);
            sections->emplace(conf.name, sec);
            log += cat(log.empty() ? "" : "; ", conf.name, ": ", s->log);
            stores.emplace_back(std::move(s));
        }
        cfgpath = c.dir / "config";
        write_text(cfgpath, sections->to_string());
        if (rng.chance(60))
        {
            aliaspath = c.dir / "aliases";
            aliases   = "[origin]\nany = GRIB1 or GRIB2 or BUFR or ODIMH5\nfirst = GRIB1\n[reftime]\n";
            aliases += "[product]\nsome = GRIB1,,1 or BUFR\n";
            write_text(aliaspath, aliases);
        }
        server = std::make_unique<Server>(c.dir, cfgpath, aliaspath);
    }

    std::shared_ptr<dataset::Reader> local(Store& s)
    {
        return s.session->dataset(*sections->section(s.conf.name))->create_reader();
    }
};

void check_config(Net& n)
{
    auto remote = dataset::http::Reader::load_cfg_sections(n.server->url);
    if (remote->size() != n.sections->size())
        fail("config-sections", cat(remote->size(), " datasets announced, expected ", n.sections->size()));
    for (const auto& s : *n.sections)
    {
        auto r = remote->section(s.first);
        if (!r)
            fail("config-missing", cat(s.first, " is not in the configuration of the server"));
        auto one = dataset::http::Reader::load_cfg_section(n.server->url + "/dataset/" + s.first);
        for (auto& sec : {r, one})
        {
            const char* what = sec == r ? "server" : "dataset";
            for (const auto& v : *s.second)
            {
                if (v.first == "type" || v.first == "path" || v.first == "server")
                    continue;
                if (sec->value(v.first) != v.second)
                    violation(cat("config-value:", what), cat(s.first, ": ", v.first, " is announced as '", sec->value(v.first),
                                              "' instead of '", v.second, "'"));
                count("config_values");
            }
            if (sec->value("type") != "remote" || sec->value("path") != n.server->url + "/dataset/" + s.first ||
                sec->value("server") != n.server->url || sec->value("name") != s.first)
                violation("config-remote", cat("configuration of ", s.first, " is announced as ", sec->to_string()));
            for (const auto& v : *sec)
                if (!s.second->has(v.first) && v.first != "server" && v.first != "name")
                    violation("config-extra", cat("unexpected ", v.first, " in ", s.first));
        }
    }
    count("configs");
}

void compare(Net& n, const std::string& what, const Answer& l, const Answer& r, const std::string& q, bool with_data, int stop)
{
    auto desc = [&] { return cat(q, " on ", what, ": ", desc_answer(r), ", expected ", desc_answer(l), "; ", n.ctx()); };
    if (!r.error.empty())
    {
        if (l.error.empty())
            violation("remote-error", desc());
        else
            count("errors_reported");
        return;
    }
    if (!l.error.empty())
    {
        violation("error-not-reported", desc());
        return;
    }
    if (r.after_stop)
        violation("after-stop", desc());
    if (r.mds.size() != l.mds.size())
        violation(r.mds.size() < l.mds.size() ? "missing" : "extra", desc());
    else
    {
        for (unsigned i = 0; i < r.mds.size(); ++i)
            if (r.mds[i] != l.mds[i])
            {
                violation(std::set<std::string>(r.mds.begin(), r.mds.end()) == std::set<std::string>(l.mds.begin(), l.mds.end())
                              ? "order" : "metadata",
                          cat("item ", i, ": ", r.mds[i], " instead of ", l.mds[i], "; ", desc()));
                break;
            }
        if (with_data && r.data != l.data)
            violation("data", desc());
    }
    if (r.res != l.res)
        violation("result", cat("query returned ", r.res, " instead of ", l.res, "; ", desc()));
    count("items", r.mds.size());
    if (stop >= 0)
        count("stopped");
    if (with_data)
        count("with_data");
}

std::string simple_get(const std::string& url, long& code, const std::string& method = "GET",
                       const std::vector<std::pair<std::string, std::string>>& post = {})
{
    struct R : core::curl::BufState<std::string>
    {
        using BufState::BufState;
    };
    core::curl::CurlEasy curl;
    curl.reset();
    R req(curl);
    req.set_url(url);
    req.set_method(method);
    for (const auto& p : post)
        req.post_data.add_string(p.first, p.second);
    try
    {
        req.perform();
        code = req.response_code;
        return req.buf;
    }
    catch (std::exception& e)
    {
        code = req.response_code;
        return e.what();
    }
}

void check_dataset(Net& n, Store& s, std::shared_ptr<dataset::Session> rsession,
                   std::shared_ptr<core::cfg::Section> rcfg, unsigned rounds)
{
    auto& rng   = n.rng;
    auto rds    = rsession->dataset(*rcfg);
    auto remote = rds->create_reader();
    ExprGen eg(rng);
    for (const auto& i : s.live)
        eg.pool.push_back(i.second);
    if (eg.pool.empty())
        eg.pool.push_back(s.gen.make());
    for (unsigned round = 0; round < rounds; ++round)
    {
        auto expr = rng.chance(20) ? Expr{"", [](const Item&) { return true; }} : eg.make();
        // The local query uses the alias database of the server
        auto lmatcher = s.session->matcher(expr.text);
        auto rmatcher = rsession->matcher(expr.text);
        if (!n.aliases.empty() && rng.chance(20))
        {
            expr.text = rng.pick({"origin:any", "origin:first", "product:some", "origin:first;product:some"});
            expr.match = nullptr;
            matcher::Parser p;
            p.load_aliases(*core::cfg::Sections::parse(n.aliases, "aliases"));
            lmatcher = p.parse(expr.text);
            rmatcher = rsession->matcher(expr.text);
            auto exp = dataset::http::Reader::expandMatcher(expr.text, n.server->url);
            if (exp != lmatcher.toStringExpanded())
                violation("expand", cat(expr.text, " expanded as ", exp, " instead of ", lmatcher.toStringExpanded()));
            count("aliases");
        }
        auto local = n.local(s);
        count("evals");
        switch (rng.below(7))
        {
            case 0:
            case 1:
            case 2: {
                bool with_data = rng.chance(50);
                int stop       = rng.chance(20) ? rng.range(1, 6) : -1;
                query::Data lq(lmatcher, with_data), rq(rmatcher, with_data);
                std::string q = expr.text;
                if (rng.chance(40))
                {
                    auto sort = gen_sort(rng).text;
                    q += " sort " + sort;
                    lq.sorter = metadata::sort::Compare::parse(sort);
                    rq.sorter = metadata::sort::Compare::parse(sort);
                    count("sorted");
                }
                auto l = ask(*local, lq, stop);
                auto r = ask(*remote, rq, stop, [&](Metadata& md) {
                    if (with_data)
                        return;
                    if (md.source().style() != types::Source::Style::URL)
                        violation("source", cat("source of remote data is ", md.source().to_string()));
                    else
                    {
                        auto url = types::Source::createURL(md.source().format, n.server->url + "/dataset/" + s.conf.name);
                        if (md.source() != *url)
                            violation("source-url", cat("source of remote data is ", md.source().to_string()));
                    }
                });
                // On its own, the local answer is decided by other properties
                if (expr.match && stop < 0)
                {
                    unsigned expected = 0;
                    for (const auto& i : s.live)
                        expected += expr.match(i.second);
                    if (l.error.empty() && l.mds.size() != expected)
                        count("local_differs");
                }
                compare(n, s.conf.name, l, r, cat("query ", q, " with_data ", with_data, " stop ", stop), with_data, stop);
                distinct(cat(n.c.index, " ", q, with_data, stop));
                break;
            }
            case 3:
            case 4: {
                Summary l, r;
                local->query_summary(lmatcher, l);
                remote->query_summary(rmatcher, r);
                auto diff = diff_summaries(summary_map(l), summary_map(r));
                if (!diff.empty())
                    violation("summary", cat("summary of ", expr.text, " on ", s.conf.name, ": ", diff, "; ", n.ctx()));
                count("summaries");
                distinct(cat(n.c.index, " summary ", expr.text));
                break;
            }
            default: {
                query::Bytes lq, rq;
                std::string command;
                if (rng.chance(40))
                {
                    lq.setData(lmatcher);
                    rq.setData(rmatcher);
                }
                else
                {
                    command = rng.pick({"same", "size", "size a 'b c' d", "fail", "late", "notallowed"});
                    lq.setPostprocess(lmatcher, command);
                    rq.setPostprocess(rmatcher, command);
                }
                if (rng.chance(30))
                {
                    auto sort = gen_sort(rng).text;
                    lq.sorter = metadata::sort::Compare::parse(sort);
                    rq.sorter = metadata::sort::Compare::parse(sort);
                    command += " sort " + sort;
                }
                auto l    = ask_bytes(*local, lq);
                auto r    = ask_bytes(*remote, rq);
                auto desc = [&] {
                    return cat("bytes of ", expr.text, " command '", command, "' on ", s.conf.name, ": ", r.bytes.size(), " bytes ",
                               r.error, ", expected ", l.bytes.size(), " bytes ", l.error, "; ", n.ctx());
                };
                if (l.error.empty() != r.error.empty())
                    violation(l.error.empty() ? "bytes-error" : "bytes-error-not-reported", desc());
                else if (!l.error.empty())
                    count("errors_reported");
                else if (l.bytes != r.bytes)
                    violation("bytes", desc());
                count(command.empty() ? "bytes" : "postprocessed");
                distinct(cat(n.c.index, " bytes ", expr.text, command));
            }
        }
    }
}

/// Datasets whose data cannot be read any more: the error has to reach the client
void check_errors(Net& n, Store& s, std::shared_ptr<dataset::Session> rsession, std::shared_ptr<core::cfg::Section> rcfg)
{
    auto& rng = n.rng;
    for (const auto& rel : s.segments_on_disk())
    {
        auto p = s.path / rel;
        if (!std::filesystem::is_regular_file(p) || rng.chance(30))
            continue;
        auto size = std::filesystem::file_size(p);
        struct stat st;
        stat(p.c_str(), &st);
        std::filesystem::resize_file(p, rng.chance(30) ? 0 : rng.below(size));
        struct timespec ts[2] = {st.st_atim, st.st_mtim};
        utimensat(AT_FDCWD, p.c_str(), ts, 0);
    }
    auto remote = rsession->dataset(*rcfg)->create_reader();
    for (unsigned i = 0; i < 2; ++i)
    {
        auto local = n.local(s);
        count("evals");
        if (rng.below(2))
        {
            query::Data q(Matcher(), true);
            auto l = ask(*local, q, -1);
            auto r = ask(*remote, q, -1);
            if (!l.error.empty())
                count("damaged");
            compare(n, s.conf.name, l, r, "query of damaged data", true, -1);
        }
        else
        {
            query::Bytes q;
            if (rng.below(2))
                q.setData(Matcher());
            else
                q.setPostprocess(Matcher(), "same");
            auto l = ask_bytes(*local, q);
            auto r = ask_bytes(*remote, q);
            if (!l.error.empty())
                count("damaged");
            if (l.error.empty() != r.error.empty())
                violation(l.error.empty() ? "bytes-error" : "bytes-error-not-reported",
                          cat("bytes of damaged data: ", r.bytes.size(), " bytes ", r.error, ", expected ", l.bytes.size(),
                              " bytes ", l.error, "; ", n.ctx()));
            else if (l.error.empty() && l.bytes != r.bytes)
                violation("bytes", cat("bytes of damaged data: ", n.ctx()));
        }
    }
}

void check_http(Net& n)
{
    auto& rng = n.rng;
    auto& s   = *rng.pick({n.stores[0].get(), n.stores[n.stores.size() - 1].get()});
    auto base = n.server->url + "/dataset/" + s.conf.name;
    long code = 0;
    struct T
    {
        std::string url, method;
        std::vector<std::pair<std::string, std::string>> post;
        long code;
    };
    for (const auto& t : std::initializer_list<T>{
             {n.server->url + "/dataset/nonexistent/query", "POST", {}, 404},
             {n.server->url + "/dataset/nonexistent/summary", "POST", {}, 404},
             {n.server->url + "/dataset/nonexistent/config", "GET", {}, 404},
             {n.server->url + "/nothing/here", "GET", {}, 404},
             {base + "/query", "POST", {{"style", "strange"}}, 404},
             {base + "/query", "GET", {}, 405},
             {n.server->url + "/config", "POST", {}, 405},
             {base + "/query", "POST", {{"query", "origin:NONE,,"}}, 500},
             {base + "/summary", "POST", {{"query", "notatype:3"}}, 500},
             {base + "/summary", "POST", {{"query", "reftime:\u0416\u4e00"}}, 500},
             {base + "/query", "POST", {{"query", "origin:NONE,,\r\nX-Test: \u00e8"}}, 500},
             {base + "/query", "POST", {{"query", "area:\u0416\n"}, {"style", "data"}}, 500},
             {n.server->url, "GET", {}, 200},
             {base, "GET", {}, 200}})
    {
        if (rng.chance(60))
            continue;
        code     = 0;
        auto res = simple_get(t.url, code, t.method, t.post);
        if (code != t.code)
            violation("status", cat(t.method, " ", t.url.substr(n.server->url.size()), " gave status ", code, " instead of ", t.code,
                                    ": ", res.substr(0, 200)));
        if (code == 500 && res.find("got response code 500: ") == std::string::npos)
            violation("status-message", cat(t.method, " ", t.url.substr(n.server->url.size()), " error is reported as ", res.substr(0, 200)));
        count("statuses");
    }
    // Summaries in other formats
    auto local = n.local(s);
    Summary l;
    local->query_summary(Matcher(), l);
    if (rng.below(2))
    {
        auto yaml = simple_get(base + "/summary", code);
        // The order of items depends on where they are in memory
        auto blocks = [](const std::string& y) {
            std::multiset<std::string> res;
            size_t pos = 0;
            while (pos < y.size())
            {
                auto end = y.find("\nSummaryItem:", pos);
                end      = end == std::string::npos ? y.size() : end + 1;
                res.insert(y.substr(pos, end - pos));
                pos = end;
            }
            return res;
        };
        if (code != 200 || blocks(yaml) != blocks(l.to_yaml()))
            violation("summary-yaml", cat("status ", code, ": ", yaml.substr(0, 300), " instead of ", l.to_yaml().substr(0, 300), n.ctx()));
        count("summary_yaml");
    }
    if (rng.below(2))
    {
        auto buf = simple_get(base + "/summary?style=binary", code);
        Summary r;
        std::vector<uint8_t> b(buf.begin(), buf.end());
        if (code == 200)
        {
            core::BinaryDecoder dec(b);
            r.read(dec, "summary");
        }
        auto diff = diff_summaries(summary_map(l), summary_map(r));
        if (code != 200 || !diff.empty())
            violation("summary-get", cat("status ", code, " ", diff));
    }
    // The alias database
    matcher::Parser a, b;
    a.load_remote_aliases(n.server->url);
    if (!n.aliases.empty())
    {
        b.load_aliases(*core::cfg::Sections::parse(n.aliases, "aliases"));
        if (a.serialise_aliases()->to_string() != b.serialise_aliases()->to_string())
            violation("aliases", cat("aliases of the server: ", a.serialise_aliases()->to_string(), " instead of ",
                                     b.serialise_aliases()->to_string()));
        count("alias_databases");
    }
}

/// All the datasets of a server at once, and query macros
void check_merged(Net& n, std::shared_ptr<dataset::Session> rsession)
{
    auto& rng   = n.rng;
    auto lpool  = std::make_shared<dataset::Pool>(n.stores[0]->session);
    auto rpool  = std::make_shared<dataset::Pool>(rsession);
    auto remote = dataset::http::Reader::load_cfg_sections(n.server->url);
    for (const auto& s : *n.sections)
        lpool->add_dataset(*s.second);
    for (const auto& s : *remote)
        rpool->add_dataset(*s.second, rng.below(2));
    std::shared_ptr<dataset::Reader> l, r;
    std::string what;
    bool with_data = rng.below(2);
    bool ordered   = true;
    if (rng.below(2))
    {
        what    = "merged";
        ordered = false;
        l       = lpool->merged()->create_reader();
        r       = rpool->merged()->create_reader();
    }
    else
    {
        auto& s = *n.stores[rng.below(n.stores.size())];
        what    = "noop " + s.conf.name;
        l       = n.local(s);
        r       = rpool->querymacro("noop", s.conf.name)->create_reader();
    }
    count("evals");
    if (rng.chance(65))
    {
        query::Data q(Matcher(), with_data);
        auto la = ask(*l, q, -1), ra = ask(*r, q, -1);
        if (!ordered)
            for (auto a : {&la, &ra})
            {
                std::sort(a->mds.begin(), a->mds.end());
                std::sort(a->data.begin(), a->data.end());
            }
        compare(n, what, la, ra, cat("query of ", what), with_data, -1);
    }
    else
    {
        Summary ls, rs;
        l->query_summary(Matcher(), ls);
        r->query_summary(Matcher(), rs);
        auto diff = diff_summaries(summary_map(ls), summary_map(rs));
        if (!diff.empty())
            violation("summary", cat("summary of ", what, ": ", diff, "; ", n.ctx()));
    }
    count(what == "merged" ? "merged" : "macros");
    distinct(cat(n.c.index, " ", what));
}

void c33(Case& c)
{
    setenv("ARKI_POSTPROC", Zygote::postproc_dir().c_str(), 1);
    Net n(c);
    auto& rng = c.rng;
    n.build(rng.range(1, 3));
    context(n.ctx());
    check_config(n);
    auto rsession = std::make_shared<dataset::Session>(false);
    rsession->load_remote_aliases(n.server->url);
    auto remote = dataset::http::Reader::load_cfg_sections(n.server->url);
    for (auto& s : n.stores)
        check_dataset(n, *s, rsession, remote->section(s->conf.name), rng.range(2, opts.thorough ? 10 : 6));
    if (rng.chance(40))
        check_http(n);
    if (rng.chance(40))
        check_merged(n, rsession);
    if (rng.chance(30))
    {
        auto& s = *n.stores[rng.below(n.stores.size())];
        check_errors(n, s, rsession, remote->section(s.conf.name));
    }
    count("servers");
}

} // namespace

int main(int argc, const char* argv[]) { return run_main(argc, argv, {{"C33", c33}}); }
