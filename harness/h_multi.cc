// Processes that query, import into, check and maintain the same dataset (C17)
#include "common_ds.h"
#include "faults.h"
#include <algorithm>
#include <arki/core/time.h>
#include <arki/summary.h>
#include <csignal>
#include <dirent.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>

using namespace vh;
using namespace arki;
namespace fs = std::filesystem;
typedef metadata::Inbound::Result R;

namespace {

long long now_ns()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec * 1000000000ll + ts.tv_nsec;
}

/// What is known to all the processes of a case
struct Shared
{
    // Generation of MANIFEST files
    std::atomic<unsigned> gen[16];
};
Shared* shared = nullptr;
/// Give again to a MANIFEST the inode number it had two versions before, as some file systems do
bool reuse_inodes = false;

/// Delays injected at system calls
struct Delays
{
    bool on          = false;
    unsigned percent = 0;
    unsigned max_us  = 1;
    std::string hot; // kind of call which is often delayed for longer
    unsigned hot_us = 0;
    Rng rng{1};
    unsigned waits = 0, points = 0;
    std::vector<std::pair<long long, uint32_t>>* events = nullptr;
};
Delays delays;

void point(const char* kind, const std::string& path)
{
    auto& d = delays;
    if (!d.on)
        return;
    int e = errno;
    ++d.points;
    if (d.events && d.events->size() < 3000)
    {
        size_t slash = path.rfind('/');
        d.events->emplace_back(now_ns(), hash_str(kind + path.substr(slash == std::string::npos ? 0 : slash)));
    }
    unsigned us = 0;
    if (d.hot == kind && d.rng.chance(60))
        us = d.rng.below(d.hot_us);
    else if (d.rng.chance(d.percent))
        us = d.rng.below(d.max_us);
    if (us)
    {
        struct timespec ts = {us / 1000000, (us % 1000000) * 1000};
        nanosleep(&ts, nullptr);
    }
    errno = e;
}

struct Quiet
{
    bool a, b;
    Quiet() : a(delays.on), b(faults::ctl().on) { delays.on = faults::ctl().on = false; }
    ~Quiet()
    {
        delays.on         = a;
        faults::ctl().on = b;
    }
};

void fault_hook(const char* kind, const std::string& path, const std::string& dest) { point(kind, dest.empty() ? path : dest); }

void after_rename(const std::string& dest)
{
    if (shared && dest.size() > 8 && dest.compare(dest.size() - 8, 8, "MANIFEST") == 0)
        ++shared->gen[hash_str(dest) % 16];
}

} // namespace

// More of libc: what reads, and locks
extern "C" {
int vh_fcntl(int, int, ...) __asm__("fcntl");
int vh_fcntl64(int, int, ...) __asm__("fcntl64");
static int do_fcntl(int fd, int cmd, long arg)
{
    if (!delays.on || (cmd != F_OFD_SETLK && cmd != F_OFD_SETLKW && cmd != F_SETLK && cmd != F_SETLKW))
        return syscall(SYS_fcntl, fd, cmd, arg);
    auto* l       = (struct flock*)arg;
    bool release  = l->l_type == F_UNLCK;
    std::string p = faults::fd_path(fd);
    if (p.compare(0, faults::ctl().root.size(), faults::ctl().root) != 0)
        return syscall(SYS_fcntl, fd, cmd, arg);
    point(release ? "unlock" : "lock", p);
    if (cmd == F_OFD_SETLKW)
    {
        int r = syscall(SYS_fcntl, fd, F_OFD_SETLK, arg);
        if (r == 0 || (errno != EAGAIN && errno != EACCES))
        {
            point("locked", p);
            return r;
        }
        ++delays.waits;
    }
    int r = syscall(SYS_fcntl, fd, cmd, arg);
    point(release ? "unlocked" : "locked", p);
    return r;
}
#define VH_FCNTL()            \
    va_list ap;               \
    va_start(ap, cmd);        \
    long arg = va_arg(ap, long); \
    va_end(ap);
int VHN(vh_fcntl)(int fd, int cmd, ...) { VH_FCNTL() return do_fcntl(fd, cmd, arg); }
int VHN(vh_fcntl64)(int fd, int cmd, ...) { VH_FCNTL() return do_fcntl(fd, cmd, arg); }

static void fd_point(const char* kind, int fd)
{
    if (!delays.on)
        return;
    std::string p = faults::fd_path(fd);
    if (p.compare(0, faults::ctl().root.size(), faults::ctl().root) == 0)
        point(kind, p);
}
ssize_t vh_pread(int, void*, size_t, long) __asm__("pread");
ssize_t vh_pread64(int, void*, size_t, long) __asm__("pread64");
ssize_t vh_read(int, void*, size_t) __asm__("read");
ssize_t VHN(vh_pread)(int fd, void* b, size_t n, long o)
{
    fd_point("pread", fd);
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t VHN(vh_pread64)(int fd, void* b, size_t n, long o) { return vh_pread(fd, b, n, o); }
ssize_t VHN(vh_read)(int fd, void* b, size_t n)
{
    fd_point("read", fd);
    return syscall(SYS_read, fd, b, n);
}
static int do_stat(int d, const char* path, struct stat* st, int flags)
{
    if (!delays.on && !reuse_inodes)
        return syscall(SYS_newfstatat, d, path, st, flags);
    std::string p = faults::at_path(d, path);
    bool in       = p.compare(0, faults::ctl().root.size(), faults::ctl().root) == 0;
    if (in)
        point("stat", p);
    // It can be replaced meanwhile
    unsigned g = shared ? shared->gen[hash_str(p) % 16].load() : 0;
    int r      = syscall(SYS_newfstatat, d, path, st, flags);
    if (r == 0 && in && reuse_inodes && p.size() > 8 && p.compare(p.size() - 8, 8, "MANIFEST") == 0)
        st->st_ino = 7000 + 2 * (hash_str(p) % 16) + (g & 1);
    return r;
}
int vh_stat(const char*, struct stat*) __asm__("stat");
int vh_stat64(const char*, struct stat*) __asm__("stat64");
int vh_fstatat(int, const char*, struct stat*, int) __asm__("fstatat");
int vh_fstatat64(int, const char*, struct stat*, int) __asm__("fstatat64");
int VHN(vh_stat)(const char* p, struct stat* st) { return do_stat(AT_FDCWD, p, st, 0); }
int VHN(vh_stat64)(const char* p, struct stat* st) { return do_stat(AT_FDCWD, p, st, 0); }
int VHN(vh_fstatat)(int d, const char* p, struct stat* st, int f) { return do_stat(d, p, st, f); }
int VHN(vh_fstatat64)(int d, const char* p, struct stat* st, int f) { return do_stat(d, p, st, f); }
int vh_access(const char*, int) __asm__("access");
int VHN(vh_access)(const char* p, int m)
{
    if (delays.on)
    {
        std::string path = faults::at_path(AT_FDCWD, p);
        if (path.compare(0, faults::ctl().root.size(), faults::ctl().root) == 0)
            point("access", path);
    }
    return syscall(SYS_access, p, m);
}
}

namespace {

enum Kind
{
    IMPORT,
    QUERY,
    BYTES,
    SUMMARY,
    CHECK,
    REPACK,
    REMOVE,
    CONVERT,
    ARCHIVE,
};
const char* kind_names[] = {"import", "query", "bytes", "summary", "check", "repack", "remove", "convert", "archive"};

struct Op
{
    Kind kind;
    std::vector<Item> items;
    Expr expr;
    std::string sort;
    bool collect = false; // keep what is returned by a query until it ends
    bool fix     = true;
    std::string what;
    std::set<unsigned> uids;
    unsigned pause_us = 0;
};

struct Proc
{
    std::string role;
    std::vector<Op> ops;
    bool keep_writer = false, keep_reader = false;
    uint64_t seed = 1;
};

/// What a process has seen of an operation
struct Done
{
    int proc, op;
    long long t0 = 0, t1 = 0;
    std::string exception;
    std::vector<int> results; // import
    std::vector<unsigned> uids; // query
    std::vector<std::pair<std::string, std::string>> bad;
    SummaryMap summary;
    std::string text; // report of a check
};

std::string esc(const std::string& s)
{
    std::string r;
    for (char c : s)
        if (c == '\\')
            r += "\\\\";
        else if (c == '\n')
            r += "\\n";
        else if (c == '\t')
            r += "\\t";
        else
            r += c;
    return r;
}

std::string unesc(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '\\' && i + 1 < s.size())
        {
            ++i;
            r += s[i] == 'n' ? '\n' : s[i] == 't' ? '\t' : s[i];
        }
        else
            r += s[i];
    return r;
}

std::vector<std::string> split_tabs(const std::string& l)
{
    std::vector<std::string> res(1);
    for (char c : l)
        if (c == '\t')
            res.emplace_back();
        else
            res.back() += c;
    for (auto& s : res)
        s = unesc(s);
    return res;
}

struct World
{
    Case& c;
    Store& s;
    std::map<unsigned, Item> items; // all
    std::vector<Proc> procs;
    /// Items imported before the processes start
    std::set<unsigned> initial;
    std::string close_expr; // selects the closed segments
    time_t archive_now = 0, import_now = 0;
    std::set<std::string> reported;
    bool maintenance = false; // there is a process doing maintenance
    bool replace() const { return s.conf.iseg() && s.conf.replace == "yes"; }

    World(Case& c, Store& s) : c(c), s(s) {}

    /// Run an operation in a child
    void run(const Proc& p, const Op& op, Done& d, std::shared_ptr<dataset::Writer>& writer, std::shared_ptr<dataset::Reader>& reader)
    {
        switch (op.kind)
        {
            case IMPORT: {
                metadata::InboundBatch batch;
                for (const auto& i : op.items)
                    batch.add(i.md());
                dataset::AcquireConfig cfg;
                cfg.drop_cached_data_on_commit = op.collect;
                if (!writer)
                    writer = s.ds->create_writer();
                d.t0 = now_ns();
                try
                {
                    writer->acquire_batch(batch, cfg);
                }
                catch (std::exception& e)
                {
                    d.exception = e.what();
                }
                d.t1 = now_ns();
                for (const auto& b : batch)
                {
                    d.results.push_back((int)b->result);
                    if (b->result == R::ERROR)
                        d.text += b->md->to_yaml();
                }
                if (!p.keep_writer)
                    writer.reset();
                break;
            }
            case QUERY: {
                if (!reader)
                    reader = s.ds->create_reader();
                query::Data q(s.session->matcher(op.expr.text), true);
                if (!op.sort.empty())
                    q.sorter = metadata::sort::Compare::parse(op.sort);
                std::vector<std::shared_ptr<Metadata>> mds;
                auto see = [&](Metadata& md) {
                    Item i;
                    std::vector<uint8_t> data;
                    try
                    {
                        data = md.get_data().read();
                        i    = item_from_data(s.conf.format, data);
                    }
                    catch (std::exception& e)
                    {
                        d.bad.emplace_back("bytes", cat(e.what(), " reading ", md.to_yaml()));
                        return;
                    }
                    d.uids.push_back(i.uid);
                    auto e = items.find(i.uid);
                    if (e == items.end() || e->second.data != data)
                        d.bad.emplace_back("bytes", cat("query returns ", i.desc(), " with different bytes ", hex(data)));
                    else
                    {
                        auto diff = compare_md(e->second, md);
                        if (!diff.empty())
                            d.bad.emplace_back("metadata", cat("query returns ", i.desc(), " with ", diff));
                        else if (!op.expr.match(e->second))
                            d.bad.emplace_back("unmatched", cat("query ", op.expr.text, " returns ", i.desc()));
                    }
                };
                d.t0 = now_ns();
                reader->query_data(q, [&](std::shared_ptr<Metadata> md) {
                    if (op.collect)
                        mds.push_back(md);
                    else
                        see(*md);
                    return true;
                });
                d.t1 = now_ns();
                for (auto& md : mds)
                    see(*md);
                mds.clear();
                if (!p.keep_reader)
                    reader.reset();
                break;
            }
            case BYTES: {
                if (!reader)
                    reader = s.ds->create_reader();
                query::Bytes q;
                q.setData(s.session->matcher(op.expr.text));
                std::vector<uint8_t> buf;
                auto out = StreamOutput::create(buf);
                d.t0     = now_ns();
                reader->query_bytes(q, *out);
                d.t1       = now_ns();
                size_t pos = 0;
                while (pos < buf.size())
                {
                    if (s.conf.format == DataFormat::VM2 && buf[pos] == '\n')
                    {
                        ++pos;
                        continue;
                    }
                    Item i;
                    size_t len = buf.size() - pos;
                    if (s.conf.format == DataFormat::VM2)
                        if (auto nl = memchr(buf.data() + pos, '\n', len))
                            len = (const uint8_t*)nl - (buf.data() + pos);
                    size_t n = parse_payload(s.conf.format, buf.data() + pos, len, i);
                    auto e   = n ? items.find(i.uid) : items.end();
                    if (e == items.end() || e->second.data != std::vector<uint8_t>(buf.begin() + pos, buf.begin() + pos + n))
                    {
                        d.bad.emplace_back("bytes", cat("what query_bytes sends is not an item at ", pos, " of ", buf.size(), ": ", i.desc()));
                        break;
                    }
                    d.uids.push_back(i.uid);
                    if (!op.expr.match(e->second))
                        d.bad.emplace_back("unmatched", cat("query_bytes ", op.expr.text, " sends ", i.desc()));
                    pos += n;
                }
                if (!p.keep_reader)
                    reader.reset();
                break;
            }
            case SUMMARY: {
                if (!reader)
                    reader = s.ds->create_reader();
                Summary sum;
                d.t0 = now_ns();
                reader->query_summary(s.session->matcher(op.expr.text), sum);
                d.t1      = now_ns();
                d.summary = summary_map(sum);
                if (!p.keep_reader)
                    reader.reset();
                break;
            }
            case REMOVE: {
                metadata::Collection c;
                // Segments of simple datasets are not seen at times during imports
                for (unsigned tries = 0; c.size() < op.uids.size(); ++tries)
                {
                    if (tries == 400)
                        throw std::runtime_error("items to remove are not found");
                    if (tries)
                        usleep(5000);
                    c.clear();
                    s.ds->create_reader()->query_data(query::Data(s.session->matcher(""), true), [&](std::shared_ptr<Metadata> md) {
                        if (!op.uids.count(item_from_data(s.conf.format, md->get_data().read()).uid))
                            return true;
                        std::shared_ptr<Metadata> copy = md->clone();
                        const auto& b                  = md->sourceBlob();
                        copy->set_source(types::Source::createBlobUnlocked(b.format, b.basedir, b.filename, b.offset, b.size));
                        c.push_back(copy);
                        return true;
                    });
                }
                d.t0 = now_ns();
                {
                    auto checker = s.ds->create_checker();
                    checker->remove(c);
                }
                d.t1 = now_ns();
                break;
            }
            default: {
                auto rec = std::make_shared<Recorder>();
                dataset::CheckerConfig cfg(rec, !op.fix);
                cfg.accurate = op.what == "check-accurate";
                d.t0         = now_ns();
                if (op.kind == ARCHIVE)
                {
                    auto o = dataset::SessionTime::local_override(archive_now);
                    auto checker = s.ds->create_checker();
                    checker->repack(cfg);
                }
                else
                {
                    if (op.kind == CONVERT)
                        cfg.segment_filter = s.session->matcher(close_expr);
                    auto checker = s.ds->create_checker();
                    if (op.kind == CHECK)
                        checker->check(cfg);
                    else if (op.kind == REPACK)
                        checker->repack(cfg);
                    else if (op.what == "tar")
                        checker->tar(cfg);
                    else if (op.what == "zip")
                        checker->zip(cfg);
                    else
                        checker->compress(cfg, 2);
                }
                d.t1 = now_ns();
                for (const auto& e : rec->actions())
                {
                    if (e.op == "segment_repack" || e.op == "segment_remove" || e.op == "segment_archive" ||
                        (op.kind != CHECK && e.op == "segment_deindex"))
                        continue;
                    if (op.kind == CONVERT && (e.op == "segment_tar" || e.op == "segment_compress"))
                        continue;
                    if (op.kind != CHECK && e.op == "operation_aborted")
                        continue;
                    // Deleted or archived after the check has listed the segments
                    if (maintenance && e.op == "segment_deindex")
                        continue;
                    d.text += cat(e.op, " ", e.relpath, ": ", e.message, "\n");
                }
                if (!d.text.empty())
                    for (const auto& e : rec->events)
                        if (e.op == "segment_info")
                            d.text += cat(e.op, " ", e.ds, " ", e.relpath, ": ", e.message, "\n");
            }
        }
    }

    void child(int idx, const fs::path& out, int gate)
    {
        auto& p = procs[idx];
        std::string log;
        std::vector<std::pair<long long, uint32_t>> events;
        try
        {
            s.reopen();
            Rng rng(p.seed);
            delays.rng    = Rng(p.seed ^ 77);
            delays.events = &events;
            auto o        = dataset::SessionTime::local_override(import_now);
            char b;
            (void)!::read(gate, &b, 1); // all start together
            auto& ctl = faults::ctl();
            ctl.root  = s.path;
            ctl.hook  = fault_hook;
            ctl.after_rename = after_rename;
            ctl.on = delays.on = true;
            std::shared_ptr<dataset::Writer> writer;
            std::shared_ptr<dataset::Reader> reader;
            for (size_t n = 0; n < p.ops.size(); ++n)
            {
                const auto& op = p.ops[n];
                if (op.pause_us)
                    usleep(op.pause_us);
                Done d;
                try
                {
                    run(p, op, d, writer, reader);
                }
                catch (std::exception& e)
                {
                    if (!d.t0)
                        d.t0 = now_ns();
                    if (!d.t1)
                        d.t1 = now_ns();
                    d.exception = e.what();
                    if (d.exception.empty())
                        d.exception = "?";
                    reader.reset();
                }
                Quiet q;
                log += cat("op\t", n, "\t", d.t0, "\t", d.t1, "\t", esc(d.exception), "\t", esc(d.text), "\n");
                for (auto r : d.results)
                    log += cat("r\t", r, "\n");
                for (auto u : d.uids)
                    log += cat("u\t", u, "\n");
                for (auto& x : d.bad)
                    log += cat("bad\t", x.first, "\t", esc(x.second), "\n");
                for (auto& x : d.summary)
                    log += cat("s\t", esc(x.first), "\t", x.second.count, "\t", x.second.size, "\t", to_secs(x.second.begin), "\t",
                               to_secs(x.second.end), "\n");
            }
        }
        catch (std::exception& e)
        {
            log += cat("op\t-1\t0\t0\t", esc(e.what()), "\t\n");
        }
        delays.on = faults::ctl().on = false;
        log += cat("n\t", delays.waits, "\t", delays.points, "\n");
        for (const auto& e : events)
            log += cat("e\t", e.first, "\t", e.second, "\n");
        write_text(out, log + "end\n");
        _exit(0);
    }

    void execute(std::vector<Done>& done)
    {
        int gate[2];
        if (pipe(gate) != 0)
            throw std::runtime_error("pipe");
        fflush(stdout);
        fflush(stderr);
        std::vector<pid_t> pids;
        for (size_t i = 0; i < procs.size(); ++i)
        {
            pid_t pid = fork();
            if (pid == 0)
            {
                close(gate[1]);
                alarm(120);
                child(i, c.dir / cat("log", i), gate[0]);
            }
            pids.push_back(pid);
        }
        close(gate[0]);
        close(gate[1]);
        long long deadline = now_ns() + 60 * 1000000000ll;
        std::vector<std::string> problems;
        std::string stuck;
        size_t left = pids.size();
        std::vector<bool> ended(pids.size());
        while (left)
        {
            for (size_t i = 0; i < pids.size(); ++i)
            {
                if (ended[i])
                    continue;
                int st;
                if (waitpid(pids[i], &st, WNOHANG) == pids[i])
                {
                    ended[i] = true;
                    --left;
                    if (st != 0)
                        problems.push_back(cat(procs[i].role, " ended with status ", st));
                }
            }
            if (!left)
                break;
            if (now_ns() > deadline)
            {
                for (size_t i = 0; i < pids.size(); ++i)
                    if (!ended[i])
                    {
                        stuck += procs[i].role + " ";
                        if (getenv("VH_STUCK"))
                            continue;
                        kill(pids[i], SIGKILL);
                        waitpid(pids[i], nullptr, 0);
                    }
                break;
            }
            struct timespec ts = {0, 500000};
            nanosleep(&ts, nullptr);
        }
        if (!stuck.empty())
            fail("multi-hang", cat("processes do not end: ", stuck));
        if (!problems.empty())
            fail("multi-process-dies", problems[0]);

        std::vector<std::pair<long long, uint32_t>> events;
        for (size_t i = 0; i < procs.size(); ++i)
        {
            auto text = read_text(c.dir / cat("log", i));
            std::istringstream in(text);
            std::string line;
            Done* d   = nullptr;
            bool ends = false;
            while (std::getline(in, line))
            {
                auto f = split_tabs(line);
                if (f[0] == "end")
                    ends = true;
                else if (f[0] == "op")
                {
                    done.emplace_back();
                    d            = &done.back();
                    d->proc      = i;
                    d->op        = std::stoi(f[1]);
                    d->t0        = std::stoll(f[2]);
                    d->t1        = std::stoll(f[3]);
                    d->exception = f[4];
                    d->text      = f[5];
                }
                else if (f[0] == "r")
                    d->results.push_back(std::stoi(f[1]));
                else if (f[0] == "u")
                    d->uids.push_back(std::stoi(f[1]));
                else if (f[0] == "bad")
                    d->bad.emplace_back(f[1], f[2]);
                else if (f[0] == "s")
                {
                    Stat st;
                    st.count             = std::stoull(f[2]);
                    st.size              = std::stoull(f[3]);
                    st.begin             = from_secs(std::stoll(f[4]));
                    st.end               = from_secs(std::stoll(f[5]));
                    d->summary[f[1]] = st;
                }
                else if (f[0] == "n")
                {
                    count("lock_waits", std::stoul(f[1]));
                    count("points", std::stoul(f[2]));
                }
                else if (f[0] == "e")
                    events.emplace_back(std::stoll(f[1]), std::stoul(f[2]) ^ (uint32_t)(i * 0x9E3779B9u));
            }
            if (!ends)
                fail("multi-process-dies", cat(procs[i].role, " ended without a log"));
        }
        std::sort(events.begin(), events.end());
        uint64_t h = 1469598103934665603ull;
        for (const auto& e : events)
            h = (h ^ e.second) * 1099511628211ull;
        distinct(h);
        count("interleavings");
    }

    const Op& op_of(const Done& d) const { return procs[d.proc].ops[d.op]; }

    void check(const std::vector<Done>& done)
    {
        const long long INF = 1ll << 62;
        struct Life
        {
            long long t0 = -1, t1 = -1; // import
            R result         = R::OK;
            bool tried       = false;
            long long rm0 = 1ll << 62, rm1 = 1ll << 62;
        };
        std::map<unsigned, Life> lives;
        std::map<std::string, std::vector<unsigned>> groups;
        std::map<unsigned, std::string> key_of;
        bool unique = s.conf.iseg();
        for (auto u : initial)
            lives[u].tried = true;
        std::string history;
        long long first = INF;
        for (const auto& d : done)
            first = std::min(first, d.t0);
        std::vector<const Done*> order;
        for (const auto& d : done)
            order.push_back(&d);
        std::sort(order.begin(), order.end(), [](const Done* a, const Done* b) { return a->t0 < b->t0; });
        for (auto* d : order)
        {
            if (d->op < 0)
                continue;
            const auto& op = op_of(*d);
            history += cat("[", (d->t0 - first) / 1000, "-", (d->t1 - first) / 1000, " p", d->proc, " ", kind_names[op.kind], " ", op.what, op.expr.text);
            if (op.kind == IMPORT)
                for (size_t i = 0; i < op.items.size(); ++i)
                    history += cat(" ", op.items[i].uid, "@", op.items[i].rt.to_iso8601(), "=", i < d->results.size() ? d->results[i] : -1);
            for (auto u : op.uids)
                history += cat(" ", u);
            if (op.kind == QUERY || op.kind == BYTES)
            {
                history += " ->";
                for (auto u : d->uids)
                    history += cat(" ", u);
            }
            history += "] ";
        }
        context(cat(s.conf.desc(), " ", s.log, " ", history));

        for (const auto& d : done)
        {
            if (d.op < 0)
                fail("multi-exception", d.exception);
            const auto& op = op_of(d);
            count(cat("op_", kind_names[op.kind]));
            if (!d.exception.empty())
                fail(cat("multi-exception:", kind_names[op.kind], ":", normalise_text(d.exception)), cat(kind_names[op.kind], " ", op.what, ": ", d.exception));
            if (!d.bad.empty())
                fail(cat("multi-", d.bad[0].first), d.bad[0].second);
            if (op.kind == IMPORT)
                for (size_t n = 0; n < op.items.size(); ++n)
                {
                    auto& l  = lives[op.items[n].uid];
                    l.tried  = true;
                    l.t0     = d.t0;
                    l.t1     = d.t1;
                    l.result = (R)d.results[n];
                    if (l.result == R::ERROR)
                        fail("multi-import-error", d.text);
                    count(l.result == R::OK ? "imported" : "duplicates");
                }
            else if (op.kind == REMOVE)
                for (auto u : op.uids)
                {
                    lives[u].rm0 = d.t0;
                    lives[u].rm1 = d.t1;
                    count("removed");
                }
            if (!d.text.empty() && op.kind != IMPORT)
                fail("multi-check-reports", cat(kind_names[op.kind], " ", op.what, " reports ", d.text));
            for (const auto& e : done)
                if (e.proc < d.proc && e.op >= 0 && e.t0 < d.t1 && d.t0 < e.t1)
                {
                    auto a = std::min(op.kind, op_of(e).kind), b = std::max(op.kind, op_of(e).kind);
                    count("overlaps");
                    count(cat("overlap_", kind_names[a], "_", kind_names[b]));
                }
        }
        for (const auto& l : lives)
        {
            std::string k = unique ? s.unique_key(items.at(l.first)) : cat(l.first);
            groups[k].push_back(l.first);
            key_of[l.first] = k;
        }
        /// Could y have replaced x, or will it?
        auto may_replace = [&](unsigned x, unsigned y, long long before) {
            const auto &lx = lives[x], &ly = lives[y];
            return x != y && ly.result == R::OK && ly.t1 > lx.t0 && ly.t0 < before;
        };
        auto has_replaced = [&](unsigned x, unsigned y, long long before) {
            const auto &lx = lives[x], &ly = lives[y];
            return x != y && ly.result == R::OK && lx.t1 < ly.t0 && ly.t1 < before;
        };
        auto must_be = [&](unsigned u, long long q0, long long q1) {
            const auto& l = lives[u];
            if (l.result != R::OK || l.t1 >= q0 || l.rm0 <= q1)
                return false;
            if (replace())
                for (auto y : groups[key_of[u]])
                    if (may_replace(u, y, q1))
                        return false;
            return true;
        };
        auto may_be = [&](unsigned u, long long q0, long long q1) {
            const auto& l = lives[u];
            if (l.result != R::OK || l.t0 >= q1 || l.rm1 < q0)
                return false;
            if (replace())
                for (auto y : groups[key_of[u]])
                    if (has_replaced(u, y, q0))
                        return false;
            return true;
        };

        // Results of imports
        if (!replace())
            for (const auto& g : groups)
            {
                std::vector<unsigned> ok;
                for (auto u : g.second)
                    if (lives[u].result == R::OK)
                        ok.push_back(u);
                for (auto u : g.second)
                {
                    const auto& l = lives[u];
                    bool justified = false;
                    for (auto y : ok)
                        if (y != u)
                        {
                            // y was there when u was imported
                            if (lives[y].t1 < l.t0 && lives[y].rm0 > l.t1 && l.result == R::OK && l.t0 >= 0)
                                fail("multi-duplicate-accepted", cat(items.at(u).desc(), " has been imported while there is ", items.at(y).desc()));
                            if (lives[y].t0 < l.t1 && lives[y].rm1 > l.t0)
                                justified = true;
                            // Two imported at the same time
                            if (l.result == R::OK && lives[y].rm0 == INF && l.rm0 == INF)
                                fail("multi-duplicate-accepted", cat(items.at(u).desc(), " and ", items.at(y).desc(), " have both been imported"));
                        }
                    if (l.result == R::DUPLICATE && !justified)
                        fail("multi-duplicate-refused", cat(items.at(u).desc(), " has been refused as a duplicate"));
                }
            }
        else
            for (const auto& l : lives)
                if (l.second.result == R::DUPLICATE)
                    fail("multi-duplicate-refused", cat(items.at(l.first).desc(), " has been refused as a duplicate in spite of replace=yes"));

        for (const auto& d : done)
        {
            const auto& op = op_of(d);
            if (op.kind == QUERY || op.kind == BYTES)
            {
                std::map<unsigned, unsigned> seen;
                for (auto u : d.uids)
                {
                    if (seen[u]++)
                        fail("multi-item-twice", cat("query '", op.expr.text, "' returns twice ", items.at(u).desc()));
                    if (!lives.count(u) || !may_be(u, d.t0, d.t1))
                        fail("multi-unexpected-item", cat("query '", op.expr.text, "' returns ", items.at(u).desc(), " which was not in the dataset"));
                }
                std::map<std::string, unsigned> keys;
                if (unique)
                    for (auto u : d.uids)
                    {
                        auto& k = keys[key_of[u]];
                        if (k && lives[u].rm0 == INF && lives[k].rm0 == INF)
                            fail("multi-key-twice", cat("query '", op.expr.text, "' returns both ", items.at(u).desc(), " and ", items.at(k).desc()));
                        k = u;
                    }
                // Is anything else in the same segment returned?
                auto same_segment = [&](unsigned u) {
                    for (const auto& x : seen)
                        if (s.relpath(items.at(x.first)) == s.relpath(items.at(u)))
                            return true;
                    return false;
                };
                unsigned must = 0;
                for (const auto& l : lives)
                    if (must_be(l.first, d.t0, d.t1) && op.expr.match(items.at(l.first)))
                    {
                        ++must;
                        if (!seen.count(l.first))
                        {
                            bool arch = archiving(l.first, done, d);
                            bool imp  = !arch && importing(l.first, done, d) && !same_segment(l.first);
                            report(arch ? "multi-missed-item-archiving" : imp ? "multi-missed-segment-importing" : "multi-missed-item",
                                 cat("query '", op.expr.text, "' at ", (d.t0 - first) / 1000, " does not return ", items.at(l.first).desc()), arch || imp);
                        }
                    }
                count("queried");
                count("query_items", d.uids.size());
                count("query_musts", must);
            }
            else if (op.kind == SUMMARY)
            {
                // lo without what may be missing because of the known findings
                SummaryMap lo, lo_arch, lo_imp, hi;
                for (const auto& l : lives)
                {
                    const auto& i = items.at(l.first);
                    if (!op.expr.match(i))
                        continue;
                    Metadata md;
                    i.to_metadata(md);
                    auto k = summary_key(md);
                    if (must_be(l.first, d.t0, d.t1))
                    {
                        lo[k].add(i);
                        bool a = archiving(l.first, done, d);
                        if (!a)
                            lo_arch[k].add(i);
                        if (!a && !importing(l.first, done, d))
                            lo_imp[k].add(i);
                    }
                    if (may_be(l.first, d.t0, d.t1))
                        hi[k].add(i);
                }
                // With replaced items, only one of each group is there
                uint64_t nlo = 0, ngot = 0, nhi = 0;
                for (const auto& x : lo)
                    nlo += x.second.count;
                for (const auto& x : hi)
                    nhi += x.second.count;
                for (const auto& x : d.summary)
                    ngot += x.second.count;
                auto misses = [&](const SummaryMap& lo) {
                    for (const auto& x : lo)
                    {
                        auto g = d.summary.find(x.first);
                        if (g == d.summary.end() || g->second.count < x.second.count || g->second.size < x.second.size)
                            return true;
                    }
                    return false;
                };
                if (misses(lo))
                    report(misses(lo_imp)    ? "multi-summary-misses"
                         : misses(lo_arch) ? "multi-summary-misses-segment-importing"
                                           : "multi-summary-misses-archiving",
                         cat("summary of '", op.expr.text, "' at ", (d.t0 - first) / 1000, " has ", ngot, " items, at least ", nlo, " expected: ", diff_summaries(lo, d.summary)), !misses(lo_imp));
                for (const auto& g : d.summary)
                {
                    auto x = hi.find(g.first);
                    if (x == hi.end() || g.second.count > x->second.count || g.second.size > x->second.size)
                        fail("multi-summary-exceeds",
                             cat("summary of '", op.expr.text, "' at ", (d.t0 - first) / 1000, " has ", ngot, " items, at most ", nhi, " expected: ", diff_summaries(hi, d.summary)));
                }
                count("summaries_compared");
            }
        }

        // What there must be at the end
        std::vector<std::vector<unsigned>> open;
        s.live.clear();
        for (const auto& g : groups)
        {
            std::vector<unsigned> cand;
            for (auto u : g.second)
                if (may_be(u, INF - 2, INF - 1))
                    cand.push_back(u);
            if (cand.size() == 1)
                s.live[cand[0]] = items.at(cand[0]);
            else if (cand.size() > 1)
                open.push_back(cand);
        }
        s.reopen();
        if (!open.empty())
        {
            auto r = s.query("");
            for (const auto& cand : open)
            {
                unsigned found = 0, which = 0;
                for (auto u : cand)
                    for (const auto& i : r.items)
                        if (i.uid == u)
                        {
                            ++found;
                            which = u;
                        }
                if (found != 1)
                    fail("multi-final-replaced", cat(found, " of ", cand.size(), " items with the same key are in the dataset, like ", items.at(cand[0]).desc()));
                s.live[which] = items.at(which);
                count("races_to_replace");
            }
        }
        s.prefix = "multi-final-";
        s.check_contents("at the end");
        check_summary("at the end");
        s.check_clean("at the end", true);
        s.prefix = "multi-after-";
        s.run_check(true);
        s.check_contents("after check");
        check_summary("after check");
        s.reopen();
        s.run_repack(true);
        s.check_contents("after repack");
        check_summary("after repack");
        count("evals");
    }

    void check_summary(const std::string& where)
    {
        Summary sum;
        s.ds->create_reader()->query_summary(s.session->matcher(""), sum);
        auto diff = diff_summaries(s.model_summary(), summary_map(sum));
        if (!diff.empty())
            fail(s.prefix + "summary", cat(where, ": the summary is not that of the contents: ", diff));
    }

    /// Go on after what is in the list of known findings
    void report(const std::string& key, const std::string& detail, bool known)
    {
        if (!known)
            fail(key, detail);
        if (reported.insert(key).second)
            violation(key, detail);
    }

    /// True if the item was being moved to the archive during an operation
    bool archiving(unsigned u, const std::vector<Done>& done, const Done& q)
    {
        if (!initial.count(u) || !s.closed.count(s.relpath(items.at(u))))
            return false;
        for (const auto& d : done)
            if (op_of(d).kind == ARCHIVE && d.t0 < q.t1 && q.t0 < d.t1)
                return true;
        return false;
    }

    /// True if data was being imported in the segment of the item, in a simple
    /// dataset, during an operation
    bool importing(unsigned u, const std::vector<Done>& done, const Done& q)
    {
        if (s.conf.iseg())
            return false;
        auto seg = s.relpath(items.at(u));
        for (const auto& d : done)
            if (op_of(d).kind == IMPORT && d.t0 < q.t1 && q.t0 < d.t1)
                for (size_t n = 0; n < op_of(d).items.size(); ++n)
                    if (d.results[n] == (int)R::OK && s.relpath(op_of(d).items[n]) == seg)
                        return true;
        return false;
    }

    /// Make what is in the dataset look like it has been there for a while
    void age(unsigned seconds)
    {
        if (!fs::exists(s.path))
            return;
        for (const auto& e : fs::recursive_directory_iterator(s.path))
        {
            struct stat st;
            if (!e.is_regular_file() || ::stat(e.path().c_str(), &st) != 0)
                continue;
            struct timespec ts[2] = {st.st_atim, st.st_mtim};
            ts[1].tv_sec -= seconds;
            utimensat(AT_FDCWD, e.path().c_str(), ts, 0);
        }
        if (fs::exists(s.path / "MANIFEST"))
        {
            std::string res;
            std::istringstream in(read_text(s.path / "MANIFEST"));
            std::string l;
            while (std::getline(in, l))
            {
                auto a = l.find(';'), b = l.find(';', a + 1);
                res += l.substr(0, a + 1) + cat(std::stoll(l.substr(a + 1, b - a - 1)) - (long long)seconds) + l.substr(b) + "\n";
            }
            write_text(s.path / "MANIFEST", res);
        }
        s.reopen();
        count("aged");
    }

    void plan()
    {
        auto& rng       = c.rng;
        unsigned n_imp  = rng.range(1, 3);
        unsigned n_read = rng.range(1, 2);
        bool maint      = rng.chance(75);
        bool checker    = rng.chance(30);
        bool archive    = archive_now && maint && rng.chance(60);
        // Items, some with the same key as others
        std::vector<Item> pool;
        for (const auto& i : items)
            pool.push_back(i.second);
        std::vector<Item> keys;
        auto make_batch = [&] {
            std::vector<Item> res;
            std::set<std::string> used;
            unsigned n = rng.range(1, 6);
            for (unsigned k = 0; k < n; ++k)
            {
                Item i;
                if (!keys.empty() && rng.chance(40))
                {
                    // Same metadata as one of another importer
                    unsigned uid = s.gen.next_uid++;
                    i            = rng.pick(keys);
                    i.uid        = uid;
                    i.build(rng, rng.below(s.gen.max_filler));
                }
                else
                {
                    auto v = s.make_items(1);
                    if (v.empty())
                        continue;
                    i = v[0];
                }
                auto k2 = s.unique_key(i);
                if (s.conf.iseg() && !used.insert(k2).second)
                    continue;
                items[i.uid] = i;
                pool.push_back(i);
                keys.push_back(i);
                res.push_back(i);
            }
            return res;
        };
        for (unsigned p = 0; p < n_imp; ++p)
        {
            Proc pr;
            pr.role        = "importer";
            pr.keep_writer = rng.below(2);
            unsigned n     = rng.range(1, 5);
            for (unsigned k = 0; k < n; ++k)
            {
                Op op;
                op.kind    = IMPORT;
                op.collect = rng.below(2);
                op.items   = make_batch();
                if (!op.items.empty())
                    pr.ops.push_back(op);
            }
            procs.push_back(pr);
        }
        ExprGen eg(rng);
        eg.pool     = pool;
        eg.cut_step = s.conf.step;
        Expr all;
        all.match = [](const Item&) { return true; };
        for (unsigned p = 0; p < n_read; ++p)
        {
            Proc pr;
            pr.role        = "reader";
            pr.keep_reader = rng.below(2);
            unsigned n     = rng.range(2, 6);
            for (unsigned k = 0; k < n; ++k)
            {
                Op op;
                op.kind    = rng.pick({QUERY, QUERY, QUERY, BYTES, SUMMARY, SUMMARY});
                op.collect = rng.below(2);
                if (op.kind == QUERY && rng.chance(20))
                    op.sort = rng.pick({"reftime", "-reftime", "day:product"});
                op.expr = pool.empty() || rng.chance(50) ? all : eg.make();
                pr.ops.push_back(op);
            }
            procs.push_back(pr);
        }
        if (checker)
        {
            Proc pr;
            pr.role    = "checker";
            unsigned n = rng.range(1, 3);
            for (unsigned k = 0; k < n; ++k)
            {
                Op op;
                op.kind = CHECK;
                op.what = rng.chance(30) ? "check-accurate" : "check";
                op.fix  = rng.chance(60);
                pr.ops.push_back(op);
            }
            procs.push_back(pr);
        }
        if (maint)
        {
            Proc pr;
            pr.role    = "maintenance";
            maintenance = true;
            unsigned n = rng.range(1, 4);
            std::set<unsigned> can_remove;
            std::set<std::string> imported_keys;
            for (const auto& i : items)
                if (!initial.count(i.first))
                    imported_keys.insert(s.unique_key(i.second));
            for (auto u : initial)
                if (!s.conf.iseg() || !imported_keys.count(s.unique_key(items.at(u))))
                    can_remove.insert(u);
            bool closed_changed = false;
            for (unsigned k = 0; k < n; ++k)
            {
                Op op;
                op.kind = rng.pick({REPACK, REPACK, REMOVE, REMOVE, CONVERT, CHECK, ARCHIVE});
                if (op.kind == ARCHIVE && (!archive || closed_changed))
                    op.kind = REPACK;
                if (op.kind == CONVERT && s.closed.empty())
                    op.kind = REMOVE;
                if (op.kind == REMOVE)
                {
                    for (auto u : can_remove)
                        if (rng.chance(30) && !(closed_changed && s.closed.count(s.relpath(items.at(u)))))
                            op.uids.insert(u);
                    for (auto u : op.uids)
                        can_remove.erase(u);
                    if (op.uids.empty())
                        op.kind = REPACK;
                }
                if (op.kind == CONVERT)
                    op.what = rng.pick({"tar", "zip", "compress"});
                if (op.kind == CONVERT || op.kind == ARCHIVE)
                    closed_changed = true;
                op.fix = op.kind == CHECK ? rng.below(2) : true;
                pr.ops.push_back(op);
                if (op.kind == REMOVE && rng.chance(70))
                {
                    Op o2;
                    o2.kind = REPACK;
                    pr.ops.push_back(o2);
                }
            }
            procs.push_back(pr);
        }
        for (auto& p : procs)
        {
            p.seed = rng.next();
            for (auto& op : p.ops)
                if (rng.chance(60))
                    op.pause_us = rng.below(rng.pick({500, 3000, 15000}));
        }
    }
};

void check_multi(Case& c)
{
    auto& rng = c.rng;
    ConfGen cg;
    cg.steps   = {"daily", "daily", "daily", "weekly", "monthly"};
    cg.formats = {DataFormat::GRIB, DataFormat::GRIB, DataFormat::GRIB, DataFormat::VM2, DataFormat::BUFR, DataFormat::ODIMH5};
    cg.types   = {"iseg", "simple"};
    cg.replace = {"", "no", "yes"};
    cg.unique  = 85;
    auto conf  = cg.make(rng);
    conf.eatmydata = false;
    Store s(rng, conf, c.dir / "ds");
    s.gen.span_hours = s.conf.step == "monthly" ? 24 * 60 : s.conf.step == "weekly" ? 24 * 14 : 24 * rng.range(2, 4);
    s.gen.step_hours = rng.pick({6, 12});
    World w(c, s);
    memset((void*)shared, 0, sizeof(*shared));
    reuse_inodes = rng.chance(50);
    faults::ctl() = faults::Control();
    faults::ctl().root = s.path;
    auto& d      = delays;
    d            = Delays();
    d.percent    = rng.pick({0, 5, 20, 40});
    d.max_us     = rng.pick({200, 1000, 4000});
    if (rng.chance(60))
    {
        d.hot    = rng.pick({"lock", "locked", "unlock", "unlocked", "pread", "read", "stat", "access", "create", "write", "rename", "unlink", "sync", "trunc"});
        d.hot_us = rng.pick({2000, 8000, 20000});
    }

    // What there is at the beginning
    unsigned batches = rng.range(0, 3);
    for (unsigned k = 0; k < batches; ++k)
    {
        auto items = s.make_items(rng.range(1, 10));
        for (const auto& i : items)
            w.items[i.uid] = i;
        s.import(items, false, false);
    }
    if (batches)
        s.run_check(true);
    for (const auto& i : s.live)
        w.initial.insert(i.first);
    // Segments which do not get more data
    if (!s.live.empty() && rng.chance(60))
    {
        Time begin  = s.gen.begin;
        Time first_end = seg_span(s.conf.step, begin).second;
        w.close_expr = "reftime:<" + first_end.to_sql();
        for (const auto& i : s.live)
            if (i.second.rt < first_end)
                s.closed.insert(s.relpath(i.second));
        if (!s.closed.empty() && rng.chance(60))
        {
            s.conf.archive_age = 5;
            long long epoch    = to_secs(Time(1970, 1, 1, 0, 0, 0));
            w.archive_now      = to_secs(first_end) - epoch + 5 * 86400 + 3600;
            w.import_now       = to_secs(begin) - epoch + 86400;
            s.reopen();
        }
    }
    if (!w.import_now)
        w.import_now = ::time(nullptr);
    if (rng.chance(50))
        w.age(rng.range(2, 100000));
    w.plan();
    std::string desc = conf.desc();
    for (const auto& p : w.procs)
    {
        desc += cat(" {", p.role, p.keep_writer ? " keeps writer" : "", p.keep_reader ? " keeps reader" : "", ":");
        for (const auto& op : p.ops)
            desc += cat(" ", kind_names[op.kind], op.what.empty() ? "" : ":", op.what, op.kind == IMPORT ? cat("(", op.items.size(), ")") : "");
        desc += "}";
    }
    context(cat(desc, " ", s.log));
    sample(desc);
    std::vector<Done> done;
    w.execute(done);
    reuse_inodes = false;
    auto o = dataset::SessionTime::local_override(w.import_now);
    w.check(done);
}

} // namespace

int main(int argc, const char* argv[])
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    shared  = new (p) Shared;
    return run_main(argc, argv, {{"C17", check_multi}});
}
