// C25: what reaches the destination of a stream output is compared with what
// was sent, or with what the filter has to make of it.
#include "common.h"
#include "common_ds.h"
#include <arki/metadata/reader.h>
#include <arki/runtime.h>
#include <arki/stream.h>
#include <arki/stream/base.h>
#include <arki/stream/filter.h>
#include <arki/summary.h>
#include <arki/types/source.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <mutex>
#include <poll.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using namespace vh;
using namespace arki;
namespace fs = std::filesystem;
using arki::stream::LinuxBackend;
using arki::stream::SendResult;

namespace {

/*
 * Faults in the system calls used to stream
 */

struct Faults
{
    Rng rng{1};
    bool enabled       = false;
    unsigned partial   = 0; // percent of the calls that move less than asked
    unsigned again     = 0; // percent of the calls that return EAGAIN
    bool no_sendfile   = false;
    bool no_splice     = false;
    unsigned fail_in   = 0; // number of writes before one fails
    bool failed        = false;
    int main_thread_id = 0;

    size_t cut(size_t n)
    {
        if (enabled && n > 1 && rng.chance(partial))
        {
            count("partial");
            return 1 + rng.below(rng.chance(50) ? std::min<size_t>(n - 1, 16) : n - 1);
        }
        return n;
    }
    bool refuse()
    {
        if (enabled && rng.chance(again))
        {
            count("refused");
            errno = EAGAIN;
            return true;
        }
        return false;
    }
    bool broken()
    {
        if (!enabled || !fail_in || --fail_in)
            return false;
        failed = true;
        count("write_errors");
        errno = rng.chance(50) ? ENOSPC : EIO;
        return true;
    }
} faults;

ssize_t f_read(int fd, void* buf, size_t n)
{
    if (faults.refuse())
        return -1;
    return ::read(fd, buf, faults.cut(n));
}
ssize_t f_write(int fd, const void* buf, size_t n)
{
    count("syscalls");
    if (faults.refuse() || faults.broken())
        return -1;
    return ::write(fd, buf, faults.cut(n));
}
ssize_t f_writev(int fd, const struct iovec* iov, int cnt)
{
    count("syscalls");
    if (faults.refuse() || faults.broken())
        return -1;
    size_t total = 0;
    for (int i = 0; i < cnt; ++i)
        total += iov[i].iov_len;
    size_t n = faults.cut(total);
    if (n == total)
        return ::writev(fd, iov, cnt);
    std::string all;
    for (int i = 0; i < cnt; ++i)
        all.append((const char*)iov[i].iov_base, iov[i].iov_len);
    return ::write(fd, all.data(), n);
}
ssize_t f_sendfile(int out, int in, off_t* ofs, size_t n)
{
    count("syscalls");
    if (faults.no_sendfile)
    {
        errno = EINVAL;
        return -1;
    }
    if (faults.refuse() || faults.broken())
        return -1;
    return ::sendfile(out, in, ofs, faults.cut(n));
}
ssize_t f_splice(int in, loff_t* oi, int out, loff_t* oo, size_t n, unsigned fl)
{
    count("syscalls");
    if (faults.no_splice)
    {
        errno = EINVAL;
        return -1;
    }
    if (faults.refuse())
        return -1;
    return ::splice(in, oi, out, oo, faults.cut(n), fl);
}
ssize_t f_pread(int fd, void* buf, size_t n, off_t ofs) { return ::pread(fd, buf, faults.cut(n), ofs); }

void hook()
{
    LinuxBackend::read     = f_read;
    LinuxBackend::write    = f_write;
    LinuxBackend::writev   = f_writev;
    LinuxBackend::sendfile = f_sendfile;
    LinuxBackend::splice   = f_splice;
    LinuxBackend::pread    = f_pread;
}

unsigned open_fds()
{
    unsigned n = 0;
    DIR* d     = opendir("/proc/self/fd");
    while (readdir(d))
        ++n;
    closedir(d);
    return n;
}

/*
 * Destinations
 */

struct Dest
{
    std::string kind;
    fs::path path;
    std::shared_ptr<core::NamedFileDescriptor> fd;
    std::vector<uint8_t> memory;
    std::string initial;
    int rfd = -1;
    std::thread reader;
    std::mutex mutex;
    std::string got;
    std::atomic<bool> closing{false}; // the reader is about to close it
    std::atomic<bool> closed{false};
    std::atomic<bool> stop{false};
    size_t close_after = std::string::npos;
    bool stall         = false;
    int release[2]     = {-1, -1};
    size_t stall_after = 0;

    ~Dest()
    {
        if (reader.joinable())
            finish();
        if (fd && *fd != -1)
            fd->close();
    }

    void run_reader(uint64_t seed, int mode)
    {
        Rng r(seed);
        std::vector<char> buf(65536);
        while (true)
        {
            if (stall && !stop && got.size() >= stall_after)
            {
                // Wait until the writer has given up
                pollfd p{release[0], POLLIN, 0};
                ::poll(&p, 1, -1);
            }
            size_t n = 1 + r.below(mode == 0 ? 65536 : mode == 1 ? 5000 : 65536);
            if (got.size() < close_after)
                n = std::min(n, close_after - got.size());
            else
            {
                closing = true;
                ::close(rfd);
                rfd    = -1;
                closed = true;
                return;
            }
            ssize_t res = ::read(rfd, buf.data(), n);
            if (res <= 0)
                break;
            {
                std::lock_guard<std::mutex> l(mutex);
                got.append(buf.data(), res);
            }
            if (mode == 2 && r.chance(30))
                usleep(r.below(3000));
            else if (mode == 1 && r.chance(10))
                usleep(r.below(1000));
        }
        ::close(rfd);
        rfd = -1;
    }

    /// Wait for the reader to see the end of data
    void finish()
    {
        stop = true;
        if (release[1] != -1)
            (void)!::write(release[1], "x", 1);
        if (fd && *fd != -1)
            fd->close();
        if (reader.joinable())
            reader.join();
        for (auto& i : release)
            if (i != -1)
            {
                ::close(i);
                i = -1;
            }
    }

    std::string contents()
    {
        if (kind == "memory")
            return std::string(memory.begin(), memory.end());
        if (kind == "file" || kind == "append" || kind == "offset")
        {
            std::string t = read_text(path);
            if (t.compare(0, initial.size(), initial) != 0)
                fail("overwritten", "data already in the output file was changed");
            return t.substr(initial.size());
        }
        return got;
    }
};

/*
 * Filters
 */

struct Model
{
    std::vector<std::string> args;
    std::string name;
    std::function<std::string(const std::string&)> out = [](const std::string& s) { return s; };
    bool early       = false; // may stop reading before the end of its input
    int code         = 0;
    bool signalled   = false;
    std::string err;
    bool err_exact   = true;
    fs::path counted; // where it writes how many bytes it got
};

std::string base64(const std::string& s)
{
    static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r;
    for (size_t i = 0; i < s.size(); i += 3)
    {
        unsigned v = (unsigned char)s[i] << 16;
        if (i + 1 < s.size())
            v |= (unsigned char)s[i + 1] << 8;
        if (i + 2 < s.size())
            v |= (unsigned char)s[i + 2];
        r += t[v >> 18];
        r += t[v >> 12 & 63];
        r += i + 1 < s.size() ? t[v >> 6 & 63] : '=';
        r += i + 2 < s.size() ? t[v & 63] : '=';
    }
    return r;
}

Model gen_filter(Rng& rng, const fs::path& dir, unsigned n_filter)
{
    Model m;
    unsigned n = rng.chance(30) ? rng.below(300) : rng.chance(50) ? rng.below(20000) : rng.below(400000);
    auto sh    = [&](const std::string& s) { m.args = {"/bin/sh", "-c", s}; };
    switch (rng.below(16))
    {
        case 0:
        case 1:
            m.name = "cat";
            m.args = {"cat"};
            break;
        case 2:
            m.name = "tr";
            m.args = {"tr", "a-z", "A-Z"};
            m.out  = [](std::string s) {
                for (auto& c : s)
                    if (c >= 'a' && c <= 'z')
                        c += 'A' - 'a';
                return s;
            };
            break;
        case 3:
            m.name = "swallow";
            sh(cat("cat >/dev/null; head -c ", n, " /dev/zero"));
            m.out = [n](const std::string&) { return std::string(n, 0); };
            break;
        case 4:
            m.name = "prefix";
            sh(cat("head -c ", n, " /dev/zero; cat"));
            m.out = [n](const std::string& s) { return std::string(n, 0) + s; };
            break;
        case 5:
            m.name = "fail";
            m.code = rng.range(1, 120);
            m.err  = "oops";
            sh(cat("cat; echo oops >&2; exit ", m.code));
            break;
        case 6:
        {
            unsigned k = rng.chance(50) ? rng.below(1000) : rng.below(100000);
            m.name     = "errors";
            m.code     = rng.chance(50) ? 1 : 0;
            m.err      = std::string(k, 'e');
            if (rng.chance(50))
                sh(cat("cat; head -c ", k, " /dev/zero | tr '\\0' e >&2; exit ", m.code));
            else
                sh(cat("head -c ", k, " /dev/zero | tr '\\0' e >&2; cat; exit ", m.code));
            break;
        }
        case 7:
            m.name  = "head";
            m.args  = {"head", "-c", std::to_string(n)};
            m.out   = [n](const std::string& s) { return s.substr(0, n); };
            m.early = true;
            break;
        case 8:
            m.name      = "killed";
            m.signalled = true;
            m.code      = 9;
            m.early     = true;
            m.out       = [](const std::string&) { return std::string(); };
            sh(cat("head -c ", n, " >/dev/null; kill -9 $$"));
            break;
        case 9:
            m.name      = "missing";
            m.args      = {"/nonexistent/filter"};
            m.early     = true;
            m.code      = -1;
            m.err_exact = false;
            m.out       = [](const std::string&) { return std::string(); };
            break;
        case 10:
            m.name = "base64";
            m.args = {"base64", "-w0"};
            m.out  = base64;
            break;
        case 11:
            m.name    = "noout";
            m.counted = dir / cat("counted", n_filter);
            sh(cat("exec 1>&-; wc -c > ", m.counted.native()));
            m.out = [](const std::string&) { return std::string(); };
            break;
        case 12:
            m.name = "late";
            sh("sleep 0.01; cat; sleep 0.01");
            break;
        case 13:
            m.name = "dd";
            sh("dd bs=700 status=none");
            break;
        case 14:
            m.name  = "ignore";
            m.args  = {"true"};
            m.early = true;
            m.out   = [](const std::string&) { return std::string(); };
            break;
        default:
            m.name = "double";
            // Twice the output
            sh("tee /dev/null | sed -e 's/x/xx/g'");
            m.out = [](const std::string& s) {
                std::string r;
                for (char c : s)
                    r += c == 'x' ? std::string("xx") : std::string(1, c);
                return r;
            };
            break;
    }
    return m;
}

bool is_prefix(const std::string& a, const std::string& b) { return b.compare(0, a.size(), a) == 0; }

std::string describe(const std::string& exp, const std::string& got)
{
    size_t i = 0;
    while (i < exp.size() && i < got.size() && exp[i] == got[i])
        ++i;
    return cat("expected ", exp.size(), " bytes got ", got.size(), ", first difference at ", i);
}

void c25(Case& c)
{
    auto& rng = c.rng;
    signal(SIGPIPE, SIG_IGN);
    fs::create_directories(c.dir);
    hook();
    faults             = Faults();
    faults.rng         = Rng(rng.next());
    faults.partial     = rng.pick({0u, 0u, 10u, 60u});
    faults.again       = rng.pick({0u, 0u, 5u, 30u});
    faults.no_sendfile = rng.chance(15);
    faults.no_splice   = rng.chance(15);

    // Source file
    std::string src(rng.pick({1000u, 70000u, 300000u}), 0);
    for (auto& ch : src)
        ch = rng.chance(3) ? '\n' : (char)('a' + rng.below(26));
    write_text(c.dir / "src", src);
    core::File srcfd(c.dir / "src", O_RDONLY);

    unsigned fds_before = open_fds();
    Dest d;
    d.kind          = rng.pick({std::string("pipe"), std::string("pipe"), std::string("socket"), std::string("file"), std::string("append"),
                                std::string("offset"), std::string("memory"), std::string("memory"), std::string("discard")});
    int reader_mode = rng.below(3);
    unsigned timeout = 0;
    bool stall = false, closing = false;
    if (d.kind == "pipe" || d.kind == "socket")
    {
        int p[2];
        if (d.kind == "pipe")
        {
            if (pipe2(p, O_CLOEXEC) < 0)
                throw std::runtime_error("pipe");
            fcntl(p[1], F_SETPIPE_SZ, rng.pick({4096, 16384, 65536}));
        }
        else
        {
            int s[2];
            if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, s) < 0)
                throw std::runtime_error("socketpair");
            p[0]     = s[0];
            p[1]     = s[1];
            int size = rng.pick({4096, 30000, 100000});
            setsockopt(p[1], SOL_SOCKET, SO_SNDBUF, &size, sizeof(size));
        }
        d.rfd = p[0];
        d.fd  = std::make_shared<core::NamedFileDescriptor>(p[1], d.kind);
        if (rng.chance(15))
        {
            closing       = true;
            d.close_after = rng.chance(30) ? 0 : rng.below(100000);
        }
        else if (rng.chance(12))
        {
            stall         = true;
            d.stall       = true;
            d.stall_after = rng.chance(50) ? 0 : rng.below(50000);
            timeout       = rng.range(30, 80);
            if (pipe2(d.release, O_CLOEXEC) < 0)
                throw std::runtime_error("pipe");
        }
        else if (rng.chance(30))
            timeout = 60000;
    }
    else if (d.kind == "file" || d.kind == "append" || d.kind == "offset")
    {
        d.path = c.dir / "out";
        if (d.kind != "file")
            for (unsigned n = rng.below(5000); n; --n)
                d.initial += (char)('A' + rng.below(26));
        write_text(d.path, d.initial);
        int fl  = O_WRONLY | O_CLOEXEC | (d.kind == "append" ? O_APPEND : 0);
        int fd  = open(d.path.c_str(), fl);
        d.fd    = std::make_shared<core::NamedFileDescriptor>(fd, d.path);
        if (d.kind == "offset")
            lseek(fd, 0, SEEK_END);
        if (rng.chance(10))
            faults.fail_in = rng.range(1, 40);
    }
    int orig_fl = 0;
    if (d.fd)
    {
        if (rng.chance(10))
            fcntl(*d.fd, F_SETFL, fcntl(*d.fd, F_GETFL) | O_NONBLOCK);
        orig_fl = fcntl(*d.fd, F_GETFL);
    }
    if (d.rfd != -1)
        d.reader = std::thread([&d, seed = rng.next(), reader_mode] { d.run_reader(seed, reader_mode); });

    std::string log = cat(d.kind, timeout ? cat(" timeout ", timeout) : "", stall ? cat(" stalls after ", d.stall_after) : "",
                          closing ? cat(" closes after ", d.close_after) : "", faults.no_splice ? " no splice" : "",
                          faults.no_sendfile ? " no sendfile" : "", " partial ", faults.partial, " again ", faults.again);
    std::string exp; // what has to have reached the destination
    bool interrupted = false;
    std::string why;
    std::unique_ptr<StreamOutput> out = d.kind == "memory"    ? StreamOutput::create(d.memory)
                                        : d.kind == "discard" ? StreamOutput::create_discard()
                                                              : StreamOutput::create(d.fd, timeout);
    count("to_" + d.kind);
    faults.enabled   = true;
    unsigned n_phase = rng.range(1, 3);
    size_t capacity  = 700000; // more than any buffer in between
    for (unsigned ph = 0; ph < n_phase && !interrupted; ++ph)
    {
        bool filtered = rng.chance(60);
        Model m;
        unsigned fds = open_fds();
        if (filtered)
        {
            m = gen_filter(rng, c.dir, ph);
            log += cat("; filter ", m.name, " {", m.args.back(), "}");
        }
        else
            log += "; direct";
        context(log);
        std::string in;
        bool eof_dest = false, threw = false;
        std::string msg;
        std::unique_ptr<stream::FilterProcess> flt;
        try
        {
            if (filtered)
                out->start_filter(m.args);
            unsigned n_sends = rng.chance(20) ? rng.below(200) : rng.below(12);
            size_t max_size  = n_sends > 12 ? 2000 : rng.pick({300u, 40000u, 200000u});
            if (stall && ph == 0)
            {
                n_sends  = 12;
                max_size = 200000;
            }
            for (unsigned i = 0; i < n_sends; ++i)
            {
                size_t size = rng.chance(10) ? 0 : rng.below(std::min(max_size, src.size())) + 1;
                if (stall && ph == 0)
                    size = std::min(src.size(), max_size);
                size_t ofs  = rng.below(src.size() - size + 1);
                bool closed = d.closed;
                std::string part;
                SendResult res;
                int how = rng.below(3);
                if (how == 1)
                    part = src.substr(ofs, size) + "\n";
                else
                    part = src.substr(ofs, size);
                // A failing send may have sent a part of this
                in += part;
                switch (how)
                {
                    case 0:
                    case 1:
                    {
                        std::vector<uint8_t> buf(src.begin() + ofs, src.begin() + ofs + size);
                        if (how == 0)
                            res = out->send_buffer(buf.data(), buf.size());
                        else
                            res = out->send_line(buf.data(), buf.size());
                        break;
                    }
                    default:
                    {
                        off_t pos = lseek(srcfd, rng.below(src.size()), SEEK_SET);
                        res       = out->send_file_segment(srcfd, ofs, size);
                        if (lseek(srcfd, 0, SEEK_CUR) != pos)
                            fail("source-moved", "sending a segment of a file changed its position");
                    }
                }
                count("sends");
                count("sent_bytes", part.size());
                if (res.flags & SendResult::SEND_PIPE_EOF_DEST)
                {
                    eof_dest = true;
                    break;
                }
                if (res.flags & SendResult::SEND_PIPE_EOF_SOURCE)
                    fail("eof-source", "end of source reported reading inside the file");
                if (closed && !filtered && !part.empty())
                    fail("closed-unreported", cat("sending ", part.size(), " bytes to a closed ", d.kind, " succeeded"));
                if (filtered && rng.chance(2))
                    usleep(rng.below(3000));
            }
            if (filtered)
            {
                auto start = std::chrono::steady_clock::now();
                flt        = out->stop_filter();
                auto spent = std::chrono::steady_clock::now() - start;
                if (timeout == 60000 && spent > std::chrono::seconds(30))
                    fail("slow-stop", "the filter had ended, but it was waited for until the timeout");
                count("filters");
                count("filter_" + m.name);
            }
        }
        catch (Failed&)
        {
            throw;
        }
        catch (std::exception& e)
        {
            threw = true;
            msg   = e.what();
            log += cat(" [", msg, "]");
            count("exceptions");
            if (filtered)
            {
                try
                {
                    out->abort_filter();
                }
                catch (std::exception& e)
                {
                    fail("abort", cat("aborting the filter: ", e.what()));
                }
            }
        }
        context(log);
        bool timed_out = msg.find("timed out") != std::string::npos;
        // What is allowed to go wrong
        if (threw)
        {
            bool early = msg.find("closed its input pipe") != std::string::npos;
            if (faults.failed && msg.find("cannot") != std::string::npos)
                ;
            else if (timed_out && stall)
                count("timeouts");
            else if (early && filtered && m.early)
                count("early_exits");
            else if (closing && d.closing)
                ;
            else
                fail("unexpected-error", msg);
        }
        if (eof_dest)
        {
            if (!closing || !d.closing)
                fail("eof-dest", "a closed destination was reported, but it is open");
            count("closed_dest");
        }
        // Filter outcome
        if (flt)
        {
            std::string emsg;
            try
            {
                flt->check_for_errors();
            }
            catch (std::exception& e)
            {
                emsg = e.what();
            }
            bool unhappy = eof_dest || d.closing; // the filter may have failed writing its output
            if (m.code && emsg.empty())
                fail("filter-error-unreported", cat("filter failure was not reported"));
            if (!m.code && !emsg.empty() && !unhappy)
                fail("filter-error-invented", emsg);
            if (m.code && !unhappy)
            {
                std::string txt = m.signalled ? cat("signal ", m.code) : m.code > 0 ? cat("exited with code ", m.code) : "exited with code";
                if (emsg.find(txt) == std::string::npos)
                    fail("filter-error-status", cat(emsg.substr(0, 300), " expected: ", txt));
                count("filter_failures");
            }
            std::string got_err = flt->errors.str();
            if (m.err_exact && !unhappy)
            {
                std::string e = m.err;
                if (m.name == "fail")
                    e += "\n";
                if (got_err != e)
                    fail("filter-stderr", cat(m.name, ": ", describe(e, got_err)));
                count("filter_stderr");
            }
            if (!m.counted.empty() && !unhappy)
            {
                unsigned long n = std::stoul(read_text(m.counted));
                if (n != in.size())
                    fail("filter-input", cat("the filter read ", n, " bytes instead of ", in.size()));
                count("filter_inputs");
            }
        }
        if (filtered)
        {
            flt.reset();
            int st;
            if (waitpid(-1, &st, WNOHANG) != -1)
                fail("child-left", "the filter is still running, or was not waited for");
            // The reader closes its own file descriptor when it ends
            unsigned now = open_fds();
            if (now > fds)
                fail("fd-leak", cat("file descriptors open: ", fds, " before the filter, ", now, " after"));
        }
        // What the destination has to get
        std::string phase_exp = filtered ? m.out(in) : in;
        if (threw || eof_dest || d.closing)
        {
            interrupted = true;
            why         = threw ? msg : "closed";
            exp += phase_exp;
        }
        else
        {
            if (stall && exp.size() + phase_exp.size() > d.stall_after + capacity)
                fail("no-timeout", cat("sent ", exp.size() + phase_exp.size(), " bytes to a destination that stopped at ", d.stall_after));
            exp += phase_exp;
            count("phases_complete");
        }
    }
    faults.enabled = false;
    out.reset();
    if (d.fd)
    {
        int fl = fcntl(*d.fd, F_GETFL);
        if (fl != orig_fl)
            fail("flags", cat("file flags were ", orig_fl, " and are left as ", fl));
    }
    d.finish();
    if (d.kind != "discard")
    {
        std::string got = d.contents();
        if (interrupted || d.closing)
        {
            size_t n = got.size();
            // base64 of a partial input ends with a partial group
            if (!is_prefix(got, exp) && !(n >= 4 && log.find("base64") != std::string::npos && is_prefix(got.substr(0, n - 4), exp)))
                fail("interrupted-content", cat(why, ": ", describe(exp, got)));
            count("prefixes");
        }
        else
        {
            if (got != exp)
                fail("content", describe(exp, got));
            count("contents");
            count("bytes_compared", got.size());
        }
    }
    srcfd.close();
    unsigned fds_after = open_fds();
    if (fds_after >= fds_before && d.kind != "file" && d.kind != "append" && d.kind != "offset")
        if (fds_after > fds_before - 1)
            fail("fd-leak-end", cat("file descriptors open: ", fds_before - 1, " at the beginning, ", fds_after, " at the end"));
    distinct(log);
    count("evals");
    if (rng.chance(1))
        sample(log);
}

/// Queries with a postprocessor, on a dataset
void c25_dataset(Case& c)
{
    auto& rng = c.rng;
    signal(SIGPIPE, SIG_IGN);
    hook();
    fs::path pp    = fs::absolute(opts.dir) / "pp";
    static bool ok = false;
    if (!ok)
    {
        fs::create_directories(pp);
        auto script = [&](const std::string& name, const std::string& text) {
            write_text(pp / name, "#!/bin/sh\n" + text + "\n");
            fs::permissions(pp / name, fs::perms::owner_all);
        };
        script("vh-cat", "exec cat");
        script("vh-slow", "cat; sleep 0.01");
        script("vh-fail", "cat; echo something bad >&2; exit 4");
        script("vh-head", "exec head -c 100");
        script("vh-args", "echo \"$1,$2\"; cat >/dev/null");
        Config::get().dir_postproc.push_back(pp);
        ok = true;
    }
    faults         = Faults();
    faults.rng     = Rng(rng.next());
    faults.partial = rng.pick({0u, 30u});
    faults.again   = rng.pick({0u, 10u});

    DsConf conf = ConfGen().make(rng);
    Store s(rng, conf, c.dir / "ds");
    s.gen.max_filler = rng.pick({100u, 5000u, 50000u});
    s.import(s.make_items(rng.range(1, 25)));
    Result exp = s.query();

    std::string name = rng.pick({std::string("vh-cat"), std::string("vh-cat"), std::string("vh-slow"), std::string("vh-fail"),
                                 std::string("vh-head"), std::string("vh-args")});
    bool damage      = rng.chance(25);
    Dest d;
    d.kind = rng.pick({std::string("memory"), std::string("pipe")});
    if (d.kind == "pipe")
    {
        int p[2];
        if (pipe2(p, O_CLOEXEC) < 0)
            throw std::runtime_error("pipe");
        fcntl(p[1], F_SETPIPE_SZ, rng.pick({4096, 65536}));
        d.rfd    = p[0];
        d.fd     = std::make_shared<core::NamedFileDescriptor>(p[1], d.kind);
        d.reader = std::thread([&d, seed = rng.next(), mode = (int)rng.below(3)] { d.run_reader(seed, mode); });
    }
    context(cat(s.conf.desc(), "; postprocess with ", name, " to a ", d.kind, damage ? ", with a segment truncated" : "", "; ", exp.items.size(),
                " items"));
    if (damage)
    {
        // Reading the data fails after some was sent
        std::vector<fs::path> files;
        for (const auto& e : fs::recursive_directory_iterator(c.dir / "ds"))
            if (e.is_regular_file() && e.path().native().find(fmt_name(conf.format)) != std::string::npos &&
                e.path().extension() != ".metadata" && e.path().extension() != ".summary" && fs::file_size(e.path()) > 1)
                files.push_back(e.path());
        std::sort(files.begin(), files.end());
        if (!files.empty())
        {
            fs::path f = files[rng.below(files.size())];
            fs::resize_file(f, rng.below(fs::file_size(f)));
        }
    }
    std::string msg;
    {
        auto reader = s.ds->create_reader();
        auto out    = d.kind == "memory" ? StreamOutput::create(d.memory) : StreamOutput::create(d.fd);
        query::Bytes q;
        q.setPostprocess(s.session->matcher(""), name + (name == "vh-args" ? "  one  two" : ""));
        faults.enabled = true;
        try
        {
            reader->query_bytes(q, *out);
        }
        catch (std::exception& e)
        {
            msg = e.what();
        }
        faults.enabled = false;
    }
    int st;
    if (waitpid(-1, &st, WNOHANG) != -1)
        fail("child-left", "the postprocessor is still running, or was not waited for");
    d.finish();
    std::string got = d.contents();
    count("postprocessed");
    if (damage)
    {
        if (!msg.empty())
            count("postprocess_aborted");
        return;
    }
    if (name == "vh-fail" && (msg.find("something bad") == std::string::npos || msg.find("code 4") == std::string::npos))
        fail("filter-error-unreported", cat("got: ", msg));
    if (name != "vh-fail" && !msg.empty() && !(name == "vh-head" && msg.find("closed its input pipe") != std::string::npos))
        fail("unexpected-error", msg);
    if (name == "vh-args")
    {
        if (got != "one,two\n")
            fail("args", got);
        return;
    }
    if (name == "vh-head" && !msg.empty())
    {
        if (got.size() > 100)
            fail("content", "more than the filter outputs");
        return;
    }
    // What is sent is each item in order, with its data
    write_text(c.dir / "pp.out", got);
    if (name == "vh-head")
    {
        if (got.size() != 100)
            fail("content", cat(got.size(), " bytes instead of 100"));
        return;
    }
    std::vector<std::string> keys, got_keys;
    for (const auto& i : exp.items)
        keys.push_back(cat(i.uid, " ", hash_str(std::string(i.data.begin(), i.data.end()))));
    core::File in(c.dir / "pp.out", O_RDONLY);
    metadata::BinaryReader reader(in);
    reader.read_all([&](std::shared_ptr<Metadata> md) {
        auto data = md->get_data().read();
        Item it   = item_from_data(conf.format, data);
        got_keys.push_back(cat(it.uid, " ", hash_str(std::string(data.begin(), data.end()))));
        return true;
    });
    if (keys != got_keys)
        fail("postprocess-content", cat("the postprocessor was sent ", got_keys.size(), " items instead of ", keys.size(), ", or different"));
    count("postprocess_items", keys.size());
    distinct(cat(conf.desc(), name, keys.size(), d.kind));
}

void c25_all(Case& c)
{
    if (c.rng.chance(12))
        c25_dataset(c);
    else
        c25(c);
}

} // namespace

int main(int argc, const char* argv[]) { return run_main(argc, argv, {{"C25", c25_all}}); }
