#pragma once
// Runs arkimet's command line tools and server, in processes forked from one which has already loaded them:
// see py/zygote.py
#include "common.h"
#include <csignal>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vh {

class Zygote
{
    pid_t pid = -1;
    int wfd = -1;
    FILE* rfile = nullptr;

    static std::filesystem::path source_dir() { return std::filesystem::path(__FILE__).parent_path(); }

public:
    static std::filesystem::path postproc_dir() { return source_dir() / "py/postproc"; }
    static std::string repo()
    {
        const char* r = getenv("VERIF_REPO");
        return r ? r : "/repo";
    }

    void start()
    {
        auto exe = std::filesystem::read_symlink("/proc/self/exe");
        auto mod = exe.parent_path().parent_path() / "py";
        int in[2], out[2];
        if (pipe2(in, O_CLOEXEC) || pipe2(out, O_CLOEXEC))
            throw std::runtime_error("pipe failed");
        pid = fork();
        if (pid == 0)
        {
            dup2(in[0], 0);
            dup2(2, 1);
            int fd = fcntl(out[1], F_DUPFD, 10);
            dup2(fd, 3);
            close(fd);
            setenv("VH_PYMOD", mod.c_str(), 1);
            setenv("LC_ALL", "C.UTF-8", 1);
            unsetenv("PYTHONPATH");
            auto script = (source_dir() / "py/zygote.py").native();
            execlp("python3", "python3", "-u", script.c_str(), nullptr);
            _exit(127);
        }
        close(in[0]);
        close(out[1]);
        wfd   = in[1];
        rfile = fdopen(out[0], "r");
        signal(SIGPIPE, SIG_IGN);
    }
    ~Zygote()
    {
        if (wfd >= 0)
            close(wfd);
        if (rfile)
            fclose(rfile);
        if (pid > 0)
            waitpid(pid, nullptr, 0);
    }
    /// Send a request, and return the line sent as a reply
    std::string request(std::string req)
    {
        if (pid == -1)
            start();
        req += "\n";
        for (size_t p = 0; p < req.size();)
        {
            ssize_t n = ::write(wfd, req.data() + p, req.size() - p);
            if (n < 0)
                throw std::runtime_error("cannot write to the process that runs tools");
            p += n;
        }
        char* line = nullptr;
        size_t n   = 0;
        if (getline(&line, &n, rfile) <= 0)
        {
            fprintf(stderr, "the process that runs tools ended\n");
            _exit(3);
        }
        std::string res(line);
        free(line);
        return res;
    }
    static long field(const std::string& reply, const std::string& name)
    {
        auto p = reply.find("\"" + name + "\":");
        if (p == std::string::npos)
            throw std::runtime_error("unexpected reply " + reply);
        return atol(reply.c_str() + p + name.size() + 3);
    }
};

/// One per process
inline Zygote& zygote()
{
    static Zygote z;
    return z;
}

struct Server
{
    int port = 0;
    long pid = 0;
    std::string url;
    std::filesystem::path errlog;

    Server(const std::filesystem::path& cwd, const std::filesystem::path& config,
           const std::filesystem::path& aliases = std::filesystem::path())
        : errlog(cwd / "server.err")
    {
        auto rep = zygote().request(cat("{\"op\":\"server\",\"cwd\":", jstr(cwd), ",\"stderr\":", jstr(errlog),
                                        ",\"config\":", jstr(config), ",\"aliases\":", jstr(aliases), "}"));
        port = Zygote::field(rep, "port");
        pid  = Zygote::field(rep, "pid");
        url  = "http://localhost:" + std::to_string(port);
        if (!port)
            throw std::runtime_error("server did not start: " + read_text(errlog));
    }
    ~Server()
    {
        try
        {
            zygote().request(cat("{\"op\":\"stop\",\"pid\":", pid, "}"));
        }
        catch (...)
        {
        }
    }
};

/// Result of a command line tool
struct Tool
{
    int rc = 0;
    std::string out, err;
    std::string cmd;

    static Tool run(const std::filesystem::path& cwd, const std::vector<std::string>& argv, const std::string& in = "",
                    const std::string& env = "{}")
    {
        Tool res;
        auto so = cwd / ".stdout", se = cwd / ".stderr", si = cwd / ".stdin";
        write_text(si, in);
        std::string a;
        for (const auto& x : argv)
        {
            a += (a.empty() ? "" : ",") + jstr(x);
            res.cmd += (res.cmd.empty() ? "" : " ") + x;
        }
        auto rep = zygote().request(cat("{\"op\":\"tool\",\"argv\":[", a, "],\"cwd\":", jstr(cwd), ",\"stdin\":", jstr(si),
                                        ",\"stdout\":", jstr(so), ",\"stderr\":", jstr(se), ",\"env\":", env, "}"));
        res.rc  = Zygote::field(rep, "rc");
        res.out = read_text(so);
        res.err = read_text(se);
        for (const auto& f : {so, se, si})
            std::filesystem::remove(f);
        return res;
    }
};

} // namespace vh
