"""
Runs arkimet's command line tools and server for the harness.

The modules are loaded once; each command is then run in a forked process, the way its script would run it.
Requests and replies are lines of JSON on standard input and on file descriptor 3.
"""
import ctypes
import json
import os
import signal
import sys
import traceback
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [os.environ["VH_PYMOD"], os.path.join(REPO, "python")]
os.environ["ARKI_SCAN"] = REPO + "/conf/scan"
os.environ["ARKI_FORMATTER"] = REPO + "/conf/format"
os.environ["ARKI_BBOX"] = REPO + "/conf/bbox"
os.environ["ARKI_QMACRO"] = REPO + "/conf/qmacro"
os.environ["ARKI_POSTPROC"] = os.path.join(os.path.dirname(os.path.abspath(__file__)), "postproc")
os.environ["ARKI_ALIASES"] = REPO + "/conf/match-alias.conf"

import _arkimet  # noqa: E402
_arkimet.scan.vm2 = types.SimpleNamespace(get_station=lambda *a, **k: {}, get_variable=lambda *a, **k: {})

import arkimet  # noqa: E402
import arkimet.cmdline.base  # noqa: E402
TOOLS = {}
for name in ("query", "scan", "dump", "check", "mergeconf", "xargs"):
    script = os.path.join(REPO, "src", "arki-" + name)
    with open(script, "rt") as fd:
        TOOLS["arki-" + name] = (script, compile(fd.read(), script, "exec"))
    __import__("arkimet.cmdline." + name)
import arkimet.scan  # noqa: E402
arkimet.scan.registry.ensure_loaded()


def child(req):
    """Set up the forked process as the request asks; returns nothing"""
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    os.chdir(req["cwd"])
    for n, (key, flags) in enumerate((("stdin", os.O_RDONLY), ("stdout", os.O_WRONLY | os.O_CREAT | os.O_TRUNC),
                                      ("stderr", os.O_WRONLY | os.O_CREAT | os.O_TRUNC))):
        fd = os.open(req.get(key) or "/dev/null", flags, 0o666)
        os.dup2(fd, n, inheritable=True)
        os.close(fd)
    os.close(3)
    for k, v in req.get("env", {}).items():
        os.environ[k] = v
    if req.get("synthetic", True):
        _arkimet.scan.vh_install_scanners()


def run_tool(req):
    child(req)
    argv = req["argv"]
    script, code = TOOLS[argv[0]]
    sys.argv = [script] + argv[1:]
    res = 0
    try:
        exec(code, {"__name__": "__main__", "__file__": script})
    except SystemExit as e:
        if e.code is None:
            res = 0
        elif isinstance(e.code, int):
            res = e.code & 0xff
        else:
            print(e.code, file=sys.stderr)
            res = 1
    except BaseException:
        traceback.print_exc()
        res = 1
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    except BaseException:
        res = 120
    os._exit(res)


def run_server(req, wfd):
    os.setpgid(0, 0)
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    child(req)
    import logging
    logging.basicConfig(stream=sys.stderr, level=logging.INFO)
    from arkimet.cmdline.server import make_server
    config = arkimet.cfg.Sections.parse(req["config"])
    aliases = arkimet.cfg.Sections.parse(req["aliases"]) if req.get("aliases") else None
    httpd = make_server("localhost", 0, config, aliases=aliases)
    host, port = httpd.server_address[:2]
    httpd.url = "http://localhost:%d" % port
    httpd.set_config(config)
    os.write(wfd, b"%d\n" % port)
    os.close(wfd)
    httpd.serve_forever()


def reply(**kw):
    os.write(3, (json.dumps(kw) + "\n").encode())


def main():
    servers = set()
    for line in sys.stdin:
        req = json.loads(line)
        if req["op"] == "tool":
            pid = os.fork()
            if pid == 0:
                try:
                    run_tool(req)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(121)
            status = os.waitpid(pid, 0)[1]
            if os.WIFSIGNALED(status):
                reply(rc=-os.WTERMSIG(status))
            else:
                reply(rc=os.WEXITSTATUS(status))
        elif req["op"] == "server":
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    run_server(req, w)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(121)
            os.close(w)
            with os.fdopen(r) as fd:
                port = fd.readline().strip()
            servers.add(pid)
            reply(port=int(port or 0), pid=pid)
        elif req["op"] == "stop":
            pid = req["pid"]
            os.killpg(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            servers.discard(pid)
            reply(rc=0)
    for pid in servers:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


if __name__ == "__main__":
    main()
