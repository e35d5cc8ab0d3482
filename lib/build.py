#!/usr/bin/env python3
"""Build arkimet's sources (from /repo's working tree) and the harness in /verif/harness.

Nothing is written in /repo.  Everything goes below $VERIF_BUILD (default
/verif/build), which git ignores.  The list of library sources is taken from
/repo/arki/meson.build at each run, so that a file added to or removed from the
library is followed.  ccache (keyed on contents, not on timestamps) makes the
rebuild incremental even where the files of a copy have new timestamps.
"""
import fcntl
import os
import re
import shutil
import subprocess
import sys
import sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

CONFIG_H = """#pragma once
#define ARKI_HAVE_SPLICE
#define ARKI_IOTRACE
#define CONF_DIR "etc/arkimet"
#undef HAVE_DBALLE
#define HAVE_GEOS
#define HAVE_GRIBAPI
#define HAVE_LIBARCHIVE
#define HAVE_LIBCURL
#define HAVE_LIBZIP
#define HAVE_LUA
#define HAVE_LZO2
#undef HAVE_VM2
#define PACKAGE_VERSION "1.66"
#define POSTPROC_DIR "/nonexistent/arkimet-postproc"
"""

INCLUDES = ["-I{repo}", "-I{repo}/arki", "-I{gen}", "-I{gen}/arki/matcher/reftime", "-I/usr/include/lua5.1", "-I/usr/include/lzo"]
LIBS = ("-lgeos_c -llua5.1 -llzo2 -leccodes -larchive -lzip -lz -lcurl -lsqlite3 -lssl -lcrypto -pthread -ldl").split()

FLAVOURS = {
    # AddressSanitizer + UndefinedBehaviorSanitizer: the main build
    "asan": {
        "cxx": "clang++",
        "cflags": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
                  "-fno-sanitize=shift-base,function,vptr,alignment,nonnull-attribute,signed-integer-overflow -fno-sanitize-recover=undefined",
        "ldflags": "-fsanitize=address,undefined",
    },
    # AddressSanitizer and every check of UndefinedBehaviorSanitizer that arkimet's build can pass: decoders
    "ub": {
        "cxx": "clang++",
        "cflags": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
                  "-fno-sanitize=function,vptr,nonnull-attribute -fno-sanitize-recover=undefined",
        "ldflags": "-fsanitize=address,undefined",
    },
    # ThreadSanitizer
    "tsan": {
        "cxx": "clang++",
        "cflags": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread",
        "ldflags": "-fsanitize=thread",
    },
    # No sanitizer: crash and fault enumeration, where the workload is repeated once per system call
    "plain": {
        "cxx": "clang++",
        "cflags": "-O1 -g1 -fno-omit-frame-pointer",
        "ldflags": "",
    },
    "fuzz": {
        "cxx": "clang++",
        "cflags": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined,fuzzer-no-link "
                  "-fno-sanitize=shift-base,function,vptr,alignment,nonnull-attribute,signed-integer-overflow -fno-sanitize-recover=undefined",
        "ldflags": "-fsanitize=address,undefined,fuzzer",
    },
}

WARN = "-w"
COMMON = "-std=c++17 -D_FILE_OFFSET_BITS=64 -fPIC -pthread -DARKI_VERIF"


class BuildError(Exception):
    pass


def lib_sources():
    """Names, relative to /repo/arki, of the sources of libarkimet that build here."""
    text = open(os.path.join(REPO, "arki/meson.build")).read()
    head = text.split("libarkimet = both_libraries")[0]
    # Drop the sources which need libraries that are not there
    head = re.sub(r"if (dballe|meteo_vm2)_dep\.found\(\).*?endif", "", head, flags=re.S)
    res = re.findall(r"'([a-z0-9_/-]+\.cc)'", head)
    sub = open(os.path.join(REPO, "arki/matcher/reftime/meson.build")).read()
    sub = sub.split("custom_target")[0]
    res += ["matcher/reftime/" + x for x in re.findall(r"'([a-z0-9_-]+\.cc)'", sub)]
    if len(res) < 100:
        raise BuildError(f"only {len(res)} sources found in meson.build")
    return sorted(set(res))


def py_sources():
    """Names, relative to /repo/arki/python, of the sources of the Python module that build here."""
    text = open(os.path.join(REPO, "arki/python/meson.build")).read()
    text = text.split("if dballe_dep")[0]
    res = re.findall(r"'([a-zA-Z0-9_/-]+\.cc)'", text)
    if len(res) < 25:
        raise BuildError(f"only {len(res)} sources of the Python module found in meson.build")
    return sorted(set(res) - {"arki-bufr-prepare.cc", "scan/vm2.cc"})


def write_if_changed(path, text):
    try:
        with open(path) as fd:
            if fd.read() == text:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as fd:
        fd.write(text)
    os.rename(tmp, path)


def find_clang():
    return shutil.which("clang++") or shutil.which("clang++-18") or "clang++"


def generate():
    gen = os.path.join(BUILD, "gen")
    write_if_changed(os.path.join(gen, "config.h"), CONFIG_H)
    write_if_changed(os.path.join(gen, "arki/libconfig.h"), CONFIG_H)
    ccache = shutil.which("ccache")
    out = []
    w = out.append
    w("ninja_required_version = 1.5")
    w("builddir = " + BUILD)
    pre = "ccache " if ccache else ""
    inc = " ".join(INCLUDES).format(repo=REPO, gen=gen)
    inc += f" -I{VERIF}/harness"
    w("rule flex\n  command = flex --outfile=$outcc --header-file=$outh $in\n  description = flex\n  restat = 1")
    w("rule bison\n  command = bison -Wno-all --output=$outcc $in\n  description = bison\n  restat = 1")
    w("rule ar\n  command = rm -f $out && ar crs $out $in\n  description = ar $out")
    rd = f"{gen}/arki/matcher/reftime"
    src = f"{REPO}/arki/matcher/reftime"
    w(f"build {rd}/reftime-lex.cc {rd}/reftime-lex.h: flex {src}/reftime-lex.ll\n"
      f"  outcc = {rd}/reftime-lex.cc\n  outh = {rd}/reftime-lex.h")
    w(f"build {rd}/reftime-parse.cc {rd}/reftime-parse.hh: bison {src}/reftime-parse.yy\n"
      f"  outcc = {rd}/reftime-parse.cc")
    gens = [f"{rd}/reftime-lex.cc", f"{rd}/reftime-parse.cc"]
    genh = f"{rd}/reftime-lex.h {rd}/reftime-parse.hh"
    harness = sorted(f for f in os.listdir(os.path.join(VERIF, "harness")) if f.endswith(".cc"))
    for name, fl in FLAVOURS.items():
        cxx = find_clang() if fl["cxx"] == "clang++" else fl["cxx"]
        d = os.path.join(BUILD, name)
        w(f"rule cxx_{name}\n  command = {pre}{cxx} {COMMON} {WARN} {fl['cflags']} {inc} -MD -MF $out.d -c $in -o $out\n"
          f"  depfile = $out.d\n  deps = gcc\n  description = {name} $in")
        lld = "-fuse-ld=lld" if shutil.which("ld.lld") else ""
        w(f"rule link_{name}\n  command = {cxx} {lld} {fl['ldflags']} -rdynamic -o $out $in {' '.join(LIBS)}\n  description = link $out")
        objs = []
        for s in lib_sources():
            if not os.path.exists(os.path.join(REPO, "arki", s)):
                raise BuildError(f"{s} is listed in meson.build but is not there")
            o = f"{d}/lib/{s}.o"
            w(f"build {o}: cxx_{name} {REPO}/arki/{s} || {genh}")
            objs.append(o)
        for g in gens:
            o = f"{d}/lib/{os.path.basename(g)}.o"
            w(f"build {o}: cxx_{name} {g} || {genh}")
            objs.append(o)
        w(f"build {d}/libarki.a: ar {' '.join(objs)}")
        common = [f for f in harness if f.startswith("common")]
        cobjs = []
        for h in harness:
            w(f"build {d}/h/{h}.o: cxx_{name} {VERIF}/harness/{h} || {genh}")
            if h in common:
                cobjs.append(f"{d}/h/{h}.o")
        for h in harness:
            if h in common:
                continue
            isfuzz = h.startswith("fuzz")
            if isfuzz != (name == "fuzz"):
                continue
            b = h[:-3]
            w(f"build {d}/{b}: link_{name} {d}/h/{h}.o {' '.join(cobjs)} {d}/libarki.a")
    # The Python module, without what needs DB-All.e and meteo-vm2
    pyinc = sysconfig.get_paths()["include"]
    w(f"rule cxx_py\n  command = {pre}{find_clang()} {COMMON} {WARN} {FLAVOURS['plain']['cflags']} {inc} -I{pyinc} -MD -MF $out.d "
      f"-c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = py $in")
    w(f"rule link_py\n  command = {find_clang()} {'-fuse-ld=lld' if shutil.which('ld.lld') else ''} -shared -o $out $in "
      f"{' '.join(LIBS)} -lwreport\n  description = link $out")
    d = os.path.join(BUILD, "py")
    objs = []
    for s in py_sources():
        w(f"build {d}/o/{s}.o: cxx_py {REPO}/arki/python/{s} || {genh}")
        objs.append(f"{d}/o/{s}.o")
    w(f"build {d}/o/stub.o: cxx_py {VERIF}/harness/py/stub.cc || {genh}")
    for x in ("common", "common_inst"):
        w(f"build {d}/o/{x}.o: cxx_py {VERIF}/harness/{x}.cc || {genh}")
    w(f"build {d}/_arkimet.so: link_py {' '.join(objs)} {d}/o/stub.o {d}/o/common.o {d}/o/common_inst.o {BUILD}/plain/libarki.a")
    write_if_changed(os.path.join(BUILD, "build.ninja"), "\n".join(out) + "\n")


def build(targets):
    """targets: list of (flavour, harness name). Returns the paths of the binaries."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        generate()
        env = dict(os.environ)
        env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
        env["CCACHE_MAXSIZE"] = "4G"
        env["CCACHE_SLOPPINESS"] = "time_macros"
        env.setdefault("LC_ALL", "C.UTF-8")
        paths = [os.path.join(BUILD, f, n) for f, n in targets]
        proc = subprocess.run(["ninja", "-C", BUILD, "-j", os.environ.get("VERIF_JOBS", "8")] + paths,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True)
        if proc.returncode != 0:
            raise BuildError(proc.stdout[-6000:])
    return paths


if __name__ == "__main__":
    try:
        t = [tuple(x.split("/")) for x in sys.argv[1:]]
        for p in build(t):
            print(p)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
