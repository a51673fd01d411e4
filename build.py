#!/usr/bin/env python3
"""Builds the harnesses from /repo's working tree (never from a copy).

usage: build.py TARGET...     e.g. build.py vis_mc          -> build/bin/vis_mc

Every /repo source except the tools' main.cc is compiled with the stand-ins of
/verif/shim in front of the system headers (TBB: the explorer's scheduler;
Embree 3: brute force; pareto: a list), one object directory per flavour:
  o    -O1, libstdc++ assertions
  q    -O2, for the slow tools
  san  -O1, address + undefined sanitizer
  mem  -O1, gcc's -fsanitize=thread instrumentation, linked NOT with libtsan but
       with mc/memhook.cc, so that every memory access of the code under test
       is visible to the explorer
Harness targets are declared in targets.json.
"""
import glob, json, os, subprocess, sys, fcntl

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("MC_REPO", "/repo")
B = os.environ.get("MC_BUILD", os.path.join(V, "build"))

DEFS = '-DERICWTOOLS_VERSION=\\"mc\\" -DFMT_SHARED -DLINUX -DUSE_PTHREADS -DUSE_LUA -DHAVE_EMBREE -DNDEBUG'
INC = f"-I{V}/shim -I{V} -I{R}/include -I{R}/3rdparty -I/usr/include/lua5.4"
BASE = "-std=gnu++20 -fno-omit-frame-pointer -w"
FLAV = {
    "o": "-O1 -g1 -D_GLIBCXX_ASSERTIONS",
    "q": "-O2 -g1 -D_GLIBCXX_ASSERTIONS",
    "san": "-O1 -g1 -fsanitize=address,undefined -fno-sanitize=vptr,float-divide-by-zero,float-cast-overflow,nonnull-attribute,alignment -fno-sanitize-recover=all",
    "mem": "-O1 -g1 -fsanitize=thread -DMC_MEMHOOK=1",
}
LINKFL = {"o": "", "q": "", "san": "-fsanitize=address,undefined", "mem": ""}
LIBS = "-lfmt -llua5.4 -lpthread"

PCH = """
#include <filesystem>
#include <functional>
#include <array>
#include <any>
#include <atomic>
#include <bitset>
#include <cassert>
#include <cinttypes>
#include <cstdarg>
#include <iostream>
#include <fstream>
#include <list>
#include <mutex>
#include <vector>
#include <set>
#include <unordered_set>
#include <map>
#include <unordered_map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <shared_mutex>
#include <type_traits>
#include <variant>
#include <fmt/core.h>
#include <tbb/scalable_allocator.h>
#include <tbb/task_group.h>
#include <tbb/parallel_for.h>
#include <tbb/parallel_for_each.h>
"""

def libsources():
    out = []
    for d in ("common", "vis", "qbsp", "light", "bsputil", "maputil"):
        for f in sorted(glob.glob(f"{R}/{d}/*.cc")):
            if os.path.basename(f) != "main.cc":
                out.append((d, f))
    return out

def gen():
    os.makedirs(B, exist_ok=True)
    pch = f"{B}/pch.hxx"
    if not os.path.exists(pch) or open(pch).read() != PCH:
        open(pch, "w").write(PCH)
    targets = json.load(open(f"{V}/targets.json"))
    n = ["ninja_required_version = 1.8", "builddir = " + B]
    n += ["rule cxx", "  command = g++ $fl -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc"]
    n += ["rule pch", "  command = g++ $fl -x c++-header -MD -MF $out.d $in -o $out", "  depfile = $out.d", "  deps = gcc"]
    n += ["rule ar", "  command = rm -f $out && ar crs $out $in"]
    n += ["rule link", "  command = g++ -o $out $in $fl $libs"]
    inc_for = {}
    for fl, opt in FLAV.items():
        f = f"{BASE} {opt} {DEFS} {INC}"
        d = f"{B}/{fl}"
        # a pch directory per flavour: -include finds pch.hxx.gch beside pch.hxx
        os.makedirs(d, exist_ok=True)
        p = f"{d}/pch.hxx"
        if not os.path.exists(p) or open(p).read() != PCH:
            open(p, "w").write(PCH)
        n += [f"build {p}.gch: pch {p}", f"  fl = {f}"]
        use = f"{f} -include {p}"
        inc_for[fl] = use
        libs = {}
        for lib, src in libsources():
            o = f"{d}/{lib}/{os.path.basename(src)}.o"
            n += [f"build {o}: cxx {src} | {p}.gch", f"  fl = {use}"]
            libs.setdefault(lib, []).append(o)
        for lib, objs in libs.items():
            n += [f"build {d}/lib{lib}.a: ar " + " ".join(objs)]
        noinst = use.replace("-fsanitize=thread ", "")
        for src in sorted(glob.glob(f"{V}/mc/*.cc")):
            o = f"{d}/mc/{os.path.basename(src)}.o"
            # the explorer itself is never instrumented (and so takes no pch in "mem")
            uf = (f"{BASE} {opt} {DEFS} {INC}".replace("-fsanitize=thread ", "")) if fl == "mem" else use
            n += [f"build {o}: cxx {src} | {p}.gch", f"  fl = {uf}"]
    for name, t in targets.items():
        fl = t.get("flavour", "o")
        d = f"{B}/{fl}"
        objs = []
        for s in t["src"]:
            src = s.replace("@R", R)
            if not src.startswith("/"):
                src = f"{V}/{src}"
            o = f"{d}/h/{name}/{os.path.basename(src)}.o"
            uf = inc_for[fl]
            if fl == "mem" and not t.get("instrument_harness"):
                uf = uf.replace("-fsanitize=thread ", "").split(" -include ")[0]
            n += [f"build {o}: cxx {src} | {d}/pch.hxx.gch", f"  fl = {uf} {t.get('cflags','')}"]
            objs.append(o)
        mc = [f"{d}/mc/{m}.o" for m in t.get("mc", ["sched.cc"])]
        libs = [f"{d}/lib{l}.a" for l in t["libs"]]
        n += [f"build {B}/bin/{name}: link " + " ".join(objs + mc) + " | " + " ".join(libs),
              f"  fl = {LINKFL[fl]} {t.get('ldflags','')}",
              f"  libs = -Wl,--start-group {' '.join(libs)} -Wl,--end-group {LIBS} {t.get('ldlibs','')}"]
    txt = "\n".join(n) + "\n"
    path = f"{B}/build.ninja"
    if not os.path.exists(path) or open(path).read() != txt:
        open(path, "w").write(txt)

def build(names, quiet=False):
    os.makedirs(B, exist_ok=True)
    with open(f"{B}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        gen()
        p = subprocess.run(["ninja", "-C", B, "-f", f"{B}/build.ninja"] + [f"{B}/bin/{x}" for x in names],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            keep = [l for l in p.stdout.splitlines() if not l.startswith('g++ ') and ' g++ ' not in l]
            print('\n'.join(keep)[:6000])
        return p.returncode

if __name__ == "__main__":
    sys.exit(build(sys.argv[1:] or list(json.load(open(f"{V}/targets.json")))))
