"""Builds the AST printer and runs it on every translation unit of the library as it is in /repo now."""
import hashlib
import json
import os
import re
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, "build")
REPO = os.environ.get("VERIF_REPO", "/repo")
SETS = ("SIM_INF_SRCS", "EKF_UTL_SRCS", "EKF_SRCS", "SIM_SRCS")


def sources():
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    out = []
    for s in SETS:
        m = re.search(r"set\(\s*" + s + r"\s+([^)]*)\)", txt)
        if m:
            out += m.group(1).split()
    return [s for s in out if os.path.exists(os.path.join(REPO, s))]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def plugin():
    src = os.path.join(VERIF, "tool", "vcx.cpp")
    so = os.path.join(BUILD, "vcx.so")
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    st = so + ".hash"
    if os.path.exists(so) and os.path.exists(st) and open(st).read() == h:
        return so
    tmp = so + f".{os.getpid()}"
    r = sh(["clang++-18", "-std=c++17", "-O1", "-fno-rtti", "-fPIC", "-shared", "-I/usr/lib/llvm-18/include", src, "-o", tmp])
    if r.returncode:
        raise RuntimeError("cannot build the AST printer: " + r.stderr[-2000:])
    os.replace(tmp, so)
    open(st, "w").write(h)
    return so


def version_header():
    """infrastructure/ekf_cal_version.hpp is generated by CMake from a template"""
    d = os.path.join(BUILD, "gen", "infrastructure")
    os.makedirs(d, exist_ok=True)
    tin = os.path.join(REPO, "src/infrastructure/ekf_cal_version.hpp.in")
    txt = open(tin).read()
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    def val(n):
        m = re.search(r"set\(\s*" + n + r"\s+([^)\s]+)\)", cm)
        v = m.group(1) if m else "0"
        return re.sub(r"\$\{(\w+)\}", lambda k: val(k.group(1)), v)
    txt = re.sub(r"@(\w+)@|\$\{(\w+)\}", lambda m: val(m.group(1) or m.group(2)), txt)
    p = os.path.join(d, "ekf_cal_version.hpp")
    if not os.path.exists(p) or open(p).read() != txt:
        tmp = p + f".{os.getpid()}"
        open(tmp, "w").write(txt)
        os.replace(tmp, p)
    return os.path.join(BUILD, "gen")


def tree_hash():
    h = hashlib.sha256()
    h.update(open(os.path.join(VERIF, "tool", "vcx.cpp"), "rb").read())
    fs = []
    for d, _, names in os.walk(os.path.join(REPO, "src")):
        for n in names:
            if n.endswith((".cpp", ".hpp", ".in", ".h")):
                fs.append(os.path.join(d, n))
    fs.append(os.path.join(REPO, "CMakeLists.txt"))
    for f in sorted(fs):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()


def extract(only=None):
    """list of JSON documents, one per translation unit; cached by the content of /repo/src"""
    so = plugin()
    gen = version_header()
    hh = tree_hash()
    cache = os.path.join(BUILD, "ast", hh[:20])
    os.makedirs(cache, exist_ok=True)
    root = os.path.dirname(cache)
    for d in os.listdir(root):
        p = os.path.join(root, d)
        if p != cache and os.path.isdir(p) and len(os.listdir(root)) > 3 and time.time() - os.path.getmtime(p) > 1800:
            for f in os.listdir(p):
                try:
                    os.remove(os.path.join(p, f))
                except OSError:
                    pass
            try:
                os.rmdir(p)
            except OSError:
                pass

    def one(s):
        out = os.path.join(cache, s.replace("/", "_") + ".json")
        if not os.path.exists(out):
            tmp = out + f".{os.getpid()}"
            P = ["-Xclang", "-plugin-arg-vcx", "-Xclang"]
            cmd = ["clang++-18", "-std=gnu++14", "-fsyntax-only", "-w", "-I" + REPO + "/src", "-I" + gen,
                   "-isystem", "/usr/include/opencv4", "-Xclang", "-load", "-Xclang", so, "-Xclang", "-plugin", "-Xclang", "vcx",
                   *P, "root", *P, REPO + "/src", *P, "out", *P, tmp, os.path.join(REPO, s)]
            r = sh(cmd)
            if r.returncode or not os.path.exists(tmp):
                raise RuntimeError(f"front end failed on {s}: " + r.stderr[-1500:])
            os.replace(tmp, out)
        return json.load(open(out))

    srcs = [s for s in sources() if only is None or s in only]
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, srcs))


if __name__ == "__main__":
    t = time.time()
    d = extract()
    print(len(d), sum(len(x["functions"]) for x in d), time.time() - t)
