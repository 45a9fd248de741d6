"""Builds the library under test from /repo's working tree and links a driver.

Nothing is written inside /repo.  Objects go to a content-addressed cache
(/verif/.cache, ignored by git); the key covers the compiler flags, the source
file and every header/included source of the tree, so a stale object can never
be used for a changed tree.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")

# The shipped configuration is NDEBUG + AVX2 (RelWithDebInfo); we add ASan and
# lower the optimisation level (no -ffast-math anywhere, so results agree).
COMMON = ["-g1", "-DNDEBUG", "-mavx2", "-DJSMN_PARENT_LINKS=1", "-w",
          "-fno-omit-frame-pointer", "-fsanitize=address", "-ffp-contract=off",
          # indeterminate values become the same values in every run
          "-ftrivial-auto-var-init=pattern"]


class BuildError(Exception):
    pass


def _sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-4000:])
    return p.stdout


def pkg(args):
    try:
        return _sh(["pkg-config"] + args).decode().split()
    except (BuildError, FileNotFoundError):
        return []


def config_header(dest):
    """nx_config.h as the project's configure step makes it."""
    src = os.path.join(REPO, "include/virg/nexus/nx_config.h.in")
    t = open(src).read()
    t = re.sub(r"#cmakedefine01\s+(\w+)", r"#define \1 1", t)
    t = t.replace("@VIRG_NEXUS_SIMD_ALIGNMENT@", "64")
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    for k in ("VERSION_MAJOR", "VERSION_MINOR"):
        m = re.search(r"set\(%s\s+(\d+)\)" % k, cm)
        t = t.replace("@%s@" % k, m.group(1) if m else "0")
    d = os.path.join(dest, "virg/nexus")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "nx_config.h")
    if not os.path.exists(p) or open(p).read() != t:
        with open(p, "w") as f:
            f.write(t)
    return t


def sources():
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    cm = re.sub(r"#[^\n]*", "", cm)
    srcs = []
    for s in re.findall(r"\bsrc/[\w/\-\.]+\.(?:c|cc|cpp)\b", cm):
        if "/GL/" in s or s in srcs:
            continue
        if os.path.exists(os.path.join(REPO, s)):
            srcs.append(s)
    if len(srcs) < 20:
        raise BuildError("could not read the source list from CMakeLists.txt")
    return srcs


def tree_hash(cfg):
    h = hashlib.sha256()
    h.update(cfg.encode())
    files = sorted(glob.glob(REPO + "/include/**/*.h*", recursive=True)
                   + glob.glob(REPO + "/src/**/*.h*", recursive=True)
                   + [REPO + "/src/nx_vector_gen.c"])
    for f in files:
        if f.endswith("nx_config.h") or not os.path.isfile(f):
            continue
        h.update(f[len(REPO):].encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()


def _compile(args):
    src, obj, flags = args
    if os.path.exists(obj):
        return obj
    cc = ["gcc", "-std=gnu11"] if src.endswith(".c") else ["g++", "-std=c++17"]
    tmp = obj + ".%d.tmp" % os.getpid()
    _sh(cc + flags + ["-c", src, "-o", tmp])
    os.replace(tmp, obj)
    return obj


def build_driver(driver, extra_flags=(), extra_srcs=()):
    """Returns the path of the driver executable."""
    os.makedirs(CACHE, exist_ok=True)
    inc = os.path.join(CACHE, "include")
    cfg = config_header(inc)
    th = tree_hash(cfg)
    iflags = ["-I" + inc, "-I" + REPO + "/include"] + pkg(["--cflags", "cairo"])
    jobs = []
    for s in sources():
        opt = "-O0" if s.endswith("fast_9.c") else "-O1"
        flags = [opt] + COMMON + iflags
        p = os.path.join(REPO, s)
        key = hashlib.sha256((th + "|" + s + "|" + " ".join(flags)).encode()
                             + open(p, "rb").read()).hexdigest()[:24]
        jobs.append((p, os.path.join(CACHE, key + ".o"), flags))
    hdir = os.path.join(VERIF, "harness")
    hh = b"".join(open(f, "rb").read() for f in sorted(glob.glob(hdir + "/*.hpp")))
    dobjs = []
    for d in [driver] + list(extra_srcs):
        p = os.path.join(hdir, d)
        flags = ["-O1"] + COMMON + iflags + ["-I" + hdir] + list(extra_flags)
        key = hashlib.sha256((th + "|" + d + "|" + " ".join(flags)).encode() + hh
                             + open(p, "rb").read()).hexdigest()[:24]
        o = os.path.join(CACHE, key + ".o")
        jobs.append((p, o, flags))
        dobjs.append(o)
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(_compile, jobs))
    objs = [j[1] for j in jobs if j[1] not in dobjs]
    key = hashlib.sha256("|".join(sorted(objs) + dobjs).encode()).hexdigest()[:24]
    exe = os.path.join(CACHE, os.path.splitext(driver)[0] + "-" + key)
    if not os.path.exists(exe):
        lib = exe + ".%d.a" % os.getpid()
        if os.path.exists(lib):
            os.unlink(lib)
        _sh(["ar", "rcs", lib] + objs)
        tmp = exe + ".%d.tmp" % os.getpid()
        libs = ["-lm", "-llapack", "-lcblas", "-lpng", "-ljpeg"] + pkg(["--libs", "cairo"])
        _sh(["g++", "-fsanitize=address", "-o", tmp] + dobjs + [lib] + libs)
        os.unlink(lib)
        os.replace(tmp, exe)
    return exe


def prune_cache(limit=1500 * 1024 * 1024):
    fs = [(os.path.getmtime(f), os.path.getsize(f), f)
          for f in glob.glob(CACHE + "/*") if os.path.isfile(f)]
    tot = sum(f[1] for f in fs)
    for m, s, f in sorted(fs):
        if tot < limit:
            break
        os.unlink(f)
        tot -= s
