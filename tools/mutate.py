#!/usr/bin/env python3
"""Mutation campaign: which small changes of a source file would the quick checks miss?

  tools/mutate.py base [C..]            record what the unchanged tree answers to the quick scripts
  tools/mutate.py run SEED N file...    N random mutants of each file; survivors are printed

A mutant is compiled on its own, linked with the unchanged rest, and driven with the same scripts.
Cases answered as before need no validation; cases answered differently are given to the trace
specification.  A mutant no property rejects is a survivor: to be read, as it is either equivalent,
outside every property, or a gap.  Nothing is written in /repo.
"""
import concurrent.futures as cf, glob, hashlib, importlib, json, os, pickle, random, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, core, tlc

BASE = os.environ.get("MUT_BASE", "/tmp/mut/base")
REG = json.load(open(os.path.join(core.VERIF, "vp", "registry.json")))


def comp_of(p):
    return importlib.import_module("vp.comps." + REG[p]).COMP[p]


def base(p):
    c = comp_of(p)
    exe = c.prepare()
    cases = []
    rng = random.Random(1)
    mc = []
    for m in c.models.get("quick", []):
        mc.extend(tlc.model_check(m[0], m[1], **m[2])[1])
    for i, l in enumerate(c.mc_scripts(mc, rng, "quick")):
        cases.append(("m%d" % i, l))
    for i, l in enumerate(c.gen_scripts(rng, "quick")):
        cases.append(("g%d" % i, l))
    runs = []
    for k in range(2):
        w = tempfile.mkdtemp(prefix="mut-")
        runs.append(dict(rundrv(c, exe, cases, w, 8)))
        shutil.rmtree(w)
    flaky = [i for i, _ in cases if runs[0].get(i) != runs[1].get(i)]
    os.makedirs(BASE, exist_ok=True)
    pickle.dump((cases, runs[0], flaky), open("%s/%s.pkl" % (BASE, p), "wb"))
    print(p, len(cases), "cases", len(flaky), "flaky", flush=True)


def rundrv(c, exe, cases, w, par):
    per = max(1, (len(cases) + par * 2 - 1) // (par * 2))
    gr = [cases[i:i + per] for i in range(0, len(cases), per)]
    out = []
    with cf.ThreadPoolExecutor(max_workers=par) as ex:
        for r in ex.map(lambda a: core.drive(c, exe, a[1], w, "d%d" % a[0]), list(enumerate(gr))):
            out.extend(r)
    return out


def plan(driver):
    """(source, object, flags) of everything but with nothing compiled that is there"""
    build.build_driver(driver)
    inc = os.path.join(build.CACHE, "include")
    th = build.tree_hash(build.config_header(inc))
    iflags = ["-I" + inc, "-I" + build.REPO + "/include"] + build.pkg(["--cflags", "cairo"])
    jobs = {}
    for s in build.sources():
        flags = ["-O0" if s.endswith("fast_9.c") else "-O1"] + build.COMMON + iflags
        k = hashlib.sha256((th + "|" + s + "|" + " ".join(flags)).encode() + open(os.path.join(build.REPO, s), "rb").read()).hexdigest()[:24]
        jobs[s] = (os.path.join(build.CACHE, k + ".o"), flags)
    hdir = os.path.join(core.VERIF, "harness")
    hh = b"".join(open(f, "rb").read() for f in sorted(glob.glob(hdir + "/*.hpp")))
    flags = ["-O1"] + build.COMMON + iflags + ["-I" + hdir]
    k = hashlib.sha256((th + "|" + driver + "|" + " ".join(flags)).encode() + hh + open(os.path.join(hdir, driver), "rb").read()).hexdigest()[:24]
    return jobs, os.path.join(build.CACHE, k + ".o")


def strip(code):
    """same length, comments and strings blanked"""
    def f(m):
        return re.sub(r"[^\n]", " ", m.group(0))
    return re.sub(r"/\*.*?\*/|//[^\n]*|\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])+'|^[ \t]*#(?:\\\n|[^\n])*", f, code, flags=re.S | re.M)


OPS = [(r"(?<![<\-=>])<(?![<=])", ["<="]), (r"<=(?!>)", ["<"]), (r"(?<![\->=])>(?![>=])", [">="]), (r">=", [">"]),
       (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"(?<=[\w\)\]] )\+(?= )", ["-"]), (r"(?<=[\w\)\]] )-(?= )", ["+"]), (r"(?<=[\w\)\]])\+(?=[\w\(])", ["-"]), (r"(?<=[\w\)\]])-(?=[\w\(])", ["+"]),
       (r"(?<=[\w\)\]] )\*(?= \w)", ["+"]), (r"(?<=[\w\)\]] )/(?= )", ["*"]),
       (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\*=", ["/="]), (r"<<", [">>"]), (r">>", ["<<"]),
       (r"(?<![\w\.])\d+(?![\w\.])", ["+1", "-1"]), (r"(?<![\w\.])\d+\.\d*f?(?![\w])", ["f"]),
       (r"\bNX_TRUE\b", ["NX_FALSE"]), (r"\bNX_FALSE\b", ["NX_TRUE"]), (r"\bif \((?=[^;{]*\)\s*[{\n])", ["not"]),
       (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]), (r"^[ \t]+(?!return|break|else|goto|case|static|const|struct|int |float |double |char |uchar |size_t |void |unsigned |FILE |NXBool |auto |using )[\w\->\.\[\]\*\(\)\+&][^;\n{}]*;[ \t]*$", ["del"]),
       (r"\breturn [^;]+;", ["ret0"])]


def mutants(code):
    s = strip(code)
    out = []
    for pat, reps in OPS:
        for m in re.finditer(pat, s, flags=re.M):
            a, b = m.span()
            for r in reps:
                t = code[a:b]
                if r == "+1":
                    t = str(int(t, 10) + 1) if not (len(t) > 1 and t[0] == "0") else None
                elif r == "-1":
                    t = str(int(t, 10) - 1) if not (len(t) > 1 and t[0] == "0") and t != "0" else None
                elif r == "f":
                    t = t + " * 1.01f" if "f" in t else t + " * 1.01"
                elif r == "not":
                    t = "if (!"
                    d, k = 0, b - 1
                    while k < len(s):
                        d += {"(": 1, ")": -1}.get(s[k], 0)
                        k += 1
                        if d == 0:
                            break
                    out.append((a, k, "if (!" + code[b - 1:k] + ")"))
                    continue
                elif r == "del":
                    if re.match(r"\s*[\w\*]+\s+\*?\w+\s*(=|;|,)", t):
                        t = None
                    else:
                        t = ";"
                elif r == "ret0":
                    t = "return 0;"
                else:
                    t = r
                line = s[s.rfind("\n", 0, a) + 1:s.find("\n", b)]
                if re.search(r"\b(NX_ASSERT\w*|NX_NEW\w*|va_end|nx_free)\b", line) and r in ("del", "+1", "-1", "<=", ">=", "<", ">", "||", "&&"):
                    continue
                if r == "ret0" and re.search(r"return (0|NULL|nullptr|NX_FALSE|false);", code[a:b]):
                    continue
                if t is not None and t != code[a:b]:
                    out.append((a, b, t))
    return out


def show(code, mu):
    a, b, t = mu
    ln = code.count("\n", 0, a) + 1
    l0 = code.rfind("\n", 0, a) + 1
    l1 = code.find("\n", b)
    return "%d: %s  ==>  %s" % (ln, code[l0:l1].strip(), (code[l0:a] + t + code[b:l1]).strip())


def props_of(f):
    r = []
    extra = {"src/nx_alloc.c": list(REG), "src/nx_log.c": list(REG)}
    for l in open(os.path.join(core.VERIF, "properties.jsonl")):
        d = json.loads(l)
        if d["id"] in REG and f in d["anchors"]["files"]:
            r.append(d["id"])
    return r


def one(f, code, mu, props):
    """None: does not compile; 'killed ..' or 'SURVIVED ..'"""
    w = tempfile.mkdtemp(prefix="mut-")
    try:
        src = os.path.join(w, os.path.basename(f))
        open(src, "w").write(code[:mu[0]] + mu[2] + code[mu[1]:])
        obj = None
        note = []
        for p in props:
            c = comp_of(p)
            jobs, dobj = plan(c.driver)
            if obj is None:
                obj = os.path.join(w, "m.o")
                cc = ["gcc", "-std=gnu11"] if f.endswith(".c") else ["g++", "-std=c++17"]
                try:
                    build._sh(cc + jobs[f][1] + ["-I" + os.path.join(build.REPO, "src"), "-c", src, "-o", obj])
                except build.BuildError:
                    return None
                if open(obj, "rb").read() == b"":
                    return None
            exe = os.path.join(w, "exe" + p)
            lib = os.path.join(w, "l.a")
            if os.path.exists(lib):
                os.unlink(lib)
            build._sh(["ar", "rcs", lib, obj] + [o for s, (o, _) in jobs.items() if s != f])
            build._sh(["g++", "-fsanitize=address", "-o", exe, dobj, lib, "-lm", "-llapack", "-lcblas", "-lpng", "-ljpeg"] + build.pkg(["--libs", "cairo"]))
            cases, ev0, flaky = pickle.load(open("%s/%s.pkl" % (BASE, p), "rb"))
            try:
                recs = rundrv(c, exe, cases, w, 2)
            except Exception as x:
                return "killed %s driver %s" % (p, str(x)[:60])
            os.unlink(exe)
            bad = [e for e in recs if any('"op":"%s"' % k in e[1][-1] for k in ("CRASH", "HANG", "FATAL")) and e[1] != ev0.get(e[0])]
            if bad:
                return "killed %s %s" % (p, bad[0][1][-1][:30])
            diff = [e for e in recs if e[1] != ev0.get(e[0]) and e[0] not in flaky]
            diff.sort(key=lambda e: sum(map(len, e[1])))
            fl = [e for e in recs if e[0] in flaky]
            todo = [diff[:4], diff[4:60], diff[60:]]
            if fl and diff == []:
                todo.append(fl[:250])
            for part in todo:
                if part:
                    rej, _ = core.validate_chunk(c, part, w, "v")
                    if rej:
                        return "killed %s" % p
            note.append("%s:%d/%d" % (p, len(diff), len(recs)))
        return "SURVIVED " + " ".join(note)
    except Exception as x:
        return "error " + repr(x)[:200]
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    if sys.argv[1] == "base":
        for p in sys.argv[2:] or REG:
            base(p)
        return
    seed, n = int(sys.argv[2]), int(sys.argv[3])
    par = int(os.environ.get("MUT_PAR", "5"))
    todo = []
    for f in sys.argv[4:]:
        code = open(os.path.join(build.REPO, f)).read()
        ms = mutants(code)
        rng = random.Random("%d %s" % (seed, f))
        ms = rng.sample(ms, min(n, len(ms)))
        ps = os.environ.get("MUT_PROPS", "").split() or props_of(f)
        for p in ps:
            plan(comp_of(p).driver)
        for m in ms:
            todo.append((f, code, m, ps))
    random.Random(1).shuffle(todo)
    tot = {}
    with cf.ThreadPoolExecutor(max_workers=par) as ex:
        for t, r in zip(todo, ex.map(lambda a: one(*a), todo)):
            k = "nocompile" if r is None else r.split()[0]
            tot[k] = tot.get(k, 0) + 1
            if r and not r.startswith("killed"):
                print("%s:%s\n      %s" % (t[0], show(t[1], t[2]), r), flush=True)
    print(tot)


if __name__ == "__main__":
    main()
