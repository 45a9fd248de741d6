"""The check: model checking + conformance of the real code, for one property."""
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import build, tlc

VERIF = tlc.VERIF
NCPU = min(8, os.cpu_count() or 4)


class Comp:
    """One property's machinery; subclassed in vp/comps."""
    prop = None
    driver = None            # harness/<driver>
    trace = None             # (module, cfg)
    models = {}              # tier -> [(module, cfg, dict(options))]
    level = "model_checking"
    assumptions = []
    trace_env = {}
    chunk_events = 1500      # events per TLC trace-validation process
    corrupt = None           # optional: f(events) -> corrupted copy that must be rejected
    never_ok = ()            # actions legitimately untaken in the bounded model

    def mc_scripts(self, mc_cases, rng, tier):
        """Scripts replaying the behaviours generated from the specification."""
        return []

    def gen_scripts(self, rng, tier):
        """Randomised scripts: list of (list of lines)."""
        return []

    def annotate(self, events):
        """Optional post-processing of recorded events (never changes outcomes)."""
        return events

    def run_driver(self, exe, script, out, scratch):
        p = subprocess.run([exe, script, out, scratch], stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=800)
        if p.returncode != 0:
            raise RuntimeError("driver failed rc=%d %s" % (p.returncode, p.stderr.decode(errors="replace")[-500:]))

    def prepare(self):
        return build.build_driver(self.driver)


def write_script(path, cases):
    with open(path, "w") as f:
        for cid, lines in cases:
            f.write("@ %s\n" % cid)
            for ln in lines:
                f.write(ln + "\n")


def read_events(path):
    evs = []
    with open(path) as f:
        for line in f:
            if line.strip():
                evs.append(line.rstrip("\n"))
    return evs


def drive(comp, exe, cases, work, tag):
    """Runs the cases; returns list of (case id, [event lines])."""
    script = os.path.join(work, tag + ".script")
    out = os.path.join(work, tag + ".ev")
    scratch = os.path.join(work, tag + ".d")
    os.makedirs(scratch, exist_ok=True)
    write_script(script, cases)
    comp.run_driver(exe, script, out, scratch)
    res = []
    for line in read_events(out):
        if line.startswith('{"op":"case"'):
            res.append((json.loads(line)["id"], []))
        res[-1][1].append(line)
    shutil.rmtree(scratch, ignore_errors=True)
    os.unlink(script)
    os.unlink(out)
    return res


def validate_chunk(comp, recs, work, tag):
    """recs: list of (id, events).  Returns None or (index of rejected case, event index, note), stats."""
    path = os.path.join(work, tag + ".ndjson")
    n = 0
    starts = []
    with open(path, "w") as f:
        for cid, evs in recs:
            starts.append(n)
            for e in comp.annotate(evs):
                f.write(e + "\n")
                n += 1
    reached, total, st, note = tlc.validate(comp.trace[0], comp.trace[1], path, env=comp.trace_env,
                                            timeout=800)
    os.unlink(path)
    if reached >= total:
        return None, st
    k = max(i for i, s in enumerate(starts) if s <= reached)
    return (k, reached - starts[k], note), st


def chunks(recs, size):
    cur, n = [], 0
    for r in recs:
        cur.append(r)
        n += len(r[1])
        if n >= size:
            yield cur
            cur, n = [], 0
    if cur:
        yield cur


def known_findings(prop):
    """lines:  finding: property=C01 case=<id> <text>"""
    res = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + prop:
                res[w[2].split("=", 1)[1]] = w[3].strip()
    return res


def check(comp, tier, seed):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vp-%s-" % comp.prop)
    log = lambda *a: print(*a, flush=True)
    try:
        # the model is checked and the code is built in parallel
        with cf.ThreadPoolExecutor(max_workers=1) as ex, cf.ThreadPoolExecutor(max_workers=4) as mex:
            fb = ex.submit(comp.prepare)
            stats, mc_cases = [], []
            todo = comp.models.get(tier, comp.models.get("quick", []))
            runs = list(mex.map(lambda m: tlc.model_check(m[0], m[1], **m[2]), todo))
            for (mod, cfg, opt), (st, cs) in zip(todo, runs):
                bad = [a for a in st["never_taken"] if a not in comp.never_ok]
                if bad:
                    raise tlc.TLCError("vacuous model %s/%s: actions never taken: %s" % (mod, cfg, bad))
                st.update(module=mod, cfg=cfg, emitted=len(cs))
                stats.append(st)
                mc_cases.extend(cs)
                log("model %s/%s: %d distinct states, %d transitions, depth %d, %d behaviours emitted"
                    % (mod, cfg, st["states"], st["generated"], st["depth"], len(cs)))
            exe = fb.result()
        rng = random.Random(seed)
        cases = []
        for i, lines in enumerate(comp.mc_scripts(mc_cases, rng, tier)):
            cases.append(("m%d" % i, lines))
        nm = len(cases)
        for i, lines in enumerate(comp.gen_scripts(rng, tier)):
            cases.append(("g%d" % i, lines))
        kf = known_findings(comp.prop)
        kcases = [(k, comp.finding_script(k)) for k in kf]
        t1 = time.time()
        # run the real code
        per = max(1, (len(cases) + NCPU * 4 - 1) // (NCPU * 4))
        groups = [cases[i:i + per] for i in range(0, len(cases), per)]
        recs = []
        with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
            for r in ex.map(lambda a: drive(comp, exe, a[1], work, "d%d" % a[0]), list(enumerate(groups))):
                recs.extend(r)
        nev = sum(len(r[1]) for r in recs)
        t2 = time.time()
        log("driver: %d cases (%d from the model), %d events, %.1fs" % (len(cases), nm, nev, t2 - t1))
        # validate every recorded execution against the specification
        size = max(50, min(comp.chunk_events, nev // NCPU + 1))
        chs = list(chunks(recs, size))
        rejects, tstates = [], 0
        with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
            for ch, (rej, st) in zip(chs, ex.map(lambda a: validate_chunk(comp, a[1], work, "t%d" % a[0]),
                                                 list(enumerate(chs)))):
                tstates += st["generated"]
                if rej:
                    rejects.append((ch[rej[0]][0], ch[rej[0]][1], rej[1], rej[2]))
        log("trace validation: %d chunks, %d trace states, %.1fs" % (len(chs), tstates, time.time() - t2))
        # a rejection counts only if re-running the case repeats it
        bycase = dict(cases)
        viol = []
        for cid, evs, k, note in rejects[:4]:
            rep = False
            for attempt in range(3):
                r = drive(comp, exe, [(cid, bycase[cid])], work, "r")
                rej, _ = validate_chunk(comp, r, work, "rv")
                if rej:
                    rep = True
                    evs, k, note = r[0][1], rej[1], rej[2]
                    break
            if not rep:
                # the outcome may depend on what ran before it in the same process
                g = next(g for g in groups if any(c == cid for c, _ in g))
                g = g[:1 + [c for c, _ in g].index(cid)]
                for attempt in range(3):
                    r = drive(comp, exe, g, work, "r")
                    rej, _ = validate_chunk(comp, r, work, "rv")
                    if rej:
                        rep = True
                        cid, evs, k, note = r[rej[0]][0], r[rej[0]][1], rej[1], rej[2]
                        break
            if not rep:
                # the recording itself is still evidence, unless the machine was too slow for the case
                bad = evs[k] if k < len(evs) else ""
                rej, _ = validate_chunk(comp, [(cid, evs)], work, "rv")
                rep = bool(rej) and "HANG" not in bad
            if not rep:
                log("NOTE: rejection of case %s was not repeated" % cid)
                continue
            viol.append(report(comp, cid, bycase[cid], evs, k, note, log))
        if rejects and not viol:
            raise RuntimeError("rejections could not be repeated")
        for cid, lines in kcases:
            r = drive(comp, exe, [(cid, lines)], work, "k")
            rej, _ = validate_chunk(comp, r, work, "kv")
            if rej:
                log("KNOWN-FINDING: property=%s case=%s %s" % (comp.prop, cid, kf[cid]))
        # binding self-test: a corrupted recording must be rejected
        ncorr, ntried = 0, 0
        if not viol and comp.corrupt:
            ncorr, ntried = selftest(comp, recs, work, random.Random(seed + 7), 3 if tier == "quick" else 12)
            log("self-test: %d of %d corrupted recordings rejected" % (ncorr, ntried))
        samples = []
        for cid, evs in recs[:1] + recs[nm:nm + 1]:
            samples.append({"case": cid, "script": bycase[cid][:12], "events": [json.loads(e) for e in evs[:6]]})
        ev = {
            "property": comp.prop, "tier": tier, "seed": seed, "level": comp.level,
            "coverage": {
                "states": sum(s["states"] for s in stats),
                "transitions": sum(s["generated"] for s in stats),
                "traces_validated_against_impl": len(recs),
                "trace_events": nev,
                "behaviours_from_model": nm,
                "models": [{k: s[k] for k in ("module", "cfg", "states", "generated", "depth", "emitted")}
                           for s in stats],
                "model_action_coverage": {s["module"] + "/" + s["cfg"]: s["coverage"] for s in stats},
                "corrupted_recordings_rejected": ncorr,
                "samples": samples,
            },
            "assumptions": list(comp.assumptions),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", comp.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log("%s %s: %s in %.1fs" % (comp.prop, tier, "VIOLATED" if viol else "held", time.time() - t0))
        return 1 if viol else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def selftest(comp, recs, work, rng, n):
    done = 0
    tries = 0
    pool = [r for r in recs if len(r[1]) > 1]
    batch = []
    while len(batch) < n and tries < 60 and pool:
        tries += 1
        cid, evs = rng.choice(pool)
        c = comp.corrupt([json.loads(e) for e in evs], rng)
        if c is not None:
            batch.append((cid, [json.dumps(x) for x in c]))
    if not batch:
        raise RuntimeError("self-test: nothing could be corrupted")
    with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
        for b, (rej, _) in zip(batch, ex.map(lambda a: validate_chunk(comp, [a[1]], work, "c%d" % a[0]),
                                             list(enumerate(batch)))):
            if rej:
                done += 1
            elif os.environ.get("VP_DEBUG"):
                print("accepted: %s" % json.dumps(b)[:3000])
    # a single corruption can fall within a tolerance; if none is noticed, nothing is being checked
    if not done:
        raise RuntimeError("self-test: every corrupted recording was accepted")
    return done, len(batch)


def report(comp, cid, lines, evs, k, note, log):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (comp.prop, cid))
    with open(path, "w") as f:
        json.dump({"property": comp.prop, "case": cid, "script": lines, "events": evs,
                   "rejected_event": k, "note": note}, f, indent=1)
    log("rejected: case %s event %d %s" % (cid, k, note))
    log("  accepted up to : %s" % (evs[k - 1][:400] if k > 0 else "-"))
    log("  cannot explain : %s" % (evs[k][:600] if k < len(evs) else "-"))
    log("VIOLATION property=%s replay=%s" % (comp.prop, path))
    return path


def replay(comp, path):
    j = json.load(open(path))
    work = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        exe = comp.prepare()
        r = drive(comp, exe, [(j["case"], j["script"])], work, "r")
        for e in r[0][1]:
            print(e[:2000])
        rej, _ = validate_chunk(comp, r, work, "rv")
        print("REJECTED at event %s" % (rej,) if rej else "accepted")
        return 1 if rej else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(argv):
    import importlib
    prop = argv[0]
    reg = json.load(open(os.path.join(VERIF, "vp", "registry.json")))
    if prop not in reg:
        print("unknown property", prop)
        return 2
    comp = importlib.import_module("vp.comps." + reg[prop]).COMP[prop]
    if len(argv) > 2 and argv[1] == "replay":
        return replay(comp, argv[2])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        rc = check(comp, tier, seed)
        build.prune_cache()
        return rc
    except Exception:
        traceback.print_exc()
        print("ERROR: the check itself failed (no verdict)")
        return 3
