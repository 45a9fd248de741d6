#!/usr/bin/env python3
"""trybug.py ID...: applies seeded/ID/patch.diff to /repo, builds, runs the stable tests, the demo and the
property's quick check, and undoes it.  Prints one line per bug."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def main():
    nocheck = "--nocheck" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo not clean"
    for i in ids:
        d = os.path.join(V, "seeded", i)
        prop = json.load(open(d + "/meta.json"))["property"]
        r = {"id": i, "property": prop}
        try:
            sh("bash /opt/vp/build.sh")
            p = sh("cd /repo && bash %s/demo.sh" % d, timeout=300)
            r["demo_base"] = p.returncode
            if p.returncode:
                print(p.stdout.decode(errors="replace")[-800:])
            p = sh("git -C /repo apply %s/patch.diff" % d)
            if p.returncode:
                r["apply"] = p.stdout.decode()
                continue
            p = sh("bash /opt/vp/test.sh /tmp/tb.json")
            t = json.load(open("/tmp/tb.json"))
            miss = [x for x in base if x not in t["passed"]]
            r["tests"] = "ok" if not miss else "FAIL %s" % miss[:3]
            p = sh("cd /repo && bash %s/demo.sh" % d, timeout=300)
            r["demo_bug"] = p.returncode
            if not nocheck:
                t0 = time.time()
                p = sh("cd %s && VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s quick" % (V, prop), timeout=1000)
                o = p.stdout.decode(errors="replace")
                r["check"] = p.returncode
                r["caught"] = p.returncode == 1 and "VIOLATION property=%s" % prop in o
                r["s"] = round(time.time() - t0)
                if not r["caught"]:
                    print(o[-1500:])
        finally:
            sh("git -C /repo checkout -- .")
            print(json.dumps(r), flush=True)
    sh("bash /opt/vp/build.sh")


main()
