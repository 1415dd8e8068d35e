#!/usr/bin/env python3
"""Developer aid: applies planted bugs of seeded/ to /repo one at a time, confirms that they count (build, stable tests,
demo) and shows which checks catch them.   tools/seedtest.py [--nocheck] [--all-checks] ID...      No check uses this."""
import json, os, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def stable():
    f = tempfile.mktemp()
    sh("bash", "/opt/vp/test.sh", f)
    txt = open(f).read(); os.remove(f)
    d = json.loads(txt)
    passed = d.get("passed", d)
    return set(passed)
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
args = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
bad = 0
for i in args:
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    r = {"id": i, "property": prop}
    def demo():
        return sh("bash", d + "/demo.sh", cwd="/repo", timeout=300)
    if "--nocheck-clean" not in sys.argv:
        p = demo(); r["demo_clean"] = p.returncode
        if p.returncode: print(p.stdout.decode()[-1500:])
    a = sh("git", "-C", "/repo", "apply", d + "/patch.diff")
    if a.returncode:
        print(i, "PATCH DOES NOT APPLY", a.stdout.decode()); continue
    try:
        b = sh("bash", "/opt/vp/build.sh"); r["build"] = b.returncode
        if b.returncode: print(b.stdout.decode()[-1500:])
        r["stable_missing"] = sorted(base - stable())
        p = demo(); r["demo_bug"] = p.returncode; out = p.stdout.decode(errors="replace").strip().splitlines()
        r["demo_says"] = out[-1][:120] if out else ""
        if "--nocheck" not in sys.argv:
            t = time.time()
            props = [prop] if "--all-checks" not in sys.argv else [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
            for q in props:
                c = sh(V + "/check", q, "quick", cwd=V, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
                if c.returncode: r.setdefault("caught_by", []).append("%s(%d)" % (q, c.returncode))
                if c.returncode and q == prop: r["why"] = [l for l in c.stdout.decode(errors="replace").splitlines() if l.startswith("#")][:2]
            r["t"] = round(time.time() - t)
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
    ok = not r["demo_clean"] and not r["build"] and not r["stable_missing"] and r["demo_bug"] and ("caught_by" in r or "--nocheck" in sys.argv)
    print("ok  " if ok else "????", json.dumps(r), flush=True)
    bad += not ok
sh("bash", "/opt/vp/build.sh")
print("done,", bad, "not ok")
