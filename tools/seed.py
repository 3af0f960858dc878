#!/usr/bin/env python3
"""Confirms planted bugs, and says which checks catch them.

  seed.py new ID PROP FILE 's/..'   (edits by hand are easier: see diff)
  seed.py verify ID...   patch applies, builds, stable tests pass, demo 0 before / non-zero after
  seed.py catch ID...    run the property's check (or --prop C01,C02) on a patched copy
"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return p.returncode, p.stdout.decode("utf8", "replace")

def patched(i):
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    shutil.copytree("/repo", d + "/r", symlinks=True)
    rc, o = run(["git", "-C", d + "/r", "apply", "--whitespace=nowarn", os.path.join(SEED, i, "patch.diff")])
    if rc:
        print(i, "DOES NOT APPLY", o); shutil.rmtree(d); return None
    return d

INNER = r"""
mount --bind %(d)s/r /repo
cd /repo
bash /opt/vp/build.sh >/tmp/seedb.$$ 2>&1 || { echo BUILD-FAILED; grep -m5 error /tmp/seedb.$$; rm -f /tmp/seedb.$$; exit 3; }
bash /opt/vp/test.sh %(d)s/t.json >/dev/null 2>&1
rm -f /tmp/seedb.$$
timeout 300 bash %(d)s/demo/demo.sh > %(d)s/demo.out 2>&1
echo DEMO $?
"""

def verify(i, patch=True):
    d = patched(i) if patch else tempfile.mkdtemp(prefix="seed", dir="/tmp")
    if not d: return False
    if not patch: shutil.copytree("/repo", d + "/r", symlinks=True)
    shutil.copytree(os.path.join(SEED, i), d + "/demo", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    rc, o = run(["unshare", "-m", "bash", "-c", INNER % {"d": d}])
    demo = int(o.split("DEMO ")[1].split()[0]) if "DEMO " in o else None
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    ok = False
    try:
        t = json.load(open(d + "/t.json")); missing = base - set(t["passed"])
        ok = not missing
        if missing: print(i, "tests now failing:", sorted(missing)[:5])
    except Exception as e:
        print(i, "no test result", e, o[-300:])
    out = open(d + "/demo.out").read() if os.path.exists(d + "/demo.out") else ""
    shutil.rmtree(d)
    good = ok and (demo != 0 if patch else demo == 0) and demo is not None
    print(i, "patched" if patch else "clean", "tests", "ok" if ok else "FAIL", "demo", demo, "GOOD" if good else "BAD", "" if good else out[-600:], flush=True)
    return good

def catch(i, props=None):
    d = patched(i)
    if not d: return
    for p in props or [json.load(open(os.path.join(SEED, i, "meta.json")))["property"]]:
        t = time.time()
        rc, o = run([sys.executable, os.path.join(V, "check.py"), p], env=dict(os.environ, VERIF_REPO=d + "/r", VERIF_TIER="quick"), timeout=2000)
        lab = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        det = [l for l in o.splitlines() if "violat" in l.lower() or "CHECK" in l][:2]
        f = os.path.join(V, "tools", "catch.json"); cm = json.load(open(f)) if os.path.exists(f) else {}
        import re
        hit = sorted(set(re.findall(r"^(\w+?)\.\w+: ", o, re.M))) if rc == 1 else []
        cm[i] = sorted(set([x for x in cm.get(i, []) if not x.startswith(p + ":")] + [p + ":" + h for h in hit]))
        json.dump(cm, open(f, "w"), indent=0, sort_keys=True)
        print(i, p, "rc", rc, "%ds" % (time.time() - t), (lab[:1] or ["-"])[0], "|", " / ".join(x.strip()[:150] for x in det), "" if rc in (0, 1) else o[-300:], flush=True)
    shutil.rmtree(d)

if __name__ == "__main__":
    a = sys.argv[2:]
    props = None
    if "--prop" in a: k = a.index("--prop"); props = a[k + 1].split(","); del a[k:k + 2]
    if not a or a == ["all"]: a = sorted(os.listdir(SEED))
    for i in a:
        if sys.argv[1] == "verify": verify(i, False); verify(i, True)
        elif sys.argv[1] == "catch": catch(i, props)
