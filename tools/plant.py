#!/usr/bin/env python3
"""Development tool (no check uses it). plant.py FILE [ID..]: for each planted change described in FILE, in a scratch copy
/tmp/plant/repo of /repo: apply, build, run the existing tests, run the demonstration with and without it, write
seeded/ID/, and run the named check(s) of $PLANT_VERIF (a copy of /verif) on it.
--all runs every check on each, --nocheck none."""
import sys, os, subprocess, json, shutil, re, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"
R = W + "/repo"
PV = os.environ.get("PLANT_VERIF", V)
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def fresh():
    if not os.path.exists(R + "/.git"):
        shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
        sh("git clone -q /repo " + R)
        for f in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + f).read().replace("/repo", R).replace("/opt/vp/build.sh", W + "/build.sh")
            open(W + "/" + f, "w").write(t)
        shutil.copytree(R, W + "/base"); 
        t = open(W + "/build.sh").read().replace(R, W + "/base"); open(W + "/buildbase.sh", "w").write(t)
        r = sh("bash " + W + "/buildbase.sh"); assert r.returncode == 0, r.stdout
    sh("git -C %s checkout -q -- ." % R)
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = '''#!/bin/bash
# run with cwd = repository root after its build; exit 0: the property holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -g -I src "$D/demo.cpp" _build/src/liblibCADTest.a -o "$T/demo" || exit 2
cd "$T" || exit 2
timeout 120 ./demo
'''
def main():
    args = [a for a in sys.argv[2:] if not a.startswith("--")]
    al = "--all" in sys.argv; nocheck = "--nocheck" in sys.argv
    specs = runpy.run_path(sys.argv[1])["PLANTS"]
    fresh()
    for s in specs:
        if args and s["id"] not in args: continue
        sh("git -C %s checkout -q -- ." % R)
        out = [s["id"]]
        try:
            for f, old, new in s["edits"]:
                p = R + "/src/" + f
                t = open(p, newline="", encoding="latin-1").read()
                nl = "\r\n" if "\r\n" in t else "\n"
                old, new = old.replace("\n", nl), new.replace("\n", nl)
                assert t.count(old) == 1, ("match", f, old, t.count(old))
                open(p, "w", newline="", encoding="latin-1").write(t.replace(old, new))
        except AssertionError as e:
            print(s["id"], "EDIT FAILS", e, flush=True); continue
        d = V + "/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "-C", R, "diff", "--binary"], stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(diff)
        open(d + "/demo.cpp", "w").write(s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(s.get("demo_sh", DEMO)); os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        r = sh("bash %s/test.sh %s/o.json" % (W, W))
        try: o = json.load(open(W + "/o.json")); missing = STABLE - set(o["passed"])
        except Exception: missing = {"build"}
        out.append("tests ok" if not missing else "TESTS FAIL %s %s" % (sorted(missing)[:4], r.stdout[-600:] if "build" in missing else ""))
        a = sh("bash %s/demo.sh" % d, cwd=W + "/base"); b = sh("bash %s/demo.sh" % d, cwd=R)
        out.append("demo ok" if a.returncode == 0 and b.returncode not in (0, 2) else "DEMO %d/%d %s | %s" % (a.returncode, b.returncode, a.stdout[-300:], b.stdout[-300:]))
        print(*out, flush=True)
        if nocheck: continue
        ps = sorted(x[:-4] for x in os.listdir(PV + "/harness") if re.match(r"C\d+\.cpp", x)) if al else s["prop"].split() + s.get("also", [])
        for p in ps:
            r = sh("VERIF_REPO=%s %s/check %s --tier quick" % (R, PV, p))
            vio = re.findall(r"VIOLATION.*", r.stdout)
            if not al or r.returncode:
                f = V + "/tools/detections.json"; dd = json.load(open(f)) if os.path.exists(f) else {}
                old = set(dd.get(s["id"], "").split()) - {"missed", p}
                if r.returncode == 1: old.add(p)
                dd[s["id"]] = " ".join(sorted(old)) or "missed"; json.dump(dd, open(f, "w"), indent=1, sort_keys=True)
            if r.returncode or not al: print("   ", p, "rc=%d" % r.returncode, vio[0][:60] if vio else "", r.stdout.strip().splitlines()[-1][:200], flush=True)
    sh("git -C %s checkout -q -- ." % R)
main()
