#!/usr/bin/env python3
"""Build a planted bug from /tmp/seeds/ID.py (dict S: property, needs, breaks, edits [(file, old, new)], demo, srcs) into
/verif/seeded/ID after confirming it: builds, passes the tests, demo fails with it and passes without it.
Usage: seed.py FILE.py ... ; each file may define several seeds in the dict SEEDS."""
import sys, os, subprocess, json, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# Exit 0 if the library behaves, non-zero otherwise. Run in the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -r "$d"' EXIT
g++ -std=c++17 -g -O1 %s -Icode/include -o "$d/demo" "$here/demo.cc" code/src/*.cc || exit 3
cd "$d" && timeout 60 ./demo
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    only = None
    for f in sys.argv[1:]:
        if not f.endswith(".py"):
            only = f
    for f in [a for a in sys.argv[1:] if a.endswith(".py")]:
        for sid, s in runpy.run_path(f)["SEEDS"].items():
            if only and sid != only:
                continue
            d = f"{V}/seeded/{sid}"
            if os.path.exists(d):
                continue
            w = f"/tmp/seedwork"
            sh(f"rm -rf {w}; cp -a /repo {w}; cd {w}; git checkout -q -- .")
            ok = True
            for fn, old, new in s["edits"]:
                t = open(f"{w}/{fn}").read()
                if t.count(old) != 1:
                    print(sid, "edit matches", t.count(old), "times:", old[:60]); ok = False; break
                open(f"{w}/{fn}", "w").write(t.replace(old, new))
            if not ok:
                continue
            os.makedirs(d)
            open(d + "/demo.cc", "w").write(s["demo"])
            open(d + "/demo.sh", "w").write(DEMO % s.get("flags", ""))
            os.chmod(d + "/demo.sh", 0o755)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
            diff = sh(f"git -C {w} diff").stdout
            open(d + "/patch.diff", "w").write(diff)
            r0 = sh(f"cd /repo && bash {d}/demo.sh")
            r1 = sh(f"cd {w} && bash {d}/demo.sh")
            ok = r0.returncode == 0 and r1.returncode not in (0, 2, 3)
            if not ok:
                print(sid, "DEMO", r0.returncode, r1.returncode, r0.stdout[-1500:], r1.stdout[-1500:])
            else:
                b = sh(f"git -C /repo apply {d}/patch.diff && bash /opt/vp/build.sh; bash /opt/vp/test.sh /tmp/seed.json; git -C /repo checkout -- .")
                try:
                    o = json.load(open("/tmp/seed.json"))
                    base = json.load(open("/opt/vp/BASELINE.json"))
                    names = base if isinstance(base, list) else base.get("passed", base.get("stable", []))
                    miss = [n for n in names if n not in o["passed"]]
                except Exception as e:
                    miss = [repr(e), b.stdout[-500:]]
                if miss or os.path.getmtime("/tmp/seed.json") < os.path.getmtime(d + "/patch.diff"):
                    print(sid, "TESTS FAIL", miss[:3], b.stdout[-300:]); ok = False
            if ok:
                r = sh(f"git -C /repo apply {d}/patch.diff; cd {V}; timeout 900 python3 bin/vf.py check {s['property']} quick; echo RC=$?; git -C /repo checkout -- .")
                v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
                print(sid, "PLANTED", "CAUGHT" if v and "RC=1" in r.stdout else "MISSED", v[0][:150] if v else r.stdout[-300:])
            else:
                shutil.rmtree(d)
            sh(f"rm -rf {w}")
    sh("bash /opt/vp/build.sh")


main()
