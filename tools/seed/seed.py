#!/usr/bin/env python3
"""seed.py NAME [...]: builds the planted bugs described in bugs/*.py in a scratch copy and confirms them; a kept one goes to /verif/seeded/NAME"""
import json, os, shutil, subprocess, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__)); SC = "/tmp/sc"; SEED = "/verif/seeded"
def sh(c, cwd=SC, to=600): 
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=to); return p.returncode, p.stdout
def ensure():
    if not os.path.isdir(SC): subprocess.check_call("cp -a /repo %s" % SC, shell=True)
    sh("git checkout -q -f -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
    os.makedirs("/tmp/scbin", exist_ok=True)
    for f in ("build.sh", "test.sh"): open("/tmp/scbin/" + f, "w").write(open("/opt/vp/" + f).read().replace("/repo", SC).replace("/opt/vp/build.sh", "/tmp/scbin/build.sh"))
def main(names):
    ensure(); stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]; bugs = {}
    for f in sorted(glob.glob(HERE + "/bugs/*.py")): bugs.update(eval(open(f).read()))
    for n in names or [b for b in bugs if not os.path.isdir(SEED + "/" + b)]:
        b = bugs[n]; sh("git checkout -q -f -- ."); bad = None
        for path, old, new in b["edits"]:
            s = open(SC + "/" + path).read(); k = b.get("nth", {}).get(old, 0)
            if s.count(old) != 1 and not k: bad = "text found %d times in %s: %r" % (s.count(old), path, old); break
            if k:
                i = -1
                for _ in range(k): i = s.index(old, i + 1)
                s = s[:i] + new + s[i + len(old):]
            else: s = s.replace(old, new)
            open(SC + "/" + path, "w").write(s)
        if bad: print(n, "EDIT", bad); continue
        rc, diff = sh("git diff"); d = "/tmp/sd/" + n; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff); open(d + "/demo.cpp", "w").write(b.get("pre", "") + '#include "demo.h"\n' + b["demo"].strip() + "\n")
        for f in ("demo.h", "ref.h"): shutil.copy(HERE + "/" + f, d)
        open(d + "/demo.sh", "w").write(open(HERE + "/demo.sh").read().replace("@THREADS@", str(b.get("threads", 1))).replace("@RANKS@", b.get("ranks", "1")).replace("@FLAGS@", b.get("flags", "")))
        os.chmod(d + "/demo.sh", 0o755); json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc, out = sh("bash /tmp/scbin/build.sh")
        if rc: print(n, "BUILD", out[-800:]); continue
        rc1, o1 = sh("bash %s/demo.sh" % d)
        if not rc1 or rc1 == 2: print(n, "DEMO passes with the patch" if not rc1 else "DEMO does not build", o1[-1500:]); continue
        rc, out = sh("bash /tmp/scbin/test.sh /tmp/sc_out.json"); res = json.load(open("/tmp/sc_out.json"))
        miss = [t for t in stable if t not in [x.replace("../tmp/sc/", "") for x in res["passed"]]]
        if miss: print(n, "TESTS fail with the patch:", miss); continue
        sh("git checkout -q -f -- ."); rc, out = sh("bash /tmp/scbin/build.sh"); rc0, o0 = sh("bash %s/demo.sh" % d)
        if rc0: print(n, "DEMO fails without the patch", o0[-1500:]); continue
        dst = SEED + "/" + n; shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst); print(n, "OK:", o1.strip().split("\n")[0][:150])
main(sys.argv[1:])
