#!/usr/bin/env python3
"""Solver-based check of one property: check.py <ID> [quick|thorough] | check.py --replay FILE | check.py --list
exit 0: held on everything explored; exit 1 + "VIOLATION property=<id> replay=<path>": broken."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import build
from vp.props import PROPS

VERIF = build.VERIF
ACCEPT = {"race", "mpi", "omp"}          # schedule-dependent kinds: decided by the engine's all-schedules argument
MPIENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
              OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_pml="ob1", OMPI_MCA_plm_rsh_agent="/bin/false",
              OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_mpi_yield_when_idle="1")
CORES = 8
PYVT = next((p for p in ("/usr/local/bin/python3-vt", "/opt/veriftools/pyvenv/bin/python3") if os.path.exists(p)), sys.executable)
PYSYM = [PYVT, os.path.join(VERIF, "vp", "pysym.py")]


class Pool:
    def __init__(self, n):
        self.n, self.cv = n, threading.Condition()
    def take(self, k):
        with self.cv:
            self.cv.wait_for(lambda: self.n >= k); self.n -= k
    def give(self, k):
        with self.cv:
            self.n += k; self.cv.notify_all()


def known_findings():
    try:
        return json.load(open(os.path.join(VERIF, "known_findings.json")))
    except OSError:
        return {"findings": [], "fixed": []}


def unit_name(u):
    s = os.path.splitext(u["h"])[0] + ":" + u["e"]
    if u["ranks"] > 1: s += " ranks=%d" % u["ranks"]
    if u["threads"] > 1: s += " threads=%d" % u["threads"]
    return s + "".join(" %s=%s" % kv for kv in u["p"].items())


def match_finding(finds, u, v):
    """id of the recorded finding this violation is an instance of (findings identified by entry, kind, message and call site)"""
    for f in finds:
        for m in f.get("match", ()):
            if u["e"] == m["entry"] and v["kind"] == m["kind"] and re.search(m.get("msg", ""), v["msg"]) and re.search(m.get("stack", ""), v.get("stack", "")): return f["id"]
    return None


def run_unit(u, tier, tmp, idx, pool, finds=()):
    r = {"unit": unit_name(u), "status": "ok", "viol": [], "known": [], "reach": {}, "notes": []}
    k = min(u["jobs"], CORES)
    pool.take(k)
    try:
        t0 = time.time(); py = u["h"].endswith(".py")
        try:
            bc = None if py else build.ensure_harness(u["h"], u["defs"], u["src"])
        except build.BuildError as e:
            r["status"] = "not-encodable"; r["notes"].append(str(e)[-600:]); return r
        out, log = os.path.join(tmp, "o%d.json" % idx), os.path.join(tmp, "l%d" % idx)
        dl = u["dl"][0 if tier == "quick" else 1]
        cmd = [build.ENGINE, bc, "-entry", u["e"], "-ranks", str(u["ranks"]), "-threads", str(u["threads"]), "-jobs", str(k),
               "-deadline", str(dl), "-o", out, "-log", log] + u["opts"]
        if py: cmd = PYSYM + [os.path.join(build.HARN, u["h"]), "-entry", u["e"], "-jobs", str(k), "-deadline", str(dl), "-o", out, "-log", log]
        for kk, v in u["p"].items(): cmd += ["-p", "%s=%s" % (kk, v)]
        r["cmd"] = " ".join(cmd)
        try:
            pr = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=dl + 60)
            r["rc"] = pr.returncode
        except subprocess.TimeoutExpired:
            r["status"] = "timeout"
        try:
            r["sum"] = json.load(open(out))
        except (OSError, ValueError):
            r["sum"] = {}; r["status"] = "engine-failure"
        try:
            lines = open(log, errors="replace").read().split("\n")
        except OSError:
            lines = []
        seen = set()
        for l in lines:
            if l.startswith("V "):
                try:
                    v = json.loads(l[2:])
                except ValueError:
                    continue
                if v["kind"] in u["ignore"]: continue
                kid = match_finding(finds, u, v)
                if kid:
                    r["known"].append((kid, v["kind"])); continue
                key = (v["kind"], v["msg"], v["loc"])
                if key in seen: continue
                seen.add(key); r["viol"].append(v)
            elif l.startswith("K "):
                f = l.split(" ", 2)
                r["known"].append((f[1], f[2] if len(f) > 2 else ""))
            elif l.startswith("R "):
                r["reach"][l[2:]] = r["reach"].get(l[2:], 0) + 1
            elif l[:2] in ("C ", "E ", "U "):
                r["notes"].append(l[:200])
        r["known"] = sorted(set(r["known"]))
        missing = [m for m in u["must"] if not r["reach"].get(m)]
        if missing and not r["viol"] and r["status"] == "ok":
            r["status"] = "vacuous"; r["notes"].append("labels never reached: " + ",".join(missing))
        r["wall"] = round(time.time() - t0, 2)
        return r
    finally:
        pool.give(k)


def python_run(u, inputs, timeout):
    """the scenario with concrete inputs on the real ctypes and numpy"""
    d = tempfile.mkdtemp(prefix="vpr")
    try:
        with open(os.path.join(d, "cex"), "w") as f: f.write("".join("%s %s\n" % kv for kv in inputs.items() if kv[0][0] != "*"))
        cmd = PYSYM + [os.path.join(build.HARN, u["h"]), "-entry", u["e"], "-replay", os.path.join(d, "cex")]
        for kv in u["p"].items(): cmd += ["-p", "%s=%s" % kv]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired:
            return True, "the run did not end within %d s" % timeout
        return p.returncode == 77 or p.returncode < 0, "exit %d\n%s" % (p.returncode, p.stdout[:3000])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def native_run(u, inputs, timeout=90):
    """replays inputs on the sanitised native build; returns (confirmed, text)"""
    if u["h"].endswith(".py"): return python_run(u, inputs, timeout)
    try:
        exe = build.ensure_native(u["h"], u["e"], u["defs"], u["src"])
    except build.BuildError as e:
        return False, "native build failed: " + str(e)[-1500:]
    d = tempfile.mkdtemp(prefix="vpr")
    try:
        with open(os.path.join(d, "cex"), "w") as f:
            for k, v in inputs.items(): f.write("%s %s\n" % (k, v))
        env = dict(os.environ); env.update(MPIENV)
        env.update(VP_CEX=os.path.join(d, "cex"), VP_PARAMS=",".join("%s=%s" % kv for kv in u["p"].items()), OMP_NUM_THREADS=str(u["threads"]),
                   ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=268435456:malloc_fill_byte=123:detect_stack_use_after_return=0",
                   UBSAN_OPTIONS="print_stacktrace=0", TMPDIR=d)
        cmd = [exe]
        if u["p"].get("grant"): env["OMP_THREAD_LIMIT"] = str(u["p"]["grant"])          # smaller teams than omp_get_max_threads()
        if u["p"].get("procs"): cmd = ["taskset", "-c", "0-%d" % (u["p"]["procs"] - 1)] + cmd
        if u["ranks"] > 1:
            env["VP_MPI"] = "1"
            cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "-np", str(u["ranks"])] + cmd
        try:
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired:
            subprocess.run(["pkill", "-9", "-f", exe], stdout=subprocess.DEVNULL)
            return True, "the native run did not end within %d s" % timeout
        if p.returncode in (0, 78): return False, "exit %d\n%s" % (p.returncode, p.stdout[-1500:])
        if "VP_ASSUME" in p.stdout: return False, p.stdout[-1500:]
        bad = re.search(r"VP_ASSERT|AddressSanitizer|runtime error|terminate called|Error encountered|MPI_ERR|MPI_ABORT|exited on signal|deadly signal|Assertion", p.stdout)
        return bool(bad) or p.returncode < 0, "exit %d\n%s" % (p.returncode, p.stdout[:3000])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def confirm(u, v):
    if v["kind"] in ACCEPT or v["kind"] in u["accept"] or "[engine]" in v["msg"]:
        return True, "decided by the engine (schedule- or memory-state-dependent): " + v["msg"]
    return native_run(u, v.get("inputs", {}))


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        rp = json.load(open(sys.argv[2]))
        ok, txt = confirm(rp["unit"], rp["violation"])
        print(json.dumps(rp["violation"], indent=1)); print(txt); print("REPRODUCED" if ok else "NOT REPRODUCED")
        return 1 if ok else 0
    if sys.argv[1:] == ["--list"]:
        for k in PROPS: print(k, PROPS[k]["title"], len(PROPS[k]["units"]))
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    P, t0 = PROPS[pid], time.time()
    kf = known_findings()
    kids = {f["id"]: f for f in kf["findings"] if pid in f["properties"]}
    try:
        build.ensure_engine(); build.ensure_lib()
    except build.BuildError as e:
        print("BUILD FAILED: " + str(e)); return 2
    units = [u for u in P["units"] if tier == "thorough" or u["tier"] == "q"]
    tmp = tempfile.mkdtemp(prefix="vpc")
    res = [None] * len(units)
    pool = Pool(CORES)
    def work(i):
        try:
            res[i] = run_unit(units[i], tier, tmp, i, pool, list(kids.values()))
        except Exception as e:      # a broken unit must not hide the others
            res[i] = {"unit": unit_name(units[i]), "status": "engine-failure", "viol": [], "known": [], "reach": {}, "notes": [repr(e)], "sum": {}}
    order = sorted(range(len(units)), key=lambda i: -units[i]["dl"][0] * units[i]["jobs"])
    th = [threading.Thread(target=work, args=(i,)) for i in order]
    for t in th: t.start()
    for t in th: t.join()
    shutil.rmtree(tmp, ignore_errors=True)
    # verdicts
    viol, known, unconf = [], {}, []
    tried = {}
    for u, r in zip(units, res):
        for kid, msg in r["known"]:
            if kid in kids: known.setdefault(kid, set()).add(msg)
            else: viol.append((u, {"kind": "assert", "msg": "unlisted finding %s: %s" % (kid, msg), "loc": "", "inputs": {}}, "engine"))
        for v in r["viol"]:
            key = (v["kind"], v["msg"], v["loc"])
            if tried.get(key) is True or len(viol) >= 3 or sum(1 for x in tried.values() if x is not True) > 12 or time.time() - t0 > 700: continue
            ok, txt = confirm(u, v)
            tried[key] = ok
            if ok: viol.append((u, v, txt))
            else: unconf.append((r["unit"], v["kind"], v["msg"], v["loc"], txt[-300:]))
    rdir = os.path.join(build.BUILD, "replays"); os.makedirs(rdir, exist_ok=True)
    for kid in known:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, kid, kids[kid]["what"]))
    for r in res:
        if r["status"] != "ok": print("NOTE %s: %s %s" % (r["status"], r["unit"], "; ".join(r["notes"][:2])[:300]))
    for x in unconf: print("UNCONFIRMED (not reproduced on the real build, not reported): %s %s %s %s" % x[:4])
    for n, (u, v, txt) in enumerate(viol):
        path = os.path.join(rdir, "%s_%d.json" % (pid, n))
        json.dump({"property": pid, "unit": u, "violation": v, "native": txt}, open(path, "w"), indent=1)
        print("  %s at %s in %s" % (v["msg"], v["loc"], unit_name(u)))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    # trace validation of the encoding: replay the harness natively with pseudo-random inputs
    traces = 0
    if tier == "thorough" and not viol:
        traces = validate(units, res, t0)
    tot = lambda k: sum((r.get("sum") or {}).get(k, 0) or 0 for r in res)
    fn = sorted({f for r in res for f in (r.get("sum") or {}).get("functions", [])})
    libfn = [f for f in fn if not f.startswith(("ff", "vp_", "ref::", "std::"))]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": P["level"], "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "assumptions": P["assumptions"],
          "coverage": {"states": tot("paths") + tot("cut"), "transitions": tot("steps"), "traces_validated_against_impl": traces,
                       "paths_completed": tot("paths"), "paths_cut": tot("cut"), "obligations": sum(max(x.get("obligations", 0), x.get("discharged", 0) + x.get("inconclusive", 0)) for x in (r.get("sum") or {} for r in res)), "discharged": tot("discharged"),
                       "inconclusive": tot("inconclusive"), "solver_queries": tot("queries"), "solver_unknown": tot("unknown"), "solver_s": round(tot("solver_s"), 2),
                       "bounds": P["bounds"], "functions_encoded": len(fn), "functions": libfn[:400],
                       "known_findings": sorted(known), "unconfirmed": [list(x) for x in unconf[:20]],
                       "samples": [{"unit": r["unit"], "status": r["status"], "reach": r["reach"], "wall_s": r.get("wall"), "notes": r["notes"][:3],
                                    **{k: (r.get("sum") or {}).get(k) for k in ("paths", "cut", "obligations", "discharged", "inconclusive", "queries", "solver_s")}} for r in res]}}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1); os.rename(p + ".tmp", p)
    c = ev["coverage"]
    print("%s %s: %d units, %d paths (%d cut), %d/%d obligations discharged, %d inconclusive, %d queries %.1f s solver, %.1f s" % (
        pid, tier, len(units), c["paths_completed"], c["paths_cut"], c["discharged"], c["obligations"], c["inconclusive"], c["solver_queries"], c["solver_s"], ev["wall_s"]))
    return 1 if viol else 0


def validate(units, res, t0):
    import random
    rnd, n, done = random.Random(int(os.environ.get("VERIF_SEED", "1"))), 0, set()
    for u, r in zip(units, res):
        if r["status"] != "ok" or (u["h"], u["e"]) in done or time.time() - t0 > 600 or u["novalid"]: continue
        done.add((u["h"], u["e"]))
        env_inputs = {"*seed": rnd.randrange(1, 10**6)}
        ok, txt = native_run(u, env_inputs, 120)
        if "VP_DONE" in txt: n += 1
        else: r["notes"].append("native trace not completed: " + txt[-200:])
    return n


if __name__ == "__main__":
    try:
        sys.exit(main())
    except KeyboardInterrupt:
        sys.exit(3)
