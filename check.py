"""check.py <property> [--tier quick|thorough] [--only SUBSTRING] [-v]
   check.py replay <file>"""
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
EV = os.environ.get("PYVC_EV") or os.path.join(HERE, "evidence")
BAD = ("crash", "hang")
TOTAL = {"quick": 780, "thorough": 6 * 3600}


def worker_env(mode, scratch):
    e = dict(os.environ)
    e["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba")
    e["PYTHONPYCACHEPREFIX"] = os.path.join(scratch, "pyc")
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["OMP_NUM_THREADS"] = e["OPENBLAS_NUM_THREADS"] = e["MKL_NUM_THREADS"] = e["NUMBA_NUM_THREADS"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["PYTHONWARNINGS"] = "ignore"
    if mode == "con" and e.get("PYVC_BOUNDSCHECK", "0") == "1":
        e["NUMBA_BOUNDSCHECK"] = "1"
    return e


class Pool:
    """Workers that survive the death of one of them."""

    def __init__(self, prop, tier, scratch, nproc, log, boundscheck=False):
        self.prop, self.tier, self.scratch, self.nproc, self.log = prop, tier, scratch, nproc, log
        self.boundscheck = boundscheck

    def spawn(self, mode):
        env = worker_env(mode, self.scratch)
        if self.boundscheck and mode == "con":
            env["NUMBA_BOUNDSCHECK"] = "1"
        return subprocess.Popen([PY, os.path.join(HERE, "worker.py"), mode, self.prop, self.tier],
                                stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log,
                                text=True, env=env, cwd=self.scratch, start_new_session=True)

    def run(self, tasks, deadline):
        q = queue.Queue()
        for t in sorted(tasks, key=lambda t: -t.get("cost", 1)):
            q.put(t)
        results = []
        self.bad = {"con": 0, "sym": 0}
        lock = threading.Lock()

        def loop():
            procs = {}
            while True:
                try:
                    t = q.get_nowait()
                except queue.Empty:
                    break
                # enough has failed: the verdict is settled, the rest is not run
                if self.bad["con"] >= 4 or t["mode"] == "sym" and self.bad["sym"] >= 16:
                    continue
                r = self.one(t, procs, deadline)
                with lock:
                    results.append(r)
                    self.bad[t["mode"]] += bool(r.get("fail") or r.get("status") in ("refuted", "unknown") + BAD
                                                and (t["mode"] == "con" or r.get("status") not in BAD))
            for p in procs.values():
                try:
                    p.stdin.close()
                    p.wait(5)
                except Exception:
                    p.kill()

        ths = [threading.Thread(target=loop) for _ in range(min(self.nproc, max(1, len(tasks))))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        return results

    def one(self, t, procs, deadline):
        left = deadline - time.time()
        base = {"unit": t["unit"], "mode": t["mode"], "task": t}
        if left <= 1:
            return dict(base, status="timeout", dead="time budget of the check used up")
        p = procs.get(t["mode"])
        if p is None or p.poll() is not None:
            p = procs[t["mode"]] = self.spawn(t["mode"])
        killed = [False]

        def kill():
            killed[0] = True
            p.kill()
        timer = threading.Timer(min(left, t.get("kill", 600)), kill)
        timer.start()
        line = ""
        try:
            p.stdin.write(json.dumps(t) + "\n")
            p.stdin.flush()
            line = p.stdout.readline()
        except Exception:
            pass
        timer.cancel()
        if not line:
            p.kill()
            rc = p.wait()
            procs.pop(t["mode"], None)
            own = t.get("kill", 600) < left
            st = "crash" if not killed[0] else "hang" if own and t["mode"] == "con" else "timeout"
            return dict(base, status=st, dead={"crash": "process died (exit %s)" % rc,
                                               "hang": "no answer within %d s" % t.get("kill", 600),
                                               "timeout": "timed out"}[st])
        r = json.loads(line)
        r["task"] = t
        return r


def load_known():
    p = os.path.join(HERE, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    a = sys.argv[1:]
    if a and a[0] == "replay":
        return replay(a[1])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    verbose = "-v" in a
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="pyvc-%s-" % prop)
    os.makedirs(os.path.join(EV, "replay"), exist_ok=True)
    try:
        return run(prop, tier, only, verbose, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def unit_list(prop, tier, scratch):
    code = ("import sys,json;sys.path[:0]=[%r,%r];import importlib;m=importlib.import_module('props.%s');"
            "print('UNITS'+json.dumps({'units':[{'name':u.name,'cost':u.cost,'cases':u.cases,'tcases':u.thorough_cases,"
            "'prove':u.prove is not None,'budget':u.budget,'level':u.level} for u in m.units(%r)],"
            "'boundscheck':getattr(m,'BOUNDSCHECK',False),'assumptions':getattr(m,'ASSUMPTIONS',[]),'drop':getattr(m,'MACHINE_FLOATS',0)}))"
            % (HERE, os.environ.get("PYVC_REPO", "/repo"), prop.lower(), tier))
    r = subprocess.run([PY, "-W", "ignore", "-c", code], capture_output=True, text=True,
                       env=worker_env("con", scratch), cwd=scratch)
    for l in r.stdout.splitlines():
        if l.startswith("UNITS"):
            return json.loads(l[5:])
    sys.stderr.write(r.stderr[-3000:])
    raise SystemExit(3)


def run(prop, tier, only, verbose, seed, t0, scratch):
    info = unit_list(prop, tier, scratch)
    units = [u for u in info["units"] if only is None or only in u["name"]]
    assert len({u["name"] for u in units}) == len(units), "duplicate unit names"
    deadline = t0 + TOTAL[tier]
    log = open(os.path.join(EV, "%s.log" % prop), "w")
    pool = Pool(prop, tier, scratch, int(os.environ.get("PYVC_PROCS", "8")), log, info["boundscheck"])
    tasks = []
    for u in units:
        if u["prove"]:
            tasks.append({"unit": u["name"], "mode": "sym", "cost": u["cost"] + 0.5,
                          "kill": min(2 * u["budget"] + 60, 700) if tier == "quick" else 3600})
        n = u["cases"] if tier == "quick" else u["tcases"]
        if n and not os.environ.get("PYVC_NOCON"):
            tasks.append({"unit": u["name"], "mode": "con", "cases": n, "seed": seed, "cost": u["cost"] * 0.5 + 0.4,
                          "limit": 100 if tier == "quick" else 1200, "kill": 500 if tier == "quick" else 3600})
    res = pool.run(tasks, deadline)
    sym = {r["unit"]: r for r in res if r["mode"] == "sym"}
    con = {r["unit"]: r for r in res if r["mode"] == "con"}
    # follow up on proofs that failed: replay the counterexample, then search
    again = []
    for n, r in sym.items():
        if r.get("status") in ("refuted", "unknown") and not (con.get(n) or {}).get("fail"):
            if any(u["name"] == n and u["cases"] for u in units):
                models = [f["model"] for f in r.get("fails", []) if f.get("model")]
                again.append({"unit": n, "mode": "con", "cases": 150, "seed": seed, "round": 1, "models": models,
                              "limit": 60, "kill": 200, "cost": 1})
    if again and not any(r.get("fail") or r.get("status") in BAD for r in con.values()):
        for r in pool.run(again[:24], deadline):
            old = con.get(r["unit"])
            if r.get("fail") or r.get("status") in BAD:
                con[r["unit"]] = r
            elif old is not None and "evaluations" in r:
                old["evaluations"] = old.get("evaluations", 0) + r["evaluations"]
    # verdict
    viol = []
    for n, r in sorted(con.items()):
        if r.get("fail"):
            viol.append({"unit": n, "kind": "input", "input": r["fail"]["input"], "message": r["fail"]["message"],
                         "obligations": (sym.get(n) or {}).get("fails", [])})
        elif r.get("status") in BAD:
            viol.append({"unit": n, "kind": r["status"], "task": r["task"], "message": r["dead"],
                         "obligations": (sym.get(n) or {}).get("fails", [])})
    open_ = []
    for n, r in sorted(sym.items()):
        if r.get("status") in ("refuted", "unknown"):
            if any(v["unit"] == n for v in viol):
                continue
            open_.append({"unit": n, "kind": "obligation", "message": "%s: %s" % (
                r["fails"][0]["name"], r["fails"][0]["detail"][:300]), "obligations": r["fails"]})
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]

    def is_known(v):
        return any(k.get("unit") == v["unit"] and (not k.get("match") or k["match"] in v["message"]) for k in known)
    viol_new = [v for v in viol if not is_known(v)]
    open_new = [v for v in open_ if not is_known(v)]
    for v in viol + open_:
        if is_known(v):
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, v["unit"], v["message"][:200]))
    code = 0
    report = viol_new or open_new
    if report:
        code = 1
        v = report[0]
        path = os.path.join(EV, "replay", "%s.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "violations": report[:10]}, f, indent=1)
        tail = "" if viol_new else " no-failing-input-found"
        for v in report[:5]:
            print("  %s: %s" % (v["unit"], v["message"][:400]))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, tail))
    evidence(prop, tier, seed, t0, info, units, sym, con, viol + open_, verbose)
    dead = [r for r in res if r.get("status") in ("timeout",)]
    if verbose or dead:
        for r in dead:
            print("  no answer for %s (%s): %s" % (r["unit"], r["mode"], r["dead"]))
    if code == 0 and not sym and not con:
        print("nothing was checked")
        return 2
    cdead = [r for r in dead if r["mode"] == "con"]
    print("%s: %d units, exit %d, %.0f s" % (prop, len(units), code, time.time() - t0))
    return code


def evidence(prop, tier, seed, t0, info, units, sym, con, viol, verbose):
    tot = dis = 0
    kinds, backends = {}, {}
    fns, trusted, contracts = set(), set(), set()
    byst = {}
    z3c = z3t = c5c = c5t = 0
    bounded = []
    for n, r in sorted(sym.items()):
        byst.setdefault(r["status"], []).append(n)
        if r["status"] in ("bounded",):
            bounded.append({"unit": n, "bound": r.get("bound", ""), "why": r.get("reason", "no unbounded contract")})
        if "kinds" not in r:
            continue
        ok = r["status"] == "proved"
        for k, (a, b) in r["kinds"].items():
            if ok:
                tot += a
                dis += b
            c = kinds.setdefault(k + ("" if ok else " (not counted)"), [0, 0])
            c[0] += a
            c[1] += b
        if not ok and r["status"] in ("refuted", "unknown"):
            tot += sum(a for a, b in r["kinds"].values())
            dis += sum(b for a, b in r["kinds"].values())
        for k, a in r["backends"].items():
            backends[k] = backends.get(k, 0) + a
        fns |= set(r["functions"])
        trusted |= set(r["trusted"])
        contracts |= set(r["contracts"])
        z3c += r["z3_calls"]
        z3t += r["z3_time"]
        c5c += r["cvc5_calls"]
        c5t += r["cvc5_time"]
    evals = sum(r.get("evaluations", 0) for r in con.values())
    distinct = sum(r.get("distinct", 0) for r in con.values())
    samples = [{"unit": n, "input": r["sample"]} for n, r in sorted(con.items()) if "sample" in r][:3]
    import math
    level = json_level(prop)
    cov = {
        "obligations": tot, "discharged": dis,
        "checker_cmd": "/opt/venv/bin/python check.py %s --tier %s" % (prop, tier),
        "trusted_base": sorted(trusted) + BASE_TRUST,
        "obligations_by_kind": {k: {"generated": a, "discharged": b} for k, (a, b) in sorted(kinds.items())},
        "discharged_by_back_end": backends,
        "units_by_status": {k: len(v) for k, v in byst.items()},
        "functions_under_contract": sorted(fns), "callee_contracts_used": sorted(contracts),
        "z3_queries": z3c, "z3_seconds": round(z3t, 2), "cvc5_queries": c5c, "cvc5_seconds": round(c5t, 2),
        "bounded_stand_ins": bounded,
        "undecided": [{"unit": n, "why": sym[n].get("reason", sym[n].get("dead", "")),
                       "bounded": sym[n].get("bounded_reason", "")}
                      for k in ("unsupported", "timeout", "crash") for n in byst.get(k, [])],
        "evaluations": evals, "distinct_nontrivial": distinct,
        "rule": "concrete inputs drawn from VERIF_SEED, run through the compiled public API and compared with an "
                "independent numpy oracle; every drawn input has random coefficients and is counted once",
        "samples": samples,
    }
    if level == "other":
        cov["explanation"] = "bounded contract checking, see DESIGN.md"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": (BASE_ASSUME[info["drop"]:] + info["assumptions"]), "wall_s": round(time.time() - t0, 1),
          "violations": len(viol)}
    with open(os.path.join(EV, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if verbose:
        for k, v in sorted(byst.items()):
            print("  %s: %d" % (k, len(v)))
            if k not in ("proved",):
                for n in v[:40]:
                    r = sym[n]
                    print("     %s: %s %s" % (n, r.get("reason", r.get("dead", ""))[:300], r.get("bounded_reason", "")))
                    for f in r.get("fails", [])[:2]:
                        print("        %s %s %s %s" % (f["status"], f["kind"], f["name"], f["detail"][:300]))
        print("  obligations %d discharged %d  %s  z3 %d calls %.1f s; %d concrete runs" % (
            tot, dis, backends, z3c, z3t, evals))
        slow = sorted(list(sym.values()) + list(con.values()), key=lambda r: -r.get("wall", 0))[:6]
        for r in slow:
            print("  slow: %s %s %.1f s" % (r["mode"], r["unit"], r.get("wall", 0)))


def json_level(prop):
    m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    for c in m["checks"]:
        if c["property"] == prop:
            return c["level"]
    return "proof"


BASE_TRUST = [
    "the verification-condition generator pyvc (/verif/pyvc): symbolic execution of the repository's own source "
    "text, loop summaries, ring normal form; cross-checked on every run by concrete executions",
    "z3 5.3.2",
    "CPython and numba implement the Python semantics of the executed source (numba's overload registry is queried "
    "to find the code that would be compiled)",
]
BASE_ASSUME = [
    "floating-point numbers are read as mathematical reals (rounding is not modelled); integers are unbounded",
    "float constants are read as the simplest fraction that rounds to them (1.0/6.0 is 1/6)",
    "arrays passed as distinct arguments do not overlap, unless the property says otherwise",
]


def replay(path):
    d = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="pyvc-replay-")
    bad = 0
    try:
        info = unit_list(d["property"], d["tier"], scratch)
        pool = Pool(d["property"], d["tier"], scratch, 2, sys.stderr, info["boundscheck"])
        for v in d["violations"]:
            if v["kind"] == "input":
                r = pool.run([{"unit": v["unit"], "mode": "con", "replay": v["input"]}], time.time() + 600)[0]
                print(v["unit"], "->", r.get("fail") or r.get("dead") or "passes")
                bad |= bool(r.get("fail") or r.get("dead"))
            elif v["kind"] in BAD:
                r = pool.run([dict(v["task"])], time.time() + 600)[0]
                print(v["unit"], "->", r.get("fail") or r.get("dead") or "passes")
                bad |= bool(r.get("fail") or r.get("dead"))
            else:
                print(v["unit"], "-> failed obligation:", v["message"])
                r = pool.run([{"unit": v["unit"], "mode": "sym"}], time.time() + 600)[0]
                print("   now:", r.get("status"))
                bad |= r.get("status") in ("refuted", "unknown")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
