"""One worker process: 'sym' (proofs; generated source is captured) or 'con'
(concrete runs of the untouched package).  JSON lines in, JSON lines out."""
import json
import os
import resource
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PYVC_REPO", "/repo")     # overridden only to try out changes on a scratch copy


def setup(mode):
    warnings.simplefilter("ignore")
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    if mode == "sym":
        from pyvc import interp
        interp.install_capture()
        import pyvc.models  # noqa: F401


def load(prop, tier):
    import importlib
    m = importlib.import_module("props." + prop.lower())
    return {u.name: u for u in m.units(tier)}


def summarise(obls, stats, live):
    kinds, backends, fails = {}, {}, []
    for o in obls:
        kinds.setdefault(o.kind, [0, 0])
        kinds[o.kind][0] += 1
        if o.status == "ok":
            kinds[o.kind][1] += 1
            backends[o.backend] = backends.get(o.backend, 0) + 1
        else:
            fails.append({"name": o.name, "kind": o.kind, "status": o.status, "detail": o.detail[:1500],
                          "model": o.model})
    return {"kinds": kinds, "backends": backends, "fails": fails[:8], "nfails": len(fails), "live": live,
            "functions": sorted(stats.functions), "trusted": sorted(stats.trusted),
            "contracts": sorted(stats.contracts_used), "paths": stats.paths, "loops": stats.loops,
            "recurrences": stats.recurrences, "z3_calls": stats.z3_calls,
            "z3_time": round(stats.z3_time, 3), "cvc5_calls": stats.cvc5_calls, "cvc5_time": round(stats.cvc5_time, 3)}


def merge(parts):
    out = None
    for p in parts:
        if out is None:
            out = p
            continue
        for k in ("kinds",):
            for q, (a, b) in p[k].items():
                c = out[k].setdefault(q, [0, 0])
                c[0] += a
                c[1] += b
        for q, a in p["backends"].items():
            out["backends"][q] = out["backends"].get(q, 0) + a
        out["fails"] = (out["fails"] + p["fails"])[:8]
        for k in ("nfails", "live", "paths", "loops", "recurrences", "z3_calls", "z3_time", "cvc5_calls", "cvc5_time"):
            out[k] += p[k]
        for k in ("functions", "trusted", "contracts"):
            out[k] = sorted(set(out[k]) | set(p[k]))
    return out


def prove_all(u, fns, budget):
    from pyvc.engine import Engine, explore
    from pyvc.terms import Unsupported
    parts = []
    t0 = time.time()
    for fn in fns:
        left = budget - (time.time() - t0)
        if left <= 0:
            raise Unsupported("time budget exhausted")

        def mk(script, stats):
            e = Engine(script, stats)
            e.cvc5 = os.environ.get("PYVC_CVC5") == "1"
            return e
        obls, stats, live = explore(fn, mk, max_paths=u.max_paths, budget=left)
        if live == 0:
            raise Unsupported("vacuous: no feasible path reaches the end")
        if not any(o.kind == "post" for o in obls) and all(o.status == "ok" for o in obls):
            raise Unsupported("no obligation was generated")
        parts.append(summarise(obls, stats, live))
        if sum(p["nfails"] for p in parts) >= 8:
            break
    return merge(parts)


def do_sym(u, task):
    from pyvc.terms import Unsupported
    t0 = time.time()
    res = {"unit": u.name, "mode": "sym"}
    fns = u.prove if isinstance(u.prove, (list, tuple)) else [u.prove]
    try:
        alarm(1.5 * u.budget + 20)
        try:
            r = prove_all(u, fns, u.budget)
        except Late:
            raise Unsupported("time budget exhausted")
        finally:
            alarm(0)
        res.update(r)
        st = {f["status"] for f in r["fails"]}
        res["status"] = "proved" if not r["nfails"] else "refuted" if "refuted" in st else "unknown"
        if u.level != "proved" and res["status"] == "proved":
            res["status"] = "bounded"
            res["bound"] = u.level
    except Exception as e:
        res["status"] = "unsupported"
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith("<vc:")]
        res["reason"] = "%s: %s%s" % (type(e).__name__, str(e)[:300],
                                      " in %s line %s" % (where[-1].filename, where[-1].lineno) if where else "")
        if os.environ.get("PYVC_TRACE"):
            traceback.print_exc()
    if res["status"] == "unsupported" and u.bounded is not None:
        try:
            fns = u.bounded() if callable(u.bounded) else u.bounded
            r = prove_all(u, fns, u.budget)
            res.update(r)
            st = {f["status"] for f in r["fails"]}
            res["status"] = "bounded" if not r["nfails"] else "refuted" if "refuted" in st else "unknown"
            res["bound"] = u.bound
        except Exception as e:
            res["bounded_reason"] = "%s: %s" % (type(e).__name__, str(e)[:300])
            if os.environ.get("PYVC_TRACE"):
                traceback.print_exc()
    res["wall"] = round(time.time() - t0, 2)
    return res


class Late(BaseException):
    pass


def alarm(seconds):
    """a limit on Python code (compiled code is limited by the parent)"""
    def late(*a):
        raise Late()
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, seconds)


def run_one(u, inp):
    lim = getattr(u, "case_limit", None)
    try:
        if lim:
            alarm(lim)
        try:
            return u.run(inp)
        finally:
            if lim:
                alarm(0)
    except Late:
        return "no answer within %d s" % lim
    except MemoryError:
        return "memory used up"
    except Exception as e:
        s = str(e).strip().split("\n")
        return "raised %s: %s" % (type(e).__name__, " ".join(s[:3])[:400])


def do_con(u, task):
    import numpy as np
    t0 = time.time()
    res = {"unit": u.name, "mode": "con", "evaluations": 0, "fail": None, "distinct": 0}
    seen = set()
    if "replay" in task:
        msg = run_one(u, task["replay"])
        res["evaluations"] = 1
        if msg:
            res["fail"] = {"input": task["replay"], "message": msg}
        return res
    rng = np.random.default_rng([task["seed"], abs(hash_name(u.name)) % (1 << 31), task.get("round", 0)])
    if u.model is not None:
        for model in task.get("models", []):
            try:
                inp = u.model(model, rng)
            except Exception:
                continue
            msg = run_one(u, inp)
            res["evaluations"] += 1
            if msg:
                res["fail"] = {"input": inp, "message": msg}
                res["wall"] = round(time.time() - t0, 2)
                return res
    for n in range(task["cases"]):
        if time.time() - t0 > task.get("limit", 120) and n >= 2:
            break
        inp = u.draw(rng)
        res["evaluations"] += 1
        key = json.dumps(inp, sort_keys=True)
        if key not in seen:
            seen.add(key)
            res["distinct"] += 1
        res.setdefault("sample", inp)
        msg = run_one(u, inp)
        if msg:
            res["fail"] = {"input": inp, "message": msg}
            break
    res["wall"] = round(time.time() - t0, 2)
    return res


def hash_name(s):
    import zlib
    return zlib.crc32(s.encode())


def main():
    mode, prop, tier = sys.argv[1:4]
    outfd = os.dup(1)
    os.dup2(2, 1)
    out = os.fdopen(outfd, "w")
    resource.setrlimit(resource.RLIMIT_AS, (5 << 29, 5 << 29))
    setup(mode)
    units = load(prop, tier)
    for line in sys.stdin:
        task = json.loads(line)
        u = units[task["unit"]]
        r = do_sym(u, task) if task["mode"] == "sym" else do_con(u, task)
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
