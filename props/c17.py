"""C17: UCGrid and CGrid accept exactly the valid grids and return them unchanged."""
import importlib
import itertools

import numpy as np

from .base import Unit, rng_of
from .c10 import refused
from .spl import check_frozen, int_sym, make_array

ASSUMPTIONS = [
    "refusal at position j of a longer list of dimensions: the valid dimensions in front of it are processed without "
    "effect (proved for every number of them), the dimensions behind it are not reached or do not matter; besides "
    "this argument, every position is proved explicitly for up to 5 dimensions",
]

EVEN_BAD = ("a = b", "a > b", "one node", "no node", "negative nodes")
TYPE_BAD = ("two entries", "four entries", "float nodes", "None", "str", "number", "list", "array of triples",
            "text in the triple", "None in the triple")
ARR_BAD = ("length 1", "length 0", "2 dimensions", "3 dimensions")


def spl():
    return importlib.import_module("interpolation.splines")


def good(eng, kind, q):
    """a valid dimension with symbolic contents"""
    from pyvc.terms import real
    n = int_sym(eng, "n%s" % q)
    eng.assume(n >= 2)
    if kind == "n":
        return make_array(eng, "X%s" % q, (n,))
    a, b = real("a%s" % q), real("b%s" % q)
    eng.assume(a < b)
    return (a, b, n)


def bad(eng, what, q):
    from pyvc.terms import real
    a, b, n = real("a%s" % q), real("b%s" % q), int_sym(eng, "n%s" % q)
    if what in EVEN_BAD[:2]:
        eng.assume(n >= 2)
        if what == "a = b":
            return (a, a, n)
        eng.assume(a > b)
        return (a, b, n)
    if what in EVEN_BAD[2:]:
        eng.assume(a < b)
        if what == "negative nodes":
            eng.assume(n <= -1)
            return (a, b, n)
        return (a, b, 1 if what == "one node" else 0)
    if what == "array":
        eng.assume(n >= 2)
        return make_array(eng, "X%s" % q, (n,))
    if what in ARR_BAD:
        eng.assume(n >= 2)
        m = int_sym(eng, "m%s" % q)
        eng.assume(m >= 2)
        return make_array(eng, "X%s" % q, {"length 1": (1,), "length 0": (0,), "2 dimensions": (n, m),
                                           "3 dimensions": (n, m, 3)}[what])
    eng.assume(a < b)
    eng.assume(n >= 2)
    return {"two entries": (a, b), "four entries": (a, b, n, n), "float nodes": (a, b, real("r%s" % q)), "None": None,
            "str": "0.0 1.0 10", "number": a, "list": [a, b], "array of triples": make_array(eng, "Y%s" % q, (3,)),
            "text in the triple": ("0.0", b, n), "None in the triple": (None, b, n)}[what]


def same(eng, got, args):
    ok = type(got) is tuple and len(got) == len(args)
    eng.obl("a tuple with one entry per dimension", "post", "ok" if ok else "refuted", "types", "" if ok else "%r" % (got,))
    if not ok:
        return
    for q, (g, a) in enumerate(zip(got, args)):
        if isinstance(a, tuple):
            t = type(g) is tuple and len(g) == 3
            eng.obl("dimension %d is a triple" % q, "post", "ok" if t else "refuted", "types", "" if t else "%r" % (g,))
            if t:
                for nm, x, y in zip(("lower bound", "upper bound", "number of nodes"), g, a):
                    eng.prove_eq(x, y, "%s of dimension %d is unchanged" % (nm, q))
        else:
            t = g is a
            eng.obl("dimension %d is the array that was given" % q, "post", "ok" if t else "refuted", "heap", "")
    check_frozen(eng)


def prove_good(eng, fn, kinds):
    from pyvc.interp import start
    args = [good(eng, k, q) for q, k in enumerate(kinds)]
    same(eng, start(getattr(spl(), fn), *args), args)


def prove_bad(eng, fn, kinds, pos, what):
    from pyvc.interp import start
    args = [good(eng, k, q) if q != pos else bad(eng, what, q) for q, k in enumerate(kinds)]
    refused(eng, lambda: start(getattr(spl(), fn), *args), Exception, "%s in dimension %d is refused" % (what, pos))
    check_frozen(eng)


def prove_any(eng, fn):
    """any number of evenly spaced dimensions"""
    from pyvc.interp import SymRange, run_packed
    from pyvc.terms import app, cmp, const, lift
    d = int_sym(eng, "d")
    eng.assume(d >= 1)
    eng.app_watch["lo"] = lambda t, a: eng.assume(cmp("<", app("lo", a), app("hi", a)))
    eng.app_watch["hi"] = eng.app_watch["lo"]
    eng.app_watch["num"] = lambda t, a: eng.assume(cmp("<=", 2, app("num", a, "I")))
    item = lambda k: (app("lo", [lift(k)]), app("hi", [lift(k)]), app("num", [lift(k)], "I"))
    seq = SymRange(const(0), d, const(1), item)
    got = run_packed(getattr(spl(), fn), seq)
    eng.obl("the dimensions are returned in order and unchanged, for every number of them", "post",
            "ok" if got is seq else "refuted", "heap", "" if got is seq else "%r" % (got,))


# ---------------------------------------------------------------- concrete

def concrete(rng, kind):
    n = int(rng.integers(2, 9))
    if kind == "n":
        g = np.cumsum(rng.uniform(0.1, 1, n))
        return g if rng.integers(2) else np.ascontiguousarray(np.repeat(g, 2))[::2]
    a = float(rng.uniform(-5, 5)) * 10.0 ** int(rng.integers(-3, 4))
    b = float(np.nextafter(a, np.inf)) if rng.integers(4) == 0 else a + float(rng.uniform(1e-6, 10))
    return (a, b, n)


def wrong(rng, what):
    a = float(rng.uniform(-5, 5))
    b, n = a + float(rng.uniform(0.1, 3)), int(rng.integers(2, 9))
    return {
        "a = b": (a, a, n), "a > b": (b, a, n), "one node": (a, b, 1), "no node": (a, b, 0), "negative nodes": (a, b, -n),
        "two entries": (a, b), "four entries": (a, b, n, n), "float nodes": (a, b, float(n)), "None": None,
        "str": "0.0 1.0 10", "number": a, "list": [a, b], "array of triples": np.array([a, b, n]),
        "text in the triple": ("0.0", b, n), "None in the triple": (None, b, n), "array": np.array([a, b]),
        "length 1": np.array([a]), "length 0": np.array([]), "2 dimensions": np.ones((n, 2)), "3 dimensions": np.ones((2, n, 2)),
        "nan bound": (a, float("nan"), n) if rng.integers(2) else (float("nan"), b, n),
        "single node array of one row": np.ones((1, n)),
    }[what]


def run_good(fn, kinds):
    def f(inp):
        rng = rng_of(inp["seed"])
        args = [concrete(rng, k) for k in kinds]
        keep = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
        got = getattr(spl(), fn)(*args)
        if type(got) is not tuple or len(got) != len(args):
            return "%s%r returned %r" % (fn, tuple(args), got)
        for g, a, k in zip(got, args, keep):
            if isinstance(a, np.ndarray):
                if g is not a or not np.array_equal(g, k):
                    return "%s%r: an array came back changed: %r" % (fn, tuple(args), g)
            elif type(g) is not tuple or g != k or [type(x) for x in g] != [type(x) for x in k]:
                return "%s%r: a dimension came back as %r" % (fn, tuple(args), g)
        return None
    return f


def run_bad(fn, kinds, pos, what):
    def f(inp):
        rng = rng_of(inp["seed"])
        args = [concrete(rng, k) if q != pos else wrong(rng, what) for q, k in enumerate(kinds)]
        try:
            got = getattr(spl(), fn)(*args)
        except Exception:
            return None
        return "%s%r was accepted: %r (dimension %d: %s)" % (fn, tuple(args), got, pos, what)
    return f


def units(tier):
    out = []
    draw = lambda rng: {"seed": int(rng.integers(1 << 30))}
    top = 5 if tier == "quick" else 7
    for fn in ("UCGrid", "CGrid"):
        out.append(Unit("%s, any number of even dimensions" % fn, prove=[lambda eng, fn=fn: prove_any(eng, fn)], cases=0))
        for d in range(1, top + 1):
            kinds = ["u" * d] if fn == "UCGrid" else ["".join(k) for k in itertools.product("un", repeat=d)]
            for ks in kinds:
                out.append(Unit("%s %s accepted" % (fn, ks), prove=[lambda eng, fn=fn, ks=ks: prove_good(eng, fn, ks)],
                                draw=draw, run=run_good(fn, ks), cases=4))
        whats = EVEN_BAD + TYPE_BAD + (("array",) if fn == "UCGrid" else ARR_BAD)
        whats = [w for w in whats if not (fn == "CGrid" and w == "array of triples")]
        for what in whats + ["nan bound"]:
            for d in range(1, top + 1):
                for pos in range(d):
                    ks = "u" * d if fn == "UCGrid" else "".join("un"[(q + pos) % 2] for q in range(d))
                    out.append(Unit("%s %s, dimension %d: %s" % (fn, ks, pos, what),
                                    prove=None if what == "nan bound" else
                                    [lambda eng, fn=fn, ks=ks, pos=pos, what=what: prove_bad(eng, fn, ks, pos, what)],
                                    draw=draw, run=run_bad(fn, ks, pos, what), cases=2, cost=0.1))
    return out
