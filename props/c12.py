"""C12: enumerations of grid nodes."""
import importlib
import itertools

import numpy as np

from .base import Unit, close, rng_of
from .spl import check_frozen, int_sym, make_array

FORMS = ("cartesian C", "cartesian F", "cartesian default", "mlinspace C", "mlinspace F", "mlinspace default", "nodes",
         "CubicSpline.grid", "CubicSplines.grid", "LinearSpline.grid", "LinearSplines.grid")


def cart():
    return importlib.import_module("interpolation.cartesian")


def spl():
    return importlib.import_module("interpolation.splines")


def build(form, d, caller, axes, kinds):
    """axes: arrays (kind 'n') or (a, b, n); returns the enumeration"""
    kw = {} if form.endswith("default") or " " not in form else {"order": form.split()[1]}
    if form.startswith("cartesian"):
        return caller(cart().cartesian, list(axes), **kw)
    if form.startswith("mlinspace"):
        return caller(cart().mlinspace, [g[0] for g in axes], [g[1] for g in axes], [g[2] for g in axes], **kw)
    if form == "nodes":
        return caller(spl().nodes, tuple(axes))
    cls = getattr(spl(), form.split(".")[0])
    o = caller(cls, [g[0] for g in axes], [g[1] for g in axes], [g[2] for g in axes])
    first = caller(cls.grid.fget, o)
    again = caller(cls.grid.fget, o)
    if first is not again and not np.array_equal(np.asarray(first), np.asarray(again)):
        raise AssertionError("grid changed between two reads")
    return first


def row(order, ks, ns):
    """position of the node with indices ks"""
    r = 0
    seq = list(zip(ks, ns))
    for k, n in (reversed(seq) if order == "F" else seq):
        r = r * n + k
    return r


def order_of(form):
    return "F" if form.endswith(" F") else "C"


def prove(eng, form, kinds, i):
    """coordinate i of an arbitrary row"""
    from pyvc.interp import start
    from pyvc.terms import app, const, integer, lift, real, to_real
    from pyvc import arrays as A
    d = len(kinds)
    order = order_of(form)
    ns, ks, axes, at = [], [], [], []
    for q, kd in enumerate(kinds):
        n, k = int_sym(eng, "n%d" % q), int_sym(eng, "k%d" % q)
        eng.assume(n >= (1 if form.startswith("cartesian") else 2))
        eng.assume(k >= 0)
        eng.assume(k <= n - 1)
        ns.append(n)
        ks.append(k)
        eng.focus.append((n, k))
        if kd == "n":
            axes.append(make_array(eng, "X%d" % q, (n,)))
            at.append(lambda k, q=q: app("X%d" % q, [k]))
        else:
            a, b = real("a%d" % q), real("b%d" % q)
            eng.assume(a < b)
            axes.append((a, b, n))
            at.append(lambda k, a=a, b=b, n=n: a + (b - a) * to_real(lift(k)) / (n - 1))
    total = const(1)
    for n in ns:
        total = total * n
    got = build(form, d, start, axes, kinds)
    check_frozen(eng)
    transposed = form.startswith("Linear")
    want = (d, total) if transposed else (total, d)
    if not isinstance(got, (A.SArray, np.ndarray)) or len(got.shape) != 2:
        eng.obl("a two-dimensional array is returned", "post", "refuted", "types", "%r" % (got,))
        return
    for a, b in zip(got.shape, want):
        eng.prove(lift(a) == lift(b), "one row per node, one column per dimension")
    # indices in front of and behind dimension i in the enumeration, as single numbers
    seq = list(range(d)) if order == "C" else list(range(d))[::-1]
    p = seq.index(i)
    slow, fast = seq[:p], seq[p + 1:]

    def combined(qs):
        v, w = const(0), const(1)
        for q in qs:
            v, w = v * ns[q] + ks[q], w * ns[q]
        return v, w
    (K, KW), (L, LW) = combined(slow), combined(fast)

    def named(v, w, nm):
        """an atom for a combined index; its bounds are a lemma on mixed radix numbers"""
        if eng.bind or len(v.p) <= 1 or transposed:
            return v
        x = integer(nm)
        eng.assume(x >= 0)
        eng.assume(x <= w - 1)
        eng.focus.append((w, x))
        return x
    Kn, Ln = named(K, KW, "kappa"), named(L, LW, "lam")
    R = (Kn * ns[i] + ks[i]) * LW + Ln
    val = got[(i, R) if transposed else (R, i)]
    eng.prove_eq(val, at[i](ks[i]), "coordinate %d of the row of an arbitrary node" % i)
    # the row is the documented one: with the combined indices put back, it is row(order, ks)
    R2 = (K * ns[i] + ks[i]) * LW + L
    eng.prove_eq(R2, lift(row(order, ks, ns)), "position of the node in the enumeration")


def prove_radix(eng, d):
    """0 <= row(ks) < number of nodes, for every d digits; with a digit more by induction"""
    from pyvc.terms import const, integer
    ks = [integer("k%d" % q) for q in range(d)]
    ss = [integer("s%d" % q) for q in range(d)]
    for x in ks + ss:
        eng.assume(x >= 0)
    ns = [k + s + 1 for k, s in zip(ks, ss)]
    total = const(1)
    for n in ns:
        total = total * n
    r = row("C", ks, ns)
    eng.prove(r >= 0, "row numbers are not negative")
    eng.prove(total - 1 - r >= 0, "row numbers are below the number of nodes")


def draw_for(kinds):
    def f(rng):
        return {"n": [int(rng.integers(2, 5 if len(kinds) < 4 else 4)) for _ in kinds], "seed": int(rng.integers(1 << 30))}
    return f


def run(form, kinds):
    def f(inp):
        rng = rng_of(inp["seed"])
        axes, nodes = [], []
        for kd, n in zip(kinds, inp["n"]):
            if kd == "n":
                g = np.cumsum(rng.uniform(0.1, 2, n)) + rng.uniform(-3, 3)
                axes.append(g)
                nodes.append(g.copy())
            else:
                a = float(rng.uniform(-3, 3))
                b = a + float(rng.uniform(0.5, 4))
                axes.append((a, b, n))
                nodes.append(np.linspace(a, b, n))
        got = build(form, len(kinds), lambda f, *a, **k: f(*a, **k), axes, kinds)
        rows = list(itertools.product(*nodes[::-1] if order_of(form) == "F" else nodes))
        want = np.array([r[::-1] for r in rows] if order_of(form) == "F" else rows)
        msg = close(got, want.T if form.startswith("Linear") else want, rtol=1e-12, atol=1e-12)
        if msg:
            return "%s: %s" % (form, msg)
        if form in ("nodes", "mlinspace C", "CubicSpline.grid"):
            # the values on the enumeration are the values the evaluation reads
            V = rng.uniform(-1, 1, inp["n"])
            e = importlib.import_module("interpolation.splines.eval_splines")
            msg = close(e.eval_linear(tuple(axes), V, np.ascontiguousarray(got)), V.ravel())
            if msg:
                return "values on the nodes are not read back: " + msg
        for g, h in zip(axes, nodes):
            if isinstance(g, np.ndarray) and not np.array_equal(g, h):
                return "an input was modified"
        return None
    return f


def units(tier):
    out = []
    for form in FORMS:
        allk = ["u", "uu", "uuu", "uuuu"]
        if form.startswith("cartesian"):
            allk = ["n", "nn", "nnn", "nnnn", "nnnnn"]
        elif form == "nodes":
            allk = ["u", "n", "uu", "un", "nu", "nn", "uuu", "nun", "unu", "uuuu"]
        for kinds in allk:
            def bounded(form=form, kinds=kinds):
                res = []
                for i in range(len(kinds)):
                    for b in ({"n": 2, "k": 1}, {"n": 3, "k": 1}, {"n0": 2, "k0": 1, "n1": 3, "k1": 2, "n2": 4, "k2": 1, "n3": 2, "k3": 0, "n4": 2, "k4": 1},
                              {"n0": 4, "k0": 1, "n1": 2, "k1": 0, "n2": 3, "k2": 2, "n3": 3, "k3": 1, "n4": 2, "k4": 0}):
                        def go(eng, i=i, b=b):
                            eng.bind = b
                            prove(eng, form, kinds, i)
                        res.append(go)
                return res
            out.append(Unit("%s axes=%s" % (form, kinds),
                            prove=[(lambda eng, i=i, form=form, kinds=kinds: prove(eng, form, kinds, i)) for i in range(len(kinds))],
                            draw=draw_for(kinds), run=run(form, kinds), bounded=bounded,
                            bound="2 to 4 nodes per dimension", cases=6, cost=0.1 * len(kinds)))
    out.append(Unit("row numbers", prove=[(lambda eng, d=d: prove_radix(eng, d)) for d in range(1, 6)], cases=0))
    return out
