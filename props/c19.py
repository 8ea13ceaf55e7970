"""C19: spline objects evaluate the values that were set last."""
import importlib
import itertools

import numpy as np

from .base import Unit, close, rng_of
from .c10 import refused
from .spl import Cfg, FILTERS, bounds_of, check_frozen, int_sym, make_array, spec_value, sym_inputs

ASSUMPTIONS = [
    "induction over the history: the operations are proved from an object in any reachable state (bounds and orders as "
    "constructed, values and coefficients arbitrary, enumeration of the grid computed or not); an operation that adds "
    "attributes to the object is outside this argument and only covered by the explicit histories",
    "the prefilter returns the coefficients of the values it is given (C04), evaluation has the values of C01-C03, C07",
]
CLASSES = ("CubicSpline", "CubicSplines", "LinearSpline", "LinearSplines")


def get(cls):
    m = "interpolation.splines." + ("splines" if cls.startswith("Cubic") else "multilinear")
    return getattr(importlib.import_module(m), cls)


def ops_of(cls):
    """read-only operations"""
    r = ["call points", "call point", "interpolate points", "grid"]
    if cls == "CubicSpline":
        r += ["interpolate point", "interpolate in place"]
    if cls == "CubicSplines":
        r += ["interpolate diff"]
    return r


def bad_of(cls):
    return ["set nan", "set inf", "points nan", "points inf", "point nan"] if cls.startswith("Cubic") else []


class World:
    """symbolic values, coefficients and points of one object"""

    def __init__(self, eng, cls, d, loc="in"):
        from pyvc.terms import lift
        self.eng, self.cls, self.d = eng, cls, d
        self.cubic, self.vv = cls.startswith("Cubic"), cls.endswith("s")
        cfg = Cfg(3 if self.cubic else 1, "u" * d, "linear", True, self.vv, entry="object")
        self.cfg = cfg
        D, self.grid, self.C0, self.P, _, self.nn, self.v = sym_inputs(eng, cfg, (loc,) * d)
        self.locs = [x[3] for x in D]
        self.cshape = list(self.C0.shape)
        self.vshape = [lift(x) - 2 for x in self.cshape[:d]] + self.cshape[d:] if self.cubic else self.cshape
        self.sets = {}
        self.current = None
        # one point on its own: the row nn of the points
        from pyvc.terms import app
        self.point = np.empty(d, dtype=object)
        for i in range(d):
            self.point[i] = self.P[self.nn, i]
        if self.cubic:
            self.eng.contracts[FILTERS[self.vv]] = self.filter
        for f in ("cartesian.py:mlinspace", "splines/multilinear.py:mlinspace"):
            self.eng.contracts["interpolation/" + f] = self.enumeration

    def enumeration(self, a, b, nums, *r, **k):
        """contract of mlinspace: a new array (C12 says which), nothing is written"""
        self.eng.stats.contracts_used.add("mlinspace (enumeration of the nodes: C12)")
        return make_array(self.eng, "nodes%d" % len(self.eng.stores), [int_sym(self.eng, "e0"), int_sym(self.eng, "e1")])

    def values(self, tag, flat=False, bad=None):
        """an array of values named V<tag>; flat: nodes enumerated along one axis"""
        from pyvc.terms import const, lift
        sh = self.vshape
        if flat:
            n = const(1)
            for x in sh[:self.d]:
                n = n * x
            sh = [n] + sh[self.d:]
        V = make_array(self.eng, "V%s" % tag, sh)
        if bad:
            V.store.bad = bad
        self.sets[tag] = (V, flat)
        return V

    def element(self, tag, ks):
        """element ks (node indices, component) of the values called tag"""
        from pyvc.terms import app, const, lift
        V, flat = self.sets[tag]
        if flat:
            r = const(0)
            for k, n in zip(ks[:self.d], self.vshape):
                r = r * n + k
            ks = [r] + list(ks[self.d:])
        return app("V%s" % tag, ks)

    def filter(self, smin, smax, orders, data):
        """contract of the prefilter"""
        from pyvc.terms import fresh_name, integer, lift
        eng = self.eng
        eng.stats.contracts_used.add(FILTERS[self.vv] + " (returns the coefficients of the data: C04)")
        ks = []
        if len(data.shape) != len(self.vshape):
            eng.obl("the prefilter gets an array with one axis per dimension", "pre", "refuted", "types", "%r" % (data.shape,))
            return self.C0
        for i, sz in enumerate(self.vshape):
            k = integer(fresh_name("q"))
            eng.assume(k >= 0)
            eng.assume(k < sz)
            ks.append(k)
            if i < self.d:
                eng.prove(lift(orders[i]) == sz, "the prefilter gets the number of nodes", "pre")
                eng.prove_eq(smin[i], self.grid[i][0], "the prefilter gets the lower bounds", "pre")
                eng.prove_eq(smax[i], self.grid[i][1], "the prefilter gets the upper bounds", "pre")
            eng.prove(lift(data.shape[i]) == sz, "the prefilter gets all the values", "pre")
        eng.prove_eq(data[tuple(ks)], self.element(self.current, ks), "the prefilter gets the values that were set", "pre")
        return make_array(eng, "K%s" % self.current, self.cshape)

    def construct(self, tag=None):
        from pyvc.interp import start
        a, b, n = bounds_of(self.grid)
        self.bounds = (a, b, n)
        if tag is None:
            return start(get(self.cls), a, b, n)
        self.current = tag
        return start(get(self.cls), a, b, n, self.values(tag))

    def coef(self, tag):
        from pyvc.terms import app
        tail = [self.v] if self.vv else []
        if self.cubic:
            return lambda ks: app("K%s" % tag, list(ks) + tail)
        return lambda ks: self.element(tag, list(ks) + tail)

    def want(self, tag):
        return spec_value(self.cfg, self.locs, (0,) * self.d, self.coef(tag))

    def state(self, o):
        out = {}
        for k, x in o.__dict__.items():
            out[k] = (x, getattr(getattr(x, "store", None), "layers", None),
                      [e for e in x.ravel()] if isinstance(x, np.ndarray) else None)
        return out

    def unchanged(self, o, before, what, added=True):
        eng = self.eng
        for k, (x, layers, items) in before.items():
            y = o.__dict__.get(k, None)
            same = y is x
            if same and layers is not None:
                same = x.store.layers is layers or x.store.layers == layers
            if same and items is not None:
                now = list(x.ravel())
                same = len(now) == len(items) and all(p is q for p, q in zip(now, items))
            if not same and k == "__grid__" and x is None:
                same = True
            if not same and equal_content(eng, x, layers, items, y, "%s leaves the contents of %s" % (what, k)):
                continue
            eng.obl("%s leaves %s of the object as it was" % (what, k), "frame", "ok" if same else "refuted", "heap", "")
        return [k for k in o.__dict__ if k not in before and k != "__grid__"]

    def do(self, o, op, tag):
        """run a read-only operation and check its value against the values called tag"""
        from pyvc.interp import start
        eng = self.eng
        vv = [self.v] if self.vv else []
        if op == "grid":
            g = start(type(o).grid.fget, o)
            g2 = start(type(o).grid.fget, o)
            eng.obl("the enumeration is computed once", "post", "ok" if g is g2 else "refuted", "heap", "")
            return
        if op in ("call points", "interpolate points"):
            r = start(o, self.P) if op == "call points" else start(o.interpolate, self.P)
            got = r[tuple([self.nn] + vv)]
        elif op == "interpolate in place":
            out = make_array(eng, "out%s%d" % (tag, len(eng.stores)), [self.P.shape[0]], writable=True)
            r = start(o.interpolate, self.P, out)
            got = out[self.nn]
        elif op == "interpolate diff":
            r = start(o.interpolate, self.P, True)
            got = r[0][self.nn, self.v]
            for i in range(self.d):
                od = tuple(int(i == q) for q in range(self.d))
                eng.prove_eq(r[1][self.nn, i, self.v], spec_value(self.cfg, self.locs, od, self.coef(tag)),
                             "gradient of the last values, direction %d" % i)
        else:
            r = start(o, self.point) if op == "call point" else start(o.interpolate, self.point)
            got = r[self.v] if self.vv else r
        if tag is not None:
            eng.prove_eq(got, self.want(tag), "%s evaluates the values that were set last" % op)

    def refuse(self, o, op, n):
        from pyvc.interp import start
        from pyvc.arrays import NonFinite
        eng = self.eng
        kind = op.split()[1]
        if op.startswith("set"):
            keep = self.current
            self.current = "bad%d" % n
            V = self.values(self.current, bad=kind)
            refused(eng, lambda: start(o.set_values, V), Exception, "values with a %s are refused" % kind)
            self.current = keep
        elif op.startswith("points"):
            from pyvc.terms import integer
            N = int_sym(eng, "M%d" % n)
            eng.assume(N >= 1)
            Q = make_array(eng, "Q%d" % n, [N, self.d])
            Q.store.bad = kind
            refused(eng, lambda: start(o.interpolate, Q), Exception, "points with a %s are refused" % kind)
            if self.cls != "CubicSpline":
                refused(eng, lambda: start(o.interpolate, Q, True), Exception,
                        "points with a %s are refused when derivatives are requested" % kind)
        else:
            for i in range(self.d):
                x = self.point.copy()
                x[i] = NonFinite(kind)
                refused(eng, lambda: start(o, x), Exception, "a point with a %s is refused" % kind)
                if self.cls == "CubicSpline":
                    refused(eng, lambda: start(o.interpolate, x), Exception, "a point with a %s is refused" % kind)

    def generic(self, grid):
        """an object in an arbitrary reachable state"""
        o = self.construct()
        self.gridobj = None
        if grid:
            self.gridobj = make_array(self.eng, "anygrid", [int_sym(self.eng, "g0"), int_sym(self.eng, "g1")])
            o.__grid__ = self.gridobj
        if self.cubic:
            self.Cany = make_array(self.eng, "Kany", self.cshape)
            self.Vany = make_array(self.eng, "Vany", self.vshape)
            if self.vv:
                o.__mcoeffs__, o.__mvalues__ = self.Cany, self.Vany
            else:
                o.__coeffs__, o.__values__ = self.Cany, self.Vany
        else:
            self.sets["any"] = (make_array(self.eng, "Vany", self.vshape), False)
            setattr(o, "mvalues" if self.vv else "values", self.sets["any"][0])
        return o


def equal_content(eng, x, layers, items, y, what):
    """the attribute is a different object: the contents have to be what they were"""
    from pyvc.arrays import SArray, read
    from pyvc.terms import fresh_name, integer, lift, lift_or_none
    if isinstance(x, SArray) and isinstance(y, SArray) and x.ndim == y.ndim and (layers is x.store.layers or not x.store.layers):
        ks = []
        for a, b in zip(x.shape, y.shape):
            eng.prove(lift(a) == lift(b), what, "frame")
            k = integer(fresh_name("h"))
            eng.assume(k >= 0)
            eng.assume(k < lift(a))
            ks.append(k)
        eng.prove_eq(y[tuple(ks)] if len(ks) > 1 else y[ks[0]], x[tuple(ks)] if len(ks) > 1 else x[ks[0]], what, "frame")
        return True
    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape and items is not None:
        for p, q in zip(items, y.ravel()):
            if lift_or_none(p) is None or lift_or_none(q) is None:
                return False
            eng.prove_eq(q, p, what, "frame")
        return True
    if isinstance(x, (int, str, float, type)) and type(x) is type(y):
        return x == y
    if lift_or_none(x) is not None and lift_or_none(y) is not None:
        eng.prove_eq(y, x, what, "frame")
        return True
    return False


def held(o):
    from pyvc.arrays import SArray, root
    out = []

    def walk(x, depth):
        if isinstance(x, SArray):
            out.append(root(x.store))
        elif isinstance(x, (list, tuple)) and depth:
            for y in x:
                walk(y, depth - 1)
        elif isinstance(x, dict) and depth:
            for y in x.values():
                walk(y, depth - 1)
        elif isinstance(x, np.ndarray):
            out.append(x)
    for x in o.__dict__.values():
        walk(x, 3)
    return out


def prove_set(eng, cls, d, flat, grid):
    """set_values from any state"""
    from pyvc.interp import start
    from pyvc.terms import Unsupported
    w = World(eng, cls, d)
    o = w.generic(grid)
    before = w.state(o)
    w.current = "new"
    V = w.values("new", flat)
    start(o.set_values, V)
    keep = {k: x for k, x in before.items() if k not in ("__values__", "__coeffs__", "__mvalues__", "__mcoeffs__",
                                                         "values", "mvalues")}
    w.unchanged(o, keep, "set_values")
    extra = [k for k in o.__dict__ if k not in before and k != "__grid__"]
    if w.cubic:
        got = getattr(o, "__mcoeffs__" if w.vv else "__coeffs__", None)
        ok = getattr(getattr(got, "store", None), "name", None) == "Knew"
        if not ok and (got is None or got is w.Cany):
            eng.obl("set_values installs the coefficients of the new values", "post", "refuted", "heap", "%r" % (got,))
        elif not ok:
            raise Unsupported("the coefficients are not those returned by the prefilter")
        else:
            eng.obl("set_values installs the coefficients of the new values", "post", "ok", "heap")
        mine = held(o)
        for x in (V,) + tuple(w.bounds):
            kept = any(m is getattr(x, "store", x) for m in mine)
            eng.obl("arrays that were passed in are not retained", "frame", "refuted" if kept else "ok", "heap", "")
    # and it is what the object evaluates
    w.do(o, "call points", "new")
    check_frozen(eng)
    if extra:
        raise Unsupported("attributes %r appear in set_values" % extra)


def prove_op(eng, cls, d, op, grid, loc):
    """a read-only operation in any state"""
    from pyvc.terms import Unsupported
    w = World(eng, cls, d, loc)
    o = w.generic(grid)
    before = w.state(o)
    w.do(o, op, "any")
    extra = w.unchanged(o, before, op)
    check_frozen(eng)
    if op == "grid":
        w.do(o, "call points", "any")
    if extra:
        raise Unsupported("attributes %r appear in %s" % (extra, op))


def prove_bad(eng, cls, d, op, grid):
    """a refused operation in any state"""
    from pyvc.terms import Unsupported
    w = World(eng, cls, d)
    o = w.generic(grid)
    before = w.state(o)
    w.refuse(o, op, 0)
    extra = w.unchanged(o, before, "a refused operation")
    w.do(o, "call points", "any")
    check_frozen(eng)
    if extra:
        raise Unsupported("attributes %r appear in %s" % (extra, op))


def prove_history(eng, cls, d, first, ops):
    """an explicit history"""
    from pyvc.interp import start
    w = World(eng, cls, d)
    o = w.construct("0" if first else None)
    for n, op in enumerate(ops):
        if op == "set" or op == "set flat":
            w.current = str(n + 1)
            start(o.set_values, w.values(w.current, op == "set flat"))
        elif op in bad_of(cls):
            w.refuse(o, op, n)
        else:
            w.do(o, op, w.current)
    if w.current is not None:
        w.do(o, "call points", w.current)
    check_frozen(eng)


# ---------------------------------------------------------------- concrete

def reference(cls, a, b, n, V, X):
    return get(cls)(list(a), list(b), list(n), V.copy())(X)


def kept(o):
    return {k: x.copy() if isinstance(x, np.ndarray) else x for k, x in o.__dict__.items()}


def differs(o, before):
    """an attribute that is not what it was (the enumeration of the grid may have been computed)"""
    for k, x in before.items():
        y = o.__dict__.get(k)
        if k == "__grid__" and x is None:
            continue
        same = np.array_equal(x, y) if isinstance(x, np.ndarray) else type(x) is type(y) and bool(np.all(x == y))
        if not same:
            return k
    return None


def shares(o, arr):
    return any(isinstance(x, np.ndarray) and np.shares_memory(x, arr) for x in o.__dict__.values())


def near(rng, V):
    """values that are easily taken for V"""
    how = int(rng.integers(6))
    W = V.copy()
    if how <= 1:
        return W + 10.0 ** -int(rng.integers(2, 10)) * rng.uniform(-1, 1, V.shape)
    if how == 2:
        W[tuple(int(rng.integers(m)) for m in V.shape)] += 1.0
        return W
    if how == 3:
        return rng.permutation(W.ravel()).reshape(V.shape)
    return -W if how == 4 else W * 10.0 ** -int(rng.integers(3, 12))


def run_history(cls, d):
    def f(inp):
        rng = rng_of(inp["seed"])
        cubic, vv = cls.startswith("Cubic"), cls.endswith("s")
        n = [int(x) for x in rng.integers(2, 6 if d < 3 else 4, d)]
        a = rng.uniform(-2, 2, d)
        b = a + rng.uniform(0.3, 4, d)
        p = int(rng.integers(1, 4))
        sh = n + [p] if vv else n
        a0, b0, n0 = a.copy(), b.copy(), np.array(n)
        nodes = np.array(list(itertools.product(*[np.linspace(x, y, m) for x, y, m in zip(a, b, n)])))
        passed = []

        def values():
            V = rng.uniform(-3, 3, sh)
            how = int(rng.integers(4))
            if how == 1:
                V = np.asfortranarray(V)
            if how == 2:
                V = V.reshape([-1] + ([p] if vv else []))
            if how == 3 and not vv:
                V = V.ravel()
            return V
        last = None
        hist = []
        given = (a, b, n0) if inp["first"] % 2 else (list(a), list(b), list(n))
        if inp["first"] < 2:
            last = values()
            passed.append((last, last.copy()))
            o = get(cls)(*given, last)
            last = last.copy()
        else:
            o = get(cls)(*given)
        if inp["first"] % 2 and cubic:
            for x in (given[0], given[1]):
                x += 100.0
            given[2][:] = 1
            hist.append("bounds overwritten by the caller")
        for op in inp["ops"]:
            hist.append(op)
            before = kept(o)
            X = a0 + (b0 - a0) * rng.uniform(-0.2, 1.2, (int(rng.integers(1, 5)), d))
            X0 = X.copy()
            if op in ("set", "set near"):
                V = values()
                if op == "set near" and last is not None:
                    V = near(rng, last.reshape(sh))
                passed.append((V, V.copy()))
                o.set_values(V)
                if cubic and shares(o, V):
                    return "the array of values is retained after %r" % (hist,)
                last = V.copy()
            elif op == "set then overwrite":
                V = values()
                o.set_values(V)
                last = V.copy()
                V[...] = 1e3
            elif op == "set same array":
                V = passed[-1][0] if passed and passed[-1][0].flags.writeable else values()
                V[...] = rng.uniform(-3, 3, V.shape)
                if passed:
                    passed[-1] = (V, V.copy())
                o.set_values(V)
                last = V.copy()
            elif op == "set list":
                V = values()
                o.set_values(V.tolist())
                last = V.copy()
            elif op.startswith("set"):
                V = values()
                if op == "set short":
                    V = V.ravel()[:-1]
                    V = V.reshape(-1, 1) if vv else V
                else:
                    ix = tuple(int(rng.integers(m)) for m in V.shape)
                    V[ix] = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}[op.split()[1]]
                try:
                    o.set_values(V)
                except Exception:
                    if differs(o, before):
                        return "%s: refused values changed %s after %r" % (op, differs(o, before), hist)
                    continue
                return "%s: values were accepted after %r" % (op, hist)
            elif op.startswith("point"):
                X[int(rng.integers(X.shape[0])), int(rng.integers(d))] = {"nan": np.nan, "inf": np.inf}[op.split()[1]]
                bad = X if op.startswith("points") else X[[int(np.argmax(~np.isfinite(X).all(axis=1)))]][0]
                for g in ([o, o.interpolate] if bad.ndim == 2 or cls == "CubicSpline" else [o]):
                    try:
                        r = g(bad)
                    except Exception:
                        if differs(o, before):
                            return "%s: a refused evaluation changed %s after %r" % (op, differs(o, before), hist)
                        continue
                    return "%s: evaluation at a non-finite point returned %r after %r" % (op, r, hist)
            elif op == "grid":
                G = np.array(o.grid)
                if G.size != nodes.size:
                    return "grid has shape %r" % (G.shape,)
            elif last is None:
                continue
            else:
                want = reference(cls, a0, b0, n, last, X)
                if op == "call points":
                    got = o(X)
                elif op == "call point":
                    got, want = o(X[0]), want[0]
                elif op == "interpolate points":
                    got = o.interpolate(X)
                elif op == "interpolate point":
                    got, want = o.interpolate(X[0]), want[0]
                elif op == "interpolate in place":
                    got = np.full((X.shape[0], 2), 7.0)[:, 0] if len(hist) % 2 else np.full(X.shape[0], 7.0)
                    o.interpolate(X, got)
                else:
                    got, dv = o.interpolate(X, True)
                    h = 1e-6
                    for i in range(d):
                        e = np.zeros(d)
                        e[i] = h
                        fd = (o(X + e) - o(X - e)) / (2 * h)
                        if not np.allclose(dv[:, i], fd, atol=1e-4 * (1 + np.abs(fd).max())):
                            return "gradient after %r differs from differences of the values" % (hist,)
                # the reference does the same arithmetic
                msg = close(got, want, rtol=0, atol=1e-11 * np.abs(last).max())
                if msg:
                    return "%s after %r: %s" % (op, hist, msg)
                if not np.array_equal(X, X0):
                    return "the points were modified"
                if differs(o, before):
                    return "evaluation changed %s after %r" % (differs(o, before), hist)
        if last is not None:
            want = last.reshape(sh).reshape([-1] + ([p] if vv else []))
            msg = close(o(nodes), want, rtol=1e-8) or close(o(nodes), reference(cls, a0, b0, n, last, nodes), rtol=0,
                                                            atol=1e-11 * np.abs(last).max())
            if msg:
                return "values at the nodes after %r: %s" % (hist, msg)
        for V, keep in passed:
            if not np.array_equal(V, keep):
                return "an array of values was modified"
        return None
    return f


def draw_history(cls):
    def f(rng):
        ops = [o for o in ops_of(cls) if True] + ["set"] * 3 + ["set near"] * 2 + ["set same array"]
        if cls.startswith("Cubic"):
            ops += ["set then overwrite", "set list", "set nan", "set inf", "set -inf", "set short", "points nan", "points inf",
                    "point nan", "point inf"]
        m = int(rng.integers(2, 12))
        return {"ops": [ops[int(k)] for k in rng.integers(0, len(ops), m)], "first": int(rng.integers(4)),
                "seed": int(rng.integers(1 << 30))}
    return f


def histories(cls, tier):
    """every history of up to two operations between construction and evaluation, and those of three that change the values last"""
    sets = ["set"] + ([] if cls == "LinearSplines" else ["set flat"])
    bad = bad_of(cls)[:4:2]
    reads = ops_of(cls)
    alpha = sets[:1] + bad + [r for r in reads if r not in ("call points",)]
    out = [(True, ()), (False, ("set",))]
    for op in alpha + sets[1:]:
        out.append((True, (op,)))
        out.append((False, ("set", op)))
    for x in alpha + ["call points"]:
        out.append((True, (x, "set")))
        for y in bad + ["set"]:
            out.append((True, (x, "set", y)))
            out.append((True, (x, y, "call points")))
    if tier == "thorough":
        for x, y, z in itertools.product(alpha, repeat=3):
            out.append((True, (x, y, z)))
    return list(dict.fromkeys(out))


def units(tier):
    out = []
    full = tier == "thorough"
    for cls in CLASSES:
        for d in (1, 2, 3, 4):
            con = d < 4 or full
            hist = [(lambda eng, h=h, d=d, cls=cls: prove_history(eng, cls, d, *h)) for h in
                    (histories(cls, tier) if d == 1 or full and d == 2 else histories(cls, "quick")[:8] if d == 2 else [])]
            if hist:
                out.append(Unit("%s d=%d explicit histories" % (cls, d), prove=hist, draw=draw_history(cls), run=run_history(cls, d),
                                cases=12, cost=4, budget=400, level="bounded: %d histories of at most 3 operations" % len(hist)))
            elif con:
                out.append(Unit("%s d=%d histories" % (cls, d), draw=draw_history(cls), run=run_history(cls, d), cases=6, cost=4))
            flats = (False, True) if d < 4 else (False,)
            for flat in flats:
                out.append(Unit("%s d=%d set_values%s in any state" % (cls, d, " flat" if flat else ""),
                                prove=[(lambda eng, cls=cls, d=d, flat=flat, g=g: prove_set(eng, cls, d, flat, g))
                                       for g in (False, True)], draw=draw_history(cls), run=run_history(cls, d),
                                cases=2 if con else 0, cost=2 ** d * 0.2))
            for op in ops_of(cls):
                locs = ("in",) if d > 2 else ("in", "hi")
                out.append(Unit("%s d=%d %s in any state" % (cls, d, op),
                                prove=[(lambda eng, cls=cls, d=d, op=op, g=g, l=l: prove_op(eng, cls, d, op, g, l))
                                       for l in locs for g in ((False,) if l != "in" else (False, True))],
                                draw=draw_history(cls), run=run_history(cls, d), cases=0, cost=4 ** d * 0.1))
            for op in bad_of(cls):
                out.append(Unit("%s d=%d %s refused in any state" % (cls, d, op),
                                prove=[(lambda eng, cls=cls, d=d, op=op, g=g: prove_bad(eng, cls, d, op, g)) for g in (False, True)],
                                draw=draw_history(cls), run=run_history(cls, d), cases=1 if con else 0, cost=4 ** d * 0.1,
                                budget=60))
    return out
