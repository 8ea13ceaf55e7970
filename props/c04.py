"""C04: the prefilter solves the interpolation problem."""
import importlib
import itertools

import numpy as np

from .base import Unit, close, rng_of
from .spl import check_frozen, int_sym, make_array


def mod(n):
    return importlib.import_module("interpolation.splines." + n)


FC = "interpolation/splines/filter_cubic.py:find_coefs_1d"
PC = "interpolation/splines/prefilter_cubic.py:find_coefs_1d"


# ----------------------------------------- the contract of the 1-D solver

def prove_1d(eng, which, alias):
    from pyvc.interp import start
    from pyvc.terms import app, integer, real
    from pyvc import arrays as A
    M, dl = int_sym(eng, "M"), real("dl")
    eng.assume(M >= 2)
    eng.assume(dl > 0)
    coefs = make_array(eng, "c0", (M + 2,), writable=True)
    data = coefs if alias else make_array(eng, "data", (M,))
    nm = "c0" if alias else "data"
    if which == "filter_cubic":
        start(mod("filter_cubic").find_coefs_1d, dl, M, data, coefs)
    else:
        bands = make_array(eng, "bands0", (M + 2, 4), writable=True)
        start(mod("prefilter_cubic").find_coefs_1d, dl, data, coefs, bands)
    check_frozen(eng)
    i = int_sym(eng, "i")
    eng.assume(i >= 0)
    eng.assume(i < M)
    c = coefs
    eng.prove_eq(c[i] + 4 * c[i + 1] + c[i + 2], 6 * app(nm, [i]), "interpolation equation at an arbitrary node")
    eng.prove_eq(c[0] - 2 * c[1] + c[2], 0, "second derivative vanishes at the left end")
    eng.prove_eq(c[M - 1] - 2 * c[M] + c[M + 1], 0, "second derivative vanishes at the right end")


def use_contract(eng):
    """Callers are checked against the contract of the 1-D solver, not its body."""
    from pyvc import arrays as A
    from pyvc.engine import Rule
    from pyvc.terms import Unsupported, app, cmp, conj, const, fresh_name, integer, lift

    cnt = [0]

    def apply(label, delta, M, data, coefs):
        eng.stats.contracts_used.add(label + " (proved separately in this check)")
        M = lift(M)
        eng.prove(cmp("!=", delta, 0), "the solver is called with a nonzero spacing", "pre")
        eng.prove(M >= 2, "the solver is called with at least two values", "pre")
        if isinstance(data, A.SArray) and isinstance(coefs, A.SArray):
            eng.prove(lift(coefs.shape[0]) == M + 2, "length of the coefficient vector", "pre")
            if data.store is coefs.store:
                for (x, y) in zip(data.axes, coefs.axes):
                    same = x[0] == y[0] and all(lift(p).same(q) for p, q in zip(x[1:], y[1:]))
                    if not same:
                        raise Unsupported("partially overlapping data and coefficients")
            else:
                eng.prove(lift(data.shape[0]) == M, "length of the data vector", "pre")
        else:
            raise Unsupported("concrete arrays")
        cnt[0] += 1
        S = fresh_name("S%d" % cnt[0])
        outer = list(eng.loopvars)
        oid = [A.aid(v) for v in outer]
        layers = data.store.layers
        st = data.store

        # the call reads every element of data
        if st.readlog is not None:
            k = integer(fresh_name("k"))
            eng.assume(conj(0 <= k, k < M))
            st.readlog.append((data.map([k]), -1, layers))

        def sub_of(args):
            return {o: a for o, a in zip(oid, args[:-1])}

        def dat(args, k):
            s = sub_of(args)
            return A.read(st, layers, data.map([k], s), s, log=False)

        def MM(args):
            return M.subst(sub_of(args))

        def at(args, k):
            return app(S, list(args[:-1]) + [k])

        def down(args):           # S(k) from the two elements before it
            k = args[-1]
            if eng.entails(conj(cmp("<=", 2, k), cmp("<=", k, MM(args) + 1))):
                return 6 * dat(args, k - 2) - 4 * at(args, k - 1) - at(args, k - 2)
            return None

        def nat_left(args):
            k = args[-1]
            if k.same(0):
                return 2 * at(args, const(1)) - at(args, const(2))
            return None

        def nat_right(args):
            k = args[-1]
            if k.same(MM(args) + 1):
                return 2 * at(args, k - 1) - at(args, k - 2)
            return None

        r = Rule(S, [("interp", down), ("left", nat_left), ("right", nat_right)], direction=0)
        r.order = cnt[0]
        eng.rules[S] = r
        f = integer(fresh_name("f"))
        cs = coefs.store
        if cs.readonly:
            eng.fail("inputs are not modified", "frame", "write to input array %s" % cs.name, True)
        cs.layers = cs.layers + (A.Layer((f,), ((const(0), M + 2),), coefs.map([f]), app(S, outer + [f])),)

    eng.contracts[FC] = lambda delta_inv, M, data, coefs: apply(FC, delta_inv, M, data, coefs)
    eng.contracts[PC] = lambda delta, data, coefs, bands: apply(PC, delta, lift(bands.shape[0]) - 2, data, coefs)


def goals(eng, C, dat, Ms, extra, coef_name="coefficients"):
    """interpolation at an arbitrary node; second difference across each face"""
    from pyvc.terms import const, integer
    d = len(Ms)
    node = []
    for i in range(d):
        q = int_sym(eng, "i%d" % i)
        eng.assume(q >= 0)
        eng.assume(q < Ms[i])
        node.append(q)
    b = [1, 4, 1]
    tot = 0
    for ks in itertools.product(range(3), repeat=d):
        w = 1
        for k in ks:
            w *= b[k]
        tot = tot + w * C[tuple([node[i] + ks[i] for i in range(d)] + extra)]
    eng.prove_eq(tot, 6 ** d * dat(node), "the spline takes the given value at an arbitrary node")
    for ax in range(d):
        for base, nm in ((const(0), "lower"), (Ms[ax] - 1, "upper")):
            tot = 0
            for ks in itertools.product(range(3), repeat=d):
                w = [1, -2, 1][ks[ax]]
                for i, k in enumerate(ks):
                    if i != ax:
                        w *= b[k]
                ix = [node[i] + ks[i] for i in range(d)]
                ix[ax] = base + ks[ax]
                tot = tot + w * C[tuple(ix + extra)]
            eng.prove_eq(tot, 0, "second derivative in direction %d vanishes on the %s face" % (ax, nm))


def sym_grid(eng, d):
    from pyvc.terms import real
    Ms, grid = [], []
    for i in range(d):
        M = int_sym(eng, "M%d" % i)
        eng.assume(M >= 2)
        a, h = real("a%d" % i), real("h%d" % i)
        eng.assume(h > 0)
        Ms.append(M)
        grid.append((a, a + (M - 1) * h, M))
    return Ms, tuple(grid)


def prove_nd(eng, entry, d, vv, out):
    from pyvc.interp import start
    from pyvc.models import to_obj
    from pyvc.terms import app, integer
    if not eng.bind:
        use_contract(eng)
    Ms, grid = sym_grid(eng, d)
    sh = list(Ms)
    extra = []
    p = None
    if vv:
        p, v = int_sym(eng, "p"), int_sym(eng, "v")
        eng.assume(v >= 0)
        eng.assume(v < p)
        sh.append(p)
        extra = [v]
    D = make_array(eng, "D", sh)
    co = None
    if out:
        co = make_array(eng, "C0", [m + 2 for m in Ms] + ([p] if vv else []), writable=True)
    smin, smax, orders = [g[0] for g in grid], [g[1] for g in grid], [g[2] for g in grid]
    if entry == "prefilter":
        C = start(mod("prefilter_cubic").prefilter, grid, D, co, 3)
    elif entry == "prefilter_cubic":
        C = start(mod("prefilter_cubic").prefilter_cubic, *([grid, D] + ([co] if out else [])))
    elif entry == "filter_coeffs":
        C = start(mod("filter_cubic").filter_coeffs, smin, smax, to_obj(orders), D)
    elif entry == "filter_mcoeffs":
        C = start(mod("filter_cubic").filter_mcoeffs, smin, smax, to_obj(orders), D)
    check_frozen(eng)
    if out:
        C = co
    goals(eng, C, lambda ks: app("D", list(ks) + extra), Ms, extra)
    if not out:
        for i in range(d):
            eng.prove(C.shape[i] == Ms[i] + 2, "two more coefficients than nodes per dimension")


# ------------------------------------------------------------- concrete side

def draw(d, vv):
    def f(rng):
        M = [int(x) for x in rng.integers(2, 9 if d == 1 else 6 if d < 4 else 4, d)]
        if d > 1 and rng.integers(4):
            M[int(rng.integers(d))] = int(rng.integers(5, 15 if d < 4 else 10))
        return {"M": M,
                "a": [round(float(x), 3) for x in rng.uniform(-3, 3, d)],
                "h": [round(float(x), 3) for x in rng.uniform(0.05, 3, d)],
                "p": int(rng.integers(1, 4)), "seed": int(rng.integers(1 << 30))}
    return f


def from_model(d, vv):
    def f(model, rng):
        x = draw(d, vv)(rng)
        for i in range(d):
            for nm in ("M%d" % i, "M"):
                if nm in model and 2 <= model[nm] <= 12:
                    x["M"][i] = int(model[nm])
            for k in "ah":
                v = model.get("%s%d" % (k, i))
                if v is not None and abs(v) < 1e3 and (k == "a" or v > 1e-2):
                    x[k][i] = float(v)
        return x
    return f


def run(entry, d, vv, out):
    def f(inp):
        rng = rng_of(inp["seed"])
        M, a, h = inp["M"], inp["a"], inp["h"]
        b = [a[i] + (M[i] - 1) * h[i] for i in range(d)]
        grid = tuple((a[i], b[i], M[i]) for i in range(d))
        sh = list(M) + ([inp["p"]] if vv else [])
        D = rng.uniform(-2, 2, sh)
        D0 = D.copy()
        co = rng.uniform(50, 60, [m + 2 for m in M] + ([inp["p"]] if vv else []))
        if entry == "prefilter":
            C = mod("prefilter_cubic").prefilter(grid, D, out=co if out else None, k=3)
        elif entry == "prefilter_cubic":
            C = mod("prefilter_cubic").prefilter_cubic(*([grid, D] + ([co] if out else [])))
        elif entry == "filter_coeffs":
            C = mod("filter_cubic").filter_coeffs(a, b, np.array(M), D)
        else:
            C = mod("filter_cubic").filter_mcoeffs(a, b, np.array(M), D)
        if out:
            C = co
        if not np.array_equal(D, D0):
            return "the data were modified"
        if list(C.shape) != [m + 2 for m in M] + ([inp["p"]] if vv else []):
            return "shape of the coefficients: %r" % (C.shape,)
        V = np.array(C)
        for ax in range(d):
            n = V.shape[ax]
            s = lambda o: V.take(range(o, n - 2 + o), axis=ax)
            V = (s(0) + 4 * s(1) + s(2)) / 6
        msg = close(V, D0)
        if msg:
            return "values at the nodes: " + msg
        for ax in range(d):
            for lo in (0, M[ax] - 1):
                W = C.take(lo, axis=ax) - 2 * C.take(lo + 1, axis=ax) + C.take(lo + 2, axis=ax)
                msg = close(W, np.zeros_like(W), rtol=0, atol=1e-8 * (1 + np.abs(C).max()))
                if msg:
                    return "second derivative on a face of direction %d: %s" % (ax, msg)
        return None
    return f


def bounded_1d(which, alias):
    def f():
        out = []
        for M in (2, 3, 4):
            for i in range(M):
                def go(eng, M=M, i=i):
                    eng.bind = {"M": M, "i": i}
                    prove_1d(eng, which, alias)
                out.append(go)
        return out
    return f


def bounded_nd(entry, d, vv, out):
    def f():
        res = []
        for b in ({"M": 2, "i": 0, "p": 2, "v": 1}, {"M": 2, "i": 1, "p": 1, "v": 0}, {"M": 3, "i": 1, "p": 1, "v": 0}):
            if d > 2 and b["M"] == 3:
                continue

            def go(eng, b=b):
                eng.bind = b
                prove_nd(eng, entry, d, vv, out)
            res.append(go)
        return res
    return f


def units(tier):
    us = []
    for which in ("filter_cubic", "prefilter_cubic"):
        for alias in (False, True):
            us.append(Unit("1-D solver of %s%s" % (which, ", in place" if alias else ""),
                           prove=lambda eng, w=which, a=alias: prove_1d(eng, w, a),
                           bounded=bounded_1d(which, alias), bound="2 to 4 nodes", cases=0, cost=2))
    def add(entry, d, vv, out, cases=6):
        us.append(Unit("%s d=%d%s%s" % (entry, d, " vector-valued" if vv else "", " in-place" if out else ""),
                       prove=lambda eng: prove_nd(eng, entry, d, vv, out), draw=draw(d, vv), run=run(entry, d, vv, out),
                       model=from_model(d, vv), bounded=bounded_nd(entry, d, vv, out) if d < 4 else None,
                       bound="2 or 3 nodes per dimension, 1 or 2 splines", cost=1.5 * 2 ** d, cases=cases if d < 3 else 24))
    for d in (1, 2, 3, 4):
        for vv in (False, True):
            add("prefilter_cubic", d, vv, False)
            add("prefilter_cubic", d, vv, True)
            add("filter_mcoeffs" if vv else "filter_coeffs", d, vv, False)
            if d <= 2 or not vv or tier == "thorough":
                add("prefilter", d, vv, False)
                add("prefilter", d, vv, True)
    return us
