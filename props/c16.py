"""C16: every access of the evaluation and filtering functions lies in its array,
for points that are arbitrary machine floats."""
import importlib

import numpy as np

from . import c04, c07, c08, c09, c12
from .base import Unit, rng_of
from .spl import Cfg, MODES, int_sym, invoke, make_array

BOUNDSCHECK = True
MACHINE_FLOATS = 1      # the reading of floats as reals is not assumed
ASSUMPTIONS = ["points, and everything computed from them, are arbitrary machine floats (nan, infinities, overflow and "
               "rounding included); conversion of a float to an integer gives any 64-bit integer where the float has "
               "no integer part in that range; integer arithmetic on indices is unbounded; grid bounds are finite reals with a < b, nonuniform grids are increasing"]


def sym_grid(eng, dims):
    """grid entries and numbers of nodes; only sizes and the order of the nodes are known"""
    from pyvc.terms import const, real
    grid, ns = [], []
    for i, c in enumerate(dims):
        n = int_sym(eng, "n%d" % i)
        eng.assume(n >= 2)
        if c == "u":
            a, b = real("a%d" % i), real("b%d" % i)
            eng.assume(a < b)
            grid.append((a, b, n))
        else:
            nm = "g%d" % i
            eng.sorted_funs[nm] = {"cands": [const(0), n - 1, n, const(1)]}
            grid.append(make_array(eng, nm, (n,)))
        ns.append(n)
    return tuple(grid), ns


def floats(eng, name):
    """the elements of an array are arbitrary machine floats"""
    from pyvc import arrays as A
    seen = {}

    def over(args):
        k = repr(args)
        if k not in seen:
            seen[k] = A.Fl()
        return seen[k]
    eng.app_over[name] = over


def arbitrary(eng):
    eng.merge = True
    eng.nan = True
    eng.kinds = {"bounds"}


def done(eng):
    eng.kinds = None
    eng.obl("every access lies in its array", "post", "ok", "bounds obligations of the path", "")


def index(eng, n, i):
    """an arbitrary index of an axis that loops run over"""
    N, k = int_sym(eng, n), int_sym(eng, i)
    eng.assume(k >= 0)
    eng.assume(k <= N - 1)
    eng.focus.append((N, k))
    return N, k


def prove(eng, cfg, kind=None):
    from pyvc.interp import start
    from pyvc import arrays as A
    arbitrary(eng)
    grid, ns = sym_grid(eng, cfg.dims)
    shape = [n + (2 if cfg.k == 3 else 0) for n in ns]
    if cfg.vv:
        p, v = index(eng, "p", "v")
        shape.append(p)
    C = make_array(eng, "C", shape)
    N = None
    if cfg.vec:
        N, nn = index(eng, "N", "nn")
        P = make_array(eng, "P", (N, cfg.d))
    else:
        P = make_array(eng, "P", (cfg.d,))
    floats(eng, "P")
    if kind is not None:            # value and gradient
        vals = dvals = None
        if kind == "kernel" or cfg.out:
            vals = make_array(eng, "vals0", [N, p], writable=True)
            dvals = make_array(eng, "dvals0", [N, cfg.d, p], writable=True)
        c07.call_G(kind, cfg.d, start, grid, C, P, vals, dvals, eng)
        return done(eng)
    out = None
    if cfg.out and not cfg.returns_value():
        sh = ([N] if cfg.vec else []) + ([p] if cfg.vv else []) + ([len(cfg.orders)] if cfg.orders else [])
        out = make_array(eng, "out0", sh, writable=True)
    invoke(cfg, start, grid, C, P, out)
    done(eng)


def prove_ml(eng, form, dims):
    from pyvc.interp import start
    from pyvc import arrays as A
    arbitrary(eng)
    grid, ns = sym_grid(eng, dims)
    d = len(dims)
    C = make_array(eng, "C", ns)
    if form in ("mlinterp tuple", "interp tuple"):
        pts = tuple(A.Fl() for _ in dims)
    elif form == "interp scalars":
        pts = [A.Fl() for _ in dims]
    elif form == "interp point":
        pts = make_array(eng, "P", (d,))
        floats(eng, "P")
    elif form in ("mlinterp points", "interp points"):
        pts = make_array(eng, "P", (index(eng, "N", "nn")[0], d))
        floats(eng, "P")
    else:
        pts = []
        for i in range(d):
            pts.append(make_array(eng, "P%d" % i, (index(eng, "N%d" % i, "nn%d" % i)[0],)))
            floats(eng, "P%d" % i)
    c08.call(form, d, start, grid, C, pts)
    done(eng)


def prove_hermite(eng, form):
    from pyvc.interp import start
    from pyvc import arrays as A
    arbitrary(eng)
    (g,), (n,) = sym_grid(eng, "n")
    Y, D = make_array(eng, "Y", (n,)), make_array(eng, "D", (n,))
    if form in ("HermiteInterpolation", "hermite scalar"):
        x = A.Fl()
    else:
        N, nn = index(eng, "N", "nn")
        x = make_array(eng, "P", (N, 1) if form == "hermite matrix" else (N,))
        floats(eng, "P")
    start(c09.fn_of(form, False), x, g, Y, D)
    done(eng)


def prove_other(eng, fn, *a):
    """the obligations of another property's harness that concern accesses"""
    eng.kinds = {"bounds"}
    fn(eng, *a)
    done(eng)


# ------------------------------------------------------------- concrete side

SPECIAL = (float("nan"), float("inf"), -float("inf"), 1e308, -1e308, 1e19, -1e19, 9.3e18, 5e-324, -0.0)


def enc(x):
    return repr(float(x))


def draw(dims, kind="spline"):
    def f(rng):
        d = len(dims)
        return {"n": [int(rng.integers(2, 6 if d < 4 else 4)) for _ in dims], "p": int(rng.integers(1, 4)),
                "N": int(rng.integers(1, 6)), "seed": int(rng.integers(1 << 30)),
                "wild": [int(x) for x in rng.integers(0, 2 + len(SPECIAL), 24)]}
    return f


def from_model(dims):
    def f(model, rng):
        x = draw(dims)(rng)
        for i in range(len(dims)):
            n = model.get("n%d" % i)
            if n is not None and 2 <= n <= 30:
                x["n"][i] = int(n)
        return x
    return f


def grids_of(dims, inp, rng):
    out = []
    for c, n in zip(dims, inp["n"]):
        a = float(rng.uniform(-3, 3))
        out.append((a, a + float(rng.uniform(0.1, 4)), n) if c == "u" else a + np.cumsum(rng.uniform(0.1, 2, n)))
    return tuple(out)


def point(inp, rng, g, q):
    lo, hi = (g[0], g[1]) if isinstance(g, tuple) else (g[0], g[-1])
    w = inp["wild"][q % len(inp["wild"])]
    if w < len(SPECIAL):
        return SPECIAL[w]
    return float([rng.uniform(lo, hi), lo, hi, np.nextafter(hi, np.inf), np.nextafter(lo, -np.inf)][int(rng.integers(5))])


def guarded(a):
    """the same array inside a larger one whose other elements must not change"""
    a = np.ascontiguousarray(a)
    big = np.full(a.size + 64, 7.25)
    v = big[32:32 + a.size].reshape(a.shape)
    v[...] = a
    return v, big


def intact(big):
    return (big[:32] == 7.25).all() and (big[-32:] == 7.25).all()


def accesses_only(f):
    """the values, and which points are refused, are other properties' business"""
    def g(inp):
        try:
            return f(inp)
        except IndexError:
            raise
        except Exception as e:
            if "out of bounds" in str(e) or "IndexError" in str(e):
                raise
            return None
    return g


def run(cfg, kind=None):
    def f(inp):
        rng = rng_of(inp["seed"])
        grid = grids_of(cfg.dims, inp, rng)
        shape = [n + (2 if cfg.k == 3 else 0) for n in inp["n"]] + ([inp["p"]] if cfg.vv else [])
        C = rng.uniform(-2, 2, shape)
        N = inp["N"]
        X = np.array([[point(inp, rng, g, r * cfg.d + i) for i, g in enumerate(grid)] for r in range(N)])
        if not cfg.vec:
            X = X[0].copy()
        outs = []
        if kind is not None:
            v = w = None
            if kind == "kernel" or cfg.out:
                (v, b1), (w, b2) = guarded(np.zeros((N, inp["p"]))), guarded(np.zeros((N, cfg.d, inp["p"])))
                outs = [b1, b2]
            c07.call_G(kind, cfg.d, lambda f, *a, **k: f(*a, **k), grid, C, X, v, w)
        else:
            out = None
            if cfg.out and not cfg.returns_value():
                sh = ([N] if cfg.vec else []) + ([inp["p"]] if cfg.vv else []) + ([len(cfg.orders)] if cfg.orders else [])
                out, b = guarded(np.zeros(sh))
                outs = [b]
            invoke(cfg, lambda f, *a, **k: f(*a, **k), grid, C, X, out)
        if not all(intact(b) for b in outs):
            return "an element next to the output array was overwritten"
    return f


def run_ml(form, dims):
    d = len(dims)

    def f(inp):
        rng = rng_of(inp["seed"])
        grid = grids_of(dims, inp, rng)
        C = rng.uniform(-2, 2, inp["n"])
        N = inp["N"]
        X = np.array([[point(inp, rng, g, r * d + i) for i, g in enumerate(grid)] for r in range(N)])
        if form in ("mlinterp points", "interp points"):
            pts = X
        elif form == "interp axes":
            pts = [X[:, i].copy() for i in range(d)]
        else:
            p = [float(x) for x in X[0]]
            pts = tuple(p) if "tuple" in form else np.array(p) if "point" in form else p
        c08.call(form, d, lambda f, *a: f(*a), grid, C, pts)
    return f


def run_hermite(form):
    def f(inp):
        rng = rng_of(inp["seed"])
        (g,) = grids_of("n", inp, rng)
        Y, D = rng.uniform(-2, 2, g.shape), rng.uniform(-2, 2, g.shape)
        X = np.array([point(inp, rng, g, r) for r in range(inp["N"])])
        h = c09.fn_of(form, True)
        if form in ("HermiteInterpolation", "hermite scalar"):
            for x in X:
                h(float(x), g, Y, D)
        else:
            h(X[:, None].copy() if form == "hermite matrix" else X, g, Y, D)
    return f


def spline_unit(cfg, kind=None, cases=4, con=True):
    def bounded():
        res = []
        for b in ({"n": 2, "N": 2, "nn": 1, "p": 2, "v": 1}, {"n": 3, "N": 1, "nn": 0, "p": 1, "v": 0}):
            def go(eng, b=b):
                eng.bind = b
                prove(eng, cfg, kind)
            res.append(go)
        return res
    name = cfg.name if kind is None else "gradient: %s d=%d %s" % (kind, cfg.d, "in-place" if cfg.out else "allocating")
    return Unit("accesses: " + name, prove=[lambda eng: prove(eng, cfg, kind)], draw=draw(cfg.dims), run=accesses_only(run(cfg, kind)),
                model=from_model(cfg.dims), bounded=bounded, bound="grids of 2 and 3 nodes per dimension, 2 points",
                cost=0.1 * 3 ** cfg.d, cases=cases if con else 0,
                budget=80)


def configs(full):
    """(configuration, concrete runs?)"""
    for k in (1, 3):
        for dims in (("u", "n", "uu", "un", "nn", "uuu", "nun", "uuuu", "nunu") if k == 1 else ("u", "uu", "uuu", "uuuu")):
            d = len(dims)
            for mode in MODES:
                for vec in (True, False):
                    for vv in (True, False):
                        for out in (True, False):
                            e = "eval_linear" if k == 1 else "eval_cubic"
                            c = Cfg(k, dims, mode, vec, vv, out, entry=e)
                            if out and c.returns_value() or d == 4 and not full and out:
                                continue
                            yield c, d == 1 and (out or vec) or d == 2 and vec and out or full
                        if d <= 2 or full:
                            o = ((0,) * d, (1,) + (0,) * (d - 1), (1,) * d)
                            for out in (True, False):
                                yield Cfg(k, dims, mode, vec, vv, out, orders=o), d == 1 or full
    for k in (1, 3):
        for d in (1, 2, 3, 4):
            for vec in (True, False):
                for vv in (True, False):
                    for o in (True, False):
                        c = Cfg(k, "u" * d, "linear", vec, vv, o, entry="compat")
                        if o and c.returns_value():
                            continue
                        yield c, d == 1 and vec or d == 2 and vec and o or full
                    yield Cfg(k, "u" * d, "linear", vec, vv, False, entry="object"), d == 1 and vec or full
    for d in (1, 2, 3, 4):
        for vec in (True, False):
            for vv in (True, False):
                yield Cfg(3, "u" * d, "linear", vec, vv, vec or vv, entry="kernel"), d < 4 or full


def units(tier):
    full = tier == "thorough"
    us = [spline_unit(c, con=con, cases=3) for c, con in configs(full)]
    for d in (1, 2, 3, 4):
        for kind, out in (("kernel", True), ("vec_eval_cubic_splines_G", False), ("vec_eval_cubic_splines_G", True),
                          ("object", False)):
            us.append(spline_unit(Cfg(3, "u" * d, "linear", True, True, out), kind, con=d < 3 or full))
    for form in c08.FORMS:
        for dims in ("u", "n", "uu", "un", "nu", "nn", "uuu", "nun", "nnn", "uuuu", "unnu", "nnnn"):
            d = len(dims)
            if form == "interp axes" and d > 2 or form == "interp point" and d == 1:
                continue

            def bounded(form=form, dims=dims):
                def go(eng):
                    eng.bind = {"n": 3, "N": 2, "nn": 1}
                    prove_ml(eng, form, dims)
                return [go]
            us.append(Unit("accesses: %s grid=%s" % (form, dims),
                           prove=[lambda eng, form=form, dims=dims: prove_ml(eng, form, dims)], draw=draw(dims),
                           run=accesses_only(run_ml(form, dims)), model=from_model(dims), bounded=bounded,
                           bound="grids of 3 nodes per dimension", cost=0.2 * d, cases=4 if d < 3 or full else 0))
    for form in c09.FORMS:
        def bounded(form=form):
            def go(eng):
                eng.bind = {"n": 3, "N": 2, "nn": 1}
                prove_hermite(eng, form)
            return [go]
        us.append(Unit("accesses: " + form, prove=[lambda eng, form=form: prove_hermite(eng, form)], draw=draw("n"),
                       run=accesses_only(run_hermite(form)), model=from_model("n"), bounded=bounded, bound="grids of 3 nodes", cases=6))
    # the filters and the enumerations have no points: the accesses of the harnesses of C04 and C12
    for u in c04.units(tier):
        us.append(other(u, run_filter if u.cases else None))
    for u in c12.units(tier):
        if u.name != "row numbers":
            us.append(other(u, None))
    return us


def run_filter(u):
    """a run with array-bounds checks; the values are the business of C04"""
    def f(inp):
        u.run(inp)
    return f


def other(u, mk):
    fns = u.prove if isinstance(u.prove, (list, tuple)) else [u.prove]

    def bounded():
        return [lambda eng, g=g: prove_other(eng, g) for g in u.bounded()]
    return Unit("accesses: " + u.name, prove=[lambda eng, g=g: prove_other(eng, g) for g in fns], draw=u.draw,
                run=accesses_only((mk or run_filter)(u)), model=u.model, bounded=bounded if u.bounded else None, bound=u.bound,
                cost=u.cost, cases=min(u.cases, 3))
