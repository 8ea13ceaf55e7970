"""Linear and cubic splines: harness shared by C01, C02, C03, C05, C06, C16."""
import itertools

import numpy as np

from .base import Unit, close, rng_of

# ------------------------------------------------------------ configurations

MODES = ("linear", "nearest", "constant")


class Cfg:
    """entry: eval_spline | eval_linear | eval_cubic
    dims: string of 'u'/'n' (uniform / nonuniform)"""

    def __init__(self, k, dims, mode="linear", vec=True, vv=False, out=False, orders=None,
                 entry="eval_spline", opt=True, layout="C", ro=False):
        self.k, self.dims, self.mode, self.vec, self.vv, self.out = k, dims, mode, vec, vv, out
        self.orders, self.entry, self.opt = orders, entry, opt
        self.d = len(dims)
        self.layout, self.ro = layout, ro

    @property
    def name(self):
        return "%s k=%d grid=%s %s %s %s %s%s" % (
            self.entry if self.opt or self.entry != "object" else "object.interpolate", self.k, self.dims, self.mode if self.opt else "default", "points" if self.vec else "point",
            "vector-valued" if self.vv else "scalar-valued", "in-place" if self.out else "allocating",
            "" if self.orders is None else " diff=%s" % (self.orders,)) + (
            "" if self.layout == "C" else " layout=" + self.layout) + (" read-only" if self.ro else "")

    def returns_value(self):
        """scalar result returned even when out is given: not an in-place call"""
        return not self.vec and not self.vv and self.orders is None


def api():
    import importlib
    return importlib.import_module("interpolation.splines.eval_splines")


def invoke(cfg, caller, grid, C, P, out):
    """Call the public function the way users do. caller(f, *args, **kw)."""
    m = api()
    if cfg.entry == "eval_spline":
        return caller(m.eval_spline, grid, C, P, out=out, k=cfg.k,
                      diff="None" if cfg.orders is None else str(cfg.orders), extrap_mode=cfg.mode)
    if cfg.entry == "compat":
        return compat(cfg, caller, grid, C, P, out)
    if cfg.entry == "object":
        return via_object(cfg, caller, grid, C, P, out)
    if cfg.entry == "kernel":
        import importlib
        K = importlib.import_module("interpolation.splines.eval_cubic_numba")
        a, b, n = bounds_of(grid)
        f = getattr(K, "%seval_cubic_spline%s_%d" % ("vec_" if cfg.vec else "", "s" if cfg.vv else "", cfg.d))
        return caller(f, *([a, b, n, C, P] + ([] if out is None else [out])))
    f = m.eval_linear if cfg.entry == "eval_linear" else m.eval_cubic
    args = [grid, C, P]
    if out is not None:
        args.append(out)
    if cfg.opt:
        o = importlib_options()
        args.append({"linear": o.LINEAR, "nearest": o.NEAREST, "constant": o.CONSTANT}[cfg.mode])
    return caller(f, *args)


def bounds_of(grid):
    """a, b, orders as arrays"""
    from pyvc.terms import HOOK
    cols = [[g[q] for g in grid] for q in range(3)]
    if HOOK.engine is None:
        return np.array(cols[0], dtype=float), np.array(cols[1], dtype=float), np.array(cols[2], dtype=int)
    from pyvc.models import to_obj
    r = [to_obj(c) for c in cols]
    for nm, x in zip("abn", r):
        HOOK.engine.frozen.append((nm, x, list(x)))
    return r


def compat(cfg, caller, grid, C, P, out):
    """The functions that take bounds and orders"""
    import importlib
    ec = importlib.import_module("interpolation.splines.eval_cubic")
    ml = importlib.import_module("interpolation.splines.multilinear_numba")
    a, b, n = bounds_of(grid)
    if cfg.k == 1:
        f = ml.vec_multilinear_interpolation if cfg.vv else ml.multilinear_interpolation
    elif cfg.vv:
        f = ec.vec_eval_cubic_splines if cfg.vec else ec.eval_cubic_splines
    else:
        f = ec.vec_eval_cubic_spline if cfg.vec else ec.eval_cubic_spline
    args = [a, b, n, C, P]
    if out is not None:
        args.append(out)
    return caller(f, *args)


FILTERS = {False: "interpolation/splines/filter_cubic.py:filter_coeffs",
           True: "interpolation/splines/filter_cubic.py:filter_mcoeffs"}


def via_object(cfg, caller, grid, C, P, out):
    """Spline objects. Symbolically the prefilter is replaced by a contract: it
    returns the coefficients C of the values it is given (C04 proves which)."""
    import importlib
    from pyvc.terms import HOOK
    sp = importlib.import_module("interpolation.splines.splines")
    ml = importlib.import_module("interpolation.splines.multilinear")
    eng = HOOK.engine
    a, b, n = bounds_of(grid)
    if cfg.k == 1:
        o = caller(ml.LinearSplines if cfg.vv else ml.LinearSpline, a, b, n, C)
        return caller(o, P)
    if eng is None:
        # C holds coefficients: go through the values they interpolate
        V = C
        for ax in range(cfg.d):
            m = V.shape[ax]
            t = lambda q: V.take(range(q, m - 2 + q), axis=ax)
            V = (t(0) + 4 * t(1) + t(2)) / 6
        o = caller(sp.CubicSplines if cfg.vv else sp.CubicSpline, a, b, n, V)
        got = o.__mcoeffs__ if cfg.vv else o.__coeffs__
        C[...] = got
    else:
        from pyvc.terms import lift
        shape = [lift(x) - 2 for x in C.shape[:cfg.d]] + ([C.shape[-1]] if cfg.vv else [])
        V = make_array(eng, "V", shape)

        def contract(smin, smax, orders, data):
            eng.stats.contracts_used.add(FILTERS[cfg.vv] + " (returns the coefficients of the data: C04)")
            ks = []
            for i, sz in enumerate(shape):
                from pyvc.terms import integer, fresh_name
                k = integer(fresh_name("q"))
                eng.assume(k >= 0)
                eng.assume(k < sz)
                ks.append(k)
                if i < cfg.d:
                    eng.prove(lift(orders[i]) == sz, "the prefilter gets the number of nodes")
                    eng.prove_eq(smin[i], grid[i][0], "the prefilter gets the lower bounds")
                    eng.prove_eq(smax[i], grid[i][1], "the prefilter gets the upper bounds")
            if not eng.bind:
                from pyvc.terms import app
                eng.prove_eq(data[tuple(ks)], app("V", ks), "the prefilter gets the values that were set")
            return C
        eng.contracts[FILTERS[cfg.vv]] = contract
        o = caller(sp.CubicSplines if cfg.vv else sp.CubicSpline, a, b, n, V)
    if out is not None:
        return caller(o.interpolate, P, out)
    return caller(o, P) if cfg.opt else caller(o.interpolate, P)


def importlib_options():
    import importlib
    return importlib.import_module("interpolation.splines.option_types").options


# ------------------------------------------------------------------ the spec

def cubic_basis(lam, order, region):
    """Values of the four cubic B-spline pieces on [0,1] (order 0) or their
    derivative; beyond the cell, the linear extension from the border."""
    def b(t):
        return [(1 - t) ** 3 / 6, (4 - 6 * t ** 2 + 3 * t ** 3) / 6,
                (1 + 3 * t + 3 * t ** 2 - 3 * t ** 3) / 6, t ** 3 / 6]

    def db(t):
        return [-(1 - t) ** 2 / 2, (-4 * t + 3 * t ** 2) / 2,
                (1 + 2 * t - 3 * t ** 2) / 2, t ** 2 / 2]
    if region == "in":
        return b(lam) if order == 0 else db(lam)
    e = lam * 0 + (0 if region == "lo" else 1)
    if order == 0:
        return [x + (lam - e) * y for x, y in zip(b(e), db(e))]
    return db(e)


def weights(k, lam, order, region, inv_h):
    if k == 1:
        if order == 0:
            return [1 - lam, lam]
        if order == 1:
            return [-inv_h, inv_h]
        return [lam * 0, lam * 0]
    w = cubic_basis(lam, order, region)
    return w if order == 0 else [x * inv_h for x in w]


def spec_value(cfg, loc, orders, coef):
    """loc: per dimension (idx, lam, region, inv_h); coef(indices)->value.
    constant mode outside -> handled by the caller"""
    ws = [weights(cfg.k, lam, o, reg, ih) for (ix, lam, reg, ih), o in zip(loc, orders)]
    tot = 0
    for ks in itertools.product(*[range(cfg.k + 1)] * cfg.d):
        w = 1
        for i, q in enumerate(ks):
            w = w * ws[i][q]
        tot = tot + w * coef([loc[i][0] + q for i, q in enumerate(ks)])
    return tot


# ------------------------------------------------------------- symbolic side

LOCS_U = ("in", "end", "lo", "hi")
LOCS_N = ("in", "start", "lo", "hi")


def make_array(eng, name, shape, writable=False):
    """symbolic array; an object array of symbols if the shape is concrete"""
    from pyvc.terms import app, lift
    from pyvc import arrays as A
    if eng.bind:
        sh = tuple(int(lift(x)) for x in shape)
        out = np.empty(sh, dtype=object)
        for ix in np.ndindex(*sh):
            out[ix] = app(name, list(ix))
        if not writable:
            eng.frozen.append((name, out, list(out.ravel())))
        return out
    if writable:
        return A.new_array(name, shape, ("input", name))
    return A.input_array(name, shape)


def check_frozen(eng):
    for name, arr, before in eng.frozen:
        if any(x is not y for x, y in zip(before, arr.ravel())):
            eng.fail("inputs are not modified", "frame", "write to input array %s" % name, True)


def int_sym(eng, name):
    from pyvc.terms import const, integer
    b = eng.bind.get(name, eng.bind.get(name.rstrip("0123456789"))) if eng.bind else None
    return integer(name) if b is None else const(b)


def sym_dim(eng, i, kind, loc, mode, k=1):
    """Declare dimension i. Returns (grid entry, n, x, (idx, lam, region, 1/h), inside)"""
    from pyvc.terms import T, app, cmp, const, lift, real, disj
    from pyvc import arrays as A
    integer = lambda nm: int_sym(eng, nm)
    m = integer("m%d" % i)
    eng.assume(m >= 1)
    if kind == "u":
        a, h = real("a%d" % i), real("h%d" % i)
        eng.assume(h > 0)
        g = (a, a + m * h, m + 1)
        ih = 1 / h
        if loc == "in":
            j, t = integer("j%d" % i), real("t%d" % i)
            eng.assume(j >= 0)
            eng.assume(j <= m - 1)
            eng.assume(t >= 0)
            eng.assume(t < 1)
            return g, m + 1, a + (j + t) * h, (j, t, "in", ih), True
        if loc == "node":
            j = integer("j%d" % i)
            eng.assume(j >= 0)
            eng.assume(j <= m - 1)
            return g, m + 1, a + j * h, (j, const(0, "R"), "in", ih), True
        if loc == "open":
            j, t = integer("j%d" % i), real("t%d" % i)
            eng.assume(j >= 0)
            eng.assume(j <= m - 1)
            eng.assume(t > 0)
            eng.assume(t < 1)
            return g, m + 1, a + (j + t) * h, (j, t, "in", ih), True
        if loc == "end":
            return g, m + 1, a + m * h, (m - 1, const(1, "R"), "in", ih), True
        s = real("s%d" % i)
        eng.assume(s > 0)
        if loc == "lo":
            x = a - s * h
            lam, reg = (-s, "lo") if mode == "linear" else (const(0, "R"), "in")
            return g, m + 1, x, (const(0), lam, reg, ih), False
        x = a + (m + s) * h
        lam, reg = (1 + s, "hi") if mode == "linear" else (const(1, "R"), "in")
        return g, m + 1, x, (m - 1, lam, reg, ih), False
    # nonuniform: g(j), g(j+1) and their neighbours are named
    nm = "g%d" % i
    n = m + 1
    w, w0, w2, gl = real("w%d" % i), real("wl%d" % i), real("wr%d" % i), real("gl%d" % i)
    for q in (w, w0, w2):
        eng.assume(q > 0)
    if loc in ("in", "open", "node"):
        j = integer("j%d" % i)
        eng.assume(j >= 0)
        eng.assume(j <= m - 1)
    elif loc in ("start", "lo"):
        j = const(0)
    else:
        j = m - 1
    # elements next to the cell (meaningful only where such an index exists)
    near = [(j, gl), (j + 1, gl + w), (j - 1, gl - w0), (j + 2, gl + w + w2)]
    if not j.same(0):
        g0 = real("gfirst%d" % i)
        eng.assume(g0 <= gl)
        eng.assume(disj(j >= 1, g0 == gl))
        eng.assume(disj(j <= 0, g0 <= gl - w0))
        near.append((const(0), g0))
    if not (m - 1 - j).same(0):
        g1 = real("glast%d" % i)
        eng.assume(g1 >= gl + w)
        eng.assume(disj(j <= m - 2, g1 == gl + w))
        eng.assume(disj(j >= m - 1, g1 >= gl + w + w2))
        near.append((m, g1))

    def over(args):
        ix = args[0]
        for p, v in near:
            if p.same(ix):
                return v
        for p, v in near[:2]:
            if eng.entails(cmp("==", p, ix)):
                return v
        return None

    def watch(t, args):
        # any other element respects the order
        ix = args[0]
        for p, v in near:
            if eng.entails(cmp("<", ix, p)):
                eng.assume(t < v)
            elif eng.entails(cmp("<", p, ix)):
                eng.assume(v < t)

    eng.app_over[nm] = over
    eng.app_watch[nm] = watch
    g = make_array(eng, nm, (n,))
    eng.sorted_funs[nm] = {"cands": [j + 1, j, j + 2, const(0), const(1), n, n - 1]}
    if loc in ("in", "open"):
        t = real("t%d" % i)
        eng.assume(t > 0)
        eng.assume(t <= 1 if loc == "in" else t < 1)
        return g, n, gl + t * w, (j, t, "in", 1 / w), True
    if loc == "start":
        return g, n, gl, (j, const(0, "R"), "in", 1 / w), True
    s = real("s%d" % i)
    eng.assume(s > 0)
    if loc == "lo":
        x = gl - s * w
        lam, reg = (-s, "lo") if mode == "linear" else (const(0, "R"), "in")
        return g, n, x, (j, lam, reg, 1 / w), False
    x = gl + w + s * w
    lam, reg = (1 + s, "hi") if mode == "linear" else (const(1, "R"), "in")
    return g, n, x, (j, lam, reg, 1 / w), False


def sym_inputs(eng, cfg, locs):
    from pyvc.terms import app, const, real
    from pyvc import arrays as A
    integer = lambda nm: int_sym(eng, nm)
    d = cfg.d
    D = [sym_dim(eng, i, cfg.dims[i], locs[i], cfg.mode, cfg.k) for i in range(d)]
    grid = tuple(x[0] for x in D)
    xs = [x[2] for x in D]
    shape = [x[1] + (2 if cfg.k == 3 else 0) for x in D]
    p = v = None
    if cfg.vv:
        p = integer("p")
        v = integer("v")
        eng.assume(v >= 0)
        eng.assume(v <= p - 1)
        eng.focus.append((p, v))
        shape.append(p)
    C = make_array(eng, "C", shape)
    if cfg.vec:
        N, nn = integer("N"), integer("nn")
        eng.assume(nn >= 0)
        eng.assume(nn <= N - 1)
        eng.focus.append((N, nn))

        def over(args):
            if args[0].same(nn) and args[1].is_const() and 0 <= args[1].const() < d:
                return xs[int(args[1].const())]
            if eng.bind and not args[0].same(nn):
                # the other rows lie in the first cell
                i = int(args[1].const())
                t = real("t%d_%r" % (i, args[0]))
                eng.assume(t > 0)
                eng.assume(t < 1)
                g = grid[i]
                return g[0] + t * ((g[1] - g[0]) / (g[2] - 1) if isinstance(g, tuple) else g[1] - g[0])
            return None
        eng.app_over["P"] = over
        P = make_array(eng, "P", (N, d))
    else:
        N = nn = None

        def over(args):
            if args[0].is_const() and 0 <= args[0].const() < d:
                return xs[int(args[0].const())]
            return None
        eng.app_over["P"] = over
        P = make_array(eng, "P", (d,))
    if not eng.bind:
        for x in (C, P):
            x.store.layout, x.store.ro_type = cfg.layout, cfg.ro
    out = None
    if cfg.out and not cfg.returns_value():
        sh = ([N] if cfg.vec else []) + ([p] if cfg.vv else []) + ([len(cfg.orders)] if cfg.orders else [])
        out = make_array(eng, "out0", sh, writable=True)
    return D, grid, C, P, out, nn, v


def sym_prove(eng, cfg, locs, cellwise=None):
    from pyvc.interp import start
    from pyvc.terms import Unsupported, app, const, lift, to_real
    from pyvc import arrays as A
    D, grid, C, P, out, nn, v = sym_inputs(eng, cfg, locs)
    inside = all(x[4] for x in D)
    res = invoke(cfg, start, grid, C, P, out)
    loc = [x[3] for x in D]
    check_frozen(eng)
    # results
    if out is not None:
        res = out
    orders = cfg.orders if cfg.orders is not None else ((0,) * cfg.d,)
    from pyvc.terms import lift_or_none
    for q, o in enumerate(orders):
        key = []
        if cfg.vec:
            key.append(nn)
        if cfg.vv:
            key.append(v)
        if cfg.orders is not None:
            key.append(q)
        if key:
            ok = isinstance(res, (A.SArray, np.ndarray, tuple, list))
            if not ok:
                eng.obl("an array is returned", "post", "refuted", "types", "returned %r" % (type(res),))
                return
            if isinstance(res, (tuple, list)):
                if len(key) != 1 or len(res) != len(orders):
                    eng.obl("one value per derivative is returned", "post", "refuted", "types", "returned %r" % (res,))
                    return
                got = res[q]
            else:
                if res.ndim != len(key):
                    eng.obl("result has one axis per request", "post", "refuted", "types",
                            "%d axes instead of %d" % (res.ndim, len(key)))
                    return
                got = res[tuple(key)]
        else:
            got = res
        if lift_or_none(got) is None:
            eng.obl("a number is returned", "post", "refuted", "types", "got %r" % (got,))
            return
        if cfg.mode == "constant" and not inside:
            want = const(0, "R")
        else:
            idx_v = [v] if cfg.vv else []
            want = spec_value(cfg, loc, o, lambda ks: app("C", list(ks) + idx_v))
        eng.prove_eq(got, want, "value at %s, derivative %s" % ("/".join(locs), o))
    if out is None and isinstance(res, A.SArray):
        want = ([P.shape[0]] if cfg.vec else []) + ([C.shape[-1]] if cfg.vv else []) + (
            [len(cfg.orders)] if cfg.orders is not None else [])
        for a, b in zip(res.shape, want):
            eng.prove(lift(a) == lift(b), "shape of the result")


# ------------------------------------------------------------- concrete side

def np_spec(cfg, grids, C, X):
    """Independent evaluation in numpy; X: (N, d). Returns (N, [p], [n_orders])"""
    orders = cfg.orders if cfg.orders is not None else ((0,) * cfg.d,)
    N = X.shape[0]
    p = C.shape[-1] if cfg.vv else None
    out = np.zeros((N,) + ((p,) if cfg.vv else ()) + (len(orders),))
    for r in range(N):
        loc = []
        inside = True
        for i, g in enumerate(grids):
            nodes = g if isinstance(g, np.ndarray) else np.linspace(g[0], g[1], g[2])
            a, b, n = nodes[0], nodes[-1], len(nodes)
            x = X[r, i]
            if x < a or x > b:
                inside = False
            if cfg.mode == "nearest":
                x = min(max(x, a), b)
            if isinstance(g, np.ndarray):
                j = int(np.sum(nodes < x)) - 1
            else:
                j = int(np.floor((x - g[0]) / (g[1] - g[0]) * (n - 1)))
            j = min(max(j, 0), n - 2)
            w = nodes[j + 1] - nodes[j]
            lam = (x - nodes[j]) / w
            reg = "in"
            if x < a:
                reg = "lo"
            if x > b:
                reg = "hi"
            loc.append((j, lam, reg, 1.0 / w))
        for q, o in enumerate(orders):
            if cfg.mode == "constant" and not inside:
                out[(r,) + ((slice(None),) if cfg.vv else ()) + (q,)] = 0.0
                continue
            out[(r,) + ((slice(None),) if cfg.vv else ()) + (q,)] = spec_value(
                cfg, loc, o, lambda ks: C[tuple(ks)])
    if cfg.orders is None:
        out = out[..., 0]
    return out


def draw(cfg, locs_set):
    def f(rng, model=None):
        locs = locs_set[int(rng.integers(len(locs_set)))]
        N = int(rng.integers(2, [13, 13, 9, 5, 5][cfg.d]))
        D = []
        for i in range(cfg.d):
            m = int(rng.integers(1, 5 if cfg.d < 4 else 4))
            if cfg.d < 3 and not rng.integers(4):
                m = int(rng.integers(5, 30 if cfg.d == 1 else 16))
            how = int(rng.integers(6))
            if how == 0:            # equal spacings here and there
                gap = [float(x) for x in rng.choice([0.5, 1.0, 2.0], m)]
            elif how == 1:          # equal first and last spacing
                gap = [round(float(x), 3) for x in rng.uniform(0.2, 2.0, m)]
                gap[-1] = gap[0]
            elif how == 2:          # spacings of very different size
                gap = [round(10.0 ** float(x), 4) for x in rng.uniform(-2, 1.5, m)]
            else:
                gap = [round(float(x), 3) for x in rng.uniform(0.2, 2.0, m)]
            a = round(float(rng.uniform(-3, 3)), 3)
            h = round(float(rng.uniform(0.1, 2)), 3)
            if not rng.integers(4):
                a, h = float(rng.integers(-2, 2)), float(rng.choice([0.25, 1.0]))
            D.append({"kind": cfg.dims[i], "m": m, "a": a, "h": h, "gaps": gap})
        pts = []
        for r in range(N):
            ls = locs if r == 0 else locs_set[int(rng.integers(len(locs_set)))]
            pts.append([[ls[i], int(rng.integers(D[i]["m"])), round(float(rng.uniform(0.05, 0.95)), 3),
                         round(float(rng.uniform(0.05, 3)), 3)] for i in range(cfg.d)])
        return {"dims": D, "points": pts, "p": int(rng.integers(1, 4)), "seed": int(rng.integers(1 << 30))}
    return f


def from_model(cfg, locs_set):
    """The verifier's counterexample as a concrete input (sizes kept small)."""
    def f(model, rng):
        base = draw(cfg, locs_set)(rng)
        for i, D in enumerate(base["dims"]):
            m = model.get("m%d" % i)
            if m is not None and 1 <= m <= 40:
                D["m"] = int(m)
                D["gaps"] = (D["gaps"] * int(m))[:int(m)]
            for a, b in (("a", "a%d" % i), ("h", "h%d" % i)):
                if b in model and abs(model[b]) < 1e6:
                    D[a] = float(model[b])
            if not (1e-3 < D["h"] < 1e6):
                D["h"] = 1.0
            for pt in base["points"]:
                pt[i][1] = pt[i][1] % D["m"]
            q = base["points"][0][i]
            if "j%d" % i in model and 0 <= model["j%d" % i] < D["m"]:
                q[1] = int(model["j%d" % i])
            if "t%d" % i in model and 0 <= model["t%d" % i] <= 1:
                q[2] = float(model["t%d" % i])
            if "s%d" % i in model and 0 < model["s%d" % i] < 1e6:
                q[3] = float(model["s%d" % i])
        return base
    return f


def materialise(cfg, inp):
    rng = rng_of(inp["seed"])
    grids, X, shape = [], [], []
    for i, D in enumerate(inp["dims"]):
        m = D["m"]
        if D["kind"] == "u":
            g = (D["a"], D["a"] + m * D["h"], m + 1)
            nodes = np.linspace(*g)
        else:
            g = D["a"] + np.concatenate([[0.0], np.cumsum(D["gaps"][:m])])
            nodes = g
        grids.append(g)
        shape.append(m + 1 + (2 if cfg.k == 3 else 0))
        col = []
        for pt in inp["points"]:
            loc, j, t, s = pt[i]
            j = min(j, m - 1)
            if loc in ("in", "open"):
                x = nodes[j] + t * (nodes[j + 1] - nodes[j])
            elif loc == "node":
                x = nodes[j]
            elif loc == "start":
                x = nodes[0]
            elif loc == "end":
                x = nodes[-1]
            elif loc == "lo":
                x = nodes[0] - s * (nodes[1] - nodes[0])
            else:
                x = nodes[-1] + s * (nodes[-1] - nodes[-2])
            col.append(x)
        X.append(col)
    if cfg.vv:
        shape.append(inp["p"])
    C = rng.uniform(-2, 2, shape)
    return tuple(grids), C, np.array(X).T.copy(), rng


def real_call(f, *a, **k):
    return f(*a, **k)


def run(cfg):
    def f(inp):
        grids, C, X, rng = materialise(cfg, inp)
        if not cfg.vec:
            X = X[:1]
        want = np_spec(cfg, grids, C, X)
        pts = X if cfg.vec else X[0].copy()
        if not cfg.vec:
            want = want[0]
        out = None
        if cfg.out and not cfg.returns_value():
            out = rng.uniform(50, 60, np.shape(want))
        if cfg.layout == "F":
            C, pts = np.asfortranarray(C), np.asfortranarray(pts)
        elif cfg.layout == "A":
            C, pts = np.repeat(np.repeat(C, 2, 0), 2, -1)[::2, ..., ::2] if C.ndim > 1 else np.repeat(C, 2)[::2], \
                np.repeat(pts, 2, -1)[..., ::2]
        if cfg.ro:
            C.setflags(write=False)
            pts.setflags(write=False)
        C0, P0 = C.copy(), pts.copy()
        G0 = [g.copy() if isinstance(g, np.ndarray) else g for g in grids]
        got = invoke(cfg, real_call, grids, C, pts, out)
        if cfg.entry == "object" and cfg.k == 3:
            # the coefficients of the values that were set are known only now
            want = np_spec(cfg, grids, C, X)
            want, C0 = want if cfg.vec else want[0], C.copy()
        if out is not None:
            got = out
        if isinstance(got, tuple):
            got = np.array(got)
        if got is None:
            return "nothing returned"
        msg = close(got, want)
        if msg:
            return "%s: %s" % (cfg.name, msg)
        if not (np.array_equal(C, C0) and np.array_equal(pts, P0)
                and all(np.array_equal(x, y) for x, y in zip(grids, G0))):
            return "%s: an input array was modified" % cfg.name
        return None
    return f


def unit(cfg, locs_set, cost=None, cases=3, con=True, **kw):
    def prove(eng, locs):
        sym_prove(eng, cfg, locs)
    def bounded():
        out = []
        ls = locs_set if len(locs_set) <= 16 else locs_set[::max(1, len(locs_set) // 16)]
        for l in ls:
            for b in ({"m": 1, "N": 2, "nn": 1, "p": 2, "v": 1, "j": 0},
                      {"m": 2, "N": 2, "nn": 0, "p": 1, "v": 0, "j": 1}):
                def go(eng, l=l, b=b):
                    eng.bind = b
                    sym_prove(eng, cfg, l)
                out.append(go)
        return out
    cost = cost if cost is not None else (0.1 if cfg.k == 1 else 0.1 * 4 ** cfg.d) * len(locs_set)
    u = Unit(cfg.name, prove=[(lambda eng, l=l: sym_prove(eng, cfg, l)) for l in locs_set],
             draw=draw(cfg, locs_set), run=run(cfg), model=from_model(cfg, locs_set), cost=cost, cases=cases,
             bounded=bounded, bound="grids of 2 and 3 nodes per dimension, 2 points, 1 or 2 splines", **kw)
    u.cfg = cfg
    u.locs_set = locs_set
    if not con:
        u.cases = 0
    return u


def all_locs(dims, want_u, want_n, limit=None):
    sets = [want_u if c == "u" else want_n for c in dims]
    return [tuple(x) for x in itertools.product(*sets)]


def one_off(dims, special_u, special_n, base_u="in", base_n="in"):
    """all dimensions at the base location, then each one in turn elsewhere"""
    base = [base_u if c == "u" else base_n for c in dims]
    out = []
    for i, c in enumerate(dims):
        for s in (special_u if c == "u" else special_n):
            l = list(base)
            l[i] = s
            out.append(tuple(l))
    return out
