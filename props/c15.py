"""C15: Smolyak interpolation: domain change, coefficients, evaluation, gradient."""
import importlib
import itertools

import numpy as np

from .base import Unit, close, rng_of
from .c10 import refused, shape_is
from .c13 import GRID, cheb
from .spl import check_frozen, int_sym, make_array

FLAGS = ("interp", "deriv", "deriv_th", "deriv_X")


def grid_mod():
    return importlib.import_module("interpolation.smolyak.grid")


def interp_mod():
    return importlib.import_module("interpolation.smolyak.interp")


def index(eng, name, n):
    k = int_sym(eng, name)
    eng.assume(k >= 0)
    eng.assume(k <= n - 1)
    return k


def bounds(eng, d):
    """arrays of bounds, lb < ub in every dimension"""
    from pyvc.terms import app, cmp
    lb, ub = make_array(eng, "lb", (d,)), make_array(eng, "ub", (d,))
    for nm in ("lb", "ub"):
        eng.app_watch[nm] = lambda t, args: eng.assume(cmp("<", app("lb", args), app("ub", args)))
    return lb, ub


def plain_grid(eng, d, n=None, mu=None):
    """a SmolyakGrid object with arbitrary attributes; B = B_L B_U"""
    from pyvc.binder import instance, sum_of
    from pyvc.terms import app, const, integer
    from pyvc.arrays import input_array
    cls = grid_mod().SmolyakGrid
    sg = cls.__new__(cls)
    sg.d = d
    sg.lb, sg.ub = bounds(eng, d)
    if n is not None:
        sg.mu = mu if mu is not None else int_sym(eng, "mu")
        sg.inds, sg.pinds = object(), object()
        sg.B_L, sg.B_U, sg.B = (make_array(eng, nm, (n, n)) for nm in ("BL", "BU", "Bg"))
        sg.cube_grid, sg.grid = make_array(eng, "cube", (n, d)), make_array(eng, "grid", (n, d))

        def lu(args):
            i, j = args
            q, e = instance(const(0), n, lambda q: app("BL", [i, q]) * app("BU", [q, j]))
            return sum_of(const(0), n, q, e)
        eng.expand["Bg"] = lu
        eng.stats.trusted.add("scipy.linalg.lu(B, True) returns L, U with L U = B")
    return sg


# ------------------------------------------------------------------ domain

def prove_domain(eng, rank):
    from pyvc.interp import start
    from pyvc.terms import const
    d = int_sym(eng, "d")
    eng.assume(d >= 1)
    sg = plain_grid(eng, d)
    q = index(eng, "q", d)
    if rank == 1:
        sh, at = (d,), (q,)
    else:
        N = int_sym(eng, "N")
        sh, at = (N, d), (index(eng, "k", N), q)
    x = make_array(eng, "x", sh)
    lb, ub = sg.lb[q], sg.ub[q]
    f = start(sg.dom2cube, x)
    g = start(sg.cube2dom, x)
    fg = start(sg.dom2cube, g)
    gf = start(sg.cube2dom, f)
    for r in (f, g, fg, gf):
        if not shape_is(eng, r, sh):
            return
    el = lambda a: a[at if len(at) > 1 else at[0]]
    X = el(x)
    eng.prove_eq(el(f), (2 * X - lb - ub) / (ub - lb), "dom2cube is the affine map of the bounds to -1 and 1")
    eng.prove_eq(el(g), ((ub - lb) * X + lb + ub) / 2, "cube2dom is the affine map of -1 and 1 to the bounds")
    eng.prove_eq(el(fg), X, "dom2cube(cube2dom(x)) = x")
    eng.prove_eq(el(gf), X, "cube2dom(dom2cube(x)) = x")
    eng.prove_eq(start(sg.dom2cube, sg.lb)[q], -1, "the lower bounds go to -1")
    eng.prove_eq(start(sg.dom2cube, sg.ub)[q], 1, "the upper bounds go to 1")
    check_frozen(eng)


def run_domain(inp):
    rng = rng_of(inp["seed"])
    d = inp["d"]
    lb = rng.uniform(-5, 5, d)
    ub = lb + rng.uniform(0.1, 6, d)
    lb0, ub0 = lb.copy(), ub.copy()
    sg = grid_mod().SmolyakGrid(d, 1, lb, ub)
    x = rng.uniform(-7, 7, (3, d) if inp["rank"] == 2 else (d,))
    x0 = x.copy()
    for nm, got, want in (("dom2cube", sg.dom2cube(x), (2 * x - lb - ub) / (ub - lb)),
                          ("cube2dom", sg.cube2dom(x), ((ub - lb) * x + lb + ub) / 2),
                          ("round trip", sg.dom2cube(sg.cube2dom(x)), x),
                          ("round trip", sg.cube2dom(sg.dom2cube(x)), x)):
        msg = close(got, want)
        if msg:
            return "%s with bounds %r %r: %s" % (nm, lb.tolist(), ub.tolist(), msg)
    if not (np.array_equal(x, x0) and np.array_equal(lb, lb0) and np.array_equal(ub, ub0)):
        return "an input was modified"
    return None


# ------------------------------------------------------------ construction

def prove_init(eng, d, mukind, lbk, ubk):
    """SmolyakGrid(d, mu, lb, ub): bounds, index sets, grid in user units, B and its factors"""
    from pyvc.interp import MODELS, start
    from pyvc.terms import cmp, const, integer, lift, real, to_real
    from pyvc import arrays as A
    from pyvc.arrays import input_array
    m = grid_mod()
    dd = d
    if d is None:
        dd = int_sym(eng, "d")
        eng.assume(dd >= 2)
    if mukind == "int":
        mu = int_sym(eng, "mu")
        eng.assume(mu >= 1)
    else:
        mu = [int_sym(eng, "mu%d" % i) for i in range(d)]
        for x in mu:
            eng.assume(x >= 1)
    n = int_sym(eng, "n")
    eng.assume(n >= 1)
    q = index(eng, "q", dd)
    k = index(eng, "k", n)

    def bound(kind, nm, default):
        if kind == "none":
            return None, lambda i: const(default)
        if kind == "scalar":
            v = real(nm)
            return v, lambda i: v
        if kind == "int":
            v = int_sym(eng, nm)
            return v, lambda i: to_real(v)
        if kind == "list":
            v = [real("%s%d" % (nm, i)) for i in range(d)]
            return v, lambda i: v[int(lift(i).const())]
        a = make_array(eng, nm, (dd,))
        return a, lambda i: a[i]
    lb, lo = bound(lbk, "lb", -1)
    ub, up = bound(ubk, "ub", 1)
    log = []
    cube = make_array(eng, "cube", (n, dd))
    Bm = make_array(eng, "B", (n, n))
    L, U = make_array(eng, "L", (n, n)), make_array(eng, "U", (n, n))
    IND, PIND = ["smolyak indices"], ["polynomial indices"]

    def same_mu(x):
        if mukind == "int":
            return isinstance(lift(x), type(lift(0))) and lift(x).same(mu)
        return len(x) == d and all(lift(a).same(b) for a, b in zip(x, mu))

    def rec(nm, ret, *want):
        def c(*a, **kw):
            log.append(nm)
            names = {"smol_inds": ("d", "mu"), "poly_inds": ("d", "mu", "inds"), "build_grid": ("d", "mu", "inds"),
                     "build_B": ("d", "mu", "pts", "b_inds", "deriv")}[nm]
            b = dict(zip(names, a))
            b.update(kw)
            ok = lift(b["d"]).same(dd) and same_mu(b["mu"])
            if nm in ("poly_inds", "build_grid"):
                ok = ok and (b.get("inds") is IND or b.get("inds") is None)
            if nm == "build_B":
                ok = ok and b["pts"] is cube and b.get("b_inds") is PIND and not b.get("deriv", False)
            eng.obl("%s is given this grid's parameters" % nm, "pre", "ok" if ok else "refuted", "contract")
            return ret
        eng.contracts[GRID + nm] = c
    rec("smol_inds", IND)
    rec("poly_inds", PIND)
    rec("build_grid", cube)
    rec("build_B", Bm)

    def lu(a, permute_l=False, *r, **kw):
        ok = a is Bm and permute_l is True and not r and not kw
        eng.obl("the basis matrix is factorised, L being permuted", "pre", "ok" if ok else "refuted", "contract")
        eng.stats.trusted.add("scipy.linalg.lu(B, True) returns L, U with L U = B")
        return L, U
    saved = MODELS.get(id(m.lu))
    MODELS[id(m.lu)] = (lu, m.lu)
    try:
        sg = start(m.SmolyakGrid, dd, mu, lb, ub)
    finally:
        if saved is None:
            del MODELS[id(m.lu)]
        else:
            MODELS[id(m.lu)] = saved
    check_frozen(eng)
    ok = lift(sg.d).same(dd) and same_mu(sg.mu) and sg.inds is IND and sg.pinds is PIND and sg.cube_grid is cube \
        and sg.B is Bm and sg.B_L is L and sg.B_U is U
    eng.obl("attributes hold the grid's parameters, index sets, points and matrices", "post", "ok" if ok else "refuted", "heap")
    if not shape_is(eng, sg.grid, (n, dd)) or not shape_is(eng, sg.lb, (dd,)) or not shape_is(eng, sg.ub, (dd,)):
        return
    for i in ([q] if d is None else [const(j) for j in range(d)]):
        a, b = lo(i), up(i)
        eng.prove_eq(sg.lb[i], a, "lower bounds")
        eng.prove_eq(sg.ub[i], b, "upper bounds")
        eng.prove_eq(sg.grid[k, i], ((b - a) * cube[k, i] + a + b) / 2, "grid: points in the user's coordinates")


def prove_init_refused(eng):
    from pyvc.interp import start
    from pyvc.arrays import input_array
    m = grid_mod()

    class Built(Exception):
        pass

    def build(*a, **k):
        raise Built("the arguments were accepted")
    for nm in ("smol_inds", "poly_inds", "build_grid", "build_B"):
        eng.contracts[GRID + nm] = build

    def smol(d, mu):
        if isinstance(mu, np.ndarray) and isinstance(d, int) and mu.size != d:
            raise ValueError("contract of smol_inds: mu must have d elements")
        build()
    eng.contracts[GRID + "smol_inds"] = smol
    e = int_sym(eng, "e")
    eng.assume(e <= 1)
    mu = int_sym(eng, "mu")
    eng.assume(mu >= 1)
    refused(eng, lambda: start(m.SmolyakGrid, e, mu, -1.0, 1.0), ValueError, "fewer than two dimensions are refused")
    d = int_sym(eng, "d")
    eng.assume(d >= 2)
    z = int_sym(eng, "z")
    eng.assume(z <= 0)
    refused(eng, lambda: start(m.SmolyakGrid, d, z), ValueError, "a density below 1 is refused")
    w = int_sym(eng, "w")
    eng.assume(w >= 1)
    from pyvc.terms import cmp
    eng.assume(cmp("!=", w, d))
    lb = input_array("lbw", (w,))
    refused(eng, lambda: start(m.SmolyakGrid, d, mu, lb), ValueError, "lower bounds of another length are refused")
    refused(eng, lambda: start(m.SmolyakGrid, d, mu, None, lb), ValueError, "upper bounds of another length are refused")
    u, v = int_sym(eng, "u"), int_sym(eng, "v")
    eng.assume(u >= 1)
    eng.assume(v <= 0)
    refused(eng, lambda: start(m.SmolyakGrid, 2, [u, v]), ValueError, "a density below 1 in any dimension is refused")
    refused(eng, lambda: start(m.SmolyakGrid, 2, [v, u]), ValueError, "a density below 1 in any dimension is refused")
    refused(eng, lambda: start(m.SmolyakGrid, 3, [u, u]), ValueError, "densities of another length are refused")


REFUSED = [(1, 2, None, None), (0, 1, None, None), (1, 1, -1.0, 1.0), (-2, 1, None, None), (2, 0, None, None), (3, -1, None, None),
           (2, [1, 0], None, None), (2, [0, 3], None, None), (3, [1, 1], None, None), (2, [1, 1, 1], None, None),
           (2, 1, [0.0], None), (2, 1, None, [1.0, 1.0, 1.0]), (3, 1, [0.0, 0.0], None), (2, 2, np.zeros(3), None),
           (2, 2, None, np.ones(1))]


def run_refused(inp):
    a = REFUSED[inp["i"]]
    try:
        grid_mod().SmolyakGrid(*a)
    except ValueError:
        return None
    except Exception as e:
        return "SmolyakGrid%r raised %r" % (a, e)
    return "SmolyakGrid%r was accepted" % (a,)


def run_init(inp):
    rng = rng_of(inp["seed"])
    d = inp["d"]
    m = grid_mod()
    mu = inp["mu"]
    dl, du = rng.uniform(-3, 0, d), rng.uniform(0.5, 3, d)

    def pick(kind, v, default):
        if kind == "none":
            return None, np.full(d, default)
        if kind == "scalar":
            return float(v[0]), np.full(d, v[0])
        if kind == "int":
            i = int(np.ceil(v[0])) if v[0] > 0 else int(np.floor(v[0]))
            return i, np.full(d, float(i))
        return (v.tolist() if kind == "list" else v.copy()), v
    lb, lw = pick(inp["lb"], dl, -1.0)
    ub, uw = pick(inp["ub"], du, 1.0)
    sg = m.SmolyakGrid(d, mu, lb, ub)
    cube = m.build_grid(d, mu if isinstance(mu, int) else np.array(mu))
    for nm, got, want in (("lb", sg.lb, lw), ("ub", sg.ub, uw), ("cube_grid", sg.cube_grid, cube),
                          ("grid", sg.grid, ((uw - lw) * cube + lw + uw) / 2), ("B_L B_U", sg.B_L @ sg.B_U, sg.B),
                          ("B", sg.B, np.array([[np.prod([cheb(c[i] - 1, p[i]) for i in range(d)]) for c in sg.pinds] for p in cube]))):
        msg = close(got, want)
        if msg:
            return "SmolyakGrid(%d, %r, %r, %r).%s: %s" % (d, mu, lb, ub, nm, msg)
    return None


# --------------------------------------------------------------- coefficients

def equations(eng, theta, n, fname):
    """sum_j B(i, j) theta(j) = f(i) at an arbitrary i"""
    from pyvc.binder import instance, sum_of
    from pyvc.terms import app, const
    i = index(eng, "row" + fname, n)
    q, e = instance(const(0), n, lambda q: app("Bg", [i, q]) * theta[q])
    eng.prove_eq(sum_of(const(0), n, q, e), app(fname, [i]), "the coefficients solve the interpolation equations")


def prove_theta(eng, how):
    from pyvc.interp import start
    n, d = int_sym(eng, "n"), int_sym(eng, "d")
    eng.assume(n >= 1)
    eng.assume(d >= 2)
    sg = plain_grid(eng, d, n)
    f = make_array(eng, "f", (n,))
    m = interp_mod()
    before = dict(sg.__dict__)
    if how == "find_theta":
        theta = start(m.find_theta, sg, f)
    elif how == "init":
        o = start(m.SmolyakInterp, sg, f)
        theta = o.theta
        eng.obl("the object holds the grid", "post", "ok" if o.sg is sg else "refuted", "heap")
        if o.f_on_grid is not f and shape_is(eng, o.f_on_grid, (n,)):
            k = index(eng, "kf", n)
            eng.prove_eq(o.f_on_grid[k], f[k], "the object holds the values")
    else:
        # any earlier state
        o = m.SmolyakInterp.__new__(m.SmolyakInterp)
        o.sg, o.f_on_grid, o.theta = sg, make_array(eng, "fold", (n,)), make_array(eng, "told", (n,))
        if how == "update_theta with the array given before":
            o.f_on_grid = f             # its contents may have changed since
        start(o.update_theta, f)
        theta = o.theta
        eng.obl("the object holds the grid", "post", "ok" if o.sg is sg else "refuted", "heap")
        if o.f_on_grid is not f and shape_is(eng, o.f_on_grid, (n,)):
            k = index(eng, "kf", n)
            eng.prove_eq(o.f_on_grid[k], f[k], "the object holds the new values")
    check_frozen(eng)
    same = sg.__dict__.keys() == before.keys() and all(sg.__dict__[x] is before[x] for x in before)
    eng.obl("the grid object is not modified", "frame", "ok" if same else "refuted", "heap")
    if shape_is(eng, theta, (n,)):
        equations(eng, theta, n, "f")


def run_theta(inp):
    rng = rng_of(inp["seed"])
    d, mu = inp["d"], inp["mu"]
    m = interp_mod()
    sg = grid_mod().SmolyakGrid(d, mu, rng.uniform(-3, -1, d), rng.uniform(0, 2, d))
    n = len(sg.pinds)
    fs = [rng.uniform(-2, 2, n) for _ in range(3)]
    keep = [f.copy() for f in fs]
    o = m.SmolyakInterp(sg, fs[0])
    for k in range(3):
        if k:
            o.update_theta(fs[k])
        for theta in (o.theta, m.find_theta(sg, fs[k])):
            msg = close(sg.B @ theta, fs[k], rtol=1e-7, atol=1e-7)
            if msg:
                return "B theta = f: %s" % msg
        msg = close(o.interpolate(sg.grid), fs[k], rtol=1e-7, atol=1e-7)
        if msg:
            return "values at the grid points after %d updates: %s" % (k, msg)
    if any(not np.array_equal(a, b) for a, b in zip(fs, keep)):
        return "the values were modified"
    f = fs[2]
    f[int(rng.integers(n))] += 1.0          # the same array with another content
    o.update_theta(f)
    msg = close(o.interpolate(sg.grid), f, rtol=1e-7, atol=1e-7)
    if msg:
        return "values at the grid points after an update with the array given before: " + msg
    o.update_theta(f + 1e-7)
    msg = close(sg.B @ o.theta - f, np.full(n, 1e-7), rtol=0, atol=1e-9)
    if msg:
        return "B theta - f after values that differ by 1e-7: " + msg
    return None


# ------------------------------------------------------------------ evaluation

def prove_interp(eng, flags, defaults):
    from pyvc.binder import instance, sum_of
    from pyvc.interp import start
    from pyvc.terms import app, const, lift
    from pyvc import arrays as A
    m = interp_mod()
    n, d, N = int_sym(eng, "n"), int_sym(eng, "d"), int_sym(eng, "N")
    eng.assume(n >= 1)
    eng.assume(d >= 2)
    k, q = index(eng, "k", N), index(eng, "q", d)
    j = index(eng, "j", n)
    sg = plain_grid(eng, d, n)
    o = m.SmolyakInterp.__new__(m.SmolyakInterp)
    o.sg, o.f_on_grid, o.theta = sg, make_array(eng, "f", (n,)), make_array(eng, "theta", (n,))
    before, sbefore = dict(o.__dict__), dict(sg.__dict__)
    x = make_array(eng, "x", (N, d))
    X = app("x", [k, q])
    lb, ub = sg.lb[q], sg.ub[q]

    def build_B(d_, mu, pts, b_inds=None, deriv=False):
        eng.stats.contracts_used.add(GRID + "build_B (proved in C13)")
        ok = lift(d_).same(d) and mu is sg.mu and b_inds is sg.pinds
        eng.obl("build_B is given the grid's parameters and index set", "pre", "ok" if ok else "refuted", "contract")
        if shape_is(eng, pts, (N, d)):
            eng.prove_eq(pts[k, q], (2 * X - lb - ub) / (ub - lb), "the basis is evaluated at the mapped points")
        B = A.input_array("Bp", (N, n))
        if deriv is True:
            return B, A.input_array("dBp", (n, d, N))
        eng.obl("kind of basis requested", "pre", "ok" if deriv is False else "refuted", "contract")
        return B
    eng.contracts[GRID + "build_B"] = build_B
    kw = {f: v for f, v in zip(FLAGS, flags) if not (defaults and v == (f == "interp"))}
    got = start(o.interpolate, x, **kw)
    check_frozen(eng)
    same = o.__dict__.keys() == before.keys() and all(o.__dict__[y] is before[y] for y in before) and \
        sg.__dict__.keys() == sbefore.keys() and all(sg.__dict__[y] is sbefore[y] for y in sbefore)
    eng.obl("evaluation changes nothing", "frame", "ok" if same else "refuted", "heap")
    want = [f for f, v in zip(FLAGS, flags) if v]
    if len(want) == 1:
        res = [got]
    elif isinstance(got, (list, tuple)) and len(got) == len(want):
        res = list(got)
    else:
        eng.obl("the requested outputs come back in the documented order", "post", "refuted", "types", repr(got))
        return
    for f, r in zip(want, res):
        if not shape_is(eng, r, {"interp": (N,), "deriv": (N, d), "deriv_th": (N, n), "deriv_X": (N, n)}[f]):
            return
        if f == "interp":
            b, e = instance(const(0), n, lambda b: app("Bp", [k, b]) * app("theta", [b]))
            eng.prove_eq(r[k], sum_of(const(0), n, b, e), "value: coefficients on the basis at the mapped point")
        elif f == "deriv":
            b, e = instance(const(0), n, lambda b: app("dBp", [b, q, k]) * app("theta", [b]))
            eng.prove_eq(r[k, q], 2 / (ub - lb) * sum_of(const(0), n, b, e), "gradient in the user's coordinates")
        elif f == "deriv_th":
            eng.prove_eq(r[k, j], app("Bp", [k, j]), "derivative with respect to the coefficients")
        else:
            b, e = instance(const(0), n, lambda b: r[k, b] * app("Bg", [b, j]))
            eng.prove_eq(sum_of(const(0), n, b, e), app("Bp", [k, j]),
                         "derivative with respect to the values: its product with B is the basis at the point")
    if not want:
        eng.obl("nothing requested, nothing returned", "post", "ok", "types")


def run_interp(inp):
    rng = rng_of(inp["seed"])
    d, mu = inp["d"], inp["mu"]
    m = interp_mod()
    lb, ub = rng.uniform(-3, -1, d), rng.uniform(0, 2, d)
    sg = grid_mod().SmolyakGrid(d, mu, lb, ub)
    n = len(sg.pinds)
    f = rng.uniform(-2, 2, n)
    o = m.SmolyakInterp(sg, f)
    x = rng.uniform(0, 1, (3, d)) * (ub - lb) + lb
    x0 = x.copy()
    t = (2 * x - lb - ub) / (ub - lb)
    B = np.array([[np.prod([cheb(c[i] - 1, p[i]) for i in range(d)]) for c in sg.pinds] for p in t])
    dB = np.array([[[np.prod([(c[i] - 1) * cheb(c[i] - 2, p[i], 2) if i == q else cheb(c[i] - 1, p[i]) for i in range(d)])
                     * 2 / (ub[q] - lb[q]) for q in range(d)] for c in sg.pinds] for p in t])
    Bg = np.array([[np.prod([cheb(c[i] - 1, p[i]) for i in range(d)]) for c in sg.pinds] for p in sg.cube_grid])
    theta = np.linalg.solve(Bg, f)
    want = [w for w, v in zip((B @ theta, np.einsum("pjq,j->pq", dB, theta), B, np.linalg.solve(Bg.T, B.T).T), inp["flags"]) if v]
    for rep in range(2):
        got = o.interpolate(x, **dict(zip(FLAGS, inp["flags"])))
        if len(want) == 1:
            got = [got]
        if len(got) != len(want):
            return "%d outputs instead of %d" % (len(got), len(want))
        for g, w in zip(got, want):
            msg = close(g, w, rtol=1e-7, atol=1e-7)
            if msg:
                return "interpolate(%r), d=%d, mu=%r: %s" % (inp["flags"], d, mu, msg)
    return None if np.array_equal(x, x0) else "the points were modified"


def units(tier):
    out = []

    def pick(rng, d=None):
        d = d or int(rng.integers(2, 4))
        return d, int(rng.integers(1, 4)) if rng.integers(2) else [int(rng.integers(1, 4)) for _ in range(d)]
    for rank in (1, 2):
        def draw(rng, rank=rank):
            return {"d": int(rng.integers(2, 5)), "rank": rank, "seed": int(rng.integers(1 << 30))}
        out.append(Unit("domain change, points of rank %d" % rank, prove=[lambda eng, r=rank: prove_domain(eng, r)],
                        draw=draw, run=run_domain))
    kinds = ("none", "scalar", "int", "array")
    cases = [(None, "int", a, b) for a in kinds for b in kinds] + \
        [(d, mk, a, b) for d in (2, 3) for mk in ("int", "array") for a, b in (("none", "none"), ("list", "list"), ("array", "scalar"))]
    for d, mk, a, b in cases:
        def draw(rng, d=d, mk=mk, a=a, b=b):
            n = d or int(rng.integers(2, 4))
            mu = int(rng.integers(1, 3)) if mk == "int" else [int(rng.integers(1, 3)) for _ in range(n)]
            return {"d": n, "mu": mu, "lb": a, "ub": b, "seed": int(rng.integers(1 << 30))}
        out.append(Unit("SmolyakGrid d=%s mu=%s lb=%s ub=%s" % ("any" if d is None else d, mk, a, b),
                        prove=[lambda eng, c=(d, mk, a, b): prove_init(eng, *c)], draw=draw, run=run_init, cases=3,
                        level="proved" if d is None else "bounded: %d dimensions" % d))
    out.append(Unit("SmolyakGrid: arguments refused", prove=[prove_init_refused],
                    draw=lambda rng: {"i": int(rng.integers(len(REFUSED)))}, run=run_refused, cases=40))
    for how in ("find_theta", "init", "update_theta", "update_theta with the array given before"):
        def draw(rng):
            d, mu = pick(rng)
            return {"d": d, "mu": mu, "seed": int(rng.integers(1 << 30))}
        out.append(Unit("coefficients by %s" % how, prove=[lambda eng, h=how: prove_theta(eng, h)], draw=draw, run=run_theta, cases=3))
    for flags in itertools.product((True, False), repeat=4):
        for defaults in (False, True):
            def draw(rng, flags=flags):
                d, mu = pick(rng)
                return {"d": d, "mu": mu, "flags": list(flags), "seed": int(rng.integers(1 << 30))}
            out.append(Unit("interpolate %s%s" % ("+".join(f for f, v in zip(FLAGS, flags) if v) or "nothing",
                                                  " (defaults)" if defaults else ""),
                            prove=[lambda eng, f=flags, df=defaults: prove_interp(eng, f, df)], draw=draw, run=run_interp, cases=3))
    return out
