"""C09: Hermite interpolation."""
import functools
import importlib

import numpy as np

from .base import Unit, close
from .spl import Cfg, check_frozen, draw, from_model, int_sym, make_array, materialise, sym_dim

FORMS = ("HermiteInterpolation", "HermiteInterpolationVect", "hermite scalar", "hermite vector", "hermite matrix")
LOCS = ("in", "start", "end", "lo", "hi")


def mod():
    return importlib.import_module("interpolation.splines.hermite")


@functools.lru_cache(None)
def jitted():
    from numba import njit
    h = mod().hermite

    @njit
    def f(x0, x, y, yp):
        return h(x0, x, y, yp)
    return f


def fn_of(form, real):
    m = mod()
    if form.startswith("hermite"):
        return jitted() if real else m.hermite
    return getattr(m, form)


def cubic(t, w, p, q, mp, mq):
    """The cubic in s = w t with value/slope (p, mp) at 0 and (q, mq) at w"""
    return p + w * mp * t + (3 * (q - p) - w * (2 * mp + mq)) * t ** 2 + (2 * (p - q) + w * (mp + mq)) * t ** 3


def prove(eng, form, loc):
    from pyvc.interp import start
    from pyvc.terms import app, lift, lift_or_none
    from pyvc import arrays as A
    where = "open" if loc == "in" else "hi" if loc == "end" else loc
    g, n, x, (j, t, reg, ih), _ = sym_dim(eng, 0, "n", where, "linear")
    if loc == "end":
        x = g[n - 1]
    Y, D = make_array(eng, "Y", (n,)), make_array(eng, "D", (n,))
    if form in ("HermiteInterpolation", "hermite scalar"):
        got = start(fn_of(form, False), x, g, Y, D)
    else:
        N, nn = int_sym(eng, "N"), int_sym(eng, "nn")
        eng.assume(nn >= 0)
        eng.assume(nn <= N - 1)
        eng.focus.append((N, nn))
        eng.app_over["P"] = lambda args: x if args[0].same(nn) and (len(args) == 1 or args[1].same(0)) else (
            g[0] if eng.bind else None)
        p = make_array(eng, "P", (N, 1) if form == "hermite matrix" else (N,))
        got = start(fn_of(form, False), p, g, Y, D)
        if not isinstance(got, (A.SArray, np.ndarray)) or got.ndim != 1:
            eng.obl("one value per point is returned", "post", "refuted", "types", "%r" % (got,))
            return
        eng.prove(lift(got.shape[0]) == lift(N), "shape of the result")
        got = got[nn]
    check_frozen(eng)
    if lift_or_none(got) is None:
        eng.obl("a number is returned", "post", "refuted", "types", "got %r" % (got,))
        return
    y, d = (lambda i: app("Y", [i])), (lambda i: app("D", [i]))
    if loc == "in":
        want = cubic(t, g[j + 1] - g[j], y(j), y(j + 1), d(j), d(j + 1))
    elif loc in ("start", "lo"):
        want = y(lift(0))
    else:
        want = y(lift(n) - 1)
    eng.prove_eq(got, want, "value at %s" % loc)


def prove_nodes(eng, form):
    """At a node the interpolant takes the value there."""
    from pyvc.interp import start
    from pyvc.terms import app
    g, n, x, (j, t, reg, ih), _ = sym_dim(eng, 0, "n", "open", "linear")
    Y, D = make_array(eng, "Y", (n,)), make_array(eng, "D", (n,))
    got = start(fn_of(form, False), g[j + 1], g, Y, D)
    eng.prove_eq(got, app("Y", [j + 1]), "value at a node")


def prove_kernel(eng, which):
    """hermite_interp: value and slope conditions at both ends of a cell"""
    from pyvc.interp import start
    from pyvc.terms import real
    m = mod()
    xk, w, p, q, mp, mq, t = [real(s) for s in ("xk", "w", "p", "q", "mp", "mq", "t")]
    eng.assume(w > 0)
    if which == "basis":
        h = start(m.hermite_splines, t)
        eng.prove_eq(h[0], (1 + 2 * t) * (1 - t) ** 2, "h00")
        eng.prove_eq(h[1], t * (1 - t) ** 2, "h10")
        eng.prove_eq(h[2], t ** 2 * (3 - 2 * t), "h01")
        eng.prove_eq(h[3], t ** 2 * (t - 1), "h11")
    else:
        got = start(m.hermite_interp, xk + t * w, xk, xk + w, p, q, mp, mq)
        eng.prove_eq(got, cubic(t, w, p, q, mp, mq), "the cubic with these values and slopes")


def run(form):
    cfg = Cfg(1, "n", "linear", True, False)

    def f(inp):
        grids, Y, X, rng = materialise(cfg, inp)
        g = grids[0]
        D = rng.uniform(-2, 2, g.shape)
        x = X[:, 0].copy()
        want = []
        for v in x:
            if v <= g[0]:
                want.append(Y[0])
            elif v >= g[-1]:
                want.append(Y[-1])
            else:
                j = int(np.sum(g <= v)) - 1
                w = g[j + 1] - g[j]
                want.append(cubic((v - g[j]) / w, w, Y[j], Y[j + 1], D[j], D[j + 1]))
        keep = [a.copy() for a in (g, Y, D, x)]
        h = fn_of(form, True)
        if form in ("HermiteInterpolation", "hermite scalar"):
            got = [h(float(v), g, Y, D) for v in x]
        elif form == "hermite matrix":
            got = h(x[:, None].copy(), g, Y, D)
        else:
            got = h(x, g, Y, D)
        if not all(np.array_equal(a, b) for a, b in zip(keep, (g, Y, D, x))):
            return "an input was modified"
        return close(got, want)
    return f


def units(tier):
    out = []
    cfg = Cfg(1, "n", "linear", True, False)
    for form in FORMS:
        fns = [(lambda eng, l=l, form=form: prove(eng, form, l)) for l in LOCS]
        if form in ("HermiteInterpolation", "hermite scalar"):
            fns.append(lambda eng, form=form: prove_nodes(eng, form))

        def bounded(form=form):
            res = []
            for l in LOCS:
                for b in ({"m": 1, "N": 2, "nn": 1, "j": 0}, {"m": 2, "N": 2, "nn": 0, "j": 1},
                          {"m": 3, "N": 1, "nn": 0, "j": 1}):
                    def go(eng, l=l, b=b):
                        eng.bind = b
                        prove(eng, form, l)
                    res.append(go)
            return res
        ls = [("in",), ("start",), ("end",), ("lo",), ("hi",), ("node",)]
        out.append(Unit(form, prove=fns, draw=draw(cfg, ls), run=run(form), model=from_model(cfg, ls),
                        bounded=bounded, bound="grids of 2 to 4 nodes, up to 2 points", cases=40))
    for w in ("basis", "cell"):
        out.append(Unit("hermite %s polynomials" % w, prove=[lambda eng, w=w: prove_kernel(eng, w)], cases=0))
    return out
