"""C07: the hand-unrolled cubic routines: values and gradients."""
import importlib

import numpy as np

from .base import Unit, close
from .spl import (Cfg, FILTERS, all_locs, bounds_of, check_frozen, draw, from_model, make_array, materialise, np_spec,
                  one_off, real_call, spec_value, sym_inputs, unit)


def mod(n):
    return importlib.import_module("interpolation.splines." + n)


def call_G(kind, d, caller, grid, C, P, vals, dvals, eng=None):
    a, b, n = bounds_of(grid)
    if kind == "kernel":
        caller(getattr(mod("eval_cubic_numba"), "vec_eval_cubic_splines_G_%d" % d), a, b, n, C, P, vals, dvals)
        return vals, dvals
    if kind == "vec_eval_cubic_splines_G":
        r = caller(mod("eval_cubic").vec_eval_cubic_splines_G, a, b, n, C, P, *([] if vals is None else [vals, dvals]))
        return r[0], r[1]
    # spline object
    if eng is None:
        V = C
        for ax in range(d):
            m = V.shape[ax]
            t = lambda q: V.take(range(q, m - 2 + q), axis=ax)
            V = (t(0) + 4 * t(1) + t(2)) / 6
        o = caller(mod("splines").CubicSplines, a, b, n, V)
        C[...] = o.__mcoeffs__
    else:
        from pyvc.terms import lift
        V = make_array(eng, "V", [lift(x) - 2 for x in C.shape[:d]] + [C.shape[-1]])

        def contract(smin, smax, orders, data):
            eng.stats.contracts_used.add(FILTERS[True] + " (returns the coefficients of the data: C04)")
            return C
        eng.contracts[FILTERS[True]] = contract
        o = caller(mod("splines").CubicSplines, a, b, n, V)
    r = caller(o.interpolate, P, True)
    return r[0], r[1]


def prove_G(eng, kind, cfg, locs, given):
    from pyvc.interp import start
    from pyvc.terms import app, lift
    D, grid, C, P, _, nn, v = sym_inputs(eng, cfg, locs)
    d = cfg.d
    vals = dvals = None
    if given:
        vals = make_array(eng, "vals0", [P.shape[0], C.shape[-1]], writable=True)
        dvals = make_array(eng, "dvals0", [P.shape[0], d, C.shape[-1]], writable=True)
    vals, dvals = call_G(kind, d, start, grid, C, P, vals, dvals, eng)
    check_frozen(eng)
    loc = [x[3] for x in D]
    coef = lambda ks: app("C", list(ks) + [v])
    at = "/".join(locs)
    eng.prove_eq(vals[nn, v], spec_value(cfg, loc, (0,) * d, coef), "value at %s" % at)
    for i in range(d):
        o = tuple(int(i == q) for q in range(d))
        eng.prove_eq(dvals[nn, i, v], spec_value(cfg, loc, o, coef), "derivative %d at %s" % (i, at))


def run_G(kind, cfg, given):
    def f(inp):
        grids, C, X, rng = materialise(cfg, inp)
        d, N, p = cfg.d, X.shape[0], C.shape[-1]
        vals = rng.uniform(50, 60, (N, p)) if given else None
        dvals = rng.uniform(50, 60, (N, d, p)) if given else None
        C0, X0 = C.copy(), X.copy()
        vals, dvals = call_G(kind, d, real_call, grids, C, X, vals, dvals)
        if kind == "object":
            C0 = C.copy()
        c2 = Cfg(3, cfg.dims, "linear", True, True, orders=((0,) * d,) + tuple(
            tuple(int(i == q) for q in range(d)) for i in range(d)))
        want = np_spec(c2, grids, C, X)
        msg = close(vals, want[:, :, 0])
        if msg:
            return "values: " + msg
        msg = close(dvals, want[:, :, 1:].transpose(0, 2, 1))
        if msg:
            return "gradient: " + msg
        if not (np.array_equal(C, C0) and np.array_equal(X, X0)):
            return "an input array was modified"
    return f


def G_unit(kind, d, ls, given, cases=2, con=True):
    cfg = Cfg(3, "u" * d, "linear", True, True)

    def bounded():
        out = []
        for l in ls[:12]:
            for b in ({"m": 1, "N": 2, "nn": 1, "p": 2, "v": 1, "j": 0}, {"m": 2, "N": 2, "nn": 0, "p": 1, "v": 0, "j": 1}):
                def go(eng, l=l, b=b):
                    eng.bind = b
                    prove_G(eng, kind, cfg, l, given)
                out.append(go)
        return out
    return Unit("gradient: %s d=%d %s" % (kind, d, "in-place" if given else "allocating"),
                prove=[(lambda eng, l=l: prove_G(eng, kind, cfg, l, given)) for l in ls],
                draw=draw(cfg, ls), run=run_G(kind, cfg, given), model=from_model(cfg, ls),
                bounded=bounded, bound="grids of 2 and 3 nodes per dimension", cost=0.3 * 4 ** d * len(ls),
                cases=cases if con else 0, budget=300)


def units(tier):
    out = []
    full = tier == "thorough"
    for d in (1, 2, 3, 4):
        dims = "u" * d
        if d <= 2 or (d == 3 and full):
            ls = all_locs(dims, ("in", "end", "lo", "hi"), ())
        else:
            ls = [("in",) * d, ("end",) * d] + one_off(dims, ("lo", "hi"), ()) + [("lo",) * d, ("hi",) * d]
            ls.append(tuple("lo" if i % 2 else "hi" for i in range(d)))
        few = ls if d <= 2 else [ls[0], ls[2], ls[-1], ls[-2]]
        out.append(G_unit("kernel", d, ls, True, con=d < 4 or full))
        out.append(G_unit("vec_eval_cubic_splines_G", d, few, False, con=d < 4 or full))
        out.append(G_unit("vec_eval_cubic_splines_G", d, few[:2], True, con=d < 4 or full))
        out.append(G_unit("object", d, few[:2], False, con=d < 4 or full))
        for vec in (True, False):
            for vv in (True, False):
                cfg = Cfg(3, dims, "linear", vec, vv, vec or vv, entry="kernel")
                out.append(unit(cfg, ls, cases=2, con=d < 4 or full or vec != vv))
    return out
