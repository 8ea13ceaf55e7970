"""C08: interp and mlinterp."""
import importlib

import numpy as np

from .base import Unit, close
from .spl import (Cfg, all_locs, check_frozen, draw, from_model, int_sym, make_array, materialise, np_spec, one_off,
                  spec_value, sym_dim)

FORMS = ("mlinterp tuple", "mlinterp points", "interp scalars", "interp tuple", "interp point", "interp points",
         "interp axes")


def mod():
    return importlib.import_module("interpolation.multilinear.mlinterp")


def call(form, d, caller, grid, C, pts):
    """pts: list of d coordinates (numbers), one array, or d arrays"""
    m = mod()
    if form.startswith("mlinterp"):
        return caller(m.mlinterp, grid, C, pts)
    if form in ("interp scalars", "interp axes"):
        return caller(m.interp, *grid, C, *pts)
    return caller(m.interp, *grid, C, pts)


def prove(eng, form, dims, locs):
    from pyvc.interp import start
    from pyvc.terms import app, lift, lift_or_none
    from pyvc import arrays as A
    d = len(dims)
    mode = "linear" if form.startswith("mlinterp") else "nearest"
    D = [sym_dim(eng, i, dims[i], locs[i], mode) for i in range(d)]
    grid = tuple(x[0] for x in D)
    xs = [x[2] for x in D]
    C = make_array(eng, "C", [x[1] for x in D])
    key = None
    if form in ("mlinterp tuple", "interp tuple"):
        pts = tuple(xs)
    elif form == "interp scalars":
        pts = list(xs)
    elif form == "interp point":
        if eng.bind:
            pts = np.array(xs, dtype=object)
        else:
            eng.app_over["P"] = lambda args: xs[int(args[0].const())] if args[0].is_const() else None
            pts = make_array(eng, "P", (d,))
    elif form in ("mlinterp points", "interp points"):
        N, nn = int_sym(eng, "N"), int_sym(eng, "nn")
        eng.assume(nn >= 0)
        eng.assume(nn <= N - 1)
        eng.focus.append((N, nn))

        def over(args):
            if args[0].same(nn) and args[1].is_const():
                return xs[int(args[1].const())]
            if eng.bind:
                g = grid[int(args[1].const())]
                return g[0]
            return None
        eng.app_over["P"] = over
        pts = make_array(eng, "P", (N, d))
        key = (nn,)
    else:
        pts, key = [], []
        for i in range(d):
            N, nn = int_sym(eng, "N%d" % i), int_sym(eng, "nn%d" % i)
            eng.assume(nn >= 0)
            eng.assume(nn <= N - 1)
            eng.focus.append((N, nn))

            def over(args, nn=nn, i=i):
                if args[0].same(nn):
                    return xs[i]
                return grid[i][0] if eng.bind else None
            eng.app_over["P%d" % i] = over
            pts.append(make_array(eng, "P%d" % i, (N,)))
            key.append(nn)
        key = tuple(key)
    got = call(form, d, start, grid, C, pts)
    check_frozen(eng)
    if key is not None:
        if not isinstance(got, (A.SArray, np.ndarray)) or got.ndim != len(key):
            eng.obl("an array with one entry per point is returned", "post", "refuted", "types", "%r" % (got,))
            return
        want = [pts.shape[0]] if len(key) == 1 and form != "interp axes" else [p.shape[0] for p in pts]
        for a, b in zip(got.shape, want):
            eng.prove(lift(a) == lift(b), "shape of the result")
        got = got[key]
    if lift_or_none(got) is None:
        eng.obl("a number is returned", "post", "refuted", "types", "got %r" % (got,))
        return
    eng.prove_eq(got, spec_value(Cfg(1, dims), [x[3] for x in D], (0,) * d, lambda ks: app("C", list(ks))),
                 "value at %s" % "/".join(locs))


def run(form, dims):
    d = len(dims)
    mode = "linear" if form.startswith("mlinterp") else "nearest"
    cfg = Cfg(1, dims, mode, True, False)

    def f(inp):
        grids, C, X, rng = materialise(cfg, inp)
        keep = [C.copy(), X.copy()] + [np.array(g) for g in grids]
        want = np_spec(cfg, grids, C, X)
        real = lambda f, *a: f(*a)
        if form in ("mlinterp points", "interp points"):
            got = call(form, d, real, grids, C, X)
        elif form == "interp axes":
            ax = [X[:, i].copy() for i in range(d)]
            if d == 2:
                ax[1] = np.concatenate([ax[1], ax[1][:1]])
                XX = np.array([[x, y] for x in ax[0] for y in ax[1]])
                want = np_spec(cfg, grids, C, XX).reshape(len(ax[0]), len(ax[1]))
            got = call(form, d, real, grids, C, ax)
        else:
            want = want[0]
            p = [float(x) for x in X[0]]
            got = call(form, d, real, grids, C, tuple(p) if "tuple" in form else np.array(p) if "point" in form else p)
        msg = close(got, want)
        if msg:
            return msg
        if not all(np.array_equal(a, b) for a, b in zip(keep, [C, X] + [np.array(g) for g in grids])):
            return "an input was modified"
    return f


def units(tier):
    out = []
    full = tier == "thorough"
    for form in FORMS:
        for dims in ("u", "n", "uu", "un", "nu", "nn", "uuu", "nun", "nnn", "uuuu", "unnu", "nnnn"):
            d = len(dims)
            if form == "interp axes" and d > 2 or form == "interp point" and d == 1:
                continue
            if form == "interp point" and d == 1:
                continue
            ls = all_locs(dims, ("in", "end", "lo", "hi"), ("in", "start", "lo", "hi"))
            if d > 3 and not full:
                ls = all_locs(dims, ("in",), ("in",)) + [tuple("end" if c == "u" else "start" for c in dims)]
                ls += one_off(dims, ("lo", "hi"), ("lo", "hi"))
                ls += [("lo",) * d, ("hi",) * d]
            cfg = Cfg(1, dims, "linear")

            def bounded(form=form, dims=dims, ls=ls):
                res = []
                for l in ls[:16]:
                    for b in ({"m": 1, "N": 2, "nn": 1, "j": 0}, {"m": 2, "N": 2, "nn": 0, "j": 1}):
                        def go(eng, l=l, b=b):
                            eng.bind = b
                            prove(eng, form, dims, l)
                        res.append(go)
                return res
            out.append(Unit("%s grid=%s" % (form, dims),
                            prove=[(lambda eng, l=l, form=form, dims=dims: prove(eng, form, dims, l)) for l in ls],
                            draw=draw(cfg, ls), run=run(form, dims), model=from_model(cfg, ls), bounded=bounded,
                            bound="grids of 2 and 3 nodes per dimension, 2 points", cost=0.05 * len(ls) * d,
                            cases=(3 if d < 4 else 2)))
    return out
