"""C11: derivatives of the complete-polynomial basis, fitted complete polynomials."""
import itertools
from math import comb

import numpy as np

from .base import Unit, close, rng_of
from .c10 import (any_input, basis, count_term, mod, observations, order_of, refused, rows_of, shape_is, use_count,
                  vector)
from .spl import int_sym

SIZES = [(n, d) for n in range(1, 4) for d in range(6)] + [(4, 2), (4, 3), (4, 4), (5, 3), (6, 2), (8, 2), (10, 1)]
DEEP = [(4, 5), (5, 4), (5, 5), (6, 3), (6, 4), (7, 3), (12, 2)]


def ddz(t, x):
    """exact partial derivative of a polynomial in the symbol x"""
    from pyvc.terms import T, lift
    from pyvc.arrays import aid
    a = aid(x)
    t = lift(t)
    out = {}
    for m, c in t.p.items():
        e = dict(m)
        k = e.pop(a, 0)
        if k == 0:
            continue
        if k > 1:
            e[a] = k - 1
        out[tuple(sorted(e.items()))] = c * k
    return T(out, "R")


def prove(eng, n, d, der):
    from pyvc.interp import start
    m = mod()
    rows = comb(n + d, d)
    Z, N, kk = observations(eng, n)
    Phi = start(m.complete_polynomial, Z, d)
    dPhi = start(m.complete_polynomial_der, Z, d, der)
    if not shape_is(eng, dPhi, (rows, N)) or not shape_is(eng, Phi, (rows, N)):
        return
    for r in range(rows):
        eng.prove_eq(dPhi[r, kk], ddz(Phi[r, kk], Z[der, kk]),
                     "row %d is the derivative of row %d of the basis" % (r, r))
    z = vector(n)
    keep = list(z)
    one = start(m.complete_polynomial, z, d)
    done = start(m.complete_polynomial_der, z, d, der)
    if not shape_is(eng, one, (rows,)) or not shape_is(eng, done, (rows,)):
        return
    for r in range(rows):
        eng.prove_eq(done[r], ddz(one[r], keep[der]), "single observation: row %d is the derivative of row %d" % (r, r))
    same = all(a is b for a, b in zip(z, keep))
    eng.obl("the observation is not modified", "frame", "ok" if same else "refuted", "heap")


def ddz_any(eng, t, der, name="Z"):
    """exact partial derivative, along variable der, of a polynomial in entries name[i, ...]"""
    from pyvc.terms import ATOMS, T, Unsupported, cmp, const, lift, of_atom
    t = lift(t)
    out = const(0, "R")
    for a in sorted(t.atoms()):
        at = ATOMS[a]
        if at.kind != "app" or at.name != name:
            raise Unsupported("row of the basis is not a polynomial of the data")
        if not eng.decide(cmp("==", lift(at.args[0]), der)):
            continue
        part = {}
        for m, c in t.p.items():
            e = dict(m)
            k = e.pop(a, 0)
            if k:
                if k > 1:
                    e[a] = k - 1
                part[tuple(sorted(e.items()))] = c * k
        out = out + T(part, "R")
    return out


def prove_any(eng, form, d):
    """Any number of variables, an arbitrary variable der: both bases number the products of
    2..d variables alike, and in an arbitrary row of either the one is the derivative of the other."""
    from pyvc.interp import start
    from pyvc.terms import const
    m = mod()
    use_count(eng)
    Z, n, tail, ix, js = any_input(eng, form, d)
    der = int_sym(eng, "der")
    eng.assume(der >= 0)
    eng.assume(der <= n - 1)
    Phi = start(m.complete_polynomial, Z, d)
    dPhi = start(m.complete_polynomial_der, Z, d, der)
    want = (count_term(n, d),) + tail
    if not shape_is(eng, dPhi, want) or not shape_is(eng, Phi, want):
        return
    rows = [(const(0),)] + ([(js[0] + 1,)] if d >= 1 else [])
    for (r,) in rows:
        eng.prove_eq(dPhi[(r,) + ix], ddz_any(eng, Phi[(r,) + ix], der), "row of degree below 2 is the derivative")
    a, b = rows_of(eng, Phi, n, d, ix, js), rows_of(eng, dPhi, n, d, ix, js)
    if a is None or b is None:
        return
    rest = list(b)
    for vs, row, v in a:
        hit = [x for x in rest if len(x[0]) == len(vs)]
        eng.obl("the derivative has a row for every row of the basis", "post", "ok" if hit else "refuted", "ring")
        if not hit:
            return
        _, row2, v2 = hit[0]
        rest.remove(hit[0])
        eng.prove_eq(row2, row, "the products of %d variables have the same row numbers" % len(vs))
        eng.prove_eq(v2, ddz_any(eng, v, der), "row of a product of %d variables is the derivative" % len(vs))


def prove_refused(eng, shape):
    from pyvc.interp import start
    from pyvc.terms import integer
    m = mod()
    z = observations(eng, 2)[0] if shape == "matrix" else vector(2)
    d = integer("d")
    eng.assume(d >= 6)
    refused(eng, lambda: start(m.complete_polynomial_der, z, d, 0), ValueError, "every degree above 5 is refused")
    e = integer("e")
    eng.assume(e <= -1)
    refused(eng, lambda: start(m.complete_polynomial_der, z, e, 0), AssertionError, "a negative degree is refused")
    refused(eng, lambda: start(m.complete_polynomial_der, z, 2, e), AssertionError, "a negative variable is refused")
    v = integer("v")
    eng.assume(v >= 2)
    refused(eng, lambda: start(m.complete_polynomial_der, z, 2, v), AssertionError, "a variable that does not exist is refused")


def prove_object(eng, n, d, damp, vv):
    """CompletePolynomial: fit twice (the second time with damping), evaluate, differentiate."""
    from pyvc.interp import MODELS, start
    from pyvc.terms import app, const, integer, lift, real
    from pyvc.arrays import input_array
    m = mod()
    rows = comb(n + d, d)
    calls = []

    def lstsq(Phi, x, *a, **k):
        eng.stats.trusted.add("scipy.linalg.lstsq(A, b)[0] is the least-squares solution (uninterpreted)")
        calls.append((Phi, x))
        c = np.empty((rows, 2) if vv else (rows,), dtype=object)
        for ix in np.ndindex(*c.shape):
            c[ix] = app("L%d" % len(calls), [const(i) for i in ix])
        return c, None, None, None
    saved = MODELS.get(id(m.lstsq))
    MODELS[id(m.lstsq)] = (lstsq, m.lstsq)
    try:
        o = start(m.CompletePolynomial, n, d)
        N, kk = int_sym(eng, "N"), int_sym(eng, "kk")
        eng.assume(kk >= 0)
        eng.assume(kk <= N - 1)
        eng.focus.append((N, kk))
        S = input_array("S", (N, n))
        X = input_array("X", (N, 2) if vv else (N,))
        start(o.fit_values, S, X)
        w = const(0, "R")
        if damp:
            w = real("w")
            eng.assume(w > 0)
            eng.assume(w < 1)
            X2 = input_array("X2", (N, 2) if vv else (N,))
            start(o.fit_values, S, X2, w)
        M, mm = integer("M"), integer("mm")
        eng.assume(mm >= 0)
        eng.assume(mm <= M - 1)
        eng.focus.append((M, mm))
        E = input_array("E", (M, n))
        value = start(o, E)
        ders = [start(o.der, E, q) for q in range(n)]
    finally:
        if saved is None:
            del MODELS[id(m.lstsq)]
        else:
            MODELS[id(m.lstsq)] = saved
    ok = len(calls) == (2 if damp else 1)
    eng.obl("one least-squares fit per call", "post", "ok" if ok else "refuted", "contract")
    if not ok:
        return
    for c, (A_, b) in enumerate(calls):
        if not shape_is(eng, A_, (N, rows)):
            return
        Phi = start(m.complete_polynomial, S.T, d)
        for r in range(rows):
            eng.prove_eq(A_[kk, r], Phi[r, kk], "the fit uses the basis matrix of the data points")
        nm = "X2" if c else "X"
        for q in range(2 if vv else 1):
            eng.prove_eq(b[kk, q] if vv else b[kk], app(nm, [kk] + ([const(q)] if vv else [])), "the fit uses the data values")
    PhiE = start(m.complete_polynomial, E.T, d)
    for q in range(2 if vv else 1):
        ix = [const(q)] if vv else []
        coef = []
        for r in range(rows):
            c1 = app("L1", [const(r)] + ix)
            coef.append((1 - w) * app("L2", [const(r)] + ix) + w * c1 if damp else c1)
        want = const(0, "R")
        for r in range(rows):
            want = want + coef[r] * PhiE[r, mm]
        tail = (mm, q) if vv else (mm,)
        eng.prove_eq(value[tail], want, "value of the fitted polynomial")
        for j in range(n):
            wd = const(0, "R")
            for r in range(rows):
                wd = wd + coef[r] * ddz(PhiE[r, mm], E[mm, j])
            eng.prove_eq(ders[j][tail], wd, "derivative of the fitted polynomial along variable %d" % j)


def prove_object_any(eng, damp, vv):
    """CompletePolynomial with any number of variables, degree and number of outputs.  Contracts:
    the bases are functions of the columns of their argument (their values are proved above),
    lstsq is uninterpreted."""
    from pyvc.binder import instance, sum_of
    from pyvc.interp import MODELS, start
    from pyvc.terms import app, const, fresh_name, integer, lift, real
    from pyvc import arrays as A
    m = mod()
    P = "interpolation/complete_poly.py:"
    n, d, R, K, der = (int_sym(eng, x) for x in ("n", "d", "R", "K", "der"))
    N, kk, M, mm, ii, q = (int_sym(eng, x) for x in ("N", "kk", "M", "mm", "ii", "q"))
    for lo, x, hi in ((1, n, None), (0, d, 5), (n, R - 1, None), (1, K, None), (0, der, n - 1), (0, kk, N - 1),
                      (0, mm, M - 1), (0, ii, n - 1), (0, q, K - 1)):
        eng.assume(x >= lo)
        if hi is not None:
            eng.assume(x <= hi)
    S, E = A.input_array("S", (N, n)), A.input_array("E", (M, n))
    tail = (K,) if vv else ()
    last = (q,) if vv else ()
    X, X2 = A.input_array("X", (N,) + tail), A.input_array("X2", (N,) + tail)
    bases, fits = [], []

    def rows(name, z, deg):
        """rows of a basis at the columns of z; z has to be the transpose of one of the inputs"""
        eng.stats.contracts_used.add(P + name + " (proved in C10 / this check)")
        which = None
        if isinstance(z, A.SArray) and len(z.shape) == 2:
            for nm, rows_ in (("S", N), ("E", M)):
                if lift(z.shape[1]).same(rows_):
                    which = nm
        if which is None:
            eng.obl("bases are taken at the given points, one per column", "post", "refuted", "types", "shape %r" % (np.shape(z),))
            return z
        eng.prove_eq(z.shape[0], n, "one row per variable")
        pt = kk if which == "S" else mm
        eng.prove_eq(z[ii, pt], app(which, [pt, ii]), "bases are taken at the given points, one per column")
        eng.prove_eq(deg, d, "the degree of the polynomial is used")
        bases.append((name, which))

        def g(idx, sub):
            return app(name + which, [lift(x).subst(sub) if sub else lift(x) for x in idx])
        return A.Store(fresh_name(name), [R, z.shape[1]], ("fn", g)).full()

    def basis_c(z, deg):
        return rows("phi", z, deg)

    def dbasis_c(z, deg, v):
        eng.prove_eq(v, der, "the derivative is along the given variable")
        return rows("dphi", z, deg)

    def lstsq(A_, b, *a, **k):
        eng.stats.trusted.add("scipy.linalg.lstsq(A, b)[0] is the least-squares solution (uninterpreted)")
        c = len(fits) + 1
        fits.append(c)
        r = int_sym(eng, "r%d" % c)
        eng.assume(r >= 0)
        eng.assume(r <= R - 1)
        if shape_is(eng, A_, (N, R)):
            eng.prove_eq(A_[kk, r], app("phiS", [r, kk]), "the fit uses the basis matrix of the data points")
        if shape_is(eng, b, (N,) + tail):
            eng.prove_eq(b[(kk,) + last], app("X2" if c == 2 else "X", [kk] + list(last)), "the fit uses the data values")

        def g(idx, sub):
            return app("L%d" % c, [lift(x).subst(sub) if sub else lift(x) for x in idx])
        return A.Store(fresh_name("L"), [R] + list(tail), ("fn", g)).full(), None, None, None
    eng.contracts[P + "complete_polynomial"] = basis_c
    eng.contracts[P + "complete_polynomial_der"] = dbasis_c
    saved = MODELS.get(id(m.lstsq))
    MODELS[id(m.lstsq)] = (lstsq, m.lstsq)
    try:
        o = start(m.CompletePolynomial, n, d)
        start(o.fit_values, S, X)
        w = const(0, "R")
        if damp:
            w = real("w")
            eng.assume(w > 0)
            eng.assume(w < 1)
            start(o.fit_values, S, X2, w)
        value, slope = start(o, E), start(o.der, E, der)
    finally:
        if saved is None:
            del MODELS[id(m.lstsq)]
        else:
            MODELS[id(m.lstsq)] = saved
    want = 2 if damp else 1
    eng.obl("one least-squares fit per call", "post", "ok" if len(fits) == want else "refuted", "contract")
    if len(fits) != want or not shape_is(eng, value, (M,) + tail) or not shape_is(eng, slope, (M,) + tail):
        return

    def coef(r):
        c1 = app("L1", [r] + list(last))
        return (1 - w) * app("L2", [r] + list(last)) + w * c1 if damp else c1
    for got, name, what in ((value, "phiE", "value"), (slope, "dphiE", "derivative")):
        i, body = instance(const(0), R, lambda r: app(name, [r, mm]) * coef(r))
        eng.prove_eq(got[(mm,) + last], sum_of(const(0), R, i, body), what + " of the fitted polynomial")


def dbasis(z, es, der):
    out = []
    for e in es:
        if e[der] == 0:
            out.append(np.zeros(z.shape[1]))
            continue
        f = list(e)
        f[der] -= 1
        out.append(e[der] * np.prod([z[i] ** k for i, k in enumerate(f)], axis=0))
    return np.array(out)


def run(inp):
    m = mod()
    n, d, N = inp["n"], inp["d"], inp["N"]
    rng = rng_of(inp["seed"])
    z = rng.uniform(-2, 2, (n, N))
    if inp.get("zeros"):
        z[rng.integers(n), :] = 0.0
    z0 = z.copy()
    es = order_of(n, d)
    if any(e is None for e in es):
        return "the rows of the basis are not monomials"
    for der in range(n):
        want = dbasis(z, es, der)
        got = m.complete_polynomial_der(z, d, der)
        msg = close(got, want)
        if msg:
            return "complete_polynomial_der(z, %d, %d) with %d variables: %s" % (d, der, n, msg)
        for k in range(N):
            msg = close(m.complete_polynomial_der(z[:, k].copy(), d, der), want[:, k])
            if msg:
                return "single observation: " + msg
    if not np.array_equal(z, z0):
        return "the input was modified"
    return None


def run_object(inp):
    m = mod()
    n, d = inp["n"], inp["d"]
    rng = rng_of(inp["seed"])
    rows = comb(n + d, d)
    S = rng.uniform(-1, 1, (3 * rows + 4, n))
    tail = (2,) if inp["vv"] else ()
    c1, c2 = rng.uniform(-1, 1, (rows,) + tail), rng.uniform(-1, 1, (rows,) + tail)
    es = order_of(n, d)
    B = basis(S.T, es).T
    o = m.CompletePolynomial(n, d)
    X1, X2 = B @ c1, B @ c2
    X10, S0 = X1.copy(), S.copy()
    o.fit_values(S, X1)
    c = c1
    if inp["damp"]:
        o.fit_values(S, X2, inp["damp"])
        c = (1 - inp["damp"]) * c2 + inp["damp"] * c1
    E = rng.uniform(-1, 1, (4, n))
    msg = close(o(E), basis(E.T, es).T @ c, rtol=1e-6, atol=1e-7)
    if msg:
        return "value: " + msg
    for j in range(n):
        msg = close(o.der(E, j), dbasis(E.T, es, j).T @ c, rtol=1e-6, atol=1e-6)
        if msg:
            return "derivative %d: %s" % (j, msg)
    if not (np.array_equal(X1, X10) and np.array_equal(S, S0)):
        return "an input was modified"
    return None


def units(tier):
    out = []
    for n, d in SIZES + (DEEP if tier == "thorough" else []):
        c = comb(n + d, d)

        def draw(rng, n=n, d=d):
            return {"n": n, "d": d, "N": int(rng.integers(1, 4)), "seed": int(rng.integers(1 << 30)),
                    "zeros": bool(rng.integers(2))}
        out.append(Unit("derivative basis variables=%d degree=%d" % (n, d),
                        prove=[(lambda eng, n=n, d=d, q=q: prove(eng, n, d, q)) for q in range(n)],
                        draw=draw, run=run, cases=3, cost=0.1 + 0.03 * c * n, budget=600,
                        level="bounded: %d variables (any data, any number of observations)" % n))
    for s in ("matrix", "vector"):
        out.append(Unit("arguments refused, %s" % s, prove=[lambda eng, s=s: prove_refused(eng, s)], cases=0))
    for form, d in itertools.product(("matrix", "vector"), range(6)):
        def draw(rng, d=d):
            return {"n": int(rng.integers(1, [60, 60, 40, 20, 11, 8][d])), "d": d, "N": int(rng.integers(1, 4)),
                    "seed": int(rng.integers(1 << 30)), "zeros": bool(rng.integers(2))}
        out.append(Unit("derivative basis any number of variables, degree %d, %s" % (d, form),
                        prove=[lambda eng, form=form, d=d: prove_any(eng, form, d)],
                        draw=draw, run=run, cases=1, cost=2 + d ** 2, budget=800))
    for damp, vv in itertools.product((False, True), (False, True)):
        def draw(rng, damp=damp, vv=vv):
            return {"n": int(rng.integers(1, 5)), "d": int(rng.integers(0, 4)), "vv": vv,
                    "damp": round(float(rng.uniform(0.05, 0.95)), 3) if damp else 0.0, "seed": int(rng.integers(1 << 30))}
        out.append(Unit("CompletePolynomial, any number of variables and degree%s%s" % (" damped" if damp else "", " vector-valued" if vv else ""),
                        prove=[lambda eng, damp=damp, vv=vv: prove_object_any(eng, damp, vv)],
                        draw=draw, run=run_object, cases=4))
    for (n, d), damp, vv in itertools.product([(1, 3), (2, 2), (2, 5), (3, 3)], (False, True), (False, True)):
        if d == 5 and vv:
            continue

        def draw(rng, n=n, d=d, damp=damp, vv=vv):
            return {"n": n, "d": d, "damp": round(float(rng.uniform(0.05, 0.95)), 3) if damp else 0.0, "vv": vv,
                    "seed": int(rng.integers(1 << 30))}
        out.append(Unit("CompletePolynomial variables=%d degree=%d%s%s" % (n, d, " damped" if damp else "", " vector-valued" if vv else ""),
                        prove=[lambda eng, n=n, d=d, damp=damp, vv=vv: prove_object(eng, n, d, damp, vv)],
                        draw=draw, run=run_object, cases=3, cost=1 + 0.05 * comb(n + d, d),
                        level="bounded: %d variables, degree %d (any data, any number of observations)" % (n, d)))
    return out
