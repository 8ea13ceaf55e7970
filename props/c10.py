"""C10: the complete-polynomial basis."""
import importlib
import itertools
from fractions import Fraction
from math import comb, factorial

import numpy as np

from .base import Unit, close, rng_of
from .spl import int_sym

SIZES = [(n, d) for n in range(1, 5) for d in range(6)] + [(5, 3), (5, 4), (6, 2), (6, 3), (8, 2), (10, 1), (12, 2)]
DEEP = [(5, 5), (6, 4), (6, 5), (7, 4), (8, 3), (10, 3), (20, 2)]


def mod():
    return importlib.import_module("interpolation.complete_poly")


def exponents(n, d):
    out = []
    for m in range(d + 1):
        for c in itertools.combinations_with_replacement(range(n), m):
            e = [0] * n
            for i in c:
                e[i] += 1
            out.append(tuple(e))
    return out


def observations(eng, n, name="Z"):
    """an n x N array, N unbounded; kk is an arbitrary observation"""
    from pyvc.arrays import input_array
    N, kk = int_sym(eng, "N"), int_sym(eng, "kk")
    eng.assume(kk >= 0)
    eng.assume(kk <= N - 1)
    eng.focus.append((N, kk))
    return input_array(name, (n, N)), N, kk


def vector(n):
    """one observation, its entries arbitrary"""
    from pyvc.terms import real
    z = np.empty(n, dtype=object)
    for i in range(n):
        z[i] = real("z%d" % i)
    return z


def monomial(t, z):
    """exponents of t in the variables z, or None"""
    from pyvc.terms import lift
    from pyvc.arrays import aid
    t = lift(t)
    ids = {aid(x): i for i, x in enumerate(z)}
    if len(t.p) != 1:
        return None
    (m, c), = t.p.items()
    if c != 1:
        return None
    e = [0] * len(z)
    for a, k in m:
        if a not in ids or k < 0:
            return None
        e[ids[a]] = int(k)
    return tuple(e)


def check_rows(eng, rows, z, n, d):
    """every monomial of total degree at most d once; returns the exponents"""
    from pyvc.terms import lift
    es = [monomial(r, z) for r in rows]
    for r, e in zip(rows, es):
        if e is None:
            # normal form of the entry is not a monomial: a wrong value
            w = max(e2 for e2 in exponents(n, d)) if n else ()
            eng.obl("every row is a monomial", "post", "refuted", "ring", "row %r" % (lift(r),))
            return None
    ok = len(es) == comb(n + d, d) and sorted(es) == sorted(exponents(n, d))
    eng.obl("each monomial of degree at most %d once" % d, "post", "ok" if ok else "refuted", "ring",
            "" if ok else "rows %r" % (es,))
    eng.obl("the number of rows is C(n+d, d)", "post", "ok" if len(es) == comb(n + d, d) else "refuted", "ring")
    return es if ok else None


def shape_is(eng, got, want):
    from pyvc.terms import lift
    from pyvc import arrays as A
    if not isinstance(got, (A.SArray, np.ndarray)) or len(got.shape) != len(want):
        eng.obl("an array with one row per monomial is returned", "post", "refuted", "types", "%r" % (got,))
        return False
    ok = True
    for a, b in zip(got.shape, want):
        ok = eng.prove(lift(a) == lift(b), "shape of the result") and ok
    return ok


def prove(eng, n, d):
    from pyvc.interp import start
    m = mod()
    rows = comb(n + d, d)
    Z, N, kk = observations(eng, n)
    got = start(m.complete_polynomial, Z, d)
    if not shape_is(eng, got, (rows, N)):
        return
    e1 = check_rows(eng, [got[r, kk] for r in range(rows)], [Z[i, kk] for i in range(n)], n, d)
    z = vector(n)
    keep = list(z)
    one = start(m.complete_polynomial, z, d)
    if not shape_is(eng, one, (rows,)):
        return
    e2 = check_rows(eng, [one[r] for r in range(rows)], keep, n, d)
    if e1 is not None and e2 is not None:
        eng.obl("one observation gives the same column as a matrix of observations", "post",
                "ok" if e1 == e2 else "refuted", "ring", "" if e1 == e2 else "%r / %r" % (e1, e2))
    same = all(a is b for a, b in zip(z, keep))
    eng.obl("the observation is not modified", "frame", "ok" if same else "refuted", "heap")


# ---------------------------------------------------------- any number of variables
COUNT = "interpolation/complete_poly.py:n_complete"


def count_term(n, d):
    """C(n + d, d)"""
    from pyvc.terms import T, const
    t = const(Fraction(1, factorial(d)), "R")
    for i in range(1, d + 1):
        t = t * (n + i)
    return T(t.p, "I")


def use_count(eng):
    """n_complete(n, d) = C(n + d, d): proved in this property for every n and d = 0..5"""
    from pyvc.terms import Unsupported, lift

    def contract(n, d):
        d = lift(d)
        if not d.is_const():
            raise Unsupported("degree not known")
        eng.stats.contracts_used.add(COUNT + " (proved in C10)")
        return count_term(lift(n), int(d.const()))
    eng.contracts[COUNT] = contract


def variables(eng, n, d):
    """j1 <= ... <= jd arbitrary; the loops over variables are looked at in these iterations"""
    from pyvc.terms import const
    js = [int_sym(eng, "j%d" % k) for k in range(d)]
    prev = const(0)
    for j in js:
        eng.assume(j >= prev)
        eng.assume(j <= n - 1)
        eng.focus.append((n - prev, j - prev))
        prev = j
    return js


def any_input(eng, form, d):
    """-> data, number of variables, tail of the shape, tail of an index, entry(i), variables"""
    from pyvc.arrays import input_array
    n = int_sym(eng, "n")
    eng.assume(n >= 1)
    if form == "matrix":
        Z, N, kk = observations(eng, n)
        tail, ix = (N,), (kk,)
    else:
        Z, tail, ix = input_array("Z", (n,)), (), ()
    js = variables(eng, n, max(d, 1))
    return Z, n, tail, ix, js


def rows_of(eng, got, n, d, ix, js):
    """The rows behind the first n + 1: [(variables, row, value)] at an arbitrary choice of
    variables per degree; None if they are not one row per product of 2..d variables."""
    from pyvc import arrays as A
    from pyvc.binder import under
    from pyvc.terms import Unsupported, cmp, conj, disj, integer
    if d < 2:
        return []
    blocks = []
    for l in got.store.layers:
        if isinstance(l.tag, A.Block) and not any(l.tag is b for b in blocks):
            blocks.append(l.tag)
    if len(blocks) != 1 or blocks[0].axis != 0:
        raise Unsupported("rows are not enumerated by one counter")
    b = blocks[0]
    ok = eng.prove_eq(b.lo, n, "the products start behind the variables")
    ok = eng.prove_eq(b.hi, count_term(n, d) - 1, "the products fill the remaining rows, each once") and ok
    ls = got.store.layers
    last = max(k for k, l in enumerate(ls) if l.tag is b)
    for l in ls[last + 1:]:
        rng = [f for v, (lo, hi) in zip(l.formals, l.ranges) for f in (cmp("<=", lo, v), cmp("<", v, hi))]
        with under(eng, rng):
            if not eng.entails(disj(cmp("<=", l.pattern[0], b.lo), cmp("<", b.hi, l.pattern[0]))):
                raise Unsupported("products are written again")
    out, seen = [], []
    for l in b.layers:
        vs = [f for f in l.formals if A.aid(f) in l.pattern[0].atoms_deep()]
        rest = [f for f in l.formals if not any(f is v for v in vs)]
        vs = vs[::-1]
        if len(rest) != len(ix) or len(l.pattern) != 1 + len(ix) or (ix and not l.pattern[1].same(rest[0])):
            raise Unsupported("rows are written in an unexpected way")
        m = len(vs)
        ts = [integer("t%d" % k) for k in range(m)]

        def ranges(us):
            mp = {A.aid(v): u for v, u in zip(vs, us)}
            return conj(*[f for v, (lo, hi) in zip(l.formals, l.ranges) if A.aid(v) in mp
                          for f in (cmp("<=", A.lift(lo).subst(mp), mp[A.aid(v)]), cmp("<", mp[A.aid(v)], A.lift(hi).subst(mp)))])
        srt = conj(cmp("<=", 0, ts[0]), *[cmp("<=", x, y) for x, y in zip(ts, ts[1:])], cmp("<", ts[-1], n))
        with under(eng, [ranges(ts)]):
            if not eng.entails(srt):
                raise Unsupported("variables are not enumerated in increasing order")
        with under(eng, [srt]):
            ok = eng.prove(ranges(ts), "every product of %d variables has a row" % m) and ok
        seen.append(m)
        mp = {A.aid(v): j for v, j in zip(vs, js)}
        for v, j in zip(vs, js):
            w = l.only.get(A.aid(v))
            if w is not None and not w.same(j):
                raise Unsupported("another iteration is described")
        for v, k in zip(rest, ix):
            mp[A.aid(v)] = k
        out.append((js[:m], l.pattern[0].subst(mp), A.value_of(l.value, mp)))
    right = sorted(seen) == list(range(2, d + 1))
    eng.obl("products of 2, ..., %d variables, each in one place" % d, "post", "ok" if right else "refuted", "ring", "%r" % seen)
    return out if ok and right else None


def prove_any(eng, form, d):
    """every monomial once: 1, the variables, and for every m = 2..d the products of m variables in
    increasing order, in rows that a counter enumerates without gaps"""
    from pyvc.interp import start
    from pyvc.terms import const
    m = mod()
    use_count(eng)
    Z, n, tail, ix, js = any_input(eng, form, d)
    got = start(m.complete_polynomial, Z, d)
    if not shape_is(eng, got, (count_term(n, d),) + tail):
        return
    eng.prove_eq(got[(const(0),) + ix], 1, "row 0 is the constant")
    if d >= 1:
        eng.prove_eq(got[(js[0] + 1,) + ix], Z[(js[0],) + ix], "row j + 1 is variable j")
    for vs, row, v in rows_of(eng, got, n, d, ix, js) or []:
        want = const(1)
        for j in vs:
            want = want * Z[(j,) + ix]
        eng.prove_eq(v, want, "the row of a product of %d variables" % len(vs))


def prove_count(eng, d, res, mod_):
    """n_complete(n, d) for every n >= 0 in a residue class"""
    from fractions import Fraction
    from pyvc.interp import start
    from pyvc.terms import const, integer
    q = integer("q")
    eng.assume(q >= 0)
    n = q * mod_ + res
    got = start(mod().n_complete, n, d)
    want = const(1)
    for i in range(1, d + 1):
        want = want * (n + i)
    f = 1
    for i in range(1, d + 1):
        f *= i
    eng.prove_eq(got * f, want, "n_complete(n, %d) = C(n + %d, %d), n = %d mod %d" % (d, d, d, res, mod_))


def refused(eng, call, exc, what):
    from pyvc.terms import PathEnd, Unsupported
    try:
        r = call()
    except (PathEnd, Unsupported):
        raise
    except exc:
        eng.obl(what, "post", "ok", "raised")
        return
    except Exception as e:
        eng.obl(what, "post", "refuted", "raised", "raised %r" % (e,))
        return
    eng.obl(what, "post", "refuted", "raised", "accepted, returned %r" % (r,))


def prove_refused(eng, shape):
    from pyvc.interp import start
    from pyvc.terms import integer
    m = mod()
    z = observations(eng, 2)[0] if shape == "matrix" else vector(2)
    d = integer("d")
    eng.assume(d >= 6)
    refused(eng, lambda: start(m.complete_polynomial, z, d), ValueError, "every degree above 5 is refused")
    e = integer("e")
    eng.assume(e <= -1)
    refused(eng, lambda: start(m.complete_polynomial, z, e), AssertionError, "a negative degree is refused")


def draw_for(n, d):
    def f(rng):
        return {"n": n, "d": d, "N": int(rng.integers(1, 5)), "seed": int(rng.integers(1 << 30))}
    return f


def basis(z, es):
    return np.array([np.prod([z[i] ** k for i, k in enumerate(e)], axis=0) * np.ones(z.shape[1]) for e in es])


def order_of(n, d):
    """exponents of the rows, recovered from evaluations of the real code"""
    m = mod()
    primes = [p for p in range(2, 400) if all(p % q for q in range(2, p))]
    z = np.array([np.log(p) for p in primes[:n]])
    Phi = m.complete_polynomial(z, d)
    es = exponents(n, d)
    vals = basis(z[:, None], es)[:, 0]
    out = []
    for v in Phi:
        hit = np.flatnonzero(abs(vals - v) <= 1e-9 * (1 + abs(vals)))
        out.append(es[hit[0]] if len(hit) == 1 else None)
    return out


def run(inp):
    m = mod()
    n, d, N = inp["n"], inp["d"], inp["N"]
    rng = rng_of(inp["seed"])
    z = rng.uniform(-2, 2, (n, N))
    z0 = z.copy()
    if m.n_complete(n, d) != comb(n + d, d):
        return "n_complete(%d, %d) = %d" % (n, d, m.n_complete(n, d))
    got = m.complete_polynomial(z, d)
    es = order_of(n, d)
    if sorted(map(str, es)) != sorted(map(str, exponents(n, d))):
        return "rows are not the monomials of degree at most %d, each once: %r" % (d, es)
    msg = close(got, basis(z, es))
    if msg:
        return "complete_polynomial(z, %d) with %d variables: %s" % (d, n, msg)
    for k in range(N):
        msg = close(m.complete_polynomial(z[:, k].copy(), d), got[:, k])
        if msg:
            return "single observation: " + msg
    if not np.array_equal(z, z0):
        return "the input was modified"
    for bad in (6, 7):
        try:
            m.complete_polynomial(z, bad)
        except ValueError:
            continue
        return "degree %d was accepted" % bad
    return None


def units(tier):
    out = []
    for n, d in SIZES + (DEEP if tier == "thorough" else []):
        c = comb(n + d, d)
        out.append(Unit("basis variables=%d degree=%d" % (n, d), prove=[lambda eng, n=n, d=d: prove(eng, n, d)],
                        draw=draw_for(n, d), run=run, cases=2, cost=0.1 + 0.01 * c, budget=600,
                        level="bounded: %d variables (any data, any number of observations)" % n))
    for d in range(6):
        k = [1, 1, 2, 6, 24, 120][d]
        out.append(Unit("n_complete degree=%d, every number of variables" % d,
                        prove=[lambda eng, d=d, r=r, k=k: prove_count(eng, d, r, k) for r in range(k)],
                        draw=lambda rng, d=d: {"n": int(rng.integers(0, 60)), "d": d},
                        run=lambda inp: None if mod().n_complete(inp["n"], inp["d"]) == comb(inp["n"] + inp["d"], inp["d"])
                        else "n_complete(%d, %d) = %r" % (inp["n"], inp["d"], mod().n_complete(inp["n"], inp["d"])),
                        cases=20))
    for form, d in itertools.product(("matrix", "vector"), range(6)):
        out.append(Unit("basis any number of variables, degree %d, %s" % (d, form),
                        prove=[lambda eng, form=form, d=d: prove_any(eng, form, d)],
                        draw=lambda rng, d=d: {"n": int(rng.integers(1, [60, 60, 40, 20, 11, 8][d])), "d": d, "N": int(rng.integers(1, 4)),
                                               "seed": int(rng.integers(1 << 30))},
                        run=run, cases=2, cost=2 + d, budget=600))
    for s in ("matrix", "vector"):
        out.append(Unit("degrees refused, %s" % s, prove=[lambda eng, s=s: prove_refused(eng, s)], cases=0))
    return out
