"""C13: Chebyshev polynomials and the Smolyak basis matrix."""
import importlib
import itertools
from math import comb as binom

import numpy as np

from .base import Unit, close, rng_of
from .c10 import refused, shape_is
from .c11 import ddz
from .spl import check_frozen, int_sym, make_array

GRID = "interpolation/smolyak/grid.py:"


def mod():
    return importlib.import_module("interpolation.smolyak.grid")


def m_of(i):
    return 0 if i == 0 else 1 if i == 1 else 2 ** (i - 1) + 1


# ----------------------------------------------------------------- cheby2n

def points(eng, rank):
    from pyvc.terms import real
    if rank == 0:
        return real("x"), [], lambda ix: real("x")
    sh, at = [], []
    for q in range(rank):
        n, k = int_sym(eng, "n%d" % q), int_sym(eng, "k%d" % q)
        eng.assume(k >= 0)
        eng.assume(k <= n - 1)
        sh.append(n)
        at.append(k)
    x = make_array(eng, "x", sh)
    return x, at, lambda ix: x[tuple(ix)] if len(ix) > 1 else x[ix[0]]


def prove_cheby(eng, rank, kind, explicit):
    """first entries and three-term recurrence at an arbitrary entry, arbitrary n"""
    from pyvc.interp import start
    from pyvc.terms import lift
    x, at, elem = points(eng, rank)
    n = int_sym(eng, "n")
    eng.assume(n >= 0)
    args = {} if kind is None else {"kind": kind}
    kd = 1 if kind is None else int(kind)
    r = start(mod().cheby2n, x, n, **args)
    if not shape_is(eng, r, tuple([n + 1] + ([] if rank == 0 else list(x.shape)))):
        return
    check_frozen(eng)

    def R(k):
        ix = tuple([lift(k)] + at)
        return r[ix] if len(ix) > 1 else r[ix[0]]
    X = elem(at)
    eng.prove_eq(R(0), 1, "polynomial 0 is 1")
    if bool(n >= 1):
        eng.prove_eq(R(1), kd * X, "polynomial 1 is x (first kind) or 2x (second kind)")
    if bool(n >= 2):
        k = int_sym(eng, "k")
        eng.assume(k >= 2)
        eng.assume(k <= n)
        eng.prove_eq(R(k), 2 * X * R(k - 1) - R(k - 2), "three-term recurrence at an arbitrary index")


def closed_form(kind, n, x):
    """T_n, U_n as explicit polynomials"""
    from fractions import Fraction
    from pyvc.terms import const
    if n == 0:
        return const(1)
    tot = const(0, "R")
    for k in range(n // 2 + 1):
        if kind == 1:
            c = Fraction(n, 2) * Fraction((-1) ** k * binom(n - k, k), n - k)
        else:
            c = (-1) ** k * binom(n - k, k)
        tot = tot + const(c) * (2 * x) ** (n - 2 * k)
    return tot


def prove_explicit(eng, kind, n):
    from pyvc.interp import start
    from pyvc.terms import const
    x, at, elem = points(eng, 1)
    r = start(mod().cheby2n, x, n, kind)
    if not shape_is(eng, r, (n + 1, x.shape[0])):
        return
    for k in range(n + 1):
        eng.prove_eq(r[k, at[0]], closed_form(int(kind), k, elem(at)), "row %d is the polynomial of degree %d" % (k, k))


def prove_lemma(eng):
    """T_n' = n U_(n-1): the two invariants of the induction, from the recurrences"""
    from pyvc.terms import real, integer
    x = real("x")
    n = integer("n")
    # invariants at n (and n-1):  T_n = U_n - x U_(n-1);  T_n' = n U_(n-1)
    U0, U1 = real("Un"), real("Un1")            # U_n, U_(n-1)
    U2 = 2 * x * U1 - U0                        # U_(n-2)
    T0, T1 = U0 - x * U1, U1 - x * U2           # T_n, T_(n-1)
    d0, d1 = n * U1, (n - 1) * U2               # T_n', T_(n-1)'
    Un = 2 * x * U0 - U1                        # U_(n+1)
    Tn = 2 * x * T0 - T1                        # T_(n+1)
    dn = 2 * T0 + 2 * x * d0 - d1               # T_(n+1)'
    eng.prove_eq(Tn, Un - x * U0, "T_(n+1) = U_(n+1) - x U_n")
    eng.prove_eq(dn, (n + 1) * U0, "T_(n+1)' = (n+1) U_n")
    for k in range(0, 3):
        t = closed_form(1, k, x)
        u1 = closed_form(2, k - 1, x) if k else 0 * x
        u = closed_form(2, k, x)
        eng.prove_eq(t, u - x * u1, "start of the induction")
        eng.prove_eq(ddz(t, x), k * u1, "start of the induction")


# ----------------------------------------------------------------- build_B

def use_contracts(eng, pinds, log):
    """cheby2n: value k at x is T(k, x) (U for the second kind); smol_inds, poly_inds: the given index set"""
    from pyvc import arrays as A
    from pyvc.terms import app, fresh_name, lift

    def cheby(x, n, kind=1.0):
        eng.stats.contracts_used.add(GRID + "cheby2n (proved separately in this check)")
        k = lift(kind)
        if not (k.is_const() and k.const() in (1, 2)):
            eng.obl("first or second kind", "pre", "refuted", "contract", repr(kind))
            return x
        eng.prove(lift(n) >= 0, "degree of the last polynomial", "pre")
        nm = "T" if k.const() == 1 else "U"
        sh, f = A.operand(x)

        def g(idx, sub):
            i = lift(idx[0])
            return app(nm, [i.subst(sub) if sub else i, f(list(idx[1:]), sub)])
        return A.Store(fresh_name(nm), [lift(n) + 1] + list(sh), ("fn", g)).full()
    eng.contracts[GRID + "cheby2n"] = cheby

    def smol(d, mu):
        log.append(("smol_inds", d, mu))
        return "indices"

    def poly(d, mu, inds=None):
        log.append(("poly_inds", d, mu, inds))
        return pinds
    eng.contracts[GRID + "smol_inds"] = smol
    eng.contracts[GRID + "poly_inds"] = poly


def prove_B(eng, d, mukind, given, deriv):
    """entry (point, basis function[, direction]) of build_B; d an int, or None for any number"""
    from pyvc.interp import start
    from pyvc.binder import indicator, instance, prod_of
    from pyvc.terms import app, cmp, const, integer, lift, to_real
    from pyvc import arrays as A
    N, P = int_sym(eng, "N"), int_sym(eng, "P")
    k, j = int_sym(eng, "k"), int_sym(eng, "j")
    dd = d
    if d is None:
        dd = int_sym(eng, "d")
        eng.assume(dd >= 1)
    for i, n in ((k, N), (j, P)):
        eng.assume(i >= 0)
        eng.assume(i <= n - 1)
        eng.focus.append((n, i))
    q = None
    if deriv and d is None:
        q = int_sym(eng, "q")
        eng.assume(q >= 0)
        eng.assume(q <= dd - 1)
        eng.focus.append((dd, q))
    pts = A.input_array("x", (N, dd))
    top = integer("mumax")
    eng.assume(top >= 1)
    if mukind == "int":
        mu = top
    else:
        mu = A.input_array("mu", (dd,), elem="I")
        if d is None:
            eng.maxima[mu.store] = top
        else:
            mu = np.empty(d, dtype=object)
            for i in range(d):
                mu[i] = integer("mu%d" % i)
                eng.assume(mu[i] >= 1)
                eng.assume(mu[i] <= top)
            from pyvc.terms import disj
            eng.assume(disj(*[cmp("==", m, top) for m in mu]))
    b = A.input_array("b", (P, dd), elem="I")
    # precondition of build_B, guaranteed by poly_inds: 1 <= index <= m(max mu + 1)
    last = lift(2) ** top + 1

    def bound(t, args):
        eng.assume(t >= 1)
        eng.assume(t <= last)
    eng.app_watch["b"] = bound
    log = []
    use_contracts(eng, b, log)
    got = start(mod().build_B, dd, mu, pts, *([b] if given else [None]), **({"deriv": True} if deriv else {}))
    check_frozen(eng)
    if given:
        eng.obl("a given index set is used as it is", "post", "ok" if not log else "refuted", "contract", repr(log))
    else:
        from pyvc.interp import symbolic
        ok = [x[0] for x in log] in (["smol_inds", "poly_inds"], ["poly_inds"]) and all(
            x[2] is mu or (isinstance(mu, int)) or (hasattr(mu, "same") and mu.same(x[2])) for x in log) and all(
            lift(x[1]).same(lift(dd)) for x in log) and log[-1][0] == "poly_inds" and log[-1][3] in ("indices", None)
        eng.obl("index set of (d, mu) is built when none is given", "post", "ok" if ok else "refuted", "contract", repr(log))
    if deriv:
        if not (isinstance(got, tuple) and len(got) == 2):
            eng.obl("value and derivative are returned", "post", "refuted", "types", repr(type(got)))
            return
        B, dB = got
    else:
        B, dB = got, None
    if not shape_is(eng, B, (N, P)) or (deriv and not shape_is(eng, dB, (P, dd, N))):
        return

    def Tk(i):
        return app("T", [app("b", [j, i], "I") - 1, app("x", [k, i])])

    def dTk(i):
        n = app("b", [j, i], "I") - 1
        return n * indicator(cmp("<=", 1, n)) * app("U", [n - 1, app("x", [k, i])])

    if d is None:
        ix, body = instance(const(0), dd, Tk)
        want = prod_of(const(0), dd, ix, body)
    else:
        want = const(1)
        for i in range(d):
            want = want * Tk(const(i))
    eng.prove_eq(B[k, j], want, "entry: product of the indexed polynomials")
    if deriv:
        if d is None:
            def one(i):
                e = indicator(cmp("==", i, q))
                return e * dTk(i) + (1 - e) * Tk(i)
            ix, body = instance(const(0), dd, one)
            eng.prove_eq(dB[j, q, k], prod_of(const(0), dd, ix, body), "derivative: product with one factor differentiated")
        else:
            for q in range(d):
                want = dTk(const(q))
                for i in range(d):
                    if i != q:
                        want = want * Tk(const(i))
                eng.prove_eq(dB[j, q, k], want, "derivative along dimension %d" % q)


# ----------------------------------------------------------- concrete checks

def cheb(n, x, kind=1):
    """independent of the code: explicit power-basis coefficients"""
    x = np.asarray(x, dtype=float)
    if n < 0:
        return np.zeros_like(x)
    if kind == 1:
        return np.polynomial.chebyshev.chebval(x, [0.0] * n + [1.0])
    return np.polynomial.chebyshev.chebval(x, np.polynomial.chebyshev.chebder([0.0] * (n + 1) + [1.0])) / (n + 1)


def run_cheby(inp):
    rng = rng_of(inp["seed"])
    n, kind = inp["n"], inp["kind"]
    x = rng.uniform(-1.5, 1.5, tuple(inp["shape"])) if inp["shape"] else float(rng.uniform(-1.5, 1.5))
    x0 = np.copy(x)
    got = mod().cheby2n(x, n, kind=kind)
    want = np.array([cheb(k, x, int(kind)) for k in range(n + 1)])
    msg = close(got, want, rtol=1e-8, atol=1e-8)
    if msg:
        return "cheby2n(x, %d, kind=%g): %s" % (n, kind, msg)
    return None if np.array_equal(x, x0) else "the points were modified"


def run_B(inp):
    m = mod()
    rng = rng_of(inp["seed"])
    d, mu, N = inp["d"], inp["mu"], inp["N"]
    mu = mu if isinstance(mu, int) else np.array(mu)
    pts = rng.uniform(-1, 1, (N, d))
    if inp.get("zeros"):
        pts[0, 0] = 0.0
    p0 = pts.copy()
    inds = m.poly_inds(d, mu)
    if inp["given"]:
        pick = [inds[i] for i in rng.permutation(len(inds))][: max(1, len(inds) // 2)]
    else:
        pick = inds
    got = m.build_B(d, mu, pts, pick if inp["given"] else None, inp["deriv"])
    B, dB = got if inp["deriv"] else (got, None)
    want = np.array([[np.prod([cheb(c[i] - 1, pts[k, i]) for i in range(d)]) for c in pick] for k in range(N)])
    msg = close(B, want)
    if msg:
        return "build_B(%d, %s): %s" % (d, inp["mu"], msg)
    if dB is not None:
        want = np.array([[[np.prod([(c[i] - 1) * cheb(c[i] - 2, pts[k, i], 2) if i == q else cheb(c[i] - 1, pts[k, i])
                                    for i in range(d)]) for k in range(N)] for q in range(d)] for c in pick])
        msg = close(dB, want)
        if msg:
            return "derivative of build_B(%d, %s): %s" % (d, inp["mu"], msg)
    return None if np.array_equal(pts, p0) else "the points were modified"


def units(tier):
    out = []
    for rank, kind in itertools.product((0, 1, 2), (None, 1.0, 2.0)):
        def draw(rng, rank=rank, kind=kind):
            return {"n": int(rng.integers(0, 12)), "kind": 1.0 if kind is None else kind,
                    "shape": [int(rng.integers(1, 4)) for _ in range(rank)], "seed": int(rng.integers(1 << 30))}
        out.append(Unit("cheby2n points of rank %d kind=%s" % (rank, kind),
                        prove=[lambda eng, r=rank, k=kind: prove_cheby(eng, r, k, False)], draw=draw, run=run_cheby, cost=2))
    for kind in (1.0, 2.0):
        for n in (0, 1, 2, 5, 17) + ((33,) if tier == "thorough" else ()):
            out.append(Unit("cheby2n explicit polynomials kind=%g n=%d" % (kind, n),
                            prove=[lambda eng, k=kind, n=n: prove_explicit(eng, k, n)], cases=0,
                            level="bounded: degree up to %d (any points)" % n))
    out.append(Unit("lemma: derivative of T_n is n U_(n-1)", prove=[prove_lemma], cases=0))
    for d, mukind, given, deriv in itertools.product((None, 1, 2, 3, 4), ("int", "array"), (True, False), (False, True)):
        def draw(rng, d=d, mukind=mukind, given=given, deriv=deriv):
            n = d if d and d > 1 else int(rng.integers(2, 4))
            mu = int(rng.integers(1, 4)) if mukind == "int" else [int(rng.integers(1, 4)) for _ in range(n)]
            return {"d": n, "mu": mu, "N": int(rng.integers(1, 4)), "given": given, "deriv": deriv,
                    "seed": int(rng.integers(1 << 30)), "zeros": bool(rng.integers(2))}
        nm = "build_B d=%s mu=%s %s%s" % ("any" if d is None else d, mukind, "given indices" if given else "own indices",
                                          " with derivative" if deriv else "")
        out.append(Unit(nm, prove=[lambda eng, a=(d, mukind, given, deriv): prove_B(eng, *a)], draw=draw, run=run_B,
                        cases=3, cost=3, level="proved" if d is None else "bounded: %d dimensions (any points, any index set)" % d))
    return out
