"""C18: the recursive B-spline basis function."""
import importlib

import numpy as np

from .base import Unit, close, rng_of
from .spl import check_frozen, int_sym, make_array

ASSUMPTIONS = [
    "knots are strictly increasing",
    "induction over the order: the recursive call is checked against the contract of B at order p-1 (values >= 0, zero "
    "outside [u_i, u_{i+p}), Cox-de Boor value); the obligations prove the contract at order p from it",
    "a telescoping sum of D(q) - D(q+1) over q = k-p..k is D(k-p) - D(k+1)",
]
B_LABEL = "interpolation/splines/basis_splines.py:B"


def mod():
    return importlib.import_module("interpolation.splines.basis_splines")


def knots(eng, m):
    """m strictly increasing knots"""
    from pyvc.terms import app, cmp
    seen = []

    def watch(t, args):
        ix = args[0]
        for iy, v in seen:
            if iy.same(ix):
                return
        for iy, v in list(seen):
            if eng.entails(cmp("<", ix, iy)):
                eng.assume(t < v)
            elif eng.entails(cmp("<", iy, ix)):
                eng.assume(v < t)
        seen.append((ix, t))
    eng.app_watch["u"] = watch
    return make_array(eng, "u", (m,))


def contract(eng, m, p, x):
    """what is known of B(p-1, u, i, x)"""
    from pyvc.terms import app, cmp, const, lift

    def call(p2, u2, i, x2):
        i, p2 = lift(i), lift(p2)
        eng.prove(p2 >= 0, "the order of a recursive call is not negative", "pre")
        eng.prove(p2 < p, "the order decreases", "pre")
        eng.prove(i >= 0, "the recursive call is inside the knots", "pre")
        eng.prove(i + p2 + 1 <= m - 1, "the recursive call is inside the knots", "pre")
        eng.prove_eq(x2, x, "the point is passed on", "pre")
        eng.obl("the knots are passed on", "pre", "ok" if getattr(getattr(u2, "store", None), "name", None) == "u" else
                "refuted", "heap", "")
        v = app("N", [p2, i])
        lo, hi = u2[i], u2[i + p2 + 1]
        eng.assume(v >= 0)
        if eng.entails(cmp("<", x, lo)) or eng.entails(cmp("<=", hi, x)):
            return const(0, "R")
        return v
    return call


def setup(eng, low, order=None):
    from pyvc.terms import lift, real
    p = int_sym(eng, "p") if order is None else lift(order)
    if order is None:
        eng.assume(p >= 1)
    i, m = int_sym(eng, "i"), int_sym(eng, "m")
    eng.assume(i >= low)
    eng.assume(i + p + 1 <= m - 1)
    u = knots(eng, m)
    x = real("x")
    eng.contracts[B_LABEL] = contract(eng, m, p, x)
    return p, i, m, u, x


def prove_step(eng, where):
    """B(p, u, i, x) for every p >= 1, the recursive call replaced by its contract"""
    from pyvc.interp import run
    from pyvc.terms import app, const
    p, i, m, u, x = setup(eng, 0)
    ui, uip, ui1, uip1 = u[i], u[i + p], u[i + 1], u[i + p + 1]
    N = lambda k: app("N", [p - 1, k])
    if where == "left":
        eng.assume(x < ui)
    elif where == "right":
        eng.assume(x >= uip1)
    elif where == "inside":
        eng.assume(x >= ui)
        eng.assume(x < uip1)
    got = run(mod().B, (p, u, i, x), {})
    a, b = N(i), N(i + 1)
    for v, lo, hi in ((a, ui, uip), (b, ui1, uip1)):
        eng.assume(v >= 0)
    if where == "any":
        want = (x - ui) / (uip - ui) * a + (uip1 - x) / (uip1 - ui1) * b
        # the two values may also be known to vanish
        if eng.entails(x < ui) or eng.entails(x >= uip):
            want = want - (x - ui) / (uip - ui) * a
        if eng.entails(x < ui1) or eng.entails(x >= uip1):
            want = want - (uip1 - x) / (uip1 - ui1) * b
        eng.prove_eq(got, want, "Cox-de Boor recursion")
    elif where in ("left", "right"):
        eng.prove_eq(got, 0, "zero outside of the knot span")
    else:
        if x < ui1:
            eng.prove(got * (uip - ui) >= 0, "not negative in the first knot interval")
        elif x >= uip:
            eng.prove(got * (uip1 - ui1) >= 0, "not negative in the last knot interval")
        else:
            # both terms: each is a product of numbers that are not negative
            w, v = (x - ui) / (uip - ui), (uip1 - x) / (uip1 - ui1)
            eng.prove((x - ui) >= 0, "the first weight is not negative")
            eng.prove((uip1 - x) >= 0, "the second weight is not negative")
            eng.prove_eq(got, w * a + v * b, "a sum of products of numbers that are not negative")
    check_frozen(eng)


def prove_base(eng):
    """order 0"""
    from pyvc.interp import run
    p, i, m, u, x = setup(eng, 0, 0)
    ui, ui1 = u[i], u[i + 1]
    got = run(mod().B, (0, u, i, x), {})
    if x < ui:
        eng.prove_eq(got, 0, "order 0 is zero in front of its interval")
    elif x < ui1:
        eng.prove_eq(got, 1, "order 0 is one on its interval")
    else:
        eng.prove_eq(got, 0, "order 0 is zero behind its interval")


def prove_unity(eng, what):
    """sum over q = k-p..k of B(p, u, q, x) from the sum of order p-1; u_k <= x < u_{k+1}"""
    from pyvc.interp import run
    from pyvc.terms import app, const, integer, real
    p, k, m = int_sym(eng, "p"), int_sym(eng, "k"), int_sym(eng, "m")
    eng.assume(p >= 1)
    eng.assume(k - p >= 0)
    eng.assume(k + p + 1 <= m - 1)
    u = knots(eng, m)
    x = real("x")
    eng.contracts[B_LABEL] = contract(eng, m, p, x)
    uk, uk1 = u[k], u[k + 1]
    eng.assume(x >= uk)
    eng.assume(x < uk1)
    from pyvc.interp import start
    N = lambda j: start(mod().B, p - 1, u, j, x)
    w = lambda j: (x - u[j]) / (u[j + p] - u[j])
    if what == "middle":
        q = int_sym(eng, "q")
        eng.assume(q >= k - p)
        eng.assume(q <= k)
        # u_{q+1+p} is only needed where B uses it
        got = run(mod().B, (p, u, q, x), {})
        D = lambda j: w(j) * N(j)
        eng.prove_eq(got - N(q + 1), D(q) - D(q + 1), "B_{p,q} - B_{p-1,q+1} telescopes")
    elif what == "ends":
        eng.prove_eq(N(k - p), 0, "the first function of the lower order vanishes at the point")
        eng.prove_eq(N(k + 1), 0, "the last function of the lower order vanishes at the point")


def prove_full(eng, p, what):
    """explicit order: the whole recursion is executed"""
    from pyvc.interp import start
    from pyvc.terms import const, real
    k, m = int_sym(eng, "k"), int_sym(eng, "m")
    eng.assume(k - p - 1 >= 0)
    eng.assume(k + p + 2 <= m - 1)
    u = knots(eng, m)
    x = real("x")
    eng.assume(x >= u[k])
    eng.assume(x < u[k + 1])
    B = mod().B
    tot = const(0, "R")
    for j in range(p + 1):
        v = start(B, p, u, k - p + j, x)
        tot = tot + v
        if what == "values":
            eng.prove_eq(v, recursion(p, u, k - p + j, k, x), "value of function %d of %d at the point" % (j, p + 1))
    if what == "unity":
        eng.prove_eq(tot, 1, "the functions of order %d sum to one" % p)
        eng.prove_eq(start(B, p, u, k - p - 1, x), 0, "the function that ends at the interval is zero")
        eng.prove_eq(start(B, p, u, k + 1, x), 0, "the function that begins after the interval is zero")


def recursion(p, u, i, k, x):
    """Cox-de Boor, x in [u_k, u_{k+1})"""
    from pyvc.terms import const, lift
    if p == 0:
        d = lift(i) - k
        return const(1 if d.is_const() and d.const() == 0 else 0, "R")
    return ((x - u[i]) / (u[i + p] - u[i]) * recursion(p - 1, u, i, k, x)
            + (u[i + p + 1] - x) / (u[i + p + 1] - u[i + 1]) * recursion(p - 1, u, i + 1, k, x))


# ---------------------------------------------------------------- concrete

def oracle(p, u, x):
    """all basis functions of order p at x, by the triangular scheme in exact arithmetic"""
    from fractions import Fraction
    u = [Fraction(float(v)) for v in u]
    x = Fraction(float(x))
    N = [Fraction(int(u[i] <= x < u[i + 1])) for i in range(len(u) - 1)]
    for q in range(1, p + 1):
        N = [(x - u[i]) / (u[i + q] - u[i]) * N[i] + (u[i + q + 1] - x) / (u[i + q + 1] - u[i + 1]) * N[i + 1]
             for i in range(len(N) - 1)]
    return [float(v) for v in N]


def run(inp):
    rng = rng_of(inp["seed"])
    p, m = inp["p"], inp["m"]
    u = np.cumsum(rng.uniform(0.2, 1.5, m)) * 10.0 ** int(rng.integers(-2, 3)) + rng.uniform(-5, 5)
    if inp["kind"] == "list":
        u = [float(v) for v in u]
    B = mod().B
    pts = list(rng.uniform(u[0] - 1, u[-1] + 1, 4)) + [u[int(rng.integers(m))], u[0], u[-1], u[p], u[m - p - 1]]
    keep = list(u)
    for x in pts:
        x = float(x)
        want = oracle(p, u, x)
        got = [B(p, u, i, x) for i in range(m - p - 1)]
        msg = close(np.array(got), np.array(want), scale=1.0)
        if msg:
            return "B(%d, u, i, %r): %s, knots %r" % (p, x, msg, list(map(float, u)))
        for i, v in enumerate(got):
            if v < -1e-12 or ((x < u[i] or x >= u[i + p + 1]) and v != 0):
                return "B(%d, u, %d, %r) = %r, knots %r" % (p, i, x, v, list(map(float, u)))
        if u[p] <= x < u[m - p - 1] and abs(sum(got) - 1) > 1e-9:
            return "sum of B(%d, u, i, %r) is %r, knots %r" % (p, x, sum(got), list(map(float, u)))
    if list(u) != keep:
        return "the knots were modified"
    return None


def units(tier):
    out = []

    def draw(p):
        return lambda rng: {"p": p if p is not None else int(rng.integers(0, 10)), "kind": "list" if rng.integers(2) else "array",
                            "m": 2 * (p or 9) + int(rng.integers(2, 5)), "seed": int(rng.integers(1 << 30))}
    for w in ("any", "left", "right", "inside"):
        out.append(Unit("every order, point %s" % w, prove=[lambda eng, w=w: prove_step(eng, w)], draw=draw(None), run=run,
                        cases=6, max_paths=200))
    out.append(Unit("order 0", prove=[prove_base], draw=draw(0), run=run, cases=6))
    out.append(Unit("every order, partition of unity", prove=[lambda eng, w=w: prove_unity(eng, w) for w in ("middle", "ends")],
                    draw=draw(None), run=run, cases=6))
    for p in range(0, 5 if tier == "quick" else 6):
        out.append(Unit("order %d, the whole recursion" % p,
                        prove=[lambda eng, p=p, w=w: prove_full(eng, p, w) for w in ("values", "unity")],
                        draw=draw(p), run=run, cases=4, budget=200, level="bounded: order %d" % p))
    return out
