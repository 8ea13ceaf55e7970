"""C14: Smolyak index sets and sparse grids."""
import importlib
import itertools
from math import comb as binom

import numpy as np

from .base import Unit, close, rng_of
from .c10 import refused
from .c13 import GRID, m_of
from .spl import check_frozen, int_sym

UTIL = "interpolation/smolyak/util.py:"


def mod():
    return importlib.import_module("interpolation.smolyak.grid")


def util():
    return importlib.import_module("interpolation.smolyak.util")


# -------------------------------------------------------------- closed forms

def prove_m(eng):
    from pyvc.interp import start
    from pyvc.terms import lift
    i = int_sym(eng, "i")
    if bool(i < 0):
        refused(eng, lambda: start(mod().m_i, i), ValueError, "a negative index")
        return
    got = lift(start(mod().m_i, i))
    if bool(i == 0):
        eng.prove_eq(got, 0, "m(0) = 0")
    elif bool(i == 1):
        eng.prove_eq(got, 1, "m(1) = 1")
    else:
        eng.prove_eq(got, lift(2) ** (i - 1) + 1, "m(i) = 2^(i-1) + 1")


def m_values(eng):
    from pyvc.interp import start
    from pyvc.terms import lift
    for i in range(0, 40):
        eng.prove_eq(lift(start(mod().m_i, i)), m_of(i), "m(%d)" % i)


def binomial(d, k):
    out = 1
    for q in range(k):
        out = out * (d - q) / (q + 1)
    return out


def counts(mu):
    """number of ways, by the number k of dimensions with index > 1, of the points
    of an isotropic grid: sum over k of C(d, k) * counts(mu)[k]"""
    out = {}
    for k in range(mu + 1):
        tot = 0
        for parts in itertools.product(range(1, mu + 1), repeat=k):
            if sum(parts) <= mu:
                p = 1
                for e in parts:
                    p *= m_of(e + 1) - m_of(e)
                tot += p
        out[k] = tot
    return out


def prove_count(eng, mu):
    from pyvc.interp import start
    from pyvc.terms import const, lift
    d = int_sym(eng, "d")
    eng.assume(d >= 1)
    got = lift(start(mod().num_grid_points, d, mu))
    want = const(0, "R")
    for k, c in counts(mu).items():
        want = want + c * binomial(lift(d), k)
    eng.prove_eq(got, want, "number of points = sum over the disjoint products")


def prove_phi(eng):
    """keys 1, 2 and every i in 3..n; entry i is 2^(i-2)+2 .. 2^(i-1)+1"""
    from pyvc.interp import SymRange, start
    from pyvc.terms import cmp, lift
    n = int_sym(eng, "n")
    eng.assume(n >= 1)
    got = start(mod().phi_chain, n)
    one = isinstance(got, dict) and set(dict.keys(got)) == {1, 2} and [int(x) for x in dict.__getitem__(got, 1)] == [1] \
        and [int(x) for x in dict.__getitem__(got, 2)] == [2, 3]
    eng.obl("blocks 1 and 2", "post", "ok" if one else "refuted", "types", repr(got))
    gen = getattr(got, "generic", [])
    if not bool(n >= 3):
        eng.obl("no further block", "post", "ok" if not gen else "refuted", "types", repr(gen))
        return
    if len(gen) != 1:
        eng.obl("one block per index", "post", "refuted", "types", repr(gen))
        return
    _, i, lo, hi, v = gen[0]
    eng.prove_eq(lo, 3, "first block of the loop")
    eng.prove_eq(hi, n + 1, "last block is that of n")
    if not isinstance(v, SymRange):
        eng.obl("blocks are ranges", "post", "refuted", "types", repr(v))
        return
    eng.assume(cmp("<=", lo, i))
    eng.assume(cmp("<", i, hi))
    eng.prove_eq(v.step, 1, "consecutive subscripts")
    eng.prove_eq(lift(v.hi), lift(2) ** (i - 1) + 2, "the block ends at m(i)")
    j = i - 1
    eng.prove_eq(lift(v.lo), lift(2) ** (j - 1) + 2, "the block starts after m(i-1)")


def phi_values(eng):
    from pyvc.interp import start
    for n in range(1, 11):
        got = start(mod().phi_chain, n)
        want = {i: list(range(m_of(i - 1) + 1, m_of(i) + 1)) for i in range(1, max(n, 2) + 1)}
        ok = {k: [int(x) for x in v] for k, v in got.items()} == want
        eng.obl("blocks up to %d" % n, "post", "ok" if ok else "refuted", "evaluation", repr(got)[:300])


# ------------------------------------- the index sets, any dimension and density

def setting(eng, aniso):
    from pyvc import arrays as A
    from pyvc.terms import cmp, const, integer
    d, top = int_sym(eng, "d"), integer("mumax")
    eng.assume(d >= 1)
    eng.assume(top >= 0)
    if not aniso:
        return d, top, top
    mu = A.input_array("mu", (d,), elem="I")
    eng.maxima[mu.store] = top

    def density(t, args):
        eng.assume(t >= 0)
        eng.assume(t <= top)
    eng.app_watch["mu"] = density
    return d, top, mu


def total_of(nm, d):
    from pyvc.binder import instance, sum_of
    from pyvc.terms import app, const
    q, e = instance(const(0), d, lambda q: app(nm, [q], "I"))
    return sum_of(const(0), d, q, e)


def use_enumerations(eng, d, sets):
    """Contracts of combinations_with_replacement, product over one range, and permute, for the vector v whose
    sorted form is w and for an arbitrary other vector."""
    from pyvc.binder import SymSeq
    from pyvc.interp import SymRange
    from pyvc.sets import Vec, holds_everywhere
    from pyvc.terms import Unsupported, app, cmp, conj, const, fresh_name, lift
    v, w, S = sets

    def members(xs, r, vec, what):
        eng.stats.trusted.add(what)
        f = cmp("==", lift(r), d)
        if not (f is True or (f is not False and eng.entails(f))):
            raise Unsupported("vectors of another length")
        if not (isinstance(xs, SymRange) and xs.step.is_const() and xs.step.const() == 1 and xs.item is None):
            raise Unsupported("vectors over something else than a range")
        lo, hi = lift(xs.lo), lift(xs.hi)
        inside = holds_everywhere(vec.compare("<=", hi - 1)) and holds_everywhere(vec.compare("<=", lo, True))
        nm = fresh_name("u")
        out = [Vec(nm, d, total_of(nm, d), other=True)]
        return out + ([vec] if inside else [])

    def combinations(xs, r):
        return members(xs, r, w, "itertools.combinations_with_replacement(range, d): every non-decreasing vector of d "
                                 "elements of the range, once")

    def product(*a, repeat=None):
        if len(a) != 1 or repeat is None:
            raise Unsupported("product")
        return members(a[0], repeat, v, "itertools.product(range, repeat=d): every vector of d elements of the range, once")

    def permute(x):
        eng.stats.contracts_used.add(UTIL + "permute (checked in this check for lists of up to 5 values)")
        if x is w:
            return [Vec(fresh_name("p"), d, S, other=True), v]
        if isinstance(x, Vec) and x.other:
            return [Vec(fresh_name("p"), d, x.sum_, other=True)]
        raise Unsupported("permutations of something else")
    eng.hooks["combinations_with_replacement"] = combinations
    eng.hooks["product"] = product
    eng.contracts[UTIL + "permute"] = permute


def prove_smol(eng, aniso, case):
    """an arbitrary vector of d integers occurs once if it is an index vector of the set, otherwise never"""
    from pyvc.binder import SymSeq
    from pyvc.interp import start
    from pyvc.sets import Rows, Vec, equal
    from pyvc.terms import Unsupported, app, cmp, integer
    d, top, mu = setting(eng, aniso)
    # lemma (arithmetic): if all elements are at least 1, the sum is at least d and at least any element plus d - 1
    pos = case != "low"
    S = integer("S")

    def facts(level):
        def watch(t, args):
            if pos:
                eng.assume(t >= 1)
                eng.assume(t + d - 1 <= S)
            if level and aniso and case == "in":
                eng.assume(t <= app("mu", [args[0]], "I") + 1)
        return watch
    eng.app_watch["v"] = facts(True)
    eng.app_watch["w"] = facts(False)
    for nm in ("v", "w"):
        eng.assume(cmp("==", total_of(nm, d), S))
    if pos:
        eng.assume(S >= d)
    if case == "in":
        eng.assume(S <= d + top)
    elif case == "far":
        eng.assume(S >= d + top + 1)
    k0, k1 = integer("k0"), integer("k1")
    for k in (k0, k1):
        eng.assume(k >= 0)
        eng.assume(k < d)
    if case == "low":
        eng.assume(app("v", [k0], "I") <= 0)
        eng.assume(app("w", [k1], "I") <= 0)
        eng.witnesses = [k0, k1]
    elif case == "high":
        eng.assume(app("v", [k0], "I") >= app("mu", [k0], "I") + 2)
        eng.witnesses = [k0]
    v, w = Vec("v", d, S), Vec("w", d, S)
    use_enumerations(eng, d, (v, w, S))
    got = start(mod().smol_inds, d, mu)
    if isinstance(got, Rows):
        got = got.rows
    check_frozen(eng)
    if not isinstance(got, (list, tuple)):
        raise Unsupported("the index vectors are not returned as a list")
    n = 0
    for x in got:
        if isinstance(x, Vec) and x.other:
            continue
        if not isinstance(x, SymSeq):
            eng.obl("vectors of d indices are listed", "post", "refuted", "types", repr(type(x)))
            return
        n += bool(equal(x, v))
    want = 1 if case == "in" else 0
    eng.obl("an index vector with entries >= 1, sum <= d + mu%s is listed exactly once" % (", entries <= mu_k + 1" if aniso else "")
            if want else {"low": "a vector with an entry below 1 is not listed", "far": "a vector with a larger sum is not listed",
                          "high": "a vector with an entry above mu_k + 1 is not listed"}[case],
            "post", "ok" if n == want else "refuted", "enumeration", "listed %d times" % n)


def prove_products(eng, what, aniso, case):
    """poly_inds / build_grid: the vector b whose entries belong to the one-dimensional sets v occurs once if v is in
    the index set, otherwise never"""
    from pyvc.binder import SymSeq
    from pyvc.interp import start
    from pyvc.sets import Choice, Packed, Rows, Vec, holds_everywhere
    from pyvc.terms import Unsupported, app, cmp, fresh_name, integer, lift
    d, top, mu = setting(eng, aniso)
    k1 = integer("k1")
    eng.assume(k1 >= 0)
    eng.assume(k1 < d)

    def level(t, args):
        eng.assume(t >= 1)
        eng.assume(t <= top + 1)
    eng.app_watch["u"] = level
    eng.app_watch["v"] = level
    eng.assume(cmp("!=", app("u", [k1], "I"), app("v", [k1], "I")))
    eng.witnesses = [k1]
    u, v = Vec("u", d, other=True), Vec("v", d)
    b = Vec("b", d, sort="I" if what == "poly_inds" else "R")
    inds = [u] + ([] if case == "out" else [v])
    asked = []

    def smol(dd, m):
        asked.append((dd, m))
        return list(inds)

    class Family:
        """i -> i-th set of the disjoint family with sets 1, ..., n"""

        def __init__(self, n):
            self.n = lift(n)

        def __getitem__(self, i):
            eng.prove(cmp("<=", 1, lift(i)), "the sets are numbered from 1", "pre")
            if not eng.entails(cmp("<=", lift(i), 2)):
                eng.prove(cmp("<=", lift(i), self.n), "all sets that occur are built", "pre")
            return Choice((lift(i),))

        def get(self, i, default=None):
            return self[i]

    def family(nm):
        def f(n):
            eng.stats.contracts_used.add(GRID + nm + " (checked in this check)")
            return Family(n)
        return f

    def product(*a, **k):
        eng.stats.trusted.add("itertools.product(*sets): every vector of elements of the sets, once")
        if k or len(a) != 1 or not isinstance(a[0], Packed):
            raise Unsupported("product")
        s = a[0].seq
        if isinstance(s, Vec):
            raise Unsupported("product of the indices themselves")
        f = cmp("==", s.length(), d)
        if not (f is True or (f is not False and eng.entails(f))) or not lift(s.lo).same(0):
            raise Unsupported("product over another number of sets")
        if not isinstance(s.value, Choice):
            raise Unsupported("product of other sets")
        lev = SymSeq(s.lo, s.hi, s.q, s.value[0])
        hit = holds_everywhere(v.compare("==", lev))
        return [Vec(fresh_name("r"), d, other=True)] + ([b] if hit else [])
    eng.contracts[GRID + "smol_inds"] = smol
    eng.contracts[GRID + "phi_chain"] = family("phi_chain")
    eng.contracts[GRID + "a_chain"] = family("a_chain")
    eng.hooks["product"] = product
    got = start(getattr(mod(), what), d, mu, *([] if case == "own" else [list(inds)]))
    check_frozen(eng)
    if case == "own":
        ok = len(asked) == 1 and lift(asked[0][0]).same(d) and asked[0][1] is mu
        eng.obl("the index set of (d, mu) is built when none is given", "post", "ok" if ok else "refuted", "contract", repr(asked))
    elif asked:
        raise Unsupported("the index set is built although one is given")
    if isinstance(got, Rows):
        got = got.rows
    if not isinstance(got, (list, tuple)):
        raise Unsupported("not returned as a list")
    n = 0
    for x in got:
        if x is b:
            n += 1
        elif not (isinstance(x, Vec) and x.other):
            eng.obl("only combinations of elements of the sets", "post", "refuted", "types", repr(type(x)))
            return
    want = 0 if case == "out" else 1
    eng.obl("a combination of elements of the sets of a listed index vector occurs exactly once" if want else
            "a combination that belongs to no listed index vector does not occur", "post", "ok" if n == want else "refuted",
            "enumeration", "occurs %d times" % n)


# ------------------------------------------------------------------- permute

def prove_permute(eng, n):
    """any values, in any order, with any coincidences"""
    from collections import Counter
    from math import factorial
    from pyvc.interp import start
    from pyvc.terms import cmp, real
    xs = [real("v%d" % i) for i in range(n)]
    # class of every value on this path
    rep = []

    def cls(t):
        for c, r in enumerate(rep):
            if t is r or t.same(r) or eng.entails(cmp("==", t, r)):
                return c
        rep.append(t)
        return len(rep) - 1
    given = list(xs)
    out = []
    for el in start(util().permute, given):
        out.append(list(el))
        if len(out) > factorial(n):
            break
    kinds = [cls(x) for x in xs]
    for a, b in itertools.combinations(rep, 2):
        if not eng.entails(cmp("!=", a, b)):
            # the code never compared them: both possibilities matter
            eng.decide(cmp("==", a, b))
            rep.clear()
            kinds = [cls(x) for x in xs]
    try:
        rows = [tuple(cls(x) for x in el) for el in out]
    except Exception as e:
        eng.obl("permutations of the values", "post", "refuted", "types", repr(e))
        return
    base = Counter(kinds)
    total = factorial(n)
    for c in base.values():
        total //= factorial(c)
    eng.obl("every output is a permutation of the input", "post",
            "ok" if all(Counter(r) == base for r in rows) else "refuted", "paths", repr(rows[:10]))
    eng.obl("no permutation twice", "post", "ok" if len(set(rows)) == len(rows) else "refuted", "paths", repr(rows[:10]))
    eng.obl("every permutation", "post", "ok" if len(rows) == total else "refuted", "paths", "%d of %d" % (len(rows), total))


# ----------------------------------------------------------------- the chains

def prove_chain(eng, n, level):
    """a_chain and build_grid's one-dimensional sets, for arbitrary nodes of S_n"""
    from pyvc.interp import start
    from pyvc.terms import lift, real
    size = m_of(n)
    S = np.empty(size, dtype=object)
    for k in range(size):
        S[k] = real("s%d" % k)
    asked = []

    def s_n(k):
        eng.stats.contracts_used.add(GRID + "s_n (checked in this check)")
        asked.append(int(k))
        if int(k) == n:
            return S.copy()
        out = np.empty(m_of(int(k)), dtype=object)
        step = 2 ** (n - int(k)) if int(k) > 1 else None
        for q in range(out.size):
            out[q] = S[q * step] if step else S[size // 2]
        return out
    eng.contracts[GRID + "s_n"] = s_n
    got = start(mod().a_chain, n)
    keys = sorted(int(k) for k in got.keys()) if isinstance(got, dict) else None
    ok = keys == list(range(1, max(n, 2) + 1))
    eng.obl("one set per index", "post", "ok" if ok else "refuted", "evaluation", repr(keys))
    if not ok:
        return
    ok = [float(lift(x).const()) for x in got[1]] == [0.0] and sorted(float(lift(x).const()) for x in got[2]) == [-1.0, 1.0]
    eng.obl("sets 1 and 2", "post", "ok" if ok else "refuted", "evaluation", repr((got[1], got[2])))
    for i in range(3, n + 1):
        want = [S[(2 * q + 1) * 2 ** (n - i)] for q in range(2 ** (i - 2))]
        el = list(got[i])
        ok = len(el) == len(want) and {lift(x).key() for x in el} == {lift(x).key() for x in want}
        eng.obl("set %d: the nodes of S_%d that are not in S_%d" % (i, i, i - 1), "post", "ok" if ok else "refuted",
                "evaluation", repr(el)[:200])


def extrema(i):
    """the extrema of T_(m(i)-1), independently of the code: 0, or the zeros of (1 - x^2) U_(m-2) bracketed by bisection"""
    if i == 1:
        return np.array([0.0])
    m = m_of(i)
    return np.array([-np.cos(np.pi * k / (m - 1)) if 2 * k != m - 1 else 0.0 for k in range(m)])


def check_sn(n):
    v = np.asarray(mod().s_n(n))
    m = m_of(n)
    if v.shape != (m,):
        return "s_n(%d) has shape %r" % (n, v.shape)
    if np.any(np.diff(v) <= 0):
        return "s_n(%d) is not increasing" % n
    if not np.array_equal(v, -v[::-1]) and np.max(np.abs(v + v[::-1])) > 1e-14:
        return "s_n(%d) is not symmetric" % n
    if v[m // 2] != 0.0:
        return "s_n(%d): the middle node is %r" % (n, v[m // 2])
    if n > 1 and (v[0] != -1.0 or v[-1] != 1.0):
        return "s_n(%d): the end nodes are %r, %r" % (n, v[0], v[-1])
    if np.max(np.abs(v - extrema(n))) > 1e-14:
        return "s_n(%d) does not hold the extrema" % n
    if n > 1:
        # the defining property: |T_(m-1)| = 1 with alternating signs
        N = m - 1
        t = np.cos(N * np.arccos(np.clip(v, -1, 1)))
        if np.max(np.abs(t - (-1.0) ** (np.arange(m) + N))) > 1e-6:
            return "s_n(%d): T_%d does not alternate between -1 and 1 on the nodes" % (n, N)
    return None


def sn_values(eng):
    for n in range(1, 13):
        msg = check_sn(n)
        eng.obl("nodes of S_%d" % n, "post", "ok" if msg is None else "refuted", "evaluation", msg or "", {"n": n})


# ------------------------------------------------------------ the index sets

def mu_of(mu):
    return mu if isinstance(mu, int) else np.array(mu)


def want_inds(d, mu):
    top = mu if isinstance(mu, int) else max(mu)
    out = set()

    def rec(pre, left):
        if len(pre) == d:
            out.add(tuple(pre))
            return
        k = len(pre)
        cap = top if isinstance(mu, int) else mu[k]
        for e in range(0, min(left, cap) + 1):
            rec(pre + [e + 1], left - e)
    rec([], top)
    return out


def check_inds(d, mu):
    got = [tuple(int(x) for x in el) for el in mod().smol_inds(d, mu_of(mu))]
    want = want_inds(d, mu)
    if len(set(got)) != len(got):
        dup = [g for g in got if got.count(g) > 1][0]
        return "smol_inds(%d, %r): %r appears more than once" % (d, mu, dup)
    if set(got) != want:
        x = sorted(set(got) ^ want)[0]
        return "smol_inds(%d, %r): %r is %s" % (d, mu, x, "missing" if x in want else "not admissible")
    return None


def check_poly(d, mu):
    want = set()
    for el in want_inds(d, mu):
        want.update(itertools.product(*[range(m_of(i - 1) + 1, m_of(i) + 1) for i in el]))
    for given in (None, mod().smol_inds(d, mu_of(mu))):
        got = [tuple(int(x) for x in el) for el in mod().poly_inds(d, mu_of(mu), given)]
        if len(got) != len(set(got)):
            return "poly_inds(%d, %r): a basis polynomial appears twice" % (d, mu)
        if set(got) != want:
            x = sorted(set(got) ^ want)[0]
            return "poly_inds(%d, %r): %r is %s" % (d, mu, x, "missing" if x in want else "not admissible")
    return None


def check_grid(d, mu):
    m = mod()
    top = mu if isinstance(mu, int) else max(mu)
    if top == 0:
        return None
    S = extrema(top + 1)
    lev = {}        # node number in the finest set -> first set that holds it
    n = len(S)
    for i in range(top + 1, 0, -1):
        for k in range(m_of(i)):
            lev[k * 2 ** (top + 1 - i) if i > 1 else n // 2] = i
    want = {}
    for el in want_inds(d, mu):
        for c in itertools.product(*[[k for k in lev if lev[k] == i] for i in el]):
            want[c] = el
    given = m.smol_inds(d, mu_of(mu))
    for inds in (None, given):
        g = np.asarray(m.build_grid(d, mu_of(mu), inds))
        if g.ndim != 2 or g.shape[1] != d:
            return "build_grid(%d, %r) has shape %r" % (d, mu, g.shape)
        rows = []
        for p in g:
            c = tuple(int(np.argmin(np.abs(S - x))) for x in p)
            if np.max(np.abs(S[list(c)] - p)) > 1e-14:
                return "build_grid(%d, %r): %r is not made of Chebyshev extrema" % (d, mu, p.tolist())
            rows.append(c)
        if len(set(rows)) != len(rows):
            return "build_grid(%d, %r): a point appears twice" % (d, mu)
        if set(rows) != set(want):
            x = sorted(set(rows) ^ set(want))[0]
            return "build_grid(%d, %r): the point %r is %s" % (d, mu, S[list(x)].tolist(), "missing" if x in want else "not admissible")
        if len(np.unique(g, axis=0)) != len(g):
            return "build_grid(%d, %r): two rows are equal" % (d, mu)
    if len(rows) != len(m.poly_inds(d, mu_of(mu))):
        return "%d points for %d basis polynomials, d=%d, mu=%r" % (len(rows), len(m.poly_inds(d, mu_of(mu))), d, mu)
    if isinstance(mu, int):
        tot = sum(c * binom(d, k) for k, c in counts(mu).items())
        if len(rows) != tot:
            return "%d points, closed form %d, d=%d, mu=%d" % (len(rows), tot, d, mu)
        if 1 <= mu <= 3 and m.num_grid_points(d, mu) != tot:
            return "num_grid_points(%d, %d) = %r, the grid has %d" % (d, mu, m.num_grid_points(d, mu), tot)
    return None


def check_nested(d, mu):
    m = mod()
    a = np.asarray(m.build_grid(d, mu_of(mu)))
    bigger = [mu + 1] if isinstance(mu, int) else [[x + (k == q) for k, x in enumerate(mu)] for q in range(d)]
    for b in bigger:
        g = np.asarray(m.build_grid(d, mu_of(b)))
        for p in a:
            if not np.any(np.max(np.abs(g - p), axis=1) < 1e-13):
                return "the point %r of the grid (%d, %r) is not in the grid (%d, %r)" % (p.tolist(), d, mu, d, b)
    return None


def check_class(d, mu):
    sg = mod().SmolyakGrid(d, mu_of(mu))
    if {tuple(map(int, e)) for e in sg.inds} != want_inds(d, mu):
        return "SmolyakGrid(%d, %r).inds" % (d, mu)
    g = np.asarray(mod().build_grid(d, mu_of(mu)))
    if len(sg.pinds) != len(sg.cube_grid) or sg.cube_grid.shape != g.shape or \
            len(np.unique(np.concatenate([np.round(sg.cube_grid, 12), np.round(g, 12)]), axis=0)) != len(g):
        return "SmolyakGrid(%d, %r): grid of %d points, %d basis polynomials" % (d, mu, len(sg.cube_grid), len(sg.pinds))
    if np.linalg.matrix_rank(np.asarray(sg.B)) != len(sg.pinds):
        return "SmolyakGrid(%d, %r): the basis does not determine values on the grid" % (d, mu)
    return None


CHECKS = {"indices": check_inds, "basis": check_poly, "grid": check_grid, "nested": check_nested, "class": check_class}


def mucases(d, top, cap):
    out = [m for m in range(1, top + 1) if len(want_inds(d, m)) <= cap]
    ani = [list(v) for v in itertools.product(range(1, top + 1), repeat=d)]
    return out + [v for v in ani if len(want_inds(d, v)) <= cap]


def size_ok(d, mu, cap=1500):
    n = 0
    for el in want_inds(d, mu):
        p = 1
        for i in el:
            p *= m_of(i) - m_of(i - 1)
        n += p
    return n <= cap


def enumerate_unit(name, what, cases):
    def prove(eng):
        for d, mu in cases:
            try:
                msg = CHECKS[what](d, mu)
            except Exception as e:
                msg = "raised %s: %s" % (type(e).__name__, e)
            eng.obl("%s, d=%d mu=%r" % (name, d, mu), "post", "ok" if msg is None else "refuted", "evaluation", msg or "",
                    {"d": d, "mu": mu})
            if msg:
                return

    def run(inp):
        return CHECKS[what](inp["d"], inp["mu"])

    def draw(rng):
        d, mu = cases[int(rng.integers(len(cases)))]
        return {"d": d, "mu": mu}

    return Unit(name, prove=[prove], draw=draw, run=run, model=lambda m, rng: m, cases=6, cost=4,
                level="bounded: %d pairs (d, mu) enumerated" % len(cases))


def draw_mu(rng):
    d = int(rng.integers(2, 7))
    mu = int(rng.integers(1, 5)) if rng.integers(2) else [int(rng.integers(1, 4)) for _ in range(d)]
    while not size_ok(d, mu, 800):
        d = max(2, d - 1)
        mu = min(mu, 3) if isinstance(mu, int) else mu[:d]
        if d == 2 and isinstance(mu, int):
            mu = min(mu, 4)
            break
    return {"d": d, "mu": mu}


def run_all(inp):
    for f in (check_inds, check_poly, check_grid):
        msg = f(inp["d"], inp["mu"])
        if msg:
            return msg
    return None


def run_m(inp):
    i = inp["i"]
    if i < 0:
        try:
            mod().m_i(i)
        except ValueError:
            return None
        return "m_i(%d) is not refused" % i
    return None if mod().m_i(i) == m_of(i) else "m_i(%d) = %r" % (i, mod().m_i(i))


def run_count(inp):
    got = mod().num_grid_points(inp["d"], inp["mu"])
    want = sum(c * binom(inp["d"], k) for k, c in counts(inp["mu"]).items())
    return None if got == want else "num_grid_points(%d, %d) = %r instead of %d" % (inp["d"], inp["mu"], got, want)


def run_phi(inp):
    n = inp["n"]
    got = {k: list(v) for k, v in mod().phi_chain(n).items()}
    want = {i: list(range(m_of(i - 1) + 1, m_of(i) + 1)) for i in range(1, max(n, 2) + 1)}
    return None if got == want else "phi_chain(%d) = %r" % (n, got)


def run_permute(inp):
    a = list(inp["a"])
    got = [tuple(x) for x in util().permute(list(a))]
    want = set(itertools.permutations(a))
    if len(got) != len(set(got)):
        return "permute(%r): a permutation appears twice" % (a,)
    return None if set(got) == want else "permute(%r): %d permutations instead of %d" % (a, len(set(got)), len(want))


def run_chain(inp):
    n = inp["n"]
    S = np.asarray(mod().s_n(n))
    got = mod().a_chain(n)
    if sorted(got) != list(range(1, max(n, 2) + 1)):
        return "a_chain(%d) has keys %r" % (n, sorted(got))
    for i in got:
        want = {float(extrema(1)[0])} if i == 1 else {-1.0, 1.0} if i == 2 else \
            {float(S[(2 * q + 1) * 2 ** (n - i)]) for q in range(2 ** (i - 2))}
        if len(got[i]) != len(want) or {float(x) for x in got[i]} != want:
            return "a_chain(%d)[%d] = %r" % (n, i, got[i])
    return None


def units(tier):
    deep = tier == "thorough"
    out = [
        Unit("m_i, every i", prove=[prove_m], draw=lambda rng: {"i": int(rng.integers(-5, 40))}, run=run_m, cases=20),
        Unit("m_i values", prove=[m_values], cases=0, level="bounded: i < 40"),
        Unit("phi_chain, every n", prove=[prove_phi], draw=lambda rng: {"n": int(rng.integers(1, 11))}, run=run_phi, cases=12),
        Unit("phi_chain values", prove=[phi_values], cases=0, level="bounded: n <= 10"),
        Unit("s_n", prove=[sn_values], draw=lambda rng: {"n": int(rng.integers(1, 13))}, run=lambda inp: check_sn(inp["n"]),
             model=lambda m, rng: m, cases=8, level="bounded: n <= 12, evaluated in floating point"),
    ]
    for aniso in (False, True):
        tag = "anisotropic" if aniso else "isotropic"
        for case in ("in", "low", "far") + (("high",) if aniso else ()):
            out.append(Unit("smol_inds, every d and mu, %s, %s" % (tag, case),
                            prove=[lambda eng, a=aniso, c=case: prove_smol(eng, a, c)], cases=0))
        for what in ("poly_inds", "build_grid"):
            for case in ("given", "own", "out"):
                out.append(Unit("%s, every d and mu, %s, %s" % (what, tag, case),
                                prove=[lambda eng, a=aniso, c=case, f=what: prove_products(eng, f, a, c)], cases=0))
    for mu in (1, 2, 3):
        out.append(Unit("num_grid_points, every d, mu=%d" % mu, prove=[lambda eng, m=mu: prove_count(eng, m)],
                        draw=lambda rng, m=mu: {"d": int(rng.integers(1, 60)), "mu": m}, run=run_count, cases=12))
    for n in range(2, 7 if deep else 6):
        out.append(Unit("permute, %d values" % n, prove=[lambda eng, n=n: prove_permute(eng, n)],
                        draw=lambda rng, n=n: {"a": [int(rng.integers(0, 4)) for _ in range(n)]}, run=run_permute, cases=8,
                        cost=n ** 2, max_paths=6000, level="bounded: %d values (any values, all coincidences)" % n))
    for n in range(1, 10 if deep else 8):
        out.append(Unit("a_chain n=%d" % n, prove=[lambda eng, n=n: prove_chain(eng, n, None)],
                        draw=lambda rng, n=n: {"n": n}, run=run_chain, cases=1, level="bounded: n = %d (any nodes)" % n))
    ds = {2: (7, 500), 3: (5, 500), 4: (4, 400), 5: (3, 300), 6: (2, 300)}
    if deep:
        ds = {2: (9, 900), 3: (6, 900), 4: (5, 900), 5: (4, 700), 6: (3, 700), 7: (2, 500)}
    for d, (top, cap) in ds.items():
        cases = mucases(d, top, cap)
        for part in range(0, len(cases), 150):
            cs = cases[part:part + 150]
            tag = "" if len(cases) <= 150 else " part %d" % (part // 150 + 1)
            out.append(enumerate_unit("smol_inds d=%d%s" % (d, tag), "indices", [(d, c) for c in cs]))
            cs2 = [c for c in cs if size_ok(d, c)]
            out.append(enumerate_unit("poly_inds d=%d%s" % (d, tag), "basis", [(d, c) for c in cs2]))
            out.append(enumerate_unit("build_grid d=%d%s" % (d, tag), "grid", [(d, c) for c in cs2 if size_ok(d, c, 800)]))
        small = [c for c in cases if size_ok(d, c, 250)]
        out.append(enumerate_unit("nested in mu, d=%d" % d, "nested", [(d, c) for c in small[:40]]))
        out.append(enumerate_unit("SmolyakGrid d=%d" % d, "class", [(d, c) for c in cases if size_ok(d, c, 150)][:25]))
    for u in out:
        u.case_limit = 60
        u.budget = 100
    out.append(Unit("whole construction, drawn d and mu", draw=draw_mu, run=run_all, cases=12, prove=None))
    return out
