"""Finite sums and products of symbolic length.

SUM(lo, hi, body) and PROD(lo, hi, body) are atoms whose body mentions a bound
index $q<level>, the level being one more than the deepest bound index of the
body (so that substitution cannot capture).  SUM is kept linear: one monomial
per body, factors free of the bound index pulled out."""
import itertools

from . import arrays as A
from .terms import (ATOMS, B, HOOK, T, Unsupported, app, atom, cmp, conj, const, div, fresh_name, integer, is_zero,
                    lift, of_atom)


def bound(level):
    return of_atom(atom("sym", "$q%d" % level, "I"))


def level_of(t):
    n = -1
    for a in t.atoms_deep():
        nm = ATOMS[a].name
        if nm.startswith("$q"):
            n = max(n, int(nm[2:]))
    return n


def instance(lo, hi, fn, expect=None):
    """fn at an arbitrary index of [lo, hi): (index symbol, value).  Facts about
    the index are forgotten afterwards; branches on it are refused."""
    eng = HOOK.engine
    q = integer(fresh_name("b"))
    a = A.aid(q)
    keep = (list(eng.facts), dict(eng.signs), set(eng.inv_seen), dict(eng.gid), dict(eng.gfacts))
    nf = len(eng.nforks)
    rng = conj(cmp("<=", lo, q), cmp("<", q, hi))
    empty = False
    if rng is False or (rng is not True and eng.entails(cmp("<=", hi, lo))):
        empty = True
    eng.loopvars.append(q)
    eng.binders.append(a)
    try:
        if not empty and rng is not True:
            eng.assume(rng)
        v = None if empty else fn(q)
    finally:
        eng.loopvars.pop()
        eng.binders.pop()
    forks = eng.nforks[nf:]
    if any(a in f.atoms_deep() for f in forks):
        raise Unsupported("branch on the index of a sum or comprehension")
    eng.facts, eng.signs, eng.inv_seen, eng.gid, eng.gfacts = keep
    eng.ent_cache = {}
    eng._sv = (-1, {})
    for f in forks:
        eng.assume(f)
    return q, v


def _close(q, body):
    """replace the index symbol by a bound one"""
    n = level_of(body) + 1
    return body.subst({A.aid(q): bound(n)})


def sum_of(lo, hi, q, body):
    lo, hi, body = lift(lo), lift(hi), lift(body)
    n = hi - lo
    a = A.aid(q)
    if n.is_const():
        tot = const(0)
        for k in range(max(0, int(n.const()))):
            tot = tot + body.subst({a: lo + k})
        return T(tot.p, body.sort)
    tot = const(0)
    for m, c in body.p.items():
        out, ins = [], []
        for x, e in m:
            (ins if a in ATOMS[x].deep else out).append((x, e))
        f = T({tuple(out): c}, "R")
        if not ins:
            ok = cmp("<=", lo, hi)
            if ok is True or HOOK.engine.entails(ok):
                tot = tot + f * n
            else:
                tot = tot + f * app("SUM", [lo, hi, const(1)])
            continue
        tot = tot + f * app("SUM", [lo, hi, _close(q, T({tuple(ins): 1}, "R"))])
    return T(tot.p, body.sort)


def prod_of(lo, hi, q, body):
    lo, hi, body = lift(lo), lift(hi), lift(body)
    n = hi - lo
    a = A.aid(q)
    if n.is_const():
        tot = const(1)
        for k in range(max(0, int(n.const()))):
            tot = tot * body.subst({a: lo + k})
        return tot
    return app("PROD", [lo, hi, _close(q, T(body.p, "R"))])


def opened(at):
    """(lo, hi, body with a fresh index, index) of a SUM or PROD atom"""
    lo, hi, body = at.args
    n = level_of(body)
    q = integer(fresh_name("b"))
    return lo, hi, body.subst({A.aid(bound(n)): q}), q


def flatten(t, depth=4):
    """t as a list of ([(lo, hi, index)], coefficient term without outer SUM)"""
    out = []
    todo = [([], t)]
    while todo:
        rs, u = todo.pop()
        u = lift(u)
        free = {}
        for m, c in u.p.items():
            s = [x for x, e in m if ATOMS[x].kind == "app" and ATOMS[x].name == "SUM" and e == 1]
            if not s or len(rs) >= depth:
                free[m] = c
                continue
            x = s[0]
            lo, hi, body, q = opened(ATOMS[x])
            rest = T({tuple(y for y in m if y[0] != x): c}, "R")
            todo.append((rs + [(lo, hi, q)], rest * body))
        if free:
            out.append((rs, T(free, "R")))
    return out


class under:
    """Facts assumed for a while."""

    def __init__(self, eng, fs):
        self.eng, self.fs = eng, fs

    def __enter__(self):
        eng = self.eng
        self.keep = (list(eng.facts), dict(eng.signs), set(eng.inv_seen), dict(eng.gid), dict(eng.gfacts))
        for f in self.fs:
            eng.assume(f)

    def __exit__(self, *a):
        eng = self.eng
        eng.facts, eng.signs, eng.inv_seen, eng.gid, eng.gfacts = self.keep
        eng.ent_cache = {}
        eng._sv = (-1, {})
        return False


def ranges(rs):
    return [conj(cmp("<=", lo, q), cmp("<", q, hi)) for lo, hi, q in rs]


def expand(eng, items):
    """Rewrite the right-hand sides of solved linear systems: b(i) = sum_j A(i, j) x(j)."""
    out = []
    todo = [(rs, c, 0) for rs, c in items]
    while todo:
        rs, c, n = todo.pop()
        step = None
        if n < 12:
            fs = ranges(rs)
            if any(f is False for f in fs):
                continue
            with under(eng, fs):
                for x in sorted(c.atoms()):
                    if ATOMS[x].kind == "app" and ATOMS[x].name in eng.expand:
                        r = eng.expand[ATOMS[x].name](ATOMS[x].args)
                        if r is not None:
                            step = {x: r}
                            break
        if step is None:
            out.append((rs, c))
            continue
        for rs2, c2 in flatten(c.subst(step)):
            todo.append((rs + rs2, c2, n + 1))
    return out


def zero_sums(eng, t, zero):
    """Is t zero when sums over equal ranges are merged under one sum sign?
    zero(term) decides the bodies under the range facts."""
    items = expand(eng, flatten(t))
    if not any(rs for rs, _ in items):
        return False
    groups = []

    def same(x, y):
        f = cmp("==", x, y)
        return f is True or (f is not False and eng.entails(f))

    for rs, c in items:
        alts = None
        for g in groups:
            if len(g[0]) != len(rs):
                continue
            ms = []
            for perm in itertools.permutations(range(len(rs))):
                if all(same(rs[p][0], g[0][i][0]) and same(rs[p][1], g[0][i][1]) for i, p in enumerate(perm)):
                    mp = {A.aid(rs[p][2]): g[0][i][2] for i, p in enumerate(perm)}
                    ms.append(c.subst(mp))
            if ms:
                g[1].append(ms)
                alts = g
                break
        if alts is None:
            groups.append((rs, [[c]]))
    for rs, cs in groups:
        done = False
        n = 0
        for pick in itertools.product(*cs):
            n += 1
            if n > 64:
                break
            tot = const(0, "R")
            for c in pick:
                tot = tot + c
            if is_zero(tot):
                done = True
                break
            fs = ranges(rs)
            r = any(f is False for f in fs)
            if not r:
                with under(eng, fs):
                    r = eng.infeasible() or zero(tot)
            if r:
                done = True
                break
        if not done:
            return False
    return True


def short_ranges(eng, t):
    """Write out the sums and products whose range has 0 to 3 elements on this path."""
    mp = {}
    for x in sorted(t.atoms()):
        at = ATOMS[x]
        if at.kind != "app" or at.name not in ("SUM", "PROD"):
            continue
        lo, hi, body, q = opened(at)
        n = hi - lo
        if n.is_const():
            c = max(0, int(n.const())) if n.const() <= 12 else None
        elif not eng.entails(cmp("<=", n, 3)):
            continue
        else:
            c = next((c for c in range(4) if eng.entails(cmp("<=", n, 0) if c == 0 else cmp("==", n, c))), None)
        if c is None:
            continue
        tot = const(0 if at.name == "SUM" else 1)
        for k in range(c):
            v = body.subst({A.aid(q): lo + k})
            tot = tot + v if at.name == "SUM" else tot * v
        mp[x] = tot
    return t.subst(mp) if mp else t


def merge_products(eng, t, zero):
    """Identify PROD atoms over equal ranges whose bodies agree on the range."""
    ps = sorted(x for x in t.atoms() if ATOMS[x].kind == "app" and ATOMS[x].name == "PROD")
    reps, mp = [], {}
    for x in ps:
        lo, hi, body, q = opened(ATOMS[x])
        for r in reps:
            lo2, hi2, body2, q2 = opened(ATOMS[r])
            if all(f is True or (f is not False and eng.entails(f)) for f in (cmp("==", lo, lo2), cmp("==", hi, hi2))):
                fs = ranges([(lo, hi, q)])
                ok = any(f is False for f in fs)
                if not ok:
                    with under(eng, fs):
                        ok = eng.infeasible() or zero(body - body2.subst({A.aid(q2): q}))
                if ok:
                    mp[x] = of_atom(ATOMS[r])
                    break
        else:
            reps.append(x)
    return t.subst(mp) if mp else t


class SymSeq:
    """[item(k) for k in range(lo, hi)] of symbolic length: the value at an arbitrary index."""

    def __init__(self, lo, hi, q, value):
        self.lo, self.hi, self.q, self.value = lift(lo), lift(hi), q, value

    def length(self):
        return self.hi - self.lo

    def item(self, k):
        mp = {A.aid(self.q): lift(k)}

        def at(v):
            if isinstance(v, (tuple, list)):
                return type(v)(at(x) for x in v)
            if isinstance(v, (T, B)):
                return v.subst(mp)
            if v is None or isinstance(v, (bool, int, str)):
                return v
            raise Unsupported("element of a list of symbolic length")
        return at(self.value)

    def total(self, start=0):
        return lift(start) + self.combine(sum_of)

    def product(self, start=1):
        return lift(start) * self.combine(prod_of)

    def combine(self, op):
        v = self.value
        if isinstance(v, A.SArray):
            layers = v.store.layers
            A.log_all(v)

            def g(idx, sub):
                q, e = instance(self.lo, self.hi, lambda q: lift(A.read(
                    v.store, layers, v.map([lift(i) for i in idx], {**(sub or {}), A.aid(self.q): q}),
                    {**(sub or {}), A.aid(self.q): q}, log=False)))
                if e is None:
                    return const(0 if op is sum_of else 1)
                lo, hi = (self.lo.subst(sub), self.hi.subst(sub)) if sub else (self.lo, self.hi)
                return op(lo, hi, q, e)
            return A.Store(fresh_name("total"), v.shape, ("fn", g), v.store.elem).full()
        return op(self.lo, self.hi, self.q, lift(v))

    def __iter__(self):
        raise Unsupported("iteration over a list of symbolic length")


def comprehension(fn, it):
    from .interp import SymRange
    if isinstance(it, SymRange):
        if not (it.step.is_const() and it.step.const() == 1):
            raise Unsupported("comprehension over a symbolic range with a step")
        item = it.item or (lambda i: i)
        q, v = instance(it.lo, it.hi, lambda q: fn(item(q)))
        if v is None:
            return []
        return SymSeq(it.lo, it.hi, q, v)
    if isinstance(it, A.SArray) and not lift(it.shape[0]).is_const():
        q, v = instance(const(0), lift(it.shape[0]), lambda q: fn(it[q]))
        return [] if v is None else SymSeq(const(0), lift(it.shape[0]), q, v)
    if isinstance(it, SymSeq):
        q, v = instance(it.lo, it.hi, lambda q: fn(it.item(q)))
        return [] if v is None else SymSeq(it.lo, it.hi, q, v)
    return [fn(x) for x in it]


def indicator(f):
    """1 where the integer comparison f holds, else 0; None if f is not one"""
    if isinstance(f, bool):
        return const(int(f))
    if f.k == "and":
        r = const(1)
        for x in f.a:
            g = indicator(x)
            if g is None:
                return None
            r = r * g
        return r
    if f.k == "not":
        g = indicator(f.a[0])
        return None if g is None else 1 - g
    if f.k != "cmp" or f.a[1].sort != "I":
        return None
    op, t = f.a
    if op == "<":
        return app("LT0", [t], "I")
    if op == "<=":
        return app("LT0", [t - 1], "I")
    e = (1 - app("LT0", [t], "I")) * (1 - app("LT0", [-t], "I"))
    return e if op == "==" else 1 - e


def merge(ind, x, y):
    if isinstance(x, A.SArray) or isinstance(y, A.SArray):
        if not (isinstance(x, A.SArray) and isinstance(y, A.SArray) and x.ndim == y.ndim):
            raise Unsupported("alternatives of different kinds")
        return A.elementwise(lambda a, b, i: i * a + (1 - i) * b, x, y, ind)
    return ind * lift(x) + (1 - ind) * lift(y)


def ifexp(c, a, b):
    from .terms import B, neg
    eng = HOOK.engine
    if eng is None or not isinstance(c, B):
        return a() if c else b()
    if eng.entails(c):
        return a()
    if eng.entails(neg(c)):
        return b()
    if eng.binders and (c.atoms_deep() & set(eng.binders)):
        ind = indicator(c)
        if ind is not None:
            with under(eng, [c]):
                x = a()
            with under(eng, [neg(c)]):
                y = b()
            return merge(ind, x, y)
    return a() if c else b()
