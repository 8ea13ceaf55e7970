"""Symbolic terms: Laurent polynomials with rational coefficients over
hash-consed atoms, and formulas over them.

Machine floats are read as reals: a float constant is read as the simplest
fraction that rounds to it (1.0/6.0 is 1/6).
"""
import math
import numbers
from fractions import Fraction

import numpy as np


class Unsupported(Exception):
    """The code left the fragment the generator understands: undecided."""


class PathEnd(Exception):
    """The current path is infeasible or finished."""


# ------------------------------------------------------------------ atoms

class Atom:
    __slots__ = ("id", "name", "sort", "kind", "args", "deep")

    def __init__(self, id, name, sort, kind, args):
        self.id, self.name, self.sort, self.kind, self.args = id, name, sort, kind, args
        s = {id}
        for a in args:
            if isinstance(a, T):
                s |= a.atoms_deep()
        self.deep = frozenset(s)

    def __repr__(self):
        if self.kind in ("sym",):
            return self.name
        return "%s(%s)" % (self.name, ", ".join(map(repr, self.args)))


ATOMS = []
_INTERN = {}


def atom(kind, name, sort, args=()):
    key = (kind, name, tuple(a.key() if isinstance(a, T) else a for a in args))
    a = _INTERN.get(key)
    if a is None:
        a = Atom(len(ATOMS), name, sort, kind, tuple(args))
        ATOMS.append(a)
        _INTERN[key] = a
    return a


_CNT = [0]


def fresh_name(base):
    _CNT[0] += 1
    return "%s!%d" % (base, _CNT[0])


_RAT = {}


def rationalise(f):
    r = _RAT.get(f)
    if r is None:
        if f != f or f in (math.inf, -math.inf):
            raise Unsupported("non-finite constant %r" % f)
        ex = Fraction(f)
        r = ex
        if ex.denominator > 1:
            c = ex.limit_denominator(10 ** 5)
            if float(c) == f or (abs(c - ex) <= Fraction(math.ulp(f))):
                r = c
        if r.denominator == 1:
            r = int(r)
        _RAT[f] = r
    return r


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a == b:
            if e + f:
                out.append((a, e + f))
            i += 1
            j += 1
        elif a < b:
            out.append(m1[i])
            i += 1
        else:
            out.append(m2[j])
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


def p_add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def p_mul(p, q):
    if len(p) > len(q):
        p, q = q, p
    r = {}
    for m1, c1 in p.items():
        if not m1 and c1 == 1 and len(p) == 1:
            return dict(q)
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


def p_scale(p, c):
    return {m: _norm(v * c) for m, v in p.items()} if c else {}


class _Hook:
    engine = None      # the current engine


HOOK = _Hook()


def _vec(op, a, b):
    """elementwise on an object array"""
    return np.frompyfunc(lambda y: op(a, y), 1, 1)(b.astype(object))


class T:
    """A term: polynomial p over atoms; sort 'I' (integer) or 'R' (real)."""
    __slots__ = ("p", "sort", "_key", "_deep")
    __array_ufunc__ = None

    def __init__(self, p, sort):
        self.p = p
        self.sort = sort
        self._key = None
        self._deep = None

    # -- structure
    def key(self):
        if self._key is None:
            self._key = frozenset(self.p.items())
        return self._key

    def __hash__(self):
        return hash(self.key())

    def is_const(self):
        return not self.p or (len(self.p) == 1 and () in self.p)

    def const(self):
        return self.p.get((), 0)

    def atoms(self):
        return {a for m in self.p for a, _ in m}

    def atoms_deep(self):
        if self._deep is None:
            s = set()
            for a in self.atoms():
                s |= ATOMS[a].deep
            self._deep = frozenset(s)
        return self._deep

    def same(self, o):
        return self.key() == lift(o).key()

    def __repr__(self):
        if not self.p:
            return "0"
        out = []
        for m, c in sorted(self.p.items(), key=lambda kv: (len(kv[0]), kv[0])):
            f = []
            if c != 1 or not m:
                f.append(str(c))
            for a, e in m:
                f.append(repr(ATOMS[a]) if e == 1 else "%r^%d" % (ATOMS[a], e))
            out.append("*".join(f))
        s = " + ".join(out[:40])
        return s if len(out) <= 40 else s + " + ...(%d terms)" % len(out)

    # -- conversions
    def __index__(self):
        if self.is_const() and isinstance(self.const(), int):
            return self.const()
        raise Unsupported("symbolic integer used as a concrete index: %r" % self)

    __int__ = __index__

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise Unsupported("symbolic number converted to float: %r" % self)

    def __bool__(self):
        r = self != 0
        return bool(r)

    # -- arithmetic
    def _bin(self, o, f):
        if isinstance(o, np.ndarray):
            return NotImplemented
        l = lift_or_none(o)
        if l is None:
            return NotImplemented
        return f(self, l)

    def __add__(self, o):
        if type(o) is T:
            return T(p_add(self.p, o.p), "I" if self.sort == o.sort == "I" else "R")
        if isinstance(o, np.ndarray):
            return _vec(lambda a, b: a + b, self, o)
        l = lift_or_none(o)
        return NotImplemented if l is None else self + l

    __radd__ = __add__

    def __neg__(self):
        return T({m: -c for m, c in self.p.items()}, self.sort)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if type(o) is T:
            return T(p_add(self.p, o.p, -1), "I" if self.sort == o.sort == "I" else "R")
        if isinstance(o, np.ndarray):
            return _vec(lambda a, b: a - b, self, o)
        l = lift_or_none(o)
        return NotImplemented if l is None else self - l

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return _vec(lambda a, b: b - a, self, o)
        l = lift_or_none(o)
        return NotImplemented if l is None else l - self

    def __mul__(self, o):
        if type(o) is T:
            return T(p_mul(self.p, o.p), "I" if self.sort == o.sort == "I" else "R")
        if isinstance(o, np.ndarray):
            return _vec(lambda a, b: a * b, self, o)
        l = lift_or_none(o)
        return NotImplemented if l is None else self * l

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)) and len(o) == 1 and not self.is_const() and HOOK.engine is not None:
            from .binder import SymSeq          # [x] * n
            return SymSeq(const(0), self, of_atom(atom("sym", "$none", "I")), o[0])
        return self * o

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return _vec(lambda a, b: a / b, self, o)
        l = lift_or_none(o)
        return NotImplemented if l is None else div(self, l)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return _vec(lambda a, b: b / a, self, o)
        l = lift_or_none(o)
        return NotImplemented if l is None else div(l, self)

    def __floordiv__(self, o):
        if isinstance(o, np.ndarray):
            return _vec(lambda a, b: a // b, self, o)
        l = lift_or_none(o)
        return NotImplemented if l is None else floordiv(self, l)

    def __rfloordiv__(self, o):
        l = lift_or_none(o)
        return NotImplemented if l is None else floordiv(l, self)

    def __mod__(self, o):
        l = lift_or_none(o)
        if l is None:
            return NotImplemented
        return self - l * floordiv(self, l)

    def __rmod__(self, o):
        l = lift_or_none(o)
        return NotImplemented if l is None else l - self * floordiv(l, self)

    def __pow__(self, e):
        if isinstance(e, np.ndarray):
            return _vec(lambda a, b: a ** b, self, e)
        e = lift(e)
        if not e.is_const():
            if self.is_const() and self.const() >= 1 and e.sort == "I" and HOOK.engine is not None:
                return HOOK.engine.power(self.const(), e)
            raise Unsupported("symbolic exponent")
        c = e.const()
        if isinstance(c, Fraction) and c.denominator != 1:
            raise Unsupported("fractional power")
        c = int(c)
        if c < 0:
            return div(lift(1), self ** (-c))
        r = T({(): 1}, self.sort if e.sort == "I" else "R")
        b = self
        while c:
            if c & 1:
                r = r * b
            c >>= 1
            if c:
                b = b * b
        return r

    def __rpow__(self, o):
        return lift(o) ** self

    def __abs__(self):
        return self if self >= 0 else -self

    # -- comparisons
    def __lt__(self, o):
        return NotImplemented if hasattr(o, "machine") else cmp("<", self, o)

    def __le__(self, o):
        return NotImplemented if hasattr(o, "machine") else cmp("<=", self, o)

    def __gt__(self, o):
        return NotImplemented if hasattr(o, "machine") else cmp("<", o, self)

    def __ge__(self, o):
        return NotImplemented if hasattr(o, "machine") else cmp("<=", o, self)

    def __eq__(self, o):
        if hasattr(o, "machine"):
            return NotImplemented
        if lift_or_none(o) is None:
            return False if not isinstance(o, np.ndarray) else NotImplemented
        return cmp("==", self, o)

    def __ne__(self, o):
        if hasattr(o, "machine"):
            return NotImplemented
        if lift_or_none(o) is None:
            return True if not isinstance(o, np.ndarray) else NotImplemented
        return cmp("!=", self, o)

    # numpy scalar look-alikes
    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def copy(self):
        return self

    def item(self):
        return self

    # -- substitution
    def subst(self, mp):
        """mp: {atom id: T}"""
        if not mp or not (self.atoms_deep() & mp.keys()):
            return self
        res = {}
        cache = {}
        for m, c in self.p.items():
            if not any(ATOMS[a].deep & mp.keys() for a, _ in m):
                v = res.get(m, 0) + c
                if v == 0:
                    res.pop(m, None)
                else:
                    res[m] = v
                continue
            term = T({(): c}, "I")
            keep = []
            for a, e in m:
                if not (ATOMS[a].deep & mp.keys()):
                    keep.append((a, e))
                    continue
                b = cache.get(a)
                if b is None:
                    b = cache[a] = subst_atom(a, mp)
                term = term * (b ** e if e > 0 else div(const(1), b ** (-e), False))
            term = T(p_mul({tuple(keep): 1}, term.p), "R")
            for mm, cc in term.p.items():
                v = res.get(mm, 0) + cc
                if v == 0:
                    res.pop(mm, None)
                else:
                    res[mm] = v
        return T(res, self.sort)


def subst_atom(a, mp):
    if a in mp:
        return mp[a]
    at = ATOMS[a]
    args = [x.subst(mp) if isinstance(x, T) else x for x in at.args]
    if at.kind == "app":
        return app(at.name, args, at.sort)
    if at.kind == "floor":
        return floor_(args[0])
    if at.kind == "poly":
        return args[0]
    if at.kind == "ss":
        return HOOK.engine.rebuild(at, args)
    return of_atom(atom(at.kind, at.name, at.sort, args))


def of_atom(a):
    return T({((a.id, 1),): 1}, a.sort)


def const(c, sort=None):
    c = _norm(c)
    return T({(): c} if c != 0 else {}, sort or ("I" if isinstance(c, int) else "R"))


def real(name):
    return of_atom(atom("sym", name, "R"))


def integer(name):
    return of_atom(atom("sym", name, "I"))


def app(fname, args, sort="R"):
    args = [lift(a) for a in args]
    e = HOOK.engine
    if e is not None:
        r = e.app_hook(fname, args)
        if r is not None:
            return r
    t = of_atom(atom("app", fname, sort, tuple(args)))
    if e is not None:
        e.on_app(t)
    return t


def lift_or_none(o):
    if type(o) is T:
        return o
    if isinstance(o, (bool, np.bool_)):
        return const(int(o), "I")
    if isinstance(o, numbers.Integral):
        return const(int(o), "I")
    if isinstance(o, Fraction):
        return const(o, "R")
    if isinstance(o, (float, np.floating)):
        return const(rationalise(float(o)), "R")
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return lift_or_none(o.item())
    return None


def lift(o):
    r = lift_or_none(o)
    if r is None:
        raise Unsupported("not a number: %r" % type(o))
    return r


def to_real(t):
    t = lift(t)
    return T(t.p, "R")


def content(p):
    """p = coef * monomial * primitive polynomial (leading coefficient 1)."""
    ms = list(p)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(common):
            e = min(common[a], d.get(a, 0))
            if a not in d:
                e = min(common[a], 0)
            if e == 0:
                del common[a]
            else:
                common[a] = e
        for a, e in d.items():
            if a not in common and e < 0:
                common[a] = e
    mono = tuple(sorted(common.items()))
    inv = tuple((a, -e) for a, e in mono)
    q = {mono_mul(m, inv): c for m, c in p.items()}
    lead = max(q)
    c = Fraction(q[lead])
    q = {m: _norm(Fraction(v) / c) for m, v in q.items()}
    return _norm(c), mono, q


def div(a, b, check=True):
    e = HOOK.engine
    if not b.p:
        if e is None:
            raise ZeroDivisionError
        e.division_by_zero()
    if e is not None and check:
        e.require_nonzero(b)
    if b.is_const():
        return T(p_scale(a.p, Fraction(1) / Fraction(b.const())), "R")
    c, mono, q = content(b.p)
    inv = tuple((x, -k) for x, k in mono)
    r = p_scale({mono_mul(m, inv): v for m, v in a.p.items()}, Fraction(1) / Fraction(c))
    if len(q) > 1:
        ex = exact_div(r, q)
        if ex is not None:
            return T(ex, "R")
        at = atom("poly", "inv", "R", (T(q, "R"),))
        r = p_mul(r, {((at.id, -1),): 1})
    return T(r, "R")


def exact_div(p, q):
    """p / q if the division is exact (small polynomials only)."""
    if len(p) < len(q) or len(p) > 400 or len(q) > 12:
        return None
    lead = max(q)
    cl = Fraction(q[lead])
    r = dict(p)
    out = {}
    inv = tuple((a, -e) for a, e in lead)
    for _ in range(4 * len(p)):
        if not r:
            return out
        m = max(r)
        k = mono_mul(m, inv)
        c = _norm(Fraction(r[m]) / cl)
        out[k] = out.get(k, 0) + c
        r = p_add(r, p_mul({k: c}, q), -1)
        if r and max(r) >= m:
            return None
    return None


def clear_denominators(t):
    """A polynomial with the same zeros (given nonzero denominators)."""
    while True:
        need = {}
        for m in t.p:
            for a, e in m:
                if e < 0:
                    need[a] = min(need.get(a, 0), e)
        if not need:
            return t
        # multiply through; 'poly' atoms are expanded
        r = {}
        polys = {a: ATOMS[a].args[0] for a in need if ATOMS[a].kind == "poly"}
        pw = {}
        for m, c in t.p.items():
            d = dict(m)
            rest = []
            f = {(): c}
            for a, e in need.items():
                k = d.pop(a, 0) - e
                if a in polys:
                    if k:
                        if (a, k) not in pw:
                            pw[a, k] = (polys[a] ** k).p
                        f = p_mul(f, pw[a, k])
                elif k:
                    rest.append((a, k))
            rest += list(d.items())
            f = p_mul(f, {tuple(sorted(rest)): 1})
            r = p_add(r, f)
        t = T(r, t.sort)


def is_zero(t):
    return not t.p or not clear_denominators(t).p


def int_part(t):
    """Split off the part of t that is integer valued by construction."""
    ip = {}
    for m, c in t.p.items():
        if isinstance(c, int) and all(ATOMS[a].sort == "I" and e > 0 for a, e in m):
            ip[m] = c
    return T(ip, "I"), T(p_add(t.p, ip, -1), t.sort)


def floor_(t):
    t = lift(t)
    ip, fr = int_part(t)
    if not fr.p:
        return ip
    if fr.is_const():
        return ip + const(math.floor(fr.const()), "I")
    return HOOK.engine.floor(ip, fr)


def floordiv(a, b):
    if a.sort == "I" and b.sort == "I" and a.is_const() and b.is_const():
        return const(a.const() // b.const(), "I")
    q = div(a, b)
    f = floor_(q)
    if a.sort == "I" and b.sort == "I":
        return f
    return T(f.p, "R")


# --------------------------------------------------------------- formulas

class B:
    """Formula. kinds: ('cmp', op, T) meaning T op 0; and/or/not; ('var', name)."""
    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k = k
        self.a = a

    def __bool__(self):
        return HOOK.engine.decide(self)

    def __and__(self, o):
        return conj(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return disj(self, o)

    __ror__ = __or__

    def __invert__(self):
        return neg(self)

    def atoms_deep(self):
        s = set()
        for x in self.a:
            if isinstance(x, (T, B)):
                s |= x.atoms_deep()
        return s

    def subst(self, mp):
        return self.map(lambda t: t.subst(mp))

    def map(self, f):
        if self.k == "cmp":
            return cmp0(self.a[0], f(self.a[1]))
        if self.k == "var":
            return self
        if self.k == "and":
            return conj(*[x.map(f) for x in self.a])
        if self.k == "or":
            return disj(*[x.map(f) for x in self.a])
        return neg(self.a[0].map(f))

    def __repr__(self):
        if self.k == "cmp":
            return "%r %s 0" % (self.a[1], self.a[0])
        if self.k == "var":
            return self.a[0]
        if self.k == "not":
            return "not (%r)" % (self.a[0],)
        return "(" + (" %s " % self.k).join(map(repr, self.a)) + ")"


def cmp0(op, t):
    if t.is_const():
        c = t.const()
        return {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0}[op]
    return B("cmp", op, t)


def cmp(op, a, b):
    if op in (">", ">="):
        op, a, b = {">": "<", ">=": "<="}[op], b, a
    a, b = lift(a), lift(b)
    d = a - b
    if op in ("<", "<=") and a.sort == "I" and b.sort == "I" and op == "<":
        return cmp0("<=", d + 1)
    return cmp0(op, d)


def conj(*xs):
    out = []
    for x in xs:
        if x is True or (isinstance(x, np.bool_) and x):
            continue
        if x is False or isinstance(x, np.bool_):
            return False
        if x.k == "and":
            out.extend(x.a)
        else:
            out.append(x)
    return True if not out else out[0] if len(out) == 1 else B("and", *out)


def disj(*xs):
    out = []
    for x in xs:
        if x is True or (isinstance(x, np.bool_) and x):
            return True
        if x is False or isinstance(x, np.bool_):
            continue
        out.append(x)
    return False if not out else out[0] if len(out) == 1 else B("or", *out)


def neg(x):
    if isinstance(x, (bool, np.bool_)):
        return not x
    if x.k == "cmp":
        op, t = x.a
        if op == "<":
            return cmp0("<=", -t)
        if op == "<=":
            if t.sort == "I":
                return cmp0("<=", 1 - t)
            return cmp0("<", -t)
        return cmp0("!=" if op == "==" else "==", t)
    if x.k == "not":
        return x.a[0]
    if x.k == "and":
        return disj(*[neg(y) for y in x.a])
    if x.k == "or":
        return conj(*[neg(y) for y in x.a])
    return B("not", x)


def implies(a, b):
    return disj(neg(a), b)
