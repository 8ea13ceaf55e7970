"""Enumerations of vectors of symbolic length, one arbitrary vector at a time.

A list that the code fills with vectors is followed through two kinds of
members only: the vector in question (and its sorted form), present as often as
the code puts it there, and a representative of all others.  Comprehensions,
filters and loops run on both; what the code does with the representative must
not depend on its place in the list (positions and lengths are refused)."""
from . import arrays as A
from .binder import SymSeq, instance
from .terms import HOOK, B, T, Unsupported, app, atom, cmp, conj, const, fresh_name, integer, lift, neg, of_atom


class Vec(SymSeq):
    def __init__(self, name, n, total=None, other=False, sort="I"):
        q = integer(fresh_name("e"))
        super().__init__(const(0), n, q, None)
        self.name, self.sort, self.sum_, self.other = name, sort, total, other

    def item(self, k):
        return app(self.name, [lift(k)], self.sort)

    @property
    def value(self):
        return self.item(self.q)

    @value.setter
    def value(self, v):
        pass

    def total(self, start=0):
        return super().total(start) if self.sum_ is None else lift(start) + self.sum_

    def compare(self, op, o, flip=False):
        if isinstance(o, SymSeq):
            get = o.item
        elif isinstance(o, A.SArray):
            if o.ndim != 1:
                raise Unsupported("comparison with an array of several dimensions")
            get = lambda k: o[k]
        else:
            o = lift(o)
            get = lambda k: o
        q, v = instance(self.lo, self.hi, lambda q: cmp(op, get(q), self.item(q)) if flip else cmp(op, self.item(q), get(q)))
        return SymSeq(self.lo, self.hi, q, v)

    def __le__(self, o):
        return self.compare("<=", o)

    def __lt__(self, o):
        return self.compare("<", o)

    def __ge__(self, o):
        return self.compare("<=", o, True)

    def __gt__(self, o):
        return self.compare("<", o, True)

    def __eq__(self, o):
        if self is o:
            return True
        raise Unsupported("vectors of an enumeration are compared")

    def __ne__(self, o):
        if self is o:
            return False
        raise Unsupported("vectors of an enumeration are compared")

    def __hash__(self):
        raise Unsupported("vectors of an enumeration are hashed")

    def __bool__(self):
        raise Unsupported("truth value of a vector")

    def __len__(self):
        raise Unsupported("length of a vector")


class Packed:
    """*args of symbolic length"""

    def __init__(self, seq):
        self.seq = seq


class Rows:
    """array made of a list of vectors"""

    def __init__(self, rows):
        self.rows = rows


class Choice(tuple):
    """one of a family of disjoint sets, named by its index"""


def star(x):
    return [Packed(x)] if HOOK.engine is not None and isinstance(x, SymSeq) else x


def has_vec(x):
    return isinstance(x, (list, tuple)) and any(isinstance(e, Vec) for e in x)


def holds_everywhere(seq):
    """all(seq), decided at an arbitrary index, at known witnesses, or both ways"""
    eng = HOOK.engine
    got = []

    def at(k):
        f = seq.item(k)
        if isinstance(f, T):
            f = cmp("!=", f, 0)
        return f

    def fn(q):
        f = at(q)
        got.append(f is True or (f is not False and eng.entails(f)))
        return f
    q, v = instance(seq.lo, seq.hi, fn)
    if not got or got[0]:
        return True
    for k in eng.witnesses:
        f = at(k)
        if f is False or (f is not True and eng.entails(neg(f))):
            return False
    s = of_atom(atom("sym", "ALL:%r" % (at(of_atom(atom("sym", "$any", "I"))),), "I"))
    if eng.decide(cmp("<=", 1, s)):
        for k in eng.witnesses:
            f = at(k)
            if not isinstance(f, bool):
                eng.assume(f)
        return True
    return False


def equal(x, v):
    """is the sequence x the vector v?"""
    eng = HOOK.engine
    if x is v:
        return True
    f = cmp("==", x.length(), v.length())
    if not (f is True or (f is not False and eng.entails(f))):
        raise Unsupported("vectors of different lengths")
    g = cmp("!=", x.total(), v.total())
    if g is True or (g is not False and eng.entails(g)):
        return False
    return holds_everywhere(v.compare("==", x))
