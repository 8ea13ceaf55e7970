"""Models of builtins and of the numpy functions the package calls.

Where the arguments are ordinary Python/numpy objects the real function is
called.  Each model of an external function is an assumption; its name is put
in stats.trusted and reported."""
import builtins
import functools
import itertools
import math
import operator

import numpy as np

from . import arrays as A
from .arrays import ANY, SArray, Store, UNDEF
from .binder import SymSeq, comprehension, indicator
from .sets import Packed, Rows, has_vec, holds_everywhere
from .interp import MODELS, SymRange, call, model, symbolic
from .terms import (ATOMS, B, HOOK, T, Unsupported, app, atom, cmp, conj, const, disj, floor_, fresh_name,
                    int_part, integer, lift, lift_or_none, neg, of_atom, to_real)


def trust(name):
    HOOK.engine.stats.trusted.add(name)


def is_num(x):
    return lift_or_none(x) is not None


def conc(x):
    """int value of a number if it is constant, else None"""
    t = lift_or_none(x)
    if t is not None and t.is_const():
        c = t.const()
        return c
    return None


# ------------------------------------------------------------------ builtins

def _range(*a):
    if not any(isinstance(x, T) for x in a):
        return range(*a)
    ts = [lift(x) for x in a]
    if all(t.is_const() for t in ts):
        return range(*[int(t.const()) for t in ts])
    if len(ts) == 1:
        lo, hi, st = const(0), ts[0], const(1)
    elif len(ts) == 2:
        lo, hi, st = ts[0], ts[1], const(1)
    else:
        lo, hi, st = ts
    n = hi - lo
    if n.is_const() and st.is_const() and st.const() == 1:
        return [lo + k for k in range(int(n.const()))]
    if n.is_const() and st.is_const() and st.const() == -1:
        return [lo - k for k in range(int(-n.const()))]
    return SymRange(lo, hi, st)


MODELS[id(range)] = (_range, range)


@model(len)
def _len(x):
    if isinstance(x, SymSeq):
        return x.length()
    if has_vec(x):
        raise Unsupported("length of an enumeration")
    if isinstance(x, SymRange):
        if not (lift(x.step).is_const() and lift(x.step).const() == 1):
            raise Unsupported("length of a symbolic range with a step")
        n = lift(x.hi) - lift(x.lo)
        return n if HOOK.engine.decide(cmp("<=", 0, n)) else 0
    if isinstance(x, SArray):
        n = lift(x.shape[0])
        return int(n.const()) if n.is_const() else n
    return len(x)


@model(int)
def _int(x=0, *a):
    if isinstance(x, A.Fl):
        return x.truncated()
    if isinstance(x, A.Any):
        return integer(fresh_name("anyint"))
    if isinstance(x, B):
        return 1 if bool(x) else 0
    if isinstance(x, T):
        if x.sort == "I":
            return x
        ip, fr = int_part(x)
        if not fr.p:
            return ip
        if x >= 0:
            return floor_(x)
        return -floor_(-x)
    return int(x, *a)


@model(float, np.float64)
def _float(x=0.0):
    if isinstance(x, T):
        return to_real(x)
    if isinstance(x, A.Any):
        return x
    return float(x)


MODELS[id(np.int64)] = (_int, np.int64)


@model(bool)
def _bool(x=False):
    return bool(x)


@model(math.floor)
def _mfloor(x):
    if isinstance(x, A.Fl):
        return x.truncated(floor=True)
    if isinstance(x, A.Any):
        return integer(fresh_name("anyint"))
    if isinstance(x, T):
        return floor_(x)
    return math.floor(x)


@model(np.floor)
def _nfloor(x, *a, **k):
    if isinstance(x, A.Fl):
        return x.floored()
    if isinstance(x, A.Any):
        return x
    if isinstance(x, T):
        f = floor_(x)
        return T(f.p, "R") if f.is_const() is False else to_real(f)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.frompyfunc(_nfloor, 1, 1)(x)
    return np.floor(x, *a, **k)


@model(math.ceil)
def _mceil(x):
    if isinstance(x, T):
        return -floor_(-x)
    return math.ceil(x)


def _joined(args, pick):
    """minimum or maximum without deciding which"""
    eng = HOOK.engine
    r = args[0]
    op = "<=" if pick == "max" else ">="
    for x in args[1:]:
        if isinstance(r, A.Fl) or isinstance(x, A.Fl):
            a, b = (v if isinstance(v, A.Fl) else A.Fl(to_real(lift(v)), False) for v in (r, x))
            out = A.Fl()
            # which argument a nan gives way to depends on the implementation
            eng.assume(disj(a.nan, b.nan, conj(neg(out.nan), cmp(op, a.t, out.t), cmp(op, b.t, out.t),
                                               disj(cmp("==", out.t, a.t), cmp("==", out.t, b.t)))))
            eng.assume(disj(neg(a.nan), conj(neg(out.nan), cmp("==", out.t, b.t)), out.nan))
            eng.assume(disj(neg(b.nan), conj(neg(out.nan), cmp("==", out.t, a.t)), out.nan))
            r = out
            continue
        a, b = lift(r), lift(x)
        if a.sort != b.sort:
            a, b = to_real(a), to_real(b)
        if eng.entails(cmp(op, a, b)):
            r = b
        elif eng.entails(cmp(op, b, a)):
            r = a
        else:
            r = of_atom(atom("sym", fresh_name(pick), a.sort))
            eng.assume(conj(cmp(op, a, r), cmp(op, b, r), disj(cmp("==", r, a), cmp("==", r, b))))
    return r


def _ext(args, pick):
    if len(args) == 1:
        if isinstance(args[0], SArray) and not lift(args[0].shape[0]).is_const():
            return largest(args[0]) if pick == "max" else sorted_end(args[0], 0)
        args = list(args[0])
    if not any(isinstance(x, (T, A.Any)) for x in args):
        return (min if pick == "min" else max)(*args)
    if HOOK.engine.merge and all(isinstance(x, (T, A.Fl, int, float)) for x in args):
        return _joined(args, pick)
    r = args[0]
    for x in args[1:]:
        # numba/python: max(a, b) is b if b > a else a
        if isinstance(r, A.Any) or isinstance(x, A.Any):
            r = x if HOOK.engine.choose("pick") else r
            if isinstance(r, A.Any):
                r = ANY
            continue
        # equal arguments give the same value, whichever is picked
        up = (lift(x) > r) if pick == "max" else (lift(x) < r)
        ge = (lift(x) >= r) if pick == "max" else (lift(x) <= r)
        if not isinstance(up, B):
            r = x if up else r
        elif HOOK.engine.entails(ge):
            r = x
        elif not HOOK.engine.entails(neg(up)) and bool(up):
            r = x
    return r


@model(min)
def _min(*args, **kw):
    if kw:
        return min(*args, **kw)
    return _ext(args, "min")


@model(max)
def _max(*args, **kw):
    if kw:
        return max(*args, **kw)
    return _ext(args, "max")


@model(np.minimum)
def _npmin(a, b, *r, **k):
    if is_num(a) and is_num(b) or isinstance(a, A.Any) or isinstance(b, A.Any):
        return _ext((a, b), "min")
    return np.minimum(a, b, *r, **k)


@model(np.maximum)
def _npmax(a, b, *r, **k):
    if is_num(a) and is_num(b) or isinstance(a, A.Any) or isinstance(b, A.Any):
        return _ext((a, b), "max")
    return np.maximum(a, b, *r, **k)


@model(abs, np.abs)
def _abs(x):
    if isinstance(x, A.Any):
        return x.__abs__()
    if isinstance(x, T):
        return x if x >= 0 else -x
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.frompyfunc(_abs, 1, 1)(x)
    return np.abs(x) if isinstance(x, np.ndarray) else abs(x)


@model(isinstance)
def _isinstance(x, c):
    cs = c if isinstance(c, tuple) else (c,)
    if isinstance(x, SArray):
        return np.ndarray in cs or isinstance(x, c)
    if isinstance(x, T):
        import numbers
        if x.sort == "I":
            return any(k in (int, numbers.Integral, numbers.Number, np.integer, np.int64, numbers.Real) for k in cs)
        return any(k in (float, numbers.Real, numbers.Number, np.floating, np.float64) for k in cs)
    return isinstance(x, c)


@model(sum)
def _sum(xs, start=0):
    if isinstance(xs, SymSeq):
        return xs.total(start)
    r = start
    for x in xs:
        r = r + x
    return r


@model(all)
def _all(xs):
    return holds_everywhere(xs) if isinstance(xs, SymSeq) else all(xs)


@model(any)
def _any(xs):
    if isinstance(xs, SymSeq):
        def no(f):
            if isinstance(f, T):
                f = cmp("!=", f, 0)
            return (not f) if isinstance(f, bool) else neg(f)
        return not holds_everywhere(comprehension(no, xs))
    return any(xs)


@model(itertools.product)
def _product(*a, **k):
    if any(isinstance(x, (Packed, SymRange, SymSeq, T)) for x in a) or isinstance(k.get("repeat"), T):
        h = HOOK.engine.hooks.get("product")
        if h is None:
            raise Unsupported("product of symbolic length")
        return h(*a, **k)
    return itertools.product(*a, **k)


_product.packed = True


@model(itertools.combinations_with_replacement)
def _combinations(xs, r):
    if isinstance(xs, (SymRange, SymSeq)) or isinstance(r, T) and not r.is_const():
        h = HOOK.engine.hooks.get("combinations_with_replacement")
        if h is None:
            raise Unsupported("combinations of symbolic length")
        return h(xs, r)
    return itertools.combinations_with_replacement(xs, int(r))


@model(round)
def _round(x, *a):
    if isinstance(x, T):
        if x.sort == "I":
            return x
        raise Unsupported("round")
    return round(x, *a)


def sequence(x):
    """(length, item function) of something iterated over symbolically, else None"""
    if isinstance(x, SArray) and not lift(x.shape[0]).is_const():
        return lift(x.shape[0]), lambda i: x[i]
    if isinstance(x, SymRange):
        if not (lift(x.step).is_const() and lift(x.step).const() == 1):
            raise Unsupported("symbolic range with a step")
        lo, item = lift(x.lo), x.item or (lambda i: i)
        return lift(x.hi) - lo, lambda i: item(lo + i)
    if isinstance(x, SymSeq):
        return x.length(), lambda i: x.item(x.lo + i)
    return None


@model(enumerate)
def _enumerate(x, start=0):
    if has_vec(x):
        raise Unsupported("positions in an enumeration")
    s = sequence(x)
    if s is None:
        return enumerate(x, start)
    return SymRange(const(0), s[0], const(1), lambda i: (i + start, s[1](i)))


@model(tuple)
def _tuple(x=()):
    return x if isinstance(x, (SymRange, SymSeq)) else tuple(x)


@model(list)
def _list(x=()):
    return x if isinstance(x, (SymRange, SymSeq)) else list(x)


@model(zip)
def _zip(*xs, **k):
    ss = [sequence(x) for x in xs]
    if all(s is None for s in ss):
        return zip(*xs, **k)
    if any(s is None for s in ss):
        raise Unsupported("zip of lists of fixed and symbolic length")
    for s in ss[1:]:
        f = cmp("==", s[0], ss[0][0])
        if not (f is True or HOOK.engine.entails(f)):
            raise Unsupported("zip of lists whose lengths may differ")
    return SymRange(const(0), ss[0][0], const(1), lambda i: tuple(s[1](i) for s in ss))


@model(functools.reduce)
def _reduce(f, xs, *init):
    from .interp import call
    if isinstance(xs, SymSeq):
        if f in (operator.mul, np.multiply):
            return xs.product(*init)
        if f in (operator.add, np.add):
            return xs.total(*init)
        raise Unsupported("reduce over a list of symbolic length")
    it = iter(xs)
    if init:
        r = init[0]
    else:
        try:
            r = next(it)
        except StopIteration:
            raise TypeError("reduce() of empty iterable with no initial value")
    for x in it:
        r = call(f, r, x)
    return r


@model(math.prod)
def _mprod(xs, start=1):
    if isinstance(xs, SymSeq):
        return xs.product(start)
    r = start
    for x in xs:
        r = r * x
    return r


# --------------------------------------------------------------------- numpy

def _shape(sh):
    if isinstance(sh, (tuple, list)):
        return tuple(sh)
    if isinstance(sh, np.ndarray):
        return tuple(sh.tolist())
    if isinstance(sh, SArray):
        return tuple(sh)
    return (sh,)


def alloc(sh, base, dtype=None, name="new"):
    sh = _shape(sh)
    elem = "R"
    if dtype is not None and dtype is not object and np.dtype(dtype).kind in "iu":
        elem = "I"
    ts = [lift(s) for s in sh]
    if all(t.is_const() for t in ts):
        out = np.empty(tuple(int(t.const()) for t in ts), dtype=object)
        z = UNINIT if base is UNDEF else (lift(base[1]) if elem == "I" else to_real(lift(base[1])))
        for i in np.ndindex(*out.shape):
            out[i] = z
        HOOK.engine.objs.append(out)
        return out
    return Store(fresh_name(name), [t.const() if t.is_const() else t for t in ts], base, elem).full()


class Uninit:
    def _no(self, *a):
        raise Unsupported("uninitialised element is used")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = _no
    __lt__ = __gt__ = __le__ = __ge__ = __neg__ = __pow__ = __rtruediv__ = __bool__ = _no

    def __repr__(self):
        return "UNINIT"


UNINIT = Uninit()


def _mk(np_fn, base):
    def m(shape, dtype=float, order="C", **k):
        sh = _shape(shape)
        if any(symbolic(s) for s in sh) and not all(lift(s).is_const() for s in sh):
            return alloc(shape, base, dtype)
        if _is_int_dtype(dtype) or np.dtype(dtype).kind == "b":
            return np_fn(tuple(int(s) for s in sh), dtype=dtype)
        return alloc(shape, base, dtype)
    return m


MODELS[id(np.zeros)] = (_mk(np.zeros, ("const", const(0))), np.zeros)
MODELS[id(np.ones)] = (_mk(np.ones, ("const", const(1))), np.ones)
MODELS[id(np.empty)] = (_mk(np.empty, UNDEF), np.empty)


def _like(np_fn, base):
    def m(x, dtype=None, **k):
        if isinstance(x, SArray):
            return alloc(x.shape, base)
        if symbolic(x):
            return alloc(x.shape, base)
        return np_fn(x, dtype=dtype)
    return m


MODELS[id(np.zeros_like)] = (_like(np.zeros_like, ("const", const(0))), np.zeros_like)
MODELS[id(np.ones_like)] = (_like(np.ones_like, ("const", const(1))), np.ones_like)
MODELS[id(np.empty_like)] = (_like(np.empty_like, UNDEF), np.empty_like)


def to_obj(x):
    """nested lists of terms -> object array"""
    if isinstance(x, np.ndarray):
        return x.astype(object) if x.dtype != object else x.copy()
    if isinstance(x, SArray):
        if all(lift(s).is_const() for s in x.shape):
            sh = tuple(int(lift(s).const()) for s in x.shape)
            out = np.empty(sh, dtype=object)
            for i in np.ndindex(*sh):
                out[i] = x[i]
            return out
        raise Unsupported("array of symbolic shape")
    if isinstance(x, (list, tuple)):
        parts = [to_obj(y) for y in x]
        shs = {np.shape(p) if isinstance(p, np.ndarray) else () for p in parts}
        if len(shs) != 1:
            raise Unsupported("ragged array")
        sh = shs.pop()
        out = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p
        return out
    return x


def _is_int_dtype(d):
    try:
        return d is not None and np.dtype(d).kind in "iu"
    except TypeError:
        return False


def _array(x, dtype=None, copy=True, **k):
    if has_vec(x):
        return Rows(list(x))
    if isinstance(x, SArray):
        return x.copy() if copy else x
    if not copy and isinstance(x, np.ndarray) and x.dtype == object:
        return x
    if isinstance(x, T):
        out = np.empty((), dtype=object)
        out[()] = x
        return out
    if symbolic(x, 5):
        o = to_obj(x)
        if _is_int_dtype(dtype):
            return np.frompyfunc(_int, 1, 1)(o)
        if dtype is None and all(isinstance(e, (T, int)) and lift(e).sort == "I" for e in o.ravel()):
            return o
        return np.frompyfunc(lambda e: to_real(lift(e)) if not isinstance(e, (A.Any, Uninit)) else e, 1, 1)(o)
    return np.array(x, dtype=dtype, **k)


MODELS[id(np.array)] = (_array, np.array)


@model(np.asarray, np.ascontiguousarray, np.asfortranarray)
def _asarray(x, dtype=None, **k):
    if isinstance(x, SArray):
        return x if x.store.layout == "C" or True else x
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    if symbolic(x, 5):
        return _array(x, dtype)
    return np.asarray(x, dtype=dtype, **k)


@model(np.ndim)
def _ndim(x):
    if isinstance(x, (T, A.Any)):
        return 0
    if isinstance(x, SArray):
        return x.ndim
    return np.ndim(x)


@model(np.shape)
def _npshape(x):
    return x.shape if isinstance(x, SArray) else np.shape(x)


@model(np.atleast_2d)
def _atleast2(x):
    if isinstance(x, SArray):
        if x.ndim == 2:
            return x
        if x.ndim == 1:
            axes = [a if a[0] == "fix" else ("ax", 1, a[2], a[3]) for a in x.axes]
            return SArray(x.store, axes, (1, x.shape[0]))
        raise Unsupported("atleast_2d")
    return np.atleast_2d(x)


@model(np.linspace)
def _linspace(a, b, n=50, **k):
    if not (symbolic(a) or symbolic(b) or symbolic(n)):
        return np.linspace(a, b, n, **k)
    trust("numpy.linspace(a, b, n)[i] == a + i*(b-a)/(n-1)")
    a, b, n = lift(a), lift(b), lift(n)
    if n.is_const():
        m = int(n.const())
        out = np.empty(m, dtype=object)
        for i in range(m):
            out[i] = to_real(a + (b - a) * i / (m - 1)) if m > 1 else to_real(a)
        return out
    def f(idx, sub):
        v = to_real(a + (b - a) * lift(idx[0]) / (n - 1))
        return v.subst(sub) if sub else v
    return Store(fresh_name("linspace"), (n,), ("fn", f)).full()


@model(np.meshgrid)
def _meshgrid(*xs, indexing="xy", **k):
    if not any(isinstance(x, SArray) for x in xs):
        if any(symbolic(x) for x in xs):
            return [np.array(a) for a in np.meshgrid(*xs, indexing=indexing, **k)]
        return np.meshgrid(*xs, indexing=indexing, **k)
    n = len(xs)
    place = list(range(n))
    if indexing == "xy" and n > 1:
        place[0], place[1] = 1, 0
    sh = [None] * n
    for q, x in enumerate(xs):
        sh[place[q]] = x.shape[0]
    out = []
    for q, x in enumerate(xs):
        if isinstance(x, SArray):
            A.log_all(x)
            def g(idx, sub, x=x, layers=x.store.layers, q=q):
                return A.read(x.store, layers, x.map([idx[place[q]]], sub), sub, log=False)
        else:
            raise Unsupported("meshgrid of arrays of mixed kinds")
        out.append(Store(fresh_name("mesh"), tuple(sh), ("fn", g), x.store.elem).full())
    return out


def _stack(xs, axis):
    xs = list(xs)
    if not any(isinstance(x, SArray) for x in xs):
        return None
    if not all(isinstance(x, SArray) and x.ndim == 1 for x in xs):
        raise Unsupported("stack")
    n = xs[0].shape[0]
    for x in xs[1:]:
        HOOK.engine.prove(cmp("==", x.shape[0], n), "stacked arrays have equal lengths", "pre")
    snap = [(x, x.store.layers) for x in xs]
    for x in xs:
        A.log_all(x)

    def g(idx, sub):
        k, r = (idx[0], idx[1]) if axis == 0 else (idx[1], idx[0])
        k = lift(k).subst(sub) if sub else lift(k)
        if not k.is_const():
            raise Unsupported("row of a stacked array at a symbolic index")
        x, layers = snap[int(k.const())]
        return A.read(x.store, layers, x.map([r], sub), sub, log=False)
    sh = (len(xs), n) if axis == 0 else (n, len(xs))
    return Store(fresh_name("stack"), sh, ("fn", g), xs[0].store.elem).full()


def _mkstack(f, axis):
    def m(xs, *a, **k):
        ax = k.get("axis", a[0] if a else axis) if f is np.stack else axis
        xs = list(xs)
        r = _stack(xs, ax % 2)
        if r is not None:
            return r
        if any(symbolic(x) for x in xs):
            xs = [to_obj(x) for x in xs]
        return f(xs, *a, **k)
    return m


for _f, _ax in ((np.vstack, 0), (np.column_stack, 1), (np.stack, 0)):
    MODELS[id(_f)] = (_mkstack(_f, _ax), _f)
if hasattr(np, "row_stack"):
    _rs = np.row_stack
    MODELS[id(_rs)] = (_mkstack(np.vstack, 0), _rs)


@model(np.prod)
def _prod(x, *a, **k):
    if symbolic(x) and not isinstance(x, SArray) and not a and not k:
        r = 1
        for e in np.ravel(to_obj(x)):
            r = r * e
        return r
    if isinstance(x, SArray):
        raise Unsupported("prod")
    return np.prod(x, *a, **k)


@model(np.cumprod)
def _cumprod(x, *a, **k):
    if symbolic(x):
        out = []
        r = 1
        for e in to_obj(list(x)):
            r = r * e
            out.append(r)
        return to_obj(out)
    return np.cumprod(x, *a, **k)


def flags(x):
    if isinstance(x, B) or isinstance(x, (bool, np.bool_)):
        return [x]
    return list(np.ravel(x))


class Flags:
    """Truth values of the elements of an array with more than one element: is there a true one, are all true."""

    def __init__(self, some, every):
        self.some, self.every = some, every

    def all(self, *a, **k):
        return self.every

    def any(self, *a, **k):
        return self.some

    def __invert__(self):
        return Flags(not self.every, not self.some)

    def __or__(self, o):
        if not isinstance(o, Flags):
            raise Unsupported("logical combination of array flags")
        if self.every or o.every:
            return Flags(True, True)
        if not (self.some and o.some):
            return Flags(self.some or o.some, self.every or o.every)
        raise Unsupported("logical combination of array flags")

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __getattr__(self, n):
        raise Unsupported("array of flags: %s" % n)


def covers(x):
    """does the view contain every element of its store"""
    m, n = const(1), const(1)
    for a in x.shape:
        m = m * a
    for a in x.store.shape:
        n = n * a
    f = cmp("==", m, n)
    return f is True or (f is not False and HOOK.engine.entails(f))


def _classify(name, test, good):
    """isfinite and the like: good is the answer for ordinary numbers"""
    def m(x, *a, **k):
        if isinstance(x, A.NonFinite):
            return test(x.what)
        if isinstance(x, A.Fl):
            huge = const(2) ** 1024
            small = conj(cmp("<", x.t, huge), cmp("<", -huge, x.t))
            return {"isfinite": conj(neg(x.nan), small), "isnan": x.nan, "isinf": conj(neg(x.nan), neg(small))}[name]
        if isinstance(x, A.Any):
            return B("var", name + "?")
        if isinstance(x, SArray):
            bad = x.store.bad
            if bad is None:
                return Flags(good, good)
            if not covers(x) or len(x.store.layers) != x.store.bad_layers:
                raise Unsupported("part of an array with a non-finite element")
            t = test(bad)
            return Flags(good or t, good and t)
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = np.empty(x.shape, dtype=object)
            for i, e in np.ndenumerate(x):
                out[i] = m(e)
            return out if out.ndim else out[()]
        if symbolic(x):
            return good
        return getattr(np, name)(x, *a, **k)
    MODELS[id(getattr(np, name))] = (m, getattr(np, name))
    if hasattr(math, name):
        MODELS[id(getattr(math, name))] = (m, getattr(math, name))


_classify("isfinite", lambda w: False, True)
_classify("isnan", lambda w: w == "nan", False)
_classify("isinf", lambda w: w == "inf", False)


@model(np.logical_not)
def _lnot(x):
    if isinstance(x, Flags):
        return ~x
    if isinstance(x, np.ndarray) and x.dtype == object:
        out = np.empty(x.shape, dtype=object)
        for i, e in np.ndenumerate(x):
            out[i] = _not(e)
        return out
    return np.logical_not(x)


def _not(e):
    from .terms import neg
    return neg(e) if isinstance(e, B) else not e


@model(np.all)
def _npall(x, *a, **k):
    if isinstance(x, Flags):
        return x.every
    if isinstance(x, SymSeq) and not a and not k:
        return holds_everywhere(x)
    if isinstance(x, (B, bool, np.bool_)):
        return x
    if isinstance(x, np.ndarray) and x.dtype == object:
        return conj(*[e if isinstance(e, (B, bool)) else bool(e) for e in x.ravel()])
    return np.all(x, *a, **k)


@model(np.any)
def _npany(x, *a, **k):
    from .terms import disj
    if isinstance(x, Flags):
        return x.some
    if isinstance(x, (B, bool, np.bool_)):
        return x
    if isinstance(x, np.ndarray) and x.dtype == object:
        return disj(*[e if isinstance(e, (B, bool)) else bool(e) for e in x.ravel()])
    return np.any(x, *a, **k)


@model(np.sum)
def _npsum(x, axis=None, **k):
    if isinstance(x, SArray):
        raise Unsupported("np.sum over a symbolic shape")
    return np.sum(x, axis=axis, **k)


@model(np.min, np.amin)
def _npamin(x, *a, **k):
    if isinstance(x, SArray):
        return sorted_end(x, 0)
    return np.min(x, *a, **k)


@model(np.max, np.amax)
def _npamax(x, *a, **k):
    if isinstance(x, SArray):
        return largest(x)
    if isinstance(x, np.ndarray) and x.dtype == object and x.ndim == 1 and not a and not k:
        return _ext((x,), "max")
    return np.max(x, *a, **k)


def largest(x):
    v = HOOK.engine.maxima.get(x.store)
    if v is not None and not x.store.layers and x.ndim == len(x.store.shape) and \
            all(lift(p).same(q) for p, q in zip(x.shape, x.store.shape)):
        return v
    return sorted_end(x, -1)


def sorted_info(x):
    if x.ndim != 1 or x.store.layers:
        return None
    for a in x.axes:
        if a[0] != "ax" or a[3] != 1 or not (lift(a[2]).is_const() and lift(a[2]).const() == 0):
            return None
    return HOOK.engine.sorted_funs.get(x.store.name)


def sorted_end(x, k):
    if sorted_info(x) is None:
        raise Unsupported("min/max of an array not known to be sorted")
    trust("numpy.min/max of a sorted array are its first/last element")
    return x[0] if k == 0 else x[-1]


def _searchsorted(a, v, side="left", *r, **k):
    eng = HOOK.engine
    if isinstance(a, np.ndarray) and a.dtype != object and not symbolic(v):
        return np.searchsorted(a, v, side, *r, **k)
    if isinstance(v, SArray):
        raise Unsupported("searchsorted of an array")
    trust("numpy.searchsorted(a, v, side) on sorted a: a[r-1] < v <= a[r] (left), a[r-1] <= v < a[r] (right); 0 <= r <= n always")
    n = lift(a.shape[0])
    if isinstance(v, A.Fl):
        # nan is put at the end
        t = integer(fresh_name("ss"))
        eng.assume(conj(cmp("<=", 0, t), cmp("<=", t, n), disj(neg(v.nan), cmp("==", t, n))))
        lo, hi = sorted_end(a, 0), sorted_end(a, -1)
        op = "<" if side == "left" else "<="
        for edge, isend in ((lo, cmp("==", t, 0)), (hi, cmp("<", t, n))):
            below = cmp(op, edge, v.t)
            eng.assume(disj(v.nan, conj(below, neg(isend)), conj(neg(below), isend)))
        return t
    if isinstance(v, A.Any):
        t = integer(fresh_name("ss"))
        eng.assume(conj(cmp("<=", 0, t), cmp("<=", t, n)))
        return t
    lt = (lambda x, y: cmp("<", x, y)) if side == "left" else (lambda x, y: cmp("<=", x, y))
    ge = (lambda x, y: neg(lt(x, y)))
    if isinstance(a, np.ndarray):
        cnt = 0
        for e in a:
            if not eng.decide(lt(e, v)):
                return cnt
            cnt += 1
        return cnt
    info = sorted_info(a)
    if info is None:
        raise Unsupported("searchsorted in an array not known to be sorted")
    # candidates: consecutive known positions; an element is read only where it exists
    def bracket(c):
        if eng.entails(cmp("==", c, 0)):
            lo = True
        elif eng.entails(conj(cmp("<=", 1, c), cmp("<=", c, n))):
            lo = lt(a[c - 1], v)
        else:
            return None
        if eng.entails(cmp("==", c, n)):
            hi = True
        elif eng.entails(conj(cmp("<=", 0, c), cmp("<", c, n))):
            hi = ge(a[c], v)
        else:
            return None
        return lo, hi
    cands = []
    for c in info["cands"]:
        b = bracket(c)
        if b is None:
            continue
        if eng.entails(b[0]) and eng.entails(b[1]):
            return c
        cands.append((c, b))
    for c, b in cands:
        if eng.decide(conj(*b)):
            return c
    t = integer(fresh_name("ss"))
    eng.assume(conj(cmp("<=", 0, t), cmp("<=", t, n)))
    raise Unsupported("position in a sorted array not determined")


MODELS[id(np.searchsorted)] = (_searchsorted, np.searchsorted)


@model(np.allclose)
def _allclose(a, b, *r, **k):
    """nearness says nothing about equality: both answers are possible"""
    if not (symbolic(a) or symbolic(b)):
        return np.allclose(a, b, *r, **k)
    return HOOK.engine.decide(B("var", fresh_name("near")))


@model(np.dot)
def _dot(a, b, *r):
    if isinstance(a, SArray) or isinstance(b, SArray):
        return A.matmul(a, b)
    return np.dot(a, b, *r)


@model(np.where)
def _where(*a):
    if any(isinstance(x, SArray) for x in a):
        raise Unsupported("where")
    return np.where(*a)


def _join(xs, axis):
    eng = HOOK.engine
    ops = [A.operand(x) for x in xs]
    nd = len(ops[0][0])
    axis = axis % nd
    sh = list(ops[0][0])
    starts = [const(0)]
    for s, _ in ops:
        for q in range(nd):
            if q != axis:
                eng.prove(cmp("==", s[q], sh[q]), "joined arrays agree on the other axes", "pre")
        starts.append(starts[-1] + lift(s[axis]))
    sh[axis] = starts[-1]

    def g(idx, sub):
        i = lift(idx[axis])
        st = [s.subst(sub) if sub else s for s in starts]
        if sub:
            i = i.subst(sub)
        for n in range(len(ops)):
            f = conj(cmp("<=", st[n], i), cmp("<", i, st[n + 1]))
            if f is True or (f is not False and eng.entails(f)):
                return ops[n][1](list(idx[:axis]) + [i - st[n]] + list(idx[axis + 1:]), sub)
        tot = const(0)
        for n in range(len(ops)):
            f = conj(cmp("<=", st[n], i), cmp("<", i, st[n + 1])) if 0 < n < len(ops) - 1 else \
                cmp("<", i, st[1]) if n == 0 else cmp("<=", st[n], i)
            w = indicator(f)
            if w is None:
                raise Unsupported("piece of a joined array")
            tot = tot + w * ops[n][1](list(idx[:axis]) + [i - st[n]] + list(idx[axis + 1:]), sub)
        return tot
    return Store(fresh_name("joined"), [x.const() if isinstance(x, T) and x.is_const() else x for x in sh], ("fn", g)).full()


@model(np.tensordot)
def _tensordot(a, b, axes=2):
    if not (isinstance(a, SArray) or isinstance(b, SArray)):
        if symbolic(a) or symbolic(b):
            a, b = to_obj(a), to_obj(b)
        return np.tensordot(a, b, axes)
    if axes == 1:
        return A.contract(a, b, np.ndim(a) - 1 if not isinstance(a, SArray) else a.ndim - 1, 0)
    if isinstance(axes, (tuple, list)) and len(axes) == 2:
        one = [x[0] if isinstance(x, (tuple, list)) and len(x) == 1 else x for x in axes]
        if all(isinstance(x, int) for x in one):
            nd = [x.ndim for x in (a, b)]
            return A.contract(a, b, one[0] % nd[0], one[1] % nd[1])
    raise Unsupported("tensordot over several axes")


@model(map)
def _map(f, *xs):
    if len(xs) == 1 and isinstance(xs[0], (SymRange, SArray, SymSeq)):
        return comprehension(lambda x: call(f, x), xs[0])
    return (call(f, *t) for t in zip(*xs))


@model(np.linalg.solve)
def _solve(a, b, *r, **k):
    if not (symbolic(a) or symbolic(b)):
        return np.linalg.solve(a, b, *r, **k)
    eng = HOOK.engine
    trust("numpy.linalg.solve(A, b) is a vector x with A x = b (A square and nonsingular)")
    (sa, fa), (sb, fb) = A.operand(a), A.operand(b)
    if len(sa) != 2 or len(sb) not in (1, 2):
        raise Unsupported("solve with stacked matrices")
    n = lift(sa[0])
    eng.prove(cmp("==", n, sa[1]), "the matrix of a linear system is square", "pre")
    eng.prove(cmp("==", n, sb[0]), "the right-hand side has as many rows as the matrix", "pre")
    X = fresh_name("X")
    if eng.loopvars:
        raise Unsupported("linear system inside a loop of symbolic length")
    if n.is_const():
        raise Unsupported("linear system of fixed size")
    # b(i) = sum_j A(i, j) x(j), used to rewrite the elements of b
    i = integer(fresh_name("i"))
    c = [integer(fresh_name("c")) for _ in sb[1:]]
    v = lift(fb([i] + c, None))
    from .binder import instance, sum_of
    if len(v.p) == 1:
        (m, cf), = v.p.items()
        if len(m) == 1 and m[0][1] == 1 and cf == 1 and ATOMS[m[0][0]].kind == "app" and ATOMS[m[0][0]].name not in eng.expand:
            at = ATOMS[m[0][0]]
            pos = {}
            for q, x in enumerate(at.args):
                for s in [i] + c:
                    if x.same(s):
                        pos[q] = s
            if len(pos) == len(at.args) == 1 + len(c):
                def rule(args):
                    mp = {A.aid(s): args[q] for q, s in pos.items()}
                    ix = [s.subst(mp) for s in [i] + c]
                    for x, d in zip(ix, sb):
                        f = conj(cmp("<=", 0, x), cmp("<", x, d))
                        if not (f is True or (f is not False and eng.entails(f))):
                            return None
                    q, e = instance(const(0), n, lambda q: fa([ix[0], q], None) * app(X, [q] + ix[1:]))
                    return const(0) if e is None else sum_of(const(0), n, q, e)
                eng.expand[at.name] = rule
    return Store(X, [x.const() if isinstance(x, T) and x.is_const() else x for x in sb], ("input", X)).full()


@model(np.concatenate)
def _concat(xs, axis=0, **k):
    xs = list(xs)
    if any(isinstance(x, SArray) for x in xs):
        return _join(xs, axis)
    if any(symbolic(x) for x in xs):
        xs = [to_obj(x) for x in xs]
    return np.concatenate(xs, axis=axis, **k)


def numba_models():
    import numba

    def ident(x):
        return x
    from .interp import numba_type
    MODELS[id(numba.typeof)] = (lambda x, *a: numba_type(x, False), numba.typeof)
    MODELS[id(numba.literally)] = (ident, numba.literally)
    MODELS[id(numba.prange)] = (_range, numba.prange)


numba_models()
