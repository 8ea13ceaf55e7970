"""Arrays of symbolic shape: a base content plus an ordered list of layers.

A layer writes the set of elements { pattern(formals) : formals in ranges }
with a value that depends on the formals; a single element is a layer with no
formals.  Stores are updated in place; layer tuples are immutable, so a
snapshot is free.
"""
import numpy as np

from .terms import (ATOMS, B, HOOK, T, Unsupported, app, atom, cmp, conj, const, disj, fresh_name,
                    integer, lift, lift_or_none, neg, of_atom, to_real)


class Any:
    """A number about which nothing is known (it may be nan or infinite)."""
    machine = True
    __array_ufunc__ = None

    def _t(self, *a):
        return self

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _t
    __truediv__ = __rtruediv__ = __floordiv__ = __rfloordiv__ = __mod__ = _t
    __pow__ = __rpow__ = __neg__ = __pos__ = __abs__ = _t

    def _c(self, o):
        return B("var", fresh_name("cmp"))

    __lt__ = __le__ = __gt__ = __ge__ = _c

    def __eq__(self, o):
        return B("var", fresh_name("cmp"))

    __ne__ = __eq__
    __hash__ = object.__hash__

    def __bool__(self):
        return HOOK.engine.choose("bool")


ANY = Any()


class Fl(Any):
    """A machine float: nan, or a number t (an infinity is a t beyond every finite one).
    Arithmetic on it gives another machine float about which nothing is assumed."""

    def __init__(self, t=None, nan=None):
        self.t = of_atom(atom("sym", fresh_name("fl"), "R")) if t is None else t
        self.nan = B("var", fresh_name("nan")) if nan is None else nan

    def _t(self, *a):
        return Fl()

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _t
    __truediv__ = __rtruediv__ = __floordiv__ = __rfloordiv__ = __mod__ = __rmod__ = _t
    __pow__ = __rpow__ = _t

    def __neg__(self):
        return Fl(-self.t, self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        r = Fl(nan=self.nan)
        HOOK.engine.assume(disj(conj(cmp("<=", 0, self.t), cmp("==", r.t, self.t)),
                                conj(cmp("<", self.t, 0), cmp("==", r.t, -self.t))))
        return r

    def _cmp(self, op, o):
        if isinstance(o, Fl):
            return conj(neg(self.nan), neg(o.nan), cmp(op, self.t, o.t))
        if isinstance(o, Any):
            return B("var", fresh_name("cmp"))
        if isinstance(o, float) and o != o:
            return False
        if isinstance(o, float) and o in (float("inf"), -float("inf")):
            o = (1 if o > 0 else -1) * const(2) ** 1024
        return conj(neg(self.nan), cmp(op, self.t, lift(o)))

    def __lt__(self, o):
        return self._cmp("<", o)

    def __le__(self, o):
        return self._cmp("<=", o)

    def __gt__(self, o):
        return self._cmp(">", o)

    def __ge__(self, o):
        return self._cmp(">=", o)

    def __eq__(self, o):
        return self._cmp("==", o)

    def __ne__(self, o):
        return neg(self._cmp("==", o))

    __hash__ = object.__hash__

    def __bool__(self):
        return bool(disj(self.nan, cmp("!=", self.t, 0)))

    def truncated(self, floor=False):
        """conversion to an integer: unspecified for nan and beyond the 64-bit range"""
        k = integer(fresh_name("int"))
        big = const(2) ** 63
        ok = conj(cmp("<=", to_real(k), self.t), cmp("<", self.t, to_real(k) + 1))
        if not floor:
            ok = disj(conj(cmp("<=", 0, self.t), ok),
                      conj(cmp("<", self.t, 0), cmp("<=", self.t, to_real(k)), cmp("<", to_real(k), self.t + 1)))
        e = HOOK.engine
        e.assume(disj(self.nan, cmp("<=", big, self.t), cmp("<", self.t, -big), ok))
        e.assume(conj(cmp("<=", -big, k), cmp("<", k, big)))
        return k

    def floored(self):
        k = integer(fresh_name("fl"))
        HOOK.engine.assume(disj(self.nan, conj(cmp("<=", to_real(k), self.t), cmp("<", self.t, to_real(k) + 1))))
        return Fl(to_real(k), self.nan)


class NonFinite(Any):
    """nan or an infinity"""

    def __init__(self, what):
        self.what = what



class Poison:
    """A value that the summary of a loop does not describe."""

    def __getattr__(self, n):
        if n.startswith("__array"):
            raise AttributeError(n)
        raise Unsupported("value left over from a summarised loop is used")


POISON = Poison()
UNDEF = object()


class Layer:
    __slots__ = ("formals", "ranges", "pattern", "value", "only", "tag")

    def __init__(self, formals, ranges, pattern, value, only=None, tag=None):
        self.formals = formals      # tuple of T (integer atoms)
        self.ranges = ranges        # tuple of (lo, hi) meaning lo <= f < hi
        self.pattern = pattern      # tuple of T
        self.value = value          # T | Copy | POISON | ANY
        self.only = only or {}      # formal atom id -> T: the only instance described
        self.tag = tag


class Copy:
    """Value of a layer copied from (a snapshot of) another array view."""
    __slots__ = ("view", "layers", "index", "sub")

    def __init__(self, view, layers, index, sub=None):
        self.view, self.layers, self.index, self.sub = view, layers, index, sub or {}


class Block:
    """Layers that together write each of the positions lo+1 .. hi along an axis exactly once:
    one position per layer and assignment of its formals, in the order of a counter."""

    def __init__(self, axis, lo, hi, layers):
        self.axis, self.lo, self.hi, self.layers = axis, lo, hi, list(layers)
        for l in layers:
            l.tag = self


def aid(t):
    (m,) = t.p
    return m[0][0]


def lin_coef(t, a):
    """coefficient of atom a if t is linear in it and it occurs nowhere else; None otherwise"""
    c = t.p.get(((a, 1),), 0)
    rest = T({m: v for m, v in t.p.items() if m != ((a, 1),)}, t.sort)
    if a in rest.atoms_deep():
        return None, None
    return c, rest


class Store:
    n = 0

    def __init__(self, name, shape, base, elem="R"):
        Store.n += 1
        self.serial = Store.n
        self.name = name
        self.shape = tuple(shape)
        self.base = base            # ('input', fname) | ('const', v) | UNDEF | ('fn', f)
        self.layers = ()
        self.elem = elem
        self.readlog = None
        self.written = False
        self.readonly = False
        self.noassign = False
        self.layout = "C"
        self.bad = None             # 'nan' or 'inf': exactly one element is not finite
        self.bad_layers = 0
        self.alias = None           # a reshaped view of that store
        if HOOK.engine is not None:
            HOOK.engine.stores.append(self)

    def full(self):
        return SArray(self, [("ax", k, 0, 1) for k in range(len(self.shape))], self.shape)


def match(layer, idx, sub):
    """Solve pattern(formals) = idx.  Returns (condition, formal map) or None."""
    mp = {}
    todo = list(range(len(idx)))
    pat = [p.subst(sub) for p in layer.pattern] if sub else list(layer.pattern)
    forms = {aid(f) for f in layer.formals}
    progress = True
    while progress and len(mp) < len(forms):
        progress = False
        for q in todo:
            e = pat[q].subst(mp)
            un = [f for f in forms if f not in mp and f in e.atoms_deep()]
            if len(un) == 1:
                c, rest = lin_coef(e, un[0])
                if c in (1, -1):
                    mp[un[0]] = (idx[q] - rest) * c
                    todo.remove(q)
                    progress = True
                    break
    if len(mp) < len(forms):
        if not radix(layer, pat, forms, idx, todo, mp, sub):
            return ("unsolved", None)
    conds = []
    for q in todo:
        f = cmp("==", idx[q], pat[q].subst(mp))
        if f is False:
            return None
        conds.append(f)
    for f, (lo, hi) in zip(layer.formals, layer.ranges):
        v = mp[aid(f)]
        lo, hi = lift(lo), lift(hi)
        if sub:
            lo, hi = lo.subst(sub), hi.subst(sub)
        lo, hi = lo.subst(mp), hi.subst(mp)
        for g in (cmp("<=", lo, v), cmp("<", v, hi)):
            if g is False:
                return None
            conds.append(g)
    return (conj(*conds), mp)


def radix(layer, pat, forms, idx, todo, mp, sub):
    """Solve c1 f1 + ... + ck fk + rest = idx for formals with 0 <= fj < wj when each
    coefficient is the product of the next one and its width (mixed radix digits): the
    digits are unique, so finding some is finding all."""
    eng = HOOK.engine
    un = [f for f in layer.formals if aid(f) not in mp]
    ids = {aid(f) for f in un}
    wid = {}
    for f, (lo, hi) in zip(layer.formals, layer.ranges):
        if aid(f) in ids:
            lo, hi = lift(lo).subst(mp), lift(hi).subst(mp)
            if sub:
                lo, hi = lo.subst(sub), hi.subst(sub)
            if (lo.atoms_deep() | hi.atoms_deep()) & ids:
                return False
            wid[aid(f)] = (lo, hi - lo)
    for q in list(todo):
        e = pat[q].subst(mp)
        if not ids <= e.atoms_deep():
            continue
        coef, rest = {}, e
        for f in ids:
            c, r = joint_coef(e, f, ids)
            if c is None:
                return False
            coef[f] = c
            rest = rest - c * of_atom(ATOMS[f])
        if rest.atoms_deep() & ids:
            return False
        # order of the digits: c_first = 1, c_next = c * w
        order, cur = [], const(1)
        left = set(ids)
        while left:
            nxt = [f for f in left if (coef[f] - cur).p == {}]
            if not nxt:
                return False
            # a digit of width one does not advance
            f = nxt[0]
            order.append(f)
            left.discard(f)
            cur = coef[f] * wid[f][1]
        base = idx[q] - rest
        for f in ids:
            base = base - coef[f] * wid[f][0]
        g = digits(base, [(coef[f], wid[f][1]) for f in order])
        if g is None:
            return False
        for f, v in zip(order, g):
            mp[f] = v + wid[f][0]
        todo.remove(q)
        return True
    return False


def joint_coef(e, a, ids):
    """coefficient of atom a in e when no monomial mixes it with another of ids"""
    p = {}
    for m, c in e.p.items():
        k = dict(m)
        if a in k:
            if k.pop(a) != 1 or any(x in ids or ATOMS[x].deep & ids for x in k):
                return None, None
            p[tuple(sorted(k.items()))] = c
        elif any(x not in ids and a in ATOMS[x].deep for x in k):
            return None, None
    return T(p, e.sort), None


def digits(t, places):
    """Digits of t for places (coefficient, width): candidates are the arbitrary indices
    the harness named for these widths; accepted only if they add up to t exactly."""
    import itertools
    eng = HOOK.engine
    cands = []
    for c, w in places:
        w = lift(w)
        own = [lift(f) for n, f in eng.focus if lift(n).same(w)]
        if w.is_const() and w.const() == 1:
            own = [const(0)]
        own.append(None)
        cands.append(own)
    for pick in itertools.product(*cands):
        if pick.count(None) > 1:
            continue
        r = t
        for g, (c, w) in zip(pick, places):
            if g is not None:
                r = r - lift(c) * g
        out = list(pick)
        if None in pick:
            k = pick.index(None)
            v = int_quotient(r, lift(places[k][0]))
            if v is None:
                continue
            out[k] = v
        elif r.p:
            continue
        if all(eng.entails(conj(cmp("<=", 0, g), cmp("<", g, w))) for g, (c, w) in zip(out, places)):
            return out
    return None


def int_quotient(r, c):
    """r / c when c is a monomial and the quotient has no denominators"""
    if len(c.p) != 1:
        return None
    v = r / c
    if any(e < 0 for m in v.p for _, e in m) or any(not isinstance(k, int) for k in v.p.values()):
        return None
    return T(v.p, "I")


def read(store, layers, idx, sub=None, log=True):
    eng = HOOK.engine
    idx = tuple(lift(i) for i in idx)
    for n in range(len(layers) - 1, -1, -1):
        l = layers[n]
        s = sub
        m = match(l, idx, s)
        if m is None:
            continue
        if m[0] == "unsolved":
            # no way to tell which iteration wrote it: only a provable miss is usable
            if misses(l, idx, s):
                continue
            raise Unsupported("cannot invert an index of a summarised loop")
        cond, mp = m
        if cond is not True:
            if eng.scout and not eng.entails(cond) and not eng.entails(neg(cond)):
                if store.readlog is not None:
                    store.readlog.append((idx, -1, layers))
                return of_atom(atom("sym", fresh_name("scout"), store.elem))
            if not eng.decide(cond):
                continue
        for f, only in l.only.items():
            if f in mp and not mp[f].same(only):
                if not eng.entails(cmp("==", mp[f], only)):
                    if eng.scout:
                        eng.scout_bad = True
                        return of_atom(atom("sym", fresh_name("scout"), store.elem))
                    raise Unsupported("loop body branches on its index: only the focused iteration is described")
        if log and store.readlog is not None:
            store.readlog.append((idx, n, layers))
        full = dict(s or {})
        full.update(mp)
        return value_of(l.value, full)
    if log and store.readlog is not None:
        store.readlog.append((idx, -1, layers))
    return base_value(store, idx, sub)


def misses(l, idx, sub):
    eng = HOOK.engine
    forms = {aid(f) for f in l.formals}
    if isinstance(l.tag, Block):
        lo, hi = (l.tag.lo, l.tag.hi) if not sub else (l.tag.lo.subst(sub), l.tag.hi.subst(sub))
        for f in (cmp("<=", idx[l.tag.axis], lo), cmp("<", hi, idx[l.tag.axis])):
            if f is True or (f is not False and eng.entails(f)):
                return True
    for q, p in enumerate(l.pattern):
        p = p.subst(sub) if sub else p
        if not (p.atoms_deep() & forms):
            f = cmp("!=", idx[q], p)
            if f is True or eng.entails(f):
                return True
    return False


def compose(first, then):
    out = {k: w.subst(then) for k, w in first.items()}
    for k, w in then.items():
        out.setdefault(k, w)
    return out


def rename_layer(l, mp, formals=(), ranges=(), only=None):
    """Substitute mp in a layer and append formals."""
    if isinstance(l.value, T):
        v = l.value.subst(mp)
    elif isinstance(l.value, Copy):
        c = l.value
        v = Copy(c.view, c.layers, c.index, compose(c.sub, mp))
    else:
        v = l.value
    o = {k: w.subst(mp) for k, w in l.only.items()}
    o.update(only or {})
    return Layer(l.formals + tuple(formals),
                 tuple((lift(a).subst(mp), lift(b).subst(mp)) for a, b in l.ranges) + tuple(ranges),
                 tuple(p.subst(mp) for p in l.pattern), v, o)


def value_of(v, mp):
    if isinstance(v, T):
        return v.subst(mp)
    if isinstance(v, Copy):
        idx = [i.subst(mp) for i in v.index]
        sub = compose(v.sub, mp)
        return read(v.view.store, v.layers, v.view.map(idx, sub), sub, log=False)
    if v is POISON:
        raise Unsupported("element left over from a summarised loop is read")
    return v


def base_value(store, idx, sub):
    b = store.base
    if b is UNDEF:
        raise Unsupported("uninitialised element of %s is read" % store.name)
    if b[0] == "input":
        pre = [x.subst(sub) if sub else x for x in b[2:]]
        return app(b[1], pre + list(idx), store.elem)
    if b[0] == "const":
        return b[1]
    if b[0] == "fn":
        return b[1](idx, sub)
    raise Unsupported("base")


def first_round(i):
    """does i depend on a counter whose steps are still being found?  What is found in that
    run of a loop body is dropped; the body is run again with the counters known."""
    return any(ATOMS[a].kind == "sym" and ATOMS[a].name.startswith("carried!") for a in i.atoms_deep())


class MemoryFlags:
    """Memory layout of an array: known for a whole array the code created, anything otherwise."""

    def __init__(self, a):
        self.a = a

    def _get(self, n):
        a, eng = self.a, HOOK.engine
        whole = [x[0] == "ax" and x[1] == k and lift(x[2]).same(0) and lift(x[3]).same(1) for k, x in enumerate(a.axes)]
        given = isinstance(a.store.base, tuple) and a.store.base[0] == "input"
        if not given and n == "writeable":
            return True
        if not given and a.store.alias is None and len(a.axes) == 1 and all(whole):
            return True
        if not given and a.ndim > 1:
            raise Unsupported("memory order of an array the code created")
        if a.ndim == 1 and n == "f_contiguous":
            n = "c_contiguous"
        key = (a.store.serial, repr(a.axes), n)
        known = eng.__dict__.setdefault("memory_flags", {})
        if key not in known:
            known[key] = integer(fresh_name("flag"))
        return eng.decide(cmp("==", known[key], 1))

    @property
    def c_contiguous(self):
        return self._get("c_contiguous")

    contiguous = c_contiguous

    @property
    def f_contiguous(self):
        return self._get("f_contiguous")

    @property
    def writeable(self):
        return self._get("writeable")

    def __getitem__(self, n):
        m = {"C": "c_contiguous", "F": "f_contiguous", "W": "writeable"}
        n = m.get(n, n.lower())
        if n not in m.values():
            raise Unsupported("array flag %s" % n)
        return self._get(n)

    def __getattr__(self, n):
        raise Unsupported("array flag %s" % n)


class SArray:
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, store, axes, shape):
        self.store = store
        self.axes = axes
        self.shape = tuple(shape)

    # view axis index -> store index
    def map(self, idx, sub=None):
        out = []
        for a in self.axes:
            if a[0] == "fix":
                out.append(a[1].subst(sub) if sub else a[1])
            else:
                _, k, start, step = a
                st = start.subst(sub) if sub and isinstance(start, T) else start
                out.append(lift(idx[k]) * step + st)
        return tuple(out)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = const(1)
        for s in self.shape:
            r = r * s
        return r if not r.is_const() else r.const()

    @property
    def flags(self):
        return MemoryFlags(self)

    @property
    def dtype(self):
        return np.dtype("float64") if self.store.elem == "R" else np.dtype("int64")

    @property
    def T(self):
        n = self.ndim
        axes = [a if a[0] == "fix" else ("ax", n - 1 - a[1], a[2], a[3]) for a in self.axes]
        return SArray(self.store, axes, self.shape[::-1])

    def __len__(self):
        raise Unsupported("len() outside instrumented code")

    def __iter__(self):
        s = lift(self.shape[0])
        if s.is_const():
            return iter([self[i] for i in range(int(s))])
        raise Unsupported("iteration over an array of symbolic length")

    def __bool__(self):
        raise Unsupported("truth value of an array")

    def __repr__(self):
        return "<array %s %r>" % (self.store.name, self.shape)

    def _key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        n = sum(1 for k in key if k is not Ellipsis)
        if n > self.ndim:
            raise IndexError("too many indices for array")
        out = []
        seen = False
        for k in key:
            if k is Ellipsis:
                out.extend([slice(None)] * (self.ndim - n))
                seen = True
            else:
                out.append(k)
        out.extend([slice(None)] * (self.ndim - len(out)))
        return out

    def _resolve(self, key, write):
        """-> list per view axis: T (fixed) or (start, step, length)"""
        eng = HOOK.engine
        out = []
        for q, k in enumerate(self._key(key)):
            dim = lift(self.shape[q])
            if isinstance(k, slice):
                st = 1 if k.step is None else int(k.step)
                if k.start is None and k.stop is None and st == 1:
                    out.append((const(0), 1, dim))
                    continue
                if st == -1 and k.start is None and k.stop is None:
                    out.append((dim - 1, -1, dim))
                    continue
                if st != 1:
                    raise Unsupported("strided slice")

                def pos(x, default):
                    if x is None:
                        return default
                    x = lift(x)
                    if x.is_const() and x.const() < 0:
                        x = dim + x
                    # python clamps slices
                    if eng.entails(conj(cmp("<=", 0, x), cmp("<=", x, dim))):
                        return x
                    if eng.decide(cmp("<", x, 0)):
                        return const(0)
                    if eng.decide(cmp("<", dim, x)):
                        return dim
                    return x
                a, b = pos(k.start, const(0)), pos(k.stop, dim)
                if not eng.decide(cmp("<=", a, b)):
                    b = a
                out.append((a, 1, b - a))
                continue
            if isinstance(k, Any):
                raise Unsupported("unknown index")
            i = lift_or_none(k)
            if i is None:
                raise Unsupported("index of type %s" % type(k).__name__)
            if i.sort != "I":
                ip = i
                from .terms import int_part
                a, b = int_part(i)
                if b.p:
                    raise Unsupported("non-integer index %r" % i)
                i = a
            if i.is_const() and i.const() < 0:
                i = dim + i
            if eng.check_bounds and not first_round(i):
                f = conj(cmp("<=", 0, i), cmp("<", i, dim))
                nm = "index in bounds"
                if not (f is True or eng.entails(f)):
                    # a negative index counts from the end
                    g = cmp("<", i, 0)
                    if eng.entails(g) or (not eng.entails(neg(g)) and eng.wraps(g, i, dim)):
                        i = dim + i
                        f = conj(cmp("<=", 0, i), cmp("<", i, dim))
                if f is True or eng.entails(f):
                    eng.obl(nm, "bounds", "ok", "z3")
                else:
                    eng.fail(nm, "bounds", "index %r of axis %d of %s (length %r) may be out of bounds"
                             % (i, q, self.store.name, dim), neg(f))
                    # continue under the assumption, so that one defect is reported once
                    eng.assume(f, check=True)
            out.append(i)
        return out

    def __getitem__(self, key):
        if isinstance(key, tuple) and any(k is None for k in key):
            return self._newaxis(key)
        r = self._resolve(key, False)
        if all(isinstance(x, T) for x in r):
            v = read(self.store, self.store.layers, self.map(r))
            return v
        return self._view(r)

    def _newaxis(self, key):
        v = self[tuple(k for k in key if k is not None)]
        if Ellipsis in [k for k in key if not isinstance(k, (T, SArray))]:
            raise Unsupported("newaxis with ellipsis")
        # position of every new axis among the kept ones
        order, kept = [], 0
        for k in key:
            if k is None:
                order.append(None)
            elif isinstance(k, slice):
                order.append(kept)
                kept += 1
        nd = v.ndim if isinstance(v, SArray) else 0
        order += list(range(kept, nd))
        new = {o: n for n, o in enumerate(order) if o is not None}
        axes = [a if a[0] == "fix" else ("ax", new[a[1]], a[2], a[3]) for a in v.axes]
        return SArray(v.store, axes, [1 if o is None else v.shape[o] for o in order])

    def _view(self, r):
        new = {}
        shape = []
        for q, x in enumerate(r):
            if isinstance(x, T):
                new[q] = ("fix", x)
            else:
                new[q] = ("ax", len(shape), x[0], x[1])
                shape.append(x[2])
        axes = []
        for a in self.axes:
            if a[0] == "fix":
                axes.append(a)
                continue
            _, k, start, step = a
            n = new[k]
            if n[0] == "fix":
                axes.append(("fix", n[1] * step + start))
            else:
                axes.append(("ax", n[1], lift(n[2]) * step + start, n[3] * step))
        shape = [s.const() if isinstance(s, T) and s.is_const() else s for s in shape]
        return SArray(self.store, axes, shape)

    def __setitem__(self, key, val):
        eng = HOOK.engine
        r = self._resolve(key, True)
        st = self.store
        if st.readonly:
            eng.fail("inputs are not modified", "frame", "write to input array %s" % st.name, True)
        if st.noassign:
            raise Unsupported("write through a reshaped view")
        st.written = True
        if all(isinstance(x, T) for x in r):
            if isinstance(val, np.ndarray) and val.ndim == 0:
                val = val.item()
            if isinstance(val, (SArray, np.ndarray)):
                raise Unsupported("array assigned to an element")
            v = val if isinstance(val, (Any, Poison)) else coerce(st, val)
            st.layers = st.layers + (Layer((), (), self.map(r), v),)
            return
        view = self._view(r)
        view.fill(val)

    def fill(self, val):
        st = self.store
        forms = tuple(integer(fresh_name("f")) for _ in self.shape)
        rng = tuple((const(0), lift(s)) for s in self.shape)
        pat = self.map(forms)
        if isinstance(val, SArray):
            eng = HOOK.engine
            if val.ndim > self.ndim:
                raise Unsupported("broadcast")
            off = self.ndim - val.ndim
            for a, b in zip(self.shape[off:], val.shape):
                f = cmp("==", a, b)
                if not (f is True or eng.entails(f)):
                    raise Unsupported("cannot show that shapes agree: %r %r" % (a, b))
            log_all(val)
            v = Copy(val, val.store.layers, list(forms[off:]))
        elif isinstance(val, np.ndarray):
            if val.ndim == 0:
                v = lift(val.item())
            elif all(lift(s).is_const() for s in self.shape):
                import itertools
                bv = np.broadcast_to(val, tuple(int(s) for s in self.shape))
                for ix in itertools.product(*[range(int(s)) for s in self.shape]):
                    st.layers = st.layers + (Layer((), (), self.map(ix), coerce(st, bv[ix])),)
                return
            else:
                raise Unsupported("concrete array into a symbolic one")
        elif isinstance(val, (Any, Poison)):
            v = val
        else:
            v = coerce(st, val)
        st.layers = st.layers + (Layer(forms, rng, pat, v),)

    # whole-array arithmetic: elementwise, with broadcasting
    def __add__(self, o):
        return elementwise(lambda x, y: x + y, self, o)

    def __radd__(self, o):
        return elementwise(lambda x, y: x + y, o, self)

    def __sub__(self, o):
        return elementwise(lambda x, y: x - y, self, o)

    def __rsub__(self, o):
        return elementwise(lambda x, y: x - y, o, self)

    def __mul__(self, o):
        return elementwise(lambda x, y: x * y, self, o)

    def __rmul__(self, o):
        return elementwise(lambda x, y: x * y, o, self)

    def __truediv__(self, o):
        return elementwise(lambda x, y: x / y, self, o)

    def __rtruediv__(self, o):
        return elementwise(lambda x, y: x / y, o, self)

    def __pow__(self, o):
        return elementwise(lambda x, y: x ** y, self, o)

    def __neg__(self):
        return elementwise(lambda x: -x, self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def dot(self, o):
        return matmul(self, o)

    def _inplace(op):
        def f(self, o):
            self[(slice(None),) * self.ndim] = op(self, o)
            return self
        return f

    __iadd__ = _inplace(lambda x, y: x + y)
    __isub__ = _inplace(lambda x, y: x - y)
    __imul__ = _inplace(lambda x, y: x * y)
    __itruediv__ = _inplace(lambda x, y: x / y)

    def _no(self, *a):
        if a and hasattr(a[0], "compare"):
            return NotImplemented
        raise Unsupported("comparison of arrays of symbolic shape")

    __lt__ = __le__ = __gt__ = __ge__ = _no

    def reshape(self, *sh):
        eng = HOOK.engine
        if len(sh) == 1 and isinstance(sh[0], (list, tuple, np.ndarray, SArray)):
            sh = sh[0]
        sh = [x for x in sh]
        if len(sh) == self.ndim:
            ok = True
            for a, b in zip(self.shape, sh):
                f = cmp("==", a, b)
                if not (f is True or eng.entails(f)):
                    ok = False
            if ok:
                return self
        if self.ndim == 1:
            # C order; the caller's sizes have to agree
            n = const(1)
            for b in sh:
                n = n * b
            eng.prove(cmp("==", n, self.shape[0]), "reshape keeps the number of elements", "pre")

            def flat(idx):
                r = const(0)
                for i, b in zip(idx, sh):
                    r = r * b + i
                return (r,)
            return remap(self, flat, sh)
        if len(sh) == 1:
            n = const(1)
            for b in self.shape[1:]:
                n = n * b
            if n.is_const() and int(n.const()) == 1:
                # trailing axes of length one
                return remap(self, lambda idx: (idx[0],) + (const(0),) * (self.ndim - 1), (self.shape[0],))
            if lift(self.shape[0]).same(1) and self.ndim == 2:
                return remap(self, lambda idx: (const(0),) + tuple(idx), self.shape[1:])
            places, c = [], const(1)
            for w in reversed(self.shape):
                places.append((c, lift(w)))
                c = c * w
            f = cmp("==", c, sh[0])
            if f is True or eng.entails(f) or lift(sh[0]).same(-1):
                def unflat(idx):
                    g = digits(idx[0], places)
                    if g is None:
                        raise Unsupported("element of a flattened array at an index without known digits")
                    return tuple(reversed(g))
                return remap(self, unflat, (c,))
        # common trailing axes
        same = lambda a, b: lift(a).same(b) or cmp("==", a, b) is True or (cmp("==", a, b) is not False and eng.entails(cmp("==", a, b)))
        t = 0
        while t < min(len(sh), self.ndim) - 1 and same(sh[-1 - t], self.shape[-1 - t]):
            t += 1
        if t:
            k = self.ndim - t
            tail = list(self.shape[k:])
            if k == 1:
                front = [x for x in sh[:len(sh) - t]]
                n = const(1)
                for b in front:
                    n = n * b
                if len(front) == 1 and lift(front[0]).same(-1):
                    return self
                eng.prove(cmp("==", n, self.shape[0]), "reshape keeps the number of elements", "pre")

                def split(idx):
                    r = const(0)
                    for i, b in zip(idx, front):
                        r = r * b + i
                    return (r,) + tuple(idx[len(front):])
                return remap(self, split, front + tail)
        raise Unsupported("reshape")

    def _nr(self):
        raise Unsupported("reshape")

    def copy(self, order=None):
        st = Store(self.store.name + "'", self.shape, UNDEF, self.store.elem)
        v = st.full()
        v.fill(self)
        if self.store.bad:
            st.bad, st.bad_layers = self.store.bad, len(st.layers)
        return v

    def astype(self, t):
        return self.copy()

    def ravel(self, order="C"):
        if self.ndim == 1:
            return self
        return self.reshape(self.size)

    def flatten(self, order="C"):
        return self.copy() if self.ndim == 1 else self.ravel()


def log_all(view):
    """Record that every element of the view is read now."""
    st = view.store
    if st.readlog is None:
        return
    eng = HOOK.engine
    ks = []
    for sz in view.shape:
        k = integer(fresh_name("k"))
        eng.assume(conj(cmp("<=", 0, k), cmp("<", k, sz)))
        ks.append(k)
    idx = view.map(ks)
    for n in range(len(st.layers) - 1, -1, -1):
        m = match(st.layers[n], idx, None)
        if m is None:
            continue
        if m[0] == "unsolved":
            if misses(st.layers[n], idx, None):
                continue
            break
        if m[0] is True or eng.entails(m[0]):
            st.readlog.append((idx, n, st.layers))
            return
        if not eng.entails(neg(m[0])):
            break
    st.readlog.append((idx, -1, st.layers))


def remap(view, f, shape):
    """A reshaped view, read only."""
    layers = view.store.layers
    log_all(view)

    def g(idx, sub):
        ix = f([lift(i) for i in idx])
        if sub:
            ix = tuple(lift(x).subst(sub) for x in ix)
        return read(view.store, layers, view.map(ix, sub), sub, log=False)
    st = Store(fresh_name("reshaped"), [x.const() if isinstance(x, T) and x.is_const() else x for x in shape],
               ("fn", g), view.store.elem)
    st.readonly = view.store.readonly
    st.noassign = True
    st.alias, st.bad = view.store, view.store.bad
    return st.full()


def root(st):
    while st.alias is not None:
        st = st.alias
    return st


def operand(x):
    """-> (shape, fn(idx, sub) -> value)"""
    if isinstance(x, SArray):
        layers = x.store.layers
        log_all(x)
        return x.shape, lambda idx, sub: read(x.store, layers, x.map(idx, sub), sub, log=False)
    if isinstance(x, np.ndarray) and x.ndim:
        y = x.copy()

        def g(idx, sub):
            ix = []
            for i in idx:
                i = lift(i)
                if sub:
                    i = i.subst(sub)
                if not i.is_const():
                    raise Unsupported("symbolic index into an array of fixed size")
                ix.append(int(i.const()))
            v = y[tuple(ix)]
            return v if isinstance(v, (T, Any)) else lift(v)
        return y.shape, g
    if isinstance(x, np.ndarray):
        x = x.item()
    if isinstance(x, (list, tuple)):
        raise Unsupported("arithmetic on a list")
    v = x if isinstance(x, Any) else lift(x)
    return (), lambda idx, sub: v.subst(sub) if sub and isinstance(v, T) else v


def elementwise(op, *xs, elem="R"):
    eng = HOOK.engine
    ops = [operand(x) for x in xs]
    n = max(len(sh) for sh, _ in ops)
    shape = []
    for q in range(n):
        cur = const(1)
        for sh, _ in ops:
            k = q - (n - len(sh))
            if k < 0:
                continue
            b = lift(sh[k])
            if cur.same(1):
                cur = b
            elif not b.same(1):
                f = cmp("==", cur, b)
                if not (f is True or (f is not False and eng.entails(f))):
                    raise ValueError("operands could not be broadcast together") if f is False else Unsupported(
                        "cannot show that shapes agree: %r %r" % (cur, b))
        shape.append(cur)

    def g(idx, sub):
        vals = []
        for sh, f in ops:
            off = n - len(sh)
            vals.append(f([const(0) if lift(s).same(1) else idx[off + q] for q, s in enumerate(sh)], sub))
        return op(*vals)
    return Store(fresh_name("expr"), [x.const() if x.is_const() else x for x in shape], ("fn", g), elem).full()


def contract(a, b, xa, xb):
    """Sum over axis xa of a and axis xb of b; remaining axes of a, then of b."""
    from .binder import instance, sum_of
    eng = HOOK.engine
    (sa, fa), (sb, fb) = operand(a), operand(b)
    k, k2 = lift(sa[xa]), lift(sb[xb])
    f = cmp("==", k, k2)
    if f is False:
        raise ValueError("shapes not aligned")
    if f is not True and not eng.entails(f):
        if k.is_const() != k2.is_const() or not k.is_const():
            eng.prove(f, "contracted axes have equal lengths", "pre")
    na = len(sa) - 1

    def term(idx, q, sub):
        ia, ib = list(idx[:na]), list(idx[na:])
        ia.insert(xa, q)
        ib.insert(xb, q)
        return fa(ia, sub) * fb(ib, sub)

    def g(idx, sub):
        idx = [lift(i) for i in idx]
        if k.is_const():
            tot = const(0, "R")
            for q in range(int(k.const())):
                tot = tot + term(idx, const(q), sub)
            return tot
        n = k.subst(sub) if sub else k
        q, e = instance(const(0), n, lambda q: term(idx, q, sub))
        return const(0, "R") if e is None else sum_of(const(0), n, q, lift(e))
    shape = [x for i, x in enumerate(sa) if i != xa] + [x for i, x in enumerate(sb) if i != xb]
    if not shape:
        return g((), None)
    return Store(fresh_name("prod"), shape, ("fn", g)).full()


def matmul(a, b):
    na, nb = np.ndim(a) if not isinstance(a, SArray) else a.ndim, np.ndim(b) if not isinstance(b, SArray) else b.ndim
    if na == 0 or nb == 0:
        return a * b
    if na > 2 or nb > 2:
        raise Unsupported("product of arrays with more than two axes")
    return contract(a, b, na - 1, 0 if nb == 1 else nb - 2)


def coerce(st, val):
    v = lift(val)
    if st.elem == "I" and v.sort != "I":
        raise Unsupported("real stored in an integer array")
    return to_real(v) if st.elem == "R" else v


def input_array(name, shape, elem="R", readonly=True):
    st = Store(name, shape, ("input", name), elem)
    st.readonly = readonly
    return st.full()


def new_array(name, shape, base, elem="R"):
    return Store(name, shape, base, elem).full()
