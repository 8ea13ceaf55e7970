"""Path condition, decisions, obligations and their discharge."""
import math
import os
import random
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

from .terms import (ATOMS, B, HOOK, PathEnd, T, Unsupported, app, atom, clear_denominators,
                    cmp, cmp0, conj, const, content, disj, div, fresh_name, implies, integer,
                    is_zero, lift, neg, of_atom, real, to_real)

# Solver effort is bounded by z3's own resource counter, not by the clock: the
# outcome of a check must not depend on how busy the machine is.  The wall-clock
# limit is only a safety net.
Z3_RLIMIT = int(os.environ.get("PYVC_Z3_RLIMIT", "6000000"))
Z3_TIMEOUT = int(os.environ.get("PYVC_Z3_MS", "60000"))


def new_solver(factor=1):
    s = z3.Solver()
    s.set("timeout", Z3_TIMEOUT)
    s.set("rlimit", Z3_RLIMIT * factor)
    return s


class Obligation:
    __slots__ = ("name", "kind", "status", "backend", "detail", "model", "where")

    def __init__(self, name, kind, status, backend, detail="", model=None, where=""):
        self.name, self.kind, self.status, self.backend = name, kind, status, backend
        self.detail, self.model, self.where = detail, model, where


class Stats:
    def __init__(self):
        self.z3_calls = 0
        self.z3_time = 0.0
        self.cvc5_calls = 0
        self.cvc5_time = 0.0
        self.functions = set()
        self.contracts_used = set()
        self.trusted = set()
        self.dropped = set()
        self.paths = 0
        self.loops = 0
        self.recurrences = 0
        self.uniform = {}        # loops with branches: what has to agree on all paths


class Rule:
    """A function symbol with unfolding rules: list of (name, fn) where
    fn(args) -> T or None."""

    def __init__(self, name, unfolders, direction=0, inv=None):
        self.name = name
        self.unfolders = unfolders
        self.direction = direction
        self.inv = inv or []
        self.order = 0
        self.group = 0        # the loop that defines the recurrence


class Engine:
    def __init__(self, script=(), stats=None):
        self.script = list(script)
        self.pos = 0
        self.taken = []          # decisions taken (bool, forced?)
        self.pending = []        # alternative scripts
        self.zfacts = {}         # number of a fact -> (z3 formula, its atoms)
        self.gid = {}            # atom -> group of facts that share atoms
        self.gfacts = {}         # group -> numbers of its facts
        self.nfact = 0
        self.zdefs = {}          # atom -> z3 definitions it brings along
        self.zcl = {}
        self.solvers = {}
        self.sat_cache = {}
        self.zvars = {}
        self.zcache = {}
        self.facts = []
        self.signs = {}
        self.obls = []
        self.stats = stats or Stats()
        self.rules = {}
        self.app_over = {}       # fname -> fn(args) -> T | None
        self.app_watch = {}      # fname -> fn(term)
        self.witnesses = []      # indices at which a universal statement may fail
        self.hooks = {}          # library functions by contract
        self.focus = []          # (length T, index T)
        self.binders = []        # ids of the indices of sums and comprehensions being evaluated
        self.expand = {}         # fname -> fn(args) -> T | None: definitions used under sums
        self.contracts = {}
        self.loopvars = []       # enclosing symbolic loop variables (T)
        self.symloops = []
        self.nforks = []         # formulas decided by forking
        self.max_forks = 60
        self.ent_cache = {}
        self.nan = False
        self.merge = False       # join branches that only assign to names (see Instr.visit_If)
        self.kinds = None        # kinds of obligations that are kept (all, if None)
        self.silent = 0
        self.group = ""
        self.check_bounds = True
        self.inv_seen = set()
        self.quiet_div = None
        self.deadline = None
        self.symnames = {}
        self.sorted_funs = {}
        self.stores = []
        self._sv = (-1, {})
        self.concrete = False
        self.objs = []
        self.powers = []
        self.linfacts = []       # facts about counters (polynomials), used by `linear` only
        self.maxima = {}         # array of symbolic length -> its largest element
        self.bind = {}
        self.frozen = []
        self.scout = False
        self.scout_bad = False
        self.symbolic_alloc = False

    # ------------------------------------------------------------ z3 side
    def zatom(self, a):
        v = self.zvars.get(a)
        if v is None:
            at = ATOMS[a]
            nm = "%s#%d" % (at.name, a)
            v = z3.Int(nm) if at.sort == "I" else z3.Real(nm)
            self.zvars[a] = v
        return v

    def zterm(self, t):
        k = t.key()
        r = self.zcache.get(k)
        if r is not None:
            return r
        parts = []
        isint = all(isinstance(c, int) for c in t.p.values()) and all(
            ATOMS[a].sort == "I" and e > 0 for m in t.p for a, e in m)
        for m, c in t.p.items():
            fs = []
            for a, e in m:
                v = self.zatom(a)
                if not isint and ATOMS[a].sort == "I":
                    v = z3.ToReal(v)
                if ATOMS[a].kind == "poly":
                    self.poly_def(a)
                if e < 0:
                    v = self.zinv(a, v)
                    e = -e
                fs.extend([v] * e)
            if isint:
                x = z3.IntVal(c)
            else:
                x = z3.RealVal(str(c))
            if fs:
                y = fs[0]
                for f in fs[1:]:
                    y = y * f
                x = y if c == 1 else x * y
            parts.append(x)
        if not parts:
            r = z3.IntVal(0) if isint else z3.RealVal(0)
        else:
            r = parts[0] if len(parts) == 1 else z3.Sum(parts)
        self.zcache[k] = r
        return r

    def poly_def(self, a):
        if a not in self.zdefs:
            self.zdefs[a] = []
            self.zdefs[a].append(self.zatom(a) == self.zterm(ATOMS[a].args[0]))

    def zinv(self, a, v):
        key = ("inv", a)
        w = self.zcache.get(key)
        if w is None:
            w = z3.Real("inv#%d" % a)
            self.zcache[key] = w
            self.zdefs.setdefault(a, [])
            self.zdefs[a] += [w * v == 1, z3.Implies(v > 0, w > 0), z3.Implies(v < 0, w < 0)]
        return w

    def zform(self, f):
        if isinstance(f, bool):
            return z3.BoolVal(f)
        if f.k == "cmp":
            op, t = f.a
            z = self.zterm(t)
            zero = 0
            return {"<": z < zero, "<=": z <= zero, "==": z == zero, "!=": z != zero}[op]
        if f.k == "var":
            return z3.Bool(f.a[0])
        if f.k == "and":
            return z3.And(*[self.zform(x) for x in f.a])
        if f.k == "or":
            return z3.Or(*[self.zform(x) for x in f.a])
        return z3.Not(self.zform(f.a[0]))

    def closure(self, f):
        """Atoms of a formula or term, and those their definitions bring along."""
        if isinstance(f, bool):
            return frozenset()
        if isinstance(f, B):
            if f.k == "var":
                return frozenset([f.a[0]])
            out = frozenset()
            for x in f.a:
                if isinstance(x, (T, B)):
                    out |= self.closure(x)
            return out
        out = set()
        for a in f.atoms():
            c = self.zcl.get(a)
            if c is None:
                at = ATOMS[a]
                c = frozenset([a]) | (self.closure(at.args[0]) if at.kind == "poly" else frozenset())
                self.zcl[a] = c
            out |= c
        return frozenset(out)

    def add_fact(self, g):
        n = self.nfact
        self.nfact += 1
        z = self.zform(g)
        at = self.closure(g)
        self.zfacts[n] = (z, at)
        gs = {self.gid[a] for a in at if a in self.gid}
        new = ("g", n)
        ids = [n]
        for q in gs:
            ids += self.gfacts.pop(q)
        self.gfacts[new] = tuple(sorted(ids))
        if gs:
            for a in [a for a, q in self.gid.items() if q in gs]:
                self.gid[a] = new
        for a in at:
            self.gid[a] = new

    def solver_for(self, ids, more):
        """A solver with the given facts and the definitions of their atoms."""
        defs = set(more)
        for n in ids:
            defs |= self.zfacts[n][1]
        d = sorted(a for a in defs if a in self.zdefs)
        key = (ids, tuple((a, len(self.zdefs[a])) for a in d))
        s = self.solvers.get(key)
        if s is None:
            if len(self.solvers) > 40:
                self.solvers.clear()
            s = new_solver()
            for n in ids:
                s.add(self.zfacts[n][0])
            for a in d:
                s.add(*self.zdefs[a])
            self.solvers[key] = s
        return s, key

    def check_group(self, ids, extra=None, more=(), model=False):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of this proof exhausted")
        s, key = self.solver_for(ids, more)
        if extra is None and not model and key in self.sat_cache:
            return self.sat_cache[key], None
        t0 = time.time()
        m = None
        s.push()
        try:
            if extra is not None:
                s.add(extra)
            r = s.check()
            if r == z3.sat and model:
                m = s.model()
        finally:
            s.pop()
        if r == z3.unknown:
            f = new_solver(2)
            f.add(*s.assertions())
            if extra is not None:
                f.add(extra)
            r = f.check()
            self.stats.z3_calls += 1
            if r == z3.sat and model:
                m = f.model()
        self.stats.z3_calls += 1
        self.stats.z3_time += time.time() - t0
        if extra is None:
            self.sat_cache[key] = r
        return r, m

    def related(self, at):
        gs = {self.gid[a] for a in at if a in self.gid}
        ids = []
        for q in gs:
            ids += self.gfacts[q]
        return gs, tuple(sorted(ids))

    def unsat_with(self, f):
        """Do the facts refute f?  Only facts that share an atom with f, directly or
        through other facts, can matter."""
        z = self.zform(f)
        at = self.closure(f)
        _, ids = self.related(at)
        return self.check_group(ids, z, at)[0] == z3.unsat

    def infeasible(self):
        return any(self.check_group(ids)[0] == z3.unsat for ids in list(self.gfacts.values()))

    def get_model(self, f=None):
        """Values of the atoms in a model of the facts (and f), or None."""
        out = {}
        gs = set()
        todo = []
        if f is not None:
            z = self.zform(f)
            at = self.closure(f)
            gs, ids = self.related(at)
            todo.append((ids, z, at))
        todo += [(ids, None, ()) for q, ids in self.gfacts.items() if q not in gs]
        for ids, z, at in todo:
            r, m = self.check_group(ids, z, at, model=True)
            if r != z3.sat:
                return None
            names = set(at)
            for n in ids:
                names |= self.zfacts[n][1]
            for a in names:
                if a not in self.zvars:
                    continue
                x = m.eval(self.zvars[a], model_completion=True)
                try:
                    if z3.is_int_value(x):
                        out[a] = Fraction(x.as_long())
                    elif z3.is_rational_value(x):
                        out[a] = Fraction(x.numerator_as_long(), x.denominator_as_long())
                    elif z3.is_algebraic_value(x):
                        out[a] = x.approx(20).as_fraction()
                except Exception:
                    pass
        return out

    # -------------------------------------------------------------- signs
    # 2: >0, 1: >=0, -1: <=0, -2: <0, None unknown
    def sign_atom(self, a):
        s = self.signs.get(a)
        if s is None and ATOMS[a].kind == "poly":
            return self.sign(ATOMS[a].args[0], deep=False)
        return s

    def sign(self, t, deep=True):
        """Sign by monomial signs only."""
        if not t.p:
            return 0
        tot = None
        for m, c in t.p.items():
            s = 2 if c > 0 else -2
            for a, e in m:
                if e % 2 == 0:
                    q = self.sign_atom(a)
                    if not (q in (2, -2)) and abs(s) == 2:
                        s = 1 if s > 0 else -1
                    continue
                q = self.sign_atom(a)
                if q is None:
                    return None
                if abs(q) == 1 and e < 0:
                    q = 2 * q
                s = (2 if abs(s) == 2 and abs(q) == 2 else 1) * (1 if (s > 0) == (q > 0) else -1)
            if tot is None:
                tot = s
            elif (tot > 0) != (s > 0):
                return None
            else:
                tot = max(tot, s) if tot > 0 else min(tot, s)
        return tot

    def by_sign(self, f):
        """Decide a comparison from monomial signs; None if undetermined."""
        if f.k != "cmp":
            return None
        op, t = f.a
        s = self.sign(t)
        if s is None:
            return None
        if op == "<":
            return True if s == -2 else False if s >= 0 else None
        if op == "<=":
            return True if s <= 0 else False if s == 2 else None
        if op == "==":
            return True if s == 0 else False if abs(s) == 2 else None
        return False if s == 0 else True if abs(s) == 2 else None

    # -------------------------------------------------------------- facts
    def assume(self, f, check=False):
        if f is True:
            return
        if f is False:
            raise PathEnd("contradictory assumption")
        if f.k == "and":
            for x in f.a:
                self.assume(x)
            return
        self.facts.append(f)
        g = self.simp(f)                    # before the sign is noted: f must not simplify itself away
        if isinstance(g, bool):
            if not g:
                self.add_fact(f)
        else:
            self.add_fact(g)
        self.note_sign(f)
        self.note_zero(g)
        if check and self.infeasible():
            raise PathEnd("infeasible")

    def note_zero(self, f):
        """A sum of nonnegative terms that is <= 0: every term is 0."""
        if not isinstance(f, B) or f.k != "cmp" or f.a[0] not in ("<=", "==") or () in f.a[1].p:
            return
        t = f.a[1]
        if len(t.p) < 2 and f.a[0] == "==":
            return
        todo = []
        for m, c in t.p.items():
            s = self.sign(T({m: c}, "R"))
            if s is None or s < 0:
                return
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "sym":
                todo.append(ATOMS[m[0][0]])
        for at in todo:
            self.assume(cmp0("==", of_atom(at)))

    def note_sign(self, f):
        if f.k == "cmp" and f.a[0] in ("<", "<="):
            op, t = f.a
            vs = [m for m in t.p if m]
            if len(vs) == 1 and len(vs[0]) == 1 and vs[0][0][1] == 1:
                a = vs[0][0][0]
                c = Fraction(t.p[vs[0]])
                k = Fraction(t.p.get((), 0))
                b = -k / c       # c*x + k <(=) 0
                if c < 0:        # x >(=) b
                    if b > 0 or (b == 0 and op == "<"):
                        self.signs[a] = 2
                    elif b == 0 and self.signs.get(a) is None:
                        self.signs[a] = 1
                else:
                    if b < 0 or (b == 0 and op == "<"):
                        self.signs[a] = -2
                    elif b == 0 and self.signs.get(a) is None:
                        self.signs[a] = -1

    def simp(self, f):
        """Divide a comparison by factors of known sign and clear denominators."""
        if not isinstance(f, B):
            return f
        if f.k == "cmp":
            op, t = f.a
            if not t.p:
                return f
            c, mono, q = content(t.p)
            sgn = 1 if c > 0 else -1
            keep = []
            for a, e in mono:
                s = self.sign_atom(a)
                if s == 2 or (op in ("==", "!=") and s == -2):
                    continue
                if e % 2 == 0 and s == -2:
                    continue
                if s == -2:
                    sgn = -sgn
                    continue
                keep.append((a, e))
            from .terms import mono_mul
            p = {mono_mul(m, tuple(keep)): (v if sgn > 0 else -v) for m, v in q.items()}
            # integer coefficients
            den = 1
            for v in p.values():
                if isinstance(v, Fraction):
                    den = den * v.denominator // math.gcd(den, v.denominator)
            if den != 1:
                p = {m: int(v * den) for m, v in p.items()}
            tt = T(p, t.sort)
            # denominators of known positive sign
            for _ in range(6):
                need = {}
                for m in tt.p:
                    for a, e in m:
                        if e < 0:
                            need[a] = min(need.get(a, 0), e)
                done = True
                for a, e in need.items():
                    s = self.sign_atom(a)
                    if s == 2 or e % 2 == 0 or op in ("==", "!="):
                        base = ATOMS[a].args[0] if ATOMS[a].kind == "poly" else of_atom(ATOMS[a])
                        if ATOMS[a].kind == "poly":
                            r = T({}, "R")
                            for m, v in tt.p.items():
                                d = dict(m)
                                k = d.pop(a, 0) - e
                                r = r + T({tuple(sorted(d.items())): v}, "R") * base ** k
                            tt = r
                        else:
                            tt = tt * base ** (-e)
                        done = False
                        break
                if done:
                    break
            return cmp0(op, tt)
        if f.k in ("and", "or"):
            xs = [self.simp(x) for x in f.a]
            return conj(*xs) if f.k == "and" else disj(*xs)
        return f

    def entails(self, f):
        """True if proved from the facts; False otherwise (not proved)."""
        if isinstance(f, bool):
            return f
        r = self.by_sign(f)
        if r is not None:
            return r
        if f.k == "and":
            return all(self.entails(x) for x in f.a)
        key = (len(self.facts), repr(f) if f.k != "cmp" else (f.a[0], f.a[1].key()))
        if key in self.ent_cache:
            return self.ent_cache[key]
        g = self.simp(f)
        if isinstance(g, bool):
            res = g
        elif self.linfacts and self.linear(g):
            res = True
        else:
            res = self.unsat_with(neg(g))
        self.ent_cache[key] = res
        return res

    def linear(self, g):
        """Does g follow from the facts about counters by linear arithmetic, every product
        of variables taken as one variable?"""
        if g.k != "cmp" or g.a[0] == "!=" or not any(sum(e for _, e in m) > 1 for m in g.a[1].p):
            return False
        facts = self.linfacts + [f for f in self.facts if f.k == "cmp" and f.a[0] != "!="]
        mons = {}

        def z(t):
            out = []
            for m, c in t.p.items():
                if not m:
                    out.append(z3.RealVal(str(c)))
                    continue
                if m not in mons:
                    mons[m] = z3.Real("m%d" % len(mons))
                out.append(z3.RealVal(str(c)) * mons[m])
            return z3.Sum(out) if out else z3.RealVal(0)

        def form(f):
            op, t = f.a
            x = z(t)
            return {"<": x < 0, "<=": x <= 0, "==": x == 0}[op]
        s = z3.SimpleSolver()
        s.set("timeout", 2000)
        t0 = time.time()
        s.add(z3.Not(form(g)))
        want = set(g.a[1].p)
        todo, used = list(facts), True
        while used:                     # only facts connected through a product
            used, rest = False, []
            for f in todo:
                ms = set(f.a[1].p) - {()}
                if ms & want:
                    s.add(form(f))
                    want |= ms
                    used = True
                else:
                    rest.append(f)
            todo = rest
        r = s.check()
        self.stats.z3_calls += 1
        self.stats.z3_time += time.time() - t0
        return r == z3.unsat

    def feasible(self):
        return not self.infeasible()

    # ---------------------------------------------------------- decisions
    def decide(self, f):
        if isinstance(f, bool):
            return f
        if self.entails(f):
            return True
        nf = neg(f)
        if self.entails(nf):
            return False
        return self.fork(f)

    def snapshot(self):
        st = (len(self.facts), dict(self.signs), set(self.inv_seen), (dict(self.gid), dict(self.gfacts)),
              list(self.stores), list(self.objs), list(self.nforks), len(self.obls), dict(self.rules),
              self.quiet_div, list(self.loopvars), self.scout, self.scout_bad, len(self.linfacts))
        self.silent += 1
        self.scout, self.scout_bad = True, False
        return st

    def restore(self, st):
        self.silent -= 1
        self.facts = self.facts[:st[0]]
        self.signs, self.inv_seen, (self.gid, self.gfacts), self.stores, self.objs, self.nforks = st[1:7]
        del self.obls[st[7]:]
        self.rules, self.quiet_div, self.loopvars, self.scout, self.scout_bad = st[8:13]
        del self.linfacts[st[13]:]
        self.ent_cache = {}
        self._sv = (-1, {})

    def fork(self, f):
        if self.scout:
            self.scout_bad = True
            return False
        nf = neg(f)
        if self.pos < len(self.script):
            v = self.script[self.pos]
        else:
            if len(self.taken) >= self.max_forks:
                raise Unsupported("too many undecided branches on one path (%r)" % (f,))
            v = True
            self.pending.append([x for x in self.taken] + [False])
        self.pos += 1
        self.taken.append(v)
        g = f if v else nf
        self.nforks.append(g)
        self.assume(g)
        if not self.feasible():
            raise PathEnd("infeasible branch")
        self.propagate(g)
        return v

    def propagate(self, g, depth=3):
        """Equalities and alternatives that a new fact settles."""
        at = self.closure(g)
        new = []
        for f in list(self.facts):
            if not isinstance(f, B) or not (self.closure(f) & at):
                continue
            if f.k == "cmp" and f.a[0] == "<=":
                e = cmp0("==", f.a[1])
                if not isinstance(e, bool) and self.entails(e) and not any(x is f for x in new):
                    if not any(h.k == "cmp" and h.a[0] == "==" and h.a[1].key() in (f.a[1].key(), (-f.a[1]).key())
                               for h in self.facts + new if isinstance(h, B)):
                        new.append(e)
            elif f.k == "or":
                left = [x for x in f.a if not self.entails(neg(x))]
                if len(left) == 1 and not any(left[0].k == "cmp" and h.k == "cmp" and h.a[0] == left[0].a[0]
                                              and h.a[1].key() == left[0].a[1].key()
                                              for h in self.facts if isinstance(h, B)):
                    new.append(left[0])
        for e in new:
            self.assume(e)
        if new and depth:
            for e in new:
                self.propagate(e, depth - 1)

    def choose(self, name):
        """A free boolean choice."""
        return self.fork(B("var", fresh_name(name)))

    # -------------------------------------------------------- arithmetic
    def require_nonzero(self, b):
        if b.is_const():
            return
        if self.nan:
            return
        f = cmp("!=", b, 0)
        if self.entails(f):
            self.obl("division by a nonzero number", "div", "ok", "z3")
            return
        if self.quiet_div is not None:
            self.quiet_div.append(b)
            return
        # a factor at a time
        c, mono, q = content(b.p)
        self.fail("division by a nonzero number", "div", "denominator %r may be 0" % b,
                  neg(f))

    def division_by_zero(self):
        raise Unsupported("division by the constant 0")

    def floor(self, ip, fr):
        """floor(ip + fr) with ip integer valued."""
        if self.entails(conj(cmp("<=", 0, fr), cmp("<", fr, 1))):
            return ip
        for k in (1, -1):
            if self.entails(conj(cmp("<=", k, fr), cmp("<", fr, k + 1))):
                return ip + k
        a = atom("floor", "floor", "I", (fr,))
        t = of_atom(a)
        key = ("floor", a.id)
        if key not in self.inv_seen:
            self.inv_seen.add(key)
            self.assume(cmp("<=", to_real(t), fr))
            self.assume(cmp("<", fr, to_real(t) + 1))
        return ip + t

    def power(self, base, e):
        """base ** e for a constant base >= 1 and an integer exponent"""
        pos = cmp("<=", 0, e)
        if not (pos is True or (pos is not False and self.entails(pos))):
            raise Unsupported("power with an exponent that may be negative")
        t = app("POW", [base, e], "I" if isinstance(base, int) else "R")
        key = ("pow", t.key())
        if key not in self.inv_seen:
            self.inv_seen.add(key)
            self.assume(cmp("<=", 1, t))
            one = cmp("<=", 1, e)
            if one is True or (one is not False and self.entails(one)):
                self.assume(cmp("<=", base, t))
            for b2, e2, t2 in self.powers:
                if b2 == base and not e2.same(e):
                    for x, y, u, v in ((e, e2, t, t2), (e2, e, t2, t)):
                        f = cmp("<=", x, y)
                        if f is True or (f is not False and self.entails(f)):
                            self.assume(cmp("<=", u, v))
            self.powers.append((base, e, t))
        return t

    def app_hook(self, fname, args):
        if fname == "LT0":
            f = cmp("<", args[0], 0)
            if isinstance(f, bool):
                return const(int(f))
            if self.entails(f):
                return const(1)
            if self.entails(neg(f)):
                return const(0)
            return None
        if fname == "POW" and args[0].is_const() and args[1].is_const() and 0 <= args[1].const() <= 200:
            return const(args[0].const() ** int(args[1].const()), args[0].sort)
        o = self.app_over.get(fname)
        if o is not None:
            return o(args)
        return None

    def on_app(self, t):
        (m,) = t.p
        a = ATOMS[m[0][0]]
        if a.id in self.inv_seen:
            return
        self.inv_seen.add(a.id)
        r = self.rules.get(a.name)
        if r is not None:
            for fn in r.inv:
                fn(t, a.args)
        w = self.app_watch.get(a.name)
        if w is not None:
            w(t, a.args)

    # -------------------------------------------------------- obligations
    def wraps(self, negative, i, dim):
        """may index i of an axis of this length be a negative one that exists?"""
        if not self.feasible_with(conj(negative, cmp("<=", 0, dim + i))):
            return False
        if any(ATOMS[a].kind == "sym" and ATOMS[a].name.startswith("carried!") for a in i.atoms_deep()):
            return False        # only the steps of counters are taken from this run
        return self.decide(negative)

    def feasible_with(self, f):
        return f is not False and not self.entails(neg(f))

    def obl(self, name, kind, status, backend, detail="", model=None):
        if self.silent or (self.kinds is not None and kind not in self.kinds):
            return
        self.obls.append(Obligation(name, kind, status, backend, detail, model, self.group))

    def fail(self, name, kind, detail, counter=None):
        if self.silent or (self.kinds is not None and kind not in self.kinds):
            return
        model = None
        status = "unknown"
        if counter is not None and not isinstance(counter, bool):
            g = self.simp(counter)
            m = self.get_model(g) if not isinstance(g, bool) else self.get_model() if g else None
            if m is not None:
                status = "refuted"
                model = self.model_dict(m)
        elif counter is True:
            m = self.get_model()
            if m is not None:
                status = "refuted"
                model = self.model_dict(m)
        self.obl(name, kind, status, "z3", detail, model)

    def model_dict(self, m):
        out = {}
        for a, x in m.items():
            if isinstance(a, int) and ATOMS[a].kind == "sym":
                out[ATOMS[a].name] = int(x) if ATOMS[a].sort == "I" else float(x)
        return out

    def prove(self, f, name, kind="post"):
        if self.kinds is not None and kind not in self.kinds:
            return True
        if f is True or self.entails(f):
            self.obl(name, kind, "ok", "z3")
            return True
        if isinstance(f, B) and f.k == "cmp" and f.a[0] == "==":
            return self.prove_zero(f.a[1], name, kind)
        self.fail(name, kind, "cannot prove %r" % (f,), neg(f))
        return False

    def prove_eq(self, a, b, name, kind="post"):
        return self.prove_zero(lift(a) - lift(b), name, kind)

    # equality of terms modulo the path condition, function-symbol rules
    def prove_zero(self, t, name, kind="post"):
        if self.kinds is not None and kind not in self.kinds:
            return True
        how = self.zero(t)
        if how:
            self.obl(name, kind, "ok", how)
            return True
        d = repr(t)
        status, model = self.refute_zero(t)
        self.obl(name, kind, status, "ring",
                 "difference does not vanish: " + (d if len(d) < 600 else d[:600] + " ..."), model)
        return False

    def zero(self, t, depth=0):
        if is_zero(t):
            return "ring"
        t2 = self.apply_equalities(t)
        if t2 is not t and is_zero(t2):
            return "ring"
        names = {ATOMS[a].name for a in t2.atoms() if ATOMS[a].kind == "app"}
        if "LT0" in names and depth < 8:
            # settle every condition of a piecewise value
            from .binder import under
            a = min(x for x in t2.atoms() if ATOMS[x].name == "LT0")
            c = cmp("<", ATOMS[a].args[0], 0)
            how = "case split"
            for f, v in ((c, 1), (neg(c), 0)):
                with under(self, [f] if not isinstance(f, bool) else []):
                    if f is False or self.infeasible():
                        continue
                    h = self.zero(t2.subst({a: const(v)}), depth + 1)
                if not h:
                    return None
            return how
        if ("PROD" in names or "SUM" in names) and depth < 8:
            from .binder import short_ranges
            t3 = short_ranges(self, t2)
            if t3 is not t2:
                return self.zero(t3, depth + 1)
        if "PROD" in names and depth < 8:
            from .binder import merge_products
            t3 = merge_products(self, t2, lambda x: self.zero(x, depth + 1))
            if t3 is not t2:
                t2 = t3
                if is_zero(t2):
                    return "extensionality of products"
        if ("SUM" in names or any(n in self.expand for n in names)) and depth < 8:
            from .binder import zero_sums
            if zero_sums(self, t2, lambda x: self.zero(x, depth + 1)):
                return "linearity and extensionality of sums"
        r = self.zero_rules(t2)
        if r:
            return r
        if len(t2.p) <= 60 and self.entails(cmp0("==", clear_denominators(t2))):
            return "z3"
        return None

    def apply_equalities(self, t):
        """Use entailed values of simple atoms and equal indices."""
        # 1. atoms fixed by the path condition to 0 or 1
        mp = {}
        for a in t.atoms_deep():
            at = ATOMS[a]
            if at.kind == "sym" and (at.id in self.symvals):
                mp[a] = self.symvals[at.id]
        if mp:
            t = t.subst(mp)
        # 2. congruence: applications with provably equal arguments
        groups = {}
        for a in t.atoms():
            at = ATOMS[a]
            if at.kind == "app":
                groups.setdefault((at.name, len(at.args)), []).append(a)
        mp = {}
        for (nm, n), ids in groups.items():
            if len(ids) < 2 or len(ids) > 40:
                continue
            ids = sorted(ids)
            reps = []
            for a in ids:
                for r in reps:
                    eqs = []
                    ok = True
                    for x, y in zip(ATOMS[a].args, ATOMS[r].args):
                        f = cmp("==", x, y)
                        if f is True:
                            continue
                        if f is False:
                            ok = False
                            break
                        eqs.append(f)
                    if ok and all(self.entails(f) for f in eqs):
                        mp[a] = of_atom(ATOMS[r])
                        break
                else:
                    reps.append(a)
        if mp:
            t = t.subst(mp)
        return t

    @property
    def symvals(self):
        """Symbols that the facts equate with a term (x == e)."""
        if self._sv[0] == len(self.facts):
            return self._sv[1]
        out = {}
        for f in self.facts:
            if f.k == "cmp" and f.a[0] == "==":
                t = f.a[1]
                for m, c in t.p.items():
                    if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "sym" and abs(c) == 1:
                        a = m[0][0]
                        rest = T({k: v for k, v in t.p.items() if k != m}, t.sort)
                        if a in rest.atoms_deep() or a in out:
                            continue
                        if any(out_a in rest.atoms_deep() for out_a in out):
                            rest = rest.subst(out)
                            if a in rest.atoms_deep():
                                continue
                        v = -rest if c == 1 else rest
                        out = {k: w.subst({a: v}) for k, w in out.items()}
                        out[a] = v
                        break
        self._sv = (len(self.facts), out)
        return out

    def fresh_entails(self, hyps, goal, inverses=False):
        """Entailment in a solver of its own, with the linear facts and hyps."""
        if isinstance(goal, bool):
            return goal
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of this proof exhausted")
        s = new_solver()
        for f in self.facts:
            if len(f.atoms_deep()) <= 6:
                s.add(self.zform(f))
        for h in hyps:
            if isinstance(h, bool):
                if not h:
                    return True
                continue
            s.add(self.zform(h))
        g = goal
        if g.k == "cmp" and inverses:
            # clear denominators whose sign the hypotheses fix
            op, t = g.a
            for _ in range(8):
                neg_ = [a for m in t.p for a, e in m if e < 0]
                if not neg_:
                    break
                a = neg_[0]
                base = ATOMS[a].args[0] if ATOMS[a].kind == "poly" else of_atom(ATOMS[a])
                zb = self.zterm(base)
                sg = None
                for sgn, bad in ((1, zb <= 0), (-1, zb >= 0)):
                    s.push()
                    s.add(bad)
                    r = s.check()
                    s.pop()
                    if r == z3.unsat:
                        sg = sgn
                if sg is None:
                    return False
                k = -min(e for m in t.p for x, e in m if x == a)
                r = T({}, "R")
                for m, c in t.p.items():
                    d = dict(m)
                    e = d.pop(a, 0) + k
                    r = r + T({tuple(sorted(d.items())): c}, "R") * base ** e
                if sg < 0 and k % 2:
                    r = -r
                t = r
            g = cmp0(op, t)
            if isinstance(g, bool):
                return g
        s.add(z3.Not(self.zform(g)))
        t0 = time.time()
        r = s.check()
        self.stats.z3_calls += 1
        self.stats.z3_time += time.time() - t0
        return r == z3.unsat

    # ------------------------------------------- function symbols with rules
    def zero_rules(self, t):
        fams = sorted({ATOMS[a].name for a in t.atoms_deep() if ATOMS[a].kind == "app"
                       and ATOMS[a].name in self.rules})
        if not fams:
            return None
        # strategy 1: equational contracts (several alternative orientations)
        eq = [f for f in fams if self.rules[f].direction == 0]
        if eq:
            r = self.zero_oriented(t)
            if r:
                return r
        rec = [f for f in fams if self.rules[f].direction != 0]
        if rec:
            return self.zero_recurrence(t)
        return None

    def rule_apps(self, t, names=None):
        return [ATOMS[a] for a in t.atoms() if ATOMS[a].kind == "app" and ATOMS[a].name in self.rules
                and (names is None or ATOMS[a].name in names)]

    def zero_oriented(self, t):
        """Every family uses one orientation of its equations; all combinations."""
        import itertools
        start = t
        fams = []
        # families may appear only after rewriting: discover lazily
        tried = set()

        def run(choice):
            cur = start
            for _ in range(400):
                apps = self.rule_apps(cur)
                apps = [a for a in apps if self.rules[a.name].direction == 0]
                new = [a.name for a in apps if a.name not in choice]
                if new:
                    return ("need", new[0])
                step = None
                # youngest family first
                for a in sorted(apps, key=lambda a: (-self.rules[a.name].order, -a.id)):
                    fn = self.rules[a.name].unfolders[choice[a.name]][1]
                    r = fn(a.args)
                    if r is not None:
                        step = (a, r)
                        break
                if step is None:
                    cur = self.apply_equalities(cur)
                    return ("end", cur)
                cur = cur.subst({step[0].id: step[1]})
                if is_zero(cur):
                    return ("zero", None)
            return ("end", cur)

        stack = [{}]
        n = 0
        while stack and n < 400:
            ch = stack.pop()
            n += 1
            k, v = run(ch)
            if k == "zero":
                return "contract-rewriting"
            if k == "need":
                for i in reversed(range(len(self.rules[v].unfolders))):
                    c = dict(ch)
                    c[v] = i
                    stack.append(c)
                continue
            if is_zero(v):
                return "contract-rewriting"
            if self.rule_apps(v) and any(self.rules[a.name].direction for a in self.rule_apps(v)):
                r = self.zero_recurrence(v)
                if r:
                    return r
        return None

    def zero_recurrence(self, t, depth=7):
        """Unfold recurrences: in each direction the outermost index first."""
        seen = set()
        frontier = [(t, 0)]
        while frontier:
            cur, d = frontier.pop(0)
            if is_zero(cur):
                return "induction"
            k = cur.key()
            if k in seen or d >= depth or len(cur.p) > 4000:
                continue
            seen.add(k)
            apps = [a for a in self.rule_apps(cur) if self.rules[a.name].direction != 0]
            for dirn, grp_ in sorted({(self.rules[a.name].direction, self.rules[a.name].group) for a in apps},
                                     key=lambda x: (-x[0], -x[1])):
                g = [a for a in apps if (self.rules[a.name].direction, self.rules[a.name].group) == (dirn, grp_)]
                # outermost index of this direction: upward recurrences the largest
                best = None
                for a in g:
                    ix = a.args[-1] * dirn
                    if best is None or self.entails(cmp("<", best, ix)):
                        best = ix
                grp = [a for a in g if self.entails(cmp("==", a.args[-1] * dirn, best))]
                mp = {}
                for a in grp:
                    for nm, fn in self.rules[a.name].unfolders:
                        r = fn(a.args)
                        if r is not None:
                            mp[a.id] = r
                            break
                if mp:
                    frontier.append((self.apply_equalities(cur.subst(mp)), d + 1))
        return None

    # ------------------------------------------------------------ refuting
    def refute_zero(self, t):
        """Is there a model of the facts in which t does not vanish?"""
        if any(self.rule_apps(t)):
            names = {a.name for a in self.rule_apps(t)}
            return "unknown", self.some_model()
        f = cmp0("!=", clear_denominators(t))
        if f is False:
            return "unknown", None
        # a model of the facts, other values at random: evaluate numerically
        m = self.get_model()
        for k in range(4 if m is not None else 0):
            rnd = random.Random(k + 1)
            vals = {}
            for a in sorted(t.atoms_deep()):
                at = ATOMS[a]
                if at.kind == "poly":
                    continue
                if a in m:
                    vals[a] = m[a]
                else:
                    vals[a] = Fraction(rnd.randint(-99, 99), rnd.randint(1, 9))
            try:
                v = evaluate(t, vals)
            except ZeroDivisionError:
                continue
            if v != 0:
                return "refuted", self.model_dict(m)
        if len(t.p) <= 60:
            m = self.get_model(f)
            if m is not None:
                return "refuted", self.model_dict(m)
        return "unknown", self.some_model()

    def some_model(self):
        m = self.get_model()
        return None if m is None else self.model_dict(m)


def evaluate(t, vals):
    s = Fraction(0)
    for m, c in t.p.items():
        v = Fraction(c)
        for a, e in m:
            if a not in vals:
                if ATOMS[a].kind == "poly":
                    vals[a] = evaluate(ATOMS[a].args[0], vals)
                else:
                    vals[a] = Fraction(1)
            v *= vals[a] ** e
        s += v
    return s


def explore(fn, make_engine, max_paths=400, budget=None):
    """Run fn(engine) on every feasible path.  If some path cannot be decided, the failed
    obligations of the others still count; without any, the whole is undecided."""
    stats = Stats()
    t0 = time.time()
    scripts = [[]]
    obls = []
    live = 0
    why = None
    while scripts:
        # depth first; when there are many paths, every other one starts at an early branch
        sc = scripts.pop(0 if stats.paths > 8 and stats.paths % 2 else -1)
        eng = make_engine(sc, stats)
        if budget:
            eng.deadline = t0 + budget
        HOOK.engine = eng
        try:
            try:
                fn(eng)
                if eng.infeasible():
                    raise PathEnd("contradictory path")
                live += 1
                obls.extend(eng.obls)
            except PathEnd:
                pass     # infeasible: its sibling repeats the obligations of the prefix
            except Unsupported as e:
                if why is None:
                    why, limit = e, (time.time() + 6, stats.paths + 8)
        finally:
            HOOK.engine = None
        stats.paths += 1
        scripts.extend(eng.pending)
        if why is None and stats.paths > max_paths:
            why, limit = Unsupported("more than %d paths" % max_paths), (0, 0)
        if stats.paths > 20 and sum(o.status != "ok" for o in obls) > 20:
            break
        if why is not None and (time.time() > limit[0] or stats.paths > limit[1] or any(o.status != "ok" for o in obls)):
            break
    if why is not None and not any(o.status != "ok" for o in obls):
        raise why
    return obls, stats, live
