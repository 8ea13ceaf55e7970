"""Execution of the repository's own functions on symbolic values.

Every function is taken from the source text in /repo (or from the text the
package generates at run time), instrumented mechanically and run:

 * every call goes through `call`, which substitutes contracts, models of numpy
   and builtins, numba dispatchers (their Python source) and numba overloads
   (resolved by numba's own registry from the numba types of the arguments);
 * every `for` over a range of symbolic length is replaced by its summary
   (see SymLoop);
 * nothing else is changed: branches, arithmetic, indexing run as written.
"""
import ast
import builtins
import os
import sys
import types as pytypes

import numpy as np

from . import arrays as A
from .binder import SymSeq, comprehension, ifexp, prod_of, sum_of
from .sets import Packed, Vec, star
from .terms import (ATOMS, B, HOOK, PathEnd, T, Unsupported, app, atom, cmp, conj, const, disj, fresh_name,
                    integer, lift, lift_or_none, neg, of_atom, to_real)

REPO = os.environ.get("PYVC_REPO", "/repo")     # overridden only to try out changes on a scratch copy
GEN = {}            # filename -> ast of generated source
_real_compile = builtins.compile
_real_exec = builtins.exec
_real_eval = builtins.eval
_cnt = [0]


def _gen_name():
    _cnt[0] += 1
    return "<vcgen-%d>" % _cnt[0]


def _compile(source, filename, mode, flags=0, dont_inherit=False, optimize=-1, **kw):
    if filename in ("<string>", "<unknown>") and not (flags & ast.PyCF_ONLY_AST):
        filename = _gen_name()
        if isinstance(source, (ast.Module, ast.Expression)):
            GEN[filename] = source
        elif isinstance(source, str):
            try:
                GEN[filename] = _real_compile(source.strip() if mode == "eval" else source,
                                              filename, mode, ast.PyCF_ONLY_AST)
            except SyntaxError:
                pass
    return _real_compile(source, filename, mode, flags, dont_inherit, optimize, **kw)


def _frame_ns(g, l):
    if g is None:
        f = sys._getframe(2)
        g, l2 = f.f_globals, f.f_locals
        if l is None:
            l = l2
    return g, (g if l is None else l)


def _exec(source, globals=None, locals=None, /, **kw):
    g, l = _frame_ns(globals, locals)
    if isinstance(source, str):
        source = _compile(source, "<string>", "exec")
    return _real_exec(source, g, l, **kw)


def _eval(source, globals=None, locals=None, /):
    g, l = _frame_ns(globals, locals)
    if isinstance(source, str):
        s = source.strip()
        source = _compile(s, "<string>", "eval")
    return _real_eval(source, g, l)


def install_capture():
    builtins.compile = _compile
    builtins.exec = _exec
    builtins.eval = _eval


# --------------------------------------------------------- finding the source

_FILES = {}


def tree_of(filename):
    if filename in GEN:
        return GEN[filename]
    if filename not in _FILES:
        with open(filename, encoding="utf8") as f:
            _FILES[filename] = ast.parse(f.read(), filename)
    return _FILES[filename]


def is_repo_code(code):
    fn = code.co_filename
    return fn in GEN or os.path.abspath(fn).startswith(REPO + "/")


def find_node(code):
    tree = tree_of(code.co_filename)
    name = code.co_name
    cands = []
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)) and n.name == name:
            first = min([n.lineno] + [d.lineno for d in n.decorator_list])
            if first <= code.co_firstlineno <= n.lineno or n.lineno == code.co_firstlineno:
                cands.append(n)
        elif isinstance(n, ast.Lambda) and name == "<lambda>" and n.lineno == code.co_firstlineno:
            cands.append(n)
    if len(cands) > 1 and isinstance(cands[0], ast.Lambda):
        pos = [p for p in code.co_positions() if p[2] is not None and p[0] is not None]
        cols = [(p[0], p[2]) for p in pos]
        ok = []
        for n in cands:
            if all((n.body.lineno, n.body.col_offset) <= c <= (n.body.end_lineno, n.body.end_col_offset)
                   for c in cols if c != (n.lineno, n.col_offset) and c[1] != 0):
                ok.append(n)
        cands = ok or cands
    if len(cands) != 1:
        raise Unsupported("source of %s not found (%d candidates)" % (name, len(cands)))
    return cands[0]


# ------------------------------------------------------------- instrumentation

def stored_names(nodes):
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Import(self, n):
            for a in n.names:
                nm = (a.asname or a.name).split(".")[0]
                if nm not in out:
                    out.append(nm)

        visit_ImportFrom = visit_Import

    for n in nodes:
        V().visit(n)
    return out


def exposed(stmts, interesting):
    """Names in `interesting` that may be read before being assigned in stmts."""
    exp = set()

    def loads(e, d):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in interesting and n.id not in d:
                exp.add(n.id)

    def stores(e):
        return {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def seq(ss, d):
        d = set(d)
        for s in ss:
            d = one(s, d)
            if d is None:
                return None
        return d

    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a & b

    def one(s, d):
        if isinstance(s, ast.Assign):
            loads(s.value, d)
            for t in s.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in interesting and n.id not in d:
                        exp.add(n.id)
                d = d | stores(t)
            return d
        if isinstance(s, ast.AugAssign):
            loads(s.value, d)
            if isinstance(s.target, ast.Name):
                if s.target.id in interesting and s.target.id not in d:
                    exp.add(s.target.id)
                return d | {s.target.id}
            loads(s.target, d)
            return d
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                loads(s.value, d)
                return d | stores(s.target)
            return d
        if isinstance(s, ast.If):
            loads(s.test, d)
            return join(seq(s.body, d), seq(s.orelse, d))
        if isinstance(s, ast.For):
            loads(s.iter, d)
            seq(s.body, d | stores(s.target))
            if s.orelse:
                seq(s.orelse, d)
            return d
        if isinstance(s, ast.While):
            loads(s.test, d)
            seq(s.body, d)
            return d
        if isinstance(s, (ast.Continue, ast.Break, ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                loads(c, d)
            return None
        if isinstance(s, ast.With):
            for it in s.items:
                loads(it.context_expr, d)
            return seq(s.body, d)
        if isinstance(s, ast.Try):
            r = seq(s.body, d)
            for h in s.handlers:
                seq(h.body, d)
            return d
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return d | {(a.asname or a.name).split(".")[0] for a in s.names}
        if isinstance(s, ast.FunctionDef):
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in interesting and n.id not in d:
                    exp.add(n.id)
            return d | {s.name}
        for c in ast.iter_child_nodes(s):
            loads(c, d)
        return d

    seq(stmts, set())
    return exp


def _name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


class Instr(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals", "vars"):
            return node
        args = [ast.copy_location(ast.Starred(ast.Call(_name("__vc_star__"), [a.value], []), ast.Load()), a)
                if isinstance(a, ast.Starred) else a for a in node.args]
        return ast.copy_location(
            ast.Call(_name("__vc_call__"), [node.func] + args, node.keywords), node)

    def visit_Constant(self, node):
        # float literals are exact reals
        if type(node.value) is float and node.value == node.value and abs(node.value) != float("inf"):
            return ast.copy_location(ast.Call(_name("__vc_lit__"), [node], []), node)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and isinstance(node.value, ast.Name):
            return ast.copy_location(ast.Call(_name("__vc_elem__"), [node], []), node)
        return node

    def _comp(self, node, lazy):
        if len(node.generators) == 1 and not node.generators[0].ifs and not node.generators[0].is_async:
            g = node.generators[0]
            t = g.target
            if isinstance(t, ast.Name):
                names, star = [t.id], False
            elif isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts):
                names, star = [e.id for e in t.elts], True
            else:
                names = None
            if names is not None and len(set(names)) == len(names) and not any(
                    isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for x in ast.walk(node.elt)):
                elt = self.visit(node.elt)
                it = self.visit(g.iter)
                lam = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], vararg=None,
                                               kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), elt)
                return ast.copy_location(ast.Call(_name("__vc_comp__"), [
                    lam, it, ast.Constant(star), ast.Constant(lazy)], []), node)
        self.generic_visit(node)
        return node

    def visit_If(self, node):
        """A test whose branches only assign to names may be decided both ways
        at once (the branches run one after the other and their results are
        joined); used only where the engine asks for it."""
        import copy
        names = [n for n in stored_names(node.body + node.orelse)]
        if not names or not (_plain(node.body) and _plain(node.orelse)):
            self.generic_visit(node)
            return node
        first = set(stored_names(node.body))
        self.n += 1
        t = "__vcT%d" % self.n
        old, new = (lambda n: "__vcS%s_%s" % (t, n)), (lambda n: "__vcA%s_%s" % (t, n))
        test = self.visit(copy.deepcopy(node.test))
        body = _flat([self.visit(x) for x in copy.deepcopy(node.body)])
        orelse = _flat([self.visit(x) for x in copy.deepcopy(node.orelse)])
        put = lambda n, e: ast.Assign([_name(n, ast.Store())], e)
        fn = lambda f, *a: ast.Call(_name(f), list(a), [])
        both = []
        for n in names:
            both.append(ast.Try([put(old(n), _name(n))], [ast.ExceptHandler(_name("NameError"), None, [
                put(old(n), _name("__vc_poison__"))])], [], []))
        under = lambda way, ss: ast.With([ast.withitem(fn("__vc_under__", _name(t), ast.Constant(way)), None)], ss or [ast.Pass()])
        both.append(under(True, copy.deepcopy(body)))
        for n in names:
            both.append(put(new(n), _name(n) if n in first else _name(old(n))))
            both.append(put(n, _name(old(n))))
        both.append(under(False, copy.deepcopy(orelse)))
        for n in names:
            both.append(put(n, fn("__vc_join__", _name(t), _name(new(n)), _name(n))))
        out = [put(t, fn("__vc_cond__", test)),
               ast.If(fn("__vc_both__", _name(t)), both, [ast.If(_name(t), body or [ast.Pass()], orelse)])]
        return [ast.copy_location(o, node) for o in out]

    def visit_IfExp(self, node):
        self.generic_visit(node)
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
            return node
        thunk = lambda e: ast.Lambda(ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[],
                                                   kw_defaults=[], kwarg=None, defaults=[]), e)
        return ast.copy_location(ast.Call(_name("__vc_ifexp__"), [node.test, thunk(node.body), thunk(node.orelse)], []), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(_name("__vc_dict__"), [node], []), node)

    def visit_ListComp(self, node):
        return self._comp(node, False)

    def visit_GeneratorExp(self, node):
        return self._comp(node, True)

    def visit_FunctionDef(self, node):
        node.decorator_list = []
        node.returns = None
        for a in ast.walk(node.args):
            if isinstance(a, ast.arg):
                a.annotation = None
        self.generic_visit(node)
        return node

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        if node.value is None:
            return ast.Pass()
        return ast.copy_location(ast.Assign([node.target], node.value), node)

    def visit_For(self, node):
        import copy
        self.n += 1
        L = "__vcL%d" % self.n
        plain = copy.deepcopy(node)
        names = stored_names(node.body)
        tnames = stored_names([node.target])
        carried = sorted(exposed(node.body, set(names) - set(tnames)))
        rest = [n for n in names + tnames if n not in carried]
        # symbolic version
        body = [self.visit(s) for s in copy.deepcopy(node.body)]
        body = _flat(body)
        body = _leave(body, L, carried)
        tup = lambda ctx: ast.Tuple([_name(c, ctx()) for c in carried], ctx())
        sym_body = []
        if carried:
            sym_body.append(ast.Assign([tup(ast.Store)], ast.Call(
                ast.Attribute(_name(L), "enter", ast.Load()), [tup(ast.Load)], [])))
        sym_body += body
        sym_body.append(_leave_stmt(L, carried))
        after = []
        if carried:
            after.append(ast.Assign([tup(ast.Store)], ast.Call(
                ast.Attribute(_name(L), "final", ast.Load()), [tup(ast.Load)], [])))
        for r in rest:
            after.append(ast.Assign([_name(r, ast.Store())], _name("__vc_poison__")))
        # plain version: body instrumented in place
        plain.iter = ast.Attribute(_name(L), "it", ast.Load())
        plain.target = node.target
        plain.body = _flat([self.visit(s) for s in plain.body])
        plain.orelse = _flat([self.visit(s) for s in plain.orelse])
        it = self.visit(node.iter)
        sym = [ast.For(copy.deepcopy(node.target), _name(L), sym_body, [], None)] + after
        sym += copy.deepcopy(plain.orelse)
        out = [
            ast.Assign([_name(L, ast.Store())], ast.Call(_name("__vc_loop__"), [it], [])),
            ast.If(ast.Attribute(_name(L), "sym", ast.Load()), sym, [plain]),
        ]
        return [ast.copy_location(o, node) for o in out]


def _plain(stmts):
    """only assignments of call-free expressions to names, or such tests"""
    for s in stmts:
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.If):
            if not _plain(s.body) or not _plain(s.orelse) or any(isinstance(x, ast.Call) for x in ast.walk(s.test)):
                return False
            continue
        if not isinstance(s, ast.Assign) or not all(isinstance(t, ast.Name) for t in s.targets):
            return False
        if any(isinstance(x, (ast.Call, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.IfExp,
                              ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom, ast.Dict)) for x in ast.walk(s.value)):
            return False
    return True


class Both:
    def __init__(self, c):
        self.c = c


def cond(c):
    eng = HOOK.engine
    if eng is None or not eng.merge or not isinstance(c, B):
        return c
    if eng.entails(c):
        return True
    if eng.entails(neg(c)):
        return False
    return Both(c)


def both(c):
    return type(c) is Both


def within(c, way):
    from .binder import under
    return under(HOOK.engine, [c.c if way else neg(c.c)])


def join(c, x, y):
    eng = HOOK.engine
    if x is y:
        return x
    if isinstance(x, A.Poison) or isinstance(y, A.Poison):
        return A.POISON
    if isinstance(x, (A.Any, T, int, float)) and isinstance(y, (A.Any, T, int, float)):
        a, b = lift_or_none(x), lift_or_none(y)
        if a is None or b is None:
            return A.Fl()
        if a.same(b):
            return x
        if a.sort != b.sort:
            a, b = to_real(a), to_real(b)
        r = of_atom(atom("sym", fresh_name("join"), a.sort))
        eng.assume(disj(conj(c.c, cmp("==", r, a)), conj(neg(c.c), cmp("==", r, b))))
        return r
    raise Unsupported("branches that give different objects")


def _flat(xs):
    out = []
    for x in xs:
        if isinstance(x, list):
            out.extend(x)
        elif x is not None:
            out.append(x)
    return out


def _leave_stmt(L, carried):
    return ast.Expr(ast.Call(ast.Attribute(_name(L), "leave", ast.Load()),
                             [ast.Tuple([_name(c) for c in carried], ast.Load())], []))


def _leave(stmts, L, carried):
    """Insert bookkeeping before continue/break/return that belong to this loop."""

    class V(ast.NodeTransformer):
        def __init__(self):
            self.depth = 0

        def visit_FunctionDef(self, n):
            return n

        visit_Lambda = visit_FunctionDef

        def visit_For(self, n):
            self.depth += 1
            self.generic_visit(n)
            self.depth -= 1
            return n

        visit_While = visit_For

        def visit_Continue(self, n):
            return n if self.depth else [_leave_stmt(L, carried), n]

        def visit_Break(self, n):
            if self.depth:
                return n
            return [ast.Expr(ast.Call(ast.Attribute(_name(L), "bad", ast.Load()), [ast.Constant("break")], [])), n]

        def visit_Return(self, n):
            return [ast.Expr(ast.Call(ast.Attribute(_name(L), "bad", ast.Load()), [ast.Constant("return")], [])), n]

    v = V()
    return _flat([v.visit(s) for s in stmts])


_INSTR = {}


def instrument(fn, packed=False):
    """The instrumented version of a Python function of the repository.

    packed: the *args parameter receives the sequence itself (of symbolic
    length) instead of being packed from the call."""
    code = fn.__code__
    if code.co_filename.startswith("<vc:"):
        return fn
    key = (code, id(fn.__globals__), tuple(id(c) for c in (fn.__closure__ or ())), packed)
    hit = _INSTR.get(key)
    if hit is not None:
        return hit[0]
    import copy
    node = copy.deepcopy(find_node(code))
    if isinstance(node, ast.Lambda):
        fd = ast.FunctionDef("__vc_lambda", node.args, [ast.Return(node.body)], [], None)
        fd.type_params = []
        node = ast.fix_missing_locations(ast.copy_location(fd, node))
    new = Instr().visit(node)
    if packed:
        if new.args.vararg is None or new.args.args or new.args.posonlyargs or new.args.kwonlyargs:
            raise Unsupported("the function does not take *args only")
        new.args.args, new.args.vararg = [new.args.vararg], None
    new.name = "__vc_fn"        # a recursive call means the function of the module
    fv = list(code.co_freevars)
    cells = []
    for c in (fn.__closure__ or ()):
        try:
            cells.append(c.cell_contents)
        except ValueError:
            cells.append(None)
    fac = ast.FunctionDef("__vc_factory", ast.arguments([], [ast.arg(v) for v in fv], None, [], [], None, []),
                          [new, ast.Return(_name(new.name))], [], None)
    fac.type_params = []
    # default values were evaluated by the original definition
    new.args.defaults = [ast.Constant(None) for _ in new.args.defaults]
    new.args.kw_defaults = [None if d is None else ast.Constant(None) for d in new.args.kw_defaults]
    ast.copy_location(fac, new)
    mod = ast.fix_missing_locations(ast.Module([fac], []))
    co = _real_compile(mod, "<vc:%s:%s>" % (os.path.basename(code.co_filename), code.co_name), "exec")
    ns = {}
    _real_exec(co, fn.__globals__, ns)
    g = ns["__vc_factory"](*cells)
    g.__defaults__ = fn.__defaults__
    g.__kwdefaults__ = fn.__kwdefaults__
    _INSTR[key] = (g, fn)
    return g


def label(fn):
    code = getattr(fn, "__code__", None)
    if code is None:
        return getattr(fn, "__name__", repr(fn))
    f = code.co_filename
    if f in GEN:
        return "generated:" + fn.__name__
    return os.path.relpath(f, REPO) + ":" + getattr(fn, "__qualname__", fn.__name__).replace(".<locals>", "")


# ------------------------------------------------------------------ the call

MODELS = {}


def model(*fns):
    def deco(m):
        for f in fns:
            MODELS[id(f)] = (m, f)
        return m
    return deco


def symbolic(x, depth=3):
    if isinstance(x, (T, A.SArray, B, A.Any, A.Poison, SymSeq)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if depth and isinstance(x, (list, tuple)):
        return any(symbolic(y, depth - 1) for y in x)
    return False


def exact(x):
    """A machine float read from the text or from a table, as the exact real it stands for."""
    if HOOK.engine is not None:
        if isinstance(x, float) and x - x == 0.0:
            return lift(x)
        if isinstance(x, Vec):
            raise Unsupported("a vector of an enumeration is picked by its position")
    return x


_MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update",
        "add", "discard", "setdefault", "popitem"}


def call(f, *a, **k):
    eng = HOOK.engine
    if eng is None:
        return f(*a, **k)
    if eng.loopvars and isinstance(f, pytypes.BuiltinMethodType) and \
            isinstance(f.__self__, (list, dict, set)) and f.__name__ in _MUT:
        raise Unsupported("a list is updated inside a loop of symbolic length")
    m = MODELS.get(id(f))
    if any(isinstance(x, Packed) for x in a) and (m is None or not getattr(m[0], "packed", False)):
        raise Unsupported("arguments of symbolic number")
    if m is not None:
        return m[0](*a, **k)
    if isinstance(f, np.ufunc) and any(isinstance(x, T) and x.is_const() for x in a):
        a = [_num(x) for x in a]
    return invoke(f, a, k)


def _num(x):
    if isinstance(x, T) and x.is_const():
        return float(x) if x.sort == "R" else int(x)
    return x


def invoke(f, a, k):
    eng = HOOK.engine
    py = getattr(f, "py_func", None)
    if py is not None and not isinstance(f, type):
        c = contract_for(py)
        if c is not None:
            return c(*a, **k)
        return run(py, a, k)
    if isinstance(f, pytypes.MethodType):
        if isinstance(f.__func__, pytypes.FunctionType) and is_repo_code(f.__func__.__code__):
            return run(f.__func__, (f.__self__,) + a, k)
        return f(*a, **k)
    if isinstance(f, pytypes.FunctionType):
        if f.__code__.co_filename.startswith("<vc:"):
            return f(*a, **k)
        if is_repo_code(f.__code__):
            c = contract_for(f)
            if c is not None:
                return c(*a, **k)
            impl = overload_impl(f, a, k)
            if impl is not None:
                return run(impl, a, k)
            return run(f, a, k)
        return f(*a, **k)
    if isinstance(f, type) and getattr(f, "__module__", "").startswith("interpolation") and \
            isinstance(f.__dict__.get("__init__"), pytypes.FunctionType):
        o = f.__new__(f)
        run(f.__init__, (o,) + a, k)
        return o
    if isinstance(f, type) is False and type(f).__module__.startswith("interpolation") and hasattr(type(f), "__call__"):
        return run(type(f).__call__, (f,) + a, k)
    return f(*a, **k)


def contract_for(py):
    eng = HOOK.engine
    if not eng.contracts:
        return None
    return eng.contracts.get(label(py))


def run(py, a, k):
    eng = HOOK.engine
    eng.stats.functions.add(label(py))
    g = instrument(py)
    eng.depth = getattr(eng, "depth", 0) + 1
    if eng.depth > 60:
        raise Unsupported("recursion")
    try:
        return g(*a, **k)
    finally:
        eng.depth -= 1


def run_packed(f, seq):
    """f(*seq) for a sequence of symbolic length"""
    eng = HOOK.engine
    py = getattr(f, "py_func", f)
    eng.stats.functions.add(label(py))
    return instrument(py, True)(seq)


def start(f, *a, **k):
    """Entry point for harnesses."""
    return call(f, *a, **k)


# ------------------------------------------------------- numba overload lookup

def numba_type(x, literal):
    import numba
    from numba.core import types
    if isinstance(x, T):
        if x.is_const() and x.sort == "I" and literal:
            return types.literal(int(x.const()))
        return types.int64 if x.sort == "I" else types.float64
    if isinstance(x, A.Any):
        return types.float64
    if isinstance(x, B):
        return types.boolean
    if isinstance(x, A.SArray):
        return types.Array(types.float64 if x.store.elem == "R" else types.int64, x.ndim, x.store.layout,
                           readonly=getattr(x.store, "ro_type", False))
    if isinstance(x, np.ndarray) and x.dtype == object:
        lay = "C" if x.flags.c_contiguous else "F" if x.flags.f_contiguous else "A"
        return types.Array(types.float64, x.ndim, lay)
    if isinstance(x, tuple):
        return types.BaseTuple.from_types(tuple(numba_type(y, literal) for y in x))
    if literal and isinstance(x, (int, str, bool)) and not isinstance(x, np.generic):
        return types.literal(x)
    if isinstance(x, pytypes.FunctionType):
        ty = resolve(x)
        if ty is not None:
            return ty
    return numba.typeof(x)


def resolve(f):
    from numba.core.registry import cpu_target
    cpu_target.typing_context.refresh()
    try:
        return cpu_target.typing_context.resolve_value_type(f)
    except Exception:
        return None


def overload_impl(f, a, k):
    ty = resolve(f)
    temps = getattr(ty, "templates", None)
    if not temps:
        return None
    temps = [t for t in temps if hasattr(t, "_overload_func")]
    if not temps:
        return None
    from numba.core import errors
    import inspect
    for t in temps:
        ov = t._overload_func
        ov = getattr(ov, "__func__", ov)
        try:
            inspect.signature(ov).bind(*a, **k)
        except TypeError:
            continue
        pref = getattr(t, "prefer_literal", False)
        for lit in ((True, False) if pref else (False, True)):
            ta = [numba_type(x, lit) for x in a]
            tk = {n: numba_type(x, lit) for n, x in k.items()}
            try:
                impl = ov(*ta, **tk)
            except errors.NumbaError:
                continue
            except AttributeError:
                if not lit:
                    continue
                raise
            if impl is not None:
                HOOK.engine.stats.functions.add(label(ov) + " (overload generator, run as is)")
                return impl
    raise Unsupported("no overload of %s accepts these types" % f.__name__)


# ---------------------------------------------------------------------- loops

class SymRange:
    def __init__(self, lo, hi, step, item=None):
        self.lo, self.hi, self.step, self.item = lo, hi, step, item

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range outside a for statement")


class Plain:
    sym = False

    def __init__(self, it):
        self.it = it


def loop(it):
    if isinstance(it, SymRange):
        return SymLoop(it)
    if isinstance(it, SymSeq):
        return SymLoop(SymRange(it.lo, it.hi, const(1), it.item))
    if isinstance(it, A.SArray) and not lift(it.shape[0]).is_const():
        return SymLoop(SymRange(const(0), lift(it.shape[0]), const(1), lambda i: it[i]))
    return Plain(it)


def faulhaber(p):
    """coefficients [c0..c_{p+1}] of S_p(n) = sum_{k=0}^{n-1} k^p"""
    from fractions import Fraction
    from math import comb
    bern = [Fraction(1)]
    for m in range(1, p + 1):
        bern.append(-sum(comb(m + 1, j) * bern[j] for j in range(m)) / (m + 1))
    out = [Fraction(0)] * (p + 2)
    for j in range(p + 1):
        out[p + 1 - j] += Fraction(comb(p + 1, j)) * bern[j] / (p + 1)
    return out


def poly_sum(t, a, lo, hi):
    """sum over atom a from lo to hi-1 of t (polynomial in a); None if not polynomial"""
    coefs = {}
    for m, c in t.p.items():
        e = 0
        rest = []
        for x, k in m:
            if x == a:
                e = k
            else:
                if a in ATOMS[x].deep:
                    return None
                rest.append((x, k))
        if e < 0:
            return None
        coefs.setdefault(e, {})[tuple(rest)] = c
    out = const(0)
    for e, p in coefs.items():
        f = faulhaber(e)
        s = const(0)
        for n, c in enumerate(f):
            s = s + const(c, "R") * (hi ** n - lo ** n)
        out = out + T(p, "R") * s
    return T(out.p, t.sort)


class SymDict(dict):
    """A dictionary of the code: entries under an index of a loop of symbolic
    length are kept as (index, range, value)."""

    def __init__(self, *a):
        super().__init__(*a)
        self.generic = []

    def _key(self, k):
        k = lift_or_none(k) if isinstance(k, T) else k
        if isinstance(k, T) and k.is_const() and k.sort == "I":
            return int(k.const())
        return k

    def __setitem__(self, k, v):
        k = self._key(k)
        if not isinstance(k, T):
            if HOOK.engine is not None and HOOK.engine.loopvars:
                raise Unsupported("a dictionary is updated inside a loop of symbolic length")
            if self.generic:
                raise Unsupported("a dictionary entry set after a loop of symbolic length")
            return super().__setitem__(k, v)
        loops = HOOK.engine.symloops
        lp = loops[-1] if loops else None
        if lp is None or not k.same(lp.i) or len(loops) != 1 or lp.focused:
            raise Unsupported("a dictionary entry under a symbolic key")
        self.pending = (lp, lp.i, lp.lo, lp.hi, v)
        self.generic = [g for g in self.generic if g[0] is not lp] + [self.pending]

    def __getitem__(self, k):
        k = self._key(k)
        if not isinstance(k, T):
            if not self.generic:
                return super().__getitem__(k)
            k = lift(k)
        raise Unsupported("a dictionary entry under a symbolic key is read")

    def _no(self, *a, **kw):
        if self.generic:
            raise Unsupported("a dictionary with entries under symbolic keys")

    def get(self, k, d=None):
        self._no()
        if isinstance(k, T) and not k.is_const():
            raise Unsupported("a dictionary entry under a symbolic key is read")
        return super().get(self._key(k), d)

    def __contains__(self, k):
        self._no()
        return super().__contains__(self._key(k))

    def __iter__(self):
        self._no()
        return super().__iter__()

    def __len__(self):
        self._no()
        return super().__len__()

    def items(self):
        self._no()
        return super().items()

    def keys(self):
        self._no()
        return super().keys()

    def values(self):
        self._no()
        return super().values()


def made_dict(d):
    return d if HOOK.engine is None else SymDict(d)


class SymLoop:
    """Summary of `for i in range(lo, hi)` with symbolic bounds.

    The body is run for one arbitrary index i.  It is accepted when iterations
    do not interfere (map loops), when loop-carried numbers have a closed form,
    or when an iteration reads elements that earlier iterations wrote at a
    fixed distance: those elements become a function symbol defined by the body
    (a recurrence), with bounds inferred by induction where divisions need them.
    """
    sym = True

    def __init__(self, r):
        self.eng = HOOK.engine
        lo, hi, step = lift(r.lo), lift(r.hi), lift(r.step)
        if not step.is_const() or abs(step.const()) != 1:
            raise Unsupported("symbolic range with step %r" % step)
        self.dir = int(step.const())
        if self.dir == 1:
            self.lo, self.hi = lo, hi
        else:
            self.lo, self.hi = hi + 1, lo + 1
        self.cin = None
        self.phase_carry = None
        self.item = r.item or (lambda i: i)
        self.frame = sys._getframe(2)
        self.line = self.frame.f_lineno

    def containers(self):
        """the lists and dictionaries of the function's local variables"""
        f, out, seen = self.frame, [], set()
        for v in list(f.f_locals.values()):
            for c in [v] + (list(v) if isinstance(v, (list, tuple)) and len(v) < 50 else []):
                if isinstance(c, (list, dict, set)) and id(c) not in seen:
                    seen.add(id(c))
                    out.append((c, list(c) if isinstance(c, list) else list(dict.items(c)) if isinstance(c, dict) else set(c)))
        return out

    @staticmethod
    def untouched(c, before):
        if isinstance(c, set):
            return c == before
        now = list(c) if isinstance(c, list) else list(dict.items(c))
        if len(now) != len(before):
            return False
        if isinstance(c, list):
            return all(x is y for x, y in zip(now, before))
        return all(x[0] is y[0] and x[1] is y[1] for x, y in zip(now, before))

    def bad(self, what):
        raise Unsupported("%s inside a loop of symbolic length" % what)

    # carried numbers
    def enter(self, vals):
        self.vals0 = self.vals0 if self.vals0 is not None else vals
        if self.closed is not None:
            return tuple(self.closed)
        out = []
        self.cin = []
        for v in self.vals0:
            l = lift_or_none(v)
            if l is None:
                out.append(v)
                self.cin.append(None)
            else:
                s = of_atom(atom("sym", fresh_name("carried"), l.sort))
                out.append(s)
                self.cin.append(s)
        return tuple(out)

    def leave(self, vals):
        self.cout = vals
        self.left = True

    def final(self, now):
        return now if self.fin is None else tuple(self.fin)

    def __iter__(self):
        eng = self.eng
        eng.stats.loops += 1
        self.vals0 = self.closed = None
        self.fin = ()
        self.cout = ()
        if not eng.decide(cmp("<", self.lo, self.hi)):
            # no iteration: carried variables keep their values (python semantics)
            self.fin = None
            return
        i = None
        self.focused = False
        for n, f in eng.focus:
            if lift(n).same(self.hi - self.lo) and not any(f.same(v) for v in eng.loopvars):
                i = f + self.lo
                self.focused = True
                break
        if i is None or not (len(i.p) == 1 and i.sort == "I"):
            i = integer(fresh_name("i"))
            self.focused = False
        self.i = i
        ia = A.aid(i)
        eng.assume(conj(cmp("<=", self.lo, i), cmp("<", i, self.hi)), check=True)
        eng.loopvars.append(i)
        eng.symloops.append(self)
        boxes = self.containers()
        stores = list(eng.stores)
        pre = {s: s.layers for s in stores}
        logpos = {}
        slots = []        # (store, pattern tuple, F name, offset)
        rounds = 0
        quiet_saved = eng.quiet_div
        inv_done = False
        objs = [(o, list(o.ravel())) for o in eng.objs]
        if not self.focused and not eng.scout:
            # dry run: which elements does an iteration read and write?
            snap = eng.snapshot()
            for s in stores:
                if s.readlog is None:
                    s.readlog = []
                    logpos[s] = None
                elif s not in logpos:
                    logpos[s] = len(s.readlog)
            mark = {s: len(s.readlog) for s in stores}
            base = {s: len(s.layers) for s in stores}
            self.left = False
            yield self.item(i)
            bad = eng.scout_bad
            need = None
            if self.left and not bad:
                need = self.conflicts(stores, pre, base, mark, ia, [], soft=True)
            eng.restore(snap)
            for s in stores:
                s.layers = pre[s]
            if need:
                slots = need
        while True:
            rounds += 1
            if rounds > 8:
                raise Unsupported("loop summary does not settle")
            nobl = len(eng.obls)
            nfork = len(eng.nforks)
            for s in stores:
                if s.readlog is None:
                    s.readlog = []
                    logpos[s] = None
                elif s not in logpos:
                    logpos[s] = len(s.readlog)
                s.layers = pre[s]
            mark = {s: len(s.readlog) for s in stores}
            for (s, pat, F, c, width, forms) in slots:
                i2 = integer(fresh_name("r"))
                fs = [integer(fresh_name("g")) for _ in forms]
                mp = {A.aid(f): g for (f, _), g in zip(forms, fs)}
                mp[ia] = i2
                p2 = tuple(x.subst(mp) for x in pat)
                if self.dir == 1:
                    rg = (self.lo - width, i)
                else:
                    rg = (i + 1, self.hi + width)
                s.layers = s.layers + (A.Layer(tuple(fs) + (i2,), tuple(r for _, r in forms) + (rg,), p2,
                                               app(F, self.outer() + fs + [i2])),)
            base = {s: len(s.layers) for s in stores}
            if slots and not inv_done:
                eng.quiet_div = []
            self.left = False
            yield self.item(i)
            if not self.left:
                raise Unsupported("loop body did not complete")
            if not all(self.untouched(c, before) for c, before in boxes):
                raise Unsupported("a list is updated inside a loop of symbolic length")
            for o, before in objs:
                if any(x is not y for x, y in zip(before, o.ravel())):
                    raise Unsupported("array of fixed size updated inside a loop of symbolic length")
            forks = [f for f in eng.nforks[nfork:] if ia in f.atoms_deep()]
            # 1. carried numbers
            if self.vals0 is not None and self.closed is None:
                self.close(ia, forks)
                eng.obls[nobl:] = []
                if any(c is not None for c in self.cin):
                    continue
            # 2. interference between iterations
            need = self.conflicts(stores, pre, base, mark, ia, slots)
            if need:
                if forks:
                    raise Unsupported("recurrence with branches on the index")
                eng.obls[nobl:] = []
                slots = need
                continue
            if slots:
                if forks:
                    raise Unsupported("recurrence with branches on the index")
                if not inv_done:
                    q = eng.quiet_div
                    eng.quiet_div = quiet_saved
                    eng.obls[nobl:] = []
                    self.define(slots, pre, base, ia, q)
                    inv_done = True
                    nobl = len(eng.obls)
                    continue
            break
        eng.quiet_div = quiet_saved
        # 3. summary
        for s in stores:
            new = s.layers[base[s]:]
            if not new and not any(x[0] is s for x in slots):
                s.layers = pre[s]
                continue
            if forks and self.focused:
                self.uniform(("writes", s.name), sorted({self.shape_of(l) for l in new}))
            block = self.block(s, new)
            if block is None:
                self.check_overlap(s, new, ia)
            out = []
            for n, l in enumerate(new):
                rng = (self.lo, self.hi)
                for (ss, pat, F, c, w, forms) in slots:
                    if ss is s and self.same_pattern(l, pat, forms):
                        # the symbol also stands for the elements the recurrence starts from
                        rng = (self.lo - w, self.hi) if self.dir == 1 else (self.lo, self.hi + w)
                        l = A.Layer(l.formals, l.ranges, l.pattern, app(F, self.outer() + list(l.formals) + [i]), l.only)
                uses = any(ia in p.atoms_deep() for p in l.pattern)
                if uses:
                    f = integer(fresh_name("k"))
                    only = {A.aid(f): i} if (forks or self.focused) else {}
                    nl = A.rename_layer(l, {ia: f}, (f,), (rng,), None)
                    if only:
                        # an instance other than the focused one is not described
                        nl.only.update(only)
                    out.append(nl)
                else:
                    last = self.hi - 1 if self.dir == 1 else self.lo
                    if forks or self.focused:
                        out.append(A.Layer(l.formals, l.ranges, l.pattern, A.POISON))
                    else:
                        out.append(A.rename_layer(l, {ia: last}))
            if block is not None:
                A.Block(block[0], block[1], block[2], out)
            s.layers = pre[s] + tuple(out)
        for s in stores:
            if logpos.get(s) is None and s.readlog is not None:
                s.readlog = None
        eng.loopvars.pop()
        eng.symloops.pop()
        if slots:
            eng.stats.recurrences += len(slots)
        if self.vals0 is not None:
            self.finish_carried(ia)

    def shape_of(self, l):
        """which elements a layer writes, independently of names"""
        mp = {A.aid(f): of_atom(atom("sym", "formal%d" % n, "I")) for n, f in enumerate(l.formals)}
        return tuple(p.subst(mp).key() for p in l.pattern) + tuple(lift(x).subst(mp).key() for r in l.ranges for x in r)

    def block(self, s, new):
        """Is there a counter such that every iteration writes exactly the positions (along
        one axis) that the counter passes?  -> (axis, first - 1, last)"""
        if self.closed is None or self.dir != 1 or not new:
            return None
        for c, v0, d in zip(self.closed, self.vals0, self.deltas):
            if not isinstance(d, T) or not d.p or lift(c).sort != "I":
                continue
            for q in range(len(new[0].pattern)):
                cur, n = lift(c), 0
                while n < len(new):
                    l = new[n]
                    if isinstance(l.tag, A.Block):
                        b = l.tag
                        k = len(b.layers)
                        if b.axis != q or not b.lo.same(cur) or len(new) < n + k or \
                                any(x is not y for x, y in zip(new[n:n + k], b.layers)):
                            break
                        cur = b.hi
                        n += k
                        continue
                    if l.pattern[q].atoms_deep() & {A.aid(f) for f in l.formals} or not l.pattern[q].same(cur + 1):
                        break
                    cur = cur + 1
                    n += 1
                if n == len(new) and cur.same(lift(c) + d):
                    return q, lift(v0), lift(v0) + self.sum(d, self.lo, self.hi)
        return None

    def outer(self):
        return [v for v in self.eng.loopvars if not v.same(self.i)]

    def uniform(self, what, value):
        """The iterations that take other branches agree: they are described by the other
        paths, so the same has to be found on every path (checked here, path by path)."""
        key = (self.frame.f_code.co_filename, self.frame.f_code.co_name, self.line) + what
        seen = self.eng.stats.uniform.setdefault(key, value)
        if seen != value:
            raise Unsupported("iterations differ in more than the values they write")

    def grows(self, n, v0, closed, final, d):
        """an increasing counter stays between its first and its last value"""
        eng = self.eng
        if self.dir != 1 or d.is_const() or d.sort != "I" or not eng.entails(cmp("<=", 0, d)):
            return
        for f in (cmp("<=", v0, closed), cmp("<=", closed + d, final)):
            if not isinstance(f, bool):
                eng.linfacts.append(f)

    def close(self, ia, forks):
        """closed forms of loop-carried numbers"""
        self.deltas = []
        fresh = {A.aid(c) for c in self.cin if c is not None}
        closed = []
        for c, v0, out in zip(self.cin, self.vals0, self.cout):
            if c is None:
                if out is not v0:
                    raise Unsupported("loop-carried value that is not a number")
                closed.append(v0)
                self.deltas.append(None)
                continue
            d = lift(out) - c
            if not (lift(out).atoms_deep() & fresh) and d.p and not forks:
                # assigned anew by every iteration: what the one before left
                f, ia_ = lift(out), A.aid(self.i)
                at = lambda k: f.subst({ia_: lift(k)})
                first = self.lo - 1 if self.dir == 1 else self.hi
                if self.eng.zero(at(first) - lift(v0)):
                    closed.append(at(self.i - 1 if self.dir == 1 else self.i + 1))
                    self.deltas.append(("last", f))
                    continue
                raise Unsupported("loop-carried number without a closed form")
            if forks and d.p:
                if not self.focused or self.dir != 1 or d.atoms_deep() & fresh:
                    raise Unsupported("loop-carried number updated conditionally")
                self.uniform(("carried", len(closed)), d.key())
            if d.atoms_deep() & fresh:
                # a product?
                k = A.aid(c)
                g = lift(out)
                if not g.p or not all((k, 1) in m for m in g.p):
                    raise Unsupported("loop-carried number without a closed form")
                g = T({tuple(x for x in m if x != (k, 1)): e for m, e in g.p.items()}, g.sort)
                if g.atoms_deep() & fresh:
                    raise Unsupported("loop-carried number without a closed form")
                closed.append(lift(v0) * prod_of(self.lo, self.i, self.i, g) if self.dir == 1
                              else lift(v0) * prod_of(self.i + 1, self.hi, self.i, g))
                self.deltas.append(("prod", g))
                continue
            s = self.sum(d, self.lo, self.i) if self.dir == 1 else self.sum(d, self.i + 1, self.hi)
            closed.append(lift(v0) + s)
            self.deltas.append(d)
            if not d.is_const():
                self.grows(len(closed), lift(v0), closed[-1], lift(v0) + self.sum(d, self.lo, self.hi), d)
        self.closed = closed

    def finish_carried(self, ia):
        fin = []
        for v0, d in zip(self.vals0, self.deltas):
            if d is None:
                fin.append(v0)
            elif isinstance(d, tuple) and d[0] == "last":
                fin.append(d[1].subst({ia: self.hi - 1 if self.dir == 1 else self.lo}))
            elif isinstance(d, tuple):
                fin.append(lift(v0) * prod_of(self.lo, self.hi, self.i, d[1]))
            else:
                fin.append(lift(v0) + self.sum(d, self.lo, self.hi))
                f = cmp("<=", lift(v0), fin[-1])
                if not d.is_const() and not isinstance(f, bool) and self.dir == 1 and d.sort == "I" and \
                        self.eng.entails(cmp("<=", 0, d)):
                    self.eng.linfacts.append(f)
        self.fin = tuple(fin)

    def sum(self, d, lo, hi):
        s = poly_sum(d, A.aid(self.i), lo, hi)
        return sum_of(lo, hi, self.i, d) if s is None else s

    def earlier(self, v2):
        """is iteration v2 before iteration i: True / False / None"""
        f = cmp("<", v2, self.i) if self.dir == 1 else cmp("<", self.i, v2)
        if f is True or (f is not False and self.eng.entails(f)):
            return True
        g = neg(f)
        if g is True or (g is not False and self.eng.entails(g)):
            return False
        return None

    def conflicts(self, stores, pre, base, mark, ia, slots, soft=False):
        try:
            return self._conflicts(stores, pre, base, mark, ia, slots)
        except Unsupported:
            if soft:
                return None
            raise

    def _conflicts(self, stores, pre, base, mark, ia, slots):
        eng = self.eng
        found = {}
        for s in stores:
            new = s.layers[base[s]:]
            if not new:
                continue
            log = s.readlog[mark[s]:]
            for idx, n, layers in log:
                if n >= len(pre[s]):
                    continue        # written in this iteration, or a recurrence layer
                for l in new:
                    i2 = integer(fresh_name("w"))
                    ren = A.rename_layer(l, {ia: i2})
                    uses = any(ia in p.atoms_deep() for p in l.pattern)
                    if not uses:
                        if A.misses(l, idx, None):
                            continue
                        m = A.match(l, idx, None)
                        if m is None:
                            continue
                        if m[0] != "unsolved" and m[0] is not True and eng.entails(neg(m[0])):
                            continue
                        raise Unsupported("an iteration reads an element that every iteration writes")
                    ren = A.Layer(ren.formals + (i2,), ren.ranges + ((self.lo, self.hi),), ren.pattern, None)
                    m = A.match(ren, idx, None)
                    if m is None:
                        continue
                    if m[0] == "unsolved":
                        if A.misses(ren, idx, None):
                            continue
                        raise Unsupported("cannot tell which iteration wrote an element")
                    cond, mp = m
                    v2 = mp[A.aid(i2)]
                    if v2.same(self.i):
                        continue
                    if cond is not True and eng.entails(neg(cond)):
                        continue
                    e = self.earlier(v2)
                    if e is False:
                        continue
                    off = (self.i - v2) * self.dir
                    if not (off.is_const() and off.const() > 0) or not isinstance(l.value, (T, A.Copy)) or \
                            any(ia in x.atoms_deep() for r in l.ranges for x in r):
                        raise Unsupported("iteration depends on another in an unsupported way")
                    key = self.slot_key(s, l.pattern, l.formals)
                    c = int(off.const())
                    if key in found:
                        found[key][3] = max(found[key][3], c)
                    else:
                        found[key] = [s, l.pattern, None, c, c, list(zip(l.formals, l.ranges))]
        if not found:
            return None
        out = []
        for s, pat, _, c, w, forms in slots:
            found.setdefault(self.slot_key(s, pat, [f for f, _ in forms]), [s, pat, None, c, w, forms])
        for key, (s, pat, _, c, w, forms) in sorted(found.items(), key=lambda kv: repr(kv[0])):
            F = fresh_name("%s_rec" % s.name)
            out.append((s, pat, F, c, c, forms))
        return out

    @staticmethod
    def canonical(pat, forms):
        mp = {A.aid(f): of_atom(atom("sym", "formal%d" % n, "I")) for n, f in enumerate(forms)}
        return tuple(p.subst(mp) if mp else p for p in pat)

    def slot_key(self, s, pat, forms):
        return (s.serial, tuple(p.key() for p in self.canonical(pat, forms)))

    def same_pattern(self, l, pat, forms):
        return len(l.formals) == len(forms) and all(x.same(y) for x, y in zip(
            self.canonical(l.pattern, l.formals), self.canonical(pat, [f for f, _ in forms])))

    def define(self, slots, pre, base, ia, quiet):
        """Register the recurrences; infer bounds when divisions need them."""
        from .engine import Rule
        eng = self.eng
        outer = [A.aid(v) for v in self.outer()]
        lo, hi, d = self.lo, self.hi, self.dir
        bodies = {}
        group = len(eng.rules) + 1
        for (s, pat, F, c, w, forms) in slots:
            E, fids = None, []
            for l in s.layers[base[s]:]:
                if self.same_pattern(l, pat, forms):
                    E, fids = l.value, [A.aid(f) for f in l.formals]
                    pat = l.pattern
                    for f, r in zip(l.formals, l.ranges):
                        eng.assume(conj(cmp("<=", r[0], f), cmp("<", f, r[1])))
                    if isinstance(E, A.Copy):
                        E = A.value_of(E, {})
            if not isinstance(E, T):
                raise Unsupported("recurrence body")
            bodies[F] = E

            def unfold(args, E=E, s=s, pat=pat, w=w, layers=pre[s], fids=fids):
                k = args[-1]
                sub = {ia: k}
                sub.update({o: a for o, a in zip(outer + fids, args[:-1])})
                if eng.entails(conj(cmp("<=", lo, k), cmp("<", k, hi))):
                    return E.subst(sub)
                out = cmp("<", k, lo) if d == 1 else cmp("<=", hi, k)
                if eng.entails(out):
                    osub = {o: a for o, a in zip(outer, args[:-1])}
                    idx = tuple(p.subst(sub) for p in pat)
                    n = len(eng.taken)
                    v = A.read(s, layers, idx, osub or None, log=False)
                    return v
                return None

            eng.rules[F] = Rule(F, [("def", unfold)], direction=d)
            eng.rules[F].group = group
        if not quiet:
            return
        self.houdini(slots, bodies, pre, ia, quiet)

    def houdini(self, slots, bodies, pre, ia, quiet):
        from fractions import Fraction
        eng = self.eng
        i = self.i
        cands = {}
        for (s, pat, F, c, w, _forms) in slots:
            cands[F] = [("ge", Fraction(0)), ("le", Fraction(1, 2)), ("le", Fraction(1)),
                        ("le", Fraction(0)), ("ge", Fraction(-1, 2)), ("ge", Fraction(-1))]

        def form(cd, t):
            return cmp("<=", cd[1], t) if cd[0] == "ge" else cmp("<=", t, cd[1])

        # base cases
        for (s, pat, F, c, w, _forms) in slots:
            for k in range(1, w + 1):
                ix = self.lo - k if self.dir == 1 else self.hi - 1 + k
                v = A.read(s, pre[s], tuple(p.subst({ia: ix}) for p in pat), None, log=False)
                cands[F] = [cd for cd in cands[F] if isinstance(v, T) and
                            (form(cd, v) is True or (form(cd, v) is not False and eng.entails(form(cd, v))))]
        # inductive step
        while True:
            hyps = []
            for F, E in bodies.items():
                for G in bodies.values():
                    for a in G.atoms_deep():
                        if ATOMS[a].kind == "app" and ATOMS[a].name == F:
                            hyps += [form(cd, of_atom(ATOMS[a])) for cd in cands[F]]
            ok_div = all(eng.fresh_entails(hyps, cmp("!=", q, 0)) for q in quiet)
            if not ok_div:
                raise_div = [q for q in quiet if not eng.fresh_entails(hyps, cmp("!=", q, 0))]
                for q in raise_div:
                    eng.fail("division by a nonzero number", "div",
                             "no inferred bound keeps the denominator %r away from 0" % q)
                raise Unsupported("denominator in a recurrence not bounded away from zero")
            drop = False
            for F, E in bodies.items():
                keep = [cd for cd in cands[F] if eng.fresh_entails(hyps, form(cd, E), inverses=True)]
                if len(keep) != len(cands[F]):
                    cands[F] = keep
                    drop = True
            if not drop:
                break
        lo, hi, d = self.lo, self.hi, self.dir
        for (s, pat, F, c, w, _forms) in slots:
            if not cands[F]:
                continue

            def inv(t, args, F=F, w=w):
                k = args[-1]
                a, b = (lo - w, hi) if d == 1 else (lo, hi + w)
                if eng.entails(conj(cmp("<=", a, k), cmp("<", k, b))):
                    for cd in cands[F]:
                        eng.assume(form(cd, t))

            eng.rules[F].inv.append(inv)
            for a in list(ATOMS):
                if a.kind == "app" and a.name == F:
                    inv(of_atom(a), a.args)
            eng.obl("bounds of a recurrence hold at the start and are preserved", "inv", "ok", "z3",
                    "%s: %s" % (F, cands[F]))

    def check_overlap(self, s, new, ia):
        """Writes of different iterations must not hit the same element,
        unless every iteration rewrites it (last one wins)."""
        eng = self.eng
        for x in range(len(new)):
            for y in range(x + 1, len(new)):
                p1, p2 = new[x].pattern, new[y].pattern
                ok = False
                for a, b in zip(p1, p2):
                    if a.same(b) and A.lin_coef(a, ia)[0] in (1, -1):
                        fs = {A.aid(f) for f in new[x].formals + new[y].formals}
                        if not (a.atoms_deep() & fs):
                            ok = True
                            break
                    fs = {A.aid(f) for f in new[x].formals + new[y].formals} | {ia}
                    if not ((a.atoms_deep() | b.atoms_deep()) & fs):
                        f = cmp("!=", a, b)
                        if f is True or (f is not False and eng.entails(f)):
                            ok = True
                            break
                if not ok and not any(ia in p.atoms_deep() for p in p1 + p2):
                    ok = True
                if not ok:
                    raise Unsupported("overlapping writes in a loop")
        for l in new:
            if any(ia in p.atoms_deep() for p in l.pattern):
                fs = {A.aid(f) for f in l.formals}
                if not any(A.lin_coef(p, ia)[0] in (1, -1) and not (p.atoms_deep() & fs) for p in l.pattern):
                    # the index enters only mixed with others
                    l.tag = "mixed"


builtins.__vc_call__ = call
builtins.__vc_loop__ = loop
builtins.__vc_dict__ = made_dict
builtins.__vc_cond__ = cond
builtins.__vc_both__ = both
builtins.__vc_under__ = within
builtins.__vc_join__ = join
builtins.__vc_lit__ = exact
builtins.__vc_elem__ = exact
builtins.__vc_star__ = star


def comp(fn, it, star, lazy):
    f = (lambda x: fn(*x)) if star else fn
    if HOOK.engine is None or not isinstance(it, (SymRange, A.SArray, SymSeq)):
        return (f(x) for x in it) if lazy else [f(x) for x in it]
    return comprehension(f, it)


builtins.__vc_comp__ = comp
builtins.__vc_ifexp__ = ifexp
builtins.__vc_poison__ = A.POISON
