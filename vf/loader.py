"""Mechanical loading of the real /repo/fortuna sources.

On every run each imported `fortuna` module is read from the working tree, its AST is
instrumented (loops and comprehensions get hooks, nothing else changes) and it is executed by
CPython with (a) third-party imports resolved to the shim and (b) a few builtins replaced by
versions that also accept symbolic values.
"""
from __future__ import annotations
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import sys
import types
import hashlib
import z3
from . import core, shim
from .core import Arr, C, SymSeq, Unsupported, lift, tz, dz, dim, sdim

REPO = os.environ.get("VERIF_REPO", "/repo")
SOURCES = {}       # path -> sha256 of the text that was verified
STD = set(sys.stdlib_module_names) | {"z3", "vf", "contracts", "_pytest"}


class Instrument(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod
        self.stack = []
        self.kinds = []
        self.n = 0

    @property
    def in_class(self):
        return not self.kinds or self.kinds[-1]

    def _func(self, node):
        gen = isinstance(node, ast.FunctionDef) and eager_generator(node)
        if gen:
            YieldToAppend().run(node)
        self.stack.append(node.name)
        self.kinds.append(isinstance(node, ast.ClassDef))
        self.generic_visit(node)
        self.stack.pop()
        self.kinds.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func
    visit_ClassDef = _func

    def visit_For(self, node):
        self.generic_visit(node)
        if not any(True for _ in self.stack):
            return node
        self.n += 1
        it = f"_vf_it{self.n}"
        assigned = sorted(assigned_names(node.body) | target_names(node.target))
        tgt = target_names(node.target)
        carried = [a for a in assigned if a not in tgt]
        key = ".".join(self.stack)
        call = ast.Call(ast.Name("__vf_loop__", ast.Load()),
                        [node.iter, ast.Constant(key), ast.Constant(tuple(carried))], [])
        pre = [ast.Assign([ast.Name(it, ast.Store())], call)]
        if carried:
            havoc = ast.If(
                ast.Attribute(ast.Name(it, ast.Load()), "symbolic", ast.Load()),
                [ast.Assign([ast.Tuple([ast.Name(c, ast.Store()) for c in carried], ast.Store())],
                            ast.Call(ast.Attribute(ast.Name(it, ast.Load()), "havoc", ast.Load()),
                                     [ast.Call(ast.Name("locals", ast.Load()), [], [])], []))], [])
            pre.append(havoc)
        node.iter = ast.Name(it, ast.Load())
        leave = lambda: ast.Expr(ast.Call(ast.Attribute(ast.Name(it, ast.Load()), "leave", ast.Load()), [], []))

        def mark(body, inner):
            """Announce every break (of this loop) and return to the loop object."""
            res = []
            for st in body:
                if isinstance(st, ast.Return) or isinstance(st, ast.Break) and not inner:
                    res.append(leave())
                elif not isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    deep = inner or isinstance(st, (ast.For, ast.While))
                    for fld in ("body", "orelse", "finalbody"):
                        if getattr(st, fld, None):
                            setattr(st, fld, mark(getattr(st, fld), deep and not (fld == "orelse" and not inner)))
                    for h in getattr(st, "handlers", []):
                        h.body = mark(h.body, deep)
                res.append(st)
            return res
        node.body = mark(node.body, False)
        out = pre + [node]
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    def visit_Assign(self, node):
        self.generic_visit(node)
        t = node.targets[0]
        if len(node.targets) == 1 and isinstance(t, ast.Tuple) and any(isinstance(e, ast.Starred) for e in t.elts):
            k = next(i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred))
            t.elts[k] = t.elts[k].value
            node.value = ast.copy_location(ast.Call(ast.Name("__vf_star__", ast.Load()), [node.value, ast.Constant(k), ast.Constant(len(t.elts) - k - 1)], []), node.value)
            ast.fix_missing_locations(node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            f = "__vf_in__" if isinstance(node.ops[0], ast.In) else "__vf_notin__"
            new = ast.Call(ast.Name(f, ast.Load()), [node.left, node.comparators[0]], [])
            return ast.fix_missing_locations(ast.copy_location(new, node))
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        bad = (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)
        if any(isinstance(x, bad) or isinstance(x, ast.Name) and x.id in ("super", "__class__", "locals") for x in ast.walk(node)) or self.in_class:
            return node
        new = ast.Call(ast.Name("__vf_bool__", ast.Load()), [ast.Constant(isinstance(node.op, ast.And))]
                       + [ast.Lambda(args_([]), v) for v in node.values], [])
        return ast.fix_missing_locations(ast.copy_location(new, node))

    def _comp(self, node, kind):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(node)):
            return node
        lam = make_lambda(g.target, node.elt)
        if lam is None:
            return node
        cond = None
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            cond = make_lambda(g.target, c)
        new = ast.Call(ast.Name("__vf_comp__", ast.Load()),
                       [lam, g.iter, cond or ast.Constant(None), ast.Constant(kind)], [])
        return ast.fix_missing_locations(ast.copy_location(new, node))

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == "type" and len(node.args) == 1 and not node.keywords:
            node.func = ast.copy_location(ast.Name("__vf_type__", ast.Load()), node.func)
        return node

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")


def own_nodes(node):
    """Nodes of a function body without those of nested functions, lambdas and classes."""
    st = list(node.body)
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            st.extend(ast.iter_child_nodes(n))


def eager_generator(node):
    """A generator whose yields are all plain statements outside while/try/with: the sequence it produces is
    the list of the yielded values, in order (its body is run on the first iteration)."""
    ys = [n for n in own_nodes(node) if isinstance(n, (ast.Yield, ast.YieldFrom))]
    if not ys:
        return False
    stmts = [n.value for n in own_nodes(node) if isinstance(n, ast.Expr)]
    if any(y not in stmts for y in ys) or any(isinstance(d, ast.Name) and "context" in d.id or isinstance(d, ast.Attribute) and "context" in d.attr for d in node.decorator_list):
        return False
    return not any(isinstance(n, (ast.While, ast.Try, ast.With)) and any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(n)) for n in own_nodes(node))


class YieldToAppend(ast.NodeTransformer):
    OUT = "vf_out__"

    def run(self, node):
        inner = ast.FunctionDef(name="vf_gen__", args=args_([]), decorator_list=[], returns=None, type_comment=None, type_params=[],
                                body=[ast.Assign([ast.Name(self.OUT, ast.Store())], ast.List([], ast.Load()))]
                                + [self.visit(b) for b in node.body] + [ast.Return(ast.Name(self.OUT, ast.Load()))])
        doc = []
        node.body = doc + [inner, ast.Return(ast.Call(ast.Name("__vf_gen__", ast.Load()), [ast.Name("vf_gen__", ast.Load())], []))]
        names = {n.id for n in own_nodes(inner) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        params = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
        if names & params:          # parameters assigned in the body stay variables of the generator
            inner.body.insert(0, ast.Nonlocal(sorted(names & params)))
        ast.copy_location(inner, node)
        ast.fix_missing_locations(node)

    def visit_FunctionDef(self, n):
        return n
    visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Return(self, n):
        return ast.copy_location(ast.Return(ast.Name(self.OUT, ast.Load())), n)

    def visit_Expr(self, n):
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            f = "__vf_yield__" if isinstance(n.value, ast.Yield) else "__vf_yield_from__"
            v = n.value.value or ast.Constant(None)
            return ast.copy_location(ast.Assign([ast.Name(self.OUT, ast.Store())], ast.Call(
                ast.Name(f, ast.Load()), [ast.Name(self.OUT, ast.Load()), v], [])), n)
        return n


class GenSeq:
    """A generator: its values as a (possibly symbolic) sequence, consumed once."""

    def __init__(self, body):
        self.body, self.vals, self.pos = body, None, 0

    def values(self):
        if self.vals is None:
            self.vals = self.body()
        return self.vals

    def symbolic(self):
        v = self.values()
        return isinstance(v, SymSeq) and core.is_sym_dim(v.n)

    def rest(self):
        v, p = self.values(), self.pos
        if isinstance(v, SymSeq):
            n = v.n if isinstance(v.n, int) and isinstance(p, int) else None
            self.pos = v.n
            return v if isinstance(p, int) and p == 0 else SymSeq(dim(z3.simplify(dz(v.n) - dz(p))), lambda k: v.elem(z3.simplify(tz(k) + dz(p))))
        self.pos = len(v)
        return v[p:]

    def __vf_seq__(self):
        return self.rest() if self.symbolic() else None

    def __iter__(self):
        return self

    def __next__(self):
        v, p = self.values(), self.pos
        if isinstance(v, SymSeq):
            t = z3.simplify(dz(p) >= dz(v.n))
            if z3.is_true(t) or not z3.is_false(t) and core.branch(t):
                raise StopIteration
            self.pos = dim(z3.simplify(dz(p) + 1))
            return v.elem(z3.simplify(dz(p)))
        if p >= len(v):
            raise StopIteration
        self.pos = p + 1
        return v[p]

    def __getattr__(self, n):
        raise Unsupported(f"generator attribute {n}")


def vf_yield(out, v):
    from .loops import ListCarry
    if isinstance(out, (list, ListCarry)):
        out.append(v)
        return out
    return out + [v]


def vf_yield_from(out, it):
    from .loops import ListCarry
    s = as_seq(it)
    if s is None:
        for v in concrete_iter(it):
            out = vf_yield(out, v)
        return out
    if isinstance(out, ListCarry):
        raise Unsupported("yield from a symbolic sequence inside a symbolic loop")
    return out + s


def viter(x, *a):
    if a:
        return iter(x, *a)
    if isinstance(x, GenSeq):
        return x
    s = as_seq(x)
    return GenSeq(lambda: s) if s is not None else iter(concrete_iter(x))


def vnext(x, *d):
    return next(x, *d)


def make_lambda(target, body):
    """lambda _e: body with target bound to _e (nested tuples allowed)."""
    cnt = [0]

    def bind(t, body):
        if isinstance(t, ast.Name):
            return ast.Lambda(args_([t.id]), body), None
        if isinstance(t, (ast.Tuple, ast.List)):
            names, inner = [], []
            for e in t.elts:
                if isinstance(e, ast.Name):
                    names.append(e.id)
                elif isinstance(e, (ast.Tuple, ast.List)):
                    cnt[0] += 1
                    nm = f"_vf_t{cnt[0]}"
                    names.append(nm)
                    inner.append((e, nm))
                else:
                    return None, None
            b = body
            for e, nm in inner:
                lam, _ = bind(e, b)
                if lam is None:
                    return None, None
                b = ast.Call(lam, [ast.Name(nm, ast.Load())], [])
            lam = ast.Lambda(args_(names), b)
            cnt[0] += 1
            nm = f"_vf_t{cnt[0]}"
            return ast.Lambda(args_([nm]), ast.Call(lam, [ast.Starred(
                ast.Call(ast.Name("__vf_unpack__", ast.Load()), [ast.Name(nm, ast.Load()), ast.Constant(len(names))], []),
                ast.Load())], [])), None
        return None, None
    return bind(target, body)[0]


def args_(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


MUTATORS = {"append", "extend", "insert"}


def assigned_names(body):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store) and not n.id.startswith("_vf_"):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Call(self, n):
            if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name):
                out.add(n.func.value.id)
            self.generic_visit(n)

        def visit_Subscript(self, n):
            if isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                out.add(n.value.id)
            self.generic_visit(n)
    for s in body:
        V().visit(s)
    return out


class FortunaFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        top = name.split(".")[0]
        if top == "fortuna":
            p = os.path.join(REPO, *name.split("."))
            if os.path.isdir(p):
                f = os.path.join(p, "__init__.py")
                spec = importlib.machinery.ModuleSpec(name, self, origin=f, is_package=True)
                spec.submodule_search_locations = [p]
                return spec
            if os.path.isfile(p + ".py"):
                return importlib.machinery.ModuleSpec(name, self, origin=p + ".py")
            return None
        if top in STD or top.startswith("_"):
            return None
        return importlib.machinery.ModuleSpec(name, self, origin="shim", is_package=True)

    def create_module(self, spec):
        if spec.origin == "shim":
            m = shim.module(spec.name)
            m.__path__ = []
            return m
        return None

    def exec_module(self, module):
        spec = module.__spec__
        if spec.origin == "shim":
            return
        f = spec.origin
        if not os.path.exists(f):
            return
        text = open(f, encoding="utf-8").read()
        SOURCES[f] = hashlib.sha256(text.encode()).hexdigest()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(text, f)
            tree = Instrument(spec.name).visit(tree)
            ast.fix_missing_locations(tree)
            code = compile(tree, f, "exec", dont_inherit=True)
        module.__file__ = f
        module.__dict__.update(BUILTINS)
        was, C.active_verification = C.active_verification, False
        try:
            exec(code, module.__dict__)
        finally:
            C.active_verification = was


def install():
    if not any(isinstance(f, FortunaFinder) for f in sys.meta_path):
        sys.meta_path.insert(0, FortunaFinder())
        for n, m in list(shim.MODULES.items()):
            parts = n.split(".")
            for k in range(1, len(parts) + 1):
                nm = ".".join(parts[:k])
                mm = shim.module(nm)
                sys.modules[nm] = mm
                if k > 1:
                    parent = shim.module(".".join(parts[:k - 1]))
                    parent.__dict__.setdefault(parts[k - 1], mm)


# ------------------------------------------------------------------ builtins accepting symbolic values
class _TypeMeta(type):
    def __instancecheck__(cls, o):
        return cls._check(o)

    def __subclasscheck__(cls, o):
        return builtins.issubclass(o, cls._real)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __or__(cls, o):
        return cls._real | (o._real if isinstance(o, _TypeMeta) else o)

    def __ror__(cls, o):
        return (o._real if isinstance(o, _TypeMeta) else o) | cls._real

    def __getitem__(cls, k):
        return cls._real[k]

    def __getattr__(cls, n):
        return getattr(cls._real, n)


def _mk(name, real, make, check):
    return _TypeMeta("v" + name, (), {"_real": real, "_make": staticmethod(make), "_check": staticmethod(check)})


def _int_make(x=0, *a):
    if isinstance(x, Arr):
        if x.sh != ():
            for d in x.sh:
                if not core.dim_is(d, 1):
                    raise core.ModelledTypeError("only length-1 arrays can be converted to Python scalars")
            x = core.scalar(x.fn(tuple(z3.IntVal(0) for _ in x.sh)))
        t = tz(x)
        t = core.to_int(t) if t.sort() != core.RealS else core.trunc(t)
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        return core.scalar(t, "py")
    return int(x, *a)


def _float_make(x=0.0):
    if isinstance(x, Arr):
        if x.sh != ():
            for d in x.sh:
                if not core.dim_is(d, 1):
                    raise core.ModelledTypeError("only length-1 arrays can be converted to Python scalars")
            x = core.scalar(x.fn(tuple(z3.IntVal(0) for _ in x.sh)))
        return core.scalar(core.to_real(tz(x)), "py")
    return float(x)


def _bool_make(x=False):
    return bool(x)


def _list_make(x=()):
    if isinstance(x, SymSeq):
        return SymSeq(x.n, x.elem, x.name)
    if isinstance(x, Arr) and x.sh and core.is_sym_dim(x.sh[0]):
        return SymSeq(x.sh[0], lambda k: core.getitem(x, core.scalar(k)))
    if isinstance(x, LazyRange):
        return x.seq()
    return list(x)


def _tuple_make(x=()):
    if isinstance(x, (SymSeq, LazyRange)) or isinstance(x, Arr) and x.sh and core.is_sym_dim(x.sh[0]):
        return _list_make(x)
    return tuple(x)


vint = _mk("int", int, _int_make, lambda o: isinstance(o, int) or (isinstance(o, Arr) and o.kind == "py" and o.sh == () and o.dt == "i"))
vfloat = _mk("float", float, _float_make, lambda o: isinstance(o, float) or (isinstance(o, Arr) and o.kind == "py" and o.sh == () and o.dt == "f"))
vbool = _mk("bool", bool, _bool_make, lambda o: isinstance(o, bool) or (isinstance(o, Arr) and o.kind == "py" and o.sh == () and o.dt == "b"))
vlist = _mk("list", list, _list_make, lambda o: isinstance(o, (list, SymSeq)))
vtuple = _mk("tuple", tuple, _tuple_make, lambda o: isinstance(o, tuple))


def vlen(x):
    if isinstance(x, Arr):
        if not x.sh:
            raise core.ModelledTypeError("len() of unsized object")
        return sdim(x.sh[0])
    if hasattr(x, "__vf_len__"):
        return x.__vf_len__()
    if hasattr(type(x), "__len__"):
        f = type(x).__len__
        if isinstance(f, types.FunctionType):        # user-defined __len__ may return a symbolic int
            return f(x)
    return len(x)


class LazyRange:
    def __init__(self, lo, n, step):
        self.lo, self.n, self.step = lo, n, step

    def __vf_len__(self):
        return sdim(self.n)

    def seq(self):
        return SymSeq(self.n, lambda k: core.scalar(z3.simplify(self.lo + k * self.step), "py"))

    def __iter__(self):
        raise Unsupported("CPython iteration over a symbolic range")

    def __vf_lift__(self):
        return self.seq().stacked(0)


def vrange(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    a = [tz(lift(x)) for x in a]
    for t in a:
        if t.sort() != core.IntS:
            raise core.ModelledTypeError("'float' object cannot be interpreted as an integer")
    lo, hi, st = (z3.IntVal(0), a[0], z3.IntVal(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) == 3 else z3.IntVal(1))
    lo, hi, st = z3.simplify(lo), z3.simplify(hi), z3.simplify(st)
    if z3.is_int_value(lo) and z3.is_int_value(hi) and z3.is_int_value(st):
        return range(lo.as_long(), hi.as_long(), st.as_long())
    if not z3.is_int_value(st):
        if not core.branch(st > 0):
            raise Unsupported("range with a symbolic non-positive step")
    if z3.is_int_value(st) and st.as_long() == 1:
        n = z3.simplify(hi - lo)
        if core.branch(n < 0):
            n = z3.IntVal(0)
    elif z3.is_int_value(st) and st.as_long() == -1:
        n = z3.simplify(lo - hi)
        if core.branch(n < 0):
            n = z3.IntVal(0)
    else:
        if z3.is_int_value(st) and st.as_long() < 0:
            raise Unsupported("range with step < -1")
        if core.branch(hi <= lo):
            n = z3.IntVal(0)
        else:
            n = z3.simplify((hi - lo + st - 1) / st)
    n = dim(n)
    if isinstance(n, int) and z3.is_int_value(lo) and z3.is_int_value(st):
        return range(lo.as_long(), lo.as_long() + n * st.as_long(), st.as_long())
    return LazyRange(lo, n, st)


def as_seq(x):
    """Symbolic sequence view of an iterable, or None when it is concrete."""
    if isinstance(x, SymSeq):
        return x if core.is_sym_dim(x.n) else None
    if isinstance(x, LazyRange):
        return x.seq()
    if isinstance(x, Arr) and x.sh and core.is_sym_dim(x.sh[0]):
        return SymSeq(x.sh[0], lambda k: core.getitem(x, core.scalar(k)))
    if hasattr(x, "__vf_seq__"):
        return x.__vf_seq__()
    if user_iter(x):
        g = x.__iter__()
        return g.__vf_seq__() if isinstance(g, GenSeq) else None
    return None


def user_iter(x):
    f = getattr(type(x), "__iter__", None)
    return isinstance(f, types.FunctionType) and str(getattr(f, "__module__", "")).startswith("fortuna")


def concrete_iter(x):
    if isinstance(x, GenSeq):
        x = x.rest()
    elif user_iter(x):
        g = x.__iter__()
        return concrete_iter(g) if isinstance(g, GenSeq) else g
    if isinstance(x, SymSeq):
        return [x.elem(z3.IntVal(k)) for k in range(x.n)]
    return x


def unify_lengths(seqs):
    n = seqs[0].n
    for s in seqs[1:]:
        if not core.same_dim(n, s.n):
            if core.branch(dz(s.n) < dz(n)):
                n = s.n
    return n


def vzip(*xs, **k):
    ss = [as_seq(x) for x in xs]
    if all(s is None for s in ss):
        return zip(*[concrete_iter(x) for x in xs])
    if any(s is None for s in ss):
        conc = []
        fixed = []
        for x, s in zip(xs, ss):
            if s is None:
                if isinstance(x, (list, tuple, range)):
                    fixed.append(list(x))
                    conc.append(None)
                else:
                    raise Unsupported("zip of a symbolic and an opaque iterable")
        # concrete operands bound the length: only supported when the symbolic ones are provably longer
        m = min(len(f) for f in fixed)
        for s in ss:
            if s is not None and core.branch(dz(s.n) < m):
                raise Unsupported("zip of symbolic and concrete iterables of different length")
        its = [(list(x) if s is None else [s.elem(z3.IntVal(j)) for j in range(m)]) for x, s in zip(xs, ss)]
        return zip(*its)
    n = unify_lengths(ss)
    return SymSeq(n, lambda k: tuple(s.elem(k) for s in ss))


def venumerate(x, start=0):
    s = as_seq(x)
    if s is None:
        return enumerate(concrete_iter(x), start)
    st = tz(lift(start))
    r = SymSeq(s.n, lambda k: (core.scalar(z3.simplify(k + st), "py"), s.elem(k)))
    r.cands = getattr(s, "cands", [])
    return r


def vreversed(x):
    s = as_seq(x)
    if s is None:
        return reversed(concrete_iter(x))
    return SymSeq(s.n, lambda k: s.elem(z3.simplify(dz(s.n) - 1 - k)))


def vmapf(f, *xs):
    ss = [as_seq(x) for x in xs]
    if all(s is None for s in ss):
        return map(f, *[concrete_iter(x) for x in xs])
    if len(xs) == 1:
        return ss[0].map(f)
    z = vzip(*xs)
    return z.map(lambda t: f(*t))


def vsum(x, start=0):
    s = as_seq(x)
    if s is None:
        r = start
        for e in concrete_iter(x):
            r = r + e
        return r
    k0 = core.index_const("sm")
    with core.generic_scope():
        e = lift(s.elem(k0))
    st = lift(start)
    base = Arr(e.sh, lambda i: core.sum_term(s.n, lambda k: core.tree_subst(e, [(k0, k)]).fn(i)), None)
    base.dt = core._probe_dt(base)
    return st + base


def _vminmax(name):
    real = getattr(builtins, name)

    def f(*a, **k):
        xs = a[0] if len(a) == 1 else a
        s = as_seq(xs)
        if s is not None:
            if k:
                raise Unsupported(f"{name} with key/default on a symbolic sequence")
            return (core.amax if name == "max" else core.amin)(s.stacked(0))
        xs = list(concrete_iter(xs))
        if k or not any(isinstance(x, Arr) for x in xs):
            return real(xs, **k)
        r = xs[0]
        for x in xs[1:]:
            r = (shim.maximum if name == "max" else shim.minimum)(r, x)
            r.kind = "py"
        return r
    return f


def vany(x):
    s = as_seq(x)
    if s is None:
        return any(concrete_iter(x))
    return bool(core.aany(s.stacked(0)))


def vall(x):
    s = as_seq(x)
    if s is None:
        return all(concrete_iter(x))
    return bool(core.aall(s.stacked(0)))


def visinstance(o, cls):
    if isinstance(cls, tuple):
        return any(visinstance(o, c) for c in cls)
    if isinstance(cls, shim.Stub):
        return False
    if isinstance(cls, types.UnionType):
        return any(visinstance(o, c) for c in cls.__args__)
    if cls is list:
        cls = vlist
    if cls is int:
        cls = vint
    if cls is float:
        cls = vfloat
    if cls is bool:
        cls = vbool
    return isinstance(o, cls)


def vround(x, *a):
    if isinstance(x, Arr):
        raise Unsupported("round of a symbolic value")
    return round(x, *a)


def vsorted(x, **k):
    if as_seq(x) is not None:
        raise Unsupported("sorted of a symbolic sequence")
    x = list(concrete_iter(x))
    return sorted(x, **k)


def vpow(a, b, *m):
    return a ** b if not m else pow(a, b, *m)


def vf_unpack(e, n):
    if isinstance(e, SymSeq):
        return [e.elem(z3.IntVal(k)) for k in range(n)]
    return list(e)


def vf_star(e, a, b):
    """x1, .., xa, *rest, y1, .., yb = e"""
    s = as_seq(e)
    if s is None:
        e = list(e)
        return e[:a] + [e[a:len(e) - b]] + e[len(e) - b:]
    if core.branch(dz(s.n) < a + b):
        raise ValueError("not enough values to unpack")
    m = z3.simplify(dz(s.n) - a - b)
    return [s.elem(z3.IntVal(k)) for k in range(a)] + [SymSeq(m, lambda k: s.elem(z3.simplify(tz(k) + a)))] + \
        [s.elem(z3.simplify(m + a + k)) for k in range(b)]


def vf_comp(f, it, cond, kind):
    s = as_seq(it)
    if s is None:
        it = concrete_iter(it)
        if kind == "gen":
            return (f(x) for x in it if cond is None or cond(x))
        return [f(x) for x in it if cond is None or cond(x)]
    if cond is not None:
        raise Unsupported("filtered comprehension over a symbolic sequence")
    if hasattr(s, "run_generic"):
        return s.run_generic(f)
    # evaluate once now at a generic position, so that exceptions surface where they occur
    i = core.index_const("cmp")
    with shim.assume_in(i, s.n):
        v = f(s.elem(i))
    if v is None or isinstance(v, (str,)):
        return SymSeq(s.n, lambda k: v)
    return SymSeq(s.n, lambda k: core.tree_subst(v, [(i, tz(k))]))


def vf_bool(conj, *ops):
    """`and` / `or` with CPython's meaning; for an arbitrary index (no forking) symbolic booleans are combined."""
    acc = None
    for k, f in enumerate(ops):
        v = f()
        if C.generic and isinstance(v, Arr) and v.sh == () and v.dt == "b":
            t = z3.simplify(tz(v))
            if not (z3.is_true(t) or z3.is_false(t)):
                acc = t if acc is None else (z3.And(acc, t) if conj else z3.Or(acc, t))
                if k == len(ops) - 1:
                    return core.scalar(acc, "py")
                continue
        if acc is not None:
            if not isinstance(v, (bool, Arr)) or isinstance(v, Arr) and (v.sh != () or v.dt != "b"):
                raise Unsupported("and / or of non-booleans at an arbitrary index")
            t = tz(lift(v))
            acc = z3.And(acc, t) if conj else z3.Or(acc, t)
            if k == len(ops) - 1:
                return core.scalar(z3.simplify(acc), "py")
            continue
        if k == len(ops) - 1 or bool(v) != conj:
            return v
    return v


def vf_in(a, b):
    if isinstance(b, SymSeq) or (isinstance(b, (list, tuple)) and any(isinstance(x, Arr) and x.sh == () for x in b)) \
            or (isinstance(a, Arr) and a.sh == () and isinstance(b, (list, tuple, Arr)) and not any(isinstance(x, (str, type(None))) for x in b)):
        from .objs import list_member
        t = z3.simplify(list_member(b, a))
        return True if z3.is_true(t) else (False if z3.is_false(t) else core.scalar(t, "py"))
    if isinstance(b, LazyRange):
        t = tz(lift(a))
        k = t - b.lo
        return core.scalar(z3.simplify(z3.And(k >= 0, k < dz(b.n) * b.step, k % b.step == 0)), "py")
    return a in b


def vf_type(x):
    if isinstance(x, SymSeq):
        return list
    if isinstance(x, Arr) and x.kind == "py" and x.sh == ():
        return {"i": int, "f": float, "b": bool}.get(x.dt, type(x))
    return type(x)


def vf_notin(a, b):
    r = vf_in(a, b)
    return ~r if isinstance(r, Arr) else not r


from .loops import vf_loop     # noqa: E402
from .objs import vset as objs_vset     # noqa: E402

BUILTINS = dict(len=vlen, range=vrange, int=vint, float=vfloat, bool=vbool, list=vlist, tuple=vtuple, zip=vzip, enumerate=venumerate,
                reversed=vreversed, map=vmapf, sum=vsum, min=_vminmax("min"), max=_vminmax("max"), any=vany, all=vall,
                isinstance=visinstance, round=vround, iter=viter, next=vnext, __vf_gen__=GenSeq, __vf_yield__=vf_yield, __vf_yield_from__=vf_yield_from, sorted=vsorted, set=objs_vset,
                __vf_loop__=vf_loop, __vf_in__=vf_in, __vf_type__=vf_type, __vf_notin__=vf_notin, __vf_comp__=vf_comp, __vf_bool__=vf_bool, __vf_star__=vf_star, __vf_unpack__=vf_unpack)
