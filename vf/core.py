"""Symbolic core of the deductive verifier.

Arrays are (shape, element function) pairs with *symbolic, unbounded* dimensions; scalars are z3
terms (ints are mathematical integers, floats are mathematical reals).  Vector operators (sum, max,
quantile, argsort, opaque callables, ...) are uninterpreted functions of canonical templates,
related by Skolemised extensionality lemmas which are instantiated on demand when an obligation
is discharged (see `solve.py`).
"""
from __future__ import annotations
import builtins
import itertools
import z3


class Unsupported(BaseException):
    """The verifier cannot interpret this construct (engine limit, never a property violation)."""


class KillPath(BaseException):
    """The current symbolic path ends here (infeasible, or an invariant-preservation branch)."""


class Modelled(Exception):
    pass


class ModelledTypeError(Modelled, TypeError):
    """An exception the real dependency would raise (shape mismatch ...)."""


class ModelledValueError(Modelled, ValueError):
    pass


class ModelledIndexError(Modelled, IndexError):
    pass


KeySort = z3.DeclareSort("PRNGKey")
ObjSort = z3.DeclareSort("Obj")
IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()


# ------------------------------------------------------------------ context
class Info:
    """A vector operator template: op(params; arrays)."""
    __slots__ = ("op", "decl", "phs", "params", "arrays", "bvs", "sort", "meta", "guarded")

    def __init__(self):
        self.guarded = None


RESET = []        # run at the start of every contract


class Ctx:
    def __init__(self):
        self.reset_run()

    def reset_run(self):
        """New contract: forget templates and declarations."""
        self.templates = {}
        self.infos = {}
        self.pos_dims = set()
        self.pos_funs = set()
        self.uses_trans = False
        for f in RESET:
            f()
        self.index_names = set()
        self.index_dims = {}       # input integer -> the dimension it is assumed to index
        self.elem_top = {}
        self.elem_inv = {}      # decl name -> fn(args, app) -> constraint
        self.paths_run = 0
        self.obligations = []
        self.worklist = []
        self.depth = 0
        self.generic = 0
        self.stats = dict(solver_s=0.0, queries=0)
        self.reset_path([])

    def reset_path(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.pc = []
        self.counter = {}
        self.depth = 0
        self.generic = 0
        self.loop_stack = []
        self.trace = []
        self.active = True

    def fresh_name(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return f"{base}!{k}" if k else base

    def assume(self, c):
        c = z3.simplify(c) if z3.is_expr(c) else z3.BoolVal(bool(c))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise KillPath()
        self.pc.append(c)


C = Ctx()


def index_const(base):
    n = C.fresh_name(base)
    C.index_names.add(n)
    return z3.Int(n)


# ------------------------------------------------------------------ scalar helpers
def tz(x):
    """Python / z3 / 0-d Arr -> z3 term."""
    if isinstance(x, Arr):
        if x.sh != ():
            raise Unsupported("array used as a scalar")
        return x.fn(())
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        return real_literal(x)
    if z3.is_expr(x):
        return x
    raise Unsupported(f"cannot interpret {type(x).__name__} as a scalar term")


INF = z3.Real("INF!")
NAN = z3.Real("NAN!")


def real_literal(x):
    if x != x:
        return NAN
    if x == float("inf"):
        return INF
    if x == float("-inf"):
        return -INF
    return z3.RealVal(repr(x)) if "e" not in repr(x) else z3.RealVal(_dec(x))


def _dec(x):
    from fractions import Fraction
    from decimal import Decimal
    f = Fraction(Decimal(repr(x)))
    return f"{f.numerator}/{f.denominator}"


def to_real(t):
    s = t.sort()
    if s == RealS:
        return t
    if s == IntS:
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    if s == BoolS:
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported(f"no numeric view of sort {s}")


def to_int(t):
    s = t.sort()
    if s == IntS:
        return t
    if s == BoolS:
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported("int view of a real term")


def to_bool(t):
    s = t.sort()
    if s == BoolS:
        return t
    return t != 0


def dt_of(t):
    s = t.sort()
    if s == RealS:
        return "f"
    if s == IntS:
        return "i"
    if s == BoolS:
        return "b"
    if s == KeySort:
        return "k"
    return "o"


def cast(t, dt):
    if dt == "f":
        return to_real(t)
    if dt == "i":
        if t.sort() == RealS:
            return trunc(t)
        return to_int(t)
    if dt == "b":
        return to_bool(t)
    return t


def trunc(t):
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


def is_sym_dim(d):
    return not isinstance(d, int)


def dim(x):
    """Normalise a dimension: python int when it is a numeral, else z3 Int term."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Arr):
        x = tz(x)
    if z3.is_expr(x):
        if x.sort() != IntS:
            raise ModelledTypeError("dimension must be an integer")
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
        return x
    raise ModelledTypeError(f"bad dimension {x!r}")


def dz(d):
    return z3.IntVal(d) if isinstance(d, int) else d


def same_dim(a, b):
    """Are two dimensions equal (may fork)?"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a_, b_ = dz(a), dz(b)
    if a_.eq(b_):
        return True
    return branch(a_ == b_)


def dim_is(a, k):
    if isinstance(a, int):
        return a == k
    return branch(a == k)


_brancher = None     # installed by explore.py


def branch(cond) -> bool:
    cond = z3.simplify(cond)
    if z3.is_true(cond):
        return True
    if z3.is_false(cond):
        return False
    return _brancher(cond)


# ------------------------------------------------------------------ arrays
def _idx_key(idx):
    return tuple(i.get_id() for i in idx)


class Arr:
    """Symbolic (possibly 0-d) array.  `kind` is 'py' for weakly typed python scalars."""
    __array_priority__ = 1000
    __hash__ = object.__hash__

    def __init__(self, shape, fn, dt, kind="jnp", mask=None, tag=None):
        self.sh = tuple(shape)
        self._fn = fn
        self.dt = dt
        self.kind = kind
        self._memo = {}
        self.mask = mask          # boolean-mask selections: (full_shape, mask Arr, base Arr)
        self.tag = tag            # provenance (concatenations ...)

    # element access ------------------------------------------------
    def fn(self, idx):
        idx = tuple(z3.IntVal(i) if isinstance(i, int) else (tz(i) if isinstance(i, Arr) else i) for i in idx)
        k = _idx_key(idx)
        r = self._memo.get(k)
        if r is None:
            r = self._fn(idx)
            self._memo[k] = (idx, r)
            return r
        return r[1]

    def scalar(self, *idx):
        t = self.fn(tuple(tz(i) for i in idx))
        return Arr((), lambda _: t, dt_of(t))

    # numpy-ish attributes -------------------------------------------
    @property
    def shape(self):
        return tuple(sdim(d) for d in self.sh)

    @property
    def ndim(self):
        return len(self.sh)

    @property
    def size(self):
        r = 1
        for d in self.sh:
            r = r * sdim(d)
        return r

    @property
    def dtype(self):
        return DType(self.dt)

    @property
    def T(self):
        return transpose(self)

    @property
    def at(self):
        return _At(self)

    @property
    def real(self):
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        m = METHODS.get(name)
        if m is None:
            raise Unsupported(f"array attribute .{name}")
        return lambda *a, **k: m(self, *a, **k)

    # iteration / conversion -------------------------------------------
    def __len__(self):
        if not self.sh:
            raise ModelledTypeError("len() of unsized object")
        d = self.sh[0]
        if isinstance(d, int):
            return d
        raise Unsupported("real len() on a symbolic dimension")

    def __iter__(self):
        if not self.sh:
            raise ModelledTypeError("iteration over a 0-d array")
        d = self.sh[0]
        if isinstance(d, int):
            return iter([self[i] for i in range(d)])
        raise Unsupported("iteration over a symbolic dimension outside an instrumented loop")

    def __bool__(self):
        if self.sh == ():
            return branch(to_bool(self.fn(())))
        n = 1
        for d in self.sh:
            if not dim_is(d, 1):
                raise ModelledValueError("truth value of an array with more than one element is ambiguous")
        return branch(to_bool(self.fn(tuple(z3.IntVal(0) for _ in self.sh))))

    def _concrete(self):
        t = z3.simplify(tz(self))
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return float(t.as_fraction())
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return None

    def __index__(self):
        c = self._concrete()
        if c is None or isinstance(c, float):
            if self.dt == "f":
                raise ModelledTypeError("float used as an index")
            raise Unsupported("symbolic integer used where CPython needs a machine integer")
        return int(c)

    def __int__(self):
        c = self._concrete()
        if c is None:
            raise Unsupported("int() of a symbolic value by CPython")
        return int(c)

    def __float__(self):
        c = self._concrete()
        if c is None:
            raise Unsupported("float() of a symbolic value by CPython")
        return float(c)

    def __format__(self, spec):
        return "<sym>"

    def __str__(self):
        return "<sym>"

    def __repr__(self):
        return f"<Arr {self.sh} {self.dt}>"

    def __deepcopy__(self, memo):
        return self.copy_()

    def __copy__(self):
        return self.copy_()

    def copy_(self):
        return Arr(self.sh, self._fn, self.dt, self.kind, self.mask, self.tag)

    # operators -------------------------------------------------------
    def __add__(self, o): return binop(self, o, _add)
    def __radd__(self, o): return binop(o, self, _add)
    def __sub__(self, o): return binop(self, o, _sub)
    def __rsub__(self, o): return binop(o, self, _sub)
    def __mul__(self, o):
        if isinstance(o, (list, tuple)) and self.sh == () and self.dt == "i":
            return SymRepeat.make(o, self)
        return binop(self, o, _mul)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)) and self.sh == () and self.dt == "i":
            return SymRepeat.make(o, self)
        return binop(o, self, _mul)
    def __truediv__(self, o): return binop(self, o, _div)
    def __rtruediv__(self, o): return binop(o, self, _div)
    def __floordiv__(self, o): return binop(self, o, _floordiv)
    def __rfloordiv__(self, o): return binop(o, self, _floordiv)
    def __mod__(self, o): return binop(self, o, _mod)
    def __rmod__(self, o): return binop(o, self, _mod)
    def __pow__(self, o): return binop(self, o, _pow)
    def __rpow__(self, o): return binop(o, self, _pow)
    def __neg__(self): return unop(self, lambda t: -(to_int(t) if t.sort() != RealS else t))
    def __pos__(self): return self
    def __abs__(self): return unop(self, _abs)
    def __invert__(self):
        if self.dt == "b":
            return unop(self, z3.Not)
        return unop(self, lambda t: -t - 1)
    def __and__(self, o): return binop(self, o, _and)
    def __rand__(self, o): return binop(o, self, _and)
    def __or__(self, o): return binop(self, o, _or)
    def __ror__(self, o): return binop(o, self, _or)
    def __xor__(self, o): return binop(self, o, lambda a, b: z3.Xor(to_bool(a), to_bool(b)))
    def __lt__(self, o): return binop(self, o, lambda a, b: _cmp(a, b, "lt"))
    def __le__(self, o): return binop(self, o, lambda a, b: _cmp(a, b, "le"))
    def __gt__(self, o): return binop(self, o, lambda a, b: _cmp(a, b, "gt"))
    def __ge__(self, o): return binop(self, o, lambda a, b: _cmp(a, b, "ge"))

    def __eq__(self, o):
        if o is None or isinstance(o, str) or not liftable(o):
            return False
        return binop(self, o, lambda a, b: _cmp(a, b, "eq"))

    def __ne__(self, o):
        if o is None or isinstance(o, str) or not liftable(o):
            return True
        return binop(self, o, lambda a, b: _cmp(a, b, "ne"))

    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)

    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        if self.kind == "jnp" and self.sh != ():
            raise ModelledTypeError("JAX arrays are immutable")
        n = setitem(self.copy_(), key, val, lambda old, new: new)
        if n.dt != self.dt:
            f, dt = n._fn, self.dt
            n = Arr(n.sh, lambda i: cast(f(i), dt), dt)
        self._fn, self._memo = n._fn, {}


class DType:
    def __init__(self, dt):
        self.dt = dt

    def __eq__(self, o):
        return dtype_code(o) == self.dt

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.dt)

    @property
    def name(self):
        return {"f": "float32", "i": "int32", "b": "bool"}.get(self.dt, "object")

    def __str__(self):
        return self.name


def dtype_code(d):
    if isinstance(d, DType):
        return d.dt
    if d is None:
        return None
    if d is float or d == "float32" or d == "float64" or d == "float":
        return "f"
    if d is int or d in ("int32", "int64", "int"):
        return "i"
    if d is bool or d in ("bool",):
        return "b"
    n = getattr(d, "__name__", None) or getattr(d, "_vf_name", None) or ""
    n = n.split(".")[-1]
    n = n[1:] if n in ("vbool", "vint", "vfloat") else n
    if n.startswith(("float", "bfloat", "double")):
        return "f"
    if n.startswith(("int", "uint")):
        return "i"
    if n.startswith("bool"):
        return "b"
    raise Unsupported(f"dtype {d!r}")


def sdim(d):
    """A dimension as seen by user code: int or symbolic python int."""
    if isinstance(d, int):
        return d
    return Arr((), lambda _, d=d: d, "i", "py")


def scalar(t, kind="jnp"):
    return Arr((), lambda _: t, dt_of(t), kind)


def liftable(x):
    if isinstance(x, (Arr, bool, int, float)) or z3.is_expr(x):
        return True
    if isinstance(x, (list, tuple)):
        return all(liftable(e) for e in x)
    return hasattr(x, "__vf_lift__")


def lift(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, (bool, int, float)) or z3.is_expr(x):
        t = tz(x)
        return Arr((), lambda _: t, dt_of(t), "py")
    if isinstance(x, (list, tuple)):
        return stack([lift(e) for e in x])
    if hasattr(x, "__vf_lift__"):
        return x.__vf_lift__()
    raise Unsupported(f"cannot lift {type(x).__name__} to an array")


def select_const(idx, terms):
    """terms[idx] for a python list of terms and an index term."""
    if z3.is_int_value(idx):
        k = idx.as_long()
        if 0 <= k < len(terms):
            return terms[k]
    r = terms[-1]
    for k in range(len(terms) - 2, -1, -1):
        r = z3.If(idx == k, terms[k], r)
    return r


def common_dt(dts):
    dts = set(dts)
    if "f" in dts:
        return "f"
    if "i" in dts:
        return "i"
    if dts == {"b"}:
        return "b"
    if len(dts) == 1:
        return dts.pop()
    raise Unsupported(f"mixed dtypes {dts}")


def stack(xs, axis=0):
    if isinstance(xs, Arr):
        return xs if axis == 0 else moveaxis(xs, 0, axis)
    if isinstance(xs, SymSeq):
        return xs.stacked(axis)
    xs = [lift(x) for x in xs]
    if not xs:
        return Arr((0,), lambda i: z3.RealVal(0), "f")
    xs = list(xs)
    shp = xs[0].sh
    for x in xs[1:]:
        if len(x.sh) != len(shp):
            raise ModelledValueError("All input arrays must have the same shape")
        for a, b in zip(x.sh, shp):
            if not same_dim(a, b):
                raise ModelledValueError("All input arrays must have the same shape")
    dt = common_dt(x.dt for x in xs)
    if axis < 0:
        axis += len(shp) + 1

    def fn(idx):
        k = idx[axis]
        rest = idx[:axis] + idx[axis + 1:]
        return select_const(k, [cast(x.fn(rest), dt) for x in xs]) if not z3.is_int_value(k) else cast(xs[k.as_long()].fn(rest), dt)
    return Arr(shp[:axis] + (len(xs),) + shp[axis:], fn, dt)


# ------------------------------------------------------------------ scalar operations
def _num2(a, b):
    if a.sort() == BoolS:
        a = to_int(a)
    if b.sort() == BoolS:
        b = to_int(b)
    if a.sort() == RealS or b.sort() == RealS:
        return to_real(a), to_real(b)
    return a, b


def _add(a, b):
    if a.sort() == BoolS and b.sort() == BoolS:
        return z3.Or(a, b)
    a, b = _num2(a, b)
    return a + b


def _sub(a, b):
    a, b = _num2(a, b)
    return a - b


def _mul(a, b):
    if a.sort() == BoolS and b.sort() == BoolS:
        return z3.And(a, b)
    # boolean masks: x * mask == where(mask, x, 0)
    if a.sort() == BoolS:
        a, b = b, a
    if b.sort() == BoolS:
        zero = z3.RealVal(0) if a.sort() == RealS else z3.IntVal(0)
        return z3.If(b, a, zero)
    a, b = _num2(a, b)
    for x, y in ((a, b), (b, a)):     # Int indicator times anything
        ind = _indicator(x)
        if ind is not None:
            zero = z3.RealVal(0) if y.sort() == RealS else z3.IntVal(0)
            return z3.If(ind, y, zero)
    return a * b


def _indicator(t):
    """If(c,1,0) / ToReal(If(c,1,0)) -> c."""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        t = t.arg(0)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and t.sort() in (IntS, RealS):
        a, b = t.arg(1), t.arg(2)
        if _isnum(a, 1) and _isnum(b, 0):
            return t.arg(0)
        if _isnum(a, 0) and _isnum(b, 1):
            return z3.Not(t.arg(0))
    return None


def _isnum(t, k):
    if z3.is_int_value(t):
        return t.as_long() == k
    if z3.is_rational_value(t):
        return t.as_fraction() == k
    return False


def _div(a, b):
    return to_real(a) / to_real(b)


def int_valued(t):
    """The integer term with the value of the real term t, when t is built from integers only."""
    if t.sort() == IntS:
        return t
    if z3.is_rational_value(t):
        f = t.as_fraction()
        return z3.IntVal(f.numerator) if f.denominator == 1 else None
    k = t.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    if k == z3.Z3_OP_ITE:
        a, b = int_valued(t.arg(1)), int_valued(t.arg(2))
        return None if a is None or b is None else z3.If(t.arg(0), a, b)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        cs = [int_valued(c) for c in t.children()]
        if any(c is None for c in cs):
            return None
        r = -cs[0] if k == z3.Z3_OP_UMINUS else cs[0]
        for c in cs[1:]:
            r = r + c if k == z3.Z3_OP_ADD else r - c if k == z3.Z3_OP_SUB else r * c
        return z3.simplify(r)
    return None


def _floordiv(a, b):
    a, b = _num2(a, b)
    if a.sort() == RealS:
        ia, ib = int_valued(z3.simplify(a)), int_valued(z3.simplify(b))
        if ia is not None and ib is not None:
            return z3.ToReal(_floordiv(ia, ib))
        return z3.ToReal(z3.ToInt(a / b))
    return z3.If(b > 0, a / b, (-a) / (-b)) if not z3.is_int_value(b) or b.as_long() <= 0 else a / b


def _mod(a, b):
    a, b = _num2(a, b)
    if a.sort() == RealS:
        ia, ib = int_valued(z3.simplify(a)), int_valued(z3.simplify(b))
        if ia is not None and ib is not None:
            return z3.ToReal(_mod(ia, ib))
        return a - b * z3.ToReal(z3.ToInt(a / b))
    if _mod_factor(a, b):
        return z3.IntVal(0)
    if z3.is_int_value(b) and b.as_long() > 0:
        return a % b
    return z3.If(b > 0, a % b, -((-a) % (-b)))


POW = z3.Function("pow!", RealS, RealS, RealS)


def _pow(a, b):
    bs = z3.simplify(b)
    if z3.is_int_value(bs) or z3.is_rational_value(bs):
        q = bs.as_fraction() if not z3.is_int_value(bs) else bs.as_long()
        if q == int(q):
            k = int(q)
            if a.sort() == BoolS:
                a = to_int(a)
            if 0 <= k <= 6:
                if k == 0:
                    return z3.RealVal(1) if a.sort() == RealS or b.sort() == RealS else z3.IntVal(1)
                r = a
                for _ in range(k - 1):
                    r = r * a
                return to_real(r) if b.sort() == RealS else r
            if -6 <= k < 0:
                return z3.RealVal(1) / _pow(to_real(a), z3.IntVal(-k))
        from fractions import Fraction
        if Fraction(q) == Fraction(1, 2):
            return fsqrt(to_real(a))
        if Fraction(q) == Fraction(-1, 2):
            return z3.RealVal(1) / fsqrt(to_real(a))
    return POW(to_real(a), to_real(b))


def _abs(t):
    if t.sort() == BoolS:
        return t
    return z3.If(t >= 0, t, -t)


def _and(a, b):
    if a.sort() == BoolS or b.sort() == BoolS:
        return z3.And(to_bool(a), to_bool(b))
    raise Unsupported("bitwise & on ints")


def _or(a, b):
    if a.sort() == BoolS or b.sort() == BoolS:
        return z3.Or(to_bool(a), to_bool(b))
    raise Unsupported("bitwise | on ints")


def _cmp(a, b, op):
    if a.sort() == BoolS and b.sort() == BoolS:
        if op == "eq":
            return a == b
        if op == "ne":
            return z3.Xor(a, b)
    if a.sort() in (KeySort, ObjSort) or b.sort() in (KeySort, ObjSort):
        if a.sort() != b.sort():
            raise Unsupported("comparison across sorts")
        if op == "eq":
            return a == b
        if op == "ne":
            return a != b
        raise Unsupported("ordering of opaque values")
    a, b = _num2(a, b)
    return {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b,
            "eq": lambda: a == b, "ne": lambda: a != b}[op]()


# real functions -------------------------------------------------------
UF = {}


def ufun(name):
    if name in ("exp", "log", "sqrt"):
        C.uses_trans = True
    if name not in UF:
        UF[name] = z3.Function(name + "!", RealS, RealS)
    return UF[name]


def fexp(t):
    t = z3.simplify(to_real(t))
    if _isnum(t, 0):
        return z3.RealVal(1)
    if z3.is_app(t) and t.decl().name() == "log!" and False:
        return t.arg(0)
    return ufun("exp")(t)


def flog(t):
    t = z3.simplify(to_real(t))
    if _isnum(t, 1):
        return z3.RealVal(0)
    if z3.is_app(t) and t.decl().name() == "exp!":
        return t.arg(0)
    return ufun("log")(t)


def fsqrt(t):
    t = z3.simplify(to_real(t))
    if z3.is_rational_value(t):
        import math
        f = t.as_fraction()
        if f >= 0:
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return z3.RealVal(f"{a}/{b}")
    return ufun("sqrt")(t)


def fun1(name):
    def f(t):
        return ufun(name)(z3.simplify(to_real(t)))
    return f


def unop(x, f):
    x = lift(x)
    probe_dt = None
    r = Arr(x.sh, lambda i: f(x.fn(i)), None, "jnp" if x.kind != "py" else "py", x.mask)
    r.dt = _probe_dt(r)
    if x.mask is not None:
        r.mask = (x.mask[0], x.mask[1], unop(x.mask[2], f))
    return r


def _probe_dt(r):
    idx = tuple(_probe_idx(k) for k in range(len(r.sh)))
    return dt_of(r.fn(idx))


def _probe_idx(k):
    n = f"probe!{k}"
    C.index_names.add(n)
    return z3.Int(n)


def result_kind(*xs):
    ks = {x.kind for x in xs}
    if ks == {"py"}:
        return "py"
    if "np" in ks and "jnp" not in ks:
        return "np"
    return "jnp"


def broadcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        ds = []
        for s in shapes:
            j = k - (n - len(s))
            if j >= 0:
                ds.append(s[j])
        d = ds[0]
        for e in ds[1:]:
            if isinstance(e, int) and e == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = e
                continue
            if same_dim(d, e):
                if is_sym_dim(d) and not is_sym_dim(e):
                    d = e
                continue
            if dim_is(d, 1):
                d = e
            elif dim_is(e, 1):
                pass
            else:
                raise ModelledTypeError(f"incompatible shapes for broadcasting: {shapes}")
        out.append(d)
    return tuple(out)


def _bidx(shape, out_shape, idx):
    """index into operand given index into broadcast result"""
    off = len(out_shape) - len(shape)
    r = []
    for k, d in enumerate(shape):
        if isinstance(d, int) and d == 1:
            r.append(z3.IntVal(0))
        elif not isinstance(d, int) and not dz(d).eq(dz(out_shape[k + off])) and not _known_eq(d, out_shape[k + off]):
            r.append(z3.IntVal(0))     # d == 1 on this path
        else:
            r.append(idx[k + off])
    return tuple(r)


def _known_eq(a, b):
    """dims decided equal on this path (same_dim took the equal branch)."""
    return same_dim(a, b)


def broadcast_to(x, shape):
    x = lift(x)
    shape = tuple(dim(d) for d in shape)
    out = broadcast_shapes(x.sh, shape)
    if len(out) != len(shape):
        raise ModelledValueError("cannot broadcast")
    return _bc(x, shape)


def _bc(x, shape):
    if x.sh == shape:
        return x
    maps = []
    off = len(shape) - len(x.sh)
    for k, d in enumerate(x.sh):
        o = shape[k + off]
        if isinstance(d, int) and d == 1:
            maps.append(None)
        elif isinstance(d, int) and isinstance(o, int) or dz(d).eq(dz(o)) or same_dim(d, o):
            maps.append(k + off)
        else:
            maps.append(None)
    return Arr(shape, lambda idx: x.fn(tuple(z3.IntVal(0) if m is None else idx[m] for m in maps)), x.dt, x.kind)


def same_mask(a, b):
    return a.mask is not None and b.mask is not None and (a.mask[1] is b.mask[1] or mask_equal(a.mask[1], b.mask[1]))


def mask_equal(m1, m2):
    if m1 is m2:
        return True
    if m1.sh != m2.sh and not all(dz(a).eq(dz(b)) for a, b in zip(m1.sh, m2.sh)):
        return False
    idx = tuple(_probe_idx(k) for k in range(len(m1.sh)))
    return z3.simplify(m1.fn(idx)).eq(z3.simplify(m2.fn(idx)))


def binop(a, b, f):
    if not liftable(a) or not liftable(b):
        return NotImplemented
    a, b = lift(a), lift(b)
    if a.mask is not None or b.mask is not None:
        return masked_binop(a, b, f)
    shape = broadcast_shapes(a.sh, b.sh) if a.sh != b.sh else a.sh
    A, B = _bc(a, shape), _bc(b, shape)
    r = Arr(shape, lambda i: f(A.fn(i), B.fn(i)), None, result_kind(a, b))
    r.dt = _probe_dt(r)
    return r


def masked_binop(a, b, f):
    if a.mask is not None and b.mask is not None:
        if not same_mask(a, b):
            raise Unsupported("operation on selections with different masks")
        base = binop(a.mask[2], b.mask[2], f)
        return masked_like(a, base)
    m, o = (a, b) if a.mask is not None else (b, a)
    if o.sh != ():
        if not (len(o.sh) == len(m.sh) and all(dim_is(d, 1) for d in o.sh)):
            # trailing-dimension broadcasting of a per-column operand
            if len(o.sh) < len(m.sh):
                pass
            else:
                raise Unsupported("broadcast against a masked selection")
        else:
            o = scalar(o.fn(tuple(z3.IntVal(0) for _ in o.sh)))
    base = binop(m.mask[2], o, f) if m is a else binop(o, m.mask[2], f)
    return masked_like(m, base)


# ------------------------------------------------------------------ vector operators
PH = {}


def _ph(sort, k):
    key = (sort.name(), k)
    if key not in PH:
        PH[key] = z3.Const(f"ph!{sort.name()}!{k}", sort)
    return PH[key]


def _bv(j, d):
    return z3.Int(f"bv!{j}!{d}")


_fv_memo = {}


def free_index_vars(t):
    """Index variables occurring in t, in first-occurrence order."""
    seen, out, st = set(), [], [t]
    names = C.index_names
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        n = e.num_args()
        if n == 0:
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in names:
                out.append(e)
        else:
            for c in reversed(e.children()):
                st.append(c)
    return out


def in_range_simp(t, bs, shape):
    """The bound indices are within their ranges."""
    sub = []
    for b, d in zip(bs, shape):
        d = dz(d)
        for c, v in ((b >= 0, True), (b <= -1, False), (0 <= b, True), (z3.IntVal(0) <= b, True), (b < d, True), (d <= b, False), (b >= d, False), (d > b, True)):
            for e in (c, z3.simplify(c)):
                n = z3.is_not(e)
                if n:
                    e = e.arg(0)
                if not (z3.is_true(e) or z3.is_false(e)):
                    sub.append((e, z3.BoolVal(v != n)))
    if not sub:
        return t
    return range_rewrite(t, bs, (sub, dict((b.get_id(), dz(d)) for b, d in zip(bs, shape))))


def range_rewrite(t, bs, sub):
    for _ in range(4):
        r = z3.simplify(z3.substitute(t, *sub[0]))
        more = decide_comparisons(r, sub[1])
        if more:
            r = z3.simplify(z3.substitute(r, *more))
        if r.eq(t):
            break
        t = r
    return nested_range(t, bs, sub)


def linear(t):
    """integer term -> ({id: [atom, coefficient]}, constant) or None"""
    out, const, st = {}, 0, [(t, 1)]
    while st:
        e, c = st.pop()
        if z3.is_int_value(e):
            const += c * e.as_long()
            continue
        k = e.decl().kind() if z3.is_app(e) else None
        if k == z3.Z3_OP_ADD:
            st += [(x, c) for x in e.children()]
        elif k == z3.Z3_OP_SUB:
            ch = e.children()
            st += [(ch[0], c)] + [(x, -c) for x in ch[1:]]
        elif k == z3.Z3_OP_UMINUS:
            st.append((e.arg(0), -c))
        elif k == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
            st.append((e.arg(1), c * e.arg(0).as_long()))
        elif k == z3.Z3_OP_ITE:
            return None
        else:
            out.setdefault(e.get_id(), [e, 0])[1] += c
    return out, const


def always_nonneg(t, ranges):
    """Is the integer term >= 0 whenever 0 <= b < n for every index b -> n of ranges (dimensions are at least one)?"""
    for _ in range(3):
        l = linear(t)
        if l is None:
            return False
        co, const = l
        for i, (a, _) in co.items():
            if i not in ranges and z3.is_app(a) and a.num_args() and a.decl().name() in C.elem_top:
                ranges = {**ranges, i: C.elem_top[a.decl().name()]}      # an element of an array of integers declared to lie in [0, top)
        hit = [v for i, v in co.items() if i in ranges and v[1] != 0]
        if not hit:
            break
        t = z3.simplify(z3.substitute(t, *[(a, z3.IntVal(0) if c > 0 else ranges[a.get_id()] - 1) for a, c in hit]))
    else:
        return False
    for a, c in co.values():
        if c < 0 or c > 0 and not (z3.is_const(a) and a.decl().name() in C.pos_dims):
            return False
        const += c
    return const >= 0


def decide_comparisons(t, ranges):
    out, seen, st = [], set(), [t]
    while st:
        e = st.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        k = e.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and e.arg(0).sort() == IntS:
            a, b = e.arg(0), e.arg(1)
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = b, a
            strict = 1 if k in (z3.Z3_OP_LT, z3.Z3_OP_GT) else 0       # a + strict <= b
            d = z3.simplify(b - a - strict)
            if always_nonneg(d, ranges):
                out.append((e, z3.BoolVal(True)))
            elif always_nonneg(z3.simplify(-d - 1), ranges):
                out.append((e, z3.BoolVal(False)))
            continue
        st.extend(e.children())
    return out


def guarded(info):
    """Does a template branch on one of its integer parameters, directly or through nested templates?"""
    if info.guarded is None:
        info.guarded = False
        st, seen = [b for _, b in info.arrays], set()
        while st and not info.guarded:
            e = st.pop()
            if e.get_id() in seen or not z3.is_app(e):
                continue
            seen.add(e.get_id())
            if e.decl().kind() == z3.Z3_OP_ITE:
                info.guarded = any(p.sort() == IntS for p in info.phs)
            n = app_info(e)
            if n is not None and guarded(n):
                info.guarded = True
            st.extend(e.children())
    return info.guarded


def nested_range(t, bs, sub):
    """Operators below t that take one of the indices bs as an argument: use the index range inside them, too."""
    cache = {}

    def go(e):
        r = cache.get(e.get_id())
        if r is not None:
            return r
        r = e
        if z3.is_app(e) and e.num_args():
            inf = app_info(e)
            if inf is not None and any(c.eq(b) for c in e.children() for b in bs) and guarded(inf):
                r = rebuild(inf, e)
            elif inf is None:
                ch = [go(c) for c in e.children()]
                if any(not a.eq(b) for a, b in zip(ch, e.children())):
                    r = z3.substitute(e, *[(a, b) for a, b in zip(e.children(), ch) if not a.eq(b)])
        cache[e.get_id()] = r
        return r

    def rebuild(inf, e):
        C.depth += 1
        try:
            bodies, changed = [], False
            for j, (shape, _) in enumerate(inf.arrays):
                ns = []
                for d in range(len(shape)):
                    n = f"b@{C.depth}!{j}!{d}"
                    C.index_names.add(n)
                    ns.append(z3.Int(n))
                sh = inst_shape(inf, e, j)
                body = z3.simplify(inst(inf, e, j, ns))
                new = range_rewrite(body, bs, sub)
                changed = changed or not new.eq(body)
                bodies.append((tuple(sh), canon(new) if not new.eq(body) else body, ns))
        finally:
            C.depth -= 1
        return vecop_raw(inf.op, inst_params(inf, e), bodies, inf.sort, inf.meta) if changed else e
    return go(t)


def compared(t):
    from .canon import compared
    return compared(t)


def canon(t):
    from .canon import canon
    return canon(t)


def has_literal_args(t):
    from .canon import has_literal_args as f
    return f(t)


def merge_divmod(t):
    from .canon import merge_divmod as f
    return f(t)


def vecop(op, params, arrays, sort, meta=None):
    """Apply an extensional operator.

    params: list of z3 terms; arrays: list of (shape tuple, fn(idx)->term).
    Returns the z3 application.
    """
    if op in ("any", "max", "min") and len(arrays) == 1 and len(arrays[0][0]) > 1 and any(isinstance(d, int) and d == 1 for d in arrays[0][0]):
        sh, f0 = arrays[0]          # axes of length one do not matter for these reductions
        keep = [k for k, d in enumerate(sh) if not (isinstance(d, int) and d == 1)] or [0]
        arrays = [(tuple(sh[k] for k in keep), lambda i: f0(tuple(i[keep.index(k)] if k in keep else z3.IntVal(0) for k in range(len(sh)))))]
    C.depth += 1
    try:
        bodies = []
        fresh = []
        for j, (shape, fn) in enumerate(arrays):
            bs = []
            for d in range(len(shape)):
                n = f"b@{C.depth}!{j}!{d}"
                C.index_names.add(n)
                bs.append(z3.Int(n))
            body = in_range_simp(z3.simplify(fn(tuple(bs))), bs, shape)
            if has_literal_args(body):
                body = merge_divmod(body)
            body = compared(canon(body))
            bodies.append((tuple(dz(x) for x in shape), body, bs))
            fresh.append(bs)
    finally:
        C.depth -= 1
    return vecop_raw(op, params, bodies, sort, meta)


def vecop_raw(op, params, bodies, sort, meta=None):
    all_b = {b.get_id() for _, _, bs in bodies for b in bs}
    fvs, seen = [], set()
    for t in list(params) + [x for shp, body, bs in bodies for x in list(shp) + [body]]:
        for v in free_index_vars(t):
            if v.get_id() not in all_b and v.get_id() not in seen:
                seen.add(v.get_id())
                fvs.append(v)
    if len(fvs) > 1:
        params = [z3.simplify(p) for p in params]
        bodies = [(tuple(z3.simplify(x) for x in shp), z3.simplify(body), bs) for shp, body, bs in bodies]
        fvs = canonical_order(fvs, params, bodies)
    sub = []
    cnt = {}
    phs = []
    for v in fvs:
        s = v.sort()
        k = cnt.get(s.name(), 0)
        cnt[s.name()] = k + 1
        p = _ph(s, k)
        phs.append(p)
        sub.append((v, p))
    tparams = [z3.simplify(z3.substitute(p, *sub)) if sub else z3.simplify(p) for p in params]
    tarr = []
    key = [op, sort.name(), tuple(p.get_id() for p in tparams)]
    for j, (shp, body, bs) in enumerate(bodies):
        bsub = sub + [(b, _bv(j, d)) for d, b in enumerate(bs)]
        tb = z3.simplify(z3.substitute(body, *bsub)) if bsub else body
        ts = tuple(z3.simplify(z3.substitute(s, *sub)) if sub else z3.simplify(s) for s in shp)
        tarr.append((ts, tb))
        key.append((tuple(s.get_id() for s in ts), tb.get_id()))
    key = tuple(key)
    info = C.templates.get(key)
    if info is None:
        info = Info()
        info.op, info.sort = op, sort
        info.phs, info.params, info.arrays = phs, tparams, tarr
        info.meta = meta
        name = f"R!{op}!{len(C.templates)}"
        info.decl = z3.Function(name, *([p.sort() for p in phs] + [sort])) if phs else z3.Const(name, sort)
        C.templates[key] = info
        C.infos[name] = info
    return info.decl(*fvs) if fvs else info.decl


COMM = {z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_IFF, z3.Z3_OP_XOR}


def canonical_order(fvs, params, bodies):
    """Order of the free indices by how they occur (colour refinement), not by the order in which the solver happens to keep
    the arguments of commutative operators: equal operators then become the same template."""
    roots = [(("p", k), p) for k, p in enumerate(params)]
    for j, (shp, body, _) in enumerate(bodies):
        roots += [(("s", j, k), x) for k, x in enumerate(shp)] + [(("b", j), body)]
    color = {v.get_id(): hash(v.sort().name()) for v in fvs}
    for j, (_, _, bs) in enumerate(bodies):
        for d, b in enumerate(bs):
            color[b.get_id()] = hash(("bv", j, d))
    order, seen = [], set()
    st = [(r, False) for _, r in roots]
    while st:
        e, done = st.pop()
        if done:
            order.append(e)
            continue
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        st.append((e, True))
        st += [(c, False) for c in e.children()]
    own = {}
    for e in order:
        own[e.get_id()] = hash(e.sexpr()) if not e.num_args() else hash((e.decl().kind(), e.decl().name()))
    kids = {e.get_id(): ([c.get_id() for c in e.children()], e.decl().kind() in COMM) for e in order}
    ids = [e.get_id() for e in order]
    for _ in range(2):
        h = {}
        for i in ids:
            ch, comm = kids[i]
            if i in color:
                h[i] = color[i]
            elif comm:
                h[i] = hash((own[i], tuple(sorted(h[c] for c in ch))))
            else:
                h[i] = hash((own[i], tuple(h[c] for c in ch)))
        ctx = dict.fromkeys(ids, 0)
        for tag, r in roots:
            ctx[r.get_id()] += hash(tag)
        for i in reversed(ids):
            ch, comm = kids[i]
            for k, c in enumerate(ch):
                ctx[c] += hash((ctx[i], h[i], -1 if comm else k))
        color.update({v.get_id(): hash((color[v.get_id()], ctx[v.get_id()])) for v in fvs})
    return sorted(fvs, key=lambda v: color[v.get_id()])


def app_info(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return C.infos.get(t.decl().name())
    return None


def inst(info, app, j, idx):
    """body of array argument j of the application, at idx."""
    sub = list(zip(info.phs, app.children())) + [(_bv(j, d), i) for d, i in enumerate(idx)]
    return z3.substitute(info.arrays[j][1], *sub) if sub else info.arrays[j][1]


def inst_shape(info, app, j):
    sub = list(zip(info.phs, app.children()))
    return [z3.substitute(s, *sub) if sub else s for s in info.arrays[j][0]]


def inst_params(info, app):
    sub = list(zip(info.phs, app.children()))
    return [z3.substitute(p, *sub) if sub else p for p in info.params]


# --- sums ----------------------------------------------------------------
def sum_term(n, body_fn):
    """Sum_{0<=i<n} body(i), canonicalised."""
    n = dim(n) if not isinstance(n, int) else n
    if isinstance(n, int) and n <= 6:
        ts = [body_fn(z3.IntVal(k)) for k in range(n)]
        if not ts:
            return z3.IntVal(0)
        r = ts[0] if ts[0].sort() != BoolS else to_int(ts[0])
        for t in ts[1:]:
            r = _add(to_int(r) if r.sort() == BoolS else r, t if t.sort() != BoolS else to_int(t))
        return r
    C.depth += 1
    nm = f"b@{C.depth}!0!0"
    C.index_names.add(nm)
    b = z3.Int(nm)
    try:
        body = body_fn(b)
        if body.sort() == BoolS:
            body = to_int(body)
        body = in_range_simp(z3.simplify(body), [b], (n,))
        return sum_body(dz(n), body, b)
    finally:
        C.depth -= 1


def occurs(b, t):
    seen, st = set(), [t]
    bid = b.get_id()
    while st:
        e = st.pop()
        i = e.get_id()
        if i == bid:
            return True
        if i in seen:
            continue
        seen.add(i)
        st.extend(e.children())
    return False


def _guarded(c):
    """an indicator or a guarded term with zero in the other branch as If(c, x, 0)"""
    z = z3.RealVal(0)
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_TO_REAL and z3.is_app(c.arg(0)) and c.arg(0).decl().kind() == z3.Z3_OP_ITE:
        i, x, y = c.arg(0).children()
        if _isnum(y, 0):
            return z3.If(i, z3.simplify(z3.ToReal(x)), z)
        if _isnum(x, 0):
            return z3.If(z3.simplify(z3.Not(i)), z3.simplify(z3.ToReal(y)), z)
    elif z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE and _isnum(c.arg(1), 0) and not _isnum(c.arg(2), 0):
        return z3.If(z3.simplify(z3.Not(c.arg(0))), c.arg(2), z)
    return c


def splits(x, b):
    """a branch that the sum of a guarded term takes apart"""
    if not z3.is_app(x):
        return False
    k = x.decl().kind()
    return k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS) or (k == z3.Z3_OP_MUL and any(not occurs(b, c) for c in x.children()))


def sum_body(n, body, b, simp=True):
    if simp:
        if has_literal_args(body):
            body = merge_divmod(body)
        body = compared(canon(body))
        body = z3.simplify(body, som=True) if tsize(body, 400) < 400 else z3.simplify(body)
    r = selection_sum(n, body, b)
    if r is not None:
        return r
    k = body.decl().kind() if z3.is_app(body) else None
    isreal = body.sort() == RealS
    if not occurs(b, body):
        return (to_real(n) if isreal else n) * body
    if k == z3.Z3_OP_ADD:
        r = None
        for c in body.children():
            s = sum_body(n, c, b)
            r = s if r is None else r + s
        return r
    if k == z3.Z3_OP_UMINUS:
        return -sum_body(n, body.arg(0), b)
    if k == z3.Z3_OP_SUB:
        return sum_body(n, body.arg(0), b) - sum_body(n, body.arg(1), b)
    if k == z3.Z3_OP_MUL:
        out = [c for c in body.children() if not occurs(b, c)]
        ins = [_guarded(c) if isreal else c for c in body.children() if occurs(b, c)]
        if out:
            p = ins[0]
            for c in ins[1:]:
                p = p * c
            q = out[0]
            for c in out[1:]:
                q = q * c
            return q * sum_body(n, p, b)
        guarded = [c for c in ins if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE and _isnum(c.arg(2), 0)]
        if guarded:
            # If(c, x, 0) * y = If(c, x * y, 0), and c holds inside
            conds, p = [], None
            for c in ins:
                x = c
                while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and _isnum(x.arg(2), 0):
                    if not any(x.arg(0).eq(q) for q in conds):
                        conds.append(x.arg(0))
                    x = x.arg(1)
                p = x if p is None else p * x
            p = z3.substitute(p, *[(q, z3.BoolVal(True)) for q in conds])
            p = z3.simplify(p, som=True) if tsize(p, 400) < 400 else z3.simplify(p)
            conds.sort(key=lambda q: q.get_id())
            return sum_body(n, z3.If(z3.And(*conds) if len(conds) > 1 else conds[0], p, z3.RealVal(0) if isreal else z3.IntVal(0)), b, False)
        if isreal:
            # x * (a / d) = (x * a) / d for a denominator without the summation index
            dens, nums = [], []
            for c in ins:
                while z3.is_app(c) and c.decl().kind() == z3.Z3_OP_DIV and not occurs(b, c.arg(1)):
                    dens.append(c.arg(1))
                    c = c.arg(0)
                nums.append(c)
            if dens:
                p = nums[0]
                for c in nums[1:]:
                    p = p * c
                r = sum_body(n, p, b)
                for d in dens:
                    r = r / d
                return r
    if k == z3.Z3_OP_DIV and not occurs(b, body.arg(1)):
        return sum_body(n, body.arg(0), b) / body.arg(1)
    if k == z3.Z3_OP_TO_REAL:
        return z3.ToReal(sum_body(n, body.arg(0), b))
    if k == z3.Z3_OP_ITE:
        c, x, y = body.children()
        if not occurs(b, c):
            return z3.If(c, sum_body(n, x, b), sum_body(n, y, b))
        zero = _isnum(y, 0)
        if zero:
            # delta sums: If(b == t, e, 0) with t free of b
            d = _delta(c, b)
            if d is not None:
                t, rest = d
                e = z3.substitute(x, (b, t))
                g = z3.And(t >= 0, t < n, *[z3.substitute(r, (b, t)) for r in rest])
                return z3.If(g, e, z3.RealVal(0) if isreal else z3.IntVal(0))
            if isreal and _isnum(x, 1):
                return z3.ToReal(sum_body(n, z3.If(c, z3.IntVal(1), z3.IntVal(0)), b))
            # pull constant factor out of the guarded branch
            if not _isnum(x, 1) and not occurs(b, x):
                return x * sum_body(n, z3.If(c, z3.RealVal(1) if isreal else z3.IntVal(1),
                                             z3.RealVal(0) if isreal else z3.IntVal(0)), b)
            kx = x.decl().kind() if z3.is_app(x) else None
            z = z3.RealVal(0) if isreal else z3.IntVal(0)
            if kx == z3.Z3_OP_ADD:
                r = None
                for a in x.children():
                    s = sum_body(n, z3.If(c, a, z), b)
                    r = s if r is None else r + s
                return r
            if kx == z3.Z3_OP_MUL:
                out = [a for a in x.children() if not occurs(b, a)]
                ins = [a for a in x.children() if occurs(b, a)]
                if out:
                    p = ins[0]
                    for a in ins[1:]:
                        p = p * a
                    q = out[0]
                    for a in out[1:]:
                        q = q * a
                    return q * sum_body(n, z3.If(c, p, z), b)
            if kx == z3.Z3_OP_TO_REAL:
                return z3.ToReal(sum_body(n, z3.If(c, x.arg(0), z3.IntVal(0)), b))
        elif _isnum(x, 0):
            return sum_body(n, z3.If(z3.simplify(z3.Not(c)), y, x), b, False)
        elif (z3.is_int_value(x) or z3.is_rational_value(x)) and (z3.is_int_value(y) or z3.is_rational_value(y)):
            z = z3.RealVal(0) if isreal else z3.IntVal(0)
            return sum_body(n, y, b) + sum_body(n, z3.If(c, x - y, z), b)
        elif splits(x, b) or splits(y, b):
            z = z3.RealVal(0) if isreal else z3.IntVal(0)
            return sum_body(n, z3.If(c, x, z), b) + sum_body(n, z3.If(c, z, y), b)
    return vecop_raw("sum", [], [((n,), body, [b])], body.sort())


def selection_sum(n, body, b):
    """Sum over the entries selected by a mask, in order of selection = sum over all entries of those where the mask holds."""
    pos = None
    for e in _subterms(body):
        inf = app_info(e)
        if inf is not None and inf.op == "maskpos":
            p = inst_params(inf, e)
            if len(p) == 1 and p[0].eq(b) and not any(occurs(b, a) for a in e.children() if not a.eq(b)):
                pos = (e, inf)
                break
    if pos is None:
        return None
    e, inf = pos
    C.depth += 1
    nm = f"b@{C.depth}!1!0"
    C.index_names.add(nm)
    i = z3.Int(nm)
    try:
        rest = z3.substitute(body, (e, i))
        if occurs(b, rest):
            return None
        N = inst_shape(inf, e, 0)[0]
        m = inst(inf, e, 0, [i])
        if occurs(b, m):
            return None
        cnt = sum_body(N, z3.If(m, z3.IntVal(1), z3.IntVal(0)), i)
        if not z3.simplify(cnt).eq(z3.simplify(n)):
            return None
        return sum_body(N, z3.If(m, rest, z3.RealVal(0) if rest.sort() == RealS else z3.IntVal(0)), i)
    finally:
        C.depth -= 1


def _subterms(t):
    seen, st = set(), [t]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        yield e
        st.extend(e.children())


def _delta(c, b):
    conj = c.children() if z3.is_and(c) else [c]
    for k, e in enumerate(conj):
        if z3.is_eq(e) and e.arg(0).sort() in (IntS, RealS):
            l, r = e.arg(0), e.arg(1)
            if e.arg(0).sort() == RealS:
                if not all(z3.is_app(q) and q.decl().kind() == z3.Z3_OP_TO_REAL for q in (l, r)):
                    continue
                l, r = l.arg(0), r.arg(0)
            for x, y in ((l, r), (r, l)):
                if x.eq(b) and not occurs(b, y):
                    return y, [q for m, q in enumerate(conj) if m != k]
    return None


def tsize(t, cap):
    seen, st = set(), [t]
    while st and len(seen) < cap:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        st.extend(e.children())
    return len(seen)


# --- generic reductions ---------------------------------------------------
def norm_axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(sorted((int(a) + nd) % nd for a in axis))
    a = int(axis)
    if a >= nd or a < -nd:
        raise ModelledValueError(f"axis {a} is out of bounds")
    return ((a + nd) % nd,)


def reduce_(x, axis, red, keepdims=False):
    """red(shape tuple, fn) -> term, reduces the given axes together."""
    x = lift(x)
    nd = len(x.sh)
    axes = norm_axes(axis, nd)
    keep = [k for k in range(nd) if k not in axes]
    rshape = tuple(x.sh[k] for k in axes)

    def fn(idx):
        base = [None] * nd
        if keepdims:
            for k in keep:
                base[k] = idx[k]
        else:
            for p, k in enumerate(keep):
                base[k] = idx[p]

        def inner(ri):
            full = list(base)
            for p, k in enumerate(axes):
                full[k] = ri[p]
            return x.fn(tuple(full))
        return red(rshape, inner)
    shape = tuple((1 if k in axes else x.sh[k]) for k in range(nd)) if keepdims else tuple(x.sh[k] for k in keep)
    r = Arr(shape, fn, None, "jnp")
    r.dt = _probe_dt(r)
    return r


def nested_sum(shape, fn):
    def go(k, acc):
        if k == len(shape):
            return fn(tuple(acc))
        return sum_term(shape[k], lambda i: go(k + 1, acc + [i]))
    t = go(0, [])
    return to_int(t) if t.sort() == BoolS else t


def asum(x, axis=None, dtype=None, keepdims=False, where=None, **kw):
    if kw:
        raise Unsupported(f"sum({list(kw)})")
    if isinstance(x, SymSeq):
        x = x.stacked(0)
    x = lift(x)
    if where is not None:
        x = where_(where, x, 0)
    if x.mask is not None:
        if axis is None or (len(x.sh) == 1):
            return reduce_(masked_zero(x), None, nested_sum)
        if axis == 0:
            return reduce_(masked_zero(x), tuple(range(len(x.mask[0]))), nested_sum, keepdims)
        raise Unsupported("sum over an axis of a masked selection")
    return reduce_(x, axis, nested_sum, keepdims)


def total(shape):
    r = z3.IntVal(1)
    for d in shape:
        r = r * dz(d)
    return z3.simplify(r)


def amean(x, axis=None, dtype=None, keepdims=False, where=None, **kw):
    if kw:
        raise Unsupported(f"mean({list(kw)})")
    if isinstance(x, SymSeq):
        x = x.stacked(0)
    x = lift(x)
    if where is not None:
        return asum(x, axis, keepdims=keepdims, where=where) / asum(broadcast_to(where, x.sh), axis, keepdims=keepdims)
    if x.mask is not None:
        cnt = asum(x.mask[1])
        return asum(x, axis, keepdims=keepdims) / cnt
    axes = norm_axes(axis, len(x.sh))
    n = total([x.sh[a] for a in axes])
    return unop(reduce_(x, axis, nested_sum, keepdims), lambda t: to_real(t) / to_real(n))


def avar(x, axis=None, ddof=0, keepdims=False, **kw):
    if kw:
        raise Unsupported(f"var({list(kw)})")
    x = lift(x)
    m = amean(x, axis, keepdims=True)
    d = (x - m)
    axes = norm_axes(axis, len(x.sh))
    n = total([x.sh[a] for a in axes])
    dd = tz(ddof)
    return unop(asum(d * d, axis, keepdims=keepdims), lambda t: to_real(t) / (to_real(n) - to_real(dd)))


def astd(x, axis=None, ddof=0, keepdims=False, **kw):
    return unop(avar(x, axis, ddof, keepdims, **kw), fsqrt)


def _vred(op, sort=None):
    def red(shape, fn):
        probe = fn(tuple(_probe_idx(20 + k) for k in range(len(shape))))
        s = sort or probe.sort()
        if op in ("max", "min") and s == BoolS:
            raise Unsupported("max/min of booleans")
        if all(isinstance(d, int) for d in shape) and len(shape) == 1 and shape[0] <= 6 and op in ("max", "min", "any", "all"):
            ts = [fn((z3.IntVal(k),)) for k in range(shape[0])]
            if op in ("any", "all"):
                ts = [to_bool(t) for t in ts]
                return z3.Or(*ts) if op == "any" else z3.And(*ts)
            if not ts:
                raise ModelledValueError("zero-size array to reduction operation")
            r = ts[0]
            for t in ts[1:]:
                r = z3.If(t > r, t, r) if op == "max" else z3.If(t < r, t, r)
            return r
        return vecop(op, [], [(shape, fn)], s)
    return red


def amax(x, axis=None, keepdims=False, **kw):
    if kw:
        raise Unsupported(f"max({list(kw)})")
    return reduce_(x, axis, _vred("max"), keepdims)


def amin(x, axis=None, keepdims=False, **kw):
    if kw:
        raise Unsupported(f"min({list(kw)})")
    return reduce_(x, axis, _vred("min"), keepdims)


def aany(x, axis=None, keepdims=False, **kw):
    x = lift(x)
    if x.mask is not None:
        x = where_(x.mask[1], masked_base(x), False)
    if x.dt != "b":
        x = unop(x, to_bool)
    if x.sh == ():
        return x
    # all(x) == not any(not x); 'any' is the single primitive
    return reduce_(x, axis, _anyred, keepdims)


def _anyred(shape, fn):
    if len(shape) == 1 and isinstance(shape[0], int) and shape[0] <= 6:
        return z3.Or(*[to_bool(fn((z3.IntVal(k),))) for k in range(shape[0])])
    if len(shape) == 0:
        return fn(())
    for q, d in enumerate(shape):
        if isinstance(d, int) and d <= 4:       # over a dimension of known small size: one per index
            return z3.Or(*[_anyred(shape[:q] + shape[q + 1:], lambda i, v=v: fn(tuple(i[:q]) + (z3.IntVal(v),) + tuple(i[q:]))) for v in range(d)])
    return vecop("any", [], [(shape, fn)], BoolS)


def aall(x, axis=None, keepdims=False, **kw):
    x = lift(x)
    if x.dt != "b":
        x = unop(x, to_bool)
    return unop(aany(unop(x, z3.Not), axis, keepdims), z3.Not)


def argred(op):
    def f(x, axis=None, keepdims=False, **kw):
        if kw:
            raise Unsupported(f"{op}({list(kw)})")
        x = lift(x)
        if axis is None:
            x = ravel(x)
            axis = 0
        if x.dt == "b":
            x = unop(x, to_int)
        return reduce_(x, axis, lambda shape, fn: vecop(op, [], [(shape, fn)], IntS), keepdims)
    return f


argmax = argred("argmax")
argmin = argred("argmin")


def rowop(op, x, axis=-1, params=(), sort=None, extra_shape=None):
    """Operator along one axis whose result keeps the axis (sort, argsort, cumsum) -
    the position along the axis becomes a parameter."""
    x = lift(x)
    nd = len(x.sh)
    if axis is None:
        x = ravel(x)
        nd, axis = 1, 0
    ax = norm_axes(axis, nd)[0]

    def fn(idx):
        pos = idx[ax]

        def inner(ri):
            full = list(idx)
            full[ax] = ri[0]
            return x.fn(tuple(full))
        return vecop(op, [pos] + list(params), [((x.sh[ax],), inner)], sort if sort is not None else {"f": RealS, "i": IntS}[x.dt])
    r = Arr(x.sh, fn, None)
    r.dt = _probe_dt(r)
    return r


def cumsum(x, axis=None, **kw):
    x = lift(x)
    if axis is None:
        x = ravel(x)
        axis = 0
    if x.dt == "b":
        x = unop(x, to_int)
    nd = len(x.sh)
    ax = norm_axes(axis, nd)[0]

    def fn(idx):
        pos = idx[ax]

        def body(i):
            full = list(idx)
            full[ax] = i
            return x.fn(tuple(full))
        return sum_term(z3.simplify(pos + 1), body)
    return Arr(x.sh, fn, x.dt)


# ------------------------------------------------------------------ structural ops
def where_(c, a=None, b=None):
    if a is None and b is None:
        return nonzero(c)
    c, a, b = lift(c), lift(a), lift(b)
    if a.mask is not None or b.mask is not None or c.mask is not None:
        raise Unsupported("where on masked selections")
    shape = broadcast_shapes(c.sh, a.sh, b.sh)
    cc, A, B = _bc(c, shape), _bc(a, shape), _bc(b, shape)
    dt = common_dt([a.dt, b.dt])
    return Arr(shape, lambda i: ite(to_bool(cc.fn(i)), cast(A.fn(i), dt), cast(B.fn(i), dt)), dt, result_kind(c, a, b))


def ite(c, a, b):
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def ravel(x):
    x = lift(x)
    return reshape(x, (-1,))


def reshape(x, shape):
    x = lift(x)
    if x.mask is not None:
        raise Unsupported("reshape of a masked selection")
    if isinstance(shape, (int, Arr)):
        shape = (shape,)
    tgt = [dim(d) for d in shape]
    src = list(x.sh)
    neg = [k for k, d in enumerate(tgt) if isinstance(d, int) and d == -1]
    if neg:
        k = neg[0]
        others = [d for j, d in enumerate(tgt) if j != k]
        # cancel identical dims
        s = [d for d in src]
        rem = []
        for d in others:
            for q, e in enumerate(s):
                if dz(d).eq(dz(e)):
                    s.pop(q)
                    break
            else:
                rem.append(d)
        rem = [d for d in rem if not (isinstance(d, int) and d == 1)]
        if rem:
            num = total(s)
            den = total(rem)
            f = _factor(num, den) if positive(den) else None
            if f is not None:
                tgt[k] = dim(z3.simplify(f))
            else:
                q = z3.simplify(num / den)
                # require exact divisibility
                if not branch(num % den == 0):
                    raise ModelledTypeError("cannot reshape array")
                tgt[k] = dim(q)
        else:
            tgt[k] = dim(total(s)) if s else 1
    else:
        a, b = total(src), total(tgt)
        if not (a.eq(b) or branch(a == b)):
            raise ModelledTypeError(f"cannot reshape array of shape {src} into shape {tgt}")
    tgt = tuple(tgt)
    # fast path: insertion/removal of unit dims, prefix equal
    s1 = [(k, d) for k, d in enumerate(src) if not (isinstance(d, int) and d == 1)]
    t1 = [(k, d) for k, d in enumerate(tgt) if not (isinstance(d, int) and d == 1)]
    if len(s1) == len(t1) and all(dz(a[1]).eq(dz(b[1])) for a, b in zip(s1, t1)):
        m = {a[0]: b[0] for a, b in zip(s1, t1)}
        return Arr(tgt, lambda idx: x.fn(tuple(idx[m[k]] if k in m else z3.IntVal(0) for k in range(len(src)))), x.dt, x.kind)
    # symbolic unit dims and equalities known on this path
    if len(src) == len(tgt) and all(same_dim(a, b) for a, b in zip(src, tgt)):
        return Arr(tgt, lambda idx: x.fn(idx), x.dt, x.kind)
    # peel common leading/trailing dims
    lead = 0
    while lead < min(len(src), len(tgt)) and dz(src[lead]).eq(dz(tgt[lead])):
        lead += 1
    trail = 0
    while trail < min(len(src), len(tgt)) - lead and dz(src[-1 - trail]).eq(dz(tgt[-1 - trail])):
        trail += 1
    sm = src[lead:len(src) - trail]
    tm = tgt[lead:len(tgt) - trail]

    def fn(idx):
        mid = idx[lead:len(tgt) - trail]
        flat = flatten_index(mid, tm)
        si = unflatten_index(flat, sm)
        return x.fn(tuple(idx[:lead]) + tuple(si) + tuple(idx[len(tgt) - trail:]))
    return Arr(tgt, fn, x.dt, x.kind)


def flatten_index(idx, shape):
    if len(shape) == 1:
        return idx[0]
    r = z3.IntVal(0)
    for i, d in zip(idx, shape):
        r = recompose(r, dz(d), i)
    return z3.simplify(r)


def recompose(q, d, r):
    """q * d + r, with t div d and t mod d put together again (d != 0)."""
    q, r, d = z3.simplify(q), z3.simplify(r), z3.simplify(d)
    if z3.is_app(q) and z3.is_app(r) and q.decl().kind() == z3.Z3_OP_IDIV and r.decl().kind() == z3.Z3_OP_MOD \
            and q.arg(0).eq(r.arg(0)) and q.arg(1).eq(d) and r.arg(1).eq(d) and positive(d):
        return q.arg(0)
    return q * d + r


def positive(d):
    """Syntactically positive integer term."""
    d = z3.simplify(d)
    if z3.is_int_value(d):
        return d.as_long() > 0
    if z3.is_const(d):
        return d.decl().name() in C.pos_dims
    k = d.decl().kind()
    if k == z3.Z3_OP_MUL:
        return all(positive(c) for c in d.children())
    if k == z3.Z3_OP_ADD:
        return any(positive(c) for c in d.children()) and all(positive(c) or z3.is_int_value(c) and c.as_long() >= 0 for c in d.children())
    if k == z3.Z3_OP_UNINTERPRETED:
        return d.decl().name() in C.pos_funs
    return False


def unflatten_index(flat, shape):
    if len(shape) == 0:
        return []
    if len(shape) == 1:
        return [flat]
    out = []
    rest = flat
    for d in reversed(shape[1:]):
        q, r = divmod_term(rest, dz(d))
        out.append(r)
        rest = q
    out.append(rest)
    return list(reversed(out))


def divmod_term(t, d):
    """(t // d, t % d) with the pattern (a*d + b) recognised when b is an index of range d."""
    s = z3.simplify(t)
    # a*d + b
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ADD:
        ch = s.children()
        for k, c in enumerate(ch):
            q = _factor(c, d)
            if q is not None:
                rest = [e for m, e in enumerate(ch) if m != k]
                r = rest[0]
                for e in rest[1:]:
                    r = r + e
                # use the recognised decomposition when 0 <= r < d is entailed; else generic
                return z3.If(z3.And(r >= 0, r < d), q, s / d), z3.If(z3.And(r >= 0, r < d), r, s % d)
    q = _factor(s, d)
    if q is not None:
        return q, z3.IntVal(0)
    return s / d, s % d


def _mod_factor(a, b):
    if a.sort() == IntS and b.sort() == IntS:
        b = z3.simplify(b)
        if _factor(z3.simplify(a), b) is not None and positive(b):
            return True
    return False


def _factor(c, d):
    if c.eq(d):
        return z3.IntVal(1)
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_MUL:
        ch = c.children()
        for k, e in enumerate(ch):
            if e.eq(d):
                rest = [x for m, x in enumerate(ch) if m != k]
                r = rest[0]
                for x in rest[1:]:
                    r = r * x
                return r
        if z3.is_int_value(d) and z3.is_int_value(ch[0]) and ch[0].as_long() % d.as_long() == 0:
            r = z3.IntVal(ch[0].as_long() // d.as_long())
            for x in ch[1:]:
                r = r * x
            return z3.simplify(r)
    return None


def transpose(x, axes=None):
    x = lift(x)
    nd = len(x.sh)
    if axes is None:
        axes = tuple(reversed(range(nd)))
    axes = [int(a) % nd for a in axes]
    inv = [axes.index(k) for k in range(nd)]
    return Arr(tuple(x.sh[a] for a in axes), lambda i: x.fn(tuple(i[inv[k]] for k in range(nd))), x.dt, x.kind)


def moveaxis(x, s, d):
    nd = len(x.sh)
    s, d = s % nd, d % nd
    order = [k for k in range(nd) if k != s]
    order.insert(d, s)
    return transpose(x, order)


def swapaxes(x, a, b):
    x = lift(x)
    o = list(range(len(x.sh)))
    o[a], o[b] = o[b], o[a]
    return transpose(x, o)


def expand_dims(x, axis):
    x = lift(x)
    if isinstance(axis, (tuple, list)):
        for a in sorted(axis):
            x = expand_dims(x, a)
        return x
    nd = len(x.sh) + 1
    ax = int(axis) % nd
    shape = x.sh[:ax] + (1,) + x.sh[ax:]
    return Arr(shape, lambda i: x.fn(i[:ax] + i[ax + 1:]), x.dt, x.kind)


def squeeze(x, axis=None):
    x = lift(x)
    nd = len(x.sh)
    if axis is None:
        axes = [k for k, d in enumerate(x.sh) if dim_is(d, 1)]
    else:
        axes = norm_axes(axis, nd)
        for a in axes:
            if not dim_is(x.sh[a], 1):
                raise ModelledValueError("cannot select an axis to squeeze out which has size not equal to one")
    keep = [k for k in range(nd) if k not in axes]

    def fn(idx):
        full = [z3.IntVal(0)] * nd
        for p, k in enumerate(keep):
            full[k] = idx[p]
        return x.fn(tuple(full))
    return Arr(tuple(x.sh[k] for k in keep), fn, x.dt, x.kind)


def concatenate(xs, axis=0, **kw):
    if isinstance(xs, SymSeq):
        return xs.concatenated(axis)
    if isinstance(xs, Arr):
        # array of arrays: joins along the first axis
        if len(xs.sh) < 2:
            raise ModelledValueError("zero-dimensional arrays cannot be concatenated")
        if axis == 0 or axis is None:
            s = xs.sh
            return reshape(xs, (dim(dz(s[0]) * dz(s[1])),) + s[2:])
        raise Unsupported("concatenate(array) along axis != 0")
    xs = [lift(x) for x in xs]
    if not xs:
        raise ModelledValueError("need at least one array to concatenate")
    if axis is None:
        xs = [ravel(x) for x in xs]
        axis = 0
    nd = len(xs[0].sh)
    if nd == 0:
        raise ModelledValueError("zero-dimensional arrays cannot be concatenated")
    if len(xs) == 1:
        return xs[0]
    ax = norm_axes(axis, nd)[0]
    for x in xs[1:]:
        if len(x.sh) != nd:
            raise ModelledTypeError("all the input arrays must have same number of dimensions")
        for k in range(nd):
            if k != ax and not same_dim(x.sh[k], xs[0].sh[k]):
                raise ModelledTypeError("all the input array dimensions except for the concatenation axis must match")
    dt = common_dt(x.dt for x in xs)
    tot = 0
    offs = []
    for x in xs:
        offs.append(tot)
        tot = dim(dz(tot) + dz(x.sh[ax]))
    shape = xs[0].sh[:ax] + (tot,) + xs[0].sh[ax + 1:]

    def fn(idx):
        p = idx[ax]
        r = None
        for x, o in reversed(list(zip(xs, offs))):
            full = idx[:ax] + (z3.simplify(p - dz(o)),) + idx[ax + 1:]
            t = cast(x.fn(full), dt)
            r = t if r is None else ite(p < dz(o) + dz(x.sh[ax]), t, r)
        return r
    return Arr(shape, fn, dt, result_kind(*xs), tag=("concat", xs, ax))


# ------------------------------------------------------------------ indexing
def clamp_index(i, n, mode="clamp"):
    """jax gather semantics: negative wraps, out of range clamps."""
    n = dz(n)
    if z3.is_int_value(i):
        k = i.as_long()
        if k < 0:
            return z3.simplify(n + k)
        return i
    if z3.is_const(i) and i.decl().kind() == z3.Z3_OP_UNINTERPRETED and i.decl().name() in C.index_names:
        return i
    if z3.is_const(i) and i.decl().kind() == z3.Z3_OP_UNINTERPRETED and i.decl().name() in C.index_dims and C.index_dims[i.decl().name()].eq(n):
        return i
    info = app_info(i)
    if info is not None and (info.op in ("argmax", "argmin", "argsort", "perm") or info.op.startswith("choice")) and len(info.arrays) == 1 \
            and inst_shape(info, i, 0)[0].eq(n):
        return i
    w = z3.If(i < 0, i + n, i)
    return z3.If(w < 0, z3.IntVal(0), z3.If(w >= n, n - 1, w))


def slice_params(s, n):
    """start, length, step of a slice along dimension n (z3 terms / ints)."""
    step = 1 if s.step is None else int(s.step)
    nz = dz(n)

    def norm(v, default, lo, hi):
        if v is None:
            return default
        t = tz(v)
        if z3.is_int_value(t):
            k = t.as_long()
            if isinstance(n, int):
                if k < 0:
                    k += n
                return z3.IntVal(max(lo if isinstance(lo, int) else 0, min(k, n if step > 0 else n - 1)))
            if k < 0:
                w = nz + k
                return z3.If(w < 0, z3.IntVal(0), w)
            if k == 0:
                return z3.IntVal(0)
            return z3.If(z3.IntVal(k) > nz, nz, z3.IntVal(k))
        w = z3.If(t < 0, t + nz, t)
        return z3.If(w < 0, z3.IntVal(0), z3.If(w > nz, nz, w))
    if step == 1:
        a = norm(s.start, z3.IntVal(0), 0, n)
        b = norm(s.stop, nz, 0, n)
        if s.start is None and s.stop is None:
            return z3.IntVal(0), n, 1
        ln = z3.simplify(b - a)
        if not z3.is_int_value(ln):
            if branch(b < a):
                ln = z3.IntVal(0)
        return a, max(0, ln.as_long()) if z3.is_int_value(ln) else dim(ln), 1
    if step > 1:
        a = norm(s.start, z3.IntVal(0), 0, n)
        b = norm(s.stop, nz, 0, n)
        ln = z3.simplify((b - a + (step - 1)) / step)
        if not z3.is_int_value(ln) and branch(ln < 0):
            ln = z3.IntVal(0)
        return a, dim(ln), step
    if step == -1 and s.start is None and s.stop is None:
        return z3.simplify(nz - 1), n, -1
    raise Unsupported(f"slice {s}")


def getitem(x, key):
    if x.mask is not None:
        return masked_getitem(x, key)
    if not isinstance(key, tuple):
        key = (key,)
    if isinstance(key, tuple) and len(key) == 1 and isinstance(key[0], list):
        key = (lift(key[0]),)
    nd = len(x.sh)
    # normalise
    if any(k is Ellipsis for k in key):
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        used = builtins.sum((len(k.sh) if isinstance(k, Arr) and k.dt == "b" else (0 if k is None else 1))
                            for i, k in enumerate(key) if i != p)
        key = key[:p] + (slice(None),) * (nd - used) + key[p + 1:]
    # boolean masks
    bpos = [i for i, k in enumerate(key) if isinstance(k, Arr) and k.dt == "b"]
    if bpos:
        return masked_select(x, key, bpos)
    if any(isinstance(k, NZ) for k in key):
        nz = [k for k in key if isinstance(k, NZ)]
        if len(key) == 1:
            return masked_select(x, (nz[0].maskarr,), [0])
        if isinstance(key[0], NZ) and len(nz) == 1 and all(isinstance(k, slice) or k is None or lift(k).sh == () for k in key[1:]):
            return masked_select(x, (nz[0].maskarr,) + tuple(key[1:]), [0])
        raise Unsupported("mixed nonzero indexing")
    items = []
    used = 0
    for k in key:
        if k is None:
            items.append(("new",))
            continue
        if used >= nd:
            raise ModelledIndexError("too many indices for array")
        d = x.sh[used]
        if isinstance(k, slice):
            st, ln, step = slice_params(k, d)
            items.append(("slice", st, ln, step))
        else:
            if isinstance(k, (list, tuple)):
                k = lift(k)
            if not isinstance(k, Arr):
                k = lift(k)
            if k.dt == "f":
                raise ModelledTypeError("Indexer must have integer or boolean type")
            if k.dt == "b":
                k = unop(k, to_int)
            items.append(("adv", k, d))
        used += 1
    while used < nd:
        items.append(("slice", z3.IntVal(0), x.sh[used], 1))
        used += 1
    advs = [(p, it) for p, it in enumerate(items) if it[0] == "adv"]
    advshape = broadcast_shapes(*[it[1].sh for _, it in advs]) if advs else ()
    advarr = {p: _bc(it[1], advshape) for p, it in advs}
    out_shape = []
    plan = []   # for every source dim: ('s', outpos, start, step) | ('a', p)
    adv_out = None
    if advs and advshape:
        ps = [p for p, _ in advs]
        contiguous = all(b - a == 1 for a, b in zip(ps, ps[1:]))
        if not contiguous:
            adv_out = 0
            out_shape.extend(advshape)
    for p, it in enumerate(items):
        if it[0] == "new":
            out_shape.append(1)
        elif it[0] == "slice":
            plan.append(("s", len(out_shape), it[1], it[3]))
            out_shape.append(it[2])
        else:
            if advshape and adv_out is None:
                adv_out = len(out_shape)
                out_shape.extend(advshape)
            plan.append(("a", p, it[2]))

    def fn(idx):
        src = []
        ai = idx[adv_out:adv_out + len(advshape)] if advshape else ()
        for pl in plan:
            if pl[0] == "s":
                _, op, st, step = pl
                i = idx[op]
                src.append(i if (_isnum(st, 0) and step == 1) else z3.simplify(st + i * step))
            else:
                _, p, d = pl
                src.append(clamp_index(advarr[p].fn(ai), d))
        return x.fn(tuple(src))
    return Arr(tuple(out_shape), fn, x.dt, x.kind)


class NZ:
    """Indices where a 1-D mask holds (jnp.where(mask)[0])."""

    def __init__(self, maskarr):
        self.maskarr = maskarr
        base = arange(maskarr.sh[0])
        self.arr = masked_select(base, (maskarr,), [0])

    def __vf_lift__(self):
        return self.arr

    def __vf_len__(self):
        return sdim(self.arr.sh[0])

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.arr, n)

    def tolist(self):
        from .objs import TrueIdx
        return TrueIdx(self.maskarr.sh[0], lambda j: self.maskarr.fn((j,)))

    def _d(op):
        def f(self, *o):
            return getattr(self.arr, op)(*o)
        return f
    for _n in ("__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __lt__ __le__ __gt__ __ge__ "
               "__eq__ __ne__ __neg__ __getitem__").split():
        locals()[_n] = _d(_n)
    __hash__ = object.__hash__


def nonzero(c):
    c = lift(c)
    if c.dt != "b":
        c = unop(c, to_bool)
    if len(c.sh) == 1:
        return (NZ(c),)
    if len(c.sh) == 2:
        from .objs import NZ2
        return (NZ2(c, 0), NZ2(c, 1))
    raise Unsupported("nonzero of a multi-dimensional array")


def masked_count(m):
    return dim(tz(asum(m)))


def masked_select(x, key, bpos):
    """x[..., mask, ...]: a selection that remembers base and mask."""
    if len(bpos) > 1:
        raise Unsupported("several boolean masks in one index")
    m = key[bpos[0]]
    if any(not (isinstance(k, slice) and k == slice(None)) for k in key[:bpos[0]]):
        raise Unsupported("indices before a boolean mask")
    if bpos[0] != 0:
        raise Unsupported("boolean mask not in first position")
    rest = key[1:]
    mn = len(m.sh)
    for a, b in zip(m.sh, x.sh):
        if not same_dim(a, b):
            raise ModelledIndexError("boolean index did not match indexed array")
    base = x
    if rest:
        base = getitem(x, (slice(None),) * mn + tuple(rest))
    shp = (masked_count(m),) + base.sh[mn:]
    return Arr(shp, _mask_elem(base, m, mn), base.dt, base.kind, mask=(m.sh, m, base))


def _mask_elem(base, m, mn):
    def fn(idx):
        # k-th selected position: opaque permutation-like operator of the mask
        if mn != 1:
            raise Unsupported("element of a multi-dimensional masked selection")
        pos = vecop("maskpos", [idx[0]], [(m.sh, lambda i: m.fn(i))], IntS)
        return base.fn((pos,) + tuple(idx[1:]))
    return fn


def masked_like(sel, base):
    mn = len(sel.mask[0])
    m = sel.mask[1]
    return Arr(sel.sh[:1] + base.sh[mn:], _mask_elem(base, m, mn), base.dt, base.kind, mask=(sel.mask[0], m, base))


def masked_base(x):
    return x.mask[2]


def masked_zero(x):
    m, base = x.mask[1], x.mask[2]
    mm = m
    for _ in range(len(base.sh) - len(m.sh)):
        mm = expand_dims(mm, -1)
    b = base if base.dt != "b" else unop(base, to_int)
    return where_(mm, b, 0 if b.dt == "i" else 0.0)


def masked_getitem(x, key):
    if not isinstance(key, tuple):
        key = (key,)
    if key and isinstance(key[0], slice) and key[0] == slice(None):
        base = getitem(x.mask[2], (slice(None),) * len(x.mask[0]) + key[1:])
        return masked_like(x, base)
    if key and key[0] is None:
        raise Unsupported("new axis on a masked selection")
    y = Arr(x.sh, x._fn, x.dt, x.kind)
    return getitem(y, key)


class _At:
    def __init__(self, x):
        self.x = x

    def __getitem__(self, key):
        return _AtKey(self.x, key)


class _AtKey:
    def __init__(self, x, key):
        self.x, self.key = x, key

    def set(self, v, **kw): return setitem(self.x, self.key, v, lambda o, n: n)
    def add(self, v, **kw): return setitem(self.x, self.key, v, _add)
    def multiply(self, v, **kw): return setitem(self.x, self.key, v, _mul)
    mul = multiply
    def divide(self, v, **kw): return setitem(self.x, self.key, v, _div)
    def get(self, **kw): return getitem(self.x, self.key)


def setitem(x, key, v, comb):
    v = lift(v)
    if not isinstance(key, tuple):
        key = (key,)
    nd = len(x.sh)
    if any(k is Ellipsis for k in key):
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key = key[:p] + (slice(None),) * (nd - (len(key) - 1)) + key[p + 1:]
    key = tuple(k.maskarr if isinstance(k, NZ) else k for k in key)
    bpos = [i for i, k in enumerate(key) if isinstance(k, Arr) and k.dt == "b"]
    if bpos:
        if bpos != [0]:
            raise Unsupported("boolean mask not first in assignment")
        m = key[0]
        mn = len(m.sh)
        for a, b in zip(m.sh, x.sh):
            if not same_dim(a, b):
                raise ModelledIndexError("boolean index did not match indexed array")
        rest = key[1:]
        cond_rest = []
        for off, k in enumerate(rest):
            if isinstance(k, slice) and k == slice(None):
                continue
            kk = lift(k)
            if kk.sh != ():
                raise Unsupported("advanced index next to a mask in assignment")
            cond_rest.append((mn + off, clamp_index(tz(kk), x.sh[mn + off])))
        if v.mask is not None:
            if not mask_equal(v.mask[1], m):
                raise Unsupported("assignment of a selection under a different mask")
            base = v.mask[2]
        elif v.sh == ():
            base = None
        else:
            raise Unsupported("assignment of a free array through a mask")
        drop = {d for d, _ in cond_rest}

        def fn(idx):
            c = to_bool(m.fn(idx[:mn]))
            for d, t in cond_rest:
                c = z3.And(c, idx[d] == t)
            old = x.fn(idx)
            if base is None:
                new = v.fn(())
            else:
                bi = tuple(i for d, i in enumerate(idx) if d not in drop)
                new = base.fn(bi[len(bi) - len(base.sh):])
            return ite(c, cast(comb(old, new), x.dt), old)
        return Arr(x.sh, fn, x.dt, x.kind)
    conds = []      # per source dim: ('eq', term) | ('range', start, len, step, outpos)
    out_shape = []
    used = 0
    items = list(key)
    for k in items:
        if k is None:
            raise Unsupported("newaxis in assignment")
        d = x.sh[used]
        if isinstance(k, slice):
            st, ln, step = slice_params(k, d)
            conds.append(("range", st, ln, step, len(out_shape)))
            out_shape.append(ln)
        else:
            kk = lift(k)
            if kk.sh != ():
                raise Unsupported("scatter with an index array")
            conds.append(("eq", clamp_index(tz(kk), d)))
        used += 1
    while used < nd:
        conds.append(("range", z3.IntVal(0), x.sh[used], 1, len(out_shape)))
        out_shape.append(x.sh[used])
        used += 1
    V = broadcast_to(v, tuple(out_shape))

    def fn(idx):
        c = []
        vi = [None] * len(out_shape)
        for i, cd in zip(idx, conds):
            if cd[0] == "eq":
                c.append(i == cd[1])
            else:
                _, st, ln, step, op = cd
                if step != 1:
                    raise Unsupported("strided assignment")
                if not _isnum(st, 0):
                    c.append(i >= st)
                if not (_isnum(st, 0) and _full(cd, x, conds)):
                    c.append(i < dz(st) + dz(ln))
                vi[op] = z3.simplify(i - st)
        old = x.fn(idx)
        new = V.fn(tuple(vi))
        return ite(z3.And(*c) if c else z3.BoolVal(True), cast(comb(old, new), x.dt), old)
    return Arr(x.sh, fn, x.dt, x.kind)


def _full(cd, x, conds):
    p = [k for k, c in enumerate(conds) if c is cd][0]
    return dz(cd[2]).eq(dz(x.sh[p]))


# ------------------------------------------------------------------ constructors
def arange(*a, dtype=None, **kw):
    a = [lift(v) for v in a]
    if any(v.dt == "f" for v in a):
        raise Unsupported("arange of floats")
    if len(a) == 1:
        n = dim(a[0])
        if is_sym_dim(n) and branch(n < 0):
            n = 0
        return Arr((n,), lambda i: i[0], "i") if dtype_code(dtype) != "f" else Arr((n,), lambda i: to_real(i[0]), "f")
    st, en = tz(a[0]), tz(a[1])
    sp = 1
    if len(a) == 3:
        sp = tz(a[2])
        sp = sp.as_long() if z3.is_int_value(sp) else sp
    if not (isinstance(sp, int) and sp == 1):
        if not (branch(sp > 0) if not isinstance(sp, int) else sp > 0):
            raise Unsupported("arange with a step that is not positive")
        if branch(en <= st):
            return Arr((0,), lambda i: z3.IntVal(0), "i")
        return Arr((dim(z3.simplify((en - st - 1) / sp + 1)),), lambda i: z3.simplify(st + sp * i[0]), "i")
    n = dim(en - st)
    if is_sym_dim(n):
        if branch(n < 0):
            n = 0
    elif n < 0:
        n = 0
    return Arr((n,), lambda i: z3.simplify(st + i[0]), "i")


def full(shape, v, dtype=None):
    v = lift(v)
    if isinstance(shape, (int, Arr)):
        shape = (shape,)
    shape = tuple(dim(d) for d in shape)
    dt = dtype_code(dtype) or v.dt
    if v.sh == ():
        t = cast(tz(v), dt)
        return Arr(shape, lambda i: t, dt)
    b = broadcast_to(v, shape)
    return Arr(shape, lambda i: cast(b.fn(i), dt), dt)


def linspace(a, b, n, **kw):
    n_ = dim(lift(n))
    a, b = to_real(tz(lift(a))), to_real(tz(lift(b)))
    nz = to_real(dz(n_))
    two = z3.simplify(dz(n_) >= 2)
    several = any(p.eq(two) or z3.simplify(p).eq(two) for p in C.pc)

    def fn(i):
        if isinstance(n_, int):
            if n_ == 1:
                return a
            return a + (b - a) * to_real(i[0]) / (nz - 1)
        if several:
            return a + (b - a) * to_real(i[0]) / (nz - 1)
        return z3.If(dz(n_) == 1, a, a + (b - a) * to_real(i[0]) / (nz - 1))
    return Arr((n_,), fn, "f")


# ------------------------------------------------------------------ products
def matmul(a, b):
    a, b = lift(a), lift(b)
    if not a.sh or not b.sh:
        raise ModelledTypeError("matmul: scalar operand")
    a1, b1 = len(a.sh) == 1, len(b.sh) == 1
    if a1:
        a = expand_dims(a, 0)
    if b1:
        b = expand_dims(b, -1)
    if not same_dim(a.sh[-1], b.sh[-2]):
        raise ModelledTypeError("matmul: contracting dimensions differ")
    batch = broadcast_shapes(a.sh[:-2], b.sh[:-2]) if (len(a.sh) > 2 or len(b.sh) > 2) else ()
    k = a.sh[-1]
    A = _bc(a, batch + a.sh[-2:])
    B = _bc(b, batch + b.sh[-2:])
    nb = len(batch)

    def fn(idx):
        return sum_term(k, lambda j: _mul(A.fn(idx[:nb] + (idx[nb], j)), B.fn(idx[:nb] + (j, idx[nb + 1]))))
    r = Arr(batch + (a.sh[-2], b.sh[-1]), fn, None)
    r.dt = _probe_dt(r)
    if a1:
        r = squeeze(r, -2)
    if b1:
        r = squeeze(r, -1)
    return r


def dot(a, b, **kw):
    a, b = lift(a), lift(b)
    if not a.sh or not b.sh:
        return a * b
    if len(b.sh) == 1 or len(a.sh) <= 2 and len(b.sh) <= 2:
        return matmul(a, b)
    raise Unsupported("dot of high-rank arrays")


def einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        raise Unsupported("einsum without a subscripts string")
    spec = spec.replace(" ", "")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    if "->" not in spec:
        cnt = {}
        for s in ins:
            for ch in s:
                cnt[ch] = cnt.get(ch, 0) + 1
        out = "".join(sorted(c for c in cnt if cnt[c] == 1))
    ops = [lift(o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        if "." in s:
            raise Unsupported("einsum ellipsis")
        if len(s) != len(o.sh):
            raise ModelledValueError("einsum subscripts do not match operand")
        for ch, d in zip(s, o.sh):
            if ch in dims:
                if not same_dim(dims[ch], d):
                    raise ModelledValueError("einsum dimension mismatch")
            else:
                dims[ch] = d
    summed = [ch for ch in dims if ch not in out]

    def fn(idx):
        env = dict(zip(out, idx))

        def go(k):
            if k == len(summed):
                r = None
                for s, o in zip(ins, ops):
                    t = o.fn(tuple(env[ch] for ch in s))
                    r = t if r is None else _mul(r, t)
                return r
            ch = summed[k]

            def body(i):
                old = env.get(ch)
                env[ch] = i
                t = go(k + 1)
                env[ch] = old
                return t
            return sum_term(dims[ch], body)
        return go(0)
    r = Arr(tuple(dims[ch] for ch in out), fn, None)
    r.dt = _probe_dt(r)
    return r


# ------------------------------------------------------------------ generic evaluation at an index
def tree_subst(v, pairs):
    """Substitute index terms in a python value built of arrays/containers."""
    if isinstance(v, Arr):
        def f(idx, v=v):
            # evaluate at placeholder indices, substitute, then put the real indices
            ph = []
            for k in range(len(v.sh)):
                n = f"sub!{C.depth}!{k}"
                C.index_names.add(n)
                ph.append(z3.Int(n))
            C.depth += 1
            try:
                t = v.fn(tuple(ph))
            finally:
                C.depth -= 1
            return z3.substitute(t, *(list(pairs) + [(p, i) for p, i in zip(ph, idx)]))
        shp = tuple(dim(z3.substitute(d, *pairs)) if is_sym_dim(d) else d for d in v.sh)
        mask = None
        if v.mask is not None:
            raise Unsupported("generic evaluation of a masked selection")
        tag = v.tag
        return Arr(shp, f, v.dt, v.kind)
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return type(v)(*[tree_subst(e, pairs) for e in v])
    if isinstance(v, (tuple, list)):
        return type(v)(tree_subst(e, pairs) for e in v)
    if isinstance(v, dict):
        return {k: tree_subst(e, pairs) for k, e in v.items()}
    if v is None or isinstance(v, (str, bool, int, float)):
        return v
    if z3.is_expr(v):
        return z3.substitute(v, *pairs)
    if hasattr(v, "__vf_subst__"):
        return v.__vf_subst__(pairs)
    raise Unsupported(f"generic evaluation yields {type(v).__name__}")


class generic_scope:
    """Inside, no forking is allowed (we evaluate for an arbitrary index)."""

    def __enter__(self):
        C.generic += 1

    def __exit__(self, *a):
        C.generic -= 1


def generic_eval(base, f):
    """Evaluate f(i) for an arbitrary index; returns (index const, value)."""
    i = index_const(base)
    with generic_scope():
        return i, f(scalar_index(i))


def scalar_index(i):
    return Arr((), lambda _: i, "i")


# ------------------------------------------------------------------ symbolic sequences
class SymSeq:
    """A python sequence of symbolic length n; elem(k) builds the k-th element."""

    def __init__(self, n, elem, name="seq"):
        self.n = dim(n) if not isinstance(n, int) else n
        self.elem = elem
        self.name = name

    def __vf_len__(self):
        return sdim(self.n)

    def __vf_subst__(self, pairs):
        n = dim(z3.substitute(dz(self.n), *pairs)) if is_sym_dim(self.n) else self.n
        return SymSeq(n, lambda k: tree_subst(self.elem(k), pairs), self.name)

    def __getitem__(self, k):
        if isinstance(k, slice):
            st, ln, step = slice_params(k, self.n)
            if step not in (1, -1):
                raise Unsupported("strided slice of a symbolic sequence")
            return SymSeq(ln, lambda j: self.elem(z3.simplify(st + step * tz(j))), self.name)
        t = tz(k)
        if z3.is_int_value(t) and t.as_long() < 0:
            t = z3.simplify(dz(self.n) + t.as_long())
        else:
            s = z3.simplify(t < 0)
            if not z3.is_false(s):
                if not (z3.is_const(t) and t.decl().name() in C.index_names):
                    t = z3.If(t < 0, t + dz(self.n), t)
        if C.generic == 0 and branch(z3.Or(t < 0, t >= dz(self.n))):
            raise ModelledIndexError("list index out of range")
        return self.elem(t)

    def __iter__(self):
        raise Unsupported("CPython iteration over a symbolic sequence (uninstrumented loop)")

    def __bool__(self):
        if isinstance(self.n, int):
            return self.n > 0
        return branch(self.n > 0)

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported("real len() of a symbolic sequence")

    def __add__(self, o):
        if isinstance(o, list):
            o = SymSeq(len(o), lambda k: select_py(k, o))
        if not isinstance(o, SymSeq):
            return NotImplemented
        n1 = dz(self.n)
        return SymSeq(z3.simplify(n1 + dz(o.n)), lambda k: merge_py(k < n1, lambda: self.elem(k), lambda: o.elem(z3.simplify(k - n1))))

    def __radd__(self, o):
        if isinstance(o, list):
            if not o:
                return self
            return SymSeq(len(o), lambda k: select_py(k, o)) + self
        return NotImplemented

    def append(self, v):
        old_n, old = dz(self.n), self.elem
        self.n = dim(old_n + 1)
        self.elem = lambda k: merge_py(k < old_n, lambda: old(k), lambda: v)

    def map(self, f):
        def elem(k):
            with generic_scope():
                return f(self.elem(k))
        return SymSeq(self.n, elem, self.name)

    def stacked(self, axis=0):
        k = index_const("stk")
        with generic_scope():
            e = lift(self.elem(k))
        for d in e.sh:
            if is_sym_dim(d) and occurs(k, d):
                raise ModelledValueError("stack of arrays with different shapes")
        cache = {}

        def fn(idx):
            kk = idx[0]
            r = tree_subst(e, [(k, kk)])
            return r.fn(idx[1:])
        a = Arr((self.n,) + e.sh, fn, e.dt)
        return a if axis == 0 else moveaxis(a, 0, axis)

    def __vf_lift__(self):
        return self.stacked(0)

    def concatenated(self, axis=0):
        k = index_const("cat")
        with generic_scope():
            e = lift(self.elem(k))
        if len(e.sh) == 0:
            raise ModelledValueError("zero-dimensional arrays cannot be concatenated")
        ax = axis % len(e.sh)
        d = e.sh[ax]
        if not (is_sym_dim(d) and occurs(k, d)):
            # equal chunks: plain reshape semantics
            st = self.stacked(0)
            n = dim(dz(self.n) * dz(d))

            def fn(idx):
                q, r = divmod_term(idx[ax], dz(d))
                return st.fn((q,) + idx[:ax] + (r,) + idx[ax + 1:])
            return Arr(e.sh[:ax] + (n,) + e.sh[ax + 1:], fn, e.dt, tag=("seqcat", self, ax))
        nm = vecop("catlen", [], [((self.n,), lambda i: z3.substitute(dz(d), (k, i[0])))], IntS)

        def fn(idx):
            i = [idx[ax]]
            sizes = ((self.n,), lambda q: z3.substitute(dz(d), (k, q[0])))
            kk = vecop("catchunk", i, [sizes], IntS)
            off = vecop("catoff", i, [sizes], IntS)
            return tree_subst(e, [(k, kk)]).fn(idx[:ax] + (off,) + idx[ax + 1:])
        return Arr(e.sh[:ax] + (nm,) + e.sh[ax + 1:], fn, e.dt, tag=("seqcat", self, ax))


class SymRepeat:
    @staticmethod
    def make(lst, n):
        lst = list(lst)
        if not lst:
            return []
        if len(lst) == 1:
            v = lst[0]
            nn = dim(n)
            return SymSeq(nn, lambda k: v)
        raise Unsupported("symbolic repetition of a multi-element list")


def select_py(k, lst):
    k = tz(k)
    if z3.is_int_value(k):
        return lst[k.as_long()]
    if len(lst) == 1:
        return lst[0]
    r = lst[-1]
    for j in range(len(lst) - 2, -1, -1):
        r = merge_py(k == j, lambda j=j: lst[j], lambda r=r: r)
    return r


def merge_py(c, fa, fb):
    c = z3.simplify(c)
    if z3.is_true(c):
        return fa()
    if z3.is_false(c):
        return fb()
    a, b = fa(), fb()
    return merge_val(c, a, b)


def merge_val(c, a, b):
    if a is b:
        return a
    if isinstance(a, (Arr, int, float, bool)) and isinstance(b, (Arr, int, float, bool)):
        A, B = lift(a), lift(b)
        if len(A.sh) != len(B.sh):
            raise Unsupported("merge of arrays of different rank")
        shp = tuple(x if dz(x).eq(dz(y)) else dim(z3.If(c, dz(x), dz(y))) for x, y in zip(A.sh, B.sh))
        dt = common_dt([A.dt, B.dt])
        return Arr(shp, lambda i: ite(c, cast(A.fn(i), dt), cast(B.fn(i), dt)), dt)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [merge_val(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
        return {k: merge_val(c, a[k], b[k]) for k in a}
    if a == b:
        return a
    raise Unsupported("merge of different python values")


METHODS = {}
