"""Assumed contracts on third-party dependencies (jax, numpy, flax, optax, scipy): the shim.

Every function here states the mathematical meaning this verifier assumes for the corresponding
library function; `conformance.py` compares them with the real libraries on concrete inputs.
Anything not listed is a `Stub`: importable, subclassable, usable as a decorator, but calling it
during verification raises `Unsupported`.
"""
from __future__ import annotations
import builtins
import dataclasses
import functools
import math
import sys
import types
import typing
import z3
from . import core
from .core import (Arr, C, Unsupported, SymSeq, lift, dim, dz, tz, unop, binop, index_const, generic_scope, tree_subst,
                   to_real, to_int, to_bool, ModelledValueError, ModelledTypeError, RealS, IntS, BoolS, KeySort, scalar)


# ------------------------------------------------------------------ stubs
class StubMeta(type):
    def __instancecheck__(cls, o):
        return type.__instancecheck__(cls, o)


class StubBase:
    """Base class given to classes deriving from an uninterpreted library class."""

    def __init_subclass__(cls, **kw):
        pass


class Stub:
    def __init__(self, name):
        object.__setattr__(self, "_vf_name", name)

    def __getattr__(self, n):
        if n.startswith("__") and n not in ("__version__",):
            raise AttributeError(n)
        s = Stub(self._vf_name + "." + n)
        object.__setattr__(self, n, s)
        return s

    def __call__(self, *a, **k):
        if C.active_verification:
            raise Unsupported(f"call of uninterpreted library function {self._vf_name}")
        if len(a) == 1 and not k and (isinstance(a[0], (types.FunctionType, type))):
            return a[0]
        return Stub(self._vf_name + "()")

    def __mro_entries__(self, bases):
        return (StubBase,)

    def __getitem__(self, k):
        return self

    def __or__(self, o):
        return self

    def __ror__(self, o):
        return self

    def __iter__(self):
        raise Unsupported(f"iteration over {self._vf_name}")

    def __repr__(self):
        return f"<stub {self._vf_name}>"

    def __instancecheck__(self, o):
        return False

    def _bad(self, *a):
        if C.active_verification:
            raise Unsupported(f"use of uninterpreted library value {self._vf_name}")
        return Stub(self._vf_name + "?")
    __add__ = __radd__ = __sub__ = __mul__ = __rmul__ = __truediv__ = __neg__ = __pow__ = _bad
    __bool__ = lambda self: True


C.active_verification = False


class StubModule(types.ModuleType):
    def __init__(self, name):
        super().__init__(name)
        self.__path__ = []
        self.__version__ = "0"

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        full = self.__name__ + "." + n
        if full in sys.modules:
            return sys.modules[full]
        s = Stub(full)
        self.__dict__[n] = s
        return s


MODULES = {}


def module(name):
    if name not in MODULES:
        MODULES[name] = StubModule(name)
    return MODULES[name]


def export(*names, **kw):
    """Register a function in one or more shim modules: export('jax.numpy.sum', 'numpy.sum')(f)."""
    def deco(f):
        for n in names:
            m, _, a = n.rpartition(".")
            module(m).__dict__[a] = f
        return f
    return deco


def with_kind(f, kind):
    """NumPy functions return NumPy (mutable) arrays, jax.numpy functions return JAX (immutable) ones."""
    @functools.wraps(f)
    def g(*a, **k):
        r = f(*a, **k)
        if isinstance(r, Arr) and r.sh != () and r.kind != kind:
            r = r.copy_()
            r.kind = kind
        return r
    return g


def both(*names):
    def deco(f):
        for m, kind in (("jax.numpy", "jnp"), ("numpy", "np")):
            g = with_kind(f, kind) if isinstance(f, types.FunctionType) else f
            for n in names:
                module(m).__dict__[n] = g
        return f
    return deco


# ------------------------------------------------------------------ array types
class _ArrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, Arr) and cls._test(o)

    def __call__(cls, *a, **k):
        raise Unsupported("direct array construction")


class JaxArray(metaclass=_ArrMeta):
    _test = staticmethod(lambda o: o.kind == "jnp")


class NpArray(metaclass=_ArrMeta):
    _test = staticmethod(lambda o: o.kind == "np")


export("jax.Array", "jax.numpy.ndarray")(JaxArray)
export("numpy.ndarray")(NpArray)


class DT:
    def __init__(self, name):
        self.__name__ = name

    def __call__(self, x):
        return asarray(x, dtype=self)

    def __eq__(self, o):
        if isinstance(o, DT):
            return core.dtype_code(self) == core.dtype_code(o)
        if isinstance(o, core.DType):
            return core.dtype_code(self) == o.dt
        if o is float or o is int or o is bool:
            return core.dtype_code(self) == core.dtype_code(o)
        return False

    def __hash__(self):
        return hash(self.__name__)

    def __or__(self, o):
        return self
    __ror__ = __or__


for _n in ("float32", "float64", "float16", "bfloat16", "int32", "int64", "int8", "uint8", "uint32", "bool_", "floating", "double"):
    both(_n)(DT(_n))
both("int_")(DT("int32"))
both("float_")(DT("float32"))
both("pi")(z3.Real("PI!"))
PI = scalar(z3.Real("PI!"), "py")
both("pi")(PI)
both("inf")(float("inf"))
both("nan")(float("nan"))
both("newaxis")(None)


def elementwise(f):
    def g(x, *a, **k):
        if a or k:
            k.pop("dtype", None)
            if a or k:
                raise Unsupported("extra arguments to an elementwise function")
        return unop(x, f)
    return g


for _n, _f in {
    "exp": core.fexp, "log": core.flog, "sqrt": core.fsqrt, "tanh": core.fun1("tanh"), "cos": core.fun1("cos"),
    "sin": core.fun1("sin"), "abs": core._abs, "absolute": core._abs, "square": lambda t: t * t,
    "floor": lambda t: z3.ToReal(z3.ToInt(to_real(t))), "ceil": lambda t: -z3.ToReal(z3.ToInt(-to_real(t))),
    "negative": lambda t: -t, "logical_not": lambda t: z3.Not(to_bool(t)),
    "sign": lambda t: z3.If(to_real(t) > 0, z3.RealVal(1), z3.If(to_real(t) < 0, z3.RealVal(-1), z3.RealVal(0))),
    "reciprocal": lambda t: z3.RealVal(1) / to_real(t),
    "log1p": lambda t: core.flog(1 + to_real(t)), "expm1": lambda t: core.fexp(t) - 1,
    "isnan": lambda t: core.to_real(t) == core.NAN if False else z3.BoolVal(False),
    "isfinite": lambda t: z3.BoolVal(True), "isinf": lambda t: z3.BoolVal(False),
    "conj": lambda t: t, "real": lambda t: t,
}.items():
    both(_n)(elementwise(_f))


@both("nan_to_num")
def nan_to_num(x, *a, **k):
    """0/0 becomes 0, a/0 a large finite value; anything else is unchanged (reals have no other NaN)."""
    big = z3.Real("BIG!")

    def f(t):
        t = z3.simplify(to_real(t))
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1)):
            a, b = t.arg(0), t.arg(1)
            if has_division(a) or has_division(b):
                raise Unsupported("nan_to_num of nested divisions")
            return z3.If(b == 0, z3.If(a == 0, z3.RealVal(0), z3.If(a > 0, big, -big)), t)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(t.arg(0), f(t.arg(1)), f(t.arg(2)))
        if has_division(t):
            raise Unsupported("nan_to_num of a division")
        return t
    return unop(x, f)


def has_division(t):
    from .solve import subterms
    return builtins.any(z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(e.arg(1)) for e in subterms([t]))


def _minmax(op):
    def f(a, b):
        def g(x, y):
            x, y = core._num2(x, y)
            return z3.If(x >= y, x, y) if op == "max" else z3.If(x <= y, x, y)
        return binop(a, b, g)
    return f


maximum = both("maximum")(_minmax("max"))
minimum = both("minimum")(_minmax("min"))


@both("clip")
def clip(x, a_min=None, a_max=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    x = lift(x)
    if lo is not None:
        x = maximum(x, lo)
    if hi is not None:
        x = minimum(x, hi)
    return x


for _n, _op in {"add": core._add, "subtract": core._sub, "multiply": core._mul, "divide": core._div, "true_divide": core._div,
                "power": core._pow, "mod": core._mod, "remainder": core._mod, "floor_divide": core._floordiv,
                "logical_and": lambda a, b: z3.And(to_bool(a), to_bool(b)),
                "logical_or": lambda a, b: z3.Or(to_bool(a), to_bool(b)),
                "logical_xor": lambda a, b: z3.Xor(to_bool(a), to_bool(b)),
                "less": lambda a, b: core._cmp(a, b, "lt"), "less_equal": lambda a, b: core._cmp(a, b, "le"),
                "greater": lambda a, b: core._cmp(a, b, "gt"), "greater_equal": lambda a, b: core._cmp(a, b, "ge"),
                "equal": lambda a, b: core._cmp(a, b, "eq"), "not_equal": lambda a, b: core._cmp(a, b, "ne")}.items():
    both(_n)(functools.partial(lambda op, a, b: binop(a, b, op), _op))

both("sum")(core.asum)
both("mean", "average0")(core.amean)
both("var")(core.avar)
both("std")(core.astd)
both("max", "amax")(core.amax)
both("min", "amin")(core.amin)
both("any")(core.aany)
both("all", "alltrue")(core.aall)
both("argmax")(core.argmax)
both("argmin")(core.argmin)
both("cumsum")(core.cumsum)
both("where")(core.where_)
both("nonzero")(core.nonzero)
both("reshape")(lambda x, shape, **k: core.reshape(x, shape))
both("ravel")(core.ravel)
both("transpose")(core.transpose)
both("moveaxis")(lambda x, s, d: core.moveaxis(lift(x), s, d))
both("swapaxes")(core.swapaxes)
both("expand_dims")(core.expand_dims)
both("squeeze")(core.squeeze)
both("concatenate")(core.concatenate)
both("stack")(lambda xs, axis=0, **k: core.stack(xs, axis))
both("arange")(core.arange)
both("linspace")(core.linspace)
both("matmul")(core.matmul)
both("dot")(core.dot)
both("vdot")(lambda a, b: core.dot(core.ravel(a), core.ravel(b)))
both("inner")(core.dot)
both("einsum")(core.einsum)
both("broadcast_to")(core.broadcast_to)


@both("average")
def average(x, axis=None, weights=None, **k):
    if weights is None:
        return core.amean(x, axis)
    return core.asum(lift(x) * weights, axis) / core.asum(core.broadcast_to(weights, lift(x).sh), axis)


@both("outer")
def outer(a, b):
    return core.expand_dims(core.ravel(a), 1) * core.expand_dims(core.ravel(b), 0)


@both("count_nonzero")
def count_nonzero(x, axis=None, **k):
    x = lift(x)
    return core.asum(x if x.dt == "b" else unop(x, to_bool), axis)


@both("zeros", "empty")
def zeros(shape, dtype=None, **k):
    if dtype is object:
        from .objs import ObjArr
        return ObjArr(shape[0] if isinstance(shape, tuple) else shape, lambda i: 0)
    return core.full(shape, 0 if core.dtype_code(dtype) == "i" else (False if core.dtype_code(dtype) == "b" else 0.0), dtype)


@both("ones")
def ones(shape, dtype=None, **k):
    return core.full(shape, 1 if core.dtype_code(dtype) == "i" else (True if core.dtype_code(dtype) == "b" else 1.0), dtype)


@both("full")
def full(shape, v, dtype=None, **k):
    return core.full(shape, v, dtype)


@both("zeros_like")
def zeros_like(x, dtype=None, **k):
    x = lift(x)
    return core.full(x.sh, cast0(0, core.dtype_code(dtype) or x.dt))


@both("ones_like")
def ones_like(x, dtype=None, **k):
    x = lift(x)
    return core.full(x.sh, cast0(1, core.dtype_code(dtype) or x.dt))


@both("full_like")
def full_like(x, v, **k):
    x = lift(x)
    return core.full(x.sh, v)


def cast0(v, dt):
    return {"f": float(v), "i": int(v), "b": bool(v)}[dt]


@both("eye", "identity")
def eye(n, m=None, dtype=None, **k):
    n = dim(lift(n))
    m = n if m is None else dim(lift(m))
    return Arr((n, m), lambda i: z3.If(i[0] == i[1], z3.RealVal(1), z3.RealVal(0)), "f")


@both("diag", "diagonal")
def diag(x, k=0):
    x = lift(x)
    if k != 0:
        raise Unsupported("diag offset")
    if len(x.sh) == 2:
        if not core.same_dim(*x.sh):
            raise Unsupported("diagonal of a non-square array")
        return Arr((x.sh[0],), lambda i: x.fn((i[0], i[0])), x.dt)
    z = z3.RealVal(0) if x.dt == "f" else z3.IntVal(0)
    return Arr((x.sh[0], x.sh[0]), lambda i: z3.If(i[0] == i[1], x.fn((i[0],)), z), x.dt)


def asarray_(kind):
    def asarray(x, dtype=None, **k):
        if isinstance(x, SymSeq):
            x = x.stacked(0)
        x = lift(x)
        dt = core.dtype_code(dtype) or x.dt
        if dt != x.dt:
            return Arr(x.sh, lambda i: core.cast(x.fn(i), dt), dt, kind)
        r = x.copy_()
        r.kind = kind
        return r
    return asarray


asarray = asarray_("jnp")
for _n in ("array", "asarray", "copy"):
    export("jax.numpy." + _n)(asarray_("jnp"))
    export("numpy." + _n)(asarray_("np"))
both("shape")(lambda x: tuple(core.sdim(d) for d in lift(x).sh))
both("ndim")(lambda x: len(lift(x).sh))
both("size")(lambda x: lift(x).size)
both("isscalar")(lambda x: isinstance(x, (int, float)) or (isinstance(x, Arr) and x.kind == "py" and x.sh == ()))


@both("atleast_1d")
def atleast_1d(x):
    x = lift(x)
    return x if x.sh else core.expand_dims(x, 0)


@both("atleast_2d")
def atleast_2d(x):
    x = lift(x)
    while len(x.sh) < 2:
        x = core.expand_dims(x, 0)
    return x


@both("vstack")
def vstack(xs):
    if isinstance(xs, SymSeq):
        raise Unsupported("vstack of a symbolic sequence")
    return core.concatenate([atleast_2d(x) for x in xs], 0)


@both("hstack")
def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return core.concatenate(xs, 0 if len(xs[0].sh) == 1 else 1)


@both("split", "array_split0")
def split(x, n, axis=0):
    x = lift(x)
    ax = core.norm_axes(axis, len(x.sh))[0]
    d = x.sh[ax]
    if isinstance(n, (list, tuple)) and all(isinstance(v, (int, Arr)) for v in n):
        pts = [0] + list(n) + [None]
        return [core.getitem(x, (slice(None),) * ax + (slice(a, b),)) for a, b in zip(pts, pts[1:])]
    if isinstance(n, Arr) and n.sh == ():
        n = dim(n)
    if isinstance(n, Arr) or isinstance(n, SymSeq):
        # split at an array of indices
        pts = n if isinstance(n, Arr) else n.stacked(0)
        m = pts.sh[0]
        f = lambda k: z3.If(k == 0, z3.IntVal(0), pts.fn((z3.simplify(k - 1),)))
        g = lambda k: z3.If(k == dz(m), dz(d), pts.fn((k,)))

        def elem(k):
            a, b = f(k), g(k)
            a = z3.If(a > dz(d), dz(d), a)
            b = z3.If(b > dz(d), dz(d), b)
            b = z3.If(b < a, a, b)
            ln = dim(b - a)
            return Arr(x.sh[:ax] + (ln,) + x.sh[ax + 1:],
                       lambda i: x.fn(i[:ax] + (z3.simplify(a + i[ax]),) + i[ax + 1:]), x.dt, x.kind)
        return SymSeq(dim(dz(m) + 1), elem)
    n = dim(n)
    if not core.branch(dz(d) % dz(n) == 0) if not (isinstance(d, int) and isinstance(n, int)) else d % n != 0:
        raise ModelledValueError("array split does not result in an equal division")
    part = d // n if isinstance(d, int) and isinstance(n, int) else dim(dz(d) / dz(n))

    def elem(k):
        return Arr(x.sh[:ax] + (part,) + x.sh[ax + 1:],
                   lambda i: x.fn(i[:ax] + (z3.simplify(dz(k) * dz(part) + i[ax]),) + i[ax + 1:]), x.dt, x.kind)
    if isinstance(n, int):
        return [elem(z3.IntVal(k)) for k in range(n)]
    return SymSeq(n, elem)


both("vsplit")(lambda x, n: split(x, n, 0))


@both("tile")
def tile(x, reps):
    x = lift(x)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    reps = [dim(lift(r)) for r in reps]
    while len(reps) < len(x.sh):
        reps = [1] + reps
    while len(x.sh) < len(reps):
        x = core.expand_dims(x, 0)
    shape = tuple(d * r if isinstance(d, int) and isinstance(r, int) else dim(dz(d) * dz(r)) for d, r in zip(x.sh, reps))

    def fn(idx):
        out = []
        for i, d, r in zip(idx, x.sh, reps):
            if isinstance(r, int) and r == 1:
                out.append(i)
            elif isinstance(d, int) and d == 1:
                out.append(z3.IntVal(0))
            else:
                out.append(core.divmod_term(i, dz(d))[1])
        return x.fn(tuple(out))
    return Arr(shape, fn, x.dt, x.kind)


@both("repeat")
def repeat(x, n, axis=None, **k):
    x = lift(x)
    if axis is None:
        x, axis = core.ravel(x), 0
    ax = core.norm_axes(axis, len(x.sh))[0]
    n = dim(lift(n))
    d = x.sh[ax]
    shape = x.sh[:ax] + (dim(dz(d) * dz(n)),) + x.sh[ax + 1:]
    return Arr(shape, lambda i: x.fn(i[:ax] + (core.divmod_term(i[ax], dz(n))[0],) + i[ax + 1:]), x.dt, x.kind)


@both("flip")
def flip(x, axis=None):
    x = lift(x)
    axes = core.norm_axes(axis, len(x.sh))
    return Arr(x.sh, lambda i: x.fn(tuple(z3.simplify(dz(x.sh[k]) - 1 - e) if k in axes else e for k, e in enumerate(i))), x.dt)


@both("take")
def take(x, idx, axis=None, **k):
    x = lift(x)
    if axis is None:
        x, axis = core.ravel(x), 0
    ax = core.norm_axes(axis, len(x.sh))[0]
    return core.getitem(x, (slice(None),) * ax + (lift(idx),))


@both("take_along_axis")
def take_along_axis(x, idx, axis):
    x, idx = lift(x), lift(idx)
    ax = core.norm_axes(axis, len(x.sh))[0]
    shape = tuple(idx.sh[k] for k in range(len(x.sh)))
    return Arr(shape, lambda i: x.fn(i[:ax] + (core.clamp_index(idx.fn(i), x.sh[ax]),) + i[ax + 1:]), x.dt)


@both("unravel_index")
def unravel_index(i, shape):
    i = lift(i)
    shape = [dim(lift(d)) for d in shape]
    if i.sh != ():
        raise Unsupported("unravel_index of an array")
    out = core.unflatten_index(tz(i), shape)
    return tuple(scalar(o) for o in out)


@both("sort")
def sort(x, axis=-1, **k):
    return core.rowop("sort", x, axis)


@both("argsort")
def argsort(x, axis=-1, **k):
    k.pop("kind", None)
    k.pop("stable", None)
    if k:
        raise Unsupported(f"argsort({list(k)})")
    return core.rowop("argsort", x, axis, sort=IntS)


@both("quantile")
def quantile(x, q, axis=None, method="linear", keepdims=False, **k):
    if k:
        raise Unsupported(f"quantile({list(k)})")
    x, q = lift(x), lift(q)
    if x.mask is not None:
        raise Unsupported("quantile of a masked selection")
    if isinstance(axis, (tuple, list)) and len(axis) == 1:
        axis = axis[0]
    op = "quantile" if method == "linear" else f"quantile_{method}"

    def at(qt):
        return core.reduce_(core.unop(x, to_real), axis, lambda shape, fn: core.vecop(op, [to_real(qt)], [(shape, fn)], RealS), keepdims)
    if q.sh == ():
        return at(tz(q))
    if len(q.sh) == 1:
        j = index_const("qj")
        r = at(q.fn((j,)))
        return Arr((q.sh[0],) + r.sh, lambda i: z3.substitute(r.fn(i[1:]), (j, i[0])), "f")
    raise Unsupported("quantile of matrix q")


both("percentile")(lambda x, q, **k: quantile(x, lift(q) / 100.0, **k))
both("median")(lambda x, axis=None, **k: quantile(x, 0.5, axis))


@both("unique")
def unique(x, **k):
    x = lift(x)
    if k or not x.sh:
        raise Unsupported("unique with options")
    from .objs import unique_seq
    return unique_seq(x)


@both("allclose", "array_equal0")
def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = lift(a), lift(b)
    return core.aall(binop(unop(a - b, core._abs), unop(b, core._abs) * rtol + atol, lambda x, y: core._cmp(x, y, "le")))


@both("array_equal")
def array_equal(a, b):
    return core.aall(lift(a) == lift(b))


@both("roll")
def roll(x, shift, axis=None):
    x = lift(x)
    if axis is None:
        if len(x.sh) != 1:
            raise Unsupported("roll without axis")
        axis = 0
    ax = core.norm_axes(axis, len(x.sh))[0]
    s = tz(lift(shift))
    n = dz(x.sh[ax])

    def fn(i):
        j = i[ax] - s
        return x.fn(i[:ax] + (z3.If(j < 0, j + n, z3.If(j >= n, j - n, j)),) + i[ax + 1:])
    return Arr(x.sh, fn, x.dt)


class _Grid:
    pass


# methods on arrays
M = core.METHODS
for _n, _f in {"sum": core.asum, "mean": core.amean, "var": core.avar, "std": core.astd, "max": core.amax, "min": core.amin,
               "any": core.aany, "all": core.aall, "argmax": core.argmax, "argmin": core.argmin, "cumsum": core.cumsum,
               "squeeze": core.squeeze, "ravel": core.ravel, "flatten": core.ravel, "clip": clip, "dot": core.dot,
               "take": take, "repeat": repeat, "argsort": argsort, "swapaxes": core.swapaxes, "round": None}.items():
    if _f is not None:
        M[_n] = _f
M["reshape"] = lambda x, *s, **k: core.reshape(x, s[0] if len(s) == 1 else tuple(s))
M["transpose"] = lambda x, *a: core.transpose(x, a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else (a or None))
M["astype"] = lambda x, d, **k: asarray(x, dtype=d)
M["copy"] = lambda x: x.copy_()
M["item"] = lambda x: scalar(x.fn(tuple(z3.IntVal(0) for _ in x.sh)), "py")


def _tolist(x):
    if not x.sh:
        r = x.copy_()
        r.kind = "py"
        return r
    if isinstance(x.sh[0], int):
        return [_tolist(core.getitem(x, j)) for j in range(x.sh[0])]
    return SymSeq(x.sh[0], lambda k: _tolist(core.getitem(x, scalar(tz(k)))))


M["tolist"] = _tolist
M["block_until_ready"] = lambda x: x
M["fill"] = None


# ------------------------------------------------------------------ pytrees
class FrozenDict(dict):
    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        for kk, v in list(dict.items(self)):
            if isinstance(v, dict) and not isinstance(v, FrozenDict):
                dict.__setitem__(self, kk, FrozenDict(v))

    def _ro(self, *a, **k):
        raise ValueError("FrozenDict is immutable.")
    __setitem__ = __delitem__ = update = setdefault = clear = _ro

    def pop(self, k):
        d = dict(self)
        v = d.pop(k)
        return FrozenDict(d), v

    def copy(self, add_or_replace={}):
        return FrozenDict({**self, **unfreeze(add_or_replace)})

    def unfreeze(self):
        return unfreeze(self)

    def __hash__(self):
        return hash(tuple(sorted((k, 0) for k in self)))

    def __deepcopy__(self, memo):
        import copy
        return FrozenDict({k: copy.deepcopy(v, memo) for k, v in self.items()})

    def __copy__(self):
        return FrozenDict(dict(self))

    def __repr__(self):
        return f"FrozenDict({dict.__repr__(self)})"


def unfreeze(x):
    if isinstance(x, dict):
        return {k: unfreeze(v) for k, v in x.items()}
    return x


def freeze(x):
    return FrozenDict(unfreeze(x))


export("flax.core.FrozenDict", "flax.core.frozen_dict.FrozenDict")(FrozenDict)
export("flax.core.unfreeze", "flax.core.frozen_dict.unfreeze")(unfreeze)
export("flax.core.freeze", "flax.core.frozen_dict.freeze")(freeze)


def flatten_dict(d, keep_empty_nodes=False, is_leaf=None, sep=None):
    if sep is not None or is_leaf is not None:
        raise Unsupported("flatten_dict options")
    out = {}

    def go(x, p):
        if isinstance(x, dict):
            if not x and keep_empty_nodes and p:
                out[p] = {}
            for k, v in x.items():
                go(v, p + (k,))
        else:
            out[p] = x
    go(d, ())
    return out


def unflatten_dict(d, sep=None):
    out = {}
    for p, v in d.items():
        c = out
        for k in p[:-1]:
            c = c.setdefault(k, {})
        c[p[-1]] = v
    return out


def path_aware_map(f, d):
    flat = flatten_dict(d, keep_empty_nodes=True)
    return unflatten_dict({k: (f(k, v) if not (isinstance(v, dict) and not v) else v) for k, v in flat.items()})


export("flax.traverse_util.flatten_dict")(flatten_dict)
export("flax.traverse_util.unflatten_dict")(unflatten_dict)
export("flax.traverse_util.path_aware_map")(path_aware_map)


class SymTree:
    """A pytree with an arbitrary (symbolic) set of leaves, each flattened to one dimension."""

    def __init__(self, n, leaf, flat=None, layout=None):
        self.n = n
        self.leaf = leaf        # k (z3) -> Arr
        self.flat, self.layout = flat, layout      # all elements in order, (sizes, offsets) of the leaves

    @classmethod
    def of_flat(cls, n, flat, layout):
        sizes, off = layout
        return cls(n, lambda k: Arr((sizes(k),), lambda i: flat.fn((off(k) + i[0],)), flat.dt), flat, layout)

    def __vf_subst__(self, pairs):
        if self.flat is not None:
            return SymTree.of_flat(self.n, tree_subst(self.flat, pairs), self.layout)
        return SymTree(self.n, lambda k: tree_subst(self.leaf(k), pairs))

    def seq(self):
        return SymSeq(self.n, self.leaf)

    def same_structure(self, o):
        return isinstance(o, SymTree) and (dz(o.n).eq(dz(self.n)))


class TreeDef:
    def __init__(self, build, spec):
        self.build, self.spec = build, spec

    @property
    def num_leaves(self):
        if isinstance(self.spec, tuple) and self.spec and self.spec[0] in ("symtree", "symseq"):
            return core.sdim(self.spec[1])
        return len(tree_leaves(tree_unflatten(self, iter(lambda: 0, 1))))

    def unflatten(self, leaves):
        return tree_unflatten(self, leaves)

    def __eq__(self, o):
        return isinstance(o, TreeDef) and self.spec == o.spec

    def __hash__(self):
        return hash(repr(self.spec))


def is_node(x):
    return isinstance(x, (tuple, list, dict)) or x is None or getattr(type(x), "__vf_struct__", False)


def tree_flatten(t, is_leaf=None):
    if isinstance(t, SymTree):
        return t.seq(), TreeDef(None, ("symtree", t.n))
    if isinstance(t, SymSeq):
        return t, TreeDef(None, ("symseq", t.n))
    leaves = []

    def go(x):
        if is_leaf is not None and is_leaf(x):
            leaves.append(x)
            return "*"
        if isinstance(x, (SymTree, SymSeq)):
            raise Unsupported("symbolic subtree inside a concrete tree")
        if x is None:
            return None
        if isinstance(x, dict):
            ks = sorted(x)
            return (type(x), [(k, go(x[k])) for k in ks])
        if isinstance(x, tuple) and hasattr(x, "_fields"):
            return (type(x), [go(v) for v in x])
        if isinstance(x, (tuple, list)):
            return (type(x), [go(v) for v in x])
        if getattr(type(x), "__vf_struct__", False):
            fs = [f for f in dataclasses.fields(x) if f.metadata.get("pytree_node", True)]
            return (("struct", x), [(f.name, go(getattr(x, f.name))) for f in fs])
        leaves.append(x)
        return "*"
    spec = go(t)
    return leaves, TreeDef(None, spec)


def tree_unflatten(td, leaves):
    if isinstance(td.spec, tuple) and td.spec and td.spec[0] == "symtree":
        s = leaves if isinstance(leaves, SymSeq) else SymSeq(leaves.sh[0], lambda k: leaves[core.scalar(tz(k), "py")]) if isinstance(leaves, Arr) and leaves.sh else None
        if s is None:
            raise Unsupported("unflatten of a symbolic tree from concrete leaves")
        return SymTree(td.spec[1], s.elem)
    it = iter(leaves)

    def go(s):
        if isinstance(s, str) and s == "*":
            return next(it)
        if s is None:
            return None
        ty, kids = s
        if isinstance(ty, tuple) and ty[0] == "struct":
            return dataclasses.replace(ty[1], **{k: go(v) for k, v in kids})
        if issubclass(ty, dict):
            return ty({k: go(v) for k, v in kids})
        if hasattr(ty, "_fields"):
            return ty(*[go(v) for v in kids])
        return ty(go(v) for v in kids)
    return go(td.spec)


def tree_map(f, t, *rest, is_leaf=None):
    if isinstance(t, SymTree):
        for r in rest:
            if not isinstance(r, SymTree):
                raise Unsupported("tree_map over mixed symbolic / concrete trees")

        def leaf(k):
            with generic_scope():
                return f(t.leaf(k), *[r.leaf(k) for r in rest])
        return SymTree(t.n, leaf)
    if isinstance(t, SymSeq):
        return t.map(f) if not rest else SymSeq(t.n, lambda k: f(t.elem(k), *[r.elem(k) for r in rest]))
    leaves, td = tree_flatten(t, is_leaf)
    others = []
    for r in rest:
        others.append(flatten_up_to(t, r, is_leaf))
    return tree_unflatten(td, [f(*a) for a in zip(leaves, *others)])


def flatten_up_to(t, r, is_leaf=None):
    out = []

    def go(x, y):
        if is_leaf is not None and is_leaf(x):
            out.append(y)
        elif x is None:
            if y is not None:
                raise ModelledValueError("Expected None, got something else")
        elif isinstance(x, dict):
            if not isinstance(y, dict) or set(x) != set(y):
                raise ModelledValueError("Dict key mismatch in tree_map")
            for k in sorted(x):
                go(x[k], y[k])
        elif isinstance(x, (tuple, list)):
            if type(x) != type(y) or len(x) != len(y):
                raise ModelledValueError("tuple/list mismatch in tree_map")
            for a, b in zip(x, y):
                go(a, b)
        elif getattr(type(x), "__vf_struct__", False):
            for fl in dataclasses.fields(x):
                if fl.metadata.get("pytree_node", True):
                    go(getattr(x, fl.name), getattr(y, fl.name))
        else:
            out.append(y)
    go(t, r)
    return out


def tree_leaves(t, is_leaf=None):
    return tree_flatten(t, is_leaf)[0]


@export("jax.flatten_util.ravel_pytree")
def ravel_pytree(t):
    if isinstance(t, SymTree):
        if t.flat is None:
            raise Unsupported("ravel of a mapped symbolic tree")
        n, sh, layout = t.n, t.flat.sh, t.layout

        def unravel(v):
            v = lift(v)
            if len(v.sh) != 1:
                raise Unsupported("unravel of a non-vector")
            if not core.same_dim(v.sh[0], sh[0]):
                raise ModelledValueError("unravel: wrong length")
            return SymTree.of_flat(n, v, layout)
        return t.flat, unravel
    leaves, td = tree_flatten(t)
    leaves = [lift(l) for l in leaves]
    if not leaves:
        return zeros((0,)), lambda v: tree_unflatten(td, [])
    vecs = [l.reshape((-1,)) for l in leaves]

    def unravel1(v):
        out, o = [], 0
        for l, w in zip(leaves, vecs):
            e = o + w.sh[0]
            out.append(v[o:e].reshape(l.sh))
            o = e
        return tree_unflatten(td, out)
    return (vecs[0] if len(vecs) == 1 else core.concatenate(vecs)), unravel1


def tree_reduce(f, t, *init, **kw):
    if "initializer" in kw:
        init = (kw.pop("initializer"),)
    leaves = tree_leaves(t)
    if isinstance(leaves, list):
        return functools.reduce(f, leaves, *init)
    if not init:
        raise Unsupported("tree_reduce of an unknown number of leaves without an initial value")
    # a fold over an unknown number of leaves: f(acc, leaf) = acc + g(leaf)
    acc = z3.Real("acc!")

    def step(k):
        r = lift(f(core.Arr((), lambda _: acc, "f"), leaves.elem(k)))
        if r.sh != ():
            raise Unsupported("tree_reduce to an array")
        d = z3.simplify(to_real(r.fn(())) - acc, som=True)
        if core.occurs(acc, d):
            raise Unsupported("tree_reduce that is not a sum")
        return d
    return lift(init[0]) + scalar(core.sum_term(leaves.n, step))


for _p in ("jax.tree_util.", "jax."):
    export(_p + "tree_map")(tree_map)
    export(_p + "tree_leaves")(tree_leaves)
    export(_p + "tree_flatten")(tree_flatten)
    export(_p + "tree_unflatten")(tree_unflatten)
    export(_p + "tree_structure")(lambda t, **k: tree_flatten(t)[1])
    export(_p + "tree_reduce")(tree_reduce)
    export(_p + "tree_all")(lambda t: builtins.all(tree_leaves(t)))
for _a, _b in {"map": tree_map, "leaves": tree_leaves, "flatten": tree_flatten, "unflatten": tree_unflatten}.items():
    export("jax.tree." + _a)(_b)


# ------------------------------------------------------------------ transformations
def identity_transform(f=None, *a, **k):
    if f is None:
        return lambda g: g
    return f


export("jax.jit", "jax.checkpoint", "jax.named_call")(identity_transform)
export("jax.device_get", "jax.device_put", "jax.lax.stop_gradient", "jax.block_until_ready")(lambda x, *a, **k: x)


def map_axis(x, ax, i):
    if ax is None:
        return x
    if isinstance(ax, (tuple, list)) and isinstance(x, (tuple, list)):
        return type(x)(map_axis(e, a, i) for e, a in zip(x, ax))
    if isinstance(ax, dict):
        return {k: map_axis(x[k], ax[k], i) for k in x}
    if isinstance(x, (Arr, int, float, bool)) or hasattr(x, "__vf_lift__") and not isinstance(x, SymSeq):
        x = lift(x)
        if not x.sh:
            raise ModelledValueError("vmap was requested to map its argument along axis 0, but its rank is 0")
        a = core.norm_axes(ax, len(x.sh))[0]
        xs = x
        return Arr(xs.sh[:a] + xs.sh[a + 1:], lambda idx: xs.fn(idx[:a] + (i,) + idx[a:]), xs.dt)
    if isinstance(x, (list, tuple, dict)):
        return tree_map(lambda e: map_axis(e, ax, i), x)
    if x is None:
        return None
    if isinstance(x, SymTree):
        return tree_map(lambda e: map_axis(e, ax, i), x)
    if hasattr(x, "__vf_lift__"):
        return map_axis(lift(x), ax, i)
    raise Unsupported(f"vmap over {type(x).__name__}")


def axis_size(x, ax):
    if ax is None or x is None:
        return []
    if isinstance(ax, (tuple, list)) and isinstance(x, (tuple, list)):
        return [s for e, a in zip(x, ax) for s in axis_size(e, a)]
    if isinstance(ax, dict):
        return [s for k in x for s in axis_size(x[k], ax[k])]
    if isinstance(x, (list, tuple, dict)):
        return [s for e in tree_leaves(x) for s in axis_size(e, ax)]
    if isinstance(x, SymTree):
        k = index_const("axs")
        return axis_size(x.leaf(k), ax)
    x = lift(x)
    if not x.sh:
        raise ModelledValueError("vmap was requested to map its argument along axis 0, but its rank is 0")
    return [x.sh[core.norm_axes(ax, len(x.sh))[0]]]


class assume_in:
    """Temporarily assume 0 <= i < n while evaluating a generic element."""

    def __init__(self, i, n):
        self.c = [i >= 0, i < dz(n)]

    def __enter__(self):
        self.mark = len(C.pc)
        C.pc.extend(self.c)
        C.generic += 1

    def __exit__(self, *a):
        C.generic -= 1
        del C.pc[self.mark:self.mark + 2]


def vmap(f=None, in_axes=0, out_axes=0, axis_name=None, **kw):
    if f is None:
        return lambda g: vmap(g, in_axes, out_axes)

    def g(*args, **kwargs):
        axes = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(args)
        sizes = [s for a, ax in zip(args, axes) for s in axis_size(a, ax)]
        sizes += [s for a in kwargs.values() for s in axis_size(a, 0)]
        if not sizes:
            raise ModelledValueError("vmap must have at least one non-None value in in_axes")
        n = sizes[0]
        for s in sizes[1:]:
            if not core.same_dim(n, s):
                raise ModelledValueError("vmap got inconsistent sizes for array axes to be mapped")
        i = index_const("vm")
        with assume_in(i, n):
            out = f(*[map_axis(a, ax, i) for a, ax in zip(args, axes)], **{k: map_axis(v, 0, i) for k, v in kwargs.items()})
        return batch_out(out, out_axes, i, n)
    functools.update_wrapper(g, f, updated=()) if hasattr(f, "__name__") else None
    return g


def batch_out(out, out_axes, i, n):
    if isinstance(out_axes, (tuple, list)) and isinstance(out, (tuple, list)):
        return type(out)(batch_out(o, a, i, n) for o, a in zip(out, out_axes))

    def one(o):
        o = lift(o)
        if o.mask is not None:
            raise Unsupported("vmap over a data-dependent selection")
        for d in o.sh:
            if core.is_sym_dim(d) and core.occurs(i, d):
                raise Unsupported("vmap with index-dependent shape")
        if out_axes is None:
            return o
        # remember the generic element (z3.substitute later) - the evaluation itself must happen in scope
        r = Arr((n,) + o.sh, lambda idx: tree_subst(o, [(i, idx[0])]).fn(idx[1:]), o.dt)
        return r if out_axes == 0 else core.moveaxis(r, 0, out_axes)
    return tree_map(one, out)


export("jax.vmap")(vmap)


def pmap(f=None, axis_name=None, in_axes=0, out_axes=0, **k):
    if f is None:
        return lambda g: pmap(g, axis_name, in_axes, out_axes)
    return vmap(f, in_axes, out_axes)


export("jax.pmap")(pmap)


@export("jax.pure_callback")
def pure_callback(f, result, *args, **k):
    return f(*args)


@export("tqdm.tqdm", "tqdm.std.tqdm")
def tqdm_(x=None, *a, **k):
    return x


@export("jax.lax.map")
def lax_map(f, xs):
    return vmap(f)(xs)


@export("jax.lax.cond")
def lax_cond(pred, tf, ff, *ops, operand=None, **k):
    if operand is not None:
        ops = (operand,)
    c = to_bool(tz(pred))
    cs = z3.simplify(c)
    if z3.is_true(cs):
        return tf(*ops)
    if z3.is_false(cs):
        return ff(*ops)
    a = tf(*ops)
    b = ff(*ops)
    node = lambda x: isinstance(x, (SymTree, SymSeq))

    def merge(x, y):
        if isinstance(x, SymTree) or isinstance(y, SymTree):
            if not (isinstance(x, SymTree) and isinstance(y, SymTree)):
                raise ModelledTypeError("cond branches have different structure")
            return SymTree(x.n, lambda k: core.merge_val(c, x.leaf(k), y.leaf(k)))
        return core.merge_val(c, x, y)
    if node(a):
        return merge(a, b)
    la, ta = tree_flatten(a, node)
    lb, tb = tree_flatten(b, node)
    if len(la) != len(lb):
        raise ModelledTypeError("cond branches have different structure")
    return tree_unflatten(ta, [merge(x, y) for x, y in zip(la, lb)])


@export("jax.lax.select")
def lax_select(p, a, b):
    p, a, b = lift(p), lift(a), lift(b)
    return core.where_(p, a, b)


export("jax.lax.switch")(lambda i, brs, *ops: core.select_py(i, [br(*ops) for br in brs]))


def fresh_like(v, base):
    """A fresh value of the same type/shape as v (loop havoc)."""
    if isinstance(v, (bool, int, float, Arr)):
        v = lift(v)
        nm = C.fresh_name("hv!" + base)
        srt = {"f": RealS, "i": IntS, "b": BoolS, "k": KeySort}.get(v.dt)
        if srt is None:
            raise Unsupported("havoc of an opaque value")
        if v.mask is not None:
            raise Unsupported("havoc of a masked selection")
        if not v.sh:
            c = z3.Const(nm, srt)
            return Arr((), lambda _: c, v.dt, v.kind)
        f = z3.Function(nm, *([IntS] * len(v.sh) + [srt]))
        return Arr(v.sh, lambda i: f(*i), v.dt, v.kind)
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, (list, tuple, dict)):
        return tree_map(lambda x: fresh_like(x, base), v)
    if isinstance(v, SymTree):
        nm = C.fresh_name("hvt!" + base)
        f = z3.Function(nm, IntS, IntS, RealS)

        def leaf(k):
            l = v.leaf(k)
            return Arr(l.sh, lambda i: f(k, core.flatten_index(i, l.sh)), l.dt)
        return SymTree(v.n, leaf)
    raise Unsupported(f"havoc of {type(v).__name__}")


def summarise_carry(carry0, carry, end, i, lo, hi_excl, name):
    """Given end = body(i, carry) with symbolic carry leaves, return fn(k) -> carry value before
    iteration k (k=hi gives the final value); recognises constants, additive accumulation and
    carry-independent overwrites."""
    l0, td = tree_flatten(carry0)
    lc, _ = tree_flatten(carry)
    le, td2 = tree_flatten(end)
    if not isinstance(l0, list):
        raise Unsupported("loop carry with symbolic leaves")
    if len(l0) != len(le):
        raise ModelledTypeError("loop carry structure changed")
    consts = []
    for c in lc:
        c = lift(c)
        if c.sh == ():
            consts.append(tz(c).decl())
        else:
            consts.append(c.fn(tuple(z3.IntVal(0) for _ in c.sh)).decl())
    names = {d.name() for d in consts}

    def mentions(t, nameset):
        seen, st = set(), [t]
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if e.decl().name() in nameset:
                    return True
                inf = C.infos.get(e.decl().name())
                if inf is not None:
                    for p in inf.params:
                        st.append(p)
                    for s, b in inf.arrays:
                        st.append(b)
            st.extend(e.children())
        return False

    outs = []
    for a0, c, e, d in zip(l0, lc, le, consts):
        a0, c, e = lift(a0), lift(c), lift(e)
        if len(e.sh) != len(a0.sh):
            raise ModelledTypeError("loop carry changed rank")
        idx = tuple(core._probe_idx(40 + k) for k in range(len(c.sh)))
        ct, et = c.fn(idx), e.fn(idx)
        if et.eq(ct):
            outs.append(("const", a0, None))
            continue
        if not mentions(et, names):
            outs.append(("last", a0, e))
            continue
        if et.sort() != ct.sort():
            raise Unsupported("loop carry changed dtype")
        if et.sort() in (RealS, IntS):
            diff = z3.simplify(et - ct, som=True)
            if not mentions(diff, names):
                g = Arr(c.sh, lambda ix, e=e, c=c: z3.simplify(e.fn(ix) - c.fn(ix), som=True), c.dt)
                outs.append(("sum", a0, g))
                continue
        raise NeedInvariant(name)

    def value(k):
        res = []
        for kind, a0, g in outs:
            if kind == "const":
                res.append(a0)
            elif kind == "last":
                prev = tree_subst(g, [(i, z3.simplify(k - 1))])
                res.append(core.merge_val(k <= lo, a0, prev))
            else:
                def fn(ix, a0=a0, g=g):
                    n = z3.simplify(k - lo)
                    if z3.is_int_value(lo) and 1 <= lo.as_long() <= 3 and not z3.is_int_value(n) and _nonneg(n):
                        # sum over lo <= j < k as (sum over j < k) - (the first lo terms)
                        at = lambda j: tree_subst(g, [(i, z3.simplify(z3.IntVal(j) if isinstance(j, int) else j))]).fn(ix)
                        r = core._add(a0.fn(ix), core.sum_term(dim(z3.simplify(k)), at))
                        for j in range(lo.as_long()):
                            r = core._sub(r, at(j))
                        return z3.simplify(r, som=True)
                    def term(j):
                        return tree_subst(g, [(i, z3.simplify(lo + j))]).fn(ix)
                    return core._add(a0.fn(ix), core.sum_term(dim(z3.If(n < 0, z3.IntVal(0), n)) if not z3.is_int_value(n) and not _nonneg(n) else dim(n), term))
                res.append(Arr(a0.sh, fn, core.common_dt([a0.dt, g.dt])))
        return tree_unflatten(td, res)
    return value


def _nonneg(n):
    from .explore import brancher
    from .solve import feasible
    return not feasible(C.pc, n < 0, 1000)


class NeedInvariant(Unsupported):
    pass


@export("jax.lax.fori_loop")
def fori_loop(lo, hi, body, init, **kw):
    lo_, hi_ = tz(lift(lo)), tz(lift(hi))
    ls, hs = z3.simplify(lo_), z3.simplify(hi_)
    if z3.is_int_value(ls) and z3.is_int_value(hs) and hs.as_long() - ls.as_long() <= 4:
        for k in range(ls.as_long(), hs.as_long()):
            init = body(k, init)
        return init
    i = index_const("fl")
    # dtype fixpoint: arrays entering as ints and leaving as reals are promoted by the caller
    carry = tree_map(lambda v: fresh_like(v, "fori"), init)
    with assume_in2(i, ls, hs):
        end = body(scalar(i), carry)
    value = summarise_carry(init, carry, end, i, ls, hs, "fori_loop")
    return value(hs)


class assume_in2(assume_in):
    def __init__(self, i, lo, hi):
        self.c = [i >= lo, i < hi]


@export("jax.lax.scan")
def lax_scan(f, init, xs=None, length=None, **kw):
    if kw:
        raise Unsupported(f"scan({list(kw)})")
    sizes = axis_size(xs, 0) if xs is not None else []
    n = sizes[0] if sizes else dim(lift(length))
    i = index_const("sc")
    carry = tree_map(lambda v: fresh_like(v, "scan"), init)
    with assume_in(i, n):
        end, ys = f(carry, map_axis(xs, 0, i) if xs is not None else None)
    value = summarise_carry(init, carry, end, i, z3.IntVal(0), dz(n), "scan")
    before = value(i)
    lc, _ = tree_flatten(carry)
    lb, _ = tree_flatten(before)

    def sub_carry(o):
        o = lift(o)
        return Arr(o.sh, lambda ix: replace_carry(o.fn(ix), lc, lb), o.dt)
    ys2 = tree_map(sub_carry, ys) if ys is not None else None
    return value(dz(n)), (batch_out(ys2, 0, i, n) if ys2 is not None else None)


def replace_carry(t, lc, lb):
    for c, b in zip(lc, lb):
        c, b = lift(c), lift(b)
        if c.sh == ():
            t = z3.substitute(t, (tz(c), tz(b)))
        else:
            d = c.fn(tuple(z3.IntVal(0) for _ in c.sh)).decl()
            vs = [z3.Var(k, IntS) for k in range(len(c.sh))]
            idx = tuple(z3.Int(f"rc!{k}") for k in range(len(c.sh)))
            bt = b.fn(idx)
            bt = z3.substitute(bt, *[(a, z3.Var(len(idx) - 1 - k, IntS)) for k, a in enumerate(idx)])
            t = z3.substitute_funs(t, (d, bt))
    return t


@export("jax.lax.while_loop")
def while_loop(*a, **k):
    raise Unsupported("while_loop")


export("jax.lax.pmean", "jax.lax.psum")(lambda x, axis_name=None, **k: (_ for _ in ()).throw(Unsupported("pmean")))


@export("jax.ensure_compile_time_eval", "jax.debug.print", "jax.debug.callback")
def _noop(*a, **k):
    return None


# ------------------------------------------------------------------ jax.nn / scipy.special
def logsumexp(a, axis=None, b=None, keepdims=False, **k):
    a = lift(a)
    e = unop(a, core.fexp)
    if b is not None:
        e = e * b
    return unop(core.asum(e, axis, keepdims=keepdims), core.flog)


def softmax(x, axis=-1, **k):
    e = unop(x, core.fexp)
    return e / core.asum(e, axis, keepdims=True)


def log_softmax(x, axis=-1, **k):
    return lift(x) - logsumexp(x, axis, keepdims=True)


def one_hot(x, num_classes, axis=-1, dtype=None, **k):
    x = lift(x)
    n = dim(lift(num_classes))
    if axis != -1 and axis != len(x.sh):
        raise Unsupported("one_hot axis")
    one, zero = z3.RealVal(1), z3.RealVal(0)
    return Arr(x.sh + (n,), lambda i: z3.If(i[-1] == x.fn(i[:-1]), one, zero), "f")


def sigmoid(x):
    return unop(x, lambda t: z3.RealVal(1) / (1 + core.fexp(-to_real(t))))


export("jax.scipy.special.logsumexp", "scipy.special.logsumexp", "jax.nn.logsumexp")(logsumexp)
export("jax.nn.softmax", "scipy.special.softmax", "jax.scipy.special.softmax")(softmax)
export("jax.nn.log_softmax", "scipy.special.log_softmax")(log_softmax)
export("jax.nn.one_hot", "jax.nn.one_hot")(one_hot)
export("jax.nn.sigmoid", "jax.scipy.special.expit", "scipy.special.expit")(sigmoid)
export("jax.nn.relu")(lambda x: maximum(x, 0.0))
export("jax.nn.softplus")(lambda x: unop(x, lambda t: core.flog(1 + core.fexp(t))))
export("jax.nn.log_sigmoid")(lambda x: unop(x, lambda t: -core.flog(1 + core.fexp(-to_real(t)))))


@export("jax.scipy.stats.norm.logpdf")
def norm_logpdf(x, loc=0.0, scale=1.0):
    x = lift(x)
    z = (x - loc) / scale
    return -0.5 * (z * z) - unop(lift(scale), core.flog) - 0.5 * unop(2.0 * PI, core.flog)


# ------------------------------------------------------------------ random
def keyfun(name, *sorts):
    return z3.Function(name, *(list(sorts) + [KeySort]))


SPLIT = keyfun("split!", KeySort, IntS)
SEEDK = keyfun("seedkey!", IntS)
FOLD = keyfun("foldin!", KeySort, IntS)


def as_key(k):
    k = lift(k)
    if k.dt != "k":
        raise ModelledTypeError("not a PRNG key")
    return k


@export("jax.random.PRNGKey", "jax.random.key")
def PRNGKey(seed, **k):
    return scalar(SEEDK(tz(lift(seed))))


@export("jax.random.split")
def rsplit(key, num=2):
    key = as_key(key)
    kt = tz(key)
    if isinstance(num, tuple):
        if len(num) != 1:
            raise Unsupported("split to a shape")
        num = num[0]
    return Arr((dim(lift(num)),), lambda i: SPLIT(kt, i[0]), "k")


@export("jax.random.fold_in")
def fold_in(key, data):
    return scalar(FOLD(tz(as_key(key)), tz(lift(data))))


def draw(name, key, shape, sort, params=()):
    key = as_key(key)
    if isinstance(shape, (int, Arr)) and not (isinstance(shape, Arr) and shape.sh != ()):
        shape = (shape,)
    shape = tuple(dim(lift(d)) for d in shape)
    nm = f"rnd!{name}!{len(shape)}!{len(params)}"
    f = z3.Function(nm, *([KeySort] + [p.sort() for p in params] + [IntS] * len(shape) * 2 + [sort]))
    dims = [dz(d) for d in shape]
    kt = tz(key)
    return Arr(shape, lambda i: f(kt, *params, *dims, *i), {RealS: "f", IntS: "i", BoolS: "b"}[sort])


@export("jax.random.normal")
def rnormal(key, shape=(), dtype=None):
    return draw("normal", key, shape, RealS)


@export("jax.random.uniform")
def runiform(key, shape=(), dtype=None, minval=0.0, maxval=1.0):
    u = draw("uniform", key, shape, RealS)
    if minval == 0.0 and maxval == 1.0:
        return u
    return u * (lift(maxval) - minval) + minval


@export("jax.random.bernoulli")
def rbernoulli(key, p=0.5, shape=()):
    return draw("uniform", key, shape, RealS) < p


@export("jax.random.categorical")
def rcategorical(key, logits, axis=-1, shape=None):
    logits = lift(logits)
    if axis not in (-1, len(logits.sh) - 1):
        raise Unsupported("categorical axis")
    bshape = logits.sh[:-1]
    shape = bshape if shape is None else tuple(dim(lift(d)) for d in shape)
    kt = tz(as_key(key))
    off = len(shape) - len(bshape)
    dims = [dz(d) for d in shape]

    def fn(idx):
        row = idx[off:]
        return core.vecop(f"categorical{len(shape)}", [kt] + dims + list(idx), [((logits.sh[-1],), lambda j: logits.fn(row + (j[0],)))], IntS)
    return Arr(shape, fn, "i")


@export("jax.random.permutation")
def rpermutation(key, x, axis=0, **k):
    kt = tz(as_key(key))
    if isinstance(x, int) or (isinstance(x, Arr) and x.sh == ()):
        n = dim(lift(x))
        return Arr((n,), lambda i: core.vecop("perm", [i[0], kt], [((n,), lambda j: j[0])], IntS), "i")
    x = lift(x)
    n = x.sh[0]
    return Arr(x.sh, lambda i: x.fn((core.vecop("perm", [i[0], kt], [((n,), lambda j: j[0])], IntS),) + i[1:]), x.dt)


@export("jax.random.choice")
def rchoice(key, a, shape=(), replace=True, p=None, axis=0, **k):
    key = as_key(key)
    if isinstance(shape, (int, Arr)):
        shape = (shape,)
    shape = tuple(dim(lift(d)) for d in shape)
    if isinstance(a, int) or (isinstance(a, Arr) and a.sh == ()):
        n = dim(lift(a))
        base = None
    else:
        base = lift(a)
        n = base.sh[0]
    if p is not None:
        if not replace:
            raise Unsupported("weighted choice without replacement")
        p, kt, dims = lift(p), tz(key), [dz(d) for d in shape]
        if len(p.sh) != 1 or not core.same_dim(p.sh[0], n):
            raise core.ModelledValueError("p must be one-dimensional and of the size of a")
        idx = Arr(shape, lambda i: core.vecop(f"choiceP{len(shape)}", [kt] + dims + list(i), [((n,), lambda j: to_real(p.fn((j[0],))))], IntS), "i")
    elif not replace and len(shape) == 1 and core.same_dim(shape[0], n):
        idx = rpermutation(key, core.sdim(n))
    else:
        kt = tz(key)
        dims = [dz(d) for d in shape]
        idx = Arr(shape, lambda i: core.vecop(f"choice{'R' if replace else 'N'}{len(shape)}", [kt] + dims + list(i), [((n,), lambda j: j[0])], IntS), "i")
    return idx if base is None else core.getitem(base, idx)


@export("numpy.random.default_rng")
def default_rng(seed=None):
    return NpRng(seed)


class NpRng:
    def __init__(self, seed):
        if seed is None:
            self.key = z3.Const(C.fresh_name("entropy"), KeySort)
        else:
            self.key = z3.Function("nprng!", IntS, KeySort)(tz(lift(seed)))
        self.count = 0

    def _next(self):
        self.count += 1
        return scalar(SPLIT(self.key, z3.IntVal(self.count)))

    def permutation(self, x):
        r = rpermutation(self._next(), x)
        r.kind = "np"
        return r

    def choice(self, a, size=None, replace=True, **k):
        return rchoice(self._next(), a, () if size is None else size, replace, **k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"numpy Generator.{n}")


# ------------------------------------------------------------------ flax.struct / linen
def struct_field(pytree_node=True, **k):
    return dataclasses.field(metadata={"pytree_node": pytree_node}, **k)


def struct_dataclass(cls=None, **k):
    if cls is None:
        return lambda c: struct_dataclass(c, **k)
    c = dataclasses.dataclass(frozen=True, eq=False)(cls)
    c.__vf_struct__ = True
    c.replace = lambda self, **u: dataclasses.replace(self, **u)
    return c


class PyTreeNode:
    def __init_subclass__(cls, **k):
        struct_dataclass(cls)


export("flax.struct.dataclass")(struct_dataclass)
export("flax.struct.field")(struct_field)
export("flax.struct.PyTreeNode")(PyTreeNode)


class Module:
    """flax.linen.Module: a dataclass whose parameters come from the bound variable collection."""

    def __init_subclass__(cls, **k):
        super().__init_subclass__()
        try:
            anns = cls.__dict__.get("__annotations__", {})
            for n in list(anns):
                if n in ("parent", "name"):
                    anns.pop(n)
            # fields after defaults: kw_only keeps construction possible
            cls.__dict__.get("__annotations__", {})
            dataclasses.dataclass(cls, eq=False, repr=False, kw_only=False)
        except TypeError:
            dataclasses.dataclass(cls, eq=False, repr=False, kw_only=True)

    def param(self, name, init=None, *a, **k):
        vs = self.__dict__.get("_vf_params")
        if vs is None:
            raise Unsupported("unbound flax module")
        return vs[name]

    def variable(self, col, name, *a, **k):
        raise Unsupported("flax variable")

    def apply(self, variables, *a, **k):
        for bad in ("mutable", "rngs", "method"):
            v = k.pop(bad, None)
            if v not in (None, False):
                raise Unsupported(f"Module.apply({bad})")
        import copy
        m = copy.copy(self)
        object.__setattr__(m, "_vf_params", dict(variables["params"]))
        if hasattr(m, "setup"):
            m.setup()
        return m(*a, **k)

    def setup(self):
        pass


export("flax.linen.Module", "flax.linen.module.Module")(Module)
export("flax.linen.compact", "flax.linen.nowrap")(identity_transform)


# ------------------------------------------------------------------ optax
@export("optax.global_norm")
def global_norm(t):
    leaves = tree_leaves(t)
    sq = [core.asum(l * l) for l in leaves] if isinstance(leaves, list) else None
    if sq is None:
        return unop(scalar(core.sum_term(leaves.n, lambda k: tz(core.asum(leaves.elem(k) * leaves.elem(k))))), core.fsqrt)
    r = sq[0]
    for s in sq[1:]:
        r = r + s
    return unop(r, core.fsqrt)


@export("jax.numpy.linalg.pinv", "numpy.linalg.pinv")
def pinv(a, *r, **k):
    """The pseudo-inverse: an unknown function of the matrix."""
    a = lift(a)
    if len(a.sh) != 2 or r or k:
        raise Unsupported("pinv of this form")
    return Arr((a.sh[1], a.sh[0]), lambda i: core.vecop("pinv", list(i), [(a.sh, lambda j: to_real(a.fn(j)))], RealS), "f")


@export("jax.scipy.stats.multivariate_normal.logpdf")
def mvn_logpdf(x, mean, cov, **k):
    """The Gaussian log-density of one point: an unknown function of the point, the mean and the covariance (finite: no NaN)."""
    x, mean, cov = lift(x), lift(mean), lift(cov)
    if len(cov.sh) != 2 or len(mean.sh) != 1 or k:
        raise Unsupported("multivariate_normal.logpdf of this form")
    if not core.same_dim(x.sh[-1], mean.sh[0]):
        raise ModelledTypeError("incompatible shapes")
    ops = [(v.sh, lambda j, v=v: to_real(v.fn(j))) for v in (mean, cov)]
    return Arr(x.sh[:-1], lambda i: core.vecop("mvn", [], [((x.sh[-1],), lambda j: to_real(x.fn(tuple(i) + j)))] + ops, RealS), "f")


class GradientTransformation(typing.NamedTuple):
    init: object
    update: object


export("optax.GradientTransformation", "optax._src.base.GradientTransformation")(GradientTransformation)


@export("optax.sgd")
def optax_sgd(learning_rate, momentum=None, nesterov=False, **k):
    if momentum is not None or k or callable(learning_rate):
        raise Unsupported("optax.sgd with momentum or a schedule")
    return GradientTransformation(lambda params: (), lambda g, state, params=None: (tree_map(lambda x: -learning_rate * x, g), state))


# numpy-only helpers
export("numpy.finfo")(lambda t: types.SimpleNamespace(tiny=2.2250738585072014e-308, eps=2.220446049250313e-16, max=1.7e308, min=-1.7e308))


@export("jax.local_device_count", "jax.device_count")
def local_device_count(*a):
    n = z3.Int("n_devices")
    C.assume(n >= 1)
    C.pos_dims.add("n_devices")
    return core.scalar(n, "py")


export("jax.scipy.special.entr")(lambda x: unop(x, lambda t: -to_real(t) * core.flog(t)))


@export("numpy.put_along_axis")
def put_along_axis(arr, indices, values, axis):
    """Scatter of one scalar value along an axis of a 2-D array, in place."""
    idx, v = lift(indices), lift(values)
    if not isinstance(arr, Arr) or len(arr.sh) != 2 or len(idx.sh) != 2 or v.sh != () or core.norm_axes(axis, 2)[0] != 1:
        raise Unsupported("put_along_axis of this form")
    if not core.same_dim(idx.sh[0], arr.sh[0]):
        raise core.ModelledIndexError("shape mismatch")
    n = dz(arr.sh[1])
    bad = core.aany((idx < -core.sdim(arr.sh[1])) | (idx >= core.sdim(arr.sh[1])))
    if bool(bad):
        raise core.ModelledIndexError("index out of bounds")
    wraps = bool(core.aany(idx < 0))
    old, dt, val = arr._fn, arr.dt, core.cast(v.fn(()), arr.dt)

    def fn(i):
        def hit(j):
            x = idx.fn((i[0], j[0]))
            return (z3.If(x < 0, x + n, x) if wraps else x) == i[1]
        c = core.vecop("any", [], [((idx.sh[1],), hit)], BoolS)
        return z3.If(c, val, old(i))
    arr._fn, arr._memo = fn, {}


# one value per device, in order; prefetching does not change the sequence
export("flax.jax_utils.prefetch_to_device")(lambda iterator, size, devices=None: iterator)


@export("flax.training.common_utils.shard_prng_key")
def shard_prng_key(key):
    return rsplit(key, local_device_count())


# ------------------------------------------------------------------ training
@export("jax.value_and_grad")
def value_and_grad(fun, argnums=0, has_aux=False, **k):
    """Differentiation is not modelled: the gradient is the one the contract attached to its (abstract) loss function."""
    if argnums != 0 or k:
        raise Unsupported("value_and_grad of this form")

    def run(params, *a, **kw):
        out = fun(params, *a, **kw)
        loss = out[0] if has_aux else out
        base, g = getattr(loss, "vf_grad", (None, None))
        if base is not params:
            raise Unsupported("gradient of a loss other than the abstract one")
        return out, g
    return run


@export("jax.grad")
def grad_of(fun, argnums=0, has_aux=False, **k):
    vg = value_and_grad(fun, argnums, has_aux, **k)

    def run(*a, **kw):
        out, g = vg(*a, **kw)
        return (g, out[1]) if has_aux else g
    return run


@export("optax.apply_updates")
def apply_updates(params, updates):
    return tree_map(lambda p, u: p + u, params, updates)


class TrainState(PyTreeNode):
    """flax.training.train_state.TrainState"""
    step: object
    apply_fn: object = struct_field(pytree_node=False)
    params: object = struct_field(pytree_node=True)
    tx: object = struct_field(pytree_node=False)
    opt_state: object = struct_field(pytree_node=True)

    def apply_gradients(self, *, grads, **kwargs):
        updates, new_opt_state = self.tx.update(grads, self.opt_state, self.params)
        return self.replace(step=self.step + 1, params=apply_updates(self.params, updates), opt_state=new_opt_state, **kwargs)

    @classmethod
    def create(cls, *, apply_fn, params, tx, **kwargs):
        return cls(step=0, apply_fn=apply_fn, params=params, tx=tx, opt_state=tx.init(params), **kwargs)


export("flax.training.train_state.TrainState")(TrainState)


class EarlyStopping(PyTreeNode):
    """flax.training.early_stopping.EarlyStopping"""
    min_delta: float = 0
    patience: int = 0
    best_metric: float = float("inf")
    patience_count: int = 0
    should_stop: bool = False
    has_improved: bool = False

    def reset(self):
        return self.replace(best_metric=float("inf"), patience_count=0, should_stop=False, has_improved=False)

    def update(self, metric):
        if (isinstance(self.best_metric, float) and self.best_metric in (float("inf"), -float("inf"))) or self.best_metric - metric > self.min_delta:
            return self.replace(best_metric=metric, patience_count=0, has_improved=True)
        should_stop = self.patience_count >= self.patience or self.should_stop
        return self.replace(patience_count=self.patience_count + 1, should_stop=should_stop, has_improved=False)


export("flax.training.early_stopping.EarlyStopping")(EarlyStopping)


@export("flax.training.common_utils.stack_forest")
def stack_forest(forest):
    if isinstance(forest, SymSeq):
        def stack(pick, proto):
            if isinstance(proto, dict):
                return type(proto)({k: stack(lambda i, k=k: pick(i)[k], proto[k]) for k in proto})
            a = lift(proto)
            return Arr((forest.n,) + a.sh, lambda i: lift(pick(i[0])).fn(tuple(i[1:])), a.dt)
        if bool(core.sdim(forest.n) == 0):
            raise ModelledTypeError("tree_map of nothing")
        return stack(forest.elem, forest.elem(core.index_const("st")))
    forest = list(forest)
    if not forest:
        raise ModelledTypeError("tree_map of nothing")
    return tree_map(lambda *a: module("jax.numpy").__dict__["stack"](a), *forest)


@export("flax.training.checkpoints.save_checkpoint")
def ckpt_save(ckpt_dir, target, step, prefix="checkpoint_", keep=1, overwrite=False, keep_every_n_steps=None, async_manager=None, orbax_checkpointer=None):
    raise Unsupported("writing a checkpoint")


@export("flax.training.checkpoints.restore_checkpoint")
def ckpt_restore(ckpt_dir, target, step=None, prefix="checkpoint_", parallel=True, gda_manager=None, allow_partial_mpa_restoration=False, orbax_checkpointer=None, orbax_transforms=None):
    raise Unsupported("reading a checkpoint")
