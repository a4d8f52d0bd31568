"""Concrete reading of contracts: runs the real code under the project's interpreter."""
from __future__ import annotations
import math
import random
import numpy as np
from .api import Outcome, install_callee


class Reject(Exception):
    """The generated input does not satisfy the precondition."""


class Violation(Exception):
    def __init__(self, name, detail=""):
        super().__init__(f"{name} {detail}")
        self.name, self.detail = name, detail


def _jsonable(v):
    if isinstance(v, (np.ndarray,)):
        return v.tolist()
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating,)):
        return float(v)
    if isinstance(v, (np.bool_,)):
        return bool(v)
    return v


class Conc:
    sym = False

    def __init__(self, seed, replay=None, size=0, rtol=1e-6, atol=1e-7):
        self.rng = random.Random(seed)
        self.nprng = np.random.RandomState(self.rng.randrange(2 ** 31))
        self.replay = replay or {}
        self.inputs = {}
        self.size = size
        self.rtol, self.atol = rtol, atol
        self.ensured = 0
        self.undo = []
        import jax
        self.tracer = jax.core.Tracer
        self._np = {}
        self.style = self.rng.choice(["grid", "uniform", "ties", "edge", "uniform", "wide"])

    # ------------------------------------------------------------ inputs
    def _rec(self, name, v):
        self.inputs[name] = _jsonable(v)
        return v

    def dim(self, name, lo=1, hi=None):
        if name in self.replay:
            return self._rec(name, int(self.replay[name]))
        top = lo + self.rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 11] + ([24, 64] if self.size else [12]))
        if hi is not None:
            top = min(top, int(hi))
        if top < lo:
            raise Reject()
        return self._rec(name, top)

    def devices(self):
        import jax
        return jax.local_device_count()

    def index(self, name, n):
        return self.int(name, 0, int(n) - 1)

    def int(self, name, lo=None, hi=None, big=None):
        if name in self.replay:
            return self._rec(name, int(self.replay[name]))
        l = -4 if lo is None else int(lo)
        h = l + 12 if hi is None else int(hi)
        if big is not None and hi is None and self.rng.random() < 0.3:
            h = l + big
        if h < l:
            raise Reject()
        return self._rec(name, self.rng.randint(l, h))

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, array=False, special=()):
        if name in self.replay:
            v = float(self.replay[name])
        elif special and self.rng.random() < 0.4:
            v = float(self.rng.choice(list(special)))
        else:
            v = float(self._vals((), lo, hi, lo_open, hi_open))
        self._rec(name, v)
        if array:
            import jax.numpy as jnp
            return jnp.asarray(v)
        return v

    def bool(self, name):
        return self.choice(name, [False, True])

    def choice(self, name, opts):
        if name in self.replay:
            k = int(self.replay[name])
        else:
            k = self.rng.randrange(len(opts))
        self.inputs[name] = k
        return opts[k]

    def _vals(self, shape, lo, hi, lo_open=False, hi_open=False):
        st = self.style if self.rng.random() < 0.7 else self.rng.choice(["grid", "uniform", "ties", "edge"])
        l = (-3.0 if hi is None else float(hi) - 4.0) if lo is None else float(lo)
        h = (l + 6.0 if lo is None else l + 4.0) if hi is None else float(hi)
        if st == "wide" and (lo is None or hi is None):
            l = l * 5 if lo is None else l
            h = h * 5 + 10 if hi is None else h
        r = self.nprng
        if st == "grid":
            v = l + (h - l) * r.randint(0, 9, size=shape) / 8.0
        elif st == "ties":
            base = l + (h - l) * r.randint(1, 8, size=3) / 8.0
            v = base[r.randint(0, 3, size=shape)]
        elif st == "edge":
            c = np.array([l, h, (l + h) / 2, l + (h - l) / 8])
            v = c[r.randint(0, 4, size=shape)]
        else:
            v = l + (h - l) * r.rand(*shape) if shape else l + (h - l) * r.rand()
        v = np.asarray(v, dtype=np.float64)
        eps = (h - l) / 64
        if lo_open:
            v = np.where(v <= l, l + eps, v)
        if hi_open:
            v = np.where(v >= h, h - eps, v)
        return v

    def _shape(self, shape):
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        return tuple(int(d) for d in shape)

    def _replayed(self, name, shape, dtype):
        if name in self.replay and self.replay[name] is not None:
            a = np.asarray(self.replay[name], dtype=dtype)
            if a.shape == shape:
                return a
        return None

    def reals(self, name, shape, lo=None, hi=None, lo_open=False, hi_open=False, distinct=False, special=(), gen=None):
        shape = self._shape(shape)
        v = self._replayed(name, shape, np.float64)
        if v is None:
            v = self._vals(shape, lo, hi, lo_open, hi_open)
            if gen is not None and self.rng.random() < 0.8:
                v = np.asarray(gen(self.nprng), dtype=np.float64).reshape(shape)
            if special and self.rng.random() < 0.3:
                m = self.nprng.rand(*shape) < 0.3
                v = np.where(m, np.asarray(special)[self.nprng.randint(0, len(special), size=shape)], v)
        return self._rec(name, v)

    def ints(self, name, shape, lo=None, hi=None, gen=None):
        shape = self._shape(shape)
        v = self._replayed(name, shape, np.int64)
        if v is None:
            l = -4 if lo is None else int(lo)
            h = l + 9 if hi is None else int(hi)
            if h <= l:
                raise Reject()
            v = self.nprng.randint(l, h, size=shape)
            if gen is not None and self.rng.random() < 0.8:
                v = np.asarray(gen(self.nprng)).reshape(shape)
        return self._rec(name, np.asarray(v, dtype=np.int64))

    def bools(self, name, shape):
        shape = self._shape(shape)
        v = self._replayed(name, shape, bool)
        if v is None:
            p = self.rng.choice([0.0, 0.2, 0.5, 0.8, 1.0])
            v = self.nprng.rand(*shape) < p
        return self._rec(name, np.asarray(v, dtype=bool))

    def key(self, name):
        import jax
        s = int(self.replay[name]) if name in self.replay else self.rng.randrange(1000)
        self._rec(name, s)
        return jax.random.PRNGKey(s)

    def seq(self, name, n, elem):
        return [elem(k) for k in range(int(n))]

    def family(self, name, n, shape_of, kind="reals", lo=None, hi=None, lo_open=False, hi_open=False):
        out = []
        for k in range(int(n)):
            nm = f"{name}@{k}"
            if kind == "reals":
                out.append(self.reals(nm, shape_of(k), lo, hi, lo_open, hi_open))
            elif kind == "ints":
                out.append(self.ints(nm, shape_of(k), lo, hi))
            else:
                out.append(self.bools(nm, shape_of(k)))
        return out

    def intlist(self, name, n, lo=None, hi=None):
        return [int(v) for v in self.ints(name, (n,), lo, hi)]

    def intlists(self, name, n, lens, lo=None, hi=None):
        return [self.intlist(f"{name}@{k}", lens(k), lo, hi) for k in range(int(n))]

    def undecided(self, why):
        raise Reject()

    def concat_eq(self, name, x, n, lens, tail, f):
        rows = []
        tail = tuple(int(d) for d in tail)
        for l in range(int(n)):
            for j in range(int(lens(l))):
                rows.append(np.array([f(l, j, *i) for i in np.ndindex(*tail)]).reshape(tail))
        want = np.array(rows).reshape((len(rows),) + tail)
        self.arr_eq(name, x, want.shape, lambda *i: want[i])

    def concat(self, n, lens, f, *tail):
        rows = [(l, j) for l in range(int(n)) for j in range(int(lens(l)))]
        return len(rows), lambda q, *i: f(*rows[int(q)])(*i)

    def member(self, lst, v):
        return any(int(e) == int(v) for e in lst)

    def filter_eq(self, name, lst, n, pred, check):
        want = [k for k in range(int(n)) if bool(pred(k))]
        self.eq(name + ": number of values", len(lst), len(want))
        for k, v in zip(want, lst):
            check(k, v)

    def is_filter(self, name, lst, n, pred):
        self.ensured += 1
        want = [k for k in range(int(n)) if bool(pred(k))]
        if not isinstance(lst, list) or [int(e) for e in lst] != want:
            raise Violation(name, f"got {_show(lst)}, expected {want}")

    def dims(self, name, n, lo=1):
        ds = [self.dim(f"{name}@{k}", lo) for k in range(int(n))]
        return lambda k: ds[int(k)]

    def leaves(self, tree):
        import jax
        return len(jax.tree_util.tree_leaves(tree))

    def leaf(self, tree, k):
        import jax
        return jax.tree_util.tree_leaves(tree)[int(k)].reshape(-1)

    def leaf_normal(self, key, tree, k):
        import jax
        l = jax.tree_util.tree_leaves(tree)[int(k)]
        return self.normal(key, l.shape).reshape(-1)

    def tree_eq(self, name, tree, like, f):
        import jax
        self.ensure(f"{name}: structure", jax.tree_util.tree_structure(tree) == jax.tree_util.tree_structure(like))
        for k, (a, b) in enumerate(zip(jax.tree_util.tree_leaves(tree), jax.tree_util.tree_leaves(like))):
            self.ensure(f"{name}: shape of leaf {k}", tuple(a.shape) == tuple(b.shape))
            self.arr_eq(name, a.reshape(-1), (int(a.size),), lambda i: f(k, i))

    def tree(self, name, leaves=None, like=None, lo=None):
        if like is not None:
            import jax
            ls, td = jax.tree_util.tree_flatten(like)
            return jax.tree_util.tree_unflatten(td, [self.j(self.reals(f"{name}@{k}", l.shape, lo)) for k, l in enumerate(ls)])
        n = self.dim(name + ".leaves") if leaves is None else int(leaves)
        out = {}
        for k in range(n):
            size = self.dim(f"{name}.size@{k}")
            shape = self.rng.choice([(size,), (1, size), (size, 2), (2, 1, size)])
            a = self.j(self.reals(f"{name}@{k}", shape))
            if k % 3 == 1:
                out[f"z{k}"] = {"kernel": a}
            elif k % 3 == 2:
                out[f"m{k}"] = [a]
            else:
                out[f"a{k}"] = a
        return out

    def ravel(self, tree):
        import jax
        ls = [np.asarray(l).ravel() for l in jax.tree_util.tree_leaves(tree)]
        flat = np.concatenate(ls) if ls else np.zeros(0)
        return len(flat), lambda i: flat[int(i)]

    def op(self, name, args, shape, dt="f"):
        """Some fixed function of all the arguments (works under jax tracing)."""
        import jax
        import jax.numpy as jnp
        tot = 0.37 * (sum(ord(c) for c in name) % 7 + 1)
        n = 0
        for a in args:
            if isinstance(a, str):
                tot = tot + sum(ord(c) for c in a) % 5
                continue
            if a is None:
                continue
            for l in jax.tree_util.tree_leaves(a):
                l = jnp.asarray(l).ravel()
                l = (l % 997) / 97.0 if l.dtype == jnp.uint32 else l.astype(float)     # keys: keep it well conditioned
                n += 1
                tot = tot + n * jnp.sum(l * jnp.cos(0.3 + jnp.arange(l.shape[0])))
        shape = self._shape(shape)
        size = int(np.prod(shape)) if shape else 1
        r = jnp.sin(tot + 0.7 * jnp.arange(size)).reshape(shape)
        if dt == "i":
            return jnp.floor(r * 5).astype(int)
        if dt == "b":
            return r > 0
        return r

    def rowop(self, name, x, row_shape=(), extra=(), dt="f"):
        import jax.numpy as jnp
        x = jnp.asarray(x, dtype=float)
        b = x.shape[0]
        f = x.reshape(b, -1)
        w = jnp.cos(0.3 + jnp.arange(f.shape[1]))
        base = (f @ w) + 0.37 * (sum(ord(c) for c in name) % 7 + 1)
        for k, e in enumerate(extra):
            base = base + (k + 1) * e
        row_shape = self._shape(row_shape) if row_shape != () else ()
        size = int(np.prod(row_shape)) if row_shape else 1
        r = jnp.sin(base[:, None] + 0.7 * jnp.arange(size)[None]).reshape((b,) + row_shape)
        if dt == "i":
            return jnp.floor(r * 5).astype(int)
        if dt == "b":
            return r > 0
        return r

    def fun1(self, name):
        import jax.numpy as jnp
        w = 0.5 + sum(map(ord, name)) % 7 / 7
        return lambda x: jnp.exp(-w * jnp.abs(x)) + 0.1

    def loss(self, name, params):
        import jax
        import jax.numpy as jnp
        w = 0.5 + sum(map(ord, name)) % 5 / 4
        return sum(jnp.sum(jnp.sin(w * l) + 0.3 * l) for l in jax.tree_util.tree_leaves(params))

    def lossgrad(self, name, params):
        import jax
        import jax.numpy as jnp
        w = 0.5 + sum(map(ord, name)) % 5 / 4
        return jax.tree_util.tree_map(lambda l: w * jnp.cos(w * l) + 0.3, params)

    def assume(self, c):
        if not bool(c):
            raise Reject()

    def assume_all(self, n, f):
        for i in range(int(n)):
            self.assume(f(i))

    def np(self, x):
        return np.array(x)

    def j(self, x):
        import jax.numpy as jnp
        return jnp.asarray(x)

    # ------------------------------------------------------------ running the code
    def call(self, f, *a, **k):
        import warnings
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return Outcome(value=f(*a, **k))
        except (Reject, Violation):
            raise
        except Exception as e:
            return Outcome(exc=e)

    # ------------------------------------------------------------ postconditions
    def ensure(self, name, c):
        self.ensured += 1
        if not bool(np.all(np.asarray(c))):
            raise Violation(name)

    def fail(self, name, why=""):
        raise Violation(name, why)

    def eq(self, name, a, b):
        self.ensured += 1
        if not self._eq(a, b):
            raise Violation(name, f"got {_show(a)}, expected {_show(b)}")

    def _eq(self, a, b):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a is b or a == b
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype == bool and b.dtype == bool:
            return bool(np.all(a == b))
        try:
            return bool(np.allclose(a.astype(np.float64), b.astype(np.float64), rtol=self.rtol, atol=self.atol, equal_nan=True))
        except TypeError:
            return bool(np.all(a == b))

    def forall(self, name, dims, f):
        if not isinstance(dims, (tuple, list)):
            dims = (dims,)
        self.ensured += 1
        for idx in np.ndindex(*[int(d) for d in dims]):
            if not bool(np.all(np.asarray(f(*idx)))):
                raise Violation(name, f"at index {idx}")

    def each(self, name, n, check):
        for i in range(int(n)):
            check(i)

    def items(self, x):
        return list(x)

    def same_seq(self, name, x, y):
        self.eq(f"{name}: length", len(x), len(y))
        for a, b in zip(x, y):
            self.same(name, a, b)

    def all_of(self, conds):
        return all(bool(c) for c in conds)

    def shape(self, name, x, dims):
        s = np.shape(x)
        if tuple(s) != tuple(int(d) for d in dims):
            raise Violation(f"{name}: shape", f"got {s}, expected {tuple(int(d) for d in dims)}")
        return True

    def arr_eq(self, name, x, dims, f, rtol=None, atol=None):
        self.ensured += 1
        try:
            x = np.asarray(x)
        except Exception as e:
            raise Violation(name, f"not an array: {type(x).__name__}")
        self.shape(name, x, dims)
        old = self.rtol, self.atol
        if rtol is not None:
            self.rtol = rtol
        if atol is not None:
            self.atol = atol
        try:
            for idx in np.ndindex(*[int(d) for d in dims]):
                w = f(*idx)
                if not self._eq(x[idx], w):
                    raise Violation(name, f"at {idx}: got {_show(x[idx])}, expected {_show(w)}")
        finally:
            self.rtol, self.atol = old

    def same(self, name, x, y):
        self.arr_eq(name, x, np.shape(y), lambda *i: self.at(y, *i))

    def no_exception(self, name, r):
        if r.exc is not None:
            raise Violation(f"{name}: raises nothing", f"{type(r.exc).__name__}: {str(r.exc)[:300]}")
        return True

    def raises_iff(self, name, r, types, cond):
        c = bool(cond)
        self.ensured += 1
        if r.exc is None:
            if c:
                raise Violation(f"{name}: invalid input is rejected")
            return True
        if isinstance(r.exc, types):
            if not c:
                raise Violation(f"{name}: valid input is accepted", f"{type(r.exc).__name__}: {str(r.exc)[:300]}")
            return False
        raise Violation(f"{name}: only the documented exception", f"{type(r.exc).__name__}: {str(r.exc)[:300]}")

    def snapshot(self, *objs):
        return [(o, _csnap(o, set())) for o in objs]

    def unchanged(self, name, snap):
        for o, s in snap:
            d = _cdiff(s, _csnap(o, set()))
            self.ensured += 1
            if d:
                raise Violation(name, d)

    def callee(self, path, spec, stub=False):
        """stub: the concrete reading, too, replaces the callee (its inputs would need a whole trained model)."""
        return install_callee(self, path, lambda real, b, a, k: spec(b) if stub else real(*a, **k))

    # ------------------------------------------------------------ specification functions
    def at(self, x, *i):
        if isinstance(x, (list, tuple)):
            r = x[int(i[0])]
            return r if len(i) == 1 else self.at(r, *i[1:])
        if any(isinstance(k, self.tracer) for k in (x,) + i):
            return x[tuple(i)]          # being traced by jax
        if not isinstance(x, np.ndarray):
            c = self._np.get(id(x))
            if c is None or c[0] is not x:
                c = self._np[id(x)] = (x, np.asarray(x))
            x = c[1]
        return x[tuple(int(k) for k in i)]

    def len(self, x): return len(x)
    def sum(self, n, f): return sum([_num(f(i)) for i in range(int(n))], 0)
    def count(self, n, f): return sum(1 for i in range(int(n)) if bool(f(i)))
    def select(self, n, pred, f, *tail):
        import jax.numpy as jnp
        tail = tuple(int(d) for d in tail)
        rows = [np.array([f(i, *q) for q in np.ndindex(*tail)], dtype=float).reshape(tail) for i in range(int(n)) if pred(i)]
        return jnp.array(np.array(rows).reshape((len(rows),) + tail))

    def mean(self, n, f): return self.sum(n, f) / n if n else float("nan")
    def div(self, a, b):
        with np.errstate(all="ignore"):
            return np.float64(a) / np.float64(b)

    def vec(self, n, f): return np.array([f(i) for i in range(int(n))])

    def mat(self, dims, f):
        dims = tuple(int(d) for d in dims)
        out = np.empty(dims)
        for idx in np.ndindex(*dims):
            out[idx] = f(*idx)
        return out
    def max(self, n, f): return max(f(i) for i in range(int(n)))
    def min(self, n, f): return min(f(i) for i in range(int(n)))
    def argmax(self, n, f): return int(np.argmax(self.vec(n, f)))
    def argmin(self, n, f): return int(np.argmin(self.vec(n, f)))
    def exists(self, n, f): return any(bool(f(i)) for i in range(int(n)))
    def all(self, n, f): return all(bool(f(i)) for i in range(int(n)))
    def quantile(self, n, f, q): return np.quantile(self.vec(n, f), q) if 0 <= q <= 1 else self._jquantile(n, f, q)

    def _jquantile(self, n, f, q):
        import jax.numpy as jnp
        return np.asarray(jnp.quantile(jnp.asarray(self.vec(n, f)), q))

    def logsumexp(self, n, f):
        v = np.array([f(i) for i in range(int(n))], dtype=np.float64)
        m = v.max()
        return m + math.log(np.exp(v - m).sum())

    def argsort(self, n, f):
        v = np.argsort(self.vec(n, f), kind="stable")
        return lambda j: int(v[int(j)])

    def ite(self, c, a, b): return a if bool(c) else b
    def lazy_ite(self, c, a, b):
        return a() if c else b()

    def implies(self, a, b): return (not bool(a)) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def not_(self, a): return not bool(a)
    def and_(self, *cs): return all(bool(c) for c in cs)
    def or_(self, *cs): return any(bool(c) for c in cs)
    def exp(self, x): return np.exp(np.float64(x))

    def log(self, x):
        with np.errstate(all="ignore"):
            return np.log(np.float64(x))

    def sqrt(self, x):
        with np.errstate(all="ignore"):
            return np.sqrt(np.float64(x))
    def cos(self, x): return np.cos(np.float64(x))
    def tanh(self, x): return np.tanh(np.float64(x))
    def abs(self, x): return abs(x)
    def ceil(self, x): return math.ceil(x)
    def floor(self, x): return math.floor(x)
    def fdiv(self, a, b): return a // b
    def mod(self, a, b): return a % b
    def pow(self, a, b): return a ** b
    def clip(self, x, a, b): return min(max(x, a), b)
    def max2(self, a, b): return max(a, b)
    def min2(self, a, b): return min(a, b)
    def toreal(self, x): return float(x)
    def toint(self, x): return int(x)
    pi = math.pi

    def split(self, key, num, k):
        import jax
        return jax.random.split(key, num)[k]

    def normal(self, key, shape):
        import jax
        return jax.random.normal(key, self._shape(shape))

    def np_choice(self, seed, n):
        return np.random.default_rng(seed).choice(int(n), int(n), replace=False)

    def fold_in(self, key, data):
        import jax
        return jax.random.fold_in(key, int(data))

    def rand(self, name, *a, **k):
        import jax
        return getattr(jax.random, name)(*a, **k)

    def float_only(self, f):
        """Precondition of floating point only (conditioning, underflow): the proof over the reals does not need it."""
        if not bool(f()):
            raise Reject()

    def eigmin(self, a):
        return float(np.linalg.eigvalsh(np.asarray(a)).min())

    def pinv(self, a):
        import jax.numpy as jnp
        return jnp.linalg.pinv(a)

    def mvn_logpdf(self, x, mean, cov):
        from jax.scipy.stats import multivariate_normal
        import jax.numpy as jnp
        return multivariate_normal.logpdf(jnp.asarray(x), jnp.asarray(mean), jnp.asarray(cov))

    def invariant(self, *a, **k):
        return None


def _num(x):
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    return x


def _show(x):
    s = str(np.asarray(x)) if not isinstance(x, (str, type(None))) else repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def _csnap(o, seen):
    import jax
    if isinstance(o, (np.ndarray, jax.Array)):
        return ("arr", np.array(o))
    if id(o) in seen:
        return ("rec",)
    if isinstance(o, dict):
        seen = seen | {id(o)}
        return ("dict", [(k, _csnap(v, seen)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        seen = seen | {id(o)}
        return ("list", [_csnap(v, seen) for v in o])
    if hasattr(o, "__dict__") and not callable(o) and not isinstance(o, type):
        seen = seen | {id(o)}
        return ("dict", [(k, _csnap(v, seen)) for k, v in vars(o).items()])
    return ("val", o)


def _cdiff(a, b, path=""):
    if a[0] != b[0]:
        return f"{path or 'value'} replaced"
    if a[0] == "arr":
        same = a[1].shape == b[1].shape and np.array_equal(a[1], b[1], equal_nan=a[1].dtype.kind == "f")
        return None if same else f"{path or 'array'} modified"
    if a[0] == "dict":
        if [k for k, _ in a[1]] != [k for k, _ in b[1]]:
            return f"{path}: keys changed"
        for (k, x), (_, y) in zip(a[1], b[1]):
            d = _cdiff(x, y, f"{path}.{k}")
            if d:
                return d
        return None
    if a[0] == "list":
        if len(a[1]) != len(b[1]):
            return f"{path or 'list'}: length {len(a[1])} became {len(b[1])}"
        for k, (x, y) in enumerate(zip(a[1], b[1])):
            d = _cdiff(x, y, f"{path}[{k}]")
            if d:
                return d
        return None
    if a[0] == "val":
        try:
            return None if a[1] is b[1] or bool(a[1] == b[1]) else f"{path or 'value'} modified"
        except Exception:
            return None
    return None
