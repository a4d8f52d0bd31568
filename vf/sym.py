"""Symbolic reading of contracts (runs under the shim)."""
from __future__ import annotations
import os
import z3
from . import core, shim, explore, loader, loops
from .api import Outcome, install_callee
from .core import (Arr, C, SymSeq, Unsupported, KillPath, lift, tz, dz, dim, sdim, index_const, scalar, to_real, to_int, to_bool,
                   RealS, IntS, BoolS, KeySort)


class Sym:
    sym = True

    def __init__(self):
        C.dim_names = set()
        C.inputs = {}
        C.elem_inv = {}
        C.elem_top = {}
        C.pos_dims, C.pos_funs = set(), set()
        C.invariants = {}
        C.iter_end_hooks = []
        self.ensured = 0
        self.undo = []

    # ------------------------------------------------------------ inputs
    def dim(self, name, lo=1, hi=None):
        C.dim_names.add(name)
        C.inputs[name] = ("dim", name)
        x = z3.Int(name)
        C.assume(x >= dz(dim(lo)))
        if core.positive(dz(dim(lo))):
            C.pos_dims.add(name)
        if hi is not None:
            C.assume(x <= tz(lift(hi)))
        return sdim(x)

    def devices(self):
        """The number of available devices (any)."""
        return shim.local_device_count()

    def index(self, name, n):
        """an index of a dimension of size n (at least 1)"""
        C.index_dims[name] = dz(dim(n))
        return self.int(name, 0, n - 1)

    def int(self, name, lo=None, hi=None, **k):
        C.inputs[name] = ("int", name)
        x = z3.Int(name)
        if lo is not None:
            C.assume(x >= tz(lift(lo)))
        if hi is not None:
            C.assume(x <= tz(lift(hi)))
        return Arr((), lambda _: x, "i", "py")

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, array=False, **k):
        C.inputs[name] = ("real", name)
        x = z3.Real(name)
        if lo is not None:
            l = to_real(tz(lift(lo)))
            C.assume(x > l if lo_open else x >= l)
            if isinstance(lo, (int, float)) and (lo > 0 or lo == 0 and lo_open):
                C.pos_funs.add(name)
        if hi is not None:
            h = to_real(tz(lift(hi)))
            C.assume(x < h if hi_open else x <= h)
        return Arr((), lambda _: x, "f", "jnp" if array else "py")

    def bool(self, name):
        return self.choice(name, [False, True])

    def choice(self, name, opts):
        k = explore.fork_n(len(opts))
        C.inputs[name] = ("choice", k)
        return opts[k]

    def _arr(self, name, shape, srt, dt, inv):
        if isinstance(shape, (int, Arr)):
            shape = (shape,)
        shape = tuple(dim(d) for d in shape)
        C.inputs[name] = ("arr", name, shape, dt)
        f = z3.Function(name, *([IntS] * len(shape) + [srt])) if shape else None
        if f is None:
            c = z3.Const(name, srt)
            if inv:
                C.assume(inv(c, c))
            return Arr((), lambda _: c, dt)
        if inv is not None:
            C.elem_inv[name] = lambda e: inv(e, e)
        return Arr(shape, lambda i: f(*i), dt)

    def reals(self, name, shape, lo=None, hi=None, lo_open=False, hi_open=False, **k):
        l = None if lo is None else to_real(tz(lift(lo)))
        h = None if hi is None else to_real(tz(lift(hi)))

        def inv(e, _):
            cs = []
            if l is not None:
                cs.append(e > l if lo_open else e >= l)
            if h is not None:
                cs.append(e < h if hi_open else e <= h)
            return z3.And(*cs) if cs else None
        return self._arr(name, shape, RealS, "f", inv if (lo is not None or hi is not None) else None)

    def ints(self, name, shape, lo=None, hi=None, **k):
        l = None if lo is None else tz(lift(lo))
        h = None if hi is None else tz(lift(hi))

        def inv(e, _):
            cs = []
            if l is not None:
                cs.append(e >= l)
            if h is not None:
                cs.append(e < h)      # half-open: [lo, hi)
            return z3.And(*cs) if cs else None
        if isinstance(lo, int) and lo >= 0 and hi is not None:
            C.elem_top[name] = h
        return self._arr(name, shape, IntS, "i", inv)

    def bools(self, name, shape):
        return self._arr(name, shape, BoolS, "b", None)

    def key(self, name):
        C.inputs[name] = ("key", name)
        x = z3.Const(name, KeySort)
        return Arr((), lambda _: x, "k")

    def seq(self, name, n, elem):
        """A python list of symbolic length n whose k-th element is elem(k)."""
        return SymSeq(dim(n), lambda k: elem(scalar(tz(k), "py")))

    def intlist(self, name, n, lo=None, hi=None):
        """A python list of ints of unknown length n."""
        a = self.ints(name, (n,), lo, hi)
        return SymSeq(dim(n), lambda k: scalar(a.fn((tz(k),)), "py"))

    def intlists(self, name, n, lens, lo=None, hi=None):
        """A list of n lists of ints; list k has length lens(k)."""
        fam = self.family(name, n, lambda k: (lens(k),), "ints", lo, hi)

        def elem(k):
            a = fam.elem(k)
            return SymSeq(a.sh[0], lambda j: scalar(a.fn((tz(j),)), "py"))
        return SymSeq(fam.n, elem)

    def undecided(self, why):
        raise Unsupported(why)

    def concat_eq(self, name, x, n, lens, tail, f):
        """x is the concatenation over l < n of blocks of lens(l) rows with shape tail; row j of block l is f(l, j, ...)."""
        seq = SymSeq(dim(n), lambda l: Arr((dim(lens(scalar(tz(l), "py"))),) + tuple(dim(d) for d in tail),
                                           lambda i: tz(lift(f(scalar(tz(l), "py"), *[scalar(e, "py") for e in i]))), "f"))
        want = seq.concatenated(0)
        self.arr_eq(name, x, want.sh, lambda *i: self.at(want, *i))

    def concat(self, n, lens, f, *tail):
        """(N, g): the blocks f(l, j) (j < lens(l)) in order; g(q, *i) = f(l, j)(*i) for the q-th row."""
        tl = tuple(dim(d) for d in tail)
        seq = SymSeq(dim(n), lambda l: Arr((dim(lens(scalar(tz(l), "py"))),) + tl, lambda i: to_real(tz(lift(
            f(scalar(tz(l), "py"), scalar(i[0], "py"))(*[scalar(e, "py") for e in i[1:]])))), "f"))
        c = seq.concatenated(0)
        return sdim(c.sh[0]), lambda q, *i: self.at(c, q, *i)

    def filter_eq(self, name, lst, n, pred, check):
        """lst is the list of one value for every k < n with pred(k), in order; check(k, value) states what the value is."""
        from . import objs
        n = dim(n)

        def p(k):
            return to_bool(tz(lift(pred(scalar(k, "py")))))
        if isinstance(lst, (list, tuple)) and not lst:
            self.forall(name + ": empty", sdim(n), lambda k: scalar(z3.Not(p(tz(k)))))
            return
        if not isinstance(lst, SymSeq):
            raise Unsupported(f"{type(lst).__name__} as a list of selected values")
        if isinstance(lst, objs.FilterSeq):
            self.ensure(name + ": range", scalar(dz(lst.base) == dz(n)))
            self.forall(name + ": selection", sdim(n), lambda k: scalar(to_bool(lst.mask(tz(k))) == p(tz(k))))
            item = lst.item
        else:
            self.ensure(name + ": nothing is left out", scalar(dz(lst.n) == dz(n)))
            self.forall(name + ": everything is selected", sdim(n), lambda k: scalar(p(tz(k))))
            item = lst.elem
        k = index_const("sel")
        mark = len(C.pc)
        C.pc.extend([k >= 0, k < dz(n), p(k)])
        try:
            check(scalar(k, "py"), item(k))
        finally:
            del C.pc[mark:]

    def member(self, lst, v):
        from .objs import list_member
        return scalar(list_member(lst, v))

    def is_filter(self, name, lst, n, pred):
        """lst is the increasing list of the indices k < n with pred(k)."""
        from . import objs

        def p(k):
            return to_bool(tz(lift(pred(scalar(k, "py")))))

        def check(nm, l, pc):
            mark = len(C.pc)
            C.pc.extend(pc)
            try:
                if isinstance(l, objs.CaseList):
                    none = []
                    for c, x in l.cases:
                        check(nm, x, none + [c])
                        none.append(z3.Not(c))
                    C.pc.extend(none)
                    self.ensured += 1
                    explore.obligation(nm + ": every position is filled", z3.BoolVal(False))
                    return
                if isinstance(l, (list, tuple)) and not l:
                    self.forall(nm + ": empty", n, lambda k: scalar(z3.Not(p(tz(k)))))
                    return
                if isinstance(l, objs.TrueIdx):
                    self.ensured += 1
                    explore.obligation(nm + ": range", dz(l.dimn) == dz(dim(n)))
                    self.forall(nm + ": members", n, lambda k: scalar(to_bool(l.maskfn(tz(k))) == p(tz(k))))
                    return
                if isinstance(l, (list, tuple, SymSeq)):
                    raise Unsupported("ordered content of a list")
                self.fail(nm, f"{type(l).__name__} instead of a list")
            finally:
                del C.pc[mark:]
        check(name, lst, [])

    def family(self, name, n, shape_of, kind="reals", lo=None, hi=None, lo_open=False, hi_open=False):
        """A sequence of n arrays; array k has shape shape_of(k)."""
        srt, dt = {"reals": (RealS, "f"), "ints": (IntS, "i"), "bools": (BoolS, "b")}[kind]
        rank = len(shape_of(scalar(z3.IntVal(0), "py")))
        f = z3.Function(name, *([IntS] * (rank + 1) + [srt]))
        C.inputs[name] = ("family", name)
        l = None if lo is None else tz(lift(lo))
        h = None if hi is None else tz(lift(hi))
        if l is not None or h is not None:
            def inv(e):
                cs = []
                if l is not None:
                    cs.append(e > l if lo_open else e >= l)
                if h is not None:
                    cs.append((e < h) if (kind == "ints" or hi_open) else (e <= h))
                return z3.And(*cs)
            C.elem_inv[name] = inv

        def elem(k):
            kk = tz(k)
            return Arr(tuple(dim(d) for d in shape_of(scalar(kk, "py"))), lambda i: f(kk, *i), dt)
        return SymSeq(dim(n), elem)

    def dims(self, name, n, lo=1):
        """n unknown dimensions (an int-valued sequence)."""
        f = z3.Function(name, IntS, IntS)
        C.elem_inv[name] = lambda e: e >= lo
        C.inputs[name] = ("dims", name)
        if lo >= 1:
            C.pos_funs.add(name)

        def elem(k):
            return Arr((), lambda _: f(tz(k)), "i", "py")
        return elem

    def tree(self, name, leaves=None, like=None, lo=None):
        """A pytree of arbitrarily many arrays of arbitrary sizes (each leaf in flattened form)."""
        if like is not None:
            return shim.SymTree.of_flat(like.n, self.j(self.reals(name, like.flat.sh, lo)), like.layout)
        n = self.dim(name + ".leaves") if leaves is None else leaves
        sizes = self.dims(name + ".sizes", n)
        off = z3.Function(name + ".offset", IntS, IntS)
        flat = self.reals(name, (self.dim(name + ".size"),))
        return shim.SymTree.of_flat(dim(n), self.j(flat), (lambda k: dim(sizes(k)), lambda k: off(tz(k))))

    def leaves(self, tree):
        return sdim(tree.n)

    def leaf(self, tree, k):
        """Leaf k, flattened."""
        return tree.leaf(z3.simplify(tz(lift(k))))

    def leaf_normal(self, key, tree, k):
        """Standard normals shaped like leaf k, flattened."""
        return shim.rnormal(key, self.leaf(tree, k).sh)

    def tree_eq(self, name, tree, like, f):
        """tree has the structure of like; element i of (flattened) leaf k is f(k, i)."""
        if not isinstance(tree, shim.SymTree):
            self.fail(name, f"{type(tree).__name__} instead of a tree")
            return
        self.ensure(f"{name}: structure", dz(tree.n) == dz(like.n))
        self.each(name, sdim(like.n), lambda k: self.arr_eq(name, self.leaf(tree, k), self.leaf(like, k).sh, lambda i: f(k, i)))

    def ravel(self, tree):
        """-> number of elements of the tree, all of them in order"""
        flat = shim.ravel_pytree(tree)[0]
        return self.len(flat), lambda i: self.at(flat, i)

    def op(self, name, args, shape, dt="f"):
        """Application of an arbitrary (uninterpreted, deterministic) array function: an abstract dependency.
        Results may depend on every element of every argument."""
        params, arrays = [], []
        for a in args:
            if isinstance(a, (list, tuple, dict)) or isinstance(a, shim.SymTree):
                for l in shim.tree_leaves(a):
                    l = lift(l)
                    (params.append(tz(l)) if l.sh == () else arrays.append((l.sh, l.fn)))
            elif a is None:
                continue
            elif isinstance(a, str):
                name = name + ":" + a
            else:
                l = lift(a)
                if l.sh == ():
                    params.append(tz(l))
                else:
                    arrays.append((l.sh, l.fn))
        shape = tuple(dim(d) for d in shape)
        srt = {"f": RealS, "i": IntS, "b": BoolS}[dt]
        r = Arr(shape, lambda i: core.vecop("op_" + name, params + list(i), arrays, srt), dt)
        # force evaluation of lazily-raised errors is unnecessary: arguments are total
        return r

    def rowop(self, name, x, row_shape=(), extra=(), dt="f"):
        """An arbitrary function applied independently to every row of x (batch independence)."""
        x = lift(x)
        srt = {"f": RealS, "i": IntS, "b": BoolS}[dt]
        extra = [tz(lift(e)) for e in extra]
        row_shape = tuple(dim(d) for d in row_shape)

        def fn(idx):
            b, rest = idx[0], idx[1:]
            inner = x.sh[1:]
            if inner:
                return core.vecop("row_" + name, extra + list(rest), [(inner, lambda j: x.fn((b,) + j))], srt)
            f = z3.Function("row1_" + name, *([e.sort() for e in extra] + [x.fn((b,)).sort()] + [IntS] * len(rest) + [srt]))
            return f(*extra, x.fn((b,)), *rest)
        return Arr((x.sh[0],) + row_shape, fn, dt)

    def fun1(self, name):
        """An arbitrary real function of one real argument, applied elementwise."""
        f = z3.Function(name, RealS, RealS)
        return lambda x: core.unop(x, lambda t: f(to_real(t)))

    def loss(self, name, params):
        """An arbitrary differentiable function of the tree: the sum of a function of one real over all elements."""
        f = z3.Function(name, RealS, RealS)
        flat = shim.ravel_pytree(params)[0]
        r = self.sum(flat.sh[0], lambda i: core.unop(self.at(flat, i), lambda t: f(to_real(t))))
        r = Arr((), r._fn, r.dt) if isinstance(r, Arr) else r
        r.vf_grad = (params, self.lossgrad(name, params))
        return r

    def lossgrad(self, name, params):
        """Its gradient."""
        g = z3.Function(name + "'", RealS, RealS)
        return shim.tree_map(lambda x: core.unop(x, lambda t: g(to_real(t))), params)

    def assume(self, c):
        C.assume(to_bool(tz(lift(c))))

    def assume_all(self, n, f):
        """forall i < n: f(i) - instantiated at the index terms of each obligation."""
        i = index_const("fa")
        body = to_bool(tz(lift(f(scalar(i, "py")))))
        t = core.vecop("any", [], [((dim(n),), lambda j: z3.Not(z3.substitute(body, (i, j[0]))))], BoolS)
        C.assume(z3.Not(t))

    def np(self, x):
        """As a numpy-typed input array."""
        r = x.copy_()
        r.kind = "np"
        return r

    def j(self, x):
        if isinstance(x, Arr):
            r = x.copy_()
            r.kind = "jnp"
            return r
        return x

    # ------------------------------------------------------------ running the code
    def call(self, f, *a, **k):
        C.active_verification = True
        try:
            return Outcome(value=f(*a, **k))
        except core.Modelled as e:
            return Outcome(exc=e)
        except Exception as e:
            self._classify(e)
            return Outcome(exc=e)
        finally:
            C.active_verification = False

    def _classify(self, e):
        if os.environ.get("VF_DEBUG"):
            import traceback
            print("".join(traceback.format_exception(e)[-40:]))
        tb = e.__traceback__
        last = None
        while tb is not None:
            last = tb
            tb = tb.tb_next
        fn = last.tb_frame.f_code.co_filename
        import ctypes
        if isinstance(e, (z3.Z3Exception, ctypes.ArgumentError, RecursionError)) or "/vf/" in fn and not isinstance(e, (core.Modelled, UnboundLocalError)):
            raise Unsupported(f"{type(e).__name__}: {e} (in the verifier: {fn}:{last.tb_lineno}) [{explore.where(e)}]")

    def drain(self, gen):
        """Run an iterator; on each path yields at most one generic iteration.  Returns the list of values
        yielded on this path; the current generic index (or None after the loop) is self.iter_index."""
        raise NotImplementedError

    # ------------------------------------------------------------ postconditions
    def ensure(self, name, c):
        self.ensured += 1
        explore.obligation(name, to_bool(tz(lift(c))))

    def fail(self, name, why=""):
        explore.obligation(f"{name}{': ' + why if why else ''}", z3.BoolVal(False))

    def eq(self, name, a, b):
        self.ensure(name, self._eq(a, b))

    def _eq(self, a, b):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a is b or a == b
        a, b = lift(a), lift(b)
        return a == b

    def forall(self, name, dims, f):
        """f(i, j, ...) for every index below dims."""
        if not isinstance(dims, (tuple, list)):
            dims = (dims,)
        dims = [dim(d) for d in dims]
        for q, d in enumerate(dims):
            if isinstance(d, int) and d <= 12:
                for v in range(d):
                    self.forall(f"{name}[{v}]", dims[:q] + dims[q + 1:], lambda *i, v=v, q=q: f(*(i[:q] + (v,) + i[q:])))
                return
        mark = len(C.pc)
        idx = []
        for d in dims:
            i = index_const("g")
            C.pc.append(i >= 0)
            C.pc.append(i < dz(dim(d)))
            idx.append(scalar(i, "py"))
        try:
            g = f(*idx)
            self.ensured += 1
            explore.obligation(name, to_bool(tz(lift(g))))
        finally:
            del C.pc[mark:]

    def each(self, name, n, check):
        """Run the checks of `check(i)` for every i < n (obligations under a generic index)."""
        if isinstance(dim(n), int) and dim(n) <= 4:
            for v in range(dim(n)):
                check(v)
            return
        mark = len(C.pc)
        i = index_const("e")
        C.pc.extend([i >= 0, i < dz(dim(n))])
        try:
            check(scalar(i, "py"))
        finally:
            del C.pc[mark:]

    def items(self, x):
        """The elements an iterable produces, as a sequence (of possibly unknown length)."""
        s = loader.as_seq(x)
        if s is None:
            return list(loader.concrete_iter(x))
        return s

    def same_seq(self, name, x, y):
        if x is y:
            self.ensured += 1
            explore.obligation(name, z3.BoolVal(True))
            return
        self.eq(f"{name}: length", self.len(x), self.len(y))
        self.each(name, self.len(y), lambda i: self.same(name, self.at(x, i), self.at(y, i)))

    def all_of(self, conds):
        r = z3.BoolVal(True)
        for c in conds:
            r = z3.And(r, to_bool(tz(lift(c))))
        return scalar(r)

    def shape(self, name, x, dims):
        x = lift(x)
        if len(x.sh) != len(dims):
            self.fail(f"{name}: rank {len(x.sh)} instead of {len(dims)}")
            return False
        self.ensured += 1
        explore.obligation(f"{name}: shape", z3.And(*[dz(a) == dz(dim(b)) for a, b in zip(x.sh, dims)]) if dims else z3.BoolVal(True))
        return True

    def arr_eq(self, name, x, dims, f, **k):
        """x has shape dims and x[i..] == f(i..) everywhere."""
        if isinstance(x, (list, tuple, SymSeq)):
            x = core.stack(x) if not isinstance(x, SymSeq) else x.stacked(0)
        if not self._arrlike(x):
            self.fail(name, f"result is {type(x).__name__}, not an array")
            return
        x = lift(x)
        if not self.shape(name, x, dims):
            return
        if not dims:
            self.eq(name, x, f())
            return
        self.forall(name, dims, lambda *i: self._eq(self.at(x, *i), f(*i)))

    def same(self, name, x, y):
        """x and y are the same array (shape and elements)."""
        if not self._arrlike(x) and not isinstance(x, SymSeq):
            self.fail(name, f"{type(x).__name__} instead of an array")
            return
        y = lift(y)
        self.arr_eq(name, x, y.sh, lambda *i: self.at(y, *i))

    def _arrlike(self, x):
        return isinstance(x, (Arr, int, float, bool)) or hasattr(x, "__vf_lift__")

    def no_exception(self, name, r):
        if r.exc is not None:
            self.fail(f"{name}: raises nothing", f"{type(r.exc).__name__}: {r.exc} at {explore.where(r.exc)}")
            return False
        return True

    def raises_iff(self, name, r, types, cond):
        """The call raises one of `types` exactly when cond; returns True when it returned normally."""
        c = to_bool(tz(lift(cond)))
        if r.exc is None:
            self.ensured += 1
            explore.obligation(f"{name}: invalid input is rejected", z3.Not(c))
            C.assume(z3.Not(c))
            return True
        if isinstance(r.exc, types):
            self.ensured += 1
            explore.obligation(f"{name}: valid input is accepted", c)
            return False
        self.fail(f"{name}: only the documented exception", f"{type(r.exc).__name__}: {r.exc} at {explore.where(r.exc)}")
        return False

    # frames ---------------------------------------------------------
    def snapshot(self, *objs):
        return [(o, _snap(o, set())) for o in objs]

    def unchanged(self, name, snap):
        for o, s in snap:
            d = _snapdiff(s, _snap(o, set()))
            self.ensured += 1
            explore.obligation(f"{name}{': ' + d if d else ''}", z3.BoolVal(d is None))

    # ------------------------------------------------------------ specification functions
    def at(self, x, *i):
        if isinstance(x, (list, tuple)) and i:
            k = z3.simplify(tz(lift(i[0])))
            r = core.select_py(k, list(x))
            return r if len(i) == 1 else self.at(r, *i[1:])
        x = lift(x) if not isinstance(x, SymSeq) else x
        if isinstance(x, SymSeq):
            k = z3.simplify(tz(lift(i[0])))
            r = x.elem(k)
            return r if len(i) == 1 else self.at(r, *i[1:])
        return scalar(x.fn(tuple(z3.simplify(tz(lift(k))) for k in i)))

    def len(self, x):
        return loader.vlen(x)

    def sum(self, n, f):
        return scalar(core.sum_term(dim(n), lambda i: tz(lift(f(scalar(i, "py"))))))

    def count(self, n, f):
        return scalar(core.sum_term(dim(n), lambda i: to_int(to_bool(tz(lift(f(scalar(i, "py"))))))))

    def select(self, n, pred, f, *tail):
        """The array of the f(i) (shape tail) of the i < n with pred(i), in order."""
        m = Arr((dim(n),), lambda i: to_bool(tz(lift(pred(scalar(i[0], "py"))))), "b")
        return core.getitem(self.mat((n,) + tail, f), m)

    def mean(self, n, f):
        return self.sum(n, f) / n

    def div(self, a, b):
        return lift(a) / lift(b)

    def _vec(self, n, f):
        return Arr((dim(n),), lambda i: tz(lift(f(scalar(i[0], "py")))), None)

    def vec(self, n, f):
        r = self._vec(n, f)
        r.dt = core._probe_dt(r)
        return r

    def mat(self, dims, f):
        r = Arr(tuple(dim(d) for d in dims), lambda i: tz(lift(f(*[scalar(e, "py") for e in i]))), None)
        r.dt = core._probe_dt(r)
        return r

    def max(self, n, f):
        return core.amax(self.vec(n, f))

    def min(self, n, f):
        return core.amin(self.vec(n, f))

    def argmax(self, n, f):
        return core.argmax(self.vec(n, f))

    def argmin(self, n, f):
        return core.argmin(self.vec(n, f))

    def exists(self, n, f):
        return core.aany(self.vec(n, f))

    def all(self, n, f):
        return core.aall(self.vec(n, f))

    def quantile(self, n, f, q):
        return shim.quantile(self.vec(n, f), q)

    def logsumexp(self, n, f):
        return self.log(self.sum(n, lambda i: self.exp(f(i))))

    def argsort(self, n, f):
        v = shim.argsort(self.vec(n, f))
        return lambda j: self.at(v, j)

    def ite(self, c, a, b):
        return core.where_(lift(c), lift(a), lift(b))

    def lazy_ite(self, c, a, b):
        """ite with branches that the concrete reading evaluates only when selected."""
        return self.ite(c, a(), b())

    def implies(self, a, b):
        return (~lift(a)) | lift(b) if not isinstance(a, bool) else ((not a) or b)

    def iff(self, a, b):
        return lift(a) == lift(b)

    def not_(self, a):
        return ~lift(a)

    def and_(self, *cs):
        return self.all_of(cs)

    def or_(self, *cs):
        r = z3.BoolVal(False)
        for c in cs:
            r = z3.Or(r, to_bool(tz(lift(c))))
        return scalar(r)

    def exp(self, x): return core.unop(x, core.fexp)
    def log(self, x): return core.unop(x, core.flog)
    def sqrt(self, x): return core.unop(x, core.fsqrt)
    def cos(self, x): return core.unop(x, core.fun1("cos"))
    def tanh(self, x): return core.unop(x, core.fun1("tanh"))
    def abs(self, x): return core.unop(x, core._abs)
    def ceil(self, x): return core.unop(x, lambda t: -z3.ToInt(-to_real(t)))
    def floor(self, x): return core.unop(x, lambda t: z3.ToInt(to_real(t)))
    def fdiv(self, a, b): return lift(a) // lift(b)
    def mod(self, a, b): return lift(a) % lift(b)
    def pow(self, a, b): return lift(a) ** b
    def clip(self, x, a, b): return shim.clip(x, a, b)
    def max2(self, a, b): return shim.maximum(a, b)
    def min2(self, a, b): return shim.minimum(a, b)
    def toreal(self, x): return core.unop(x, to_real)
    def toint(self, x): return core.unop(x, lambda t: core.trunc(t) if t.sort() == RealS else to_int(t))

    @property
    def pi(self):
        return shim.PI

    # randomness (assumed library contracts, shared by code and specification)
    def split(self, key, num, k):
        return self.at(shim.rsplit(key, num), k)

    def normal(self, key, shape):
        return shim.rnormal(key, shape)

    def np_choice(self, seed, n):
        """The permutation of range(n) that NumPy's generator draws from the seed."""
        return shim.default_rng(seed).choice(n, n, replace=False)

    def fold_in(self, key, data):
        return shim.fold_in(key, data)

    def rand(self, name, *a, **k):
        return shim.module("jax.random").__dict__[name](*a, **k)

    def float_only(self, f):
        """Precondition of floating point only (conditioning, underflow): the proof over the reals does not need it."""

    def pinv(self, a):
        return shim.pinv(a)

    def mvn_logpdf(self, x, mean, cov):
        return shim.mvn_logpdf(x, mean, cov)

    def callee(self, path, spec, stub=False):
        """Modular step: calls of `path` are replaced by its contract.  spec(b) gets the bound arguments,
        may state the call-site precondition with t.ensure, and returns the (abstract) result."""
        return install_callee(self, path, lambda real, b, a, k: spec(b))

    def invariant(self, key, vars, facts, fresh=None):
        C.invariants[key] = loops.Invariant(vars, facts, fresh)


def _snap(o, seen):
    if isinstance(o, Arr):
        return ("arr", o, o._fn, o.sh)
    if isinstance(o, SymSeq):
        return ("seq", o, o.n if isinstance(o.n, int) else o.n.get_id(), o.elem)
    if id(o) in seen:
        return ("rec",)
    if isinstance(o, dict):
        seen = seen | {id(o)}
        return ("dict", type(o), [(k, _snap(v, seen)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        seen = seen | {id(o)}
        return (type(o).__name__, [_snap(v, seen) for v in o])
    if hasattr(o, "__dict__") and not callable(o) and not isinstance(o, type):
        seen = seen | {id(o)}
        return ("obj", id(o), [(k, _snap(v, seen)) for k, v in vars(o).items()])
    return ("val", o)


def _snapdiff(a, b, path=""):
    if a[0] != b[0]:
        return f"{path or 'value'} replaced"
    if a[0] == "arr":
        return None if a[1] is b[1] and a[2] is b[2] else (f"{path or 'array'} modified" if not _same_arr(a, b) else None)
    if a[0] == "seq":
        return None if a[1] is b[1] and a[2] == b[2] and a[3] is b[3] else f"{path or 'sequence'} modified"
    if a[0] in ("dict", "obj"):
        ka, kb = [k for k, _ in a[2]], [k for k, _ in b[2]]
        if ka != kb:
            return f"{path or a[0]}: keys {ka} became {kb}"
        for (k, x), (_, y) in zip(a[2], b[2]):
            d = _snapdiff(x, y, f"{path}.{k}")
            if d:
                return d
        return None
    if a[0] in ("list", "tuple"):
        if len(a[1]) != len(b[1]):
            return f"{path or a[0]}: length {len(a[1])} became {len(b[1])}"
        for k, (x, y) in enumerate(zip(a[1], b[1])):
            d = _snapdiff(x, y, f"{path}[{k}]")
            if d:
                return d
        return None
    if a[0] == "val":
        return None if a[1] is b[1] or a[1] == b[1] else f"{path or 'value'} modified"
    return None


def _same_arr(a, b):
    x, y = a[1], b[1]
    try:
        idx = tuple(core._probe_idx(70 + k) for k in range(len(a[3])))
        return len(a[3]) == len(b[3]) and z3.simplify(to_bool(a[2](idx) == b[2](idx))).eq(z3.BoolVal(True))
    except Exception:
        return False
