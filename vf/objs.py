"""Lists of indices and NumPy object arrays (ragged results)."""
from __future__ import annotations
import z3
from . import core
from .core import Arr, C, SymSeq, Unsupported, NZ, lift, tz, dz, dim, scalar, to_bool, IntS, BoolS


def list_member(lst, v):
    """v in lst as a formula."""
    v = tz(lift(v))
    if isinstance(lst, SymSeq):
        return lst.member(v)
    if isinstance(lst, Arr):
        return to_bool(tz(core.aany(lst == scalar(v))))
    r = z3.BoolVal(False)
    for e in lst:
        r = z3.Or(r, to_bool(tz(lift(e) == scalar(v))))
    return z3.simplify(r)


def _seq_member(self, v):
    k = core.index_const("mem")
    e = self.elem(k)
    body = to_bool(tz(lift(e) == scalar(v)))
    return core.vecop("any", [], [((self.n,), lambda i: z3.substitute(body, (k, i[0])))], BoolS)


SymSeq.member = _seq_member


class TrueIdx(SymSeq):
    """The increasing list of the indices j < n with mask(j)."""

    def __init__(self, n, maskfn):
        self.dimn, self.maskfn = n, maskfn
        cnt = core.sum_term(n, lambda j: core.to_int(to_bool(maskfn(j))))

        def elem(k):
            return scalar(core.vecop("nth_true", [tz(k)], [((n,), lambda i: to_bool(maskfn(i[0])))], IntS), "py")
        super().__init__(dim(cnt), elem)

    def member(self, v):
        return z3.simplify(z3.And(v >= 0, v < dz(self.dimn), to_bool(self.maskfn(v))))

    def __vf_subst__(self, pairs):
        f = self.maskfn
        n = dim(z3.substitute(dz(self.dimn), *pairs)) if core.is_sym_dim(self.dimn) else self.dimn
        j0 = core.index_const("ti")
        t = z3.substitute(to_bool(f(j0)), *pairs)
        return TrueIdx(n, lambda j: z3.substitute(t, (j0, tz(j))))


class FilterSeq(SymSeq):
    """item(j) for the increasing j < n with mask(j)."""

    def __init__(self, n, mask, item):
        self.base, self.mask, self.item = n, mask, item
        idx = TrueIdx(n, mask)
        super().__init__(idx.n, lambda k: item(tz(idx.elem(k))))

    def __vf_subst__(self, pairs):
        n = dim(z3.substitute(dz(self.base), *pairs)) if core.is_sym_dim(self.base) else self.base
        j0 = core.index_const("fs")
        t = z3.substitute(to_bool(self.mask(j0)), *pairs)
        return FilterSeq(n, lambda j: z3.substitute(t, (j0, tz(j))), lambda j: core.tree_subst(self.item(j), pairs))

    def map(self, f):
        def item(j):
            with core.generic_scope():
                return f(self.item(j))
        return FilterSeq(self.base, self.mask, item)


class CaseList(SymSeq):
    """One of several lists, selected by conditions (first match)."""

    def __init__(self, cases, default=None):
        self.cases, self.default = cases, default
        n = z3.IntVal(0)
        for c, l in reversed(cases):
            n = z3.If(c, dz(l.n) if isinstance(l, SymSeq) else z3.IntVal(len(l)), n)
        super().__init__(dim(z3.simplify(n)), self._el)

    def _el(self, k):
        raise Unsupported("element of a conditional list")

    def member(self, v):
        r, none = z3.BoolVal(False), z3.BoolVal(True)
        for c, l in self.cases:
            r = z3.Or(r, z3.And(none, c, list_member(l, v)))
            none = z3.And(none, z3.Not(c))
        return r

    def __vf_subst__(self, pairs):
        return CaseList([(z3.substitute(c, *pairs), core.tree_subst(l, pairs)) for c, l in self.cases], self.default)


class NZ2:
    """One coordinate of np.where(mask2d)."""

    def __init__(self, m, axis):
        self.m, self.axis = m, axis

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        if self.axis != 1 or len(shape) != 2 or not (isinstance(shape[0], int) and shape[0] == -1 or core.same_dim(dim(shape[0]), self.m.sh[0])):
            raise Unsupported("reshape of np.where coordinates")
        m, auto = self.m, isinstance(shape[0], int) and shape[0] == -1
        sel = m.mask
        base = sel[2] if sel is not None else m
        rows, K = base.sh
        i = core.index_const("row")
        us = dz(dim(shape[1]))
        mark = len(C.pc)
        try:
            C.pc.append(z3.And(i >= 0, i < dz(rows)))
            if sel is not None:
                C.pc.append(to_bool(sel[1].fn((i,))))
            cnt = core.sum_term(K, lambda j: core.to_int(to_bool(base.fn((i, j)))))
            from .explore import _feasible
            if _feasible(z3.Or(cnt != us, us <= 0) if auto else cnt != us):
                raise Unsupported("rows of np.where coordinates of possibly different length")
        finally:
            del C.pc[mark:]
        return RowLists(base, sel[1] if sel is not None else None)


class RowLists:
    def __init__(self, base, mask):
        self.base, self.mask = base, mask

    def row(self, i):
        return TrueIdx(self.base.sh[1], lambda j: self.base.fn((i, tz(j))))

    def tolist(self):
        if self.mask is None:
            return SymSeq(self.base.sh[0], lambda i: self.row(tz(i)))
        return self


class ObjArr:
    """1-D object array."""
    __hash__ = object.__hash__

    def __init__(self, n, elem):
        self.n, self.elem = dim(n), elem
        self.ops = []

    def __vf_len__(self):
        return core.sdim(self.n)

    def __setitem__(self, key, v):
        if isinstance(key, NZ):
            key = key.maskarr
        if isinstance(key, Arr) and key.dt == "b" and len(key.sh) == 1:
            if not core.same_dim(key.sh[0], self.n):
                raise core.ModelledIndexError("boolean index did not match")
            mf = lambda i: to_bool(key.fn((i,)))
        elif isinstance(key, (int, Arr)) and lift(key).sh == () and lift(key).dt == "i":
            t = core.clamp_index(tz(lift(key)), self.n)
            v = [v]
            mf = lambda i: i == t
        else:
            raise Unsupported("object array assignment")
        if isinstance(v, RowLists):
            if v.mask is None or not core.mask_equal(v.mask, key):
                raise Unsupported("object array assignment under a different mask")
            val = v.row
        elif isinstance(v, list) and len(v) == 1:
            val = lambda i, x=v[0]: x
        else:
            raise Unsupported("object array assignment of a free sequence")
        self.ops.append((mf, val))
        old = self.elem
        self.elem = lambda i: as_case([(mf(tz(i)), val(tz(i)))], old(i))

    def tolist(self):
        return SymSeq(self.n, lambda k: self.elem(tz(k)))


def as_case(cases, default):
    if isinstance(default, CaseList):
        return CaseList(cases + default.cases, default.default)
    return CaseList(cases, default)


def loop_result(loop, v0, effs):
    """Object array after a symbolic loop whose generic iteration overwrites masked positions."""
    Kf = z3.Function(C.fresh_name("lastk"), IntS, IntS)
    n = dz(loop.seq.n)
    cands = getattr(loop.seq, "cands", [])

    def at_k(t, k0, k):
        return z3.substitute(t, (k0, k))

    def elem(i):
        i = tz(i)

        def cases(k):
            out = []
            for g, ops, k0 in effs:
                gg = z3.And(*g) if g else z3.BoolVal(True)
                for mf, val in reversed(ops):
                    c = at_k(z3.And(gg, mf(i)), k0, k)
                    out.append((c, core.tree_subst(val(i), [(k0, k)])))
            return out
        K = Kf(i)
        cs = cases(K)
        hitK = z3.And(K >= 0, K < n, z3.Or(*[c for c, _ in cs]))
        for cf in cands:
            if cf(i) is None:
                continue
            p, facts = cf(i)
            C.assume(facts)
            C.assume(z3.Or(hitK, z3.Not(z3.Or(*[c for c, _ in cases(p)])), p < 0, p >= n))
        C.assume(z3.Implies(z3.Not(hitK), K == -1))
        return as_case([(z3.And(hitK, c), l) for c, l in cs], v0.elem(i))
    return ObjArr(v0.n, elem)


class UniqueSeq(SymSeq):
    """Sorted distinct values of an array."""

    def __vf_lift__(self):
        return Arr((self.n,), lambda i: tz(self.elem(i[0])), self.dt, self.kind)

    def tolist(self):
        return self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.__vf_lift__(), n)


class ElementSet:
    """The set of the elements of an array."""
    __hash__ = None

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            raise Unsupported("comparison of a symbolic set")
        x, o = self.x, sorted(o)
        eq = lambda i, v: core.to_real(x.fn(i)) == core.to_real(tz(v))
        foreign = core.vecop("any", [], [(x.sh, lambda i: z3.Not(z3.Or(*[eq(i, v) for v in o])))], core.BoolS)
        there = [core.vecop("any", [], [(x.sh, lambda i, v=v: eq(i, v))], core.BoolS) for v in o]
        return scalar(z3.And(z3.Not(foreign), *there))

    def __ne__(self, o):
        return ~(self == o)


def vset(*a):
    if a and isinstance(a[0], UniqueSeq):
        return ElementSet(a[0].source)
    from .loader import concrete_iter
    return set(*[concrete_iter(x) for x in a])


def unique_seq(x):
    """Sorted distinct values of an array (flattened)."""
    n = core.sdim(core.total(x.sh))
    n = dz(core.dim(n))
    arrays = [(x.sh, lambda i: x.fn(i))]
    rank = len(x.sh)
    m = core.vecop("uniq_n", [], arrays, IntS)
    C.assume(z3.And(m >= 0, m <= n, (m == 0) == (n == 0)))
    sort = x.fn(tuple(z3.IntVal(0) for _ in x.sh)).sort()
    u = lambda k: core.vecop("uniq", [k], arrays, sort)
    pos = lambda i: core.vecop("uniq_pos", list(i), arrays, IntS)
    wit = lambda k: tuple(core.vecop(f"uniq_wit{q}" if q else "uniq_wit", [k], arrays, IntS) for q in range(rank))
    inside = lambda i: z3.And(*[z3.And(a >= 0, a < dz(d)) for a, d in zip(i, x.sh)])

    def elem(k):
        k = tz(k)
        w = wit(k)
        C.assume(z3.Implies(z3.And(k >= 0, k < m), z3.And(inside(w), x.fn(w) == u(k))))
        return scalar(u(k), x.kind)

    def cand(*i):
        if len(i) != rank:
            return None
        p = pos(i)
        elem(p)
        return p, z3.Implies(inside(i), z3.And(p >= 0, p < m, u(p) == x.fn(tuple(i))))
    s = UniqueSeq(dim(m), elem)
    s.dt, s.kind = x.dt, x.kind
    s.cands, s.source = [cand], x
    return s
