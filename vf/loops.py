"""Loop rule for `for` statements over symbolic iterables.

The loop is executed once for an arbitrary iteration k on a havocked state (preservation), and
once for the exit.  The summary of carried variables is either inferred (unchanged / additive
accumulation / append / overwritten) from the effect of the generic iteration, or given by an
invariant registered by the contract for that function.
"""
from __future__ import annotations
import sys
import z3
from . import core, shim, explore
from . import objs
from .objs import ObjArr
from .core import Arr, C, IntS, SymSeq, Unsupported, KillPath, lift, tz, dz, dim


class Undefined:
    def __repr__(self):
        return "<undefined local>"

    def _bad(self, *a, **k):
        raise UnboundLocalError("local variable referenced before assignment")
    __getattr__ = __call__ = __add__ = __getitem__ = __iter__ = __bool__ = _bad
    __eq__ = object.__eq__
    __hash__ = object.__hash__

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise UnboundLocalError("local variable referenced before assignment")


UNDEF = Undefined()


class ConcreteLoop:
    symbolic = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def leave(self):
        pass


def _obj_read(i):
    raise Unsupported("read of an object array inside the loop that fills it")


class ListCarry(SymSeq):
    """A list under construction inside the generic iteration."""

    def __init__(self, n):
        super().__init__(n, self._no)
        self.items = []
        self.sets = []

    def _no(self, k):
        raise Unsupported("read of a list being built in a symbolic loop")

    def append(self, v):
        self.items.append(v)

    def __setitem__(self, k, v):
        self.sets.append((tz(k), v))

    def extend(self, vs):
        self.items.extend(list(vs))


def vf_loop(it, key, carried):
    from .loader import as_seq, concrete_iter
    s = as_seq(it)
    if s is None:
        return ConcreteLoop(concrete_iter(it))
    if C.generic:
        raise Unsupported("symbolic loop inside a generic element")
    return SymLoop(s, key, carried)


SUMMARIES = {}
BREAKS = set()      # loops whose first iteration always leaves


class SymLoop:
    symbolic = True

    def __init__(self, seq, key, carried):
        self.seq, self.key, self.carried = seq, key, carried
        self.inv = getattr(C, "invariants", {}).get(key)
        self.state = "new"
        self.pos = len(C.decisions)
        # decision 0: generic iteration, 1: exit.  LIFO order explores every path through the
        # generic iteration before the exit path.
        self.entry_key = (tuple(C.decisions), key)
        d = len(C.decisions)
        if d < len(C.prefix):
            self.branch = C.prefix[d]
        else:
            C.worklist.append(C.decisions + [1])
            self.branch = 0
            SUMMARIES[self.entry_key] = []
        C.decisions.append(self.branch)
        self.k = core.index_const("it")
        self.pc_mark = len(C.pc)
        if not carried:
            self.state = "havocked"
        self.entry = {}
        self.hav = {}
        self.pristine = {}
        self.frame_snap = []
        self.inner_iter = False

    # ---------------------------------------------------------------- carried variables
    def havoc(self, loc):
        self.entry = {c: loc.get(c, UNDEF) for c in self.carried}
        out = []
        if self.branch == 0:
            self.hav = {}
            for c in self.carried:
                self.hav[c] = self._fresh(c, self.entry[c])
                out.append(self.hav[c])
            if self.inv is not None:
                for name, g in self.inv.check(self.entry, z3.IntVal(0), self):
                    explore.obligation(f"loop {self.key}: invariant '{name}' holds on entry", g)
                for g in self.inv.assume(self.hav, self.k, self):
                    C.assume(g)
        else:
            vals = self._summary()
            out = [vals[c] for c in self.carried]
            if self.inv is not None:
                for g in self.inv.assume(vals, dz(self.seq.n), self):
                    C.assume(g)
        self.state = "havocked"
        return tuple(out)

    def _fresh(self, c, v):
        if v is UNDEF:
            return UNDEF
        if self.inv is not None and c in self.inv.fresh:
            return self.inv.fresh[c](c, v, self)
        if isinstance(v, list):
            return ListCarry(0)
        if isinstance(v, SymSeq):
            return ListCarry(v.n)
        if isinstance(v, ObjArr):
            return ObjArr(v.n, _obj_read)
        if isinstance(v, (dict, tuple)) or hasattr(v, "__dict__") and not isinstance(v, Arr) and not hasattr(v, "__vf_lift__"):
            return v       # must stay unchanged (checked at the end of the iteration)
        try:
            h = shim.fresh_like(v, c)
        except Unsupported:
            return v
        if self.entry_key in PROMOTE and c in PROMOTE[self.entry_key]:
            h = shim.fresh_like(lift(v) * 1.0, c)
        return h

    def leave(self):
        """break or return in the generic iteration: the code after the loop runs on the state of that iteration."""
        if self in C.loop_stack:
            C.loop_stack.remove(self)
        if all(z3.is_true(z3.simplify(g)) for g in C.pc[self.pc_mark:]):
            C.assume(self.k == 0)
            BREAKS.add(self.entry_key)

    # ---------------------------------------------------------------- iteration protocol
    def __iter__(self):
        return self

    def __next__(self):
        frame = sys._getframe(1)
        if self.branch == 1:
            if self.entry_key in BREAKS:
                if not explore._feasible(dz(self.seq.n) <= 0):
                    raise KillPath()
                C.assume(dz(self.seq.n) <= 0)
            raise StopIteration
        if self.state == "havocked":
            self.state = "running"
            C.assume(z3.And(self.k >= 0, self.k < dz(self.seq.n)))
            C.loop_stack.append(self)
            self.pc_mark = len(C.pc)
            for c, h in self.hav.items():
                if isinstance(h, Arr):
                    self.pristine[c] = h.copy_()
            el = self.seq.elem(self.k)
            from .sym import _snap
            keep = [(n, v) for n, v in frame.f_locals.items() if not n.startswith("_vf_") and not (n in self.hav and isinstance(v, (Arr, ListCarry, ObjArr)))
                    and v is not UNDEF]
            self.frame_snap = [(n, v, _snap(v, set())) for n, v in keep] + [("the loop element", el, _snap(el, set()))]
            return el
        # end of the generic iteration
        C.loop_stack.pop()
        loc = frame.f_locals
        if self.inv is not None:
            cur = {c: loc.get(c, UNDEF) for c in self.carried}
            for name, g in self.inv.check(cur, z3.simplify(self.k + 1), self):
                explore.obligation(f"loop {self.key}: invariant '{name}' preserved", g)
        from .sym import _snap, _snapdiff
        for nm, v, sn in self.frame_snap:
            d = _snapdiff(sn, _snap(v, set()))
            if d:
                raise Unsupported(f"loop {self.key}: {nm} modified inside a symbolic loop ({d})")
        guard = list(C.pc[self.pc_mark:])
        eff = {}
        for c in self.carried:
            eff[c] = self._effect(c, self.hav[c], loc.get(c, UNDEF))
        SUMMARIES[self.entry_key].append((guard, eff, self.k))
        for h in getattr(C, "iter_end_hooks", []):
            h(self)
        raise KillPath()

    def _effect(self, c, h, e):
        if self.inv is not None and c in self.inv.vars:
            return ("inv", None)
        if isinstance(h, ListCarry):
            if e is not h:
                raise Unsupported(f"list {c} rebound inside a symbolic loop")
            if h.sets:
                if h.items or len(h.sets) > 1 or not z3.simplify(h.sets[0][0] == self.k).eq(z3.BoolVal(True)):
                    raise Unsupported(f"assignment to elements of list {c} in a symbolic loop")
                return ("setk", h.sets[0][1])
            if not h.items:
                return ("same", None)
            if len(h.items) == 1:
                return ("append", h.items[0])
            return ("appendn", list(h.items))
        if isinstance(h, ObjArr):
            if e is not h:
                raise Unsupported(f"object array {c} rebound inside a symbolic loop")
            return ("obj", list(h.ops))
        if e is h and isinstance(h, Arr) and h._fn is not self.pristine[c]._fn:
            return ("val", e, self.pristine[c], "inplace")
        if isinstance(h, Arr) and h._fn is not self.pristine[c]._fn:
            raise Unsupported(f"{c} modified in place and rebound inside a symbolic loop")
        if e is h:
            return ("same", None)
        if h is UNDEF:
            return ("last", e)
        return ("val", e, h)

    # ---------------------------------------------------------------- exit summary
    def _summary(self):
        effs = SUMMARIES.get(self.entry_key, [])
        vals = {}
        n = dz(self.seq.n)
        for c in self.carried:
            v0 = self.entry[c]
            if self.inv is not None and c in self.inv.vars:
                vals[c] = self._fresh(c, v0) if not isinstance(v0, list) or c in self.inv.fresh else v0
                continue
            kinds = {e[c][0] for _, e, _ in effs}
            if kinds <= {"same"}:
                vals[c] = v0
                continue
            if kinds == {"obj"}:
                vals[c] = objs.loop_result(self, v0, [(g, e[c][1], k) for g, e, k in effs])
                continue
            if kinds <= {"setk", "same"}:
                if not isinstance(v0, SymSeq):
                    vals[c] = Poison(f"list {c} of loop {self.key}")
                    continue
                base = v0.elem

                def elem(q, c=c, base=base, effs=effs):
                    r = None
                    for g, e, k in reversed(effs):
                        it = core.tree_subst(e[c][1], [(k, tz(q))]) if e[c][0] == "setk" else base(q)
                        gg = z3.substitute(z3.And(*g) if g else z3.BoolVal(True), (k, tz(q)))
                        r = it if r is None else core.merge_val(z3.simplify(gg), it, r)
                    if not core.same_dim(v0.n, self.seq.n):
                        r = core.merge_val(z3.simplify(tz(q) < n), r, base(q))
                    return r
                vals[c] = SymSeq(v0.n, elem)
                continue
            if kinds == {"append"} and len(effs) == 1:
                _, e, k = effs[0]
                item = e[c][1]
                s = SymSeq(self.seq.n, lambda q, item=item, k=k: core.tree_subst(item, [(k, tz(q))]))
                vals[c] = (v0 + s) if isinstance(v0, SymSeq) else (s if not v0 else SymSeq(len(v0), lambda q, v0=v0: core.select_py(q, v0)) + s)
                continue
            if kinds <= {"append"} and len(effs) > 1:
                # one item per iteration on every path: merge by guards
                def elem(q, c=c):
                    r = None
                    for g, e, k in reversed(effs):
                        it = core.tree_subst(e[c][1], [(k, tz(q))])
                        gg = z3.substitute(z3.And(*g) if g else z3.BoolVal(True), (k, tz(q)))
                        r = it if r is None else core.merge_val(gg, it, r)
                    return r
                s = SymSeq(self.seq.n, elem)
                vals[c] = (v0 + s) if isinstance(v0, SymSeq) else (s if not v0 else SymSeq(len(v0), lambda q, v0=v0: core.select_py(q, v0)) + s)
                continue
            if kinds == {"append", "same"} and (isinstance(v0, list) and not v0):
                allh = {e[cc][2].fn(tuple(z3.IntVal(0) for _ in e[cc][2].sh)).decl().name() for _, e, _ in effs for cc in e if e[cc][0] == "val" and isinstance(e[cc][2], Arr)}
                if any(mentions(x, allh) for g, _, _ in effs for x in g):
                    vals[c] = Poison(f"loop {self.key}: append to {c} depends on a carried variable")
                    continue
                apps = [(g, e, k) for g, e, k in effs if e[c][0] == "append"]

                def mask(j, apps=apps):
                    return z3.simplify(z3.Or(*[z3.substitute(z3.And(*g) if g else z3.BoolVal(True), (k, tz(j))) for g, _, k in apps]))

                def item(j, c=c, apps=apps):
                    r = None
                    for g, e, k in reversed(apps):
                        it = core.tree_subst(e[c][1], [(k, tz(j))])
                        gg = z3.substitute(z3.And(*g) if g else z3.BoolVal(True), (k, tz(j)))
                        r = it if r is None else core.merge_val(gg, it, r)
                    return r
                vals[c] = objs.FilterSeq(self.seq.n, mask, item)
                continue
            if kinds == {"last"}:
                if len(effs) != 1:
                    vals[c] = UNDEF
                    continue
                _, e, k = effs[0]
                vals[c] = LastValue(e[c][1], k, n, c)
                try:
                    vals[c] = core.tree_subst(e[c][1], [(k, z3.simplify(n - 1))])
                except Unsupported:
                    vals[c] = UNDEF
                continue
            if kinds <= {"val", "same"}:
                r = self._accumulate(c, v0, effs, n)
                if any(len(e[c]) > 3 for _, e, _ in effs) and isinstance(r, Arr):
                    if not all(len(e[c]) > 3 or e[c][0] == "same" for _, e, _ in effs) or not isinstance(v0, Arr) or len(r.sh) != len(v0.sh):
                        r = Poison(f"loop {self.key}: {c} modified in place on some paths only")
                    else:          # the object keeps its identity (aliases see the change)
                        f, dt = r._fn, v0.dt
                        v0._fn, v0._memo = (lambda i, f=f, dt=dt: core.cast(f(i), dt)), {}
                        r = v0
                vals[c] = r
                continue
            vals[c] = Poison(f"variable {c} of loop {self.key} needs an invariant")
        return vals

    def _accumulate(self, c, v0, effs, n):
        names = set()
        hv = [e[c][2] for _, e, _ in effs if e[c][0] == "val"]
        if not isinstance(v0, (Arr, int, float, bool)):
            return Poison(f"loop {self.key}: carried variable {c}")
        allh = set()
        for _, e, _ in effs:
            for cc, ef in e.items():
                if ef[0] == "val" and isinstance(ef[2], Arr):
                    h = ef[2]
                    t = h.fn(tuple(z3.IntVal(0) for _ in h.sh))
                    allh.add(t.decl().name())
        parts = []
        lastonly = True
        for g, e, k in effs:
            if any(mentions(x, allh) for x in g):
                return Poison(f"loop {self.key}: branch on a carried variable")
            if e[c][0] == "same":
                lastonly = False
                continue
            _, end, h = e[c][:3]
            end, h = lift(end), lift(h)
            if len(end.sh) != len(h.sh):
                return Poison(f"loop {self.key}: shape of {c} changes")
            idx = tuple(core._probe_idx(60 + q) for q in range(len(h.sh)))
            et, ht = end.fn(idx), h.fn(idx)
            if idx and et.sort() == ht.sort():
                away = z3.simplify(drop_eq(et, idx[0], k))
                if away.eq(z3.simplify(ht)):
                    here = z3.simplify(z3.substitute(et, (idx[0], k)))
                    if not mentions(here, allh):
                        lastonly = False
                        parts.append(("point", g, end, k))
                        continue
            if not mentions(et, allh):
                parts.append(("last", g, end, k))
                continue
            lastonly = False
            if idx and et.sort() == ht.sort() and overwritten(et, ht, allh) is not None:
                parts.append(("mask", g, end, k, h))
                continue
            if et.sort() != ht.sort():
                if et.sort() == core.RealS and ht.sort() == core.IntS:
                    PROMOTE.setdefault(self.entry_key, set()).add(c)
                    return Poison(f"loop {self.key}: {c} changes from int to float")
                return Poison(f"loop {self.key}: {c} changes type")
            if et.sort() not in (core.RealS, core.IntS):
                return Poison(f"loop {self.key}: {c}")
            diff = z3.simplify(et - ht, som=True)
            if mentions(diff, allh):
                return Poison(f"loop {self.key}: {c} is not an additive accumulator; needs an invariant")
            parts.append(("sum", g, Arr(h.sh, lambda i, end=end, h=h: z3.simplify(end.fn(i) - h.fn(i), som=True), end.dt), k))
        if lastonly and len(parts) == 1 and len(effs) == 1:
            _, g, end, k = parts[0]
            return core.merge_val(z3.simplify(n <= 0), v0, core.tree_subst(end, [(k, z3.simplify(n - 1))]))
        if parts and all(p[0] == "point" for p in parts):
            a0 = v0.copy_() if isinstance(v0, Arr) else lift(v0)

            full = dz(a0.sh[0]).eq(n)

            def pfn(i):
                q = i[0]
                r = None if full and len(parts) == len(effs) else a0.fn(i)     # every iteration takes one of the paths
                for _, g, arr, k in reversed(parts):
                    nv = core.cast(z3.substitute(arr.fn((k,) + tuple(i[1:])), (k, q)), a0.dt)
                    c = [] if full else [q >= 0, q < n]          # element functions are only read at valid indices
                    c = c + [z3.substitute(x, (k, q)) for x in g]
                    r = z3.If(z3.And(*c), nv, r) if c and r is not None else nv
                return r
            return Arr(a0.sh, pfn, a0.dt, a0.kind)
        if parts and all(p[0] == "mask" for p in parts):
            return self._masked(v0 if isinstance(v0, Arr) else lift(v0), parts, allh, n)
        if any(p[0] != "sum" for p in parts):
            return Poison(f"loop {self.key}: {c} is overwritten on some paths")
        a0 = lift(v0)
        dt = core.common_dt([a0.dt] + [p[2].dt for p in parts])

        def fn(i):
            t = core.cast(a0.fn(i), dt)
            for _, g, arr, k in parts:
                gg = z3.And(*g) if g else None

                def body(q, arr=arr, gg=gg, k=k):
                    v = core.cast(core.tree_subst(arr, [(k, q)]).fn(i), dt)
                    if gg is None:
                        return v
                    zero = z3.RealVal(0) if v.sort() == core.RealS else z3.IntVal(0)
                    return z3.If(z3.substitute(gg, (k, q)), v, zero)
                t = t + core.cast(core.sum_term(self.seq.n, body), dt)
            return t
        shape = parts[0][2].sh
        return Arr(shape, fn, dt, a0.kind)


    def _masked(self, a0, parts, allh, n):
        """Iterations that overwrite the elements of a mask: an element has the value of the last iteration that hits it."""
        a0 = a0.copy_()
        Kf = z3.Function(C.fresh_name("lastk"), *([IntS] * (len(a0.sh) + 1)))
        cands = getattr(self.seq, "cands", [])

        def cases(i, k):
            out = []
            for _, g, end, k0, h in parts:
                hit, val = overwritten(end.fn(i), h.fn(i), allh)
                out.append((z3.substitute(z3.And(*g, hit), (k0, k)), z3.substitute(val, (k0, k))))
            return out

        def fn(i):
            K = Kf(*i)
            cs = cases(i, K)
            hitK = z3.And(K >= 0, K < n, z3.Or(*[c for c, _ in cs]))
            for cf in cands:
                r = cf(*i)
                if r is None:
                    continue
                p, facts = r
                C.assume(facts)
                C.assume(z3.Or(hitK, z3.Not(z3.Or(*[c for c, _ in cases(i, p)])), p < 0, p >= n))
            v = a0.fn(i)
            for c, x in reversed(cs):
                v = z3.If(z3.And(hitK, c), core.cast(x, a0.dt), v)
            return v
        return Arr(a0.sh, fn, a0.dt, a0.kind)


def overwritten(t, h, names):
    """(hit, value) when t is `if hit then value else h` and neither hit nor value depends on the state; None otherwise."""
    if t.eq(h):
        return z3.BoolVal(False), t
    if not mentions(t, names):
        return z3.BoolVal(True), t
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        if mentions(c, names):
            return None
        ra, rb = overwritten(a, h, names), overwritten(b, h, names)
        if ra is None or rb is None:
            return None
        hit = z3.simplify(z3.If(c, ra[0], rb[0]))
        if z3.is_false(ra[0]):
            return hit, rb[1]
        if z3.is_false(rb[0]):
            return hit, ra[1]
        return hit, z3.If(c, ra[1], rb[1])
    return None


def drop_eq(t, i, k):
    """t under the assumption i != k (both index variables): equalities between them become false."""
    cache = {}

    def go(e):
        r = cache.get(e.get_id())
        if r is not None:
            return r
        if z3.is_app(e):
            if z3.is_eq(e) and {e.arg(0).get_id(), e.arg(1).get_id()} == {i.get_id(), k.get_id()}:
                r = z3.BoolVal(False)
            elif e.num_args():
                ch = [go(c) for c in e.children()]
                r = e.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, e.children())) else e
            else:
                r = e
        else:
            r = e
        cache[e.get_id()] = r
        return r
    return go(t)


PROMOTE = {}


class LastValue:
    def __init__(self, *a):
        self.a = a


class Poison:
    """A variable whose value after the loop is unknown to the engine."""

    def __init__(self, why):
        object.__setattr__(self, "why", why)

    def _bad(self, *a, **k):
        raise Unsupported(object.__getattribute__(self, "why"))

    def __getattr__(self, n):
        raise Unsupported(object.__getattribute__(self, "why"))
    __call__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __truediv__ = __getitem__ = __iter__ = __bool__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __vf_lift__ = _bad


def mentions(t, nameset):
    seen, st = set(), [t]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if e.decl().name() in nameset:
                return True
            inf = C.infos.get(e.decl().name())
            if inf is not None:
                st.extend(inf.params)
                for s, b in inf.arrays:
                    st.append(b)
                    st.extend(s)
        st.extend(e.children())
    return False


class Invariant:
    """vars: carried variables it covers; assume(state, k, loop) -> facts; check -> [(name, goal)]."""

    def __init__(self, vars, facts, fresh=None):
        self.vars = set(vars)
        self.facts = facts
        self.fresh = fresh or {}

    def assume(self, state, k, loop):
        return [g for _, g in self.facts(state, k, loop, "assume")]

    def check(self, state, k, loop):
        return self.facts(state, k, loop, "check")
