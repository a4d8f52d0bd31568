"""Discharging obligations: on-demand instantiation of operator lemmas + z3 / cvc5."""
from __future__ import annotations
import os
import subprocess
import tempfile
import time
import z3
from . import core
from . import canon as canonical
from .canon import canon, merge_divmod
from .core import C, RealS, IntS, BoolS, dz

STATS = {"z3": 0, "syntactic": 0, "cvc5": 0, "seconds": 0.0}


def subterms(ts, seen=None):
    seen = set() if seen is None else seen
    st = list(ts)
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        yield e
        if z3.is_quantifier(e):
            continue
        st.extend(e.children())


def _sk(base, n):
    return [z3.FreshInt(base) for _ in range(n)]


def in_range(idx, shape):
    cs = []
    for i, d in zip(idx, shape):
        cs += [i >= 0, i < d]
    return cs


class Closure:
    """Grows a set of lemma instances for the vector operators occurring in formulas."""

    def __init__(self, hints=()):
        self.hints = set(hints)
        self.lemmas = []
        self.seen_terms = set()
        self.apps = {}          # op -> list of (app, info)
        self.app_ids = set()
        self.fun_apps = {}      # uf name -> list of apps
        self.pairs = set()
        self.index_terms = {}
        self.gen = 0
        self.ufpairs = set()

    def scan(self, ts, register=True):
        """Collect new terms; returns new vector-operator applications."""
        new = []
        for e in subterms(ts, self.seen_terms):
            if not z3.is_app(e):
                continue
            if e.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                if e.decl().kind() == z3.Z3_OP_DIV or e.decl().kind() == z3.Z3_OP_TO_INT:
                    pass
                continue
            name = e.decl().name()
            info = C.infos.get(name)
            if info is not None:
                if e.get_id() not in self.app_ids:
                    self.app_ids.add(e.get_id())
                    self.apps.setdefault(info.op, []).append((e, info))
                    new.append((e, info))
                continue
            inv = C.elem_inv.get(name)
            if inv is not None:
                c = inv(e)
                if c is not None:
                    self.lemmas.append(c)
                    new += self.scan([c])
            if name in UF_AX:
                for c in UF_AX[name](e):
                    self.lemmas.append(c)
                    new += self.scan([c])
                self.fun_apps.setdefault(name, []).append(e)
            if e.num_args() == 0 and e.sort() == IntS:
                self.index_terms[e.get_id()] = e
        return new

    def add(self, c):
        c = canon(c)
        self.lemmas.append(c)
        return self.scan([c])

    def op_axioms(self, app, info):
        """Axioms of a single application."""
        new = []
        op = info.op
        shp0 = core.inst_shape(info, app, 0) if info.arrays else None
        if op == "any":
            w = _sk("w_any", len(shp0))
            new += self.add(z3.Implies(app, z3.And(*in_range(w, shp0), core.inst(info, app, 0, w))))
        elif op in ("max", "min"):
            w = _sk("w_" + op, len(shp0))
            nonempty = z3.And(*[d > 0 for d in shp0])
            new += self.add(z3.Implies(nonempty, z3.And(*in_range(w, shp0), core.inst(info, app, 0, w) == app)))
        elif op in ("argmax", "argmin") or op.startswith("choice"):
            new += self.add(z3.Implies(shp0[0] > 0, z3.And(app >= 0, app < shp0[0])))
        elif op in ("argsort", "perm"):
            p = core.inst_params(info, app)[0]
            new += self.add(z3.Implies(z3.And(p >= 0, p < shp0[0]), z3.And(app >= 0, app < shp0[0])))
        elif op == "sum":
            body_sort = info.arrays[0][1].sort()
            b = z3.Int("bv!0!0")
            body = info.arrays[0][1]
            ind = core._indicator(body)
            if ind is not None:      # a count: 0 <= count <= n
                z = 0
                n = core.to_real(shp0[0]) if body_sort == RealS else shp0[0]
                new += self.add(z3.And(app >= z, z3.Implies(shp0[0] >= 0, app <= n)))
                w = _sk("w_cnt", 1)
                # count > 0 has a witness
                new += self.add(z3.Implies(app > 0, z3.And(w[0] >= 0, w[0] < shp0[0], z3.substitute(
                    ind, *(list(zip(info.phs, app.children())) + [(b, w[0])])))))
            elif "sum_nonneg" in self.hints:
                w = _sk("w_nn", 1)[0]
                new += self.add(z3.Or(app >= 0, z3.And(w >= 0, w < shp0[0], core.inst(info, app, 0, [w]) < 0)))
            if body_sort == RealS and canonical.positive(app):
                new += self.add(app > 0)
            elif body_sort == RealS and canonical.nonneg(app):
                new += self.add(app >= 0)
            new += self.add(z3.Implies(shp0[0] <= 0, app == 0))
            wz = _sk("w_z", 1)[0]
            bz = core.inst(info, app, 0, [wz])
            new += self.add(z3.Or(app == 0, z3.And(wz >= 0, wz < shp0[0], bz != 0)))
        elif op == "maskpos":
            p = core.inst_params(info, app)[0]
            new += self.add(z3.And(app >= 0))
        elif op == "quantile":
            # a quantile (q in [0,1]) lies between attained values
            w = _sk("w_q", 2)
            s = list(zip(in_range([w[0]], shp0)))
            new += self.add(z3.Implies(shp0[0] > 0, z3.And(*in_range([w[0]], shp0), *in_range([w[1]], shp0),
                            core.inst(info, app, 0, [w[0]]) <= app, app <= core.inst(info, app, 0, [w[1]]))))
        return new

    def instantiate_universals(self, cap=24):
        """any == False / max >= element, at every known index constant."""
        idx = list(self.index_terms.values())[:cap]
        lem = []
        for op in ("any", "max", "min", "argmax", "argmin", "sum"):
            for app, info in list(self.apps.get(op, [])):
                if op == "sum" and core._indicator(info.arrays[0][1]) is None:
                    continue
                shp = core.inst_shape(info, app, 0)
                k = len(shp)
                cand = [()]
                for _ in range(k):
                    cand = [c + (t,) for c in cand for t in idx]
                    if len(cand) > 400:
                        cand = cand[:400]
                for c in cand:
                    key = (app.get_id(), tuple(t.get_id() for t in c))
                    if key in self.pairs:
                        continue
                    self.pairs.add(key)
                    rng = z3.And(*in_range(c, shp))
                    b = core.inst(info, app, 0, c)
                    if op == "any":
                        lem.append(z3.Implies(z3.And(rng, b), app))
                    elif op == "sum":
                        lem.append(z3.Implies(z3.And(rng, b > 0), app >= 1))
                    elif op == "max":
                        lem.append(z3.Implies(rng, b <= app))
                    elif op == "min":
                        lem.append(z3.Implies(rng, b >= app))
                    else:
                        at = core.inst(info, app, 0, [app])
                        if op == "argmax":
                            lem.append(z3.Implies(rng, z3.And(b <= at, z3.Implies(c[0] < app, b < at))))
                        else:
                            lem.append(z3.Implies(rng, z3.And(b >= at, z3.Implies(c[0] < app, b > at))))
        new = []
        for c in lem:
            new += self.add(c)
        return new

    def pair_lemma(self, a, ia, b, ib):
        """Skolemised extensionality: equal arguments give equal results."""
        if len(ia.arrays) != len(ib.arrays) or len(ia.params) != len(ib.params) or ia.sort != ib.sort:
            return None
        diffs = []
        pa, pb = core.inst_params(ia, a), core.inst_params(ib, b)
        for x, y in zip(pa, pb):
            if x.sort() != y.sort():
                return None
            if not x.eq(y):
                diffs.append(x != y)
        parts_a, parts_b = [], []
        mono = []
        for j in range(len(ia.arrays)):
            sa, sb = core.inst_shape(ia, a, j), core.inst_shape(ib, b, j)
            if len(sa) != len(sb):
                return None
            for x, y in zip(sa, sb):
                if not x.eq(y):
                    diffs.append(x != y)
            w = _sk("w", len(sa))
            ba, bb = core.inst(ia, a, j, w), core.inst(ib, b, j, w)
            if ba.sort() != bb.sort():
                if {ba.sort(), bb.sort()} <= {IntS, RealS, BoolS}:
                    ba, bb = core.to_real(ba), core.to_real(bb)
                else:
                    return None
            parts_a.append(ba)
            parts_b.append(bb)
            if not ba.eq(bb):
                diffs.append(z3.And(*in_range(w, sa), ba != bb))
            if "sum_mono" in self.hints and ia.op == "sum" and ba.sort() != BoolS:
                sd = [x != y for x, y in zip(sa, sb) if not x.eq(y)]
                for (l, r, bl, br) in ((a, b, ba, bb), (b, a, bb, ba)):
                    w2 = _sk("wm", len(sa))
                    sub = list(zip(w, w2))
                    mono.append(z3.Or(l <= r, *sd, z3.And(*in_range(w2, sa), z3.substitute(bl, *sub) > z3.substitute(br, *sub))))
        for x, y in zip(pa, pb):
            if not x.eq(y):
                parts_a.append(x)
                parts_b.append(y)
        out = [z3.Or(a == b, *diffs)] + mono
        return out, parts_a, parts_b, (0 if not diffs else 1)

    def pairs_of(self, xs, ys, depth, limit=4000):
        """Pairwise lemmas between two groups of applications, recursing into bodies."""
        work = []
        for a, ia in xs:
            for b, ib in ys:
                if ia.op != ib.op or a.eq(b):
                    continue
                key = (min(a.get_id(), b.get_id()), max(a.get_id(), b.get_id()))
                if key in self.pairs:
                    continue
                if len(self.pairs) > limit:
                    return
                self.pairs.add(key)
                r = self.pair_lemma(a, ia, b, ib)
                if r is None:
                    continue
                lem, pa, pb, _ = r
                na = [(e, C.infos[e.decl().name()]) for e in subterms(pa) if core.app_info(e) is not None]
                nb = [(e, C.infos[e.decl().name()]) for e in subterms(pb) if core.app_info(e) is not None]
                for l in lem:
                    self.add(l)
                if na and nb and depth > 0:
                    work.append((na, nb))
        for na, nb in work:
            self.pairs_of(na, nb, depth - 1, limit)

    def close(self, formulas, depth=3):
        new = self.scan(formulas)
        done = 0
        # axioms of single applications (to a bounded nesting generation)
        gen = new
        for _ in range(3):
            nxt = []
            for a, i in gen:
                nxt += self.op_axioms(a, i)
            gen = nxt
            if not gen:
                break
        for op, lst in list(self.apps.items()):
            base = lst[:40]
            self.pairs_of(base, base, depth)
        if "uf_inj" in self.hints or True:
            self.uf_pairs()
        for _ in range(2):
            if not self.instantiate_universals():
                break
        return self.lemmas

    def uf_pairs(self):
        for name in ("exp!", "log!", "sqrt!", "floorq!"):
            lst = self.fun_apps.get(name, [])[:14]
            if "monotone" not in self.hints:
                continue
            for k, a in enumerate(lst):
                for b in lst[k + 1:]:
                    key = (a.get_id(), b.get_id())
                    if key in self.ufpairs:
                        continue
                    self.ufpairs.add(key)
                    x, y = a.arg(0), b.arg(0)
                    if name == "exp!":
                        self.add(z3.And((x < y) == (a < b), (x == y) == (a == b)))
                    else:
                        self.add(z3.Implies(z3.And(x > 0, y > 0), z3.And((x < y) == (a < b), (x == y) == (a == b))))
        if "exp_add" in self.hints:
            lst = self.fun_apps.get("exp!", [])[:10]
            for a in lst:
                for b in lst:
                    s = z3.simplify(a.arg(0) + b.arg(0))
                    key = ("add", a.get_id(), b.get_id())
                    if key in self.ufpairs:
                        continue
                    self.ufpairs.add(key)
                    self.add(core.fexp(s) == a * b)


def _ax_exp(e):
    x = e.arg(0)
    out = [e > 0, core.ufun("log")(e) == x]
    if z3.is_app(x) and x.decl().name() == "log!":
        out.append(z3.Implies(x.arg(0) > 0, e == x.arg(0)))
    return out


_EXPLOG = set()


def ax_exp(e):
    x = e.arg(0)
    out = [e > 0, (x > 0) == (e > 1), (x == 0) == (e == 1)]
    if z3.is_app(x) and x.decl().name() == "log!":
        out.append(z3.Implies(x.arg(0) > 0, e == x.arg(0)))
    return out


def ax_log(e):
    x = e.arg(0)
    out = [z3.Implies(x > 0, z3.And((x > 1) == (e > 0), (x == 1) == (e == 0)))]
    return out


def ax_sqrt(e):
    x = e.arg(0)
    return [z3.Implies(x >= 0, z3.And(e >= 0, e * e == x))]


def ax_bounded(lo, hi):
    def f(e):
        return [e >= lo, e <= hi]
    return f


UF_AX = {"exp!": ax_exp, "log!": ax_log, "sqrt!": ax_sqrt, "tanh!": ax_bounded(-1, 1), "cos!": ax_bounded(-1, 1),
         "sin!": ax_bounded(-1, 1), "sigmoid!": lambda e: [e > 0, e < 1]}


def feasible(pc, cond, timeout):
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(z3.simplify(cond))
    for c in pc:
        s.add(c)
    cl = Closure()
    fs = list(pc) + [cond]
    try:
        new = cl.scan(fs)
        for a, i in new[:60]:
            cl.op_axioms(a, i)
        cl.instantiate_universals(10)
    except z3.Z3Exception:
        raise
    for c in cl.lemmas:
        s.add(c)
    t0 = time.time()
    r = s.check()
    STATS["seconds"] += time.time() - t0
    return r != z3.unsat


def _num(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return 0


def concretise(model, inputs, cap=3000):
    """Input values of a countermodel as a replay dictionary (best effort)."""
    ev = lambda t: _num(model.eval(t, model_completion=True))
    out = {}
    for name, spec in inputs.items():
        try:
            if spec[0] in ("dim", "int"):
                out[name] = ev(z3.Int(name))
            elif spec[0] == "real":
                out[name] = ev(z3.Real(name))
            elif spec[0] == "choice":
                out[name] = spec[1]
            elif spec[0] == "arr":
                shape = [ev(dz(d)) for d in spec[2]]
                tot = 1
                for d in shape:
                    tot *= max(d, 0)
                if tot > cap:
                    continue
                srt = {"f": RealS, "i": IntS, "b": BoolS}[spec[3]]
                if not shape:
                    out[name] = ev(z3.Const(name, srt))
                    continue
                f = z3.Function(name, *([IntS] * len(shape) + [srt]))

                def build(pre, rest):
                    if not rest:
                        return ev(f(*[z3.IntVal(k) for k in pre]))
                    return [build(pre + [k], rest[1:]) for k in range(rest[0])]
                out[name] = build([], shape)
        except z3.Z3Exception:
            continue
    return out


def at_once(pc, goal, ms=250):
    """Does the goal follow from the path condition without any axiom about the operators?"""
    s = z3.SimpleSolver()
    s.set("timeout", ms)
    for f in pc:
        s.add(f)
    s.add(z3.Not(goal))
    return s.check() == z3.unsat


def prove(ob, hints=(), timeout=20, want_model=True):
    """Discharge one obligation; sets status in proved / failed / unknown."""
    t0 = time.time()
    timeout = int(timeout * 1000)
    C.elem_inv, C.elem_top = ob.inv, ob.top
    C.pos_dims, C.pos_funs = ob.pos
    canonical.positives(ob.pos)
    if at_once(ob.pc, ob.goal):
        ob.status, ob.solver, ob.time = "proved", "z3", time.time() - t0
        STATS["seconds"] += ob.time
        STATS["z3"] += 1
        return ob
    goal = z3.simplify(canon(merge_divmod(z3.simplify(ob.goal))))
    if z3.is_true(goal):
        ob.status, ob.solver = "proved", "syntactic"
        STATS["syntactic"] += 1
        return ob
    neg = z3.simplify(z3.Not(goal))
    cl = Closure(hints)
    pc = [canon(p) for p in ob.pc]
    if at_once(pc, goal):
        ob.status, ob.solver, ob.time = "proved", "z3", time.time() - t0
        STATS["seconds"] += ob.time
        STATS["z3"] += 1
        return ob
    cl.close(pc + [neg])
    fs = pc + [neg] + cl.lemmas
    r, s = None, None
    for attempt, (tmo, seed) in enumerate(((timeout // 3, 0), (timeout, 7))):
        s = z3.Solver()
        s.set("timeout", tmo)
        if seed:
            s.set("random_seed", seed)
        for f in fs:
            s.add(f)
        r = s.check()
        if r != z3.unknown:
            break
    ob.time = time.time() - t0
    STATS["seconds"] += ob.time
    if r == z3.unsat:
        ob.status, ob.solver = "proved", "z3"
        STATS["z3"] += 1
        return ob
    if r == z3.unknown:
        if cvc5_unsat(s, timeout):
            ob.status, ob.solver = "proved", "cvc5"
            STATS["cvc5"] += 1
            ob.time = time.time() - t0
            return ob
        ob.status, ob.solver, ob.detail = "unknown", "z3", s.reason_unknown()
        return ob
    ob.status, ob.solver = "failed", "z3"
    if want_model:
        m = small_model(s, ob.dims)
        ob.model = concretise(m, ob.inputs) if m is not None else None
    ob.detail = "countermodel found"
    return ob


def small_model(s, names):
    """Prefer small dimensions so that the countermodel can be concretised."""
    dims = [z3.Int(n) for n in names]
    for bound in (3, 6, 12):
        s.push()
        for d in dims:
            s.add(d <= bound)
        s.set("timeout", 5000)
        r = s.check()
        m = s.model() if r == z3.sat else None
        s.pop()
        if m is not None:
            return m
    return None


def cvc5_unsat(solver, timeout):
    smt = solver.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + smt)
    try:
        p = subprocess.run(["cvc5", f"--tlimit={timeout}", f.name], capture_output=True, text=True, timeout=timeout / 1000 + 10)
        return p.stdout.strip().startswith("unsat")
    except Exception:
        return False
    finally:
        os.unlink(f.name)
