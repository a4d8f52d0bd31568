"""Normal form of terms with exp / log / sqrt (sound identities of real arithmetic only).

exp(a + b) = exp(a) exp(b); exp(q log S) = S^q, log(S T) = log S + log T, sqrt(S T) = sqrt S sqrt T,
a / S = a * (1 / S) and S * (1 / S) = 1 for S that is positive by its syntax (exponentials, sums of positive
terms over non-empty ranges, dimensions declared to be at least one, positive numerals)."""
from __future__ import annotations
from fractions import Fraction
import z3
from . import core
from .core import C, RealS, IntS

TRANS = ("exp!", "log!", "sqrt!")
_has, _memo, _pos = {}, {}, {}
_keep = []


def reset():
    _has.clear()
    _memo.clear()
    _cmp.clear()
    _pos.clear()
    _keep.clear()
    _last[0] = None


core.RESET.append(reset)
_last = [None]


def positives(pos):
    """The declared positive symbols are now these: forget normal forms computed under other declarations."""
    key = (frozenset(pos[0]), frozenset(pos[1]))
    if _last[0] != key:
        _memo.clear()
        _pos.clear()
        _last[0] = key


def has_trans(t):
    st = [t]
    while st:
        e = st[-1]
        i = e.get_id()
        if i in _has:
            st.pop()
            continue
        if not z3.is_app(e):
            _has[i] = False
            st.pop()
            continue
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in TRANS:
            _has[i] = True
            _keep.append(e)
            st.pop()
            continue
        ch = [c for c in e.children() if c.get_id() not in _has]
        if ch:
            st.extend(ch)
            continue
        inf = C.infos.get(e.decl().name()) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
        _has[i] = any(_has[c.get_id()] for c in e.children()) or (inf is not None and any(has_trans(b) for _, b in inf.arrays))
        _keep.append(e)
        st.pop()
    return _has[t.get_id()]


def _frac(t):
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    if z3.is_rational_value(t):
        return t.as_fraction()
    return None


def positive(t):
    i = t.get_id()
    if i in _pos:
        return _pos[i]
    _pos[i] = False
    _keep.append(t)
    r = _positive(t)
    _pos[i] = r
    return r


def branch_positive(x, c, side):
    """x is positive where the condition c has the given truth value."""
    if positive(x):
        return True
    while z3.is_not(c):
        c, side = c.arg(0), not side
    kd = c.decl().kind()
    want = {z3.Z3_OP_GT: (True, 0), z3.Z3_OP_LE: (False, 0), z3.Z3_OP_LT: (True, 1), z3.Z3_OP_GE: (False, 1)}.get(kd)
    if want is None or want[0] != side:
        return False
    big, small = c.arg(want[1]), c.arg(1 - want[1])
    f = _frac(small)
    return f is not None and f >= 0 and (big.eq(x) or _node(big, [canon(a) for a in big.children()]).eq(x))


def nonneg(t):
    """Not negative by its syntax: squares, sums and products of such terms."""
    if positive(t):
        return True
    f = _frac(t)
    if f is not None:
        return f >= 0
    if not z3.is_app(t):
        return False
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        return all(nonneg(c) for c in t.children())
    if k == z3.Z3_OP_MUL:
        odd = {}
        for c in t.children():
            if nonneg(c):
                continue
            odd[c.get_id()] = odd.get(c.get_id(), 0) + 1
        return all(v % 2 == 0 for v in odd.values())
    if k == z3.Z3_OP_POWER:
        p = _frac(t.arg(1))
        return p is not None and p.denominator == 1 and p.numerator % 2 == 0 and p > 0
    if k == z3.Z3_OP_ITE:
        return nonneg(t.arg(1)) and nonneg(t.arg(2))
    if k == z3.Z3_OP_TO_REAL:
        return nonneg(t.arg(0))
    if k == z3.Z3_OP_UNINTERPRETED:
        inf = C.infos.get(t.decl().name())
        return inf is not None and inf.op == "sum" and nonneg(inf.arrays[0][1])
    return False


def _positive(t):
    f = _frac(t)
    if f is not None:
        return f > 0
    if not z3.is_app(t):
        return False
    k = t.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return positive(t.arg(0))
    if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
        return all(positive(c) for c in t.children())
    if k == z3.Z3_OP_ADD:
        return any(positive(c) for c in t.children()) and all(nonneg(c) for c in t.children())
    if k == z3.Z3_OP_ITE:
        return branch_positive(t.arg(1), t.arg(0), True) and branch_positive(t.arg(2), t.arg(0), False)
    if k != z3.Z3_OP_UNINTERPRETED:
        return False
    n = t.decl().name()
    if n == "exp!":
        return True
    if n == "sqrt!":
        return positive(t.arg(0))
    if n in ("pi!", "PI!"):
        return True
    if t.num_args() == 0:
        return n in getattr(C, "pos_dims", ()) or n in getattr(C, "pos_funs", ())
    inf = C.infos.get(n)
    if inf is not None and inf.op == "sum":
        return positive(inf.arrays[0][1]) and all(positive(core.dz(d)) for d in core.inst_shape(inf, t, 0))
    if inf is not None and inf.op in ("max", "min"):
        return positive(inf.arrays[0][1]) and all(positive(core.dz(d)) for d in core.inst_shape(inf, t, 0))
    return False


class Prod:
    """numeral * prod atom^k * prod exp(q * x)"""
    def __init__(self):
        self.num = Fraction(1)
        self.pw = {}       # id -> [atom, integer exponent]
        self.ex = {}       # id -> [atom, rational coefficient]

    def mul(self, t, k):
        f = _frac(t)
        if f is not None:
            if f == 0 and k < 0:
                self.atom(t, k)
            else:
                self.num *= f ** k
            return
        kd = t.decl().kind() if z3.is_app(t) else None
        if kd == z3.Z3_OP_MUL and (k > 0 or positive(t)):
            for c in t.children():
                self.mul(c, k)
            return
        if kd == z3.Z3_OP_UMINUS:
            self.num = -self.num if k % 2 else self.num
            return self.mul(t.arg(0), k)
        if kd == z3.Z3_OP_DIV and positive(t.arg(1)) and (k > 0 or positive(t.arg(0))):
            self.mul(t.arg(0), k)
            self.mul(t.arg(1), -k)
            return
        if kd == z3.Z3_OP_POWER:
            p = _frac(t.arg(1))
            if p is not None and p.denominator == 1 and 0 < p and k > 0:
                return self.mul(t.arg(0), int(p) * k)
        if kd == z3.Z3_OP_UNINTERPRETED and t.decl().name() == "exp!":
            return self.expo(t.arg(0), Fraction(k))
        self.atom(t, k)

    def expo(self, x, q):
        c, a = coef(x)
        if a is None:
            a, q = z3.RealVal(1), q * c
        else:
            q = q * c
        e = self.ex.setdefault(a.get_id(), [a, Fraction(0)])
        e[1] += q

    def atom(self, t, k):
        e = self.pw.setdefault(t.get_id(), [t, 0])
        e[1] += k

    def all_positive(self):
        return self.num > 0 and all(positive(a) for a, _ in self.pw.values())

    def term(self):
        fs = []
        if self.num == 0:
            return z3.RealVal(0)
        for a, k in sorted(self.pw.values(), key=lambda e: e[0].get_id()):
            if k == 0:
                if positive(a):
                    continue
                k = 0
                continue
            if k > 0:
                fs += [a] * k
            else:
                fs += [z3.RealVal(1) / a] * (-k)
        for a, q in sorted(self.ex.values(), key=lambda e: e[0].get_id()):
            if q != 0:
                fs.append(expatom(a, q))
        n = z3.RealVal(str(self.num))
        if not fs:
            return n
        sums = [f for f in fs if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_ADD]
        size = 1
        for f in sums:
            size *= f.num_args()
        if sums and size <= 36:
            rest = [f for f in fs if not any(f is g for g in sums)]
            terms = [[]]
            for f in sums:
                terms = [u + [c] for u in terms for c in f.children()]
            out = []
            for u in terms:
                p = Prod()
                p.num = self.num
                for f in rest + u:
                    p.mul(f, 1)
                out.append(p.term())
            return z3.simplify(z3.Sum(*out), som=True) if len(out) > 1 else out[0]
        r = fs[0]
        for f in fs[1:]:
            r = r * f
        return r if self.num == 1 else n * r


def expatom(a, q):
    x = z3.simplify(z3.RealVal(str(q)) * a)
    return core.ufun("exp")(x)


def coef(t):
    """t = c * a"""
    f = _frac(t)
    if f is not None:
        return f, None
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
        f = _frac(t.arg(0))
        if f is not None:
            rest = t.children()[1:]
            r = rest[0]
            for c in rest[1:]:
                r = r * c
            return f, r
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
        c, a = coef(t.arg(0))
        return -c, a
    return Fraction(1), t


def summands(t):
    t = z3.simplify(t, som=True) if core.tsize(t, 300) < 300 else z3.simplify(t)
    return list(t.children()) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD else [t]


def _exp(x):
    p = Prod()
    for m in summands(x):
        c, a = coef(m)
        if a is not None and c.denominator == 1 and z3.is_app(a) and a.decl().name() == "log!" and positive(a.arg(0)):
            p.mul(a.arg(0), int(c))
        else:
            p.expo(m, Fraction(1))
    return p.term()


def _log(x):
    p = Prod()
    p.mul(x, 1)
    if not p.all_positive():
        return core.ufun("log")(x)
    out = []
    if p.num != 1:
        out.append(core.ufun("log")(z3.RealVal(str(p.num))))
    for a, k in sorted(p.pw.values(), key=lambda e: e[0].get_id()):
        if k:
            l = core.ufun("log")(a)
            out.append(l if k == 1 else z3.RealVal(k) * l)
    for a, q in sorted(p.ex.values(), key=lambda e: e[0].get_id()):
        out.append(z3.simplify(z3.RealVal(str(q)) * a))
    if not out:
        return z3.RealVal(0)
    r = out[0]
    for o in out[1:]:
        r = r + o
    return r


def _sqrt(x):
    p = Prod()
    p.mul(x, 1)
    if not p.ex or not p.all_positive():
        return core.ufun("sqrt")(x)
    r = Prod()
    for a, q in p.ex.values():
        r.ex[a.get_id()] = [a, q / 2]
    p.ex = {}
    rest = p.term()
    if _frac(rest) != 1:
        r.atom(core.fsqrt(rest), 1)
    return r.term()


def canon(t):
    """Normal form of a term (identity on terms without transcendental functions)."""
    if not C.uses_trans or not has_trans(t):
        return t
    i = t.get_id()
    if i in _memo:
        return _memo[i]
    st = [t]
    while st:
        e = st[-1]
        if e.get_id() in _memo:
            st.pop()
            continue
        if not z3.is_app(e) or not has_trans(e):
            _memo[e.get_id()] = e
            _keep.append(e)
            st.pop()
            continue
        ch = [c for c in e.children() if c.get_id() not in _memo]
        if ch:
            st.extend(ch)
            continue
        _keep.append(e)
        _memo[e.get_id()] = _node(e, [_memo[c.get_id()] for c in e.children()])
        st.pop()
    return _memo[i]


def _node(e, args):
    k = e.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED:
        n = e.decl().name()
        if n == "exp!":
            return _exp(args[0])
        if n == "log!":
            return _log(args[0])
        if n == "sqrt!":
            return _sqrt(args[0])
        return e.decl()(*args)
    if k == z3.Z3_OP_MUL and e.sort() == RealS:
        p = Prod()
        for a in args:
            p.mul(a, 1)
        return p.term()
    if k == z3.Z3_OP_DIV:
        f = _frac(args[1])
        p = Prod()
        if (f is not None and f != 0) or positive(args[1]):
            p.mul(args[0], 1)
            p.mul(args[1], -1)
            return p.term()
        return args[0] / args[1]
    if k == z3.Z3_OP_AND:
        return z3.And(*args)
    if k == z3.Z3_OP_OR:
        return z3.Or(*args)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(*args) if len(args) > 1 else args[0]
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*args)
    try:
        return e.decl()(*args)
    except z3.Z3Exception:
        return z3.substitute(e, *[(a, b) for a, b in zip(e.children(), args)])


# ------------------------------------------------------------------ comparisons of reals
_cmp = {}
CMP = (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT)


def compared(t):
    """p <= q over the reals with the monomials of positive coefficient on the left and the others on the right,
    so that x - y <= 0 and x <= y are the same atom."""
    st = [t]
    while st:
        e = st[-1]
        i = e.get_id()
        if i in _cmp:
            st.pop()
            continue
        if not z3.is_app(e) or not e.num_args():
            _cmp[i] = e
            _keep.append(e)
            st.pop()
            continue
        ch = [c for c in e.children() if c.get_id() not in _cmp]
        if ch:
            st.extend(ch)
            continue
        old = e.children()
        new = [_cmp[c.get_id()] for c in old]
        r = e if all(a.eq(b) for a, b in zip(old, new)) else rebuilt(e, new)
        k = e.decl().kind()
        if k in CMP and old[0].sort() == RealS and any(z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL) for a in r.children()):
            r = two_sides(r, k)
        _cmp[i] = r
        _keep.append(e)
        st.pop()
    return _cmp[t.get_id()]


def rebuilt(e, args):
    k = e.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*args)
    if k == z3.Z3_OP_OR:
        return z3.Or(*args)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(*args) if len(args) > 1 else args[0]
    if k == z3.Z3_OP_MUL and len(args) > 2:
        return z3.Product(*args)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*args)
    try:
        return e.decl()(*args)
    except z3.Z3Exception:
        return z3.substitute(e, *[(a, b) for a, b in zip(e.children(), args)])


def two_sides(e, k):
    if core.tsize(e, 200) >= 200:
        return e
    l, r = e.children()
    pos, neg = [], []
    for m in summands(l - r):
        c, a = coef(m)
        if c == 0:
            continue
        (pos if c > 0 else neg).append((abs(c), a))

    def side(ms):
        ts = []
        for c, a in ms:
            q = z3.RealVal(f"{c.numerator}/{c.denominator}")
            ts.append(q if a is None else a if c == 1 else q * a)
        ts.sort(key=lambda x: x.get_id())
        return z3.RealVal(0) if not ts else ts[0] if len(ts) == 1 else z3.Sum(*ts)
    p, q = side(pos), side(neg)
    return {z3.Z3_OP_LE: p <= q, z3.Z3_OP_GE: p >= q, z3.Z3_OP_LT: p < q, z3.Z3_OP_GT: p > q}[k]


# ------------------------------------------------------------------ t div d and t mod d put together again
def has_divmod(t):
    seen, st = set(), [t]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            return True
        st.extend(e.children())
    return False


def has_literal_args(t):
    """Does t apply an operator template at an integer literal?"""
    st, seen = [t], set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if core.app_info(e) is not None and any(z3.is_int_value(c) for c in e.children()):
                return True
            st.extend(e.children())
    return False


def merge_divmod(t):
    """Specialises operator templates applied at integer literals (so that an instance and a directly built
    operator are the same term) and rewrites (t div d) * d + t mod d to t (d syntactically positive), also inside vector operators whose
    arguments are such pairs."""
    if not has_divmod(t) and not has_literal_args(t):
        return t
    cache = {}

    def sum_(e):
        ch = [go(c) for c in e.children()]
        for k, m in enumerate(ch):
            if not (z3.is_app(m) and m.decl().kind() == z3.Z3_OP_MOD and core.positive(m.arg(1))):
                continue
            x, d = m.arg(0), m.arg(1)
            for q, p in enumerate(ch):
                f = core._factor(p, d)
                if f is not None and z3.is_app(f) and f.decl().kind() == z3.Z3_OP_IDIV and f.arg(0).eq(x) and f.arg(1).eq(d):
                    rest = [c for i, c in enumerate(ch) if i not in (k, q)] + [x]
                    r = rest[0]
                    for c in rest[1:]:
                        r = r + c
                    return z3.simplify(r)
        return e.decl()(*ch) if e.num_args() == 2 else z3.Sum(*ch)

    def go(e):
        r = cache.get(e.get_id())
        if r is not None:
            return r
        if not z3.is_app(e) or not e.num_args():
            r = e
        elif e.decl().kind() == z3.Z3_OP_ADD and e.sort() == IntS:
            r = sum_(e)
        else:
            inf = core.app_info(e)
            if inf is not None and any(has_divmod(c) or z3.is_int_value(c) for c in e.children()):
                r = rebuild(inf, e)
            else:
                ch = [go(c) for c in e.children()]
                r = e.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, e.children())) else e
        cache[e.get_id()] = r
        return r

    def rebuild(inf, e0):
        atoms = {}
        for a in e0.children():
            x = a.arg(0) if a.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) else a
            if not z3.is_int_value(x):
                atoms.setdefault(x.get_id(), x)
        sub = []
        for k, x in enumerate(atoms.values()):
            c = z3.Const(f"md!{C.depth}!{k}!{x.sort()}", x.sort())
            C.index_names.add(c.decl().name())
            sub.append((x, c))
        e = z3.substitute(e0, *sub) if sub else e0
        C.depth += 1
        try:
            bodies = []
            for j, (shape, _) in enumerate(inf.arrays):
                bs = []
                for d in range(len(shape)):
                    n = f"b@{C.depth}!{j}!{d}"
                    C.index_names.add(n)
                    bs.append(z3.Int(n))
                sh = [go(s) for s in core.inst_shape(inf, e, j)]
                body = core.in_range_simp(z3.simplify(merge_divmod(core.inst(inf, e, j, bs))), bs, sh)
                bodies.append((tuple(sh), body, bs))
            params = [merge_divmod(p) for p in core.inst_params(inf, e)]
        finally:
            C.depth -= 1
        r = core.vecop_raw(inf.op, params, bodies, inf.sort, inf.meta)
        return z3.substitute(r, *[(c, x) for x, c in sub]) if sub else r
    return z3.simplify(go(t))
