"""Conformal prediction sets for classification."""
from vf.api import contract

B = "fortuna.conformal.classification.base"
S = "fortuna.conformal.classification.simple_prediction"
A = "fortuna.conformal.classification.adaptive_prediction"
METHODS = ["simple", "adaptive"]


def _score(t, method, c, p, y):
    """Non-conformity score of label y for the probability vector p(k), k < c."""
    if method == "simple":
        return 1 - p(y)
    asc = t.argsort(c, p)                                   # labels by increasing probability
    rank = t.argsort(c, lambda j: asc(c - 1 - j))           # position of each label in the decreasing order
    return t.sum(rank(y) + 1, lambda j: p(asc(c - 1 - j)))  # total mass up to and including y


def _cls(method, cv):
    from fortuna.conformal.classification import adaptive_prediction as a, simple_prediction as s
    if method == "simple":
        return s.CVPlusSimplePredictionConformalClassifier if cv else s.SimplePredictionConformalClassifier
    return a.CVPlusAdaptivePredictionConformalClassifier if cv else a.AdaptivePredictionConformalClassifier


@contract("C01", [f"{S}:score_fn", f"{S}:SimplePredictionConformalClassifier.score_fn", f"{S}:CVPlusSimplePredictionConformalClassifier.score_fn",
                  f"{A}:score_fn", f"{A}:AdaptivePredictionConformalClassifier.score_fn", f"{A}:CVPlusAdaptivePredictionConformalClassifier.score_fn"])
def score(t):
    n, c = t.dim("n"), t.dim("c", 2)
    p, y = t.j(t.reals("probs", (n, c), 0, 1)), t.j(t.ints("targets", (n,), 0, c))
    m = t.choice("method", METHODS)
    r = t.call(_cls(m, t.choice("cv", [False, True]))().score_fn, probs=p, targets=y)
    if t.no_exception("score_fn", r):
        t.arr_eq(f"{m} score", r.value, (n,), lambda i: _score(t, m, c, lambda k: t.at(p, i, k), t.at(y, i)))


@contract("C01", f"{B}:ConformalClassifier._get_conformal_sets_from_scores", rac=20)
def sets_from_scores(t):
    n, m, c = t.dim("n"), t.dim("m"), t.dim("c", 2)
    vs, ts = t.j(t.reals("val_scores", (n,))), t.j(t.reals("test_scores", (m, c)))
    e = t.real("error", 0, 1)
    from fortuna.conformal.classification.base import ConformalClassifier
    r = t.call(ConformalClassifier._get_conformal_sets_from_scores, val_scores=vs, test_scores=ts, error=e)
    if t.no_exception("sets", r):
        _check_sets(t, r.value, n, m, c, e, lambda j: t.at(vs, j), lambda i, k: t.at(ts, i, k))


def _check_sets(t, sets, n, m, c, e, vs, ts):
    t.eq("one set per test input", t.len(sets), m)
    t.each("sets", m, lambda i: t.is_filter("a label is in the set iff fewer than (1 - error)(n + 1) validation scores are below its score",
                                            t.at(sets, i), c, lambda k: t.count(n, lambda j: vs(j) < ts(i, k)) < (1 - e) * (n + 1)))


@contract("C01", [f"{B}:SplitConformalClassifier.get_scores"])
def split_scores(t):
    n, m, c = t.dim("n"), t.dim("m"), t.dim("c", 2)
    vp, tp = t.j(t.reals("val_probs", (n, c), 0, 1)), t.j(t.reals("test_probs", (m, c), 0, 1))
    y = t.j(t.ints("val_targets", (n,), 0, c))
    meth = t.choice("method", METHODS)
    r = t.call(_cls(meth, False)().get_scores, val_probs=vp, val_targets=y, test_probs=tp)
    if t.no_exception("get_scores", r):
        vs, ts = r.value
        t.arr_eq("validation scores", vs, (n,), lambda j: _score(t, meth, c, lambda k: t.at(vp, j, k), t.at(y, j)))
        t.arr_eq("test scores of every label", ts, (m, c), lambda i, l: _score(t, meth, c, lambda k: t.at(tp, i, k), l))


@contract("C01", [f"{B}:SplitConformalClassifier.conformal_set"], rac=20)
def split_set(t):
    n, m, c = t.dim("n"), t.dim("m"), t.dim("c", 2)
    vp, tp = t.j(t.reals("val_probs", (n, c), 0, 1)), t.j(t.reals("test_probs", (m, c), 0, 1))
    y = t.j(t.ints("val_targets", (n,), 0, c))
    e = t.real("error", 0, 1)
    meth = t.choice("method", METHODS)
    h = t.callee(f"{B}:SplitConformalClassifier.get_scores", lambda b: (t.j(t.reals("vs", (n,))), t.j(t.reals("ts", (m, c)))))
    r = t.call(_cls(meth, False)().conformal_set, val_probs=vp, val_targets=y, test_probs=tp, error=e)
    if not t.no_exception("conformal_set", r):
        return
    if h.calls:
        b, (vs, ts) = h.calls[0]
        for k, x in (("val_probs", vp), ("val_targets", y), ("test_probs", tp)):
            t.same(f"scores of its own {k}", b[k], x)
    if h.calls and t.sym:
        f, g = lambda j: t.at(vs, j), lambda i, k: t.at(ts, i, k)
    else:
        f = lambda j: _score(t, meth, c, lambda k: t.at(vp, j, k), t.at(y, j))
        g = lambda i, l: _score(t, meth, c, lambda k: t.at(tp, i, k), l)
    _check_sets(t, r.value, n, m, c, e, f, g)


def _cv(t):
    L, m, c = t.dim("folds"), t.dim("m"), t.dim("c", 2)
    ns = t.dims("n", L)
    vp = t.family("val_probs", L, lambda l: (ns(l), c), lo=0, hi=1)
    y = t.family("val_targets", L, lambda l: (ns(l),), "ints", 0, c)
    tp = t.family("test_probs", L, lambda l: (m, c), lo=0, hi=1)
    return L, m, c, ns, vp, y, tp


@contract("C01", [f"{B}:CVPlusConformalClassifier.get_scores"])
def cvplus_scores(t):
    L, m, c, ns, vp, y, tp = _cv(t)
    meth = t.choice("method", METHODS)
    snap = t.snapshot(vp, y, tp)
    r = t.call(_cls(meth, True)().get_scores, cross_val_probs=vp, cross_val_targets=y, cross_test_probs=tp)
    if t.no_exception("get_scores", r):
        vs, ts = r.value
        t.unchanged("inputs", snap)
        t.concat_eq("validation scores of all folds", vs, L, ns, (), lambda l, j: _score(
            t, meth, c, lambda k: t.at(vp, l, j, k), t.at(y, l, j)))
        t.concat_eq("test scores of all folds", ts, L, lambda l: m, (c,), lambda l, i, lab: _score(
            t, meth, c, lambda k: t.at(tp, l, i, k), lab))


@contract("C01", [f"{B}:CVPlusConformalClassifier.conformal_set"], rac=20)
def cvplus_set(t):
    L, m, c, ns, vp, y, tp = _cv(t)
    e = t.real("error", 0, 1)
    meth = t.choice("method", METHODS)
    N, M = t.dim("N"), t.dim("M")
    h = t.callee(f"{B}:CVPlusConformalClassifier.get_scores", lambda b: (t.j(t.reals("vs", (N,))), t.j(t.reals("ts", (M, c)))))
    r = t.call(_cls(meth, True)().conformal_set, cross_val_probs=vp, cross_val_targets=y, cross_test_probs=tp, error=e)
    if not t.no_exception("conformal_set", r):
        return
    if t.sym:
        if not h.calls:
            t.undecided("conformal_set does not use get_scores")
        b, (vs, ts) = h.calls[0]
        for k, x in (("cross_val_probs", vp), ("cross_val_targets", y), ("cross_test_probs", tp)):
            t.same_seq(f"scores of its own {k}", b[k], x)
        _check_sets(t, r.value, N, M, c, e, lambda j: t.at(vs, j), lambda i, k: t.at(ts, i, k))
    else:
        vs = [_score(t, meth, c, lambda k: t.at(vp, l, j, k), t.at(y, l, j)) for l in range(L) for j in range(ns(l))]
        _check_sets(t, r.value, len(vs), L * m, c, e, lambda j: vs[j], lambda i, lab: _score(
            t, meth, c, lambda k: t.at(tp, i // m, i % m, k), lab))


@contract("C01", [f"{B}:ConformalClassifier.is_in"])
def is_in(t):
    from fortuna.conformal import SimplePredictionConformalClassifier, AdaptivePredictionConformalClassifier
    n = t.dim("n")
    ls = t.dims("len", n, 0)
    v = t.j(t.ints("values", (n,), 0, 4))
    sets = t.intlists("sets", n, ls, 0, 4)
    r = t.call(t.choice("cls", [SimplePredictionConformalClassifier, AdaptivePredictionConformalClassifier])().is_in, v, sets)
    if t.no_exception("is_in", r):
        t.arr_eq("membership of each value in its own set", r.value, (n,), lambda i: t.member(t.at(sets, i), t.at(v, i)))
