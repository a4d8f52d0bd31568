"""EnbPI: bootstrap intervals for time series and their online update."""
from vf.api import contract

E = "fortuna.conformal.regression.enbpi:EnbPI"


def _agg(t):
    """-> EnbPI object, spec of the aggregation of the selected rows"""
    from fortuna.conformal import EnbPI
    if t.choice("aggregation", [0, 1]):
        f = lambda x: t.op("agg", [x], x.shape[1:])
        return EnbPI(f), lambda n, pred, g, *tail: f(t.select(n, pred, g, *tail) if pred else t.mat((n,) + tail, g))
    if t.sym:
        def mean(n, pred, g, *tail):
            if pred is None:
                return t.mat(tail, lambda *i: t.sum(n, lambda b: g(b, *i)) / n)
            c = t.count(n, pred)
            return t.mat(tail, lambda *i: t.sum(n, lambda b: t.ite(pred(b), g(b, *i), 0.0)) / c)
    else:
        def mean(n, pred, g, *tail):
            return t.select(n, pred or (lambda b: True), g, *tail).mean(0)
    return EnbPI(), mean


def _in(t):
    B, T, M = t.dim("bootstraps"), t.dim("train_times"), t.dim("test_times")
    e = t.real("error", 0, 1, special=(0.0, 0.25, 0.5))
    nd = lambda nm: t.choice("nd_" + nm, [0, 1])
    idx = t.j(t.ints("indices", (B, T), 0, T))
    a = lambda nm, *s: t.j(t.reals(nm, s + (1,) if nd(nm) else s))
    tr, te, y = a("train_preds", B, T), a("test_preds", B, M), a("targets", T)
    g = lambda x, k: (lambda *i: t.at(x, *i) if len(x.shape) == k else t.at(x, *i, 0))
    return B, T, M, e, idx, tr, te, y, g(tr, 2), g(te, 2), g(y, 1)


@contract("C04", f"{E}.conformal_interval", rac=40)
def interval(t):
    B, T, M, e, idx, tr, te, y, f, h, yy = _in(t)
    obj, agg = _agg(t)
    ret = t.choice("return_residuals", [False, True])
    snap = t.snapshot(idx, tr, te, y)
    r = t.call(obj.conformal_interval, bootstrap_indices=idx, bootstrap_train_preds=tr, bootstrap_test_preds=te,
               train_targets=y, error=e, return_residuals=ret)
    if not t.no_exception("conformal_interval", r):
        return
    t.unchanged("inputs", snap)
    iv, res = r.value if ret else (r.value, None)
    out = lambda k: (lambda b: t.not_(t.exists(T, lambda j: t.at(idx, b, j) == k)))     # bootstraps that did not train on k
    any_out = lambda k: t.count(B, out(k)) > 0

    def rho(k):
        return t.lazy_ite(any_out(k), lambda: t.abs(yy(k) - t.at(agg(B, out(k), lambda b: f(b, k)))), lambda: t.abs(yy(k)))

    def pred(k, m):
        return t.lazy_ite(any_out(k), lambda: t.at(agg(B, out(k), lambda b, q: h(b, q), M), m), lambda: 0.0)
    if res is not None:
        t.arr_eq("leave-one-out residuals", res, (T,), rho)
    q = lambda: t.quantile(T, rho, 1 - e)
    t.arr_eq("quantile of leave-one-out predictions -+ quantile of residuals", iv, (M, 2), lambda m, s: t.quantile(
        T, lambda k: pred(k, m), 1 - e) + t.ite(s == 0, -1, 1) * q())


@contract("C04", f"{E}.conformal_interval", rac=60)
def rejects(t):
    B, T, M, k = t.dim("bootstraps"), t.dim("train_times"), t.dim("test_times"), t.dim("k", 2)
    from fortuna.conformal import EnbPI
    idx = t.j(t.ints("indices", (B, T), -1, T + 1))
    a = lambda nm, *s: t.j(t.reals(nm, s))
    x = dict(bootstrap_train_preds=a("tr", B, T), bootstrap_test_preds=a("te", B, M), train_targets=a("y", T))
    w = t.choice("which", ["none", "tr0", "tr1", "te0", "tr3", "te3", "y0", "y2"])
    bad = True
    if w == "none":
        bad = t.exists(B, lambda b: t.exists(T, lambda j: t.or_(t.at(idx, b, j) < 0, t.at(idx, b, j) >= T)))
    elif w == "tr0":
        x["bootstrap_train_preds"] = a("x", B + 1, T)
    elif w == "tr1":
        x["bootstrap_train_preds"] = a("x", B, T + 1)
    elif w == "te0":
        x["bootstrap_test_preds"] = a("x", B + 1, M)
    elif w == "tr3":
        x["bootstrap_train_preds"] = a("x", B, T, k)
    elif w == "te3":
        x["bootstrap_test_preds"] = a("x", B, M, k)
    elif w == "y0":
        x["train_targets"] = a("x", T + 1)
    else:
        x["train_targets"] = a("x", T, k)
    r = t.call(EnbPI().conformal_interval, bootstrap_indices=idx, error=0.5, **x)
    t.raises_iff("conformal_interval", r, ValueError, bad)


@contract("C04", f"{E}.conformal_interval_from_residuals", rac=60)
def update(t):
    B, T, N, M = t.dim("bootstraps"), t.dim("train_times"), t.dim("new_times"), t.dim("test_times")
    e = t.real("error", 0, 1, special=(0.0, 0.25, 0.5))
    a = lambda nm, *s: t.j(t.reals(nm, s + (1,) if t.choice("nd_" + nm, [0, 1]) else s))
    tr, te, y = a("new_train_preds", B, N), a("new_test_preds", B, M), a("new_targets", N)
    res = t.j(t.reals("residuals", (T,), 0))
    if t.choice("np", [0, 1]):
        res = t.np(res)
    g = lambda x, k: (lambda *i: t.at(x, *i) if len(x.shape) == k else t.at(x, *i, 0))
    f, h, yy = g(tr, 2), g(te, 2), g(y, 1)
    obj, agg = _agg(t)
    snap = t.snapshot(res, tr, te, y)
    r = t.call(obj.conformal_interval_from_residuals, train_residuals=res, bootstrap_new_train_preds=tr, bootstrap_new_test_preds=te,
               new_train_targets=y, error=e)
    if not t.no_exception("update", r):
        return
    t.unchanged("inputs", snap)
    iv, new = r.value
    every = None
    new_res = lambda k: t.abs(yy(k) - t.at(agg(B, every, lambda b, q: f(b, q), N), k))
    win = lambda k: t.lazy_ite(k + N < T, lambda: t.at(res, t.min2(k + N, T - 1)), lambda: new_res(k + N - T))
    t.arr_eq("the residuals are the last T of the old ones followed by the new ones", new, (T,), win)
    t.arr_eq("aggregated prediction -+ residual quantile", iv, (M, 2), lambda m, s: t.at(
        agg(B, every, lambda b, q: h(b, q), M), m) + t.ite(s == 0, -1, 1) * t.quantile(T, win, 1 - e))


@contract("C04", f"{E}.conformal_interval_from_residuals", rac=40)
def update_rejects(t):
    B, T, N, M, k = t.dim("bootstraps"), t.dim("train_times"), t.dim("new_times"), t.dim("test_times"), t.dim("k", 2)
    from fortuna.conformal import EnbPI
    a = lambda nm, *s: t.j(t.reals(nm, s))
    x = dict(bootstrap_new_train_preds=a("tr", B, N), bootstrap_new_test_preds=a("te", B, M), new_train_targets=a("y", N))
    w = t.choice("which", ["te0", "tr3", "te3", "y0", "y2"])
    if w == "te0":
        x["bootstrap_new_test_preds"] = a("x", B + 1, M)
    elif w == "tr3":
        x["bootstrap_new_train_preds"] = a("x", B, N, k)
    elif w == "te3":
        x["bootstrap_new_test_preds"] = a("x", B, M, k)
    elif w == "y0":
        x["new_train_targets"] = a("x", N + 1)
    else:
        x["new_train_targets"] = a("x", N, k)
    r = t.call(EnbPI().conformal_interval_from_residuals, train_residuals=a("res", T), error=0.5, **x)
    t.raises_iff("update", r, ValueError, True)
