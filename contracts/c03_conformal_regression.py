"""Conformal intervals for regression: split methods, jackknife+ family, CV+."""
from vf.api import contract

R = "fortuna.conformal.regression"


@contract("C03", f"{R}.base:ConformalRegressor.is_in")
def is_in(t):
    from fortuna.conformal import QuantileConformalRegressor
    n = t.dim("n")
    v, ci = t.j(t.reals("values", (n,))), t.j(t.reals("intervals", (n, 2)))
    r = t.call(QuantileConformalRegressor().is_in, v, ci)
    if t.no_exception("is_in", r):
        t.arr_eq("a value is in iff it lies in the closed interval", r.value, (n,), lambda i: t.and_(
            t.at(ci, i, 0) <= t.at(v, i), t.at(v, i) <= t.at(ci, i, 1)))


def _level(t, n, e):
    return t.ceil((n + 1) * (1 - e)) / n


# ------------------------------------------------------------------ conformalised quantile regression
def _cqr_in(t):
    n = t.dim("n")
    return n, t.j(t.reals("val_lower", (n,))), t.j(t.reals("val_upper", (n,))), t.j(t.reals("val_targets", (n, 1)))


def _cqr_score(t, lo, up, y):
    return lambda i: t.max2(t.at(lo, i) - t.at(y, i, 0), t.at(y, i, 0) - t.at(up, i))


@contract("C03", f"{R}.quantile:QuantileConformalRegressor.score")
def cqr_score(t):
    from fortuna.conformal import QuantileConformalRegressor
    n, lo, up, y = _cqr_in(t)
    r = t.call(QuantileConformalRegressor().score, val_lower_bounds=lo, val_upper_bounds=up, val_targets=y)
    if t.no_exception("score", r):
        t.arr_eq("signed distance outside the interval", r.value, (n,), _cqr_score(t, lo, up, y))


@contract("C03", f"{R}.quantile:QuantileConformalRegressor.quantile")
def cqr_quantile(t):
    from fortuna.conformal import QuantileConformalRegressor
    n, lo, up, y = _cqr_in(t)
    e = t.real("error", -1, 2, special=(0.0, 0.25, 0.5, 1.0))
    kw, f = {}, _cqr_score(t, lo, up, y)
    if t.choice("given", [0, 1]):
        m = t.dim("m")
        s = t.j(t.reals("scores", (m,)))
        kw, f, n = {"scores": s}, (lambda i: t.at(s, i)), m
    r = t.call(QuantileConformalRegressor().quantile, val_lower_bounds=lo, val_upper_bounds=up, val_targets=y, error=e, **kw)
    if t.raises_iff("quantile", r, ValueError, t.or_(e < 0, e > 1)):
        t.arr_eq("empirical quantile at level ceil((n + 1)(1 - error)) / n", r.value, (), lambda: t.quantile(n, f, _level(t, n, e)))


@contract("C03", f"{R}.quantile:QuantileConformalRegressor.conformal_interval")
def cqr_interval(t):
    from fortuna.conformal import QuantileConformalRegressor
    n, lo, up, y = _cqr_in(t)
    m = t.dim("m")
    tl, tu = t.j(t.reals("test_lower", (m,))), t.j(t.reals("test_upper", (m,)))
    e = t.real("error", 0, 1, special=(0.0, 0.25, 0.5))
    v2, t2 = t.choice("val2d", [0, 1]), t.choice("test2d", [0, 1])
    g = (lambda x, b: x[:, None] if b else x)
    kw = {}
    q = None
    if t.choice("given", [0, 1]):
        q = t.real("quantile")
        kw = {"quantile": q}
    r = t.call(QuantileConformalRegressor().conformal_interval, val_lower_bounds=g(lo, v2), val_upper_bounds=g(up, v2),
               test_lower_bounds=g(tl, t2), test_upper_bounds=g(tu, t2), val_targets=y, error=e, **kw)
    if t.no_exception("conformal_interval", r):
        qq = (lambda: q) if q is not None else (lambda: t.quantile(n, _cqr_score(t, lo, up, y), _level(t, n, e)))
        t.arr_eq("test bounds widened by the score quantile", r.value, (m, 2),
                 lambda i, k: t.ite(k == 0, t.at(tl, i) - qq(), t.at(tu, i) + qq()))


@contract("C03", [f"{R}.quantile:QuantileConformalRegressor.score", f"{R}.quantile:QuantileConformalRegressor.conformal_interval"])
def cqr_rejects(t):
    from fortuna.conformal import QuantileConformalRegressor
    n, m, k = t.dim("n"), t.dim("m"), t.dim("k", 2)
    a = lambda nm, *s: t.j(t.reals(nm, s))
    which = t.choice("which", ["vshape", "tshape", "v2", "t2", "y2", "v3", "score_shape", "score2d"])
    c = QuantileConformalRegressor()
    lo, up, y, tl, tu = a("lo", n), a("up", n), a("y", n, 1), a("tl", m), a("tu", m)
    if which == "vshape":
        up = a("x", n + 1)
    elif which == "tshape":
        tu = a("x", m + 1)
    elif which == "v2":
        lo, up = a("x", n, k), a("z", n, k)
    elif which == "t2":
        tl, tu = a("x", m, k), a("z", m, k)
    elif which == "v3":
        lo, up = a("x", n, 1, 1), a("z", n, 1, 1)
    elif which == "y2":
        y = a("x", n, k)
    if which == "score_shape":
        r = t.call(c.score, lo, a("x", n + 1), y)
    elif which == "score2d":
        r = t.call(c.score, lo[:, None], up[:, None], y)
    else:
        r = t.call(c.conformal_interval, lo, up, tl, tu, y, 0.5)
    t.raises_iff("shapes", r, ValueError, True)


# ------------------------------------------------------------------ one-dimensional uncertainty
def _od_in(t):
    n = t.dim("n")
    return n, t.j(t.reals("val_preds", (n, 1))), t.j(t.reals("val_unc", (n, 1), 0, 4, lo_open=True)), t.j(t.reals("val_targets", (n, 1)))


def _od_score(t, p, u, y):
    return lambda i: t.abs(t.at(y, i, 0) - t.at(p, i, 0)) / t.at(u, i, 0)


@contract("C03", f"{R}.onedim_uncertainty:OneDimensionalUncertaintyConformalRegressor.score")
def onedim_score(t):
    from fortuna.conformal import OneDimensionalUncertaintyConformalRegressor as O
    n, p, _, y = _od_in(t)
    u = t.j(t.reals("unc", (n, 1), -1, 4, special=(0.0, 1.0)))
    r = t.call(O().score, val_preds=p, val_uncertainties=u, val_targets=y)
    if t.raises_iff("score", r, ValueError, t.exists(n, lambda i: t.at(u, i, 0) <= 0)):
        t.arr_eq("error relative to the uncertainty", r.value, (n,), _od_score(t, p, u, y))


@contract("C03", f"{R}.onedim_uncertainty:OneDimensionalUncertaintyConformalRegressor.quantile")
def onedim_quantile(t):
    from fortuna.conformal import OneDimensionalUncertaintyConformalRegressor as O
    n, p, u, y = _od_in(t)
    e = t.real("error", -1, 2, special=(0.0, 0.25, 0.5, 1.0))
    kw, f = {}, _od_score(t, p, u, y)
    if t.choice("given", [0, 1]):
        m = t.dim("m")
        s = t.j(t.reals("scores", (m,)))
        kw, f, n = {"scores": s}, (lambda i: t.at(s, i)), m
    r = t.call(O().quantile, val_preds=p, val_uncertainties=u, val_targets=y, error=e, **kw)
    if t.raises_iff("quantile", r, ValueError, t.or_(e < 0, e > 1)):
        t.arr_eq("empirical quantile at level ceil((n + 1)(1 - error)) / n", r.value, (), lambda: t.quantile(n, f, _level(t, n, e)))


@contract("C03", f"{R}.onedim_uncertainty:OneDimensionalUncertaintyConformalRegressor.conformal_interval")
def onedim_interval(t):
    from fortuna.conformal import OneDimensionalUncertaintyConformalRegressor as O
    n, p, u, y = _od_in(t)
    m = t.dim("m")
    tp, tu = t.j(t.reals("test_preds", (m, 1))), t.j(t.reals("test_unc", (m, 1), -1, 4, special=(0.0, 1.0)))
    e = t.real("error", 0, 1, special=(0.0, 0.25, 0.5))
    kw, q = {}, None
    if t.choice("given", [0, 1]):
        q = t.real("quantile")
        kw = {"quantile": q}
    r = t.call(O().conformal_interval, val_preds=p, val_uncertainties=u, test_preds=tp, test_uncertainties=tu, val_targets=y, error=e, **kw)
    if t.raises_iff("conformal_interval", r, ValueError, t.exists(m, lambda i: t.at(tu, i, 0) <= 0)):
        qq = (lambda: q) if q is not None else (lambda: t.quantile(n, _od_score(t, p, u, y), _level(t, n, e)))
        t.arr_eq("prediction +- quantile times uncertainty", r.value, (m, 2),
                 lambda i, k: t.at(tp, i, 0) + t.ite(k == 0, -1, 1) * qq() * t.at(tu, i, 0))


@contract("C03", [f"{R}.onedim_uncertainty:OneDimensionalUncertaintyConformalRegressor.score",
                  f"{R}.onedim_uncertainty:OneDimensionalUncertaintyConformalRegressor.conformal_interval"])
def onedim_rejects(t):
    from fortuna.conformal import OneDimensionalUncertaintyConformalRegressor as O
    n, m, k = t.dim("n"), t.dim("m"), t.dim("k", 2)
    a = lambda nm, *s: t.j(t.reals(nm, s, 1, 2))
    x = dict(val_preds=a("p", n, 1), val_uncertainties=a("u", n, 1), val_targets=a("y", n, 1), test_preds=a("tp", m, 1), test_uncertainties=a("tu", m, 1))
    bad = t.choice("bad", list(x))
    w = m if bad.startswith("test") else n
    x[bad] = a("x", w, k) if bad == "val_targets" or t.choice("nd", [0, 1]) else a("x", w)
    q = {"quantile": 1.0} if bad.startswith("test") and t.choice("given", [0, 1]) else {}
    t.raises_iff("shapes", t.call(O().conformal_interval, error=0.5, **x, **q), ValueError, True)


# ------------------------------------------------------------------ jackknife+ / jackknife-minmax
def _loo(t):
    n, m = t.dim("n"), t.dim("m")
    shp = lambda nm, *s: s if t.choice("nd_" + nm, [0, 1]) else s + (1,)
    mu, y = t.j(t.reals("val_outputs", shp("mu", n))), t.j(t.reals("val_targets", shp("y", n)))
    tt = t.j(t.reals("test_outputs", shp("t", n, m)))
    ix = lambda x, nd: (lambda *i: t.at(x, *i) if len(x.shape) == nd else t.at(x, *i, 0))
    f, g, h = ix(mu, 1), ix(y, 1), ix(tt, 2)
    return n, m, mu, y, tt, (lambda j: t.abs(g(j) - f(j))), h


@contract("C03", f"{R}.jackknifeplus:JackknifePlusConformalRegressor.conformal_interval")
def jackknife_plus(t):
    from fortuna.conformal import JackknifePlusConformalRegressor as J
    n, m, mu, y, tt, res, h = _loo(t)
    e = t.real("error", 0, 1, special=(0.0, 0.25, 0.5))
    r = t.call(J().conformal_interval, loo_val_outputs=mu, loo_val_targets=y, loo_test_outputs=tt, error=e)
    if t.no_exception("conformal_interval", r):
        t.arr_eq("quantiles of leave-one-out prediction -+ residual", r.value, (m, 2), lambda i, k: t.ite(
            k == 0, t.quantile(n, lambda j: h(j, i) - res(j), e), t.quantile(n, lambda j: h(j, i) + res(j), 1 - e)))


@contract("C03", f"{R}.jackknife_minmax:JackknifeMinmaxConformalRegressor.conformal_interval")
def jackknife_minmax(t):
    from fortuna.conformal import JackknifeMinmaxConformalRegressor as J
    n, m, mu, y, tt, res, h = _loo(t)
    e = t.real("error", 0, 1, special=(0.0, 0.25, 0.5))
    r = t.call(J().conformal_interval, loo_val_outputs=mu, loo_val_targets=y, loo_test_outputs=tt, error=e)
    if t.no_exception("conformal_interval", r):
        q = lambda: t.quantile(n, res, 1 - e)
        t.arr_eq("extreme leave-one-out predictions widened by the residual quantile", r.value, (m, 2), lambda i, k: t.ite(
            k == 0, t.min(n, lambda j: h(j, i)) - q(), t.max(n, lambda j: h(j, i)) + q()))


def _loo_rejects(path, cls):
    def rejects(t):
        import fortuna.conformal as fc
        n, m, k = t.dim("n"), t.dim("m"), t.dim("k", 2)
        a = lambda nm, *s: t.j(t.reals(nm, s))
        x = dict(loo_val_outputs=a("mu", n, 1), loo_val_targets=a("y", n, 1), loo_test_outputs=a("t", n, m, 1))
        w = t.choice("which", ["len", "mu2", "y2", "t3", "t1"])
        if w == "len":
            x["loo_val_targets"] = a("x", n + 1, 1)
        elif w == "mu2":
            x["loo_val_outputs"] = a("x", n, k)
        elif w == "y2":
            x["loo_val_targets"] = a("x", n, k)
        else:
            x["loo_test_outputs"] = a("x", n, m, k) if w == "t3" else a("x", n)
        t.raises_iff("shapes", t.call(getattr(fc, cls)().conformal_interval, error=0.5, **x), ValueError, True)
    contract("C03", path, name=f"rejects_{cls}")(rejects)


_loo_rejects(f"{R}.jackknifeplus:JackknifePlusConformalRegressor.conformal_interval", "JackknifePlusConformalRegressor")
_loo_rejects(f"{R}.jackknife_minmax:JackknifeMinmaxConformalRegressor.conformal_interval", "JackknifeMinmaxConformalRegressor")


# ------------------------------------------------------------------ CV+
@contract("C03", f"{R}.cvplus:CVPlusConformalRegressor.conformal_interval")
def cvplus(t):
    from fortuna.conformal import CVPlusConformalRegressor as V
    L, m = t.dim("folds"), t.dim("m")
    ns = t.dims("n", L)
    shp = lambda nm: (lambda *s: s) if t.choice("nd_" + nm, [0, 1]) else (lambda *s: s + (1,))
    sm, sy, st = shp("mu"), shp("y"), shp("t")
    mu, y = t.family("val_outputs", L, lambda l: sm(ns(l))), t.family("val_targets", L, lambda l: sy(ns(l)))
    tt = t.family("test_outputs", L, lambda l: st(m))
    e = t.real("error", 0, 1, special=(0.0, 0.25, 0.5))
    snap = t.snapshot(mu, y, tt)
    r = t.call(V().conformal_interval, cross_val_outputs=mu, cross_val_targets=y, cross_test_outputs=tt, error=e)
    if t.no_exception("conformal_interval", r):
        t.unchanged("the lists of the caller are not modified", snap)
        ix = lambda x, s, *i: t.at(x, *i) if len(s(1)) == 1 else t.at(x, *i, 0)
        res = lambda l, j: t.abs(ix(y, sy, l, j) - ix(mu, sm, l, j))
        N, left = t.concat(L, ns, lambda l, j: (lambda i: ix(tt, st, l, i) - res(l, j)), m)
        _, right = t.concat(L, ns, lambda l, j: (lambda i: ix(tt, st, l, i) + res(l, j)), m)
        t.arr_eq("quantiles of fold prediction -+ residual over all validation points", r.value, (m, 2), lambda i, k: t.ite(
            k == 0, t.quantile(N, lambda q: left(q, i), e), t.quantile(N, lambda q: right(q, i), 1 - e)))


@contract("C03", f"{R}.cvplus:CVPlusConformalRegressor.conformal_interval")
def cvplus_rejects(t):
    from fortuna.conformal import CVPlusConformalRegressor as V
    n, m, k = t.dim("n"), t.dim("m"), t.dim("k", 2)
    a = lambda nm, *s: t.j(t.reals(nm, s))
    x = dict(cross_val_outputs=[a("m0", n, 1), a("m1", n, 1)], cross_val_targets=[a("y0", n, 1), a("y1", n, 1)],
             cross_test_outputs=[a("t0", m, 1), a("t1", m, 1)])
    w, f, at = t.choice("which", list(x)), t.choice("how", ["type", "dim", "len"]), t.choice("at", [0, 1])
    if f == "type":
        x[w] = tuple(x[w])
    elif f == "dim":
        x[w][at] = a("x", m if w.startswith("cross_test") else n, k)
    else:
        x["cross_val_outputs"][at] = a("x", n + 1, 1)
    r = t.call(V().conformal_interval, error=0.5, **x)
    t.raises_iff("inputs", r, TypeError if f == "type" else ValueError, True)
