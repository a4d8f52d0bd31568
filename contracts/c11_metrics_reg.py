from vf.api import contract

MR = "fortuna.metric.regression"


def _inp(t):
    n, d = t.dim("n"), t.dim("d")
    return n, d, t.j(t.reals("preds", (n, d))), t.j(t.reals("targets", (n, d)))


def _point(names, root, f):
    def check(t):
        from fortuna.metric import regression as m
        n, d, p, y = _inp(t)
        r = t.call(getattr(m, t.choice("alias", names)), p, y)
        if t.no_exception(names[0], r):
            v = lambda: t.sum(n, lambda i: t.sum(d, lambda k: f(t, t.at(p, i, k) - t.at(y, i, k)))) / n
            t.arr_eq(names[0], r.value, (), (lambda: t.sqrt(v())) if root else v)
    contract("C11", [f"{MR}:{k}" for k in names], name=names[0])(check)


_point(["mean_squared_error", "mse"], False, lambda t, e: e ** 2)
_point(["root_mean_squared_error", "rmse"], True, lambda t, e: e ** 2)
_point(["mean_absolute_error", "mae"], False, lambda t, e: t.abs(e))
_point(["root_mean_absolute_error", "rmae"], True, lambda t, e: t.abs(e))


@contract("C11", [f"{MR}:prediction_interval_coverage_probability", f"{MR}:picp"])
def picp(t):
    from fortuna.metric import regression as m
    n = t.dim("n")
    shp = lambda nm: (n,) if t.choice(nm, [1, 2]) == 1 else (n, 1)
    lo, up, y = [t.j(t.reals(k, shp("nd_" + k))) for k in ("lower", "upper", "targets")]
    r = t.call(t.choice("alias", [m.prediction_interval_coverage_probability, m.picp]), lo, up, y)
    if t.no_exception("picp", r):
        a = lambda x, i: t.at(x, i) if len(x.shape) == 1 else t.at(x, i, 0)
        t.arr_eq("picp is the fraction of targets inside the closed interval", r.value, (), lambda: t.count(
            n, lambda i: t.and_(a(lo, i) <= a(y, i), a(y, i) <= a(up, i))) / n)


@contract("C11", f"{MR}:prediction_interval_coverage_probability")
def picp_rejects(t):
    from fortuna.metric.regression import prediction_interval_coverage_probability as f
    n, m = t.dim("n"), t.dim("m", 2)
    which = t.choice("which", [0, 1, 2])
    x = [t.j(t.reals(k, (n, m) if which == j else (n, 1))) for j, k in enumerate(("lower", "upper", "targets"))]
    t.raises_iff("picp", t.call(f, *x), ValueError, True)
