"""Adaptive conformal inference: the online update of the error level."""
from vf.api import contract

AC = "fortuna.conformal.classification.adaptive_conformal_classifier:AdaptiveConformalClassifier.update_error"
AR = "fortuna.conformal.regression.adaptive_conformal_regressor:AdaptiveConformalRegressor.update_error"


def _target(t, kind):
    mk = (lambda n, s: t.ints(n, s, 0, 5)) if kind == "c" else (lambda n, s: t.reals(n, s))
    y = t.j(mk("target0", ())) if t.choice("scalar", [0, 1]) else t.j(mk("target1", (1,)))
    return y, (lambda: t.at(y, 0) if len(y.shape) else t.at(y))


def _setup(t, kind):
    """-> object, the prediction set, target, whether the target is inside the set"""
    y, val = _target(t, kind)
    if kind == "c":
        from fortuna.conformal import AdaptiveConformalClassifier, AdaptivePredictionConformalClassifier, SimplePredictionConformalClassifier
        obj = AdaptiveConformalClassifier(conformal_classifier=t.choice("base", [AdaptivePredictionConformalClassifier, SimplePredictionConformalClassifier])())
        s = t.intlist("set", t.dim("l", 0), 0, 5)
        return obj, {"conformal_set": s}, y, lambda: t.member(s, val())
    from fortuna.conformal import AdaptiveConformalRegressor, QuantileConformalRegressor, OneDimensionalUncertaintyConformalRegressor
    obj = AdaptiveConformalRegressor(conformal_regressor=t.choice("base", [QuantileConformalRegressor, OneDimensionalUncertaintyConformalRegressor])())
    s = t.j(t.reals("interval", (2,)))
    return obj, {"conformal_interval": s}, y, lambda: t.and_(t.at(s, 0) <= val(), val() <= t.at(s, 1))


def _weights(n):
    def gen(r):
        w = r.randint(0, 5, size=int(n)).astype(float)
        w.sort()
        return w / w.sum() if w.sum() else w + 1.0 / len(w)
    return gen


def _valid_weights(t, w, n):
    s = t.sum(n, lambda i: t.at(w, i)) - 1
    return t.and_(t.abs(s) <= 1e-8 + 1e-5, t.all(n, lambda i: t.and_(t.at(w, i) >= 0, t.at(w, i) <= 1)),
                  t.all(n - 1, lambda i: t.at(w, i) <= t.at(w, i + 1)))


def _update(kind, target):
    @contract("C02", target, name=f"update_{'classifier' if kind == 'c' else 'regressor'}", rac=60)
    def update(t):
        obj, ps, y, inside = _setup(t, kind)
        err, terr = t.real("error", 0, 1), t.real("target_error", 0, 1)
        gamma = t.real("gamma", 0, lo_open=True)
        ret = t.choice("return_were_in", [False, True])
        kw = {}
        weighted = t.choice("weighted", [0, 1])
        if weighted:
            n = t.dim("n", 1)
            w = t.j(t.reals("weights", (n,), gen=_weights(n)))
            wi = t.j(t.ints("were_in", (n - 1,), 0, 2))
            t.assume(_valid_weights(t, w, n))
            kw = dict(weights=w, were_in=wi)
        snap = t.snapshot(ps)
        r = t.call(obj.update_error, error=err, target=y, target_error=terr, gamma=gamma, return_were_in=ret, **ps, **kw)
        if not t.no_exception("update_error", r):
            return
        t.unchanged("the prediction set is not modified", snap)
        now = lambda: t.ite(inside(), 1, 0)
        if weighted:
            hist = lambda i: t.ite(i < n - 1, t.at(wi, t.min2(i, n - 2)) if not (not t.sym and n == 1) else 0, now())
            step = lambda: terr - t.sum(n, lambda i: t.at(w, i) * (1 - hist(i)))
        else:
            step = lambda: terr - (1 - now())
        if ret:
            new, ins = r.value
            t.arr_eq("history of coverage indicators is extended by the current one", ins, (n,) if weighted else (1,),
                     hist if weighted else (lambda i: now()))
        else:
            new = r.value
        t.eq("error moves by gamma times the coverage gap, clipped to [0, 1]", new, t.clip(err + gamma * step(), 0, 1))
    return update


_update("c", AC)
_update("r", AR)


def _reject(kind, target):
    @contract("C02", target, name=f"validation_{'classifier' if kind == 'c' else 'regressor'}", rac=60)
    def validation(t):
        obj, ps, y, inside = _setup(t, kind)
        err, terr = t.real("error", 0, 1), t.real("target_error", 0, 1)
        gamma = t.real("gamma", -1, 2, special=(0.0,))
        mode = t.choice("mode", ["none", "both", "only_w", "only_wi", "w2d", "wi2d"])
        n, m = t.dim("n", 1), t.dim("m", 0)
        w = t.j(t.reals("weights", (n,), gen=_weights(n)))
        if t.choice("aligned", [0, 1]):
            t.assume(m == n - 1)
        wi = t.j(t.ints("were_in", (m,), 0, 3, gen=lambda r: r.randint(0, 2, size=int(m))))
        kw, bad = {}, gamma <= 0
        if mode in ("both", "only_w"):
            kw["weights"] = w
        if mode in ("both", "only_wi"):
            kw["were_in"] = wi
        if mode == "both":
            bad = t.or_(bad, t.not_(_valid_weights(t, w, n)), t.exists(m, lambda i: t.and_(t.at(wi, i) != 0, t.at(wi, i) != 1)), m != n - 1)
        elif mode == "w2d":
            kw = dict(weights=w[:, None], were_in=wi)
        elif mode == "wi2d":
            kw = dict(weights=w, were_in=wi[:, None])
        if mode not in ("none", "both"):
            bad = True
        r = t.call(obj.update_error, error=err, target=y, target_error=terr, gamma=gamma, **ps, **kw)
        t.raises_iff("update_error", r, ValueError, bad)


_reject("c", AC)
_reject("r", AR)
