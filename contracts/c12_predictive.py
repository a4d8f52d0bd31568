"""Predictive statistics: posterior-sample mixtures of the likelihood, for the given key."""
from vf.api import contract
from contracts.c15_likelihood import Model, Calib, vec1, logp, batches, targets, key_of, inconsistent

PB = "fortuna.prob_model.predictive.base:Predictive"
PC = "fortuna.prob_model.predictive.classification:ClassificationPredictive"
PR = "fortuna.prob_model.predictive.regression:RegressionPredictive"


class Sample:
    def __init__(self, t, key, mut, cal):
        self.params = {"w": t.op("post_params", [key], (1,))}
        self.mutable = {"m": t.op("post_mutable", [key], (1,))} if mut else None
        self.calib_params = {"output_calibrator": {"c": t.op("post_calib", [key], (1,))}} if cal != "none" else None
        self.calib_mutable = {"output_calibrator": {"k": t.op("post_calibmut", [key], (1,)) if cal == "stateful" else None}} if cal != "none" else None
        if cal == "active":
            self.calib_mutable = {"output_calibrator": None}


class Setting:
    """A predictive over an arbitrary posterior (any function of the key) and an arbitrary model."""

    def __init__(self, t, kind=None, simple=False):
        self.t, self.cache = t, {}
        self.kind = kind = kind or t.choice("kind", ["classification", "regression"])
        self.w = w = t.dim("w")
        self.width = w + 1 if kind == "classification" else 2 * w
        self.cal = "none" if simple else t.choice("calibrator", ["none", "active", "stateful"])
        self.mut = False if simple else t.choice("mut", [False, True])
        self.model = Model(t, self.width)
        self.manager = None if self.cal == "none" else Calib(t, self.width)
        if kind == "classification":
            from fortuna.likelihood.classification import ClassificationLikelihood as L
            from fortuna.prob_output_layer.classification import ClassificationProbOutputLayer as O
            from fortuna.prob_model.predictive.classification import ClassificationPredictive as P
        else:
            from fortuna.likelihood.regression import RegressionLikelihood as L
            from fortuna.prob_output_layer.regression import RegressionProbOutputLayer as O
            from fortuna.prob_model.predictive.regression import RegressionPredictive as P
        self.lik = L(self.model, O(), self.manager)
        me = self

        class Posterior:
            joint = type("J", (), {"likelihood": me.lik})()

            def sample(self, inputs=None, rng=None, **kw):
                return Sample(t, rng, me.mut, me.cal)
        self.posterior = Posterior()
        self.pred = P(self.posterior)

    def outs(self, x, key):
        """calibrated outputs at the posterior sample of the key"""
        if not self.t.sym:      # the concrete reading asks for the same outputs once per entry
            import numpy as np
            c = (np.asarray(x).tobytes(), np.asarray(key).tobytes())
            if c not in self.cache:
                self.cache[c] = np.asarray(self._outs(x, key))
            return self.cache[c]
        return self._outs(x, key)

    def _outs(self, x, key):
        p = Sample(self.t, key, self.mut, self.cal)
        o = self.model.apply(p.params, x, p.mutable)
        if self.manager is not None:
            k = p.calib_mutable["output_calibrator"]
            o = self.manager.apply(p.calib_params["output_calibrator"], o, mutable=k)
        return o

    def mean(self, x, key, j, k):
        t, o = self.t, self.outs(x, key)
        if self.kind == "classification":
            return t.exp(t.at(o, j, k)) / t.sum(self.width, lambda q: t.exp(t.at(o, j, q)))
        return t.at(o, j, k)

    def variance(self, x, key, j, k):
        t = self.t
        if self.kind == "classification":
            p = self.mean(x, key, j, k)
            return p * (1 - p)
        return t.exp(t.at(self.outs(x, key), j, self.w + k))

    @property
    def tail(self):
        return (self.width,) if self.kind == "classification" else (self.w,)


def loader_of(t, L, x):
    return t.seq("loader", L, lambda l: t.j(t.at(x, l)))


@contract("C12", [f"{PB}.log_prob", f"{PB}._batched_log_prob", f"{PB}._loop_fun_through_data_loader", f"{PB}.ensemble_log_prob", f"{PB}._batched_ensemble_log_prob"], rac=8)
def log_prob(t):
    m = Setting(t)
    L, size, dist, x = batches(t)
    y, target = targets(t, m.kind, size, m.w, L=L)
    key, kk = key_of(t, m.pred)
    S = t.dim("n_posterior_samples")
    loader = t.seq("loader", L, lambda l: (t.j(t.at(x, l)), t.j(t.at(y, l))))
    lp = lambda l, j, s: logp(t, m.kind, m.outs(t.j(t.at(x, l)), t.split(key, S, s)), j, m.w, target(t.at(y, l), j))
    if t.choice("ensemble", [False, True]):
        r = t.call(m.pred.ensemble_log_prob, loader, n_posterior_samples=S, distribute=dist, **kk)
        if t.no_exception("ensemble_log_prob", r):
            t.concat_eq("log-likelihood of every posterior sample (first axis) at every data point", r.value.swapaxes(0, 1), L, size, (S,), lp)
        return
    r = t.call(m.pred.log_prob, loader, n_posterior_samples=S, distribute=dist, **kk)
    if t.no_exception("log_prob", r):
        t.concat_eq("log of the mean likelihood over posterior samples", r.value, L, size, (),
                    lambda l, j: t.logsumexp(S, lambda s: lp(l, j, s)) - t.log(t.toreal(S)))


@contract("C12", [f"{PB}.mean", f"{PB}._batched_mean", f"{PB}.aleatoric_variance", f"{PB}._batched_aleatoric_variance", f"{PB}.epistemic_variance",
                  f"{PB}._batched_epistemic_variance", f"{PB}._loop_fun_through_inputs_loader"], rac=8)
def moments(t):
    m = Setting(t)
    L, size, dist, x = batches(t)
    key, kk = key_of(t, m.pred)
    S = t.dim("n_posterior_samples")
    what = t.choice("what", ["mean", "aleatoric_variance", "epistemic_variance"])
    r = t.call(getattr(m.pred, what), loader_of(t, L, x), n_posterior_samples=S, distribute=dist, **kk)
    if not t.no_exception(what, r):
        return
    X = lambda l: t.j(t.at(x, l))
    K = lambda s: t.split(key, S, s)
    mean = lambda l, j, k: t.sum(S, lambda s: m.mean(X(l), K(s), j, k)) / S
    if what == "mean":
        t.concat_eq("mean over posterior samples of the likelihood means", r.value, L, size, m.tail, mean)
    elif what == "aleatoric_variance":
        t.concat_eq("mean over posterior samples of the likelihood variances", r.value, L, size, m.tail,
                    lambda l, j, k: t.sum(S, lambda s: m.variance(X(l), K(s), j, k)) / S)
    else:
        t.concat_eq("variance over posterior samples of the likelihood means", r.value, L, size, m.tail,
                    lambda l, j, k: t.max2(0, t.sum(S, lambda s: m.mean(X(l), K(s), j, k) ** 2) / S - mean(l, j, k) ** 2))


@contract("C12", [f"{PB}.variance", f"{PB}.std", f"{PC}.variance", f"{PC}.std"])
def variance(t):
    """Modular: the two variances are any functions of their key (proved above to be the stated ones)."""
    m = Setting(t, simple=True)
    n, L = t.dim("n"), t.dim("batches")
    x = t.family("x", L, lambda l: (2, 2))
    loader, key = loader_of(t, L, x), t.key("key")
    S = t.dim("n_posterior_samples")
    dist = t.choice("distribute", [False, True])
    given = t.choice("given", ["none", "aleatoric", "epistemic", "both"])
    A = t.j(t.reals("aleatoric", (n, m.w), 0))
    E = t.j(t.reals("epistemic", (n, m.w), 0))

    def part(name):
        def spec(b):
            t.ensure(name + " is computed from the same data, sample size and distribution flag",
                     t.and_(b["inputs_loader"] is loader, b["n_posterior_samples"] == S, b["distribute"] is dist))
            return t.j(t.op(name, [b["rng"]], (n, m.w)))
        return spec
    for c in (PB, PC):
        t.callee(f"{c}.aleatoric_variance", part("aleatoric_of"), stub=True)
        t.callee(f"{c}.epistemic_variance", part("epistemic_of"), stub=True)
    what = t.choice("what", ["variance", "std", "given_variances"])
    if what == "given_variances":
        r = t.call(m.pred.std, loader, variances=A, rng=key, distribute=dist)
        if t.no_exception("std", r):
            t.arr_eq("square root of the given variances", r.value, (n, m.w), lambda i, j: t.sqrt(t.at(A, i, j)))
        return
    kw = {}
    if what == "variance":
        if given in ("aleatoric", "both"):
            kw["aleatoric_variances"] = A
        if given in ("epistemic", "both"):
            kw["epistemic_variances"] = E
    r = t.call(getattr(m.pred, what), loader, n_posterior_samples=S, rng=key, distribute=dist, **kw)
    if not t.no_exception(what, r):
        return
    k = key
    if "aleatoric_variances" in kw:
        a = A
    else:
        a, k = t.op("aleatoric_of", [t.split(k, 2, 1)], (n, m.w)), t.split(k, 2, 0)
    e = E if "epistemic_variances" in kw else t.op("epistemic_of", [t.split(k, 2, 1)], (n, m.w))
    f = lambda i, j: t.at(a, i, j) + t.at(e, i, j)
    if what == "std":
        t.arr_eq("square root of the total variance", r.value, (n, m.w), lambda i, j: t.sqrt(f(i, j)))
    else:
        t.arr_eq("total variance = aleatoric + epistemic", r.value, (n, m.w), f)


@contract("C12", [f"{PB}.sample_calibrated_outputs", f"{PB}._sample_batched_calibrated_outputs", f"{PB}._loop_ensemble_fun_through_inputs_loader", f"{PB}._unshard_ensemble_arrays"], rac=8)
def calibrated_outputs(t):
    m = Setting(t)
    L, size, dist, x = batches(t)
    key, kk = key_of(t, m.pred)
    S = t.dim("n_output_samples")
    r = t.call(m.pred.sample_calibrated_outputs, loader_of(t, L, x), n_output_samples=S, distribute=dist, **kk)
    if t.no_exception("sample_calibrated_outputs", r):
        t.concat_eq("calibrated outputs of every posterior sample (first axis) at every data point", r.value.swapaxes(0, 1), L, size, (S, m.width),
                    lambda l, j, s, k: t.at(m.outs(t.j(t.at(x, l)), t.split(key, S, s)), j, k))


@contract("C12", [f"{PB}._sample_outputs_loader"], rac=8)
def outputs_loader(t):
    m = Setting(t)
    L, d = t.dim("batches"), t.dim("features")
    dist = t.choice("distribute", [False, True])
    rows = t.dims("rows", L)
    D = t.devices() if dist else 1
    x = t.family("x", L, lambda l: (D * rows(l), d))
    key, kk = key_of(t, m.pred)
    S = t.dim("n_output_samples")
    sized = t.choice("return_size", [False, True])
    r = t.call(m.pred._sample_outputs_loader, loader_of(t, L, x), n_output_samples=S, return_size=sized, distribute=dist, **kk)
    if not t.no_exception("_sample_outputs_loader", r):
        return
    loader = r.value
    if sized:
        loader, size = r.value
        t.ensure("the number of data points", size == t.sum(L, lambda l: D * rows(l)))

    def out(l, s, j, k):
        ks = t.split(key, S, s)
        if dist:
            ks = t.split(ks, D, t.fdiv(j, rows(l)))
        p = Sample(t, ks, m.mut, m.cal)
        return t.at(m.model.apply(p.params, t.j(t.at(x, l)), p.mutable), j, k)
    got = t.items(loader)
    t.ensure("one array per batch", t.len(got) == L)
    t.each("one array of uncalibrated outputs per batch", L, lambda l: t.arr_eq("outputs", t.at(got, l), (S, D * rows(l), m.width), lambda s, j, k: out(l, s, j, k)))


@contract("C12", [f"{PB}.sample", f"{PB}._batched_sample"], max_paths=2000, rac=8)
def sample(t):
    m = Setting(t)
    L, d = t.dim("batches"), t.dim("features")
    dist = t.choice("distribute", [False, True])
    rows = t.dims("rows", L)
    D = t.devices() if dist else 1
    x = t.family("x", L, lambda l: (D * rows(l), d))
    aux = t.choice("aux", [None, [], ["outputs"]])
    key, kk = key_of(t, m.pred)
    T = t.dim("n_target_samples")
    r = t.call(m.pred.sample, loader_of(t, L, x), n_target_samples=T, return_aux=aux, distribute=dist, **kk)
    if not t.no_exception("sample", r):
        return
    v = r.value
    X = lambda l: t.j(t.at(x, l))
    size = lambda l: D * rows(l)
    post = lambda s: t.split(t.split(key, T, s), 2, 0)
    draw = lambda s: t.split(t.split(key, T, s), 2, 1)
    if aux:
        v, a = r.value
        t.ensure("only the outputs", sorted(a) == ["outputs"])
        t.concat_eq("outputs of the posterior sample behind every target sample", a["outputs"].swapaxes(0, 1).squeeze(2) if len(a["outputs"].shape) == 4 else a["outputs"].swapaxes(0, 1),
                    L, size, (T, m.width), lambda l, j, s, k: t.at(m.outs(X(l), post(s)), j, k))
    pos = (lambda l, j: t.mod(j, rows(l))) if dist else (lambda l, j: j)
    if m.kind == "classification":
        def cls(l, j, s):
            o = m.outs(X(l), post(s))
            p = t.vec(m.width, lambda k: t.exp(t.at(o, j, k)) / t.sum(m.width, lambda q: t.exp(t.at(o, j, q))))
            return t.at(t.rand("choice", t.split(draw(s), rows(l), pos(l, j)), m.width, p=p, shape=(1,)), 0)
        t.concat_eq("each target sample: a class drawn at its own posterior sample", v.swapaxes(0, 1), L, size, (T,), cls)
    else:
        def reg(l, j, s, i):
            o = m.outs(X(l), post(s))
            return t.at(o, j, i) + t.exp(t.at(o, j, m.w + i) / 2) * t.at(t.normal(draw(s), (1, rows(l), m.w)), 0, pos(l, j), i)
        t.concat_eq("each target sample: a Gaussian draw at its own posterior sample", v.swapaxes(0, 1), L, size, (T, m.w), reg)


def abstract_outputs(t, m, N, S):
    """Modular: sample_calibrated_outputs replaced by its contract (some function of the key), proved above."""
    def spec(b):
        t.ensure("ensemble size", b["n_output_samples"] == S)
        return t.j(t.op("ensemble_outputs", [b["rng"]], (S, N, m.width)))
    t.callee(f"{PB}.sample_calibrated_outputs", spec, stub=True)


@contract("C12", [f"{PC}.entropy", f"{PC}.aleatoric_entropy", f"{PC}.epistemic_entropy"])
def entropies_classification(t):
    m = Setting(t, "classification", simple=True)
    N, S = t.dim("n"), t.dim("n_posterior_samples")
    abstract_outputs(t, m, N, S)
    key = t.key("key")
    dist = t.choice("distribute", [False, True])
    what = t.choice("what", ["entropy", "aleatoric_entropy", "epistemic_entropy"])
    r = t.call(getattr(m.pred, what), [], n_posterior_samples=S, rng=key, distribute=dist)
    if not t.no_exception(what, r):
        return
    o = t.j(t.op("ensemble_outputs", [key], (S, N, m.width)))
    lp = lambda s, i, k: t.at(o, s, i, k) - t.logsumexp(m.width, lambda q: t.at(o, s, i, q))
    pred = lambda i, k: t.logsumexp(S, lambda s: lp(s, i, k)) - t.log(t.toreal(S))
    tot = lambda i: -t.sum(m.width, lambda k: t.exp(pred(i, k)) * pred(i, k))
    ale = lambda i: -t.sum(m.width, lambda k: t.sum(S, lambda s: t.exp(lp(s, i, k)) * lp(s, i, k)) / S)
    if what == "entropy":
        t.arr_eq("entropy of the posterior-averaged class distribution", r.value, (N,), tot)
    elif what == "aleatoric_entropy":
        t.arr_eq("mean entropy of the class distributions", r.value, (N,), ale)
    else:
        t.arr_eq("entropy = aleatoric + epistemic", r.value, (N,), lambda i: tot(i) - ale(i))


@contract("C12", [f"{PR}.entropy", f"{PR}.aleatoric_entropy", f"{PR}.epistemic_entropy"])
def entropies_regression(t):
    m = Setting(t, "regression", simple=True)
    N, S, T = t.dim("n"), t.dim("n_posterior_samples"), t.dim("n_target_samples")
    abstract_outputs(t, m, N, S)
    key, kk = key_of(t, m.pred)
    dist = t.choice("distribute", [False, True])
    what = t.choice("what", ["entropy", "aleatoric_entropy", "epistemic_entropy"])
    r = t.call(getattr(m.pred, what), [], n_posterior_samples=S, n_target_samples=T, distribute=dist, **kk)
    if not t.no_exception(what, r):
        return
    w = m.w
    o = t.j(t.op("ensemble_outputs", [t.split(key, 1 + S, 0)], (S, N, m.width)))

    def z(s, a, i, j):
        return t.at(o, s, i, j) + t.exp(t.at(o, s, i, w + j) / 2) * t.at(t.normal(t.split(key, 1 + S, 1 + s), (T, N, w)), a, i, j)

    def lp(q, s, a, i):
        return -t.sum(w, lambda j: t.exp(-t.at(o, q, i, w + j)) * (z(s, a, i, j) - t.at(o, q, i, j)) ** 2 + t.at(o, q, i, w + j) + t.log(2 * t.pi)) / 2
    pred = lambda s, a, i: t.logsumexp(S, lambda q: lp(q, s, a, i)) - t.log(t.toreal(S))
    tot = lambda i: -t.sum(S, lambda s: t.sum(T, lambda a: pred(s, a, i)) / T) / S
    ale = lambda i: -t.sum(S, lambda s: t.sum(T, lambda a: lp(s, s, a, i)) / T) / S
    if what == "entropy":
        t.arr_eq("minus the mean log predictive density of the samples", r.value, (N,), tot)
    elif what == "aleatoric_entropy":
        t.arr_eq("minus the mean log-likelihood of the samples", r.value, (N,), ale)
    else:
        t.arr_eq("entropy = aleatoric + epistemic", r.value, (N,), lambda i: tot(i) - ale(i))


@contract("C12", [f"{PC}.mode", f"{PR}.mode"])
def mode(t):
    m = Setting(t, simple=True)
    N, S = t.dim("n"), t.dim("n_posterior_samples")
    d = m.width if m.kind == "classification" else m.w
    key = t.key("key")
    t.callee(f"{PB}.mean", lambda b: t.j(t.op("mean_of", [b["rng"]], (N, d))), stub=True)
    if t.choice("given", [False, True]):
        p = t.j(t.reals("means", (N, d)))
        r = t.call(m.pred.mode, [], n_posterior_samples=S, means=p)
    else:
        p = t.op("mean_of", [key], (N, d))
        r = t.call(m.pred.mode, [], n_posterior_samples=S, rng=key, distribute=t.choice("distribute", [False, True]))
    if t.no_exception("mode", r):
        if m.kind == "classification":
            t.arr_eq("most probable class", r.value, (N,), lambda i: t.argmax(d, lambda k: t.at(p, i, k)))
        else:
            t.arr_eq("predictive mean", r.value, (N, d), lambda i, k: t.at(p, i, k))


@contract("C12", [f"{PR}.quantile", f"{PR}.credible_interval"])
def intervals(t):
    """Modular: the target samples are any function of the key."""
    m = Setting(t, "regression", simple=True)
    N, T = t.dim("n"), t.dim("n_target_samples")
    what = t.choice("what", ["quantile", "quantiles", "list", "two-tailed", "right-tailed", "left-tailed", "both-tailed"])
    interval = what.endswith("tailed")
    d = t.choice("d", [1, 2]) if interval else t.dim("d")
    key = t.key("key")

    def spec(b):
        t.ensure("sample size", b["n_target_samples"] == T)
        return t.j(t.op("samples_of", [b["rng"]], (T, N, d)))
    t.callee(f"{PB}.sample", spec, stub=True)
    z = t.op("samples_of", [key], (T, N, d))
    Q = lambda i, j, q: t.quantile(T, lambda s: t.at(z, s, i, j), q)
    if not interval:
        if what == "quantile":
            q = t.real("q", 0, 1)
            r = t.call(m.pred.quantile, q, [], n_target_samples=T, rng=key)
            if t.no_exception("quantile", r):
                t.arr_eq("quantile of the target samples", r.value, (N, d), lambda i, j: Q(i, j, q))
            return
        if what == "list":
            k, q = 2, [t.real("q0", 0, 1), t.real("q1", 0, 1)]
            qq = lambda a: t.ite(a == 0, q[0], q[1])
        else:
            k = t.dim("k")
            q = t.j(t.reals("qs", (k,), 0, 1))
            qq = lambda a: t.at(q, a)
        r = t.call(m.pred.quantile, q, [], n_target_samples=T, rng=key)
        if t.no_exception("quantile", r):
            t.arr_eq("quantiles of the target samples", r.value, (k, N, d), lambda a, i, j: Q(i, j, qq(a)))
        return
    e = t.real("error", 0, 1)
    r = t.call(m.pred.credible_interval, [], n_target_samples=T, error=e, interval_type=what, rng=key)
    if what == "both-tailed" or d != 1:
        t.raises_iff("unknown interval types and vector targets are rejected", r, ValueError, True)
        return
    if t.no_exception("credible_interval", r):
        if what == "two-tailed":
            t.arr_eq("quantiles error/2 and 1 - error/2 of the target samples", r.value, (N, 2), lambda i, a: Q(i, 0, t.ite(a == 0, e / 2, 1 - e / 2)))
        else:
            t.arr_eq("one-tailed quantile of the target samples", r.value, (N, 1), lambda i, _: Q(i, 0, e if what == "left-tailed" else 1 - e))


@contract("C12", [f"{PB}._batched_log_joint_prob", f"{PB}._batched_negative_log_joint_prob"], max_paths=2000)
def joint(t):
    """Modular: the likelihood of one parameter sample is any function of its arguments (C15 proves which)."""
    m = Setting(t)
    aux = t.choice("aux", [None, ["outputs"], ["calib_mutable"], ["outputs", "calib_mutable"], ["mutable"]])
    neg = t.choice("negative", [False, True])
    b, d, S = t.dim("rows"), t.dim("features"), t.dim("n_posterior_samples")
    batch = t.j(t.reals("x", (b, d))), t.j(t.ints("y", (b,), 0, m.w + 1) if m.kind == "classification" else t.reals("y", (b, m.w)))
    n = t.int("n_data", 1)
    given = t.choice("given_outputs", [False, True])
    own = t.choice("given_calib", [False, True]) and m.cal != "none"
    cp = {"output_calibrator": {"c": vec1(t, "calib_params")}} if own else None
    cm = {"output_calibrator": {"k": vec1(t, "calib_mutable")} if m.cal == "stateful" else None} if own else None
    kw = dict(calib_params=cp, calib_mutable=cm)
    key = t.key("key")
    if given:
        o0 = t.j(t.reals("ensemble_outputs", (S, b, m.width)))
        state = Sample(t, t.key("state"), m.mut, m.cal)
        m.posterior.state = type("St", (), {"extract_calib_keys": lambda self: {"calib_params": state.calib_params, "calib_mutable": state.calib_mutable}})()
        kw["ensemble_outputs"] = o0

    def args(p, mut, c, k, o):
        a = []
        for v, e in ((p, "w"), (mut, "m"), (c and c["output_calibrator"], "c"), (k and k["output_calibrator"], "k")):
            a += ["none"] if v is None else [t.at(v[e], 0)]
        return a

    def lik(p, mut, c, k, o):
        """value, outputs, calibrator state at the given arguments; o: the entry of the outputs, or None"""
        a, e = args(p, mut, c, k, o), []
        if o is not None:
            e = [t.sum(b, lambda i: t.sum(m.width, lambda q: o(i, q)))]     # depends on all the outputs
        r = t.op("lik_value", a + e, ()), t.op("lik_outputs", a + e, (b, m.width)), None
        if m.cal == "stateful" and aux and "calib_mutable" in aux:
            r = r[:2] + (t.op("lik_calib", a + e, (1,)),)
        return r

    def spec(g):
        t.ensure("the batch, the number of data points and the auxiliary names are passed on",
                 t.and_(g["batch"] is batch, g["n_data"] == n, list(g["return_aux"]) == (aux or []), not g["train"]))
        o = g["outputs"]
        v, out, k = lik(g["params"], g["mutable"], g["calib_params"], g["calib_mutable"], None if o is None else (lambda i, q: t.at(o, i, q)))
        if not aux:
            return v
        r = {}
        if "outputs" in aux:
            r["outputs"] = t.j(out)
        if "calib_mutable" in aux:
            r["calib_mutable"] = {"output_calibrator": None if k is None else {"k": t.j(k)}}
        return v, r
    if aux != ["mutable"]:
        t.callee("fortuna.likelihood.base:Likelihood._batched_log_joint_prob", spec, stub=True)
    f = m.pred._batched_negative_log_joint_prob if neg else m.pred._batched_log_joint_prob
    r = t.call(f, batch, n, n_posterior_samples=S, return_aux=aux, rng=key, **kw)
    if aux == ["mutable"]:
        t.ensure("unknown auxiliary objects are rejected", r.exc is not None)
        return
    if not t.no_exception("log joint", r):
        return

    def at(s):
        if given:
            c, k = (cp, cm) if own else (state.calib_params, state.calib_mutable)
            return lik(None, None, c, k, lambda i, q: t.at(o0, s, i, q))
        p = Sample(t, t.split(key, S, s), m.mut, m.cal)
        c, k = (cp, cm) if own else (p.calib_params, p.calib_mutable)
        return lik(p.params, p.mutable, c, k, None)
    lse = t.logsumexp(S, lambda s: at(s)[0]) - t.log(t.toreal(S))
    v = r.value
    if aux:
        t.ensure("value and auxiliary objects", isinstance(v, tuple) and len(v) == 2)
        v, got = v
        t.ensure("exactly the requested auxiliary objects", sorted(got) == sorted(aux))
        if "outputs" in aux:
            t.arr_eq("outputs averaged over the posterior samples", got["outputs"], (b, m.width), lambda i, k: t.sum(S, lambda s: t.at(at(s)[1], i, k)) / S)
        if "calib_mutable" in aux:
            k = got["calib_mutable"]["output_calibrator"]
            if m.cal != "stateful":
                t.ensure("no calibrator state to update", k is None)
            else:
                t.arr_eq("calibrator states averaged over the posterior samples", k["k"], (1,), lambda i: t.sum(S, lambda s: t.at(at(s)[2], i)) / S)
    t.arr_eq("log of the mean over posterior samples of the joint likelihood", v, (), lambda: -lse if neg else lse)


@contract("C12", [f"{PC}.credible_set"], rac=60, bounded="object arrays filled by label count")
def credible_set(t):
    """Modular: the predictive class probabilities are any probability vectors."""
    m = Setting(t, "classification", simple=True)
    N, c = t.dim("n"), t.dim("c")
    key = t.key("key")
    e = t.real("error", 0, 1, lo_open=True, hi_open=True)
    p = t.j(t.reals("probs", (N, c), 0, 1, gen=lambda r: r.dirichlet([1.0] * int(c), size=int(N))))
    t.assume_all(N, lambda i: t.sum(c, lambda k: t.at(p, i, k)) > 1 - e)
    t.callee(f"{PB}.mean", lambda b: p, stub=True)
    r = t.call(m.pred.credible_set, [], n_posterior_samples=t.dim("S"), error=e, rng=key)
    if not t.no_exception("credible_set", r):
        return
    t.ensure("one set per data point", len(r.value) == N)
    for i in range(N):
        got = [int(k) for k in r.value[i]]
        order = sorted(range(c), key=lambda k: -t.at(p, i, k))
        t.ensure("distinct labels", len(set(got)) == len(got) and set(got) <= set(range(c)))
        mass = [float(t.at(p, i, k)) for k in got]
        t.ensure("in decreasing order of probability, none more probable left out",
                 all(abs(a - float(t.at(p, i, k))) < 1e-9 for a, k in zip(mass, order)))
        t.ensure("its mass exceeds 1 - error", sum(mass) > 1 - e - 1e-9)
        t.ensure("no smaller set of most probable labels does", sum(mass[:-1]) <= 1 - e + 1e-9)


@contract("C12", [f"{PC}.conformal_set"], rac=40, bounded="object arrays filled by label count; data loaders of at most 12 training and 12 test points")
def conformal_set(t):
    """Modular: the log-likelihoods of the posterior samples are any numbers."""
    import numpy as np
    from fortuna.data.loader import DataLoader, InputsLoader
    m = Setting(t, "classification", simple=True)
    nt, n, c, S = t.dim("n_train", 2, 12), t.dim("n_test", 1, 12), t.dim("c", 2, 4), t.dim("S")
    y = np.concatenate([np.arange(c), t.ints("y", (nt,), 0, c)])
    nt = len(y)
    x, z = t.reals("x", (nt, 2)), t.reals("z", (n, 2))
    E = t.reals("log_liks", (S, nt + c * n), gen=lambda r: r.randn(S, nt + c * n))
    train, test = DataLoader.from_array_data((x, y), batch_size=t.dim("b1", 1, nt)), InputsLoader.from_array_inputs(z, batch_size=t.dim("b2", 1, n))
    e = t.real("error", 0, 1, lo_open=True, hi_open=True)
    key = t.key("key")

    def spec(b):
        xs, ys = zip(*[(np.asarray(u), np.asarray(v)) for u, v in b["data_loader"]])
        want = np.concatenate([y] + [np.full(n, k) for k in range(c)])
        t.ensure("the data are the training data, then the test inputs with each label",
                 np.array_equal(np.concatenate(ys), want) and np.allclose(np.concatenate(xs), np.concatenate([x] + [z] * c)))
        return t.j(E)
    t.callee(f"{PB}.ensemble_log_prob", spec, stub=True)
    ess = t.choice("return_ess", [False, True])
    r = t.call(m.pred.conformal_set, train, test, n_posterior_samples=S, error=e, rng=key, return_ess=ess)
    if not t.no_exception("conformal_set", r):
        return
    got = r.value[0] if ess else r.value
    t.ensure("one set per test point", len(got) == n)
    for i in range(n):
        want = set()
        for k in range(c):
            w = np.exp(E[:, nt + k * n + i])
            p = (w[:, None] * np.exp(E[:, :nt])).sum(0) / w.sum()
            q = (w ** 2).sum() / w.sum()
            if np.any(np.abs(p - q) < 1e-9) or abs((1 + (p <= q).sum()) - e * (nt + 1)) < 1e-9:
                t.undecided("a tie")
            if 1 + (p <= q).sum() > e * (nt + 1):
                want.add(k)
            if ess:
                v = w / w.sum()
                t.ensure("effective sample size", abs(float(np.asarray(r.value[1])[i, k].squeeze()) - 1 / (v ** 2).sum()) < 1e-6 * S)
        t.ensure("labels whose rank among the training points exceeds error (n + 1)", sorted(int(k) for k in got[i]) == sorted(want))
