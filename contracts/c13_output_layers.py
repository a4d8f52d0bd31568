"""Probabilistic output layers: the published density, moments, samples and entropies of their distribution."""
from vf.api import contract

CL = "fortuna.prob_output_layer.classification:ClassificationProbOutputLayer"
RL = "fortuna.prob_output_layer.regression:RegressionProbOutputLayer"
BL = "fortuna.prob_output_layer.base:ProbOutputLayer"


def _cls(t):
    from fortuna.prob_output_layer.classification import ClassificationProbOutputLayer
    n, c = t.dim("n"), t.dim("c", 2)
    o = t.j(t.reals("outputs", (n, c), gen=lambda r: 2 * r.randn(int(n), int(c))))
    return ClassificationProbOutputLayer(), n, c, o


def logp(t, o, i, c, k):
    return t.at(o, i, k) - t.logsumexp(c, lambda j: t.at(o, i, j))


def prob(t, o, i, c, k):
    return t.exp(t.at(o, i, k)) / t.sum(c, lambda j: t.exp(t.at(o, i, j)))


@contract("C13", [f"{CL}.log_prob"])
def cls_log_prob(t):
    l, n, c, o = _cls(t)
    y = t.j(t.ints("targets", (n,), 0, c))
    r = t.call(l.log_prob, o, y)
    if t.no_exception("log_prob", r):
        t.arr_eq("categorical log-probability of the target", r.value, (n,), lambda i: logp(t, o, i, c, t.at(y, i)))


@contract("C13", ["fortuna.prob_output_layer.classification:ClassificationMaskedProbOutputLayer.log_prob"])
def masked_log_prob(t):
    from fortuna.prob_output_layer.classification import ClassificationMaskedProbOutputLayer
    _, n, c, o = _cls(t)
    y = t.j(t.ints("targets", (n,), -1, c))
    r = t.call(ClassificationMaskedProbOutputLayer().log_prob, o, y)
    if t.no_exception("log_prob", r):
        t.arr_eq("log-probability of the target where it is positive, else zero", r.value, (n,),
                 lambda i: t.lazy_ite(t.at(y, i) > 0, lambda: logp(t, o, i, c, t.max2(t.at(y, i), 0)), lambda: 0.0))


@contract("C13", [f"{CL}.mean", f"{CL}.variance", f"{CL}.mode", f"{CL}.predict", f"{CL}.std", f"{BL}.std"])
def cls_moments(t):
    l, n, c, o = _cls(t)
    what = t.choice("what", ["mean", "variance", "std", "mode", "predict"])
    snap = t.snapshot(o)
    r = t.call(getattr(l, what), o)
    if not t.no_exception(what, r):
        return
    t.unchanged("outputs", snap)
    p = lambda i, k: prob(t, o, i, c, k)
    if what in ("mode", "predict"):
        t.arr_eq("most probable class", r.value, (n,), lambda i: t.argmax(c, lambda k: t.at(o, i, k)))
    else:
        t.arr_eq(what + " of the categorical distribution", r.value, (n, c), {
            "mean": p, "variance": lambda i, k: p(i, k) * (1 - p(i, k)), "std": lambda i, k: t.sqrt(p(i, k) * (1 - p(i, k)))}[what])


@contract("C13", f"{BL}.std")
def std_of_variances(t):
    from fortuna.prob_output_layer.classification import ClassificationProbOutputLayer
    from fortuna.prob_output_layer.regression import RegressionProbOutputLayer
    l = t.choice("layer", [ClassificationProbOutputLayer, RegressionProbOutputLayer])()
    n, c = t.dim("n"), t.dim("c", 2)
    o, v = t.j(t.reals("outputs", (n, 2 * c))), t.j(t.reals("variances", (n, c), 0))
    r = t.call(l.std, o, variances=v)
    if t.no_exception("std", r):
        t.arr_eq("square root of the given variances", r.value, (n, c), lambda i, k: t.sqrt(t.at(v, i, k)))


@contract("C13", f"{CL}.entropy")
def cls_entropy(t):
    l, n, c, o = _cls(t)
    r = t.call(l.entropy, o)
    if t.no_exception("entropy", r):
        t.arr_eq("entropy of the categorical distribution", r.value, (n,),
                 lambda i: -t.sum(c, lambda k: t.exp(logp(t, o, i, c, k)) * logp(t, o, i, c, k)))


@contract("C13", f"{CL}.sample")
def cls_sample(t):
    l, n, c, o = _cls(t)
    s, key = t.dim("n_target_samples"), t.key("key")
    given = t.choice("probs", [0, 1])
    p = t.j(t.reals("probs", (n, c), 0, 1, gen=lambda r: r.dirichlet([1.0] * int(c), size=int(n)))) if given else None
    stored = t.choice("stored_key", [0, 1])
    if stored:
        l.rng = type("R", (), {"get": lambda self: key})()
    kw = {} if stored else {"rng": key}
    r = t.call(l.sample, s, o, probs=p, **kw) if given else t.call(l.sample, s, o, **kw)
    if t.no_exception("sample", r):
        q = (lambda i: t.vec(c, lambda k: t.at(p, i, k))) if given else (lambda i: t.vec(c, lambda k: prob(t, o, i, c, k)))
        t.arr_eq("independent draws of each row from its class probabilities", r.value, (s, n),
                 lambda m, i: t.at(t.rand("choice", t.split(key, n, i), c, p=q(i), shape=(s,)), m))


def _reg(t, scalar=False):
    from fortuna.prob_output_layer.regression import RegressionProbOutputLayer
    n, d = t.dim("n"), 1 if scalar else t.dim("d")
    o = t.j(t.reals("outputs", (n, 2 * d), gen=lambda r: r.randn(int(n), 2 * int(d))))
    return RegressionProbOutputLayer(), n, d, o


def gauss(t, o, d, i, y):
    return -0.5 * t.sum(d, lambda j: t.exp(-t.at(o, i, d + j)) * t.pow(y(j) - t.at(o, i, j), 2) + t.at(o, i, d + j) + t.log(2 * t.pi))


@contract("C13", f"{RL}.log_prob")
def reg_log_prob(t):
    l, n, d, o = _reg(t)
    y = t.j(t.reals("targets", (n, d)))
    r = t.call(l.log_prob, o, y)
    if t.no_exception("log_prob", r):
        t.arr_eq("diagonal Gaussian log-density", r.value, (n,), lambda i: gauss(t, o, d, i, lambda j: t.at(y, i, j)))


@contract("C13", [f"{RL}.mean", f"{RL}.variance", f"{RL}.mode", f"{RL}.predict", f"{BL}.std"])
def reg_moments(t):
    l, n, d, o = _reg(t)
    what = t.choice("what", ["mean", "mode", "predict", "variance", "std"])
    r = t.call(getattr(l, what), o)
    if t.no_exception(what, r):
        f = {"variance": lambda i, j: t.exp(t.at(o, i, d + j)), "std": lambda i, j: t.sqrt(t.exp(t.at(o, i, d + j)))}.get(what, lambda i, j: t.at(o, i, j))
        t.arr_eq(what + " of the Gaussian distribution", r.value, (n, d), f)


def draw(t, o, n, d, s, key):
    e = t.normal(key, (s, n, d))
    return lambda m, i, j: t.at(o, i, j) + t.exp(0.5 * t.at(o, i, d + j)) * t.at(e, m, i, j)


def _key(t, l):
    key = t.key("key")
    if t.choice("stored_key", [0, 1]):
        l.rng = type("R", (), {"get": lambda self: key})()
        return key, {}
    return key, {"rng": key}


@contract("C13", f"{RL}.sample")
def reg_sample(t):
    l, n, d, o = _reg(t)
    s = t.dim("n_target_samples")
    key, kw = _key(t, l)
    r = t.call(l.sample, s, o, **kw)
    if t.no_exception("sample", r):
        t.arr_eq("mean plus standard deviation times standard normal draws", r.value, (s, n, d), draw(t, o, n, d, s, key))


@contract("C13", f"{RL}.quantile")
def reg_quantile(t):
    l, n, d, o = _reg(t)
    s = t.dim("n_target_samples")
    key, kw = _key(t, l)
    vec = t.choice("q", ["scalar", "list", "array"])
    z = draw(t, o, n, d, s, key)
    if vec == "scalar":
        q = t.real("q", 0, 1)
        r = t.call(l.quantile, q, o, n_target_samples=s, **kw)
        if t.no_exception("quantile", r):
            t.arr_eq("quantile of the samples", r.value, (n, d), lambda i, j: t.quantile(s, lambda m: z(m, i, j), q))
        return
    if vec == "list":
        q = [t.real("q0", 0, 1), t.real("q1", 0, 1)]
        k, qq = 2, lambda a: t.ite(a == 0, q[0], q[1])
    else:
        k = t.dim("k")
        q = t.j(t.reals("qs", (k,), 0, 1))
        qq = lambda a: t.at(q, a)
    r = t.call(l.quantile, q, o, n_target_samples=s, **kw)
    if t.no_exception("quantile", r):
        t.arr_eq("quantiles of the samples", r.value, (k, n, d), lambda a, i, j: t.quantile(s, lambda m: z(m, i, j), qq(a)))


@contract("C13", f"{RL}.entropy")
def reg_entropy(t):
    l, n, d, o = _reg(t)
    s = t.dim("n_target_samples")
    key, kw = _key(t, l)
    r = t.call(l.entropy, o, n_target_samples=s, **kw)
    if t.no_exception("entropy", r):
        z = draw(t, o, n, d, s, key)
        t.arr_eq("Monte Carlo entropy: minus the mean log-density of samples", r.value, (n,),
                 lambda i: -t.sum(s, lambda m: gauss(t, o, d, i, lambda j: z(m, i, j))) / s)


@contract("C13", f"{RL}.credible_interval")
def reg_credible(t):
    l, n, d, o = _reg(t, True)
    s, e = t.dim("n_target_samples"), t.real("error", 0, 1)
    key, kw = _key(t, l)
    ty = t.choice("interval_type", ["two-tailed", "right-tailed", "left-tailed"])
    r = t.call(l.credible_interval, o, n_target_samples=s, error=e, interval_type=ty, **kw)
    if t.no_exception("credible_interval", r):
        z = draw(t, o, n, 1, s, key)
        q = lambda i, lv: t.quantile(s, lambda m: z(m, i, 0), lv)
        if ty == "two-tailed":
            t.arr_eq("quantiles error/2 and 1 - error/2 of the samples", r.value, (n, 2), lambda i, a: q(i, t.ite(a == 0, 0.5 * e, 1 - 0.5 * e)))
        else:
            t.arr_eq("one-tailed quantile of the samples", r.value, (n, 1), lambda i, _: q(i, e if ty == "left-tailed" else 1 - e))


@contract("C13", f"{RL}.credible_interval")
def reg_credible_rejects(t):
    scalar = t.choice("scalar", [0, 1])
    l, n, d, o = _reg(t, bool(scalar))
    ty = t.choice("interval_type", ["two-tailed", "both", "right-tailed", ""])
    r = t.call(l.credible_interval, o, n_target_samples=t.dim("s"), interval_type=ty, rng=t.key("key"))
    t.raises_iff("credible_interval", r, ValueError, t.or_(ty in ("both", ""), d != 1))
