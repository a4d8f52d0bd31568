"""Likelihood, joint and prior: the published densities and statistics at given parameters."""
from vf.api import contract

LB = "fortuna.likelihood.base:Likelihood"
LC = "fortuna.likelihood.classification:ClassificationLikelihood"
LR = "fortuna.likelihood.regression:RegressionLikelihood"


class Model:
    """An arbitrary model: outputs of a batch are a function of each row, the parameters and the mutable state."""

    def __init__(self, t, width):
        self.t, self.width = t, width

    def apply(self, params, inputs, mutable=None, train=False, rng=None, **kw):
        t = self.t
        ex = [t.at(params["w"], 0)] + ([t.at(mutable["m"], 0)] if mutable is not None else []) + ([t.toint(2)] if train else [])
        if rng is not None:
            ex.append(t.at(t.normal(rng, (1,)), 0))
        out = t.rowop("model" + ("m" if mutable is not None else ""), inputs, (self.width,), extra=ex)
        if mutable is not None and train:
            return out, {"mutable": {"m": t.op("newmut", [mutable["m"]], (1,))}}
        return out


class Calib:
    """An arbitrary output calibrator."""

    def __init__(self, t, width, active=True):
        self.t, self.width, self.output_calibrator = t, width, (True if active else None)

    def apply(self, params, outputs, mutable=None, calib=False, **kw):
        t = self.t
        if self.output_calibrator is None:
            return outputs
        ex = ([t.at(params["c"], 0)] if params is not None else []) + ([t.at(mutable["k"], 0)] if mutable is not None else []) + ([t.toint(3)] if calib else [])
        o = t.rowop("calib" + ("p" if params is not None else "") + ("m" if mutable is not None else ""), outputs, (self.width,), extra=ex)
        if calib and mutable is not None:
            return o, {"k": t.op("newcalmut", [mutable["k"]], (1,))}
        return o


def vec1(t, nm):
    return t.j(t.reals(nm, (1,)))


def setting(t, kind=None, train=False):
    """-> likelihood, width, params dict of keyword arguments, outs(inputs): the calibrated outputs at these arguments"""
    kind = kind or t.choice("kind", ["classification", "regression"])
    w = t.dim("w")
    width = w + 1 if kind == "classification" else 2 * w
    cal = t.choice("calibrator", ["none", "inactive", "active"])
    model = Model(t, width)
    manager = None if cal == "none" else Calib(t, width, cal == "active")
    if kind == "classification":
        from fortuna.likelihood.classification import ClassificationLikelihood as L
        from fortuna.prob_output_layer.classification import ClassificationProbOutputLayer as O
    else:
        from fortuna.likelihood.regression import RegressionLikelihood as L
        from fortuna.prob_output_layer.regression import RegressionProbOutputLayer as O
    lik = L(model, O(), manager)
    params = {"w": vec1(t, "params")}
    mutable = {"m": vec1(t, "mutable")} if t.choice("mut", [0, 1]) else None
    k = t.choice("calib_state", ["none", "params", "both"])
    cp = None if k == "none" else {"output_calibrator": {"c": vec1(t, "calib_params")}}
    cm = {"output_calibrator": {"k": vec1(t, "calib_mutable")}} if k == "both" else None
    kw = dict(mutable=mutable, calib_params=cp, calib_mutable=cm)

    def outs(x, **mk):
        o = model.apply(params, x, mutable, **mk)
        if isinstance(o, tuple):
            o = o[0]
        if cal == "active":
            o = manager.apply(cp["output_calibrator"] if cp else None, o, mutable=cm["output_calibrator"] if cm else None)
        return o
    return kind, lik, w, width, params, kw, outs


def batches(t, what="inputs"):
    """-> a loader of an unknown number of batches of unknown sizes (multiples of the number of devices when distributed)"""
    L, d = t.dim("batches"), t.dim("features")
    dist = t.choice("distribute", [False, True])
    m = t.dims("rows", L)
    D = t.devices() if dist else 1
    size = (lambda l: D * m(l))
    x = t.family("x", L, lambda l: (size(l), d))
    return L, size, dist, x


def logp(t, kind, o, r, w, y):
    """log-density of row r of the outputs o at the target y (index or vector function)"""
    if kind == "classification":
        return t.at(o, r, y) - t.logsumexp(w + 1, lambda j: t.at(o, r, j))
    return -t.sum(w, lambda j: t.exp(-t.at(o, r, w + j)) * (y(j) - t.at(o, r, j)) ** 2 + t.at(o, r, w + j) + t.log(2 * t.pi)) / 2


def targets(t, kind, size, w, l=None, L=None):
    if kind == "classification":
        return t.family("y", L, lambda l: (size(l),), "ints", 0, w + 1), lambda y, r: t.at(y, r)
    return t.family("y", L, lambda l: (size(l), w)), lambda y, r: (lambda j: t.at(y, r, j))


@contract("C15", [f"{LB}.log_prob", f"{LB}._batched_log_prob", f"{LB}._get_batched_calibrated_outputs", f"{LB}._loop_fun_through_data_loader", f"{LB}._unshard_array"], rac=14)
def log_prob(t):
    kind, lik, w, width, params, kw, outs = setting(t)
    L, size, dist, x = batches(t)
    y, target = targets(t, kind, size, w, L=L)
    r = t.call(lik.log_prob, params, t.seq("loader", L, lambda l: (t.j(t.at(x, l)), t.j(t.at(y, l)))), distribute=dist, **kw)
    if t.no_exception("log_prob", r):
        t.concat_eq("one log-density per data point, in order", r.value, L, size, (),
                    lambda l, j: logp(t, kind, outs(t.j(t.at(x, l))), j, w, target(t.at(y, l), j)))


@contract("C15", [f"{LB}.mean", f"{LB}.mode", f"{LB}.variance", f"{LB}.std", f"{LC}._batched_mean", f"{LC}._batched_mode", f"{LC}._batched_variance", f"{LC}.mean", f"{LC}.variance",
                  f"{LR}._batched_mean", f"{LR}._batched_mode", f"{LR}._batched_variance", f"{LB}._loop_fun_through_inputs_loader"], rac=14)
def moments(t):
    kind, lik, w, width, params, kw, outs = setting(t)
    L, size, dist, x = batches(t)
    what = t.choice("what", ["mean", "mode", "variance", "std"])
    r = t.call(getattr(lik, what), params, t.seq("loader", L, lambda l: t.j(t.at(x, l))), distribute=dist, **kw)
    if not t.no_exception(what, r):
        return
    o = lambda l: outs(t.j(t.at(x, l)))
    if kind == "classification":
        p = lambda l, j, k: t.exp(t.at(o(l), j, k)) / t.sum(width, lambda q: t.exp(t.at(o(l), j, q)))
        tail, f = {"mean": ((width,), p), "mode": ((), lambda l, j: t.argmax(width, lambda k: t.at(o(l), j, k))),
                   "variance": ((width,), lambda l, j, k: p(l, j, k) * (1 - p(l, j, k))),
                   "std": ((width,), lambda l, j, k: t.sqrt(p(l, j, k) * (1 - p(l, j, k))))}[what]
    else:
        mean = lambda l, j, k: t.at(o(l), j, k)
        var = lambda l, j, k: t.exp(t.at(o(l), j, w + k))
        tail, f = (w,), {"mean": mean, "mode": mean, "variance": var, "std": lambda *i: t.sqrt(var(*i))}[what]
    t.concat_eq(what + " of every data point, in order", r.value, L, size, tail, f)


def aux_setting(t):
    """Arguments of a (log-)joint probability of one batch: -> likelihood, x, y, row-wise log-density, outputs and everything else"""
    train = t.choice("train", [False, True])
    kind = t.choice("kind", ["classification", "regression"])
    w = t.dim("w")
    width = w + 1 if kind == "classification" else 2 * w
    cal = t.choice("calibrator", ["none", "inactive", "active", "stateful"])
    given = t.choice("given_outputs", [False, True])
    mut = t.choice("mut", [False, True])
    model, manager = Model(t, width), (None if cal == "none" else Calib(t, width, cal != "inactive"))
    if kind == "classification":
        from fortuna.likelihood.classification import ClassificationLikelihood as L
        from fortuna.prob_output_layer.classification import ClassificationProbOutputLayer as O
    else:
        from fortuna.likelihood.regression import RegressionLikelihood as L
        from fortuna.prob_output_layer.regression import RegressionProbOutputLayer as O
    lik = L(model, O(), manager)
    params = {"w": vec1(t, "params")}
    mutable = {"m": vec1(t, "mutable")} if mut else None
    c, k = (vec1(t, "calib_params"), vec1(t, "calib_mutable")) if cal in ("active", "stateful") else (None, None)
    cp = None if c is None else {"output_calibrator": {"c": c}}
    cm = {"output_calibrator": {"k": k}} if cal == "stateful" else ({"output_calibrator": None} if cal == "active" else None)
    b, d = t.dim("rows"), t.dim("features")
    x = t.j(t.reals("x", (b, d)))
    y = t.j(t.ints("y", (b,), 0, w + 1) if kind == "classification" else t.reals("y", (b, w)))
    pre = t.j(t.reals("outputs", (b, width))) if given else None
    rng = t.key("key") if t.choice("with_key", [False, True]) else None
    n = t.int("n_data", 1)
    return dict(lik=lik, kind=kind, w=w, width=width, cal=cal, model=model, manager=manager, params=params, mutable=mutable, cp=cp, cm=cm,
                b=b, x=x, y=y, pre=pre, rng=rng, n=n, train=train)


AUX = [None, [], ["outputs"], ["mutable"], ["calib_mutable"], ["outputs", "mutable"], ["outputs", "mutable", "calib_mutable"]]


def log_lik(t, s, aux):
    """The documented value: n_data / batch size times the sum of the log-densities; and the auxiliary objects"""
    newmut = None
    calib = aux is not None and "calib_mutable" in aux
    if s["pre"] is not None:
        o = s["pre"]
    else:
        o = s["model"].apply(s["params"], s["x"], s["mutable"], train=s["train"], rng=s["rng"])
        if isinstance(o, tuple):
            o, newmut = o[0], o[1]["mutable"]
    newcal = None
    if s["manager"] is not None and s["manager"].output_calibrator is not None:
        o = s["manager"].apply(s["cp"]["output_calibrator"], o, mutable=s["cm"]["output_calibrator"], calib=calib)
        if isinstance(o, tuple):
            o, newcal = o
    target = (lambda r: t.at(s["y"], r)) if s["kind"] == "classification" else (lambda r: (lambda j: t.at(s["y"], r, j)))
    value = t.sum(s["b"], lambda r: logp(t, s["kind"], o, r, s["w"], target(r))) * (t.toreal(s["n"]) / s["b"])
    return value, o, newmut, newcal


def check_aux(t, s, aux, got, o, newmut, newcal):
    keys = sorted(aux)
    t.ensure("exactly the requested auxiliary objects", isinstance(got, dict) and sorted(got) == keys)
    if "outputs" in aux:
        t.arr_eq("aux outputs are the calibrated outputs", got["outputs"], (s["b"], s["width"]), lambda i, j: t.at(o, i, j))
    if "mutable" in aux:
        t.arr_eq("aux mutable is the updated mutable", got["mutable"]["m"], (1,), lambda i: t.at(newmut["m"], i))
    if "calib_mutable" in aux:
        v = got["calib_mutable"]["output_calibrator"]
        if newcal is None:
            t.ensure("no calibrator state to update", v is None)
        else:
            t.arr_eq("aux calib_mutable is the updated calibrator state", v["k"], (1,), lambda i: t.at(newcal["k"], i))


def inconsistent(s, aux):
    a = aux or []
    return (s["train"] and s["pre"] is not None) or ("mutable" in a and (s["pre"] is not None or not s["train"] or s["mutable"] is None)) or \
        ("mutable" not in a and s["mutable"] is not None and s["train"])


@contract("C15", [f"{LB}._batched_log_joint_prob"], max_paths=2000)
def log_joint(t):
    aux = t.choice("aux", AUX)
    s = aux_setting(t)
    r = t.call(s["lik"]._batched_log_joint_prob, s["params"], (s["x"], s["y"]), s["n"], mutable=s["mutable"], calib_params=s["cp"], calib_mutable=s["cm"],
               return_aux=aux, train=s["train"], outputs=s["pre"], rng=s["rng"])
    if inconsistent(s, aux):
        t.raises_iff("inconsistent arguments are rejected", r, ValueError, True)
        return
    if not t.no_exception("log_joint", r):
        return
    value, o, newmut, newcal = log_lik(t, s, aux)
    if aux:
        t.ensure("value and auxiliary objects", isinstance(r.value, tuple) and len(r.value) == 2)
        v, got = r.value
        check_aux(t, s, aux, got, o, newmut, newcal)
    else:
        v = r.value
    t.arr_eq("n_data / batch size times the sum of the log-densities", v, (), lambda: value)


@contract("C15", [f"{LB}.get_outputs", f"{LB}.get_calibrated_outputs"], rac=14)
def outputs(t):
    kind, lik, w, width, params, kw, outs = setting(t)
    L, size, dist, x = batches(t)
    calibrated = t.choice("calibrated", [False, True])
    loader = t.seq("loader", L, lambda l: t.j(t.at(x, l)))
    if calibrated:
        r = t.call(lik.get_calibrated_outputs, params, loader, distribute=dist, **kw)
    else:
        r = t.call(lik.get_outputs, params, loader, mutable=kw["mutable"], distribute=dist)
        outs = lambda b: lik.model_manager.apply(params, b, kw["mutable"])
    if t.no_exception("outputs", r):
        t.concat_eq("the outputs of every data point, in order", r.value, L, size, (width,), lambda l, j, k: t.at(outs(t.j(t.at(x, l))), j, k))


def joined(t, L, size, x, width, outs):
    """all outputs as one table"""
    n, row = t.concat(L, size, lambda l, j: lambda k: t.at(outs(t.j(t.at(x, l))), j, k), width)
    return n, t.j(t.mat((n, width), lambda q, k: row(q, k)))


def key_of(t, *owners):
    """a key, given as argument or stored in the generator of the objects"""
    key = t.key("key")
    if t.choice("stored_key", [0, 1]):
        for o in owners:
            o.rng = type("R", (), {"get": lambda self: key})()
        return key, {}
    return key, {"rng": key}


@contract("C15", [f"{LB}.sample", f"{LB}._batched_sample"], max_paths=2000, rac=16)
def sample(t):
    kind, lik, w, width, params, kw, outs = setting(t)
    batched = t.choice("batched", [False, True])
    aux = t.choice("aux", [None, [], ["outputs"]])
    key, kk = key_of(t, lik.prob_output_layer)
    s = t.dim("n_target_samples")
    if batched:
        N, d = t.dim("rows"), t.dim("features")
        x = t.j(t.reals("x", (N, d)))
        r = t.call(lik._batched_sample, s, params, x, return_aux=aux, **kk, **kw)
        o = outs(x)
    else:
        L, size, dist, x = batches(t)
        r = t.call(lik.sample, s, params, t.seq("loader", L, lambda l: t.j(t.at(x, l))), return_aux=aux, distribute=dist, **kk, **kw)
        N, o = joined(t, L, size, x, width, outs)
    if not t.no_exception("sample", r):
        return
    v = r.value
    if aux:
        v, a = r.value
        t.ensure("only the outputs", sorted(a) == ["outputs"])
        t.arr_eq("aux outputs", a["outputs"], (N, width), lambda i, k: t.at(o, i, k))
    if kind == "classification":
        p = lambda i: t.vec(width, lambda k: t.exp(t.at(o, i, k)) / t.sum(width, lambda q: t.exp(t.at(o, i, q))))
        t.arr_eq("independent draws of each row from its class probabilities", v, (s, N),
                 lambda m, i: t.at(t.rand("choice", t.split(key, N, i), width, p=p(i), shape=(s,)), m))
    else:
        e = t.normal(key, (s, N, w))
        t.arr_eq("Gaussian draws of each row", v, (s, N, w), lambda m, i, j: t.at(o, i, j) + t.exp(t.at(o, i, w + j) / 2) * t.at(e, m, i, j))


@contract("C15", [f"{LB}.sample", f"{LB}._batched_sample", f"{LB}._batched_log_joint_prob"], max_paths=2000)
def unknown_aux(t):
    kind, lik, w, width, params, kw, outs = setting(t)
    b, d = t.dim("rows"), t.dim("features")
    x = t.j(t.reals("x", (b, d)))
    which = t.choice("method", ["sample", "_batched_sample", "_batched_log_joint_prob"])
    aux = t.choice("aux", [["mean"], ["outputs", "samples"], ["outputs", "mutable", "Outputs"]])
    if which == "sample":
        r = t.call(lik.sample, 2, params, [x], return_aux=aux, rng=t.key("key"), distribute=False, **kw)
    elif which == "_batched_sample":
        r = t.call(lik._batched_sample, 2, params, x, return_aux=aux, rng=t.key("key"), **kw)
    else:
        y = t.j(t.ints("y", (b,), 0, w + 1) if kind == "classification" else t.reals("y", (b, w)))
        r = t.call(lik._batched_log_joint_prob, params, (x, y), t.int("n_data", 1), return_aux=aux, **kw)
    t.raises_iff("unknown auxiliary objects are rejected", r, (AttributeError if which == "_batched_log_joint_prob" else Exception), True)


@contract("C15", [f"{LC}.entropy", f"{LR}.entropy"], max_paths=1000, rac=14)
def entropy(t):
    kind, lik, w, width, params, kw, outs = setting(t)
    L, size, dist, x = batches(t)
    loader = t.seq("loader", L, lambda l: t.j(t.at(x, l)))
    if kind == "classification":
        r = t.call(lik.entropy, params, loader, distribute=dist, **kw)
        if t.no_exception("entropy", r):
            lp = lambda l, j, k: logp(t, kind, outs(t.j(t.at(x, l))), j, w, k)
            t.concat_eq("entropy of the class distribution", r.value, L, size, (), lambda l, j: -t.sum(width, lambda k: t.exp(lp(l, j, k)) * lp(l, j, k)))
        return
    key, kk = key_of(t, lik.prob_output_layer)
    s = t.dim("n_target_samples")
    r = t.call(lik.entropy, params, loader, distribute=dist, n_target_samples=s, **kk, **kw)
    if t.no_exception("entropy", r):
        N, o = joined(t, L, size, x, width, outs)
        e = t.normal(key, (s, N, w))
        z = lambda m, i, j: t.at(o, i, j) + t.exp(t.at(o, i, w + j) / 2) * t.at(e, m, i, j)
        t.arr_eq("minus the mean log-density of the samples of the key", r.value, (N,),
                 lambda i: -t.sum(s, lambda m: logp(t, kind, o, i, w, lambda j: z(m, i, j))) / s)


@contract("C15", [f"{LR}.quantile"])
def quantile(t):
    given = t.choice("given", [0, 1])
    kind, lik, w, width, params, kw, outs = setting(t, "regression")
    q = t.real("q", 0, 1)
    s = t.dim("n_target_samples")
    if given:
        N = t.dim("n")
        z = t.j(t.reals("target_samples", (s, N, w)))
        r = t.call(lik.quantile, q, target_samples=z)
        f = lambda m, i, j: t.at(z, m, i, j)
    else:
        L, size, dist, x = batches(t)
        key, kk = key_of(t, lik.prob_output_layer)
        r = t.call(lik.quantile, q, params, t.seq("loader", L, lambda l: t.j(t.at(x, l))), n_target_samples=s, distribute=dist, **kk, **kw)
        N, o = joined(t, L, size, x, width, outs)
        e = t.normal(key, (s, N, w))
        f = lambda m, i, j: t.at(o, i, j) + t.exp(t.at(o, i, w + j) / 2) * t.at(e, m, i, j)
    if t.no_exception("quantile", r):
        t.arr_eq("quantile of the target samples", r.value, (N, w), lambda i, j: t.quantile(s, lambda m: f(m, i, j), q))


JB = "fortuna.prob_model.joint.base:Joint"
PG = "fortuna.prob_model.prior.gaussian:"


@contract("C15", [f"{JB}._batched_log_joint_prob", f"{JB}._batched_negative_log_joint_prob"], max_paths=2500)
def joint(t):
    from fortuna.prob_model.joint.base import Joint
    aux = t.choice("aux", AUX)
    s = aux_setting(t)
    neg = t.choice("negative", [False, True])
    prior = type("P", (), {"log_joint_prob": lambda self, p: t.op("logprior", [p["w"]], ())})()
    j = Joint(prior, s["lik"])
    fn = j._batched_negative_log_joint_prob if neg else j._batched_log_joint_prob
    r = t.call(fn, s["params"], (s["x"], s["y"]), s["n"], mutable=s["mutable"], calib_params=s["cp"], calib_mutable=s["cm"],
               return_aux=aux, train=s["train"], outputs=s["pre"], rng=s["rng"])
    if inconsistent(s, aux):
        t.raises_iff("inconsistent arguments are rejected", r, ValueError, True)
        return
    if not t.no_exception("joint", r):
        return
    value, o, newmut, newcal = log_lik(t, s, aux)
    value = value + t.at(prior.log_joint_prob(s["params"]))
    v = r.value
    if aux:
        v, got = r.value
        check_aux(t, s, aux, got, o, newmut, newcal)
    t.arr_eq("log-likelihood of the data set plus log-prior" + (", negated" if neg else ""), v, (), lambda: -value if neg else value)


def priors(t):
    from fortuna.prob_model.prior.gaussian import DiagonalGaussianPrior, IsotropicGaussianPrior
    p = t.tree("params")
    n, f = t.ravel(p)
    if t.choice("prior", ["isotropic", "diagonal"]) == "isotropic":
        lv = t.real("log_var")
        return IsotropicGaussianPrior(log_var=lv), p, n, f, lambda i: lv
    lv = t.j(t.reals("log_vars", (n,)))
    return DiagonalGaussianPrior(log_var=lv), p, n, f, lambda i: t.at(lv, i)


@contract("C15", [f"{PG}IsotropicGaussianPrior.log_joint_prob", f"{PG}DiagonalGaussianPrior.log_joint_prob"])
def prior_density(t):
    prior, p, n, f, lv = priors(t)
    r = t.call(prior.log_joint_prob, p)
    if t.no_exception("log_joint_prob", r):
        t.arr_eq("sum of the Gaussian log-densities of all parameters", r.value, (),
                 lambda: -t.sum(n, lambda i: t.exp(-lv(i)) * f(i) ** 2 + lv(i) + t.log(2 * t.pi)) / 2)


@contract("C15", [f"{PG}IsotropicGaussianPrior.sample", f"{PG}DiagonalGaussianPrior.sample"])
def prior_sample(t):
    prior, p, n, f, lv = priors(t)
    key, kk = key_of(t, prior)
    r = t.call(prior.sample, p, **kk)
    if t.no_exception("sample", r):
        m, g = t.ravel(r.value)
        e = t.normal(key, (n,))
        t.arr_eq("a centred Gaussian draw with the prior's standard deviations, shaped like the parameters", t.vec(m, g), (n,), lambda i: t.exp(lv(i) / 2) * t.at(e, i))
