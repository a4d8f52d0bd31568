"""Training losses, temperature calibrators and their manager, gradient clipping, step-wise learning rates."""
from vf.api import contract

OM = "fortuna.output_calibrator.output_calib_manager.base:OutputCalibManager"
CL = "fortuna.calib_model.loss:Loss"
OL = "fortuna.output_calib_model.loss:Loss"


@contract("C09", ["fortuna.loss.classification.cross_entropy:cross_entropy_loss_fn", "fortuna.loss.classification.focal_loss:focal_loss_fn"])
def classification_losses(t):
    n, c = t.dim("n"), t.dim("classes")
    o = t.j(t.reals("outputs", (n, c)))
    y = t.j(t.ints("targets", (n,), 0, c))
    snap = t.snapshot(o, y)
    logp = lambda i: t.at(o, i, t.at(y, i)) - t.logsumexp(c, lambda k: t.at(o, i, k))
    if t.choice("loss", ["cross_entropy", "focal"]) == "cross_entropy":
        from fortuna.loss.classification.cross_entropy import cross_entropy_loss_fn
        r = t.call(cross_entropy_loss_fn, o, y)
        f = lambda i: -logp(i)
    else:
        from fortuna.loss.classification.focal_loss import focal_loss_fn
        if t.choice("gamma", ["default", "given"]) == "default":
            g = 2.0
            r = t.call(focal_loss_fn, o, y)
        else:
            g = t.choice("power", [0.0, 1.0, 3.0])
            r = t.call(focal_loss_fn, o, y, g)
        p = lambda i: t.exp(logp(i))

        def f(i):
            w = 1.0
            for _ in range(int(g)):
                w = w * (1 - p(i))
            return -w * logp(i)
    if t.no_exception("loss", r):
        t.arr_eq("mean over the data points", r.value, (), lambda: t.sum(n, f) / n)
    t.unchanged("arguments", snap)


@contract("C09", ["fortuna.loss.regression.scaled_mse:scaled_mse_fn"])
def scaled_mse(t):
    from fortuna.loss.regression.scaled_mse import scaled_mse_fn
    n, d = t.dim("n"), t.dim("d")
    o = t.j(t.reals("outputs", (n, 2 * d)))
    y = t.j(t.reals("targets", (n, d)))
    r = t.call(scaled_mse_fn, o, y)
    if t.no_exception("loss", r):
        t.arr_eq("mean over the data points of the scaled squared error plus log-variance", r.value, (),
                 lambda: t.sum(n, lambda i: t.sum(d, lambda j: t.exp(-t.at(o, i, d + j)) * (t.at(y, i, j) - t.at(o, i, j)) ** 2 + t.at(o, i, d + j))) / n)


class Recorder:
    """An arbitrary flax calibrator: remembers what it is given."""

    def __init__(self, t):
        self.t, self.calls, self.inits = t, [], []

    def apply(self, variables, outputs, mutable=False, train=None, rngs=None):
        self.calls.append(dict(variables=variables, outputs=outputs, mutable=mutable, train=train, rngs=rngs))
        return (outputs, "new-mutable") if mutable else outputs

    def init(self, rngs, x, **kw):
        self.inits.append((rngs, x, kw))
        return "variables"


@contract("C09", ["fortuna.output_calibrator.classification:ClassificationTemperatureScaler.__call__", "fortuna.output_calibrator.regression:RegressionTemperatureScaler.__call__", f"{OM}.apply"])
def temperature(t):
    from flax.core import FrozenDict
    from fortuna.output_calibrator.output_calib_manager.base import OutputCalibManager
    n, d = t.dim("n"), t.dim("d")
    lt = t.j(t.reals("log_temp", (1,)))
    variables = FrozenDict({"params": {"log_temp": lt}})
    if t.choice("kind", ["classification", "regression"]) == "classification":
        from fortuna.output_calibrator.classification import ClassificationTemperatureScaler as C
        width = d
        want = lambda x, i, j: t.at(x, i, j) / t.exp(t.at(lt, 0))
    else:
        from fortuna.output_calibrator.regression import RegressionTemperatureScaler as C
        width = 2 * d
        want = lambda x, i, j: t.at(x, i, j) + t.ite(j < d, 0.0, t.at(lt, 0))
    x = t.j(t.reals("outputs", (n, width)))
    snap = t.snapshot(x, lt)
    calib = t.bool("calib")
    r = t.call(OutputCalibManager(C()).apply, variables, x, calib=calib)
    if t.no_exception("apply", r):
        t.arr_eq("outputs at the temperature", r.value, (n, width), lambda i, j: want(x, i, j))
    t.unchanged("arguments", snap)
    r = t.call(OutputCalibManager(None).apply, variables, x, calib=calib)
    t.ensure("without a calibrator the outputs are returned", r.exc is None and r.value is x)


@contract("C09", [f"{OM}.apply", f"{OM}.init"])
def manager(t):
    from flax.core import FrozenDict
    from fortuna.output_calibrator.output_calib_manager.base import OutputCalibManager
    rec = Recorder(t)
    m = OutputCalibManager(rec)
    p, s = t.j(t.reals("p", (2,))), t.j(t.reals("s", (2,)))
    x = t.j(t.reals("outputs", (3, 2)))
    key = t.key("key")
    kv = lambda k: t.op("keyval", [k], ())
    if t.choice("what", ["apply", "init"]) == "init":
        given = t.bool("train_given")
        r = t.call(m.init, 5, key, **(dict(train=True) if given else {}))
        if t.no_exception("init", r):
            t.ensure("the variables of the calibrator", r.value == "variables" and len(rec.inits) == 1)
            rngs, z, kw = rec.inits[0]
            t.arr_eq("initialised on one row of the output dimension", z, (1, 5), lambda i, j: 0)
            t.ensure("keyword arguments are passed on", kw == (dict(train=True) if given else {}))
            t.eq("parameter key", kv(rngs["params"]), kv(t.split(key, 3, 1)))
            t.eq("dropout key", kv(rngs["dropout"]), kv(t.split(key, 3, 2)))
        return
    mut = FrozenDict({"state": {"s": s}}) if t.bool("mutable") else None
    calib, rng = t.bool("calib"), (key if t.bool("rng") else None)
    params = FrozenDict({"params": {"p": p}})
    r = t.call(m.apply, params, x, mutable=mut, calib=calib, rng=rng)
    if not t.no_exception("apply", r):
        return
    t.ensure("one call of the calibrator", len(rec.calls) == 1)
    c = rec.calls[0]
    t.ensure("on the given outputs", c["outputs"] is x)
    t.ensure("train iff calib", c["train"] is calib)
    t.ensure("with the parameters and the mutable state", set(c["variables"].keys()) == ({"params", "state"} if mut is not None else {"params"})
             and c["variables"]["params"]["p"] is p and (mut is None or c["variables"]["state"]["s"] is s))
    if calib and mut is not None:
        t.ensure("the mutable collections are updated and returned", list(c["mutable"]) == ["state"] and r.value[0] is x and "new-mutable" in (r.value[1], r.value[1].get("mutable") if isinstance(r.value[1], dict) else None))
    else:
        t.ensure("nothing mutable", not c["mutable"] and r.value is x)
    if rng is None:
        t.ensure("no key", c["rngs"] is None)
    else:
        t.eq("dropout key", kv(c["rngs"]["dropout"]), kv(t.split(key, 2, 1)))
    t.ensure("the given parameters are not modified", set(params.keys()) == {"params"})


@contract("C09", ["fortuna.utils.training:clip_grandients_by_value", "fortuna.utils.training:clip_grandients_by_norm"])
def clipping(t):
    from fortuna.utils.training import clip_grandients_by_norm, clip_grandients_by_value
    g = t.tree("grad")
    m = t.real("max", 0)
    if t.choice("by", ["value", "norm"]) == "value":
        r = t.call(clip_grandients_by_value, g, m)
        f = lambda k, i: t.max2(-m, t.min2(m, t.at(t.leaf(g, k), i)))
    else:
        r = t.call(clip_grandients_by_norm, g, m)
        norm = t.sqrt(t.sum(t.leaves(g), lambda k: t.sum(t.leaf(g, k).shape[0], lambda i: t.at(t.leaf(g, k), i) ** 2)))
        f = lambda k, i: t.min2(1.0, m / (1e-07 + norm)) * t.at(t.leaf(g, k), i)
    if t.no_exception("clip", r):
        t.tree_eq("the clipped gradient", r.value, g, f)


@contract("C09", ["fortuna.utils.optimizer:stepped_schedule"])
def stepped(t):
    from fortuna.utils.optimizer import stepped_schedule
    v = t.real("init_value")
    k = t.choice("boundaries", [None, 0, 1, 2, 3])
    bs = [t.int(f"threshold{j}", 0, 1000) for j in range(k or 0)]
    ss = [t.real(f"scale{j}") for j in range(k or 0)]
    for j in range(1, k or 0):
        t.assume(bs[j - 1] < bs[j])
    items = list(zip(bs, ss))
    if k and k > 1 and t.bool("reversed"):
        items = items[::-1]
    count = t.j(t.at(t.ints("count", (1,), 0), 0))
    r = t.call(lambda: stepped_schedule(v, None if k is None else dict(items)))
    bad = t.or_(*[s < 0 for s in ss]) if ss else False
    if t.raises_iff("negative scales", r, ValueError, bad):
        r = t.call(r.value, count)
        if t.no_exception("schedule", r):
            def want():
                x = v
                for b, s in zip(bs, ss):
                    x = t.ite(count < b, x, v * s)
                return x
            t.arr_eq("the scale of the last boundary reached", r.value, (), want)


class Manager:
    def __init__(self, active):
        self.active, self.calls = active, []

    def apply(self, params=None, outputs=None, mutable=None, calib=False, rng=None):
        self.calls.append((params, outputs, mutable, calib, rng))
        out = ("calibrated", outputs)
        return (out, "new-calib") if calib and mutable is not None else out


class ModelManager:
    def __init__(self):
        self.calls = []

    def apply(self, params, inputs, train=False, mutable=None, rng=None):
        self.calls.append((params, inputs, train, mutable, rng))
        out = ("outputs", inputs)
        return (out, {"mutable": "new-mutable"}) if train and mutable is not None else out


@contract("C09", [f"{CL}.__call__"], max_paths=3000)
def model_loss(t):
    import types
    from fortuna.calib_model.loss import Loss
    mm = ModelManager()
    cal = Manager(True) if t.bool("calibrator") else None
    got = []
    loss = Loss(types.SimpleNamespace(model_manager=mm, output_calib_manager=cal), lambda o, y: got.append((o, y)) or "loss")
    train, given = t.bool("train"), t.bool("outputs_given")
    mutable = "mutable" if t.bool("mutable") else None
    cp = {"output_calibrator": "calib-params"} if t.bool("calib_params") else None
    cm = None
    if cal is not None:
        cm = t.choice("calib_mutable", [None, {"output_calibrator": None}, {"output_calibrator": "calib-mutable"}])
    aux = t.choice("return_aux", [None, ["outputs"], ["mutable"], ["outputs", "mutable"], ["calib_mutable"], ["outputs", "mutable", "calib_mutable"], ["unknown"]])
    asked = aux or []
    r = t.call(lambda: loss("params", ("x", "y"), mutable=mutable, calib_params=cp, calib_mutable=cm, return_aux=aux, train=train, outputs="given" if given else None, rng="key"))
    if "unknown" in asked:
        t.raises_iff("unknown auxiliary objects", r, AttributeError, True)
        return
    bad = (train and given) or ("mutable" in asked and (given or not train or mutable is None)) or (train and mutable is not None and "mutable" not in asked)
    if not t.raises_iff("inconsistent arguments", r, ValueError, bad):
        return
    if given:
        t.ensure("the given outputs are used", len(mm.calls) == 0)
        out = "given"
    else:
        t.ensure("one forward pass", mm.calls == [("params", "x", train, mutable, "key")])
        out = ("outputs", "x")
    want = {}
    if cal is not None:
        c = cm["output_calibrator"] if cm else None
        up = "calib_mutable" in asked
        t.ensure("calibrated once", cal.calls == [("calib-params" if cp else None, out, c, up, None)])
        out = ("calibrated", out)
        if up:
            want["calib_mutable"] = {"output_calibrator": "new-calib" if c is not None else None}
    elif "calib_mutable" in asked:
        want["calib_mutable"] = {"output_calibrator": None}
    if "outputs" in asked:
        want["outputs"] = out
    if "mutable" in asked:
        want["mutable"] = "new-mutable"
    t.ensure("the loss of the calibrated outputs and the targets", got == [(out, "y")] and r.value[0] == "loss")
    t.ensure("exactly the requested auxiliary objects", r.value[1] == want)


@contract("C09", [f"{OL}.__call__"])
def output_loss(t):
    import types
    from fortuna.output_calib_model.loss import Loss
    cal = Manager(True)
    got = []
    loss = Loss(types.SimpleNamespace(output_calib_manager=cal), lambda o, y: got.append((o, y)) or "loss")
    cm = t.choice("mutable", [None, {"output_calibrator": None}, {"output_calibrator": "calib-mutable"}])
    aux = t.choice("return_aux", [None, [], ["outputs"], ["mutable"], ["outputs", "mutable"], ["unknown"]])
    asked = aux or []
    r = t.call(lambda: loss({"output_calibrator": "calib-params"}, "y", "outs", mutable=cm, rng="key", return_aux=aux))
    if not t.raises_iff("unknown auxiliary objects", r, AttributeError, "unknown" in asked):
        return
    c = cm["output_calibrator"] if cm else None
    up = "mutable" in asked
    out = ("calibrated", "outs")
    t.ensure("calibrated once", cal.calls == [("calib-params", "outs", c, up, "key")])
    t.ensure("the loss of the calibrated outputs and the targets", got == [(out, "y")])
    want = {}
    if up:
        want["mutable"] = {"output_calibrator": "new-calib" if c is not None else None}
    if "outputs" in asked:
        want["outputs"] = out
    t.ensure("the loss, and exactly the requested auxiliary objects", r.value == ("loss", want) if asked else r.value == "loss")
