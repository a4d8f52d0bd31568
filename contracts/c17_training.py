"""Training: one optimisation step, step and epoch ends, early stopping, checkpoints."""
from vf.api import contract

TR = "fortuna.training.trainer:TrainerABC"
MT = "fortuna.prob_model.posterior.map.map_trainer:MAPTrainer"
MX = "fortuna.training.mixin:"


def linear_optimiser(t):
    """an optimiser whose update and state are arbitrary linear functions of gradient, state and parameters"""
    from jax.tree_util import tree_map
    a, b, c, d, e, f = [t.real("opt" + x) for x in "abcdef"]

    class Tx:
        def init(self, params):
            return tree_map(lambda x: 0.0 * x, params)

        def update(self, g, s, p=None):
            return tree_map(lambda g, s, p: a * g + b * s + c * p, g, s, p), tree_map(lambda g, s, p: d * g + e * s + f * p, g, s, p)
    return Tx(), (lambda g, s, p: p + a * g + b * s + c * p), (lambda g, s, p: d * g + e * s + f * p)


def loss_scale(t):
    import jax
    from flax import struct

    @struct.dataclass
    class Scale:
        """stands for flax's DynamicScale: gradients, and whether all of them are finite"""
        fin: object
        used: object

        def value_and_grad(self, fun, argnums=0, has_aux=False, axis_name=None):
            def run(params):
                out, g = jax.value_and_grad(fun, argnums, has_aux)(params)
                return Scale(self.fin, self.used + 1), self.fin, out, g
            return run
    return Scale


@contract("C17", [TR + ".training_step", TR + ".params_update_with_grad_accumulation", MT + ".training_loss_step", "fortuna.utils.training:clip_grandients_by_norm"])
def training_step(t):
    from flax.core import FrozenDict
    from fortuna.prob_model.posterior.map.map_state import MAPState
    from fortuna.prob_model.posterior.map.map_trainer import MAPTrainer
    p, s = t.tree("params"), None
    s = t.tree("opt_state", like=p)
    tx, newp, news = linear_optimiser(t)
    acc_kind = t.choice("accumulation", ["absent", "none", "one", "many_first", "many"])
    n = {"absent": None, "none": None, "one": 1}.get(acc_kind) if not acc_kind.startswith("many") else t.int("gradient_accumulation_steps", 2)
    clip_kind = t.choice("clip", ["absent", "none", "given"])
    mx = t.real("max_grad_norm", 0) if clip_kind == "given" else None
    kw = {}
    if acc_kind != "absent":
        kw["gradient_accumulation_steps"] = n
    if clip_kind != "absent":
        kw["max_grad_norm"] = mx
    acc = t.tree("grad_accumulated", like=p) if acc_kind == "many" else None
    step = t.j(t.at(t.ints("step", (1,), 0), 0))
    mutable = t.tree("mutable") if t.choice("mutable", [0, 1]) else None
    new_mutable = t.tree("new_mutable", like=mutable) if mutable is not None else None
    cp, cm = (t.tree("calib_params"), t.tree("calib_mutable")) if mutable is not None else (None, None)
    scaled = t.choice("dynamic_scale", [0, 1])
    fin = t.j(t.bools("finite", (1,)))[0]
    scale = loss_scale(t)(fin, t.j(t.at(t.ints("used", (1,)), 0))) if scaled else None
    state = MAPState(step=step, apply_fn=None, params=p, tx=tx, opt_state=s, mutable=mutable, calib_params=cp, calib_mutable=cm, grad_accumulated=acc, dynamic_scale=scale)
    key, batch, n_data = t.key("key"), (t.j(t.reals("x", (3, 2))), t.j(t.reals("y", (3,)))), t.int("n_data", 1)
    o = t.j(t.reals("outputs", (3, 2)))
    calls = []

    def loss_fun(params, b, **k):
        calls.append((b, k))
        return t.loss("L", params), dict(outputs=o, **({"mutable": new_mutable} if mutable is not None else {}))
    tr = MAPTrainer(predict_fn=lambda x: x)
    snap = t.snapshot(p, s, acc, mutable)
    r = t.call(tr.training_step, state, batch, loss_fun, key, n_data, None, FrozenDict(kw))
    if not t.no_exception("training step", r):
        return
    t.unchanged("the given state", snap)
    new, aux = r.value
    b, k = calls[0]
    t.ensure("the loss is evaluated on the batch", all(c[0] is batch for c in calls) and len(calls) > 0)
    t.ensure("in training mode", all(c[1]["train"] is True for c in calls))
    t.eq("with the training set size", k["n_data"], n_data)
    t.ensure("with the key, the mutables and the calibration of the state", k["rng"] is key and k["mutable"] is mutable and k["calib_params"] is cp and k["calib_mutable"] is cm)
    t.ensure("asking for outputs and for mutables when there are any", sorted(k["return_aux"]) == (["mutable", "outputs"] if mutable is not None else ["outputs"]))
    t.eq("reported loss", aux["loss"], t.loss("L", p))
    t.arr_eq("reported outputs", aux["outputs"], (3, 2), lambda i, j: t.at(o, i, j))
    t.eq("step count", new.step, step + 1)
    if mutable is None:
        t.ensure("no mutable", new.mutable is None)
    else:
        t.tree_eq("new mutable", new.mutable, mutable, lambda k, i: t.at(t.leaf(new_mutable, k), i))
        t.tree_eq("calibration parameters kept", new.calib_params, cp, lambda k, i: t.at(t.leaf(cp, k), i))
    at = lambda tree: lambda k, i: t.at(t.leaf(tree, k), i)
    g0, P, S = t.lossgrad("L", p), at(p), at(s)
    if acc is None:
        total = at(g0)
    else:
        total = lambda k, i: at(g0)(k, i) + at(acc)(k, i)
    many = acc_kind.startswith("many")
    mean = (lambda k, i: total(k, i) / n) if many else total
    if mx is None:
        used = mean
    else:
        norm = t.sqrt(t.sum(t.leaves(p), lambda k: t.sum(t.leaf(p, k).shape[0], lambda i: mean(k, i) ** 2)))
        used = lambda k, i: t.ite(mx > 0, t.min2(1.0, mx / (1e-07 + norm)) * mean(k, i), mean(k, i))
    flush = t.mod(step + 1, n) == 0 if many else None
    when = lambda c, a, b: a if c is None else t.ite(c, a, b)
    ok = fin if scaled else None
    t.tree_eq("parameters", new.params, p, lambda k, i: when(ok, when(flush, newp(used(k, i), S(k, i), P(k, i)), P(k, i)), P(k, i)))
    t.tree_eq("optimiser state", new.opt_state, p, lambda k, i: when(ok, when(flush, news(used(k, i), S(k, i), P(k, i)), S(k, i)), S(k, i)))
    if many:
        t.tree_eq("gradients carried over", new.grad_accumulated, p, lambda k, i: t.ite(flush, 0.0, total(k, i)))
    else:
        t.ensure("no gradients carried over", new.grad_accumulated is None)
    if scaled:
        t.eq("new loss scale", new.dynamic_scale.used, scale.used + 1)
    else:
        t.ensure("no loss scale", new.dynamic_scale is None)


def metric(t, name):
    def m(preds, *rest):
        return t.op(name, [preds] + list(rest), ())
    m.__name__ = name
    return m


def trainer(t, **k):
    from fortuna.prob_model.posterior.map.map_trainer import MAPTrainer
    predict = lambda o, **k: t.fun1("predict" + "-".join(f"{a}={b}" for a, b in sorted(k.items())))(o[..., 0])
    return MAPTrainer(predict_fn=predict, early_stopping_verbose=False, **k), predict


@contract("C17", [TR + ".training_step_end", TR + ".compute_metrics", TR + "._callback_loop"], max_paths=1500)
def training_step_end(t):
    saves = []
    t.callee(TR + ".save_checkpoint", lambda b: saves.append(b), stub=True)
    every_kind = t.choice("save_every_n_steps", ["none", "int"])
    every = None if every_kind == "none" else t.int("every", -2, 10)
    where = t.choice("save_checkpoint_dir", [None, "/nowhere"])
    count = t.int("global_training_step", 0, 50)
    disable = t.choice("disable_training_metrics_computation", [False, True])
    unc = (lambda o: t.fun1("uncertainty")(o[..., 1])) if t.choice("uncertainty", [0, 1]) else None
    keep = t.int("keep", 1, 5)
    tr, predict = trainer(t, save_checkpoint_dir=where, save_every_n_steps=every, disable_training_metrics_computation=disable, uncertainty_fn=unc, keep_top_n_checkpoints=keep)
    tr._global_training_step = count
    multi = t.choice("multi_device", [False, True])
    tr.multi_device = multi
    n, d = t.dim("n"), t.dim("d", 2)
    lead = (t.dim("devices"), n) if multi else (n,)
    o, y = t.j(t.reals("outputs", lead + (d,))), t.j(t.reals("targets", lead))
    loss = t.j(t.at(t.reals("loss", (1,)), 0))
    log = {"extra": 1.5} if t.choice("logging", [0, 1]) else None
    ms = (metric(t, "first"), metric(t, "second")) if t.choice("metrics", [0, 1]) else None
    seen = []

    class Callback:
        def __init__(self, name):
            self.name = name

        def training_step_end(self, state):
            seen.append(state)
            return state + "," + self.name
    cbs = [Callback("a"), Callback("b")] if t.choice("callbacks", [0, 1]) else None
    r = t.call(tr.training_step_end, 0, "state", dict(loss=loss, outputs=o, logging_kwargs=log), (None, y), ms, cbs)
    if not t.no_exception("training_step_end", r):
        return
    state, m = r.value
    due = False if every is None or where is None else t.and_(every > 0, count >= every, t.mod(count, t.max2(every, 1)) == 0)
    t.ensure("a checkpoint is saved every save_every_n_steps steps", t.iff(len(saves) > 0, due))
    if saves:
        t.ensure("one checkpoint of the state in the directory", len(saves) == 1 and saves[0]["state"] == "state" and saves[0]["save_checkpoint_dir"] == where)
        t.eq("number of checkpoints kept", saves[0]["keep"], keep)
    t.ensure("callbacks run in order on the current state", (state, seen) == (("state,a,b", ["state", "state,a"]) if cbs else ("state", [])))
    names = ["loss"] + (["extra"] if log else []) + (["first", "second"] if ms and not disable else [])
    t.ensure("reported names", sorted(m) == sorted(names))
    t.eq("reported loss", m["loss"], loss)
    if log:
        t.eq("logged value", m["extra"], 1.5)
    if ms and not disable:
        p, u = predict(o, train=True), unc(o) if unc else None
        rows = (lambda x: t.vec(lead[0] * n, lambda i: t.at(x, t.fdiv(i, n), t.mod(i, n)))) if multi else (lambda x: x)
        for f in ms:
            t.eq("metric of predictions, uncertainties and targets", m[f.__name__], f(rows(p), *([rows(u)] if unc else []), rows(y)))


@contract("C17", [TR + ".should_perform_validation", TR + ".training_step_start"])
def scheduling(t):
    tr, _ = trainer(t, eval_every_n_epochs=t.int("eval_every_n_epochs", -2, 6))
    dl = t.choice("validation data", [None, "loader"])
    e = t.int("epoch", 0, 50)
    r = t.call(tr.should_perform_validation, dl, e)
    if t.no_exception("should_perform_validation", r):
        k = tr.eval_every_n_epochs
        t.ensure("validation every eval_every_n_epochs epochs", t.iff(r.value, False if dl is None else t.and_(k > 0, t.mod(e, t.max2(k, 1)) == 0)))
    key = t.key("key")
    step = t.ints("step", (2,), 0)
    s = {"array": t.j(t.at(step, 0)), "per device": t.j(step)}[t.choice("step", ["array", "per device"])]
    r = t.call(tr.training_step_start, key, s)
    if t.no_exception("training_step_start", r):
        t.eq("the key of the step", t.op("keyval", [r.value], ()), t.op("keyval", [t.fold_in(key, t.at(step, 0))], ()))


@contract("C17", [MX + "WithEarlyStoppingMixin.early_stopping_update", MX + "WithEarlyStoppingMixin.is_early_stopping_active", TR + ".validation_epoch_end", TR + "._get_mean_losses_and_metrics"])
def early_stopping(t):
    saves = []
    t.callee(TR + ".save_checkpoint", lambda b: saves.append(b), stub=True)
    patience = t.choice("patience", [None, 0, -1, "given"])
    mode = t.choice("mode", ["min", "max", None, "other"])
    if patience == "given":
        patience = t.int("early_stopping_patience", 1, 5)
        active = mode in ("min", "max")
    else:
        active = False
    delta = t.real("min_delta", 0)
    mon = t.choice("monitor", ["val_loss", "val_accuracy"])
    where = t.choice("save_checkpoint_dir", [None, "/nowhere"])
    tr, _ = trainer(t, early_stopping_patience=patience, early_stopping_mode=mode, early_stopping_min_delta=delta, early_stopping_monitor=mon, save_checkpoint_dir=where)
    n = t.dim("batches")
    losses, accs = t.reals("val_loss", (n,)), t.reals("val_accuracy", (n,))
    mean = lambda x: t.sum(n, lambda i: t.at(x, i)) / n
    first = t.choice("first", [True, False])
    best, waited, stop = t.real("best"), t.int("waited", 0, 6), t.choice("should_stop", [False, True])
    if active and not first:
        tr._early_stopping = tr._early_stopping.replace(best_metric=best, patience_count=waited, should_stop=stop)
    r = t.call(tr.validation_epoch_end, t.seq("steps", n, lambda i: dict(val_loss=t.j(t.at(losses, i)), val_accuracy=t.j(t.at(accs, i)))), "state")
    if not t.no_exception("validation_epoch_end", r):
        return
    t.ensure("reported names", sorted(r.value) == ["val_accuracy", "val_loss"])
    t.eq("mean loss over the batches", r.value["val_loss"], mean(losses))
    t.eq("mean metric over the batches", r.value["val_accuracy"], mean(accs))
    t.ensure("early stopping is active", t.iff(tr.is_early_stopping_active, active))
    if not active:
        t.ensure("nothing saved without early stopping", saves == [])
        return
    v = mean(losses if mon == "val_loss" else accs)
    v = v if mode == "min" else -v
    improved = True if first else best - v > delta
    es = tr._early_stopping
    t.ensure("improvement", t.iff(es.has_improved, improved))
    t.ensure("the best state is saved", t.iff(len(saves) > 0, False if where is None else improved))
    for b in saves:
        t.ensure("this state, in the directory, overwriting", b["state"] == "state" and b["save_checkpoint_dir"] == where and b["force_save"] is True)
    t.eq("best value", es.best_metric, v if first else t.ite(improved, v, best))
    if first:
        t.ensure("no stop at first", not es.should_stop)
    else:
        t.eq("epochs without improvement", es.patience_count, t.ite(improved, 0, waited + 1))
        t.ensure("stops after `patience` further epochs without improvement", t.iff(es.should_stop, t.or_(stop, t.and_(t.not_(improved), waited >= patience))))


@contract("C17", [MX + "WithCheckpointingMixin.save_checkpoint", TR + ".save_checkpoint", TR + ".on_train_end"])
def checkpoints(t):
    from fortuna.prob_model.posterior.map.map_state import MAPState
    calls = []
    t.callee("flax.training.checkpoints:save_checkpoint", lambda b: calls.append(b), stub=True)
    where = t.choice("save_checkpoint_dir", [None, "", "/nowhere"])
    keep = t.int("keep", 1, 5)
    tr, _ = trainer(t, save_checkpoint_dir=where, keep_top_n_checkpoints=keep)
    p, s = t.tree("params"), t.tree("opt_state")
    acc = t.tree("grad_accumulated") if t.choice("accumulated", [0, 1]) else None
    mu = t.tree("mutable") if t.choice("mutable", [0, 1]) else None
    step = t.j(t.at(t.ints("step", (1,), 0), 0))
    state = MAPState(step=step, apply_fn=None, params=p, tx=None, opt_state=s, mutable=mu, grad_accumulated=acc)
    how = t.choice("how", ["save", "train end"])
    force = True if how == "train end" else t.choice("force", [False, True])
    r = t.call(tr.on_train_end, state) if how == "train end" else t.call(tr.save_checkpoint, state, where, keep, force)
    if not t.no_exception("save_checkpoint", r):
        return
    if how == "train end":
        t.ensure("the final state is returned as it is", r.value.params is p and r.value.opt_state is s and r.value.mutable is mu and r.value.grad_accumulated is acc)
    t.ensure("one checkpoint when there is a directory, none otherwise", len(calls) == (1 if where else 0))
    for c in calls:
        x = c["target"]
        t.ensure("in that directory, overwriting when forced", c["ckpt_dir"] == where and c["overwrite"] is force and c["prefix"] == "checkpoint_")
        t.eq("number of checkpoints kept", c["keep"], keep)
        t.eq("step of the checkpoint", c["step"], step)
        t.eq("step of the saved state", x.step, step)
        t.ensure("everything else of the state, without the gradients carried over", x.params is p and x.opt_state is s and x.mutable is mu and x.grad_accumulated is None)


@contract("C17", [MT + ".validation_step", TR + ".compute_metrics", TR + "._get_all_params"])
def validation_step(t):
    from fortuna.prob_model.posterior.map.map_state import MAPState
    p, mu, cp, cm = t.tree("params"), t.tree("mutable"), t.tree("calib_params"), t.tree("calib_mutable")
    state = MAPState(step=0, apply_fn=None, params=p, tx=None, opt_state=(), mutable=mu, calib_params=cp, calib_mutable=cm)
    n = t.dim("n")
    x, y, o = t.j(t.reals("inputs", (n, 2))), t.j(t.reals("targets", (n,))), t.j(t.reals("outputs", (n, 3)))
    size, batch = t.int("n_data", 1), (x, y)
    calls = []

    def loss_fun(params, b, **k):
        calls.append((params, b, k))
        return t.loss("L", params), {"outputs": o}
    ms = (metric(t, "first"), metric(t, "second")) if t.choice("metrics", [0, 1]) else None
    tr, predict = trainer(t)
    snap = t.snapshot(p, mu, cp, cm, batch)
    r = t.call(tr.validation_step, state, batch, loss_fun, t.key("key"), size, ms)
    if not t.no_exception("validation_step", r):
        return
    t.unchanged("arguments", snap)
    t.ensure("one evaluation, at the parameters of the state, on the batch", len(calls) == 1 and calls[0][0] is p and calls[0][1] is batch)
    k = calls[0][2]
    t.ensure("in evaluation mode, with the mutables and the calibration of the state", k["train"] is False and k["mutable"] is mu and k["calib_params"] is cp and k["calib_mutable"] is cm and k.get("return_aux") == ["outputs"])
    t.eq("with the validation set size", k["n_data"], size)
    t.ensure("reported names", sorted(r.value) == (["val_first", "val_loss", "val_second"] if ms else ["val_loss"]))
    t.eq("validation loss", r.value["val_loss"], t.loss("L", p))
    for f in ms or ():
        t.eq("metric of predictions and targets", r.value["val_" + f.__name__], f(predict(o), y))


@contract("C17", ["fortuna.training.trainer:MultiDeviceMixin._add_device_dim_to_input_dataloader"])
def device_batches(t):
    from fortuna.training.trainer import MultiDeviceMixin
    D, d = t.devices(), t.dim("d")
    tree = t.choice("inputs", ["array", "dict"])
    wrap = MultiDeviceMixin._add_device_dim_to_input_dataloader
    t.ensure("no loader stays no loader", wrap(None) is None)

    def batch(x, y):
        return (x, y) if tree == "array" else ({"a": x}, y)

    def shared(b, x, y, per):
        u = b[0] if tree == "array" else b[0]["a"]
        t.arr_eq("inputs of each device", u, (D, per, d), lambda g, i, j: t.at(x, g * per + i, j))
        t.arr_eq("targets of each device", b[1], (D, per), lambda g, i: t.at(y, g * per + i))
    if t.choice("what", ["one batch of any size", "batches that can be shared"]) == "one batch of any size":
        n = t.dim("n")
        x, y = t.j(t.reals("x", (n, d))), t.j(t.reals("y", (n,)))
        r = t.call(lambda: t.items(iter(wrap([batch(x, y)]))))
        if t.raises_iff("a batch that cannot be shared equally among the devices", r, ValueError, t.mod(n, D) != 0):
            t.eq("number of batches", t.len(r.value), 1)
            shared(r.value[0], x, y, t.fdiv(n, D))
        return
    B = t.dim("batches")
    per = t.dims("per_device", B)
    xs, ys = t.family("xs", B, lambda k: (D * per(k), d)), t.family("ys", B, lambda k: (D * per(k),))
    r = t.call(lambda: t.items(iter(wrap(t.seq("loader", B, lambda k: batch(t.j(t.at(xs, k)), t.j(t.at(ys, k))))))))
    if t.no_exception("wrapped loader", r):
        t.eq("number of batches", t.len(r.value), B)
        t.each("batch", B, lambda k: shared(r.value[k], t.j(t.at(xs, k)), t.j(t.at(ys, k)), per(k)))


@contract("C17", [TR + ".train", TR + "._training_loop", TR + "._validation_loop", TR + ".training_epoch_start", TR + ".training_epoch_end", TR + "._callback_loop"],
          bounded="training runs of at most 6 epochs of at most 6 batches, with the optimisation and validation steps replaced by recording stand-ins")
def training_run(t):
    from fortuna.prob_model.posterior.map.map_state import MAPState
    from fortuna.prob_model.posterior.map.map_trainer import MAPTrainer
    import jax
    import jax.numpy as jnp
    E, B, V = int(t.int("epochs", 1, 6)), int(t.int("batches", 1, 6)), int(t.int("validation_batches", 1, 3))
    acc = t.choice("gradient_accumulation_steps", [None, 0, 1, 2, 3])
    every = t.choice("eval_every_n_epochs", [0, 1, 2])
    patience = t.choice("patience", [None, 1, 2])
    validate = t.choice("validate", [False, True])
    s0 = int(t.int("initial_step", 0, 5))
    key = t.key("key")
    mu = t.choice("mutable", [None, 3])
    lossof = lambda step, b: 10.0 + 0.5 * step - b
    valof = lambda step, b: float((7 * step + 3 * b) % 5)
    steps, saves, events, vals = [], [], [], []

    class T(MAPTrainer):
        def training_step(self, state, batch, loss_fun, rng, n_data, unravel=None, kwargs=None):
            steps.append((int(state.step), batch, rng, loss_fun, n_data, unravel, dict(kwargs)))
            return state.replace(step=state.step + 1, params=state.params + [batch]), dict(loss=jnp.array(lossof(int(state.step), batch)), outputs=None, logging_kwargs=None)

        def validation_step(self, state, batch, loss_fun, rng, n_data, metrics=None, unravel=None, kwargs=None):
            vals.append((int(state.step), batch, n_data))
            return dict(val_loss=jnp.array(valof(int(state.step), batch)))

        def save_checkpoint(self, state, save_checkpoint_dir, keep=1, force_save=False, prefix="checkpoint_"):
            saves.append((int(state.step), force_save))

    class Callback:
        def training_epoch_start(self, state):
            events.append(("start", int(state.step)))
            return state

        def training_epoch_end(self, state):
            events.append(("end", int(state.step)))
            return state

        def training_step_end(self, state):
            events.append(("step", int(state.step)))
            return state
    tr = T(predict_fn=None, eval_every_n_epochs=every, early_stopping_patience=patience, early_stopping_verbose=False)
    state = MAPState(step=jnp.array(s0), apply_fn=None, params=[], tx=None, opt_state=(), mutable=mu)
    kw = {} if acc is None else dict(gradient_accumulation_steps=acc)
    loss_fun = object()
    r = t.call(tr.train, key, state, loss_fun, list(range(B)), 17, n_epochs=E, validation_dataloader=[100 + b for b in range(V)] if validate else None,
               validation_dataset_size=23 if validate else None, verbose=t.choice("verbose", [False, True]), callbacks=[Callback()], **kw)
    n = acc or 0
    # what should happen
    step, want_steps, want_events, want_vals, tl, vl = s0, [], [], [], [], []
    best, waited, raises = None, 0, B < n
    for e in range(E):
        want_events.append(("start", step))
        k, ls = step, []
        for b in range(B):
            want_steps.append((step, b, k))
            step += 1
            if n == 0 or (b + 1) % n == 0:
                k = step
                want_events.append(("step", step))
                ls.append(lossof(step - 1, b))
        want_events.append(("end", step))
        if ls:
            tl.append(sum(ls) / len(ls))
        stop = False
        if validate and every > 0 and e % every == 0:
            vs = [valof(step, 100 + b) for b in range(V)]
            want_vals += [(step, 100 + b, 23) for b in range(V)]
            vl.append(sum(vs) / V)
            if patience:
                if best is None or best - vl[-1] > 0:
                    best, waited = vl[-1], 0
                else:
                    stop = waited >= patience
                    waited += 1
        if stop:
            break
    if raises:
        return        # no batch completes an accumulation: there is nothing to average
    if not t.no_exception("train", r):
        return
    final, status = r.value
    t.ensure("one step per batch, from the state the previous step left", [(a, b) for a, b, *_ in steps] == [(a, b) for a, b, _ in want_steps])
    t.ensure("a key of its own for every optimisation step", all(bool((jax.random.key_data(x[2]) == jax.random.key_data(jax.random.fold_in(key, w[2]))).all()) for x, w in zip(steps, want_steps)))
    t.ensure("with the loss function, the data set size and the options", all(x[3] is loss_fun and x[4] == 17 and x[6] == kw for x in steps))
    t.ensure("callbacks", events == want_events)
    t.ensure("validation on the state of the epoch's end", vals == want_vals)
    t.ensure("the final state", int(final.step) == step and final.params == [b for _, b, _ in want_steps] and final.mutable == mu)
    t.ensure("the final state is saved", saves[-1:] == [(step, True)])
    t.eq("number of optimisation steps counted", tr._global_training_step, len(want_steps))
    t.ensure("status names", sorted(status) == (["loss", "val_loss"] if vl else ["loss"]))
    t.arr_eq("mean training losses of the epochs", status["loss"], (len(tl),), lambda i: tl[i])
    if vl:
        t.arr_eq("mean validation losses of the evaluated epochs", status["val_loss"], (len(vl),), lambda i: vl[i])


def nested(t, name, depth=0):
    """a nested dictionary of arrays"""
    import jax.numpy as jnp
    out = {}
    for k in range(int(t.int(f"{name}.size", 1, 3))):
        key = f"{name}_{k}"
        if depth < 2 and t.choice(f"{key}.kind", ["leaf", "dict"]) == "dict":
            out[key] = nested(t, key, depth + 1)
        else:
            out[key] = t.j(t.reals(f"{key}.value", (2,)))
    return out


def flat(d, pre=()):
    out = {}
    for k, v in d.items():
        if hasattr(v, "items"):
            out.update(flat(v, pre + (k,)))
        else:
            out[pre + (k,)] = v
    return out


@contract("C17", [TR + ".on_train_start", TR + ".on_train_end", TR + "._get_all_params", TR + ".save_checkpoint", TR + ".training_step"],
          bounded="parameter dictionaries of depth at most 3 with at most 3 entries per level")
def frozen_training(t):
    from flax.core import FrozenDict
    from fortuna.prob_model.posterior.map.map_state import MAPState
    from fortuna.prob_model.posterior.map.map_trainer import MAPTrainer
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optax
    d = nested(t, "p")
    leaves = flat(d)
    frozen = {p: t.choice("freeze " + "/".join(p), [False, True]) for p in sorted(leaves)}
    saved = []

    t.callee("flax.training.checkpoints:save_checkpoint", lambda b: saved.append(b["target"]), stub=True)
    tr = MAPTrainer(predict_fn=None, save_checkpoint_dir="/nowhere", freeze_fun=lambda path, v: "frozen" if frozen[tuple(path)] else "trainable")
    lr = 0.1
    params = FrozenDict(d)
    state = MAPState(step=0, apply_fn=None, params=params, tx=optax.sgd(lr), opt_state=optax.sgd(lr).init(params))
    r = t.call(tr.on_train_start, state, ["a", None], t.key("key"))
    if not t.no_exception("on_train_start", r):
        return
    s, loaders, _ = r.value
    t.ensure("loaders as given", loaders == ["a", None])
    same = lambda a, b: sorted(a) == sorted(b) and all(np.array_equal(a[k], b[k]) for k in a)
    pick = lambda want: {p: v for p, v in leaves.items() if frozen[p] is want}
    t.ensure("only trainable parameters are optimised", same(flat(s.params), pick(False)))
    t.ensure("the others are put aside", same(flat(s.frozen_params), pick(True)))
    t.ensure("together, all parameters", same(flat(tr._get_all_params(s)), leaves))
    seen = []

    def loss_fun(params, batch, **k):
        seen.append(sorted(flat(params)))
        return sum(jnp.sum(jnp.sin(v)) for v in flat(params).values()), {"outputs": jnp.zeros(1)}
    s = s.replace(opt_state=s.tx.init(s.params))
    r = t.call(tr.training_step, s, (None, None), loss_fun, t.key("key"), 5)
    if not t.no_exception("training_step", r):
        return
    s = r.value[0]
    t.ensure("the loss sees all parameters", seen == [sorted(leaves)])
    want = {p: v if frozen[p] else v - lr * jnp.cos(v) for p, v in leaves.items()}
    got = flat(tr._get_all_params(s))
    close = lambda a, b: sorted(a) == sorted(b) and all(np.allclose(a[k], b[k]) for k in a)
    t.ensure("only trainable parameters move", close(got, want) and all(np.array_equal(got[p], leaves[p]) for p in leaves if frozen[p]))
    r = t.call(tr.on_train_end, s)
    if t.no_exception("on_train_end", r):
        t.ensure("the final state has all parameters", close(flat(r.value.params), want) and r.value.frozen_params is None)
        t.ensure("and so has the saved one", len(saved) == 1 and close(flat(saved[0].params), want) and saved[0].frozen_params is None)
    t.ensure("the given parameters are unchanged", same(flat(params), leaves))
