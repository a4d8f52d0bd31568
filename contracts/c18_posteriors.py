"""Posterior approximations: samples of the stored states, moments of SWAG, ADVI's objective, Laplace's covariance."""
from collections.abc import Mapping
from types import SimpleNamespace as NS

from vf.api import contract

PO = "fortuna.prob_model.posterior."
LA, SW, AD = PO + "laplace.laplace_posterior:LaplacePosterior", PO + "swag.swag_posterior:SWAGPosterior", PO + "normalizing_flow.advi.advi_posterior:ADVIPosterior"
ST = PO + "swag.swag_trainer:"
NF = PO + "normalizing_flow."


def leaves_of(t, extra):
    """names, shapes and paths of the parameters of a small model of arbitrary sizes, in the order of the tree"""
    a, b = t.dim("a"), t.dim("b")
    out = []
    if extra:
        out.append((["lik_log_var", "params", "bias"], (b,)))
    return out + [(["model", "params", "bias"], (b,)), (["model", "params", "kernel"], (a, b))]


def nest(pairs):
    d = {}
    for path, v in pairs:
        e = d
        for k in path[:-1]:
            e = e.setdefault(k, {})
        e[path[-1]] = v
    return d


def get(d, path):
    for k in path:
        d = d[k]
    return d


def keys_of(d, pre=()):
    return [p for k in sorted(d) for p in (keys_of(d[k], pre + (k,)) if mapped(d[k]) else [pre + (k,)])]


def mapped(d):
    return isinstance(d, Mapping)


def state_with(t, cls, params, **k):
    import optax
    return cls.init(params, k.pop("mutable", None), optax.sgd(1.0), k.pop("calib_params", None), k.pop("calib_mutable", None), **k)


def repository(state):
    from fortuna.prob_model.posterior.posterior_state_repository import PosteriorStateRepository
    r = PosteriorStateRepository(None)
    r.put(state)
    return r


def which_of(t, ls):
    """None: all the parameters, otherwise the paths of some of them"""
    w = t.choice("which parameters", ["all", "kernel", "bias", "both", "both, in another order"])
    r = [list(p) for p, _ in ls if p[0] == "model" and (w.startswith("both") or p[-1] == w)]
    return None if w == "all" else tuple(r if w != "both, in another order" else r[::-1])


def selected(which, ls):
    """the positions of the chosen parameters, in the order of the choice"""
    return list(range(len(ls))) if which is None else [n for w in which for n, (p, _) in enumerate(ls) if p == w]


def key_given(t, post):
    """the key passed, or the generator's next key -> keyword arguments, key of the draw"""
    k = t.key("key")
    if t.choice("key passed", [1, 0]):
        return dict(rng=k), k
    post.rng = NS(get=lambda: k)
    return {}, k


def calibration(t):
    from flax.core import FrozenDict
    if t.choice("calibration state", [0, 1]):
        return dict(calib_params=FrozenDict({"c": t.j(t.reals("cp", (1,)))}), calib_mutable=FrozenDict({"c": t.j(t.reals("cm", (1,)))}))
    return dict(calib_params=None, calib_mutable=None)


def same_calibration(t, s, state):
    for n in ("calib_params", "calib_mutable"):
        a, b = getattr(s, n), getattr(state, n)
        if b is None:
            t.ensure(f"no {n}", a is None)
        else:
            t.ensure(f"{n} of the state", a is not None and sorted(a) == sorted(b))
            t.arr_eq(f"{n} of the state", a["c"], (1,), lambda i: t.at(b["c"], i))


def params_are(t, what, got, ls, f):
    """got has exactly the paths of ls, with element i of path p equal to f(number of p, p, shape, i)"""
    ok = mapped(got) and keys_of(got) == sorted(tuple(p) for p, _ in ls)
    t.ensure(f"{what}: structure", ok)
    if not ok:
        return
    for n, (p, sh) in enumerate(ls):
        t.arr_eq(f"{what}: {'/'.join(p)}", get(got, p), sh, lambda *i: f(n, p, sh, i))


def flat_index(t, sh, i, offset):
    return offset + (i[0] if len(sh) == 1 else i[0] * sh[1] + i[1])


def size(sh):
    return sh[0] if len(sh) == 1 else sh[0] * sh[1]


def offsets(ls):
    out, o = [], 0
    for _, sh in ls:
        out.append(o)
        o = o + size(sh)
    return out, o


@contract("C18", [LA + ".sample", LA + "._compute_std", "fortuna.utils.random:generate_random_normal_like_tree", "fortuna.utils.random:generate_rng_like_tree", "fortuna.utils.nested_dicts:nested_unpair",
                  "fortuna.utils.strings:decode_encoded_tuple_of_lists_of_strings_to_array", "fortuna.utils.strings:encode_tuple_of_lists_of_strings_to_numpy"])
def laplace_sample(t):
    from flax.core import FrozenDict
    from fortuna.prob_model.posterior.laplace.laplace_posterior import LaplacePosterior
    from fortuna.prob_model.posterior.laplace.laplace_state import LaplaceState
    from fortuna.utils.strings import encode_tuple_of_lists_of_strings_to_numpy
    ls = leaves_of(t, t.choice("noise model", [0, 1]))
    which = which_of(t, ls)
    m = [t.j(t.reals("mean" + "".join(p), sh)) for p, sh in ls]
    h = [t.j(t.reals("hess" + "".join(p), sh, 0)) for p, sh in ls]
    sel = selected(which, ls)
    if which is None:
        d = nest([(p[:2] + ["mean"] + p[2:], m[n]) for n, (p, _) in enumerate(ls)] + [(p[:2] + ["hess_lik_diag"] + p[2:], h[n]) for n, (p, _) in enumerate(ls)])
    else:
        d = nest([(p, {"mean": m[n], "hess_lik_diag": h[n]} if n in sel else m[n]) for n, (p, _) in enumerate(ls)])
    lv, lv2 = t.real("prior_log_var", -10, 10), t.real("other_log_var", -10, 10)
    cal = calibration(t)
    state = state_with(t, LaplaceState, FrozenDict(d), prior_log_var=lv, _encoded_which_params=encode_tuple_of_lists_of_strings_to_numpy(which), **cal)
    post = LaplacePosterior.__new__(LaplacePosterior)
    post.state = repository(state)
    kw, key = key_given(t, post)
    other = t.choice("prior log-variance passed", [0, 1])
    if other:
        kw["prior_log_var"], lv = lv2, lv2
    r = t.call(post.sample, **kw)
    if not t.no_exception("sample", r):
        return
    eps = {n: t.normal(t.split(key, len(sel), q), ls[n][1]) for q, n in enumerate(sorted(sel))}
    params_are(t, "draw", r.value.params, ls,
               lambda n, p, sh, i: t.at(m[n], *i) + (t.at(eps[n], *i) / t.sqrt(t.exp(-lv) + t.at(h[n], *i)) if n in sel else 0.0))
    same_calibration(t, r.value, state)


@contract("C18", [SW + ".sample", SW + "._get_sample", "fortuna.utils.nested_dicts:nested_set", "fortuna.utils.nested_dicts:nested_get"])
def swag_sample(t):
    from flax.core import FrozenDict
    from fortuna.prob_model.posterior.swag.swag_posterior import SWAGPosterior
    from fortuna.prob_model.posterior.swag.swag_state import SWAGState
    from fortuna.utils.strings import encode_tuple_of_lists_of_strings_to_numpy
    ls = leaves_of(t, t.choice("noise model", [0, 1]))
    which = which_of(t, ls)
    p0 = [t.j(t.reals("params" + "".join(p), sh)) for p, sh in ls]
    sel = selected(which, ls)
    off, n_params = offsets([ls[n] for n in sel])
    rank = t.dim("rank")
    mean, std, dev = t.j(t.reals("mean", (n_params,))), t.j(t.reals("std", (n_params,), 0)), t.j(t.reals("dev", (n_params, rank)))
    cal = calibration(t)
    how = t.choice("mutable", ["none", "inputs", "nothing passed"])
    mut = FrozenDict({"stats": t.j(t.reals("stats", (2,)))}) if how != "none" else None
    state = state_with(t, SWAGState, FrozenDict(nest([(p, p0[n]) for n, (p, _) in enumerate(ls)])), mean=mean, std=std, dev=dev, mutable=mut, _encoded_which_params=encode_tuple_of_lists_of_strings_to_numpy(which), **cal)
    post = SWAGPosterior.__new__(SWAGPosterior)
    post.state = repository(state)
    kw, key = key_given(t, post)
    calls, x = [], t.j(t.reals("x", (t.dim("n"), 2)))

    def apply(params, inputs, mutable=None, train=False, rng=None, **k):
        calls.append((params, inputs, train, rng))
        return None, {"mutable": FrozenDict({"stats": t.op("refit", [inputs, mutable["stats"]], (2,))})}
    post.joint = NS(likelihood=NS(model_manager=NS(apply=apply)))
    if how == "inputs":
        kw["inputs"] = x
    r = t.call(post.sample, **kw)
    if not t.raises_iff("mutable objects but no inputs", r, ValueError, how == "nothing passed"):
        return
    z1, z2 = t.normal(t.split(key, 3, 1), (n_params,)), t.normal(t.split(key, 3, 2), (rank,))

    def draw(n, p, sh, i):
        if n not in sel:
            return t.at(p0[n], *i)
        q = flat_index(t, sh, i, off[sel.index(n)])
        return t.at(mean, q) + t.at(std, q) * t.at(z1, q) / t.sqrt(2.0) + t.sum(rank, lambda k: t.at(dev, q, k) * t.at(z2, k)) / t.sqrt(2.0) / t.sqrt(rank)
    params_are(t, "draw", r.value.params, ls, draw)
    same_calibration(t, r.value, state)
    if how == "none":
        t.ensure("no mutable", r.value.mutable is None)
    else:
        t.ensure("the mutable objects are evaluated once, in training mode, on the inputs", len(calls) == 1 and calls[0][1] is x and calls[0][2] is True)
        params_are(t, "parameters of the evaluation", calls[0][0], ls, draw)
        t.arr_eq("mutable objects for the draw", r.value.mutable["stats"], (2,), lambda i: t.at(t.op("refit", [x, mut["stats"]], (2,)), i))


@contract("C18", [ST + "SWAGTrainer.training_step_end", ST + "SWAGTrainer.on_train_end", ST + "SWAGTrainer._update_state_with_stats"])
def swag_moments(t):
    from flax.core import FrozenDict
    from fortuna.prob_model.posterior.swag.swag_state import SWAGState
    from fortuna.prob_model.posterior.swag.swag_trainer import SWAGTrainer
    n = t.dim("n")
    rank = t.choice("rank", [2, 3, 4])
    steps = t.choice("steps", [1, 2, 3, 5])
    ps = [t.j(t.reals(f"p{s}", (n,))) for s in range(steps)]
    epochs = [t.int(f"epoch{s}", 0) for s in range(steps)]
    tr = SWAGTrainer(predict_fn=lambda x, **k: x, uncertainty_fn=None, which_params=None)
    mk = lambda p: state_with(t, SWAGState, FrozenDict({"model": {"params": {"w": p}}}))
    aux = dict(loss=t.real("loss"), outputs=None, logging_kwargs=None)
    for p, e in zip(ps, epochs):
        r = t.call(tr.training_step_end, e, mk(p), aux, (None, None), None, None, FrozenDict(rank=rank))
        if not t.no_exception("step end", r):
            return
        t.eq("the loss is reported", r.value[1]["loss"], aux["loss"])
    r = t.call(tr.on_train_end, mk(ps[-1]))
    if not t.no_exception("end of training", r):
        return
    s = r.value
    f = lambda q: (lambda s_, i: t.at(ps[s_], i) ** q)

    def avg(q, upto, i):
        v = f(q)(0, i)
        for k in range(1, upto + 1):
            v = (v * epochs[k] + f(q)(k, i)) / (epochs[k] + 1)
        return v
    t.arr_eq("running mean of the parameters", s.mean, (n,), lambda i: avg(1, steps - 1, i))
    t.arr_eq("standard deviation", s.std, (n,), lambda i: t.sqrt(t.max2(avg(2, steps - 1, i) - avg(1, steps - 1, i) ** 2, 0.0)))
    cols = [lambda i: 0.0] + [(lambda i, k=k: t.at(ps[k], i) - avg(1, k, i)) for k in range(1, steps)]
    cols = cols[-rank:]
    ok = len(s.dev.shape) == 2 and bool(s.dev.shape[1] == len(cols))
    t.ensure("one column per recent step, at most `rank`", ok)
    if ok:
        for c, col in enumerate(cols):
            t.arr_eq("deviations of the last steps from the running mean", s.dev[:, c], (n,), lambda i: col(i))


@contract("C18", [ST + "SWAGTrainer.training_step_end"], rac=10)
def swag_without_rank(t):
    from flax.core import FrozenDict
    from fortuna.prob_model.posterior.swag.swag_state import SWAGState
    from fortuna.prob_model.posterior.swag.swag_trainer import SWAGTrainer
    tr = SWAGTrainer(predict_fn=lambda x, **k: x, uncertainty_fn=None, which_params=None)
    state = state_with(t, SWAGState, FrozenDict({"model": {"params": {"w": t.j(t.reals("p", (2,)))}}}))
    r = t.call(tr.training_step_end, 0, state, dict(loss=0.0, outputs=None, logging_kwargs=None), (None, None), None, None, FrozenDict())
    t.raises_iff("no rank", r, AttributeError, True)


def flow(t):
    from fortuna.distribution.gaussian import DiagGaussian
    from fortuna.prob_model.posterior.normalizing_flow.advi.advi_architecture import ADVIArchitecture
    d = t.dim("d")
    bm, bs = t.j(t.reals("base_mean", (d,))), t.j(t.reals("base_std", (d,), 0.01))
    return d, bm, bs, DiagGaussian(bm, bs), ADVIArchitecture(d, std_init_params=t.real("std_init", 0))


@contract("C18", ["fortuna.distribution.gaussian:DiagGaussian", NF + "advi.advi_architecture:ADVIArchitecture.forward", NF + "advi.advi_architecture:ADVIArchitecture.backward", NF + "advi.advi_architecture:ADVIArchitecture.init_params"])
def gaussian_flow(t):
    d, bm, bs, base, arch = flow(t)
    mu, ls = t.j(t.reals("mu", (d,))), t.j(t.reals("log_std", (d,), -5, 5))
    p = dict(mean=mu, log_std=ls)
    n, key = t.dim("n"), t.key("key")
    what = t.choice("method", ["sample", "density", "forward", "backward", "init", "init mean", "init both"])
    x = t.j(t.reals("x", (n, d)))
    if what == "sample":
        r = t.call(base.sample, key, n)
        if t.no_exception(what, r):
            z = t.normal(t.split(key, 2, 1), (n, d))
            t.arr_eq("Gaussian draws", r.value, (n, d), lambda i, j: t.at(bm, j) + t.at(bs, j) * t.at(z, i, j))
    elif what == "density":
        r = t.call(base.log_joint_prob, x)
        if t.no_exception(what, r):
            t.arr_eq("log-density of the diagonal Gaussian", r.value, (n,), lambda i: t.sum(d, lambda j: -(((t.at(x, i, j) - t.at(bm, j)) / t.at(bs, j)) ** 2) / 2 - t.log(t.at(bs, j)) - t.log(2 * t.pi) / 2))
    elif what in ("forward", "backward"):
        r = t.call(getattr(arch, what), p, x)
        if t.no_exception(what, r):
            y, ldj = r.value
            s = 1 if what == "forward" else -1
            t.arr_eq("affine image", y, (n, d), lambda i, j: t.at(mu, j) + t.exp(t.at(ls, j)) * t.at(x, i, j) if s > 0 else (t.at(x, i, j) - t.at(mu, j)) * t.exp(-t.at(ls, j)))
            t.arr_eq("log-determinant of the Jacobian", ldj, (n,), lambda i: s * t.sum(d, lambda j: t.at(ls, j)))
            back = t.call(getattr(arch, "backward" if s > 0 else "forward"), p, y)
            if t.no_exception("inverse", back):
                t.arr_eq("inverse of each other", back.value[0], (n, d), lambda i, j: t.at(x, i, j))
    else:
        kw = {} if what == "init" else dict(mean=mu) if what == "init mean" else dict(mean=mu, log_std=ls)
        r = t.call(arch.init_params, key, **kw)
        if t.no_exception(what, r):
            t.ensure("mean and log-standard deviation", sorted(r.value) == ["log_std", "mean"])
            for q, (name, v) in enumerate((("mean", mu), ("log_std", ls))):
                z = t.normal(t.split(key, 3, q + 1), (d,))
                t.arr_eq(name, r.value[name], (d,), lambda i: t.at(v, i) if name in kw else arch.std_init_params * t.at(z, i))


@contract("C18", [NF + "normalizing_flow_trainer:NormalizingFlowTrainer.training_loss_step", NF + "normalizing_flow_trainer:NormalizingFlowTrainer.validation_step", NF + "normalizing_flow_trainer:NormalizingFlowTrainer.sample_forward"])
def elbo(t):
    from flax.core import FrozenDict
    from fortuna.prob_model.posterior.normalizing_flow.advi.advi_state import ADVIState
    from fortuna.prob_model.posterior.normalizing_flow.advi.advi_trainer import ADVITrainer
    d, bm, bs, base, arch = flow(t)
    mu, ls = t.j(t.reals("mu", (d,))), t.j(t.reals("log_std", (d,), -5, 5))
    S, n_data, key = t.dim("n_samples"), t.int("n_data", 1), t.key("key")
    x, y = t.j(t.reals("x", (3, 2))), t.j(t.reals("y", (3,)))
    val = t.choice("step", ["training", "validation"]) == "validation"
    mut = FrozenDict({"m": t.j(t.reals("m", (2,)))}) if t.choice("mutable", [0, 1]) else None
    cp = FrozenDict({"c": t.j(t.reals("cp", (1,)))}) if t.choice("calibration", [0, 1]) else None
    calls = []
    loss = lambda v: t.op("loss", [v, x, y], ())
    out = lambda v: t.op("outputs", [v, x], (3, 2))
    nmut = lambda v: t.op("mutable", [v, mut["m"]], (2,))

    def loss_fun(params, batch, **k):
        calls.append((batch, k))
        a = {"outputs": out(params["w"])}
        if "mutable" in k["return_aux"]:
            a["mutable"] = {"m": nmut(params["w"])}
        return loss(params["w"]), a
    unravel = lambda v: {"w": v}
    tr = ADVITrainer(predict_fn=lambda o, **k: o, uncertainty_fn=None, base=base, architecture=arch, which_params=None, unravel=unravel, sub_unravel=None)
    kw = FrozenDict(n_samples=S)
    state = state_with(t, ADVIState, FrozenDict(mean=mu, log_std=ls), mutable=mut, calib_params=cp, calib_mutable=None)
    with_metrics = t.choice("metrics", [0, 1]) if val else 0

    def metric(o, targets):
        return t.op("metric", [o, targets], ())
    if val:
        r = t.call(tr.validation_step, state, (x, y), loss_fun, key, n_data, (metric,) if with_metrics else None, unravel, kw)
    else:
        r = t.call(tr.training_loss_step, loss_fun, state.params, (x, y), mut, key, n_data, unravel, cp, None, kw)
    if not t.no_exception("step", r):
        return
    z = t.normal(t.split(t.split(key, 2, 1), 2, 1), (S, d))
    v = lambda s: t.vec(d, lambda j: t.at(mu, j) + t.exp(t.at(ls, j)) * (t.at(bm, j) + t.at(bs, j) * t.at(z, s, j)))
    want = t.sum(S, lambda s: loss(v(s))) / S - t.sum(d, lambda j: t.at(ls, j))
    b, k = calls[0]
    t.ensure("the loss is evaluated on the batch, in the mode of the step", b[0] is x and b[1] is y and k["train"] is (not val))
    t.eq("with the training set size", k["n_data"], n_data)
    t.eq("with the remaining key", t.op("keyval", [k["rng"]], ()), t.op("keyval", [t.split(key, 2, 0)], ()))
    t.ensure("with the mutables and the calibration", k["mutable"] is mut and k["calib_params"] is cp and k["calib_mutable"] is None)
    if val:
        t.eq("negative evidence lower bound", r.value["val_loss"], want)
        if with_metrics:
            t.eq("mean metric over the samples", r.value["val_metric"], t.sum(S, lambda s: metric(out(v(s)), y)) / S)
        t.ensure("nothing else", sorted(r.value) == (["val_loss", "val_metric"] if with_metrics else ["val_loss"]))
    else:
        t.eq("negative evidence lower bound", r.value[0], want)
        t.arr_eq("outputs of every sample", r.value[1]["outputs"], (S, 3, 2), lambda s, i, j: t.at(out(v(s)), i, j))
        if mut is not None:
            t.arr_eq("mutable of the last sample", r.value[1]["mutable"]["m"], (2,), lambda i: t.at(nmut(v(S - 1)), i))


@contract("C18", [AD + ".sample", AD + "._get_base_and_architecture", AD + "._get_unravel"])
def advi_sample(t):
    from flax.core import FrozenDict
    from fortuna.prob_model.posterior.normalizing_flow.advi.advi_posterior import ADVIPosterior
    from fortuna.prob_model.posterior.normalizing_flow.advi.advi_state import ADVIState
    from fortuna.utils.strings import encode_tuple_of_lists_of_strings_to_numpy
    ls = leaves_of(t, t.choice("noise model", [0, 1]))
    which = which_of(t, ls)
    m = [t.j(t.reals("mean" + "".join(p), sh)) for p, sh in ls]
    s = [t.j(t.reals("log_std" + "".join(p), sh, -5, 5)) for p, sh in ls]
    sel = selected(which, ls)
    off, n_params = offsets([ls[n] for n in sel])
    if which is None:
        d = nest([(p[:2] + ["mean"] + p[2:], m[n]) for n, (p, _) in enumerate(ls)] + [(p[:2] + ["log_std"] + p[2:], s[n]) for n, (p, _) in enumerate(ls)])
    else:
        d = nest([(p, {"mean": m[n], "log_std": s[n]} if n in sel else m[n]) for n, (p, _) in enumerate(ls)])
    cal = calibration(t)
    state = state_with(t, ADVIState, FrozenDict(d), _encoded_which_params=encode_tuple_of_lists_of_strings_to_numpy(which), **cal)
    post = ADVIPosterior.__new__(ADVIPosterior)
    lb = t.real("log_std_base", -5, 5)
    post.posterior_approximator = NS(log_std_base=lb, std_init_params=0.1)
    post.state = None
    post.restore_checkpoint = lambda *a, **k: state
    import fortuna.prob_model.posterior.normalizing_flow.advi.advi_posterior as mod
    old, mod.PosteriorStateRepository = mod.PosteriorStateRepository, lambda checkpoint_dir=None: repository(state)
    try:
        r = t.call(post.load_state, "somewhere")
    finally:
        mod.PosteriorStateRepository = old
    if not t.no_exception("load_state", r):
        return
    kw, key = key_given(t, post)
    r = t.call(post.sample, **kw)
    if not t.no_exception("sample", r):
        return
    z = t.normal(t.split(key, 2, 1), (1, n_params))
    params_are(t, "draw", r.value.params, ls,
               lambda n, p, sh, i: t.at(m[n], *i) + (t.exp(t.at(s[n], *i)) * t.exp(lb) * t.at(z, 0, flat_index(t, sh, i, off[sel.index(n)])) if n in sel else 0.0))
    same_calibration(t, r.value, state)


@contract("C18", [PO + "deep_ensemble.deep_ensemble_posterior:DeepEnsemblePosterior.sample", PO + "sgmcmc.sgmcmc_posterior:SGMCMCPosterior.sample", PO + "map.map_posterior:MAPPosterior.sample"])
def stored_sample(t):
    """the posteriors made of stored states: MAP, deep ensembles, SG-MCMC"""
    from flax.core import FrozenDict
    from fortuna.prob_model.posterior.deep_ensemble.deep_ensemble_posterior import DeepEnsemblePosterior
    from fortuna.prob_model.posterior.map.map_posterior import MAPPosterior
    from fortuna.prob_model.posterior.map.map_state import MAPState
    from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_posterior import SGHMCPosterior
    what = t.choice("posterior", ["map", "ensemble", "sgmcmc"])
    S, n = (t.dim("states") if what != "map" else 1), t.dim("n")
    w, m = t.j(t.reals("w", (S, n))), t.j(t.reals("m", (S, 2)))
    mutable, cal = t.choice("mutable", [0, 1]), calibration(t)
    make = lambda i: state_with(t, MAPState, FrozenDict({"w": w[i]}), mutable=FrozenDict({"m": m[i]}) if mutable else None, step=t.j(t.ints("step", (1,), 0))[0], **cal)
    cls = {"map": MAPPosterior, "ensemble": DeepEnsemblePosterior, "sgmcmc": SGHMCPosterior}[what]
    post = cls.__new__(cls)
    post.posterior_approximator = NS(ensemble_size=S, n_samples=S)
    def stored(i=0, **k):
        if t.sym:
            return make(i)
        import jax
        return jax.tree_util.tree_map(jax.numpy.asarray, make(i))
    post.state = NS(get=stored)
    kw, key = key_given(t, post)
    r = t.call(post.sample, **kw)
    if not t.no_exception("sample", r):
        return
    i = 0 if what == "map" else t.rand("choice", key, S)
    s = r.value
    t.ensure("the parameters of a state", sorted(s.params) == ["w"])
    t.arr_eq("the parameters of the state drawn uniformly with the key", s.params["w"], (n,), lambda j: t.at(w, i, j))
    if mutable:
        t.arr_eq("with its mutable objects", s.mutable["m"], (2,), lambda j: t.at(m, i, j))
    else:
        t.ensure("no mutable", s.mutable is None)
    same_calibration(t, s, make(0))


@contract("C18", [LA + "._batched_log_prob"])
def laplace_log_prob(t):
    from fortuna.prob_model.posterior.laplace.laplace_posterior import LaplacePosterior
    post = LaplacePosterior.__new__(LaplacePosterior)
    n = t.dim("n")
    x, y, lv, S = t.j(t.reals("x", (n, 2))), t.j(t.reals("y", (n,))), t.real("prior_log_var"), t.dim("n_posterior_samples")
    calls = []

    def sample(inputs=None, rng=None, prior_log_var=None):
        calls.append(inputs)
        return NS(params=t.op("draw", [rng, prior_log_var], (3,)), mutable=t.op("mut", [rng], (2,)), calib_params=t.op("cp", [rng], (2,)), calib_mutable=t.op("cm", [rng], (2,)))
    lp = lambda s: t.op("log_prob", [s.params, x, y, s.mutable, s.calib_params, s.calib_mutable], (n,))

    def batched(params, batch, mutable=None, calib_params=None, calib_mutable=None):
        t.ensure("the batch", batch[0] is x and batch[1] is y)
        return lp(NS(params=params, mutable=mutable, calib_params=calib_params, calib_mutable=calib_mutable))
    post.sample = sample
    post.joint = NS(likelihood=NS(_batched_log_prob=batched))
    kw, key = key_given(t, post)
    r = t.call(post._batched_log_prob, (x, y), lv, S, **kw)
    if t.no_exception("log-probability", r):
        t.ensure("the samples see the inputs", all(c is x for c in calls))
        t.arr_eq("log of the mean likelihood over the samples with the given prior log-variance", r.value, (n,),
                 lambda i: t.logsumexp(S, lambda s: t.at(lp(sample(None, t.split(key, S, s), lv)), i)) - t.log(S))


@contract("C18", [LA + ".prior_log_variance_tuning", LA + "._prior_log_variance_tuning_cv"])
def laplace_tuning(t):
    from fortuna.likelihood.base import Likelihood
    from fortuna.prob_model.posterior.laplace.laplace_posterior import LaplacePosterior
    post = LaplacePosterior.__new__(LaplacePosterior)
    lo, hi = t.real("min_prior_log_var", -5, 0), t.real("max_prior_log_var", 1, 5)
    size, own, mode = t.choice("grid_size", [2, 3]), t.real("prior log-variance", -3, 3), t.choice("mode", ["cv", "marginal_lik", "other"])
    B = t.choice("batches", [1, 2])
    xs = [t.j(t.reals(f"x{b}", (2, 1))) for b in range(B)]
    ns = [t.dim(f"rows{b}") for b in range(B)]
    lps = lambda b, v: t.op(f"log_prob{b}", [xs[b], v], (ns[b],))
    batches = list(zip(xs, range(B)))
    tried = []

    def batched(batch, v, n, rng=None):
        if not any(v is u for u in tried):
            tried.append(v)
        return lps([x is batch[0] for x in xs].index(True), v)
    post._batched_log_prob = batched
    post.joint = NS(prior=NS(log_var=own), likelihood=NS(_unshard_array=Likelihood._unshard_array))
    import fortuna.prob_model.posterior.laplace.laplace_posterior as mod
    old, mod.jit = mod.jit, lambda f, **k: f
    try:
        r = t.call(post.prior_log_variance_tuning, batches, 3, mode, lo, hi, size)
    finally:
        mod.jit = old
    if mode != "cv":
        t.raises_iff("unavailable mode", r, NotImplementedError if mode == "marginal_lik" else ValueError, True)
        return
    if not t.no_exception("tuning", r):
        return
    cands = [lo + (hi - lo) * k / (size - 1) for k in range(size)] + [own]
    t.ensure("the grid and the current value are tried", len(tried) == len(cands))
    if len(tried) != len(cands):
        return
    for u, c in zip(tried, cands):
        t.eq("a value of the grid, or the current one", t.at(u), c)
    if B == 1:
        score = lambda v: t.sum(ns[0], lambda i: t.at(lps(0, v), i))
    else:
        score = lambda v: t.sum(ns[0] + ns[1], lambda i: t.lazy_ite(i < ns[0], lambda: t.at(lps(0, v), i), lambda: t.at(lps(1, v), i - ns[0])))
    got = t.at(r.value)
    if t.sym:
        t.ensure("a candidate with the largest validation log-probability", t.or_(*[t.and_(got == t.at(c), *[score(c) >= score(d) for d in tried]) for c in tried]))
    else:
        t.ensure("a candidate with the largest validation log-probability", any(float(got) == float(c) and all(float(score(c)) >= float(score(d)) - 1e-5 for d in tried) for c in tried))


@contract("C18", [PO + "laplace.laplace_state:LaplaceState.convert_from_map_state", LA + "._init_map_state", "fortuna.utils.nested_dicts:nested_pair", "fortuna.utils.nested_dicts:nested_unpair", PO + "state:PosteriorState.init", PO + "state:PosteriorState.init_from_dict"])
def laplace_states(t):
    """the Laplace state keeps the MAP parameters, and starting again from it gives them back"""
    import optax
    from flax.core import FrozenDict
    from fortuna.prob_model.posterior.laplace.laplace_posterior import LaplacePosterior
    from fortuna.prob_model.posterior.laplace.laplace_state import LaplaceState
    from fortuna.prob_model.posterior.map.map_state import MAPState
    ls = leaves_of(t, t.choice("noise model", [0, 1]))
    which = which_of(t, ls)
    sel = selected(which, ls)
    m = [t.j(t.reals("mean" + "".join(p), sh)) for p, sh in ls]
    h = [t.j(t.reals("hess" + "".join(p), sh, 0)) for p, sh in ls]
    cal, lv = calibration(t), t.real("prior_log_var")
    given = t.choice("prior log-variance", [0, 1])
    mp = state_with(t, MAPState, FrozenDict(nest([(p, m[n]) for n, (p, _) in enumerate(ls)])), mutable=FrozenDict({"m": t.j(t.reals("mut", (2,)))}), **cal)
    hd = FrozenDict(nest([(p, h[n]) for n, (p, _) in enumerate(ls)])) if which is None else tuple(h[n] for p in which for n in sel if ls[n][0] == p)
    r = t.call(LaplaceState.convert_from_map_state, mp, hd, lv if given else None, which)
    if not t.no_exception("Laplace state", r):
        return
    s = r.value
    t.ensure("a Laplace state", isinstance(s, LaplaceState) and "".join(chr(int(c)) for c in s.encoded_name) == "LaplaceState")
    t.eq("prior log-variance", s.prior_log_var, lv if given else 0.0)
    for label, vals in (("mean", m), ("hess_lik_diag", h)):
        for n in sel:
            p, sh = ls[n]
            v = get(s.params, p[:2] + [label] + p[2:] if which is None else p + [label])
            t.arr_eq(f"{label} of {'/'.join(p)}", v, sh, lambda *i: t.at(vals[n], *i))
    for n in range(len(ls)):
        if n not in sel:
            t.arr_eq("parameters outside the approximation", get(s.params, ls[n][0]), ls[n][1], lambda *i: t.at(m[n], *i))
    same_calibration(t, s, mp)
    t.arr_eq("mutable objects", s.mutable["m"], (2,), lambda i: t.at(mp.mutable["m"], i))
    post = LaplacePosterior.__new__(LaplacePosterior)
    r = t.call(post._init_map_state, s, NS(optimizer=NS(method=optax.sgd(1.0))))
    if t.no_exception("starting again", r):
        b = r.value
        t.ensure("a MAP state", isinstance(b, MAPState))
        params_are(t, "the MAP parameters", b.params, ls, lambda n, p, sh, i: t.at(m[n], *i))
        same_calibration(t, b, mp)
        t.arr_eq("mutable objects kept", b.mutable["m"], (2,), lambda i: t.at(mp.mutable["m"], i))


@contract("C18", [NF + "advi.advi_trainer:ADVITrainer._unravel_params", NF + "advi.advi_trainer:ADVITrainer.on_train_end", AD + "._get_unravel", AD + "._init_advi_from_map_state", AD + "._init_map_state", NF + "advi.advi_architecture:ADVIArchitecture.init_params"])
def advi_states(t):
    """from a MAP state to ADVI parameters, to the stored state, and back"""
    import optax
    from flax.core import FrozenDict
    from fortuna.prob_model.posterior.map.map_state import MAPState
    from fortuna.prob_model.posterior.normalizing_flow.advi.advi_posterior import ADVIPosterior
    from fortuna.prob_model.posterior.normalizing_flow.advi.advi_state import ADVIState
    from fortuna.prob_model.posterior.normalizing_flow.advi.advi_trainer import ADVITrainer
    ls = leaves_of(t, t.choice("noise model", [0, 1]))
    which = which_of(t, ls)
    sel = selected(which, ls)
    off, n_params = offsets([ls[n] for n in sel])
    m = [t.j(t.reals("mean" + "".join(p), sh)) for p, sh in ls]
    cal, key = calibration(t), t.key("key")
    mp = state_with(t, MAPState, FrozenDict(nest([(p, m[n]) for n, (p, _) in enumerate(ls)])), mutable=FrozenDict({"m": t.j(t.reals("mut", (2,)))}), **cal)
    post = ADVIPosterior.__new__(ADVIPosterior)
    post.rng = NS(get=lambda: key)
    post.joint = NS(likelihood=NS(model_manager=NS(model=NS())))
    std0 = t.real("std_init", 0)
    post.posterior_approximator = NS(log_std_base=0.0, std_init_params=std0)
    base, arch = post._get_base_and_architecture(n_params)
    r = t.call(post._get_unravel, mp.params, None, which)
    if not t.no_exception("ravel", r):
        return
    rav, unravel, sub_unravel, log_stds = r.value
    t.ensure("no log-standard deviations yet", log_stds is None)
    r = t.call(post._init_advi_from_map_state, rav, log_stds, mp, arch.init_params, optax.sgd(1.0))
    if not t.no_exception("ADVI state", r):
        return
    s = r.value
    z = t.normal(t.split(key, 3, 2), (n_params,))
    for n in sel:
        p, sh = ls[n]
        o = off[sel.index(n)]
        t.forall("the means start at the MAP", [d for d in sh], lambda *i: t.at(s.params["mean"], flat_index(t, sh, i, o)) == t.at(m[n], *i)) if t.sym else t.arr_eq("the means start at the MAP", s.params["mean"][o:o + size(sh)].reshape(sh), sh, lambda *i: t.at(m[n], *i))
    t.arr_eq("the log-standard deviations start at small random values", s.params["log_std"], (n_params,), lambda i: std0 * t.at(z, i))
    same_calibration(t, s, mp)
    mu, sd = t.j(t.reals("mu", (n_params,))), t.j(t.reals("log_std", (n_params,)))
    tr = ADVITrainer(predict_fn=lambda o, **k: o, uncertainty_fn=None, base=base, architecture=arch, which_params=which, unravel=unravel, sub_unravel=sub_unravel)
    r = t.call(tr.on_train_end, s.replace(params=FrozenDict(mean=mu, log_std=sd)))
    if not t.no_exception("end of training", r):
        return
    f = r.value
    for label, v in (("mean", mu), ("log_std", sd)):
        for n in sel:
            p, sh = ls[n]
            got = get(f.params, p[:2] + [label] + p[2:] if which is None else p + [label])
            t.arr_eq(f"{label} of {'/'.join(p)}", got, sh, lambda *i: t.at(v, flat_index(t, sh, i, off[sel.index(n)])))
    for n in range(len(ls)):
        if n not in sel:
            t.arr_eq("parameters outside the approximation", get(f.params, ls[n][0]), ls[n][1], lambda *i: t.at(m[n], *i))
    same_calibration(t, f, mp)
    r = t.call(post._init_map_state, f, None, NS(optimizer=NS(method=optax.sgd(1.0))))
    if t.no_exception("starting again", r):
        b, lss = r.value
        params_are(t, "the means", b.params, ls, lambda n, p, sh, i: t.at(mu, flat_index(t, sh, i, off[sel.index(n)])) if n in sel else t.at(m[n], *i))
        params_are(t, "the log-standard deviations", lss, [ls[n] for n in sel], lambda n, p, sh, i: t.at(sd, flat_index(t, sh, i, off[n])))
        r = t.call(post._get_unravel, b.params, lss, which)
        if t.no_exception("ravel again", r):
            t.arr_eq("the flat means are those of the stored state", r.value[0], (n_params,), lambda i: t.at(mu, i))
            t.arr_eq("the flat log-standard deviations are those of the stored state, in the order of the means", r.value[3], (n_params,), lambda i: t.at(sd, i))


@contract("C18", [LA + "._gnn_approx"], bounded="networks of at most 3 inputs, 3 hidden units and 3 outputs, at most 6 data points", rac=25)
def laplace_hessian(t):
    """diagonal generalised Gauss-Newton matrix, recomputed with forward Jacobians"""
    import jax
    import jax.numpy as jnp
    import numpy as np
    from flax.core import FrozenDict
    from fortuna.data.loader import DataLoader
    from fortuna.output_calibrator.output_calib_manager.base import OutputCalibManager
    from fortuna.output_calibrator.classification import ClassificationTemperatureScaler
    from fortuna.output_calibrator.regression import RegressionTemperatureScaler
    from fortuna.prob_model.posterior.laplace.laplace_posterior import LaplacePosterior
    from fortuna.prob_output_layer.classification import ClassificationProbOutputLayer
    from fortuna.prob_output_layer.regression import RegressionProbOutputLayer
    reg = t.choice("task", ["classification", "regression"]) == "regression"
    n, d, hid, o = int(t.int("n", 1, 6)), int(t.int("d", 1, 3)), int(t.int("hidden", 1, 3)), int(t.int("o", 2, 3)) if not reg else 2
    x = np.asarray(t.reals("x", (n, d), -2, 2), dtype="float64")
    y = np.asarray(t.reals("y", (n, 1), -2, 2)) if reg else np.asarray(t.ints("y", (n,), 0, o - 1))
    w1, w2, b = [jnp.asarray(np.asarray(t.reals(q, s, -1, 1))) for q, s in (("w1", (d, hid)), ("w2", (hid, o)), ("b", (o,)))]
    params = FrozenDict({"model": {"params": {"w1": w1, "w2": w2, "b": b}}})

    def apply(p, inputs, mutable=None, train=False, rng=None):
        q = p["model"]["params"]
        return jnp.tanh(inputs @ q["w1"]) @ q["w2"] + q["b"]
    which = t.choice("which parameters", [None, (["model", "params", "w1"], ["model", "params", "b"])])
    layer = RegressionProbOutputLayer() if reg else ClassificationProbOutputLayer()
    temp = float(t.real("log_temp", -1, 1))
    calibrated = t.choice("calibrated", [0, 1])
    mgr = OutputCalibManager((RegressionTemperatureScaler() if reg else ClassificationTemperatureScaler()) if calibrated else None)
    cp = FrozenDict({"output_calibrator": {"params": {"log_temp": jnp.array([temp])}}}) if calibrated else None
    post = LaplacePosterior.__new__(LaplacePosterior)
    post.joint = NS(likelihood=NS(model_manager=NS(apply=apply), output_calib_manager=mgr, prob_output_layer=layer))
    bs = int(t.int("batch_size", 1, 6))
    r = t.call(post._gnn_approx, params, DataLoader.from_array_data((x, y), bs), None, cp, None, which, verbose=False)
    if not t.no_exception("Gauss-Newton", r):
        return
    out = lambda p: mgr.apply(params=cp["output_calibrator"] if calibrated else None, mutable=None, outputs=apply(p, x))
    jac = jax.jacfwd(out)(params)["model"]["params"]
    lam = jnp.stack([-jax.hessian(lambda f: layer.log_prob(f[None], y[i:i + 1])[0])(out(params)[i]) for i in range(n)])
    got = {p[-1]: v for p, v in zip(which, r.value)} if which else r.value["model"]["params"]
    t.ensure("the selected parameters", sorted(got) == (["b", "w1"] if which else ["b", "w1", "w2"]))
    for k in got:
        J = jac[k].reshape(n, o, -1)
        want = jnp.einsum("nop,noq,nqp->p", J, lam, J).reshape(got[k].shape)
        t.ensure(f"diagonal of the generalised Gauss-Newton matrix: {k}", bool(jnp.allclose(got[k], want, rtol=1e-4, atol=1e-5)))
