"""SG-MCMC: step schedules, preconditioners, integrators, sample collection, Stein discrepancy."""
from vf.api import contract

SC = "fortuna.prob_model.posterior.sgmcmc.sgmcmc_step_schedule:"
PR = "fortuna.prob_model.posterior.sgmcmc.sgmcmc_preconditioner:"
HI = "fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_integrator:sghmc_integrator"
CI = "fortuna.prob_model.posterior.sgmcmc.cyclical_sgld.cyclical_sgld_integrator:cyclical_sgld_integrator"
HC = "fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_callback:SGHMCSamplingCallback"
CC = "fortuna.prob_model.posterior.sgmcmc.cyclical_sgld.cyclical_sgld_callback:CyclicalSGLDSamplingCallback"
BC = "fortuna.prob_model.posterior.sgmcmc.sgmcmc_sampling_callback:SGMCMCSamplingCallback"
KS = "fortuna.prob_model.posterior.sgmcmc.sgmcmc_diagnostic:kernel_stein_discrepancy_imq"


def step_count(t):
    return t.j(t.at(t.ints("step", (1,), 0), 0))


@contract("C16", [SC + "constant_schedule", SC + "cosine_schedule", SC + "polynomial_schedule", SC + "constant_schedule_with_cosine_burnin", SC + "cyclical_cosine_schedule_with_const_burnin"])
def schedules(t):
    import fortuna.prob_model.posterior.sgmcmc.sgmcmc_step_schedule as m
    what = t.choice("schedule", ["constant", "cosine", "polynomial", "burnin", "cyclical"])
    n = step_count(t)
    cosine = lambda x: (1 + t.cos(x * t.pi)) / 2
    a = t.real("init_step_size")
    if what == "constant":
        r, bad, f = t.call(m.constant_schedule, a), a < 0, lambda: a
    elif what == "cosine":
        T = t.int("total_steps", 1)
        r, bad, f = t.call(m.cosine_schedule, a, T), a < 0, lambda: a * cosine(n / T)
    elif what == "polynomial":
        b, g = t.real("b", 0.001), t.real("gamma")
        r, bad, f = t.call(m.polynomial_schedule, a, b, g), t.or_(g <= 0.5, g > 1), lambda: a * t.pow(b + n, -g)
    elif what == "burnin":
        e, B = t.real("final_step_size"), t.int("burnin_steps", 1)

        def f():
            c = cosine(t.min2(n / B, 1.0))
            return c * a + (1 - c) * e
        r, bad = t.call(m.constant_schedule_with_cosine_burnin, a, e, B), t.or_(a < 0, e < 0)
    else:
        B, L = t.int("burnin_steps", 0), t.int("cycle_length", 1)
        r, bad, f = t.call(m.cyclical_cosine_schedule_with_const_burnin, a, B, L), a < 0, lambda: a * cosine(t.mod(t.max2(n - B - 1, 0), L) / L)
    if t.raises_iff("invalid parameters", r, ValueError, bad):
        v = t.call(r.value, n)
        if t.no_exception("schedule", v):
            t.arr_eq("the step size of the documented formula", v.value, (), f)


@contract("C16", [SC + "cosine_schedule", SC + "constant_schedule_with_cosine_burnin", SC + "cyclical_cosine_schedule_with_const_burnin"])
def negative_lengths(t):
    import fortuna.prob_model.posterior.sgmcmc.sgmcmc_step_schedule as m
    what = t.choice("schedule", ["cosine", "burnin", "cyclical"])
    L = t.int("length", -20, 20)
    if what == "cosine":
        t.raises_iff("total_steps", t.call(m.cosine_schedule, 0.1, L), ValueError, L <= 0)
    elif what == "burnin":
        t.raises_iff("burnin_steps", t.call(m.constant_schedule_with_cosine_burnin, 0.1, 0.2, L), ValueError, L < 0)
    elif t.choice("which", [0, 1]):
        t.raises_iff("burnin_steps", t.call(m.cyclical_cosine_schedule_with_const_burnin, 0.1, L, 5), ValueError, L < 0)
    else:
        t.raises_iff("cycle_length", t.call(m.cyclical_cosine_schedule_with_const_burnin, 0.1, 5, L), ValueError, L < 0)


def precond(t):
    """-> preconditioner, its state over params, moments(k, i) or None, rms(k, i): the diagonal of M"""
    from fortuna.prob_model.posterior.sgmcmc.sgmcmc_preconditioner import rmsprop_preconditioner, identity_preconditioner
    p = t.tree("params")
    if t.choice("preconditioner", ["identity", "rmsprop"]) == "identity":
        pc = identity_preconditioner()
        return pc, pc.init(p), p, None, 0, 0
    rho, eps = t.real("running_average_factor", 0, 1), t.real("eps", 1e-8)
    pc = rmsprop_preconditioner(rho, eps)
    e = t.tree("moments", like=p, lo=0)
    return pc, pc.init(p)._replace(grad_moment_estimates=e), p, e, rho, eps


def diag(t, e, rho, eps, g=None):
    """element i of leaf k of the diagonal matrix M, after the update with gradient g"""
    if e is None:
        return lambda k, i: 1
    new = (lambda k, i: t.at(t.leaf(e, k), i)) if g is None else (lambda k, i: t.at(t.leaf(e, k), i) * rho + t.at(t.leaf(g, k), i) ** 2 * (1 - rho))
    return lambda k, i: eps + t.sqrt(new(k, i))


@contract("C16", [PR + "rmsprop_preconditioner", PR + "identity_preconditioner"])
def preconditioners(t):
    pc, st, p, e, rho, eps = precond(t)
    what = t.choice("what", ["init", "update", "m_inv", "m_sqrt", "m_sqrt_inv"])
    v = t.tree("vec", like=p)
    at = lambda k, i: t.at(t.leaf(v, k), i)
    M = diag(t, e, rho, eps)
    if what == "init":
        r = t.call(pc.init, p)
        if t.no_exception(what, r) and e is not None:
            t.tree_eq("no gradient moments yet", r.value.grad_moment_estimates, p, lambda k, i: 0)
    elif what == "update":
        r = t.call(pc.update_preconditioner, v, st)
        if t.no_exception(what, r) and e is not None:
            t.tree_eq("running average of the squared gradient", r.value.grad_moment_estimates, p,
                      lambda k, i: t.at(t.leaf(e, k), i) * rho + at(k, i) ** 2 * (1 - rho))
    else:
        f = {"m_inv": lambda k, i: at(k, i) / M(k, i), "m_sqrt": lambda k, i: at(k, i) * t.sqrt(M(k, i)), "m_sqrt_inv": lambda k, i: at(k, i) / t.sqrt(M(k, i))}[what]
        r = t.call(getattr(pc, "multiply_by_" + what), v, st)
        if t.no_exception(what, r):
            t.tree_eq("product with the power of M", r.value, p, f)


def hmc_step(t, name, r, g, mom, n, key, decay, resample, h, pc, e, rho, eps):
    """updates and new state of one SGHMC step from momentum mom(k, i)"""
    up, s = r
    M = diag(t, e, rho, eps, g)
    lk = lambda k: t.split(t.split(key, 2, 0), t.leaves(g), k)
    old = (lambda k, i: 0) if resample is True else mom if resample is None else (lambda k, i: t.ite(t.mod(n, resample) == 0, 0.0, mom(k, i)))
    new = lambda k, i: decay * old(k, i) + t.at(t.leaf(g, k), i) * t.sqrt(h) + t.at(t.leaf_normal(lk(k), g, k), i) * t.sqrt(M(k, i)) * t.sqrt(2 * (1 - decay))
    t.arr_eq(f"{name}: count", s.count, (), lambda: n + 1)
    t.eq(f"{name}: fresh key", t.op("keyval", [s.rng_key], ()), t.op("keyval", [t.split(key, 2, 1)], ()))
    t.tree_eq(f"{name}: momentum", s.momentum, g, new)
    t.tree_eq(f"{name}: update", up, g, lambda k, i: new(k, i) / M(k, i) * t.sqrt(h))
    if e is not None:
        t.tree_eq(f"{name}: moments", s.preconditioner_state.grad_moment_estimates, g, lambda k, i: t.at(t.leaf(e, k), i) * rho + t.at(t.leaf(g, k), i) ** 2 * (1 - rho))


def fixed_schedule(t, n):
    """an arbitrary nonnegative step schedule, and its value at step n"""
    f = lambda c: t.op("schedule", [c], ()) ** 2
    return f, t.at(f(n)) if hasattr(f(n), "shape") else f(n)


@contract("C16", [HI, "fortuna.utils.random:generate_random_normal_like_tree", "fortuna.utils.random:generate_rng_like_tree"])
def sghmc(t):
    from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_integrator import sghmc_integrator
    pc, st, p, e, rho, eps = precond(t)
    decay = t.real("momentum_decay", 0, 1)
    resample = t.choice("resample", [None, "every"])
    if resample is not None:
        resample = t.int("momentum_resample_steps", 1)
    key, key2 = t.key("key"), t.key("state_key")
    n = step_count(t)
    sch, h = fixed_schedule(t, n)
    tx = sghmc_integrator(decay, resample, key, sch, pc)
    what = t.choice("what", ["init", "update"])
    if what == "init":
        r = t.call(tx.init, p)
        if t.no_exception("init", r):
            t.arr_eq("starts at step zero", r.value.count, (), lambda: 0)
            t.tree_eq("no momentum", r.value.momentum, p, lambda k, i: 0)
            t.eq("the given key", t.op("keyval", [r.value.rng_key], ()), t.op("keyval", [key], ()))
        return
    g, mom = t.tree("gradient", like=p), t.tree("momentum", like=p)
    s0 = tx.init(p)._replace(count=n, rng_key=key2, momentum=mom, preconditioner_state=st)
    r = t.call(tx.update, g, s0)
    if t.no_exception("update", r):
        hmc_step(t, "SGHMC", r.value, g, lambda k, i: t.at(t.leaf(mom, k), i), n, key2, decay, resample, h, pc, e, rho, eps)


@contract("C16", [CI])
def cyclical(t):
    from fortuna.prob_model.posterior.sgmcmc.cyclical_sgld.cyclical_sgld_integrator import cyclical_sgld_integrator
    pc, st, p, e, rho, eps = precond(t)
    a, L, ratio = t.real("init_step_size", 0), t.int("cycle_length", 1), t.real("exploration_ratio", 0, 1)
    key, key2 = t.key("key"), t.key("state_key")
    n = step_count(t)
    tx = cyclical_sgld_integrator(key, a, L, ratio, pc)
    g, mom = t.tree("gradient", like=p), t.tree("momentum", like=p)
    s0 = tx.init(p)
    t.tree_eq("no momentum at the start", s0.sgld_state.momentum, p, lambda k, i: 0)
    s0 = s0._replace(sgld_state=s0.sgld_state._replace(count=n, rng_key=key2, momentum=mom, preconditioner_state=st))
    r = t.call(tx.update, g, s0)
    if not t.no_exception("update", r):
        return
    up, s = r.value
    s = s.sgld_state
    h = a * (1 + t.cos(t.mod(t.max2(n - 1, 0), L) / L * t.pi)) / 2
    M = diag(t, e, rho, eps, g)
    G = lambda k, i: t.at(t.leaf(g, k), i)
    if t.mod(n, L) / L < ratio:
        t.arr_eq("exploration: count", s.count, (), lambda: n + 1)
        t.tree_eq("exploration: preconditioned gradient step", up, g, lambda k, i: h * G(k, i) / M(k, i))
        t.tree_eq("exploration: momentum is kept", s.momentum, g, lambda k, i: t.at(t.leaf(mom, k), i))
        t.eq("exploration: the key is kept", t.op("keyval", [s.rng_key], ()), t.op("keyval", [key2], ()))
        if e is not None:
            t.tree_eq("exploration: moments", s.preconditioner_state.grad_moment_estimates, g, lambda k, i: t.at(t.leaf(e, k), i) * rho + G(k, i) ** 2 * (1 - rho))
    else:
        hmc_step(t, "sampling", (up, s), g, lambda k, i: 0, n, key2, 0.0, None, h, pc, e, rho, eps)


class Repo:
    def __init__(self):
        self.log = []

    def put(self, **kw):
        self.log.append(kw)


class Trainer:
    def _sync_state(self, state):
        return ("synced", state)


@contract("C16", [HC, CC, BC], max_paths=2000)
def callbacks(t):
    kind = t.choice("kind", ["sghmc", "cyclical_sgld"])
    E, T, N, thin = t.int("n_epochs", 1, 6), t.int("n_training_steps", 1, 12), t.int("n_samples", 1, 8), t.int("n_thinning", 1, 5)
    repo = Repo()
    kw = dict(n_epochs=E, n_training_steps=T, n_samples=N, n_thinning=thin, trainer=Trainer(), state_repository=repo, keep_top_n_checkpoints=3)
    if kind == "sghmc":
        from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_callback import SGHMCSamplingCallback as K
        B = t.int("burnin_length", 0, 30)
        kw.update(burnin_length=B)
        picked = lambda s: t.and_(s > B, t.mod(s - B, thin) == 0)
    else:
        from fortuna.prob_model.posterior.sgmcmc.cyclical_sgld.cyclical_sgld_callback import CyclicalSGLDSamplingCallback as K
        L, ratio = t.int("cycle_length", 1, 12), t.real("exploration_ratio", 0, 1)
        kw.update(cycle_length=L, exploration_ratio=ratio)
        picked = lambda s: t.and_(t.mod(s, L) / L >= ratio, t.mod(t.mod(s, L), thin) == 0)
    r = t.call(lambda: K(**kw))
    if not t.raises_iff("too few samples", r, ValueError, t.count(E * T, lambda s: picked(s + 1)) < N):
        return
    c = r.value
    t.ensure("counters start at zero", c._current_step == 0 and c._samples_count == 0)
    step, got = t.int("steps_done", 0, 80), t.int("samples_done", 0, 8)
    c._current_step, c._samples_count = step, got
    state = object()
    r = t.call(c.training_step_end, state)
    if not t.no_exception("training_step_end", r):
        return
    t.ensure("the state is not changed", r.value is state)
    t.ensure("one more step", c._current_step == step + 1)
    want = t.and_(got < N, picked(step + 1))
    t.ensure("a sample is stored exactly after the burn-in / exploration, at every n_thinning-th step, up to n_samples", t.iff(len(repo.log) == 1, want))
    t.ensure("at most one sample per step", len(repo.log) <= 1)
    t.ensure("sample counter", c._samples_count == t.ite(want, got + 1, got))
    if repo.log:
        kw = repo.log[0]
        t.ensure("sample number", kw["i"] == got)
        t.ensure("the synchronised current state", kw["state"] == ("synced", state) and kw["keep"] == 3)


@contract("C16", [KS])
def stein(t):
    from fortuna.prob_model.posterior.sgmcmc.sgmcmc_diagnostic import kernel_stein_discrepancy_imq
    n, d = t.dim("samples"), t.dim("d")
    x, g = t.j(t.reals("x", (n, d))), t.j(t.reals("g", (n, d)))
    given = t.choice("given", [0, 1])
    c, b = (t.real("c"), t.real("beta")) if given else (1.0, -0.5)
    kw = dict(c=c, beta=b) if given else {}
    r = t.call(kernel_stein_discrepancy_imq, x, g, **kw)
    if not t.raises_iff("invalid kernel parameters", r, ValueError, t.or_(c <= 0, b >= 0)):
        return

    def k0(p, q):
        diff = lambda i: t.at(x, p, i) - t.at(x, q, i)
        base = c ** 2 + t.sum(d, lambda i: diff(i) ** 2)
        gg = t.sum(d, lambda i: t.at(g, p, i) * t.at(g, q, i))
        gp = t.sum(d, lambda i: t.at(g, p, i) * diff(i))
        gq = t.sum(d, lambda i: t.at(g, q, i) * diff(i))
        return (gg * t.pow(base, b) - 2 * b * gp * t.pow(base, b - 1) + 2 * b * gq * t.pow(base, b - 1) - 2 * d * b * t.pow(base, b - 1)
                - 4 * b * (b - 1) * t.pow(base, b - 2) * (base - c ** 2))
    t.arr_eq("root of the sum of the Stein kernel over all pairs of samples, over the number of samples", r.value, (),
             lambda: t.sqrt(t.sum(n, lambda p: t.sum(n, lambda q: k0(p, q)))) / n)
