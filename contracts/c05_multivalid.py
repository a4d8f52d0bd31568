"""C05: iterative multivalid calibration (multicalibration and BatchMVP)."""
import itertools

from vf.api import contract

BA = "fortuna.conformal.multivalid.iterative.base:IterativeMultivalidMethod"
MC = "fortuna.conformal.multivalid.iterative.multicalibrator:Multicalibrator"
TL = "fortuna.conformal.multivalid.iterative.classification.top_label_multicalibrator:TopLabelMulticalibrator"
BC = "fortuna.conformal.multivalid.iterative.classification.binary_multicalibrator:BinaryClassificationMulticalibrator"
MV = "fortuna.conformal.multivalid.iterative.batch_mvp:BatchMVPConformalMethod"


def in_b(t, val, v, tau, nb):
    """membership of a value in the set {f = v}, {f >= v} or {f <= v} up to half a bucket"""
    h = 0.5 / nb
    d = val - v
    if not t.sym:
        return bool([abs(d) < h, val + h >= v, val - h <= v][int(tau)])
    return t.ite(tau == 0, t.and_(d < h, -d < h), t.ite(tau == 1, val + h >= v, val - h <= v))


def method(t, top=False):
    from fortuna.conformal.multivalid.iterative.classification.top_label_multicalibrator import TopLabelMulticalibrator
    from fortuna.conformal.multivalid.iterative.multicalibrator import Multicalibrator
    return TopLabelMulticalibrator(n_classes=t.n_classes, seed=3) if top else Multicalibrator(seed=3)


class Setting:
    """data of a round: n points, groups, values (one probability per point, or one per class) and scores of dimension c"""

    def __init__(self, t, top, of_round=True):
        self.t, self.top = t, top
        self.n, self.G = t.dim("n", 1), t.dim("groups", 1)
        self.C = t.n_classes = t.dim("classes", 2) if top else 1
        self.groups = t.j(t.bools("group", (self.n, self.G)))
        self.values = t.j(t.reals("value", (self.n, self.C) if top else (self.n,), 0, 1))
        self.scores = t.j(t.reals("score", (self.n,), 0, 1))
        if not of_round:
            return
        self.v, self.g = t.real("v", 0, 1), t.index("g", self.G)
        self.c = t.index("c", self.C) if top else 0
        self.tau = t.choice("bucket type", [0, 1, 2])
        self.nb = t.dim("buckets", 1)

    def val(self, i):
        return self.t.at(self.values, i, self.c) if self.top else self.t.at(self.values, i)

    def b(self, i, nb=None):
        t = self.t
        r = t.and_(in_b(t, self.val(i), self.v, self.tau, self.nb if nb is None else nb), t.at(self.groups, i, self.g))
        if self.top:
            r = t.and_(r, t.argmax(self.C, lambda c: t.at(self.values, i, c)) == self.c)
        return r


@contract("C05", [BA + "._get_b", TL + "._get_b"])
def conditioning(t):
    s = Setting(t, t.choice("top label", [0, 1]))
    m = method(t, s.top)
    r = t.call(m._get_b, groups=s.groups, values=s.values, v=t.j(s.v), g=s.g, c=s.c, tau=s.tau, n_buckets=s.nb)
    if t.no_exception("conditioning set", r):
        t.arr_eq("points of the group in the bucket", r.value, (s.n,), lambda i: s.b(i))


def the_set(t, s, m):
    """an arbitrary conditioning set in place of the one computed by _get_b (contract `conditioning`), which must be asked for with the arguments of the round"""
    b = t.j(t.bools("in b", (s.n,)))

    def get_b(k):
        t.ensure("the conditioning set is that of the round", k["values"] is s.values and k["groups"] is s.groups)
        for what, got, want in (("value", k["v"], s.v), ("group", k["g"], s.g), ("bucket type", k["tau"], s.tau), ("number of buckets", k["n_buckets"], s.nb)) + ((("dimension", k["c"], s.c),) if s.top else ()):
            t.eq("the conditioning set is that of the round: " + what, t.at(got), want)
        return b
    t.callee((TL if s.top else BA) + "._get_b", get_b, stub=True)
    return b, lambda i: t.at(b, i)


@contract("C05", [MC + "._calibration_error", MC + "._compute_expectation", MC + "._get_mean_values", MC + "._get_patch"])
def round_quantities(t):
    """calibration error and patch of a conditioning set"""
    s = Setting(t, t.choice("top label", [0, 1]))
    m = method(t, s.top)
    b, inb = the_set(t, s, m)
    buckets = t.j(t.reals("bucket", (s.nb,), 0, 1))
    kw = dict(v=s.v, g=s.g, c=s.c, tau=s.tau, scores=s.scores, groups=s.groups, values=s.values, buckets=buckets)
    size = t.count(s.n, inb)
    r = t.call(m._calibration_error, **kw)
    if not t.no_exception("error", r):
        return
    err, got = r.value
    t.arr_eq("the conditioning set", got, (s.n,), inb)
    ms = lambda: t.sum(s.n, lambda i: t.ite(inb(i), t.at(s.scores, i), 0.0)) / size
    mv = lambda: t.sum(s.n, lambda i: t.ite(inb(i), s.val(i), 0.0)) / size
    t.eq("probability of the set times the squared gap of score and value", t.at(err), t.lazy_ite(size > 0, lambda: size / s.n * (ms() - mv()) ** 2, lambda: 0.0))
    t.assume(size > 0)
    for kind in ("additive", "multiplicative"):
        if kind == "multiplicative":
            t.assume(t.sum(s.n, lambda i: t.ite(inb(i), s.val(i), 0.0)) > 0)
        r = t.call(m._get_patch, b=b, patch_type=kind, **kw)
        if t.no_exception("patch " + kind, r):
            t.eq("the patch closes the gap", t.at(r.value), ms() - mv() if kind == "additive" else ms() / mv())


@contract("C05", [MV + "._calibration_error", MV + "._compute_probability_error", MV + "._compute_probability"])
def coverage_error(t):
    """BatchMVP: calibration error of a conditioning set"""
    from fortuna.conformal.multivalid.iterative.batch_mvp import BatchMVPConformalMethod
    s = Setting(t, 0)
    m, cov = BatchMVPConformalMethod.__new__(BatchMVPConformalMethod), t.real("coverage", 0, 1)
    b, inb = the_set(t, s, m)
    buckets = t.j(t.reals("bucket", (s.nb,), 0, 1))
    thr = t.j(t.reals("threshold", (s.n,))) if t.choice("threshold given", [0, 1]) else None
    r = t.call(m._calibration_error, v=s.v, g=s.g, c=0, tau=s.tau, scores=s.scores, groups=s.groups, values=s.values, buckets=buckets, coverage=cov, threshold=thr)
    if t.no_exception("error", r):
        err, got = r.value
        size = t.count(s.n, inb)
        t.arr_eq("the conditioning set", got, (s.n,), inb)
        covered = t.count(s.n, lambda i: t.and_(t.at(s.scores, i) <= t.at(s.values if thr is None else thr, i), inb(i)))
        t.eq("probability of the set times the squared gap of coverage", t.at(err), t.lazy_ite(size > 0, lambda: size / s.n * (cov - covered / size) ** 2, lambda: 0.0))


@contract("C05", [MV + "._get_patch"], bounded="at most 12 calibration points and grids of at most 8 buckets", rac=40)
def coverage_patch(t):
    """BatchMVP: the patch is the shift of the grid with the smallest gap of coverage"""
    from fortuna.conformal.multivalid.iterative.batch_mvp import BatchMVPConformalMethod
    from fortuna.conformal.multivalid.base import MultivalidMethod
    s = Setting(t, 0)
    m, cov = BatchMVPConformalMethod.__new__(BatchMVPConformalMethod), t.real("coverage", 0, 1)
    b = t.j(t.bools("in b", (s.n,)))
    nb = t.dim("grid", 2)
    buckets = MultivalidMethod._get_buckets(nb)
    kw = dict(v=s.v, g=s.g, c=0, b=b, tau=s.tau, scores=s.scores, groups=s.groups, values=s.values, buckets=buckets, coverage=cov)
    r = t.call(m._get_patch, patch_type="multiplicative", **kw)
    t.raises_iff("multiplicative patches", r, NotImplementedError, True)
    size = t.count(s.n, lambda i: t.at(b, i))
    t.assume(size > 0)
    gap = lambda d: (cov - t.count(s.n, lambda i: t.and_(t.at(s.scores, i) <= t.at(s.values, i) + d, t.at(b, i))) / size) ** 2
    r = t.call(m._get_patch, patch_type="additive", **kw)
    if t.no_exception("patch", r):
        d = t.at(r.value)
        best = gap(d)
        for sign in (1, -1):
            t.forall("no better shift", [nb], lambda k: best <= gap(sign * t.at(buckets, k)) + (0.0 if t.sym else 1e-9))


@contract("C05", [BA + "._patch", BA + "._take_values", BA + "._take_values_to_set"])
def patching(t):
    """a patch moves the values of the set by a step and keeps them within [0, 1]; the others do not change"""
    s = Setting(t, t.choice("top label", [0, 1]))
    m = method(t, s.top)
    b, eta, patch = t.j(t.bools("in b", (s.n,))), t.real("eta", 0, 1), t.real("patch", -2, 2)
    kind = t.choice("patch type", ["additive", "multiplicative"])
    r = t.call(m._patch, values=s.values, patch=patch, b=b, c=s.c, eta=eta, patch_type=kind)
    if t.no_exception("patch", r):
        new = lambda v: t.max2(0.0, t.min2(1.0, v + eta * patch if kind == "additive" else v * (1 - eta * (1 - patch))))
        if s.top:
            t.arr_eq("patched values", r.value, (s.n, s.C), lambda i, c: t.ite(t.and_(t.at(b, i), c == s.c), new(t.at(s.values, i, c)), t.at(s.values, i, c)))
        else:
            t.arr_eq("patched values", r.value, (s.n,), lambda i: t.ite(t.at(b, i), new(t.at(s.values, i)), t.at(s.values, i)))


@contract("C05", [BA + ".calibration_error", MC + "._calibration_error", MV + ".calibration_error", BC + ".calibration_error", TL + ".calibration_error"])
def reported_error(t):
    """the calibration error of every group is the sum over the buckets of the errors of the sets {f = v}, over the probability of the group"""
    what = t.choice("method", ["multicalibrator", "BatchMVP", "top label"])
    s = Setting(t, what == "top label", False)
    t.assume_all(s.G, lambda g: t.count(s.n, lambda i: t.at(s.groups, i, g)) > 0)
    nb = t.dim("error buckets", 2)
    cov = t.real("coverage", 0, 1)
    given = t.choice("groups given", [1, 0])
    kw = dict(groups=s.groups if given else None, n_buckets=nb)
    h = 0.5 / nb
    y = t.j(t.ints("target", (s.n,), 0, s.C - 1)) if s.top else None
    inside = lambda i, g: t.at(s.groups, i, g) if given else True
    prob = lambda g: t.count(s.n, lambda i: t.at(s.groups, i, g)) / s.n if given else 1.0
    score = (lambda i, c: t.ite(t.at(y, i) == c, 1.0, 0.0)) if s.top else (lambda i, c: t.at(s.scores, i))
    value = (lambda i, c: t.at(s.values, i, c)) if s.top else (lambda i, c: t.at(s.values, i))

    def err(g, k, c):
        """calibration error of the set (contracts round_quantities, coverage_error)"""
        if t.sym:
            return t.at(err_op(t.at(buckets, k), g, c, 0, t.vec(s.n, lambda i: score(i, c)), t.mat((s.n, s.G if given else 1), inside), s.values))
        v = k / (nb - 1)
        ins = [i for i in range(s.n) if abs(value(i, c) - v) < h and inside(i, g) and (not s.top or t.argmax(s.C, lambda q: t.at(s.values, i, q)) == c)]
        size = len(ins)
        if not size:
            return 0.0
        ms = sum(score(i, c) for i in ins) / size
        if what == "BatchMVP":
            return size / s.n * (cov - sum(score(i, c) <= value(i, c) for i in ins) / size) ** 2
        return size / s.n * (ms - sum(value(i, c) for i in ins) / size) ** 2

    buckets = t.vec(nb, lambda k: k / (nb - 1)) if t.sym else None
    err_op = lambda v, g, c, tau, scores, groups, values: t.op("error", [v, g, c, tau, scores, groups, values] + ([cov] if what == "BatchMVP" else []), ())

    def spec(b):
        t.ensure("number of buckets", b["buckets"].shape[0] == nb)
        return err_op(b["v"], b["g"], b["c"], b["tau"], b["scores"], b["groups"], b["values"]), t.op("set", [b["v"], b["g"], b["c"]], (s.n,), "b")
    for path in (MC, MV):
        t.callee(path + "._calibration_error", spec)
    if what == "multicalibrator":
        r = t.call(method(t).calibration_error, s.scores, values=s.values, **kw)
    elif what == "BatchMVP":
        from fortuna.conformal.multivalid.iterative.batch_mvp import BatchMVPConformalMethod
        m = BatchMVPConformalMethod(seed=0)
        m._coverage = cov
        r = t.call(m.calibration_error, s.scores, thresholds=s.values, **kw)
    else:
        r = t.call(method(t, True).calibration_error, y, probs=s.values, **kw)
    if not t.no_exception("calibration error", r):
        return
    G = s.G if given else 1
    total = lambda g, c: t.sum(nb, lambda k: err(g, k, c)) / prob(g)
    if s.top:
        t.arr_eq("error of every group and class", r.value, (G, s.C), total)
    else:
        t.arr_eq("error of every group", r.value, (G,), lambda g: total(g, 0))


@contract("C05", ["fortuna.conformal.multivalid.mixins.multicalibrator:MulticalibratorMixin._loss_fn", "fortuna.conformal.multivalid.mixins.multicalibrator:MulticalibratorMixin.mean_squared_error", "fortuna.conformal.multivalid.mixins.batchmvp:BatchMVPMixin._loss_fn", "fortuna.conformal.multivalid.mixins.batchmvp:BatchMVPMixin.pinball_loss", "fortuna.conformal.multivalid.mixins.classification.top_label_multicalibrator:TopLabelMulticalibratorMixin.mean_squared_error"])
def losses(t):
    from fortuna.conformal.multivalid.iterative.batch_mvp import BatchMVPConformalMethod
    top = t.choice("top label", [0, 1])
    s = Setting(t, top, False)
    if top:
        y = t.j(t.ints("target", (s.n,), 0, s.C - 1))
        r = t.call(method(t, True).mean_squared_error, s.values, y)
        if t.no_exception("mean squared error", r):
            t.eq("mean over points and classes of the squared gap", t.at(r.value), t.sum(s.n, lambda i: t.sum(s.C, lambda c: (t.at(s.values, i, c) - t.ite(t.at(y, i) == c, 1.0, 0.0)) ** 2)) / (s.n * s.C))
        return
    column = t.choice("scores with a column", [0, 1])
    sc = s.scores[:, None] if column else s.scores
    r = t.call(method(t).mean_squared_error, s.values, sc)
    if t.no_exception("mean squared error", r):
        t.eq("mean of the squared gap", t.at(r.value), t.mean(s.n, lambda i: (t.at(s.values, i) - t.at(s.scores, i)) ** 2))
    cov = t.real("coverage", 0, 1)
    m = BatchMVPConformalMethod(seed=0)
    m._coverage = cov
    for r in (t.call(m.pinball_loss, s.values, sc, cov), t.call(m._loss_fn, s.values, sc)):
        if t.no_exception("pinball loss", r):
            d = lambda i: t.at(s.scores, i) - t.at(s.values, i)
            t.eq("mean pinball loss", t.at(r.value), t.mean(s.n, lambda i: t.ite(d(i) > 0, cov * d(i), (cov - 1) * d(i))))


@contract("C05", [BA + ".apply_patches"])
def replaying(t):
    """patches are applied in order, each to the points then in its set; the values given do not change"""
    s = Setting(t, t.choice("top label", [0, 1]), False)
    m = method(t, s.top)
    m.n_buckets, m.eta, m._patch_type = t.dim("buckets", 1), t.real("eta", 0, 1), t.choice("patch type", ["additive", "multiplicative"])
    N = t.choice("patches", [0, 1, 2, 3])
    patches = [(t.index(f"tau{k}", 3), t.index(f"g{k}", s.G), t.real(f"v{k}", 0, 1), t.index(f"c{k}", s.C) if s.top else 0, t.real(f"patch{k}", -2, 2)) for k in range(N)]
    m._patches = list(patches)
    given = t.choice("groups given", [1, 0])
    shape = (s.n, s.C) if s.top else (s.n,)
    the_b = lambda values, tau, g, v, c: t.op("set", [values, tau, g, v] + ([c] if s.top else []), (s.n,), "b")
    the_patched = lambda values, patch, b, c: t.op("patched", [values, patch, b] + ([c] if s.top else []), shape)

    def get_b(b):
        t.eq("number of buckets of the calibration", b["n_buckets"], m.n_buckets)
        t.arr_eq("the groups", b["groups"], (s.n, s.G if given else 1), lambda i, g: t.at(s.groups, i, g) if given else True)
        return the_b(b["values"], b["tau"], b["g"], b["v"], b["c"])

    def patch_(b):
        t.ensure("type of the calibration", b["patch_type"] == m._patch_type)
        t.eq("step of the calibration", b["eta"], m.eta)
        return the_patched(b["values"], b["patch"], b["b"], b["c"])
    t.callee((TL if s.top else BA) + "._get_b", get_b, stub=True)
    t.callee(BA + "._patch", patch_, stub=True)
    r = t.call(m.apply_patches, s.groups if given else None, s.values)
    if not t.no_exception("apply", r):
        return
    want = s.values
    for tau, g, v, c, patch in patches:
        want = the_patched(want, patch, the_b(want, tau, g, v, c), c)
    t.arr_eq("values after the patches", r.value, shape, lambda *i: t.at(want, *i))


@contract("C05", [BA + "._get_taut_and_gt_and_vt_and_ct_and_bt"])
def choosing(t):
    """the set with the largest calibration error (the first of them, when there are several)"""
    T, G, K, C = t.choice("sizes", [(1, 1, 2, 1), (3, 2, 2, 1), (1, 2, 3, 2), (2, 3, 2, 1), (1, 1, 3, 3)])
    n = t.dim("n", 1)
    err = t.j(t.reals("error", (T, G, K, C), 0))
    taus, buckets, b = t.j(t.ints("tau", (T,), 0, 2)), t.j(t.reals("bucket", (K,))), t.j(t.bools("b", (T, G, K, C, n)))
    from fortuna.conformal.multivalid.iterative.base import IterativeMultivalidMethod
    r = t.call(IterativeMultivalidMethod._get_taut_and_gt_and_vt_and_ct_and_bt, calib_error_tau_g_v_c=err, buckets=buckets, n_groups=G, n_dims=C, b=b, n_bucket_types=T, taus=taus)
    if not t.no_exception("choice", r):
        return
    tau, g, v, c, bt = r.value
    at = lambda q: (q // (G * K * C), q // (K * C) % G, q // C % K, q % C) 
    q = t.argmax(T * G * K * C, lambda q: t.at(err, *at(q)))
    i = at(q)
    t.eq("bucket type", t.at(tau), t.at(taus, i[0]))
    t.eq("group", t.at(g), i[1])
    t.eq("bucket", t.at(v), t.at(buckets, i[2]))
    t.eq("dimension", t.at(c), i[3])
    t.arr_eq("its points", bt, (n,), lambda j: t.at(b, *i, j))


SCENARIOS = [(0, 1, 2, ("=",), "additive", "auto", 0, 1), (1, 1, 2, ("=",), "multiplicative", "given", 1, 1), (0, 2, 2, ("<=", ">="), "multiplicative", "given", 1, 2),
             (1, 2, 2, ("<=", ">="), "additive", "auto", 0, 2), (0, 1, 3, ("=",), "additive", "given", 0, 1)]
LONGER = [(0, 1, 3, ("=",), "additive", "given", 0, 3), (1, 2, 3, ("<=", ">="), "multiplicative", "given", 1, 4), (0, 2, 3, ("<=", ">="), "additive", "auto", 1, 4)]      # run only


@contract("C05", [BA + ".calibrate", TL + ".calibrate"], max_paths=900, budget=600)
def rounds(t):
    """the rounds of a calibration: which patches are kept, what is reported, what is applied to the test data (at most 2 rounds in the proof, 4 in the concrete runs; all data are arbitrary)"""
    top, G, nb, types, kind, auto, tested, N = t.choice("scenario", SCENARIOS if t.sym else SCENARIOS + LONGER)
    n, C = t.dim("n", 2), 2 if top else 1
    t.n_classes = 2
    groups = t.j(t.bools("group", (n, G)))
    values = t.j(t.reals("value", (n, C) if top else (n,), 0, 1))
    y = t.j(t.ints("target", (n,), 0, C - 1)) if top else None
    scores = t.j(t.reals("score", (n,), 0, 1))
    m = method(t, top)
    cls = TL if top else MC
    atol, rtol, eta, split = t.real("atol", 0, 1), t.real("rtol", 0, 1), t.real("eta", 0, 1), t.real("split", 0, 1)
    t.assume(t.and_(eta > 0, split > 0, split < 1))
    min_prob = 1 / (nb * C) if auto == "auto" else t.real("min prob", 0, 1)
    taus = {"=": [0]}.get(types[0], [1, 2])
    choices = [(taus[k % len(taus)], (k + 1) % G, t.real(f"v{k}", 0, 1), (k + nb) % C) for k in range(N)]
    seen = {}
    loss = lambda v, s: t.op("loss", [v, s], ())
    the_set = lambda v, g, c, tau, gr, va: t.op("set", [v, g, c, tau, gr, va], (va.shape[0],), "b")
    the_error = lambda v, g, c, tau, s, gr, va: abs(t.op("error", [v, g, c, tau, s, gr, va], ()))
    the_patched = lambda va, patch, b, c: t.op("patched", [va, patch, b, c], tuple(va.shape))
    the_patch = lambda k, tau, g, v, c, s, gr, va: t.op("patch", [k, tau, g, v, c, s, gr, va], ())

    def calibration_error(b):
        seen.setdefault("size", b["values"].shape[0])
        args = [b[q] for q in ("v", "g", "c", "tau", "scores", "groups", "values")]
        return the_error(*args), the_set(*args[:4], *args[5:])

    rnd = []

    def choose(b):
        k = len(rnd)
        rnd.append(b)
        tau, g, v, c = choices[k]
        return tau, g, v, c, t.op("chosen", [k], (seen["size"],), "b")

    def get_patch(b):
        k = len(rnd) - 1
        tau, g, v, c = choices[k]
        t.ensure("patch of the chosen set", b["patch_type"] == kind)
        for what, got, want in (("bucket type", b["tau"], tau), ("group", b["g"], g), ("value", b["v"], v), ("dimension", b["c"], c)):
            t.eq("patch of the chosen set: " + what, t.at(got), want)
        t.arr_eq("patch of the chosen set: points", b["b"], (seen["size"],), lambda i: t.at(t.op("chosen", [k], (seen["size"],), "b"), i))
        return the_patch(k, tau, g, v, c, b["scores"], b["groups"], b["values"])

    def patch_(b):
        t.ensure("patch type", b["patch_type"] == kind)
        t.eq("step", b["eta"], eta)
        return the_patched(b["values"], b["patch"], b["b"], b["c"])

    def get_b(b):
        t.ensure("number of buckets", b["n_buckets"] == nb)
        return the_set(b["v"], b["g"], b["c"], b["tau"], b["groups"], b["values"])

    for path, spec in ((cls + "._calibration_error", calibration_error), (BA + "._get_taut_and_gt_and_vt_and_ct_and_bt", choose), (MC + "._get_patch", get_patch), (BA + "._patch", patch_), ((TL if top else BA) + "._get_b", get_b),
                       ("fortuna.conformal.multivalid.mixins.multicalibrator:MulticalibratorMixin._loss_fn", lambda b: loss(b["values"], b["scores"]))):
        t.callee(path, spec, stub=True)
    tg, tv = (t.j(t.bools("test group", (3, G))), t.j(t.reals("test value", (3, C) if top else (3,), 0, 1))) if tested else (None, None)
    h = t.callee(BA + ".apply_patches", lambda b: t.op("applied", [b["groups"], b["values"]], tuple(b["values"].shape)), stub=True)
    kw = dict(groups=groups, test_groups=tg, atol=atol, rtol=rtol, min_prob_b=min_prob if auto == "given" else "auto", n_buckets=nb, n_rounds=N, eta=eta, split=split, bucket_types=types, patch_type=kind)
    r = t.call(m.calibrate, y, probs=values, test_probs=tv, **kw) if top else t.call(m.calibrate, scores, values=values, test_values=tv, **kw)
    if not t.no_exception("calibrate", r):
        return
    status = r.value[1] if tested else r.value
    if tested:
        t.arr_eq("the patches are applied to the test data", r.value[0], tuple(tv.shape), lambda *i: t.at(t.op("applied", [tg, tv], tuple(tv.shape)), *i))
    ntr = seen["size"]
    t.ensure("share of the training data", t.and_(ntr >= split * n, ntr < split * n + 1))
    perm = t.rand("choice", t.rand("PRNGKey", 3), n, shape=(n,), replace=False)
    sc = m._process_scores(m._get_scores(y) if top else scores)
    t.arr_eq("scores of the targets", sc, (n, C), lambda i, c: t.ite(t.at(y, i) == c, 1.0, 0.0) if top else t.at(scores, i))

    def part(x, off, rows):
        if len(x.shape) == 1:
            return t.j(t.vec(rows, lambda i: t.at(x, t.at(perm, off + i))))
        return t.j(t.mat((rows, x.shape[1]), lambda i, q: t.at(x, t.at(perm, off + i), q)))
    S, V, Gr = (part(x, 0, ntr) for x in (sc, values, groups))
    VS, VV, VG = (part(x, ntr, n - ntr) for x in (sc, values, groups))
    L, VL = [loss(V, S)], [loss(VV, VS)]
    patches = []
    for k in range(len(rnd)):
        tau, g, v, c = choices[k]
        E = rnd[k]["calib_error_tau_g_v_c"]

        def masked(a, g, k_, c):
            bk = k_ / (nb - 1)
            s = t.j(t.vec(ntr, lambda i: t.at(S, i, c)))
            inb = the_set(bk, g, c, taus[a], Gr, V)
            return t.ite(t.count(ntr, lambda i: t.at(inb, i)) / ntr >= min_prob, t.at(the_error(bk, g, c, taus[a], s, Gr, V)), 0.0)
        for q in itertools.product(range(len(taus)), range(G), range(nb), range(C)) if k == len(rnd) - 1 else ():      # earlier rounds: on the paths that end there
            t.eq("errors of the sets of sufficient probability", t.at(E, *q), masked(*q))
        patch = the_patch(k, tau, g, v, c, t.j(t.vec(ntr, lambda i: t.at(S, i, c))), Gr, V)
        patches.append(patch)
        V = the_patched(V, patch, t.op("chosen", [k], (ntr,), "b"), c)
        VV = the_patched(VV, patch, the_set(v, g, c, tau, VG, VV), c)
        L.append(loss(V, S))
        VL.append(loss(VV, VS))
    kept = len(m.patches)
    t.ensure("number of rounds", t.and_(status["n_rounds"] == kept, kept <= len(rnd), len(rnd) <= kept + 1, len(status["losses"]) == len(rnd) + 1))
    for k, l in enumerate(status["losses"]):
        t.eq(f"validation loss {k}", l, t.at(VL[k]))
    for k in range(kept):
        tau, g, v, c = choices[k]
        p = m.patches[k]
        for what, got, want in (("bucket type", p[0], tau), ("group", p[1], g), ("value", p[2], v), ("dimension", p[3], c), ("patch", p[4], t.at(patches[k]))):
            t.eq(f"round {k} is kept: {what}", t.at(got), want)
        t.ensure("kept rounds do not increase the loss", t.at(L[k + 1]) <= t.at(L[k]))
        t.ensure("kept rounds do not increase the validation loss", t.or_(t.at(VL[k + 1]) <= t.at(VL[k]), t.at(VL[k + 1]) <= atol))
    small = lambda: t.and_(kept == len(rnd), kept >= 1, t.or_(t.at(VL[-1]) <= atol, t.and_(t.at(VL[-2]) != 0, t.fdiv(t.at(VL[-2]) - t.at(VL[-1]), t.at(VL[-2])) <= rtol)))
    if status["converged"]:
        t.ensure("converged: the tolerance is met and the last patch is kept", small() if len(VL) > 1 else False)
    elif kept < len(rnd):
        t.ensure("a round is dropped only when it increases a loss", t.or_(t.at(L[-1]) > t.at(L[-2]), t.at(VL[-1]) > t.at(VL[-2])))


RV = "fortuna.conformal.multivalid.iterative.regression.batch_mvp:BatchMVPConformalClassifier"


@contract("C05", [RV + ".conformal_set"])
def batch_mvp_sets(t):
    """a label is in the conformal set iff its score is at most the threshold of the point"""
    from fortuna.conformal.multivalid.iterative.regression.batch_mvp import BatchMVPConformalClassifier
    m, c = t.dim("m"), t.dim("c", 2)
    sc, th = t.j(t.reals("class score", (m, c), 0, 1)), t.j(t.reals("threshold", (m,), 0, 1))
    r = t.call(BatchMVPConformalClassifier.conformal_set, sc, th)
    if t.no_exception("conformal sets", r):
        t.eq("one set per point", t.len(r.value), m)
        t.each("sets", m, lambda i: t.is_filter("labels of score at most the threshold", t.at(r.value, i), c, lambda k: t.at(sc, i, k) <= t.at(th, i)))
    t.raises_iff("scores of two dimensions", t.call(BatchMVPConformalClassifier.conformal_set, th, th), ValueError, True)
    t.raises_iff("thresholds of one dimension", t.call(BatchMVPConformalClassifier.conformal_set, sc, sc), ValueError, True)
    k = t.dim("other")
    t.raises_iff("as many scores as thresholds", t.call(BatchMVPConformalClassifier.conformal_set, sc, t.j(t.reals("other thresholds", (k,), 0, 1))), ValueError, k != m)


@contract("C05", [TL + "._maybe_init_values", BA + "._maybe_init_values", BA + "._init_groups", "fortuna.conformal.multivalid.mixins.classification.top_label_multicalibrator:TopLabelMulticalibratorMixin._get_scores",
                  "fortuna.conformal.multivalid.base:MultivalidMethod._process_scores", "fortuna.conformal.multivalid.base:MultivalidMethod._get_buckets", "fortuna.conformal.multivalid.base:MultivalidMethod._maybe_init_min_prob_b",
                  BA + "._get_bucket_type_indices"])
def initial(t):
    """what the data are when not given, the grid of buckets, the scores of the classes"""
    n, C, G = t.dim("n", 1), t.choice("classes", [2, 3]), t.dim("groups", 1)
    t.n_classes = C
    m, tl = method(t), method(t, True)
    r = t.call(m._maybe_init_values, None, n)
    if t.no_exception("initial values", r):
        t.arr_eq("initial values", r.value, (n,), lambda i: 0.0)
    for mm in (m, tl):
        t.raises_iff("neither values nor size", t.call(mm._maybe_init_values, None), ValueError, True)
    r = t.call(tl._maybe_init_values, None, n)
    if t.no_exception("initial probabilities", r):
        noise = lambda i, c: t.at(t.normal(t.rand("PRNGKey", 3), (n, C)), i, c)
        a = lambda i, c: abs(1 / C + 0.01 * noise(i, c))
        a1 = lambda i, c: a(i, c) - 2 * t.max2(0.0, a(i, c) - 1)
        t.arr_eq("initial probabilities: uniform up to a small noise of the seed", r.value, (n, C), lambda i, c: t.div(a1(i, c), t.sum(C, lambda q: a1(i, q))))
    x = t.j(t.reals("value", (n, C), 0, 1))
    for mm, v in ((m, x[:, 0]), (tl, x)):
        r = t.call(mm._maybe_init_values, v, n)
        if t.no_exception("given values", r):
            t.arr_eq("given values", r.value, tuple(v.shape), lambda *i: t.at(v, *i))
    r = t.call(m._init_groups, None, n)
    if t.no_exception("no groups", r):
        t.arr_eq("one group of all points", r.value, (n, 1), lambda i, g: True)
    g = t.j(t.bools("group", (n, G)))
    r = t.call(m._init_groups, g, n)
    if t.no_exception("groups", r):
        t.arr_eq("given groups", r.value, (n, G), lambda i, q: t.at(g, i, q))
    y = t.j(t.ints("target", (n,), 0, C - 1))
    r = t.call(tl._get_scores, y)
    if t.no_exception("scores of the classes", r):
        t.arr_eq("scores of the classes", r.value, (n, C), lambda i, c: t.at(y, i) == c)
    s = t.j(t.reals("score", (n,), 0, 1))
    r = t.call(m._process_scores, s)
    if t.no_exception("scores", r):
        t.arr_eq("a column of scores", r.value, (n, 1), lambda i, c: t.at(s, i))
    nb = t.dim("buckets", 2)
    r = t.call(m._get_buckets, nb)
    if t.no_exception("grid", r):
        t.arr_eq("grid of the unit interval", r.value, (nb,), lambda k: k / (nb - 1))
    t.eq("default minimum probability", m._maybe_init_min_prob_b("auto", nb, C), 1 / (nb * C))
    p = t.real("min prob", 0, 1)
    t.eq("given minimum probability", m._maybe_init_min_prob_b(p, nb, C), p)
    types = t.choice("bucket types", [("=",), (">=",), ("<=",), ("=", ">="), ("<=", ">="), (">=", "=", "<=")])
    r = t.call(m._get_bucket_type_indices, types)
    if t.no_exception("bucket types", r):
        want = [k for k, b in enumerate(("=", ">=", "<=")) if b in types]
        t.arr_eq("indices of the bucket types", r.value, (len(want),), lambda k: want[int(str(k))])


@contract("C05", [BA + ".calibrate", "fortuna.conformal.multivalid.base:MultivalidMethod._maybe_check_values", "fortuna.conformal.multivalid.base:MultivalidMethod._check_scores", BA + "._maybe_check_groups", BA + "._check_bucket_types",
                  MV + "._maybe_check_values", "fortuna.conformal.multivalid.mixins.classification.top_label_multicalibrator:TopLabelMulticalibratorMixin._maybe_check_values",
                  "fortuna.conformal.multivalid.mixins.classification.binary_multicalibrator:BinaryClassificationMulticalibratorMixin._maybe_check_values",
                  "fortuna.conformal.multivalid.mixins.classification.top_label_multicalibrator:TopLabelMulticalibratorMixin._check_targets"])
def arguments(t):
    """arguments out of their domain are rejected"""
    n, m = t.dim("n", 2), t.dim("m", 1)
    t.n_classes = 2
    what = t.choice("argument", ["consistency", "numbers", "scores", "groups", "values", "top label", "binary", "batch mvp", "names"])
    mc = method(t)
    s, v, tv = t.j(t.reals("score", (n,), -1, 2)), t.j(t.reals("value", (n,), -1, 2)), t.j(t.reals("test value", (m,), -1, 2))
    g, tg = t.j(t.bools("group", (n, 2))), t.j(t.bools("test group", (m, 2)))
    out = lambda n, x: t.count(n, lambda i: t.or_(t.at(x, i) < 0, t.at(x, i) > 1)) > 0
    if what == "consistency":
        t.assume_all(n, lambda i: t.and_(t.at(s, i) >= 0, t.at(s, i) <= 1, t.at(v, i) >= 0, t.at(v, i) <= 1))
        hv, htv, hg, htg = (t.choice(q, [0, 1]) for q in ("values", "test values", "groups", "test groups"))
        bad = (htv and not hv) or (hv and htg and not htv) or (htg and not hg) or (hg and htv and not htg)
        if not bad:
            return
        r = t.call(mc.calibrate, s, groups=g if hg else None, values=v if hv else None, test_groups=tg if htg else None, test_values=tv if htv else None)
        t.raises_iff("values, groups and their test counterparts go together", r, ValueError, True)
    elif what == "numbers":
        q = t.choice("number", ["rounds", "eta", "split", "min_prob_b"])
        x = t.real("x", -2, 3)
        bad = {"eta": t.or_(x <= 0, x > 1), "split": t.or_(x <= 0, x > 1), "min_prob_b": t.or_(x < 0, x > 1)}.get(q)
        if q == "rounds":
            x = t.choice("rounds", [0, -1])
        else:
            t.assume(bad)
        r = t.call(mc.calibrate, s, **{{"rounds": "n_rounds"}.get(q, q): x})
        t.raises_iff(q + " out of its range", r, ValueError, True)
    elif what == "names":
        t.raises_iff("patch type", t.call(mc.calibrate, s, patch_type=t.choice("bad type", ["", "add", "Additive"])), ValueError, True)
        t.raises_iff("bucket types", t.call(mc._check_bucket_types, t.choice("types", [("==",), ("<",), ("<=", ">")])), ValueError, True)
        t.no_exception("known bucket types", t.call(mc._check_bucket_types, ("<=", ">=", "=")))
        t.raises_iff("nothing to patch", t.call(mc.apply_patches), ValueError, True)
    elif what == "scores":
        t.raises_iff("scores of one dimension", t.call(mc._check_scores, s[:, None]), ValueError, True)
        t.raises_iff("scores in [0, 1]", t.call(mc._check_scores, s), ValueError, out(n, s))
    elif what == "groups":
        for k, bad in (((g, None), False), ((g, tg), False), ((g[:, 0], None), True), ((g, tg[:, 0]), True), ((s[:, None], None), True), ((g, tv[:, None]), True), ((None, None), False)):
            t.raises_iff("groups are two-dimensional and boolean", t.call(mc._maybe_check_groups, *k), ValueError, bad)
    else:
        from fortuna.conformal.multivalid.iterative.batch_mvp import BatchMVPConformalMethod
        from fortuna.conformal.multivalid.iterative.classification.binary_multicalibrator import BinaryClassificationMulticalibrator
        if what == "top label":
            tl = method(t, True)
            v2, t2 = t.j(t.reals("prob", (n, 2), -1, 2)), t.j(t.reals("test prob", (m, 2), -1, 2))
            out2 = lambda n, x: t.or_(*[t.count(n, lambda i: t.at(x, i, c) < 0) + t.count(n, lambda i: t.at(x, i, c) > 1) > 0 for c in range(2)])
            t.raises_iff("probabilities of two dimensions", t.call(tl._maybe_check_values, v), ValueError, True)
            t.raises_iff("probabilities in [0, 1]", t.call(tl._maybe_check_values, v2), ValueError, out2(n, v2))
            t.raises_iff("test probabilities of two dimensions", t.call(tl._maybe_check_values, None, tv), ValueError, True)
            t.raises_iff("test probabilities in [0, 1]", t.call(tl._maybe_check_values, None, t2), ValueError, out2(m, t2))
            y = t.j(t.ints("target", (n,), 0, 1))
            t.no_exception("targets", t.call(tl._check_targets, y))
            t.raises_iff("targets of one dimension", t.call(tl._check_targets, y[:, None]), ValueError, True)
            t.raises_iff("integer targets", t.call(tl._check_targets, s), ValueError, True)
            return
        mm = {"values": mc, "binary": BinaryClassificationMulticalibrator(), "batch mvp": BatchMVPConformalMethod()}[what]
        if what != "batch mvp":
            t.raises_iff("values of one dimension", t.call(mm._maybe_check_values, v[:, None]), ValueError, True)
        t.raises_iff("values in [0, 1]", t.call(mm._maybe_check_values, v), ValueError, out(n, v))
        t.raises_iff("test values in [0, 1]", t.call(mm._maybe_check_values, None, tv), ValueError, out(m, tv))
        t.no_exception("no values", t.call(mm._maybe_check_values, None))


@contract("C05", [MV + ".calibrate", MV + ".apply_patches", BC + ".calibrate", BC + ".apply_patches", BC + ".calibration_error", TL + ".calibrate", TL + ".apply_patches"])
def entry_points(t):
    """the methods of the classes run the calibration with exactly the arguments given"""
    from fortuna.conformal.multivalid.iterative.classification.binary_multicalibrator import BinaryClassificationMulticalibrator
    from fortuna.conformal.multivalid.iterative.regression.batch_mvp import BatchMVPConformalClassifier
    from fortuna.conformal.regression.batch_mvp import BatchMVPConformalRegressor
    n, m = t.dim("n", 2), t.dim("m", 1)
    t.n_classes = 2
    what = t.choice("class", ["classifier", "regressor", "binary", "top label"])
    tail = (2,) if what == "top label" else ()
    y = t.j(t.ints("target", (n,), 0, 1))
    s, v, tv = t.j(t.reals("score", (n,), 0, 1)), t.j(t.reals("value", (n,) + tail, 0, 1)), t.j(t.reals("test value", (m,) + tail, 0, 1))
    g, tg = t.j(t.bools("group", (n, 2))), t.j(t.bools("test group", (m, 2)))
    mvp = what in ("classifier", "regressor")
    mm = {"classifier": BatchMVPConformalClassifier, "regressor": BatchMVPConformalRegressor, "binary": BinaryClassificationMulticalibrator}.get(what, lambda: method(t, True))()
    kw = dict(atol=t.real("atol", 0, 1), rtol=t.real("rtol", 0, 1), min_prob_b=t.real("min prob", 0, 1), n_buckets=t.choice("buckets", [3, 50]), n_rounds=t.choice("rounds", [1, 7]), eta=t.real("eta", 0, 1),
              split=t.real("split", 0, 1), bucket_types=t.choice("bucket types", [("=",), ("<=", ">=")]), patch_type=t.choice("patch type", ["additive", "multiplicative"]))
    cov = t.real("coverage", -1, 2)
    h = t.callee(BA + ".calibrate", lambda b: dict(b, marker=1), stub=True)
    names = ("thresholds", "test_thresholds") if mvp else ("probs", "test_probs")
    data = {names[0]: v, names[1]: tv}
    r = t.call(mm.calibrate, s if mvp else y, groups=g, test_groups=tg, **data, **kw, **(dict(coverage=cov) if mvp else {}))
    if mvp:
        if not t.raises_iff("coverage in [0, 1]", r, ValueError, t.or_(cov < 0, cov > 1)) or not r.ok:
            return
    elif not t.no_exception("calibrate", r):
        return
    b = r.value
    for q, x in kw.items():
        if isinstance(x, (str, tuple)):
            t.ensure(f"argument {q}", b[q] == x)
        else:
            t.eq(f"argument {q}", b[q], x)
    sc = s if mvp else y if what == "binary" else mm._get_scores(y)
    for q, x in (("scores", sc), ("groups", g), ("test_groups", tg), ("values", v), ("test_values", tv)):
        t.arr_eq(f"argument {q}", b[q], tuple(x.shape), lambda *i: t.at(x, *i))
    if mvp:
        t.eq("coverage of the patches", b["kwargs"]["coverage"], cov)
        t.eq("coverage of the method", mm._coverage, cov)
    h2 = t.callee(BA + ".apply_patches", lambda b: (b["groups"], b["values"]), stub=True)
    r = t.call(mm.apply_patches, g, v)
    if t.no_exception("apply", r):
        t.arr_eq("groups of the patches", r.value[0], tuple(g.shape), lambda *i: t.at(g, *i))
        t.arr_eq("values of the patches", r.value[1], tuple(v.shape), lambda *i: t.at(v, *i))
