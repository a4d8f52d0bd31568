"""Nadaraya-Watson kernel regression, and the embedding-based out-of-distribution scores."""
from vf.api import contract

NW = "fortuna.kernel_regression.nadaraya_watson:NadarayaWatsonKernelRegressor"
MH = "fortuna.ood_detection.mahalanobis:"
DD = "fortuna.ood_detection.ddu:"


@contract("C21", [f"{NW}.__init__", f"{NW}.predict", f"{NW}.evaluate_scaled_kernel", "fortuna.kernel_regression.kernels.gaussian:gaussian_kernel"])
def nadaraya_watson(t):
    from fortuna.kernel_regression.nadaraya_watson import NadarayaWatsonKernelRegressor
    n, m = t.dim("train"), t.dim("points")
    x, y, z = t.j(t.reals("train_inputs", (n,), gen=lambda r: r.randn(int(n)))), t.j(t.reals("train_targets", (n,))), t.j(t.reals("inputs", (m,), gen=lambda r: r.randn(int(m))))
    kernel = t.choice("kernel", ["gaussian", "other"])
    h = t.real("bandwidth", 0.5)
    snap = t.snapshot(x, y, z)
    if kernel == "gaussian":
        r = t.call(lambda: NadarayaWatsonKernelRegressor(x, y))
        K = lambda u: t.exp(-u ** 2 / 2) / t.sqrt(2 * t.pi)
    else:
        f = t.fun1("kernel")
        K = lambda u: 1 + f(u) ** 2
        r = t.call(lambda: NadarayaWatsonKernelRegressor(x, y, kernel=K))
    if not t.no_exception("constructor", r):
        return
    if kernel == "other" and t.choice("default_bandwidth", [0, 1]):
        h = 0.1
        r = t.call(r.value.predict, z)
    else:
        r = t.call(r.value.predict, z, h)
    if not t.no_exception("predict", r):
        return
    t.unchanged("arguments", snap)
    k = lambda i, j: K((t.at(z, i) - t.at(x, j)) / h) / h
    t.arr_eq("the kernel-weighted average of the training targets", r.value, (m,),
             lambda i: t.sum(n, lambda j: k(i, j) * t.at(y, j)) / t.sum(n, lambda j: k(i, j)))


@contract("C21", [f"{NW}.__init__", f"{NW}.predict"])
def nadaraya_watson_shapes(t):
    from fortuna.kernel_regression.nadaraya_watson import NadarayaWatsonKernelRegressor
    n, m, k = t.dim("n"), t.dim("m"), t.dim("k")
    what = t.choice("what", ["lengths", "inputs_rank", "targets_rank", "test_rank"])
    v = lambda nm, *s: t.j(t.reals(nm, s))
    if what == "lengths":
        t.raises_iff("lengths", t.call(lambda: NadarayaWatsonKernelRegressor(v("x", n), v("y", m))), ValueError, n != m)
    elif what == "inputs_rank":
        t.raises_iff("two-dimensional inputs", t.call(lambda: NadarayaWatsonKernelRegressor(v("x", n, k), v("y", n))), ValueError, True)
    elif what == "targets_rank":
        t.raises_iff("two-dimensional targets", t.call(lambda: NadarayaWatsonKernelRegressor(v("x", n), v("y", n, k))), ValueError, True)
    else:
        r = NadarayaWatsonKernelRegressor(v("x", n), v("y", n))
        t.raises_iff("two-dimensional points", t.call(r.predict, v("z", m, k)), ValueError, True)


def labelled(t, c, each):
    """n embeddings with labels; the generated labels have every class `each` times or more."""
    n, d = t.dim("n", c * each), t.dim("d")
    x = t.j(t.reals("embeddings", (n, d)))
    y = t.j(t.ints("labels", (n,), 0, c, gen=lambda r: r.permutation(list(range(int(c))) * each + list(r.randint(0, int(c), int(n) - int(c) * each)))))
    size = lambda k: t.count(n, lambda i: t.at(y, i) == k)
    return n, d, x, y, size


@contract("C21", [f"{MH}MalahanobisOODClassifier.fit", f"{MH}MalahanobisOODClassifier.score", f"{MH}compute_mean_and_joint_cov", f"{MH}compute_mahalanobis_distance"])
def mahalanobis(t):
    from fortuna.ood_detection.mahalanobis import MalahanobisOODClassifier
    c = t.dim("classes")
    n, d, x, y, size = labelled(t, c, 1)
    t.assume_all(c, lambda k: size(k) > 0)
    clf = MalahanobisOODClassifier(num_classes=c)
    m = t.dim("points")
    z = t.j(t.reals("z", (m, d)))
    t.raises_iff("score before fit", t.call(clf.score, z), ValueError, True)
    r = t.call(clf.fit, x, y)
    if not t.no_exception("fit", r):
        return
    is_ = lambda i, k: t.at(y, i) == k
    mean = lambda k, a: t.sum(n, lambda i: t.ite(is_(i, k), t.at(x, i, a), 0.0)) / size(k)
    t.arr_eq("mean of each class", clf.mean, (c, d), mean)
    t.arr_eq("shared covariance of the class-centred embeddings", clf.cov, (d, d),
             lambda a, b: t.sum(c, lambda k: t.sum(n, lambda i: t.ite(is_(i, k), (t.at(x, i, a) - mean(k, a)) * (t.at(x, i, b) - mean(k, b)), 0.0))) / n)
    r = t.call(clf.score, z)
    if t.no_exception("score", r):
        P = t.pinv(clf.cov)
        mu = clf.mean
        diff = lambda q, k, a: t.at(z, q, a) - t.at(mu, k, a)
        t.arr_eq("smallest squared Mahalanobis distance to a class mean", r.value, (m,),
                 lambda q: t.min(c, lambda k: t.sum(d, lambda a: t.sum(d, lambda b: diff(q, k, a) * t.at(P, a, b) * diff(q, k, b)))))


@contract("C21", [f"{DD}DeepDeterministicUncertaintyOODClassifier.fit", f"{DD}DeepDeterministicUncertaintyOODClassifier.score", f"{DD}compute_classwise_mean_and_cov", f"{DD}_centered_cov", f"{DD}_get_logpdf_fn"])
def ddu(t):
    from fortuna.ood_detection.ddu import DeepDeterministicUncertaintyOODClassifier
    c = t.choice("classes", [2, 3])
    n, d, x, y, size = labelled(t, c, 2)
    for k in range(c):
        t.assume(size(k) > 1)
    clf = DeepDeterministicUncertaintyOODClassifier(num_classes=c)
    m = t.dim("points")
    z = t.j(t.reals("z", (m, d)))
    t.raises_iff("score before fit", t.call(clf.score, z), ValueError, True)
    r = t.call(clf.fit, x, y)
    if not t.no_exception("fit", r):
        return
    is_ = lambda i, k: t.at(y, i) == k
    mean = lambda k, a: t.sum(n, lambda i: t.ite(is_(i, k), t.at(x, i, a), 0.0)) / size(k)
    for k in range(c):
        t.arr_eq(f"mean of class {k}", clf.mean[k], (d,), lambda a: mean(k, a))
        t.arr_eq(f"covariance of class {k}", clf.cov[k], (d, d),
                 lambda a, b: t.sum(n, lambda i: t.ite(is_(i, k), (t.at(x, i, a) - mean(k, a)) * (t.at(x, i, b) - mean(k, b)), 0.0)) / (size(k) - 1))
    t.float_only(lambda: all(t.eigmin(clf.cov[k]) > 1e-3 for k in range(c)))      # singular covariances are jittered until no density is NaN
    r = t.call(clf.score, z)
    if t.no_exception("score", r):
        t.arr_eq("minus the log of the summed class densities", r.value, (m,),
                 lambda q: -t.logsumexp(c, lambda k: t.mvn_logpdf(t.vec(d, lambda a: t.at(z, q, a)), clf.mean[k], clf.cov[k])))
