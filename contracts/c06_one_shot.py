"""C06: one-shot multicalibration."""
from vf.api import contract

OB = "fortuna.conformal.multivalid.one_shot.base:OneShotMultivalidMethod"
OM = "fortuna.conformal.multivalid.one_shot.multicalibrator:OneShotMulticalibrator"
OT = "fortuna.conformal.multivalid.one_shot.classification.top_label_multicalibrator:OneShotTopLabelMulticalibrator"
OC = "fortuna.conformal.multivalid.one_shot.classification.binary_multicalibrator:OneShotBinaryClassificationMulticalibrator"


def make(t, what):
    from fortuna.conformal.multivalid.one_shot.classification.binary_multicalibrator import OneShotBinaryClassificationMulticalibrator
    from fortuna.conformal.multivalid.one_shot.classification.top_label_multicalibrator import OneShotTopLabelMulticalibrator
    from fortuna.conformal.multivalid.one_shot.multicalibrator import OneShotMulticalibrator
    return {"binary": OneShotBinaryClassificationMulticalibrator, "scores": OneShotMulticalibrator, "top label": lambda: OneShotTopLabelMulticalibrator(n_classes=t.n_classes)}[what]()


class Data:
    def __init__(self, t):
        self.t, self.what = t, t.choice("class", ["scores", "binary", "top label"])
        self.top = self.what == "top label"
        self.n, self.m = t.dim("n", 2), t.dim("m", 1)
        self.C = t.n_classes = t.choice("classes", [2] if t.sym else [2, 3]) if self.top else 1
        tail = (self.C,) if self.top else ()
        self.scores = t.j(t.reals("score", (self.n,), 0, 1)) if self.what == "scores" else t.j(t.ints("target", (self.n,), 0, max(1, self.C - 1)))
        if self.what == "binary":      # both classes are present
            for k in (0, 1):
                t.assume(t.count(self.n, lambda i: t.at(self.scores, i) == k) > 0)
        self.values = t.j(t.reals("value", (self.n,) + tail, 0, 1))
        self.test = t.j(t.reals("test value", (self.m,) + tail, 0, 1))
        self.nb = t.dim("buckets", 2)
        self.method = make(t, self.what)

    def kw(self, **k):
        return dict({"test_values" if self.what == "scores" else "test_probs": self.test, "values" if self.what == "scores" else "probs": self.values}, **k)

    def score(self, i, c):
        t = self.t
        return t.ite(t.at(self.scores, i) == c, 1.0, 0.0) if self.top else t.at(self.scores, i)

    def val(self, i, c, x=None):
        return self.t.at(self.values if x is None else x, i, *([c] if self.top else []))

    def has(self, i, k, c):
        """is the point in the bucket of the k-th grid value (and is its top label c)?"""
        t, d = self.t, self.val(i, c) - k / (self.nb - 1)
        h = 0.5 / self.nb
        r = t.and_(d < h, -d < h) if t.sym else bool(abs(d) < h)
        return t.and_(r, t.argmax(self.C, lambda q: t.at(self.values, i, q)) == c) if self.top else r


@contract("C06", [OB + ".calibrate", OB + "._get_b", OM + "._get_patch", OM + "._compute_expectation", OT + "._get_b", OT + ".calibrate", OC + ".calibrate"])
def patches(t):
    """the patch of a bucket is the mean score of its points, if it has probability more than the minimum, and its own value otherwise"""
    d = Data(t)
    p = t.real("min prob", 0, 1) if t.choice("minimum probability given", [0, 1]) else "auto"
    h = t.callee(OB + ".apply_patches", lambda b: t.op("applied", [b["values"]], tuple(b["values"].shape)), stub=True)
    tested = t.choice("test data", [0, 1])
    r = t.call(d.method.calibrate, d.scores, n_buckets=d.nb, min_prob_b=p, **(d.kw() if tested else {k: v for k, v in d.kw().items() if "test" not in k}))
    if not t.no_exception("calibrate", r):
        return
    low = 1 / (d.nb * d.C) if isinstance(p, str) else p
    size = lambda k, c: t.count(d.n, lambda i: d.has(i, k, c))
    mean = lambda k, c: t.sum(d.n, lambda i: t.ite(d.has(i, k, c), d.score(i, c), 0.0)) / size(k, c)
    t.arr_eq("patches", d.method.patches, (d.nb, d.C), lambda k, c: t.lazy_ite(size(k, c) / d.n > low, lambda: mean(k, c), lambda: k / (d.nb - 1)))
    t.eq("number of buckets of the patches", d.method.n_buckets, d.nb)
    if tested:
        t.arr_eq("the patches are applied to the test data", r.value, tuple(d.test.shape), lambda *i: t.at(t.op("applied", [d.test], tuple(d.test.shape)), *i))
    else:
        t.ensure("no test data", r.value is None)


@contract("C06", [OB + ".apply_patches", OB + "._patch", OT + ".apply_patches", OC + ".apply_patches"])
def applying(t):
    """every value (of the top label) becomes the patch of the nearest bucket, whatever the other points"""
    d = Data(t)
    before = t.call(d.method.apply_patches, d.test)
    if t.no_exception("no patches", before):
        t.arr_eq("values without patches", before.value, tuple(d.test.shape), lambda *i: t.at(d.test, *i))
    P = t.j(t.reals("patch", (d.nb, d.C), 0, 1))
    d.method._patches, d.method.n_buckets = P, d.nb
    r = t.call(d.method.apply_patches, d.test)
    if not t.no_exception("apply", r):
        return

    def gap(k, v):
        e = k / (d.nb - 1) - v
        return abs(e)
    new = lambda v, c: t.at(P, t.argmin(d.nb, lambda k: gap(k, v)), c)
    if d.top:
        t.arr_eq("patched probabilities of the top label", r.value, (d.m, d.C), lambda j, c: t.ite(t.argmax(d.C, lambda q: t.at(d.test, j, q)) == c, new(t.at(d.test, j, c), c), t.at(d.test, j, c)))
    else:
        t.arr_eq("patched values", r.value, (d.m,), lambda j: new(t.at(d.test, j), 0))


@contract("C06", [OB + ".calibrate", "fortuna.conformal.multivalid.base:MultivalidMethod._maybe_check_values", "fortuna.conformal.multivalid.base:MultivalidMethod._check_scores",
                  "fortuna.conformal.multivalid.mixins.classification.binary_multicalibrator:BinaryClassificationMulticalibratorMixin._check_scores"])
def rejected(t):
    """arguments out of their domain are rejected"""
    d = Data(t)
    a = d.kw()
    k_val, k_test = [k for k in a if "test" not in k][0], [k for k in a if "test" in k][0]
    t.raises_iff("values are needed", t.call(d.method.calibrate, d.scores), ValueError, True)
    t.raises_iff("values are needed with test values", t.call(d.method.calibrate, d.scores, **{k_test: d.test}), ValueError, True)
    p = t.real("min prob", -1, 2)
    t.assume(t.or_(p < 0, p > 1))
    t.raises_iff("minimum probability", t.call(d.method.calibrate, d.scores, min_prob_b=p, **{k_val: d.values}), ValueError, True)
    wild, wild_test = (t.j(t.reals(q, tuple(x.shape), -1, 2)) for q, x in (("wild value", d.values), ("wild test value", d.test)))
    out = lambda x: t.or_(*[t.count(x.shape[0], lambda i: t.at(x, i, *c) < 0) + t.count(x.shape[0], lambda i: t.at(x, i, *c) > 1) > 0 for c in ([(c,) for c in range(d.C)] if d.top else [()])])
    t.assume(t.and_(out(wild), out(wild_test)))
    t.raises_iff("values in [0, 1]", t.call(d.method.calibrate, d.scores, **{k_val: wild}), ValueError, True)
    t.raises_iff("test values in [0, 1]", t.call(d.method.calibrate, d.scores, **{k_val: d.values, k_test: wild_test}), ValueError, True)
    t.raises_iff("scores of one dimension", t.call(d.method.calibrate, d.scores[:, None], **{k_val: d.values}), ValueError, True)
    if d.what == "binary":
        x = t.j(t.reals("real target", (d.n,), 0, 1))
        t.raises_iff("integer targets", t.call(d.method.calibrate, x, **{k_val: d.values}), ValueError, True)
        t.raises_iff("binary targets", t.call(d.method.calibrate, d.scores + 1, **{k_val: d.values}), ValueError, True)
