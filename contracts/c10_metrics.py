"""Classification and regression metrics compute their published definitions."""
from vf.api import contract

MC = "fortuna.metric.classification"


@contract("C10", f"{MC}:accuracy")
def accuracy(t):
    from fortuna.metric.classification import accuracy
    n = t.dim("n")
    p, y = t.j(t.ints("preds", (n,), 0, 4)), t.j(t.ints("targets", (n,), 0, 4))
    r = t.call(accuracy, p, y)
    if t.no_exception("accuracy", r):
        t.arr_eq("accuracy is the fraction of correct predictions", r.value, (), lambda: t.count(n, lambda i: t.at(p, i) == t.at(y, i)) / n)


@contract("C10", f"{MC}:accuracy")
def accuracy_rejects(t):
    from fortuna.metric.classification import accuracy
    n, m = t.dim("n"), t.dim("m")
    if t.choice("which", [0, 1]):
        a, b = t.j(t.ints("preds", (n, m), 0, 4)), t.j(t.ints("targets", (n,), 0, 4))
    else:
        a, b = t.j(t.ints("preds", (n,), 0, 4)), t.j(t.ints("targets", (n, m), 0, 4))
    t.raises_iff("accuracy", t.call(accuracy, a, b), ValueError, True)


def _probs(t, n, c):
    if t.choice("ndim", [1, 2]) == 1:
        p = t.j(t.reals("probs", (n,), 0, 1))
        return p, lambda i: t.at(p, i)
    p = t.j(t.reals("probs2", (n, c), 0, 1))
    return p, lambda i: t.max(c, lambda k: t.at(p, i, k))


def _bins(t, n, conf, y, pr):
    """spec: counts, mean confidence and accuracy of the ten bins."""
    lo = 1 / n
    th = lambda b: lo + (1 - lo) * b / 9

    def inb(b, i):
        return t.ite(b == 0, conf(i) <= th(0), t.and_(conf(i) <= th(b), conf(i) > th(b - 1)))
    cnt = lambda b: t.count(n, lambda i: inb(b, i))
    hit = lambda b: t.count(n, lambda i: t.and_(inb(b, i), t.at(y, i) == t.at(pr, i)))
    cs = lambda b: t.sum(n, lambda i: t.ite(inb(b, i), conf(i), 0.0))
    acc = lambda b: t.ite(cnt(b) > 0, t.div(hit(b), cnt(b)), 0.0)
    con = lambda b: t.ite(cnt(b) > 0, t.div(cs(b), cnt(b)), 0.0)
    return cnt, con, acc


@contract("C10", f"{MC}:compute_counts_confs_accs")
def bins(t):
    from fortuna.metric.classification import compute_counts_confs_accs
    n, c = t.dim("n", 2), t.dim("c", 2)
    p, conf = _probs(t, n, c)
    pr, y = t.j(t.ints("preds", (n,), 0, 4)), t.j(t.ints("targets", (n,), 0, 4))
    r = t.call(compute_counts_confs_accs, pr, p, y)
    if t.no_exception("bins", r):
        counts, confs, accs = r.value
        cnt, con, acc = _bins(t, n, conf, y, pr)
        t.arr_eq("bin counts", counts, (10,), cnt)
        t.arr_eq("bin confidences", confs, (10,), con)
        t.arr_eq("bin accuracies", accs, (10,), acc)


def _abstract_bins(t, n):
    """Callee contract of compute_counts_confs_accs (its own postcondition is proved by `bins`)."""
    return t.callee(f"{MC}:compute_counts_confs_accs", lambda b: (
        t.j(t.ints("counts", (10,), 0, n + 1)), t.j(t.reals("confs", (10,), 0, 1)), t.j(t.reals("accs", (10,), 0, 1))))


def _ce(name, aliases, agg):
    def check(t):
        from fortuna.metric import classification as m
        n = t.dim("n", 2)
        p = t.j(t.reals("probs", (n,), 0, 1))
        pr, y = t.j(t.ints("preds", (n,), 0, 4)), t.j(t.ints("targets", (n,), 0, 4))
        h = _abstract_bins(t, n)
        r = t.call(getattr(m, t.choice("alias", aliases)), pr, p, y)
        if t.no_exception(name, r):
            if h.calls:
                b, (counts, confs, accs) = h.calls[0]
                for k, x in (("preds", pr), ("probs", p), ("targets", y)):
                    t.same(f"{name} bins its own {k}", b[k], x)
                cnt, con, acc = [lambda k, x=x: t.at(x, k) for x in (counts, confs, accs)]
            else:
                cnt, con, acc = _bins(t, n, lambda i: t.at(p, i), y, pr)
            t.arr_eq(name, r.value, (), lambda: agg(t, n, lambda b: cnt(b) * t.abs(acc(b) - con(b))))
    contract("C10", [f"{MC}:{a}" for a in aliases], name=name)(check)


_ce("ECE", ["expected_calibration_error", "ece"], lambda t, n, f: t.sum(10, f) / n)
_ce("MCE", ["maximum_calibration_error", "mce"], lambda t, n, f: t.max(10, f))


@contract("C10", f"{MC}:brier_score")
def brier(t):
    from fortuna.metric.classification import brier_score
    n, c = t.dim("n"), t.dim("c", 2)
    y = t.j(t.ints("targets", (n,), 0, c))
    p = t.j(t.reals("probs", (n, c), 0, 1))
    r = t.call(brier_score, p, y)
    if t.no_exception("brier", r):
        t.arr_eq("multiclass Brier score", r.value, (), lambda: t.sum(n, lambda i: t.sum(
            c, lambda k: (t.at(p, i, k) - t.ite(t.at(y, i) == k, 1.0, 0.0)) ** 2)) / n)


@contract("C10", f"{MC}:brier_score")
def brier_binary(t):
    from fortuna.metric.classification import brier_score
    n = t.dim("n")
    y = t.j(t.ints("targets", (n,), 0, 2))
    p = t.j(t.reals("probs", (n,), 0, 1))
    r = t.call(brier_score, p, y)
    if t.no_exception("brier", r):
        t.arr_eq("binary Brier score", r.value, (), lambda: t.sum(n, lambda i: (t.at(p, i) - t.at(y, i)) ** 2) / n)
