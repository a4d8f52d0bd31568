"""Data loaders: batches of arrays, views, transformations, chopping, splitting and sampling."""
from vf.api import contract

UT = "fortuna.data.loader.utils:IterableData"
BA = "fortuna.data.loader.base:"
AR = "fortuna.data.loader.array_loaders:"


def batches(t, kind=None):
    """L batches of inputs and targets of any sizes -> L, rows(k), x(k), y(k), batch(k)"""
    L, d = t.dim("batches"), t.dim("features")
    rows = t.dims("rows", L)
    xs, ys = t.family("xs", L, lambda k: (rows(k), d)), t.family("ys", L, lambda k: (rows(k),))
    x, y = (lambda k: t.at(xs, k)), (lambda k: t.at(ys, k))
    return L, d, rows, x, y


def data_loader(t, cls, L, f):
    """a loader over the batches f(k), made from an iterable or from a callable"""
    s = t.seq("loader", L, f)
    return cls.from_iterable(s) if t.choice("made from", ["iterable", "callable"]) == "iterable" else cls.from_callable_iterable(lambda: s)


@contract("C14", [UT + ".from_iterable", UT + ".from_callable", UT + ".__iter__", BA + "BaseDataLoaderABC.size", BA + "BaseDataLoaderABC.__len__", BA + "BaseInputsLoader.size", BA + "BaseTargetsLoader.size",
                  BA + "BaseInputsLoader.__len__", BA + "BaseTargetsLoader.__len__", AR + "DataLoader.input_shape", BA + "BaseInputsLoader.input_shape"])
def sizes(t):
    from fortuna.data.loader import DataLoader, InputsLoader, TargetsLoader
    L, d, rows, x, y = batches(t)
    what = t.choice("loader", ["data", "data of dictionaries", "inputs", "inputs of dictionaries", "targets"])
    cls, f = {"data": (DataLoader, lambda k: (x(k), y(k))), "data of dictionaries": (DataLoader, lambda k: ({"a": x(k), "b": x(k)}, y(k))), "inputs": (InputsLoader, x),
              "inputs of dictionaries": (InputsLoader, lambda k: {"a": x(k), "b": x(k)}), "targets": (TargetsLoader, y)}[what]
    dl = data_loader(t, cls, L, f)
    again = t.choice("second pass", [False, True])
    if again:
        t.items(iter(dl))
    r = t.call(lambda: dl.size)
    if t.no_exception("size", r):
        t.eq("the number of data points", r.value, t.sum(L, rows))
    r = t.call(dl.__len__)
    if t.no_exception("len", r):
        t.eq("the number of batches", r.value, L)
    if what not in ("targets", "data of dictionaries"):
        r = t.call(lambda: dl.input_shape)
        if t.no_exception("input_shape", r):
            s = r.value
            if what == "inputs of dictionaries":
                t.ensure("one shape per entry", sorted(s) == ["a", "b"])
                s = s["b"]
            t.ensure("shape of one input", len(s) == 1)
            t.eq("size of one input", s[0], d)


@contract("C14", [UT + ".data_loader_to_inputs_iterable", UT + ".data_loader_to_targets_iterable", BA + "BaseInputsLoader.from_data_loader", BA + "BaseTargetsLoader.from_data_loader", AR + "DataLoader.to_inputs_loader", AR + "DataLoader.to_targets_loader",
                  AR + "DataLoader.to_array_data", AR + "DataLoader.to_array_inputs", AR + "DataLoader.to_array_targets", AR + "InputsLoader.to_array_inputs", AR + "TargetsLoader.to_array_targets"])
def views(t):
    from fortuna.data.loader import DataLoader, InputsLoader, TargetsLoader
    L, d, rows, x, y = batches(t)
    dl = data_loader(t, DataLoader, L, lambda k: (x(k), y(k)))
    what = t.choice("view", ["inputs", "targets", "inputs from", "targets from", "array inputs", "array targets", "array data", "inputs to array", "targets to array"])
    allx = lambda name, v: t.concat_eq(name, v, L, rows, (d,), lambda l, i, j: t.at(x(l), i, j))
    ally = lambda name, v: t.concat_eq(name, v, L, rows, (), lambda l, i: t.at(y(l), i))
    f = {"inputs": dl.to_inputs_loader, "targets": dl.to_targets_loader, "inputs from": lambda: InputsLoader.from_data_loader(dl), "targets from": lambda: TargetsLoader.from_data_loader(dl),
         "array inputs": dl.to_array_inputs, "array targets": dl.to_array_targets, "array data": dl.to_array_data,
         "inputs to array": lambda: dl.to_inputs_loader().to_array_inputs(), "targets to array": lambda: dl.to_targets_loader().to_array_targets()}[what]
    r = t.call(f)
    if not t.no_exception(what, r):
        return
    v = r.value
    if what in ("inputs", "targets", "inputs from", "targets from"):
        ins = what.startswith("inputs")
        t.ensure("kind of loader", isinstance(v, InputsLoader if ins else TargetsLoader))
        r = t.call(lambda: v.size)
        if t.no_exception("size", r):
            t.eq("number of data points", r.value, t.sum(L, rows))
        out = t.items(iter(v))
        t.eq("number of batches", t.len(out), L)
        if ins:
            t.each("batch", L, lambda k: t.arr_eq("the inputs of the batch", out[k], (rows(k), d), lambda i, j: t.at(x(k), i, j)))
        else:
            t.each("batch", L, lambda k: t.arr_eq("the targets of the batch", out[k], (rows(k),), lambda i: t.at(y(k), i)))
    elif what == "array data":
        allx("all inputs in order", v[0])
        ally("all targets in order", v[1])
    elif "inputs" in what:
        allx("all inputs in order", v)
    else:
        ally("all targets in order", v)


@contract("C14", [AR + "DataLoader.chop", AR + "InputsLoader.chop", AR + "TargetsLoader.chop"])
def chop(t):
    from fortuna.data.loader import DataLoader, InputsLoader, TargetsLoader
    L, d, rows, x, y = batches(t)
    what = t.choice("loader", ["data", "inputs", "targets"])
    cls, f = {"data": (DataLoader, lambda k: (x(k), y(k))), "inputs": (InputsLoader, x), "targets": (TargetsLoader, y)}[what]
    q = t.int("divisor", 1, 6)
    r = t.call(lambda: t.items(iter(data_loader(t, cls, L, f).chop(q))))
    if not t.no_exception("chop", r):
        return
    keep = lambda k: rows(k) - t.mod(rows(k), q)

    def check(k, b):
        if what != "targets":
            t.arr_eq("the first inputs of the batch", b[0] if what == "data" else b, (keep(k), d), lambda i, j: t.at(x(k), i, j))
        if what != "inputs":
            t.arr_eq("the first targets of the batch", b[1] if what == "data" else b, (keep(k),), lambda i: t.at(y(k), i))
    t.filter_eq("batches with at least `divisor` data points", r.value, L, lambda k: rows(k) >= q, check)


@contract("C14", [UT + ".transform_data_loader", UT + ".transform_inputs_or_targets_loader", BA + "BaseDataLoaderABC.to_transformed_data_loader", BA + "BaseInputsLoader.to_transformed_inputs_loader", BA + "BaseTargetsLoader.to_transformed_targets_loader"])
def transformed(t):
    from fortuna.data.loader import DataLoader, InputsLoader, TargetsLoader
    L, d, rows, x, y = batches(t)
    what = t.choice("loader", ["data", "inputs", "targets"])
    drop = t.choice("transform", ["all", "some"])
    small = lambda a: a.shape[0] < 2
    status = {"fixed": 3.0}
    f, g = t.fun1("f"), t.fun1("g")

    def both(a, b, s):
        if drop == "some" and small(b):
            return None, None, s
        return f(a) * s["fixed"], g(b), s

    def one(a, s):
        if drop == "some" and small(a):
            return None, s
        return f(a) * s["fixed"], s
    if what == "data":
        dl = data_loader(t, DataLoader, L, lambda k: (t.j(x(k)), t.j(y(k)))).to_transformed_data_loader(both, status)
    elif what == "inputs":
        dl = data_loader(t, InputsLoader, L, lambda k: t.j(x(k))).to_transformed_inputs_loader(one, status)
    else:
        dl = data_loader(t, TargetsLoader, L, lambda k: t.j(y(k))).to_transformed_targets_loader(one, status)
    t.ensure("kind of loader", isinstance(dl, {"data": DataLoader, "inputs": InputsLoader, "targets": TargetsLoader}[what]))
    r = t.call(lambda: t.items(iter(dl)))
    if not t.no_exception("transformed loader", r):
        return
    t.ensure("the given status is not changed", status == {"fixed": 3.0})

    def check(k, b):
        if what != "targets":
            t.arr_eq("transformed inputs", b[0] if what == "data" else b, (rows(k), d), lambda i, j: t.at(f(t.j(x(k))), i, j) * 3.0)
        if what == "data":
            t.arr_eq("transformed targets", b[1], (rows(k),), lambda i: t.at(g(t.j(y(k))), i))
        elif what == "targets":
            t.arr_eq("transformed targets", b, (rows(k),), lambda i: t.at(f(t.j(y(k))), i) * 3.0)
    t.filter_eq("batches the transformation keeps", r.value, L, lambda k: t.or_(drop == "all", rows(k) >= 2), check)


@contract("C14", [UT + ".transform_data_loader", UT + ".transform_inputs_or_targets_loader"], bounded="at most 20 data points in batches of at most 8, a running count as status", rac=80)
def stateful(t):
    """a transformation that changes its status in place: every pass starts from the given status"""
    import numpy as np
    what, n, bs, f, data, k = make(t)
    status = {"seen": 0, "log": []}
    skip = t.choice("skip batches shorter than", [0, 2])
    grow = t.choice("grow targets", [False, True]) and what == "data"

    def go(a, s):
        s["seen"] += len(a)
        s["log"].append(len(a))
        return a + s["seen"] + len(s["log"]), s

    def both(a, b, s):
        a, s = go(a, s)
        if len(b) < skip:
            return None, None, s
        return a, (np.concatenate([b, b]) if grow else b), s

    def one(a, s):
        a, s = go(a, s)
        return (None if len(a) < skip else a), s
    dl = f(data, bs)
    tr = {"data": lambda: dl.to_transformed_data_loader(both, status), "inputs": lambda: dl.to_transformed_inputs_loader(one, status), "targets": lambda: dl.to_transformed_targets_loader(one, status)}[what]
    blocks = [data[i:i + bs] for i in range(0, n, bs)] if what != "data" else [(data[0][i:i + bs], data[1][i:i + bs]) for i in range(0, n, bs)]
    want, seen = [], 0
    for i, b in enumerate(blocks):
        a = b[0] if what == "data" else b
        seen += len(a)
        if len(a) >= skip:
            want.append((a + seen + i + 1, b[1]) if what == "data" else a + seen + i + 1)
    r = t.call(lambda: listed(what, tr()))
    if not t.raises_iff("inputs and targets of different lengths", r, ValueError, grow and len(want) > 0):
        return
    t.ensure("every batch sees the status left by the previous one", r.value == listed(what, want))
    t.ensure("the given status is not changed", status == {"seen": 0, "log": []})
    l = tr()
    t.ensure("every pass starts afresh", listed(what, l) == r.value and listed(what, l) == r.value and status == {"seen": 0, "log": []})


@contract("C14", [UT + ".from_array_data", UT + ".from_batch_array_data", AR + "DataLoader.from_array_data", AR + "InputsLoader.from_array_inputs", AR + "TargetsLoader.from_array_targets"])
def array_batches(t):
    from fortuna.data.loader import DataLoader, InputsLoader, TargetsLoader
    n, d = t.dim("n"), t.dim("features")
    x, y = t.reals("inputs", (n, d)), t.reals("targets", (n,))
    bs = t.int("batch_size", 1, 8) if t.choice("batched", [0, 1]) else None
    sh = t.choice("shuffle", [False, True])
    what = t.choice("loader", ["data", "inputs", "targets"])
    f, data = {"data": (DataLoader.from_array_data, (x, y)), "inputs": (InputsLoader.from_array_inputs, x), "targets": (TargetsLoader.from_array_targets, y)}[what]
    snap = t.snapshot(x, y)
    dl = t.call(f, data, bs, sh)
    if not t.no_exception("constructor", dl):
        return
    r = t.call(lambda: t.items(iter(dl.value)))
    if not t.no_exception("batches", r):
        return
    t.unchanged("the arrays", snap)
    out = r.value
    perm = t.np_choice(0, n) if sh and bs is not None else None
    src = (lambda i: t.at(perm, i)) if perm is not None else (lambda i: i)
    size = n if bs is None else bs
    nb = 1 if bs is None else t.fdiv(n - 1, bs) + 1
    t.eq("number of batches", t.len(out), nb)

    def check(k):
        b = out[k]
        rows = t.min2(size, n - k * size)
        if what != "targets":
            t.arr_eq("inputs", b[0] if what == "data" else b, (rows, d), lambda i, j: t.at(x, src(k * size + i), j))
        if what != "inputs":
            t.arr_eq("targets", b[1] if what == "data" else b, (rows,), lambda i: t.at(y, src(k * size + i)))
    t.each("batch", t.len(out), check)


def make(t, prefetch=None):
    """a loader of one of the three kinds over n rows in batches -> kind, loader, rows of inputs, rows of targets"""
    import numpy as np
    from fortuna.data.loader import DataLoader, InputsLoader, TargetsLoader
    n, bs = int(t.int("n", 1, 20)), int(t.int("batch_size", 1, 8))
    x, y = np.arange(2.0 * n).reshape(n, 2), np.arange(n) % 4
    what = t.choice("loader", ["data", "inputs", "targets"])
    k = {} if prefetch is None else dict(prefetch=prefetch, shuffle=t.choice("shuffle", [False, True]))
    f, data = {"data": (DataLoader.from_array_data, (x, y)), "inputs": (InputsLoader.from_array_inputs, x), "targets": (TargetsLoader.from_array_targets, np.arange(n))}[what]
    return what, n, bs, f, data, k


def listed(what, batches):
    """the rows of the batches, as comparable lists"""
    if what == "data":
        return [(a.tolist(), b.tolist()) for a, b in batches]
    return [a.tolist() for a in batches]


def points(what, batches):
    if what == "data":
        return [(a.tolist(), int(b)) for x, y in batches for a, b in zip(x, y)]
    return [a.tolist() for x in batches for a in x]


@contract("C14", ["fortuna.data.loader.utils:PrefetchedGenerator"], bounded="at most 20 data points in batches of at most 8", rac=60)
def prefetching(t):
    what, n, bs, f, data, k = make(t, True)
    r = t.call(lambda: listed(what, f(data, bs, **k)))
    want = listed(what, f(data, bs, shuffle=k["shuffle"]))
    if t.no_exception("prefetched loader", r):
        t.ensure("prefetching does not change the batches", r.value == want)
        dl = f(data, bs, **k)
        t.ensure("nor does a second pass", listed(what, dl) == want and listed(what, dl) == want)


@contract("C14", [AR + "DataLoader.split", AR + "InputsLoader.split", AR + "TargetsLoader.split"], bounded="at most 20 data points in batches of at most 8", rac=80)
def splitting(t):
    what, n, bs, f, data, k = make(t)
    dl = f(data, bs)
    m = int(t.int("n_data", 0, 24))
    r = t.call(dl.split, m)
    if not t.no_exception("split", r):
        return
    a, b = r.value
    t.ensure("loaders of the same kind", type(a) is type(dl) and type(b) is type(dl))
    p, q, everything = points(what, a), points(what, b), points(what, dl)
    t.ensure("the first n_data points", p == everything[:m])
    t.ensure("and the others", q == everything[m:])
    t.ensure("no empty batches", all(len(x[0] if what == "data" else x) > 0 for l in (a, b) for x in l) or m == 0)
    t.ensure("repeatable", points(what, a) == p and points(what, b) == q)


@contract("C14", [AR + "DataLoader.sample", AR + "InputsLoader.sample", AR + "TargetsLoader.sample"], bounded="at most 20 data points in batches of at most 8, at most 50 samples", rac=60)
def sampling(t):
    what, n, bs, f, data, k = make(t)
    dl = f(data, bs)
    m, seed = int(t.int("n_samples", 0, 50)), int(t.int("seed", 0, 1000))
    r = t.call(lambda: listed(what, dl.sample(seed, m)))
    if not t.no_exception("sample", r):
        return
    s = points(what, dl.sample(seed, m))
    everything = points(what, dl)
    t.eq("number of samples", len(s), m)
    t.ensure("every sample is a data point", all(e in everything for e in s))
    t.ensure("the same seed gives the same samples", points(what, dl.sample(seed, m)) == s)


@contract("C14", [UT + ".inputs_loaders_to_batch_iterable", BA + "BaseDataLoaderABC.from_inputs_loaders", AR + "DataLoader.num_unique_labels", BA + "ConcatenatedLoader"], bounded="at most 3 inputs loaders of at most 20 points", rac=60)
def combined(t):
    import numpy as np
    from fortuna.data.loader import DataLoader, InputsLoader
    from fortuna.data.loader.base import ConcatenatedLoader
    q = int(t.int("loaders", 1, 3))
    how = t.choice("how", ["interpose", "concatenate", "other"])
    ns = [int(t.int(f"n{i}", 1, 20)) for i in range(q)]
    bs = [int(t.int(f"batch{i}", 1, 8)) for i in range(q)]
    xs = [100 * i + np.arange(2.0 * n).reshape(n, 2) for i, n in enumerate(ns)]
    loaders = [InputsLoader.from_array_inputs(x, b) for x, b in zip(xs, bs)]
    labels = [3 * i + 1 for i in range(q)]
    r = t.call(lambda: DataLoader.from_inputs_loaders(loaders, labels, how))
    if not t.raises_iff("unknown way of combining", r, ValueError, how == "other"):
        return
    dl = r.value
    blocks = [[x[i:i + b] for i in range(0, len(x), b)] for x, b in zip(xs, bs)]
    if how == "concatenate":
        want = [(blk, [lab] * len(blk)) for bl, lab in zip(blocks, labels) for blk in bl]
    else:
        want = []
        for k in range(max(map(len, blocks))):
            parts = [(bl[k], lab) for bl, lab in zip(blocks, labels) if k < len(bl)]
            want.append((np.concatenate([p for p, _ in parts]), [lab for p, lab in parts for _ in p]))
    want = [(np.asarray(a).tolist(), list(b)) for a, b in want]
    t.ensure("batches with the label of their loader", listed("data", dl) == want and listed("data", dl) == want)
    t.eq("number of labels", dl.num_unique_labels, q)
    t.ensure("concatenated loaders", listed("inputs", ConcatenatedLoader(loaders)) == [b.tolist() for bl in blocks for b in bl])
