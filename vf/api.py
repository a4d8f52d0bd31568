"""The contract language: one text, two readings.

A contract is a function of one handle `t`.  It declares the inputs (with their precondition),
runs the real function, and states the postcondition.  With the symbolic handle (`Sym`) this
generates proof obligations for all inputs; with the concrete handle (`Conc`, in `conc.py`) the very same
text runs the real code of /repo on concrete inputs - used to replay countermodels, to search for a
failing input after a failed obligation, and to confirm on every run that preconditions are satisfiable
and that the assumed library contracts agree with the real libraries.
"""
from __future__ import annotations

REGISTRY = {}      # property id -> list of Contract


class Contract:
    def __init__(self, prop, name, fn, targets, hints, timeout, rac, max_paths, bounded, known, budget):
        self.known, self.budget = known, budget
        self.prop, self.name, self.fn = prop, name, fn
        self.targets, self.hints, self.timeout = targets, hints, timeout
        self.rac, self.max_paths, self.bounded = rac, max_paths, bounded


def contract(prop, targets, hints=(), timeout=20, rac=30, max_paths=300, bounded=None, name=None, known=None, budget=240):
    """rac: number of concrete runs in the quick tier; bounded: text of the bound when the contract is a
    bounded stand-in (never counted as proved)."""
    if isinstance(targets, str):
        targets = [targets]

    def deco(f):
        REGISTRY.setdefault(prop, []).append(
            Contract(prop, name or f.__name__, f, targets, tuple(hints), timeout, rac, max_paths, bounded, known, budget))
        return f
    return deco


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)


class MissingName(Exception):
    """A contract mentions an internal function or parameter that the code no longer has."""


def missing_name(e):
    """Is e the failure of a contract to find a name of the code (not a failure of the code)?"""
    if isinstance(e, MissingName):
        return True
    if not isinstance(e, (ImportError, AttributeError)):
        return False
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    if "/contracts/" not in tb.tb_frame.f_code.co_filename:
        return False
    return isinstance(e, ImportError) or str(getattr(e, "name", "") or "").startswith("_")


class Bound(dict):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return self[n]

    def __missing__(self, n):
        raise MissingName(n)


class Callee:
    def __init__(self):
        self.calls = []          # (Bound arguments, result)

    def __bool__(self):
        return bool(self.calls)


def install_callee(t, path, handler):
    import functools
    import importlib
    import inspect
    mod, _, qual = path.partition(":")
    parts = qual.split(".")
    name = parts[-1]
    try:
        obj = importlib.import_module(mod)
        for p in parts[:-1]:
            obj = getattr(obj, p)
        getattr(obj, name)
    except (ImportError, AttributeError):
        return Callee()          # no such function any more: whatever replaced it is executed itself
    had = name in vars(obj)
    old = vars(obj).get(name)
    real = old if had else getattr(obj, name)
    static = isinstance(real, (staticmethod, classmethod))
    f = real.__func__ if static else real
    sig = inspect.signature(f)
    h = Callee()

    @functools.wraps(f)
    def wrapper(*a, **k):
        ba = sig.bind(*a, **k)
        ba.apply_defaults()
        b = Bound(ba.arguments)
        r = handler(f, b, a, k)
        h.calls.append((b, r))
        return r
    setattr(obj, name, type(real)(wrapper) if static else wrapper)

    def undo():
        if had:
            setattr(obj, name, old)
        else:
            delattr(obj, name)
    t.undo.append(undo)
    # names bound by `from module import f` before this point
    import sys
    if inspect.ismodule(obj):
        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").startswith("fortuna") and m is not obj and vars(m).get(name) is real:
                setattr(m, name, wrapper)
                t.undo.append(lambda m=m: setattr(m, name, real))
    return h
