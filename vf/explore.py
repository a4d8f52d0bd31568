"""Path exploration by deterministic re-execution, and obligation bookkeeping."""
from __future__ import annotations
import time
import traceback
import sys
import z3
from . import core
from .api import missing_name
from .core import C, KillPath, Unsupported, Modelled


class Obligation:
    __slots__ = ("name", "pc", "goal", "path", "status", "detail", "time", "solver", "model", "inputs", "dims", "inv", "pos", "top")

    def __init__(self, name, pc, goal, path):
        self.name, self.pc, self.goal, self.path = name, list(pc), goal, path
        self.status, self.detail, self.time, self.solver, self.model = None, "", 0.0, "", None


FEAS_TIMEOUT = 1500


def _feasible(cond):
    """Quick check whether pc & cond may be satisfiable (unknown counts as feasible)."""
    from .solve import feasible
    return feasible(C.pc, cond, FEAS_TIMEOUT)


def brancher(cond):
    pos = len(C.decisions)
    if pos < len(C.prefix):
        d = C.prefix[pos]
        C.decisions.append(d)
        C.pc.append(cond if d else z3.Not(cond))
        return d
    t = _feasible(cond)
    f = _feasible(z3.Not(cond))
    if not t and not f:
        raise KillPath()
    if t and f:
        if C.generic:
            raise Unsupported("data-dependent branch while evaluating a generic element")
        C.worklist.append(C.decisions + [False])
        C.decisions.append(True)
        C.pc.append(cond)
        return True
    C.decisions.append(t)          # forced: entailed by the path condition, no assumption needed
    return t


core._brancher = brancher


def fork_n(n):
    """Non-deterministic choice among n alternatives."""
    pos = len(C.decisions)
    if pos < len(C.prefix):
        d = C.prefix[pos]
    else:
        d = 0
        for k in range(1, n):
            C.worklist.append(C.decisions + [k])
    C.decisions.append(d)
    return d


def obligation(name, goal):
    if not z3.is_expr(goal):
        goal = z3.BoolVal(bool(goal))
    ob = Obligation(name, C.pc, goal, list(C.decisions))
    ob.inputs = dict(getattr(C, "inputs", {}))
    ob.dims = set(getattr(C, "dim_names", ()))
    ob.inv = C.elem_inv                      # facts about the inputs of this path
    ob.top = C.elem_top
    ob.pos = (C.pos_dims, C.pos_funs)
    C.obligations.append(ob)


class PathReport:
    def __init__(self):
        self.paths = 0
        self.killed = 0
        self.unsupported = []
        self.errors = []
        self.obligations = []
        self.functions = set()


def explore(run, max_paths=400, time_budget=240):
    """run(): executes the contract harness once for the current decision prefix."""
    C.reset_run()
    rep = PathReport()
    C.worklist = [[]]
    t0 = time.time()
    while C.worklist:
        prefix = C.worklist.pop()
        C.reset_path(prefix)
        rep.paths += 1
        if rep.paths > max_paths or time.time() - t0 > time_budget:
            rep.unsupported.append(f"path exploration limit reached ({rep.paths} paths)")
            break
        start = len(C.obligations)
        try:
            run()
        except KillPath:
            rep.killed += 1
        except Unsupported as e:
            rep.unsupported.append(f"{e} [{where(e)}]")
            if len(rep.unsupported) > 5:
                break
        except RecursionError as e:
            rep.unsupported.append(f"recursion limit [{where(e)}]")
        except Exception as e:
            if missing_name(e):
                rep.unsupported.append(f"no longer in the code: {e}")
                continue
            rep.errors.append("".join(traceback.format_exception(e))[-3000:])
            break
    rep.obligations = C.obligations
    return rep


def where(e):
    tb = e.__traceback__
    out = ""
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/fortuna/" in fn:
            out = f"{fn.split('/fortuna/', 1)[1]}:{tb.tb_lineno} in {tb.tb_frame.f_code.co_name}"
        tb = tb.tb_next
    return out or "harness"
