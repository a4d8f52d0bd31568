"""Runs the symbolic reading of the contracts of one property; prints a JSON report."""
from __future__ import annotations
import importlib
import json
import os
import sys
import time
import traceback
import z3
from . import core, explore, loops, shim, loader, solve, api
from .core import C


def load_contracts(prop):
    import pkgutil
    import contracts
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        if m.lower().startswith(prop.lower() + "_") or m.lower() == prop.lower():
            importlib.import_module("contracts." + m)
    return api.REGISTRY.get(prop, [])


def prove_contract(c, budget=200):
    from .sym import Sym
    t0 = time.time()
    holder = {}

    def run():
        C.invariants = {}
        C.inputs = {}
        C.iter_end_hooks = []
        C.active_verification = False
        t = Sym()
        holder["t"] = t
        try:
            c.fn(t)
        finally:
            for u in reversed(t.undo):
                u()
            C.active_verification = False
    loops.SUMMARIES.clear()
    loops.BREAKS.clear()
    loops.PROMOTE.clear()
    rep = explore.explore(run, max_paths=c.max_paths, time_budget=budget)
    obs, bad, lost = [], 0, 0.0
    for ob in rep.obligations:
        if time.time() - t0 > budget + 120:
            ob.status, ob.detail = "unknown", "time budget of the contract exhausted"
        elif bad >= 8 or lost > 90:
            ob.status, ob.detail = "unknown", "not attempted: several obligations of this contract failed already"
        else:
            t1 = time.time()
            solve.prove(ob, c.hints, c.timeout)
            if ob.status != "proved":
                bad, lost = bad + 1, lost + time.time() - t1
        obs.append(ob)
    return rep, obs, time.time() - t0


def report(c):
    if c.bounded:       # a labelled bounded stand-in: only its concrete reading is run
        return {"name": c.name, "targets": c.targets, "paths": 0, "killed": 0, "bounded": c.bounded, "unsupported": ["bounded check: " + c.bounded],
                "errors": [], "seconds": 0, "obligations": []}
    try:
        rep, obs, dt = prove_contract(c, c.budget)
        return {"name": c.name, "targets": c.targets, "paths": rep.paths, "killed": rep.killed, "bounded": c.bounded,
                "unsupported": rep.unsupported, "errors": rep.errors, "seconds": round(dt, 2),
                "obligations": [{"name": o.name, "status": o.status, "solver": o.solver, "seconds": round(o.time, 3),
                                 "detail": o.detail, "model": o.model, "path": o.path} for o in obs]}
    except core.Unsupported as e:
        uns, err = [str(e)], []
    except Exception as e:
        uns, err = [], [traceback.format_exc()[-3000:]]
    return {"name": c.name, "targets": c.targets, "paths": 0, "killed": 0, "bounded": c.bounded,
            "unsupported": uns, "errors": err, "seconds": 0, "obligations": []}


def main():
    """prove PROP [--json FILE --contract NAME | SUBSTRING]"""
    a = sys.argv[1:]
    prop = a[0]
    js = a[a.index("--json") + 1] if "--json" in a else None
    exact = a[a.index("--contract") + 1] if "--contract" in a else None
    only = a[1] if len(a) > 1 and not a[1].startswith("--") else None
    loader.install()
    if "--list" in a:
        print(json.dumps([{"name": c.name, "targets": c.targets, "bounded": c.bounded, "known": c.known, "budget": c.budget, "rac": c.rac}
                          for c in load_contracts(prop)]))
        return
    sys.setrecursionlimit(20000)
    out = {"property": prop, "contracts": []}
    for c in load_contracts(prop):
        if exact and c.name != exact or only and only not in c.name:
            continue
        out["contracts"].append(report(c))
    out["sources"] = loader.SOURCES
    out["solver"] = solve.STATS
    if js:
        json.dump(out, open(js, "w"))
        return
    for c in out["contracts"]:
        st = {}
        for o in c["obligations"]:
            st[o["status"]] = st.get(o["status"], 0) + 1
        print(f"{c['name']:30s} paths={c['paths']} killed={c['killed']} {st} {c['seconds']}s", "BOUNDED" if c["bounded"] else "")
        for u in c["unsupported"][:4]:
            print("    unsupported:", u)
        for u in c["errors"][:2]:
            print("    error:", u)
        shown = 0
        for o in c["obligations"]:
            if o["status"] != "proved":
                shown += 1
            if o["status"] != "proved" and shown <= int(os.environ.get("VF_SHOW", "3")) or o["seconds"] > 5:
                print("    ", o["status"], o["name"], f"{o['seconds']}s", o["detail"][:200], json.dumps(o["model"])[:250] if o["model"] else "")


if __name__ == "__main__":
    main()
