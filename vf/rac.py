"""Concrete reading of the contracts: run under /opt/venv against the real code and real libraries.

rac.py PROP --json OUT --seed S --runs N [--contracts a,b] [--seconds T] [--replay FILE]
"""
from __future__ import annotations
import importlib
import json
import os
import pkgutil
import sys
import time
import traceback


def main():
    a = sys.argv[1:]
    opt = {a[k][2:]: a[k + 1] for k in range(1, len(a) - 1) if a[k].startswith("--")}
    prop = a[0]
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ.setdefault("XLA_FLAGS", "--xla_force_host_platform_device_count=2")
    sys.dont_write_bytecode = True
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, repo)
    import jax
    jax.config.update("jax_enable_x64", True)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    import contracts
    from vf import api
    from vf.conc import Conc, Reject, Violation
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        if m.lower().startswith(prop.lower() + "_") or m.lower() == prop.lower():
            importlib.import_module("contracts." + m)
    only = set(opt["contracts"].split(",")) if "contracts" in opt else None
    seed = int(opt.get("seed", "1"))
    mult = float(opt.get("mult", "1"))
    limit = float(opt.get("seconds", "60"))
    replays = json.load(open(opt["replay"])) if "replay" in opt else {}
    out = {}

    def once(c, s, replay=None, size=0):
        t = Conc(s, replay=replay, size=size)
        try:
            c.fn(t)
            return ("ok", t, None, None)
        except Reject:
            return ("reject", t, None, None)
        except Violation as e:
            return ("violation", t, e.name, e.detail)
        except Exception as e:
            if api.missing_name(e):
                return ("missing", t, str(e), "")
            return ("violation", t, "the result has the documented form", traceback.format_exc()[-1500:])
        finally:
            for u in reversed(t.undo):
                u()

    for c in api.REGISTRY.get(prop, []):
        if only is not None and c.name not in only:
            continue
        r = out[c.name] = {"accepted": 0, "rejected": 0, "ensured": 0, "violations": [], "missing": None}
        t0 = time.time()
        todo = [(0, m, 0) for m in replays.get(c.name, [])]
        n = max(1, int(c.rac * mult))
        todo += [(seed * 100003 + k, None, 1 if k % 5 == 4 else 0) for k in range(n)]
        for s, m, size in todo:
            if time.time() - t0 > limit:
                break
            st, t, nm, det = once(c, s, m, size)
            if st == "ok":
                r["accepted"] += 1
                r["ensured"] += t.ensured
            elif st == "reject":
                r["rejected"] += 1
            elif st == "missing":
                r["missing"] = nm
                break
            else:
                # must reproduce before it counts
                st2, t2, nm2, det2 = once(c, s, m, size)
                if st2 == "violation":
                    r["accepted"] += 1
                    r["violations"].append({"name": nm, "detail": det, "inputs": t.inputs, "seed": s, "size": size,
                                            "replayed": m is not None})
                    break
        r["seconds"] = round(time.time() - t0, 2)
    s = json.dumps(out, default=str)
    if "json" in opt:
        open(opt["json"], "w").write(s)
    else:
        for k, v in out.items():
            print(k, {x: y for x, y in v.items() if x != "violations"})
            for w in v["violations"]:
                print("   VIOLATED", w["name"], w["detail"], str(w["inputs"])[:600])


if __name__ == "__main__":
    main()
