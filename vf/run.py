"""Decides one property: proof of every contract from /repo's current source, plus the concrete reading.

usage: python3-vt -m vf.run PROP [--tier quick|thorough]
Exit 0: every obligation discharged (or, where the verifier cannot interpret a construct, the labelled
bounded check found nothing); exit 1 with a VIOLATION line otherwise.
"""
from __future__ import annotations
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROVER = os.environ.get("VF_PROVER", "/opt/veriftools/pyvenv/bin/python")
REAL = os.environ.get("VF_REAL", "/opt/venv/bin/python")
REPO = os.environ.get("VERIF_REPO", "/repo")


def env(real=False):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_PLATFORMS="cpu", CUDA_VISIBLE_DEVICES="", TF_CPP_MIN_LOG_LEVEL="3",
             MPLBACKEND="Agg", HF_HUB_OFFLINE="1", TRANSFORMERS_OFFLINE="1", HF_DATASETS_OFFLINE="1", PYTHONPATH=HERE,
             AWS_DEFAULT_REGION="us-east-1", AWS_EC2_METADATA_DISABLED="true", VERIF_REPO=REPO,
             XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", PYTHONNOUSERSITE="1")
    return e


def run(cmd, timeout):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=HERE, env=env(), capture_output=True, text=True, timeout=timeout, start_new_session=True)
        return p.returncode, p.stdout, p.stderr, time.time() - t0
    except subprocess.TimeoutExpired:
        return None, "", "time limit", time.time() - t0


def names(prop):
    rc, out, err, _ = run([PROVER, "-m", "vf.prove", prop, "--list"], 120)
    if rc != 0:
        raise RuntimeError(err[-2000:])
    return json.loads(out)


def prove_one(prop, c, tmp):
    f = os.path.join(tmp, "p_" + hashlib.md5(c["name"].encode()).hexdigest() + ".json")
    rc, out, err, dt = run([PROVER, "-m", "vf.prove", prop, "--json", f, "--contract", c["name"]], c["budget"] + 180)
    base = {"name": c["name"], "targets": c["targets"], "bounded": c["bounded"], "paths": 0, "killed": 0, "unsupported": [], "errors": [],
            "obligations": [], "seconds": dt, "sources": {}, "solver": {}}
    try:
        r = json.load(open(f))
        d = r["contracts"][0]
        d["sources"], d["solver"] = r["sources"], r["solver"]
        return d
    except Exception:
        base["unsupported"].append("the verifier did not finish: " + (err.strip().splitlines()[-1] if err.strip() else "no output")[:300])
        return base


def rac(prop, cs, tmp, tag, seed, mult, seconds, replays=None):
    f = os.path.join(tmp, f"r_{tag}.json")
    cmd = [REAL, "-m", "vf.rac", prop, "--json", f, "--seed", str(seed), "--mult", str(mult), "--seconds", str(seconds),
           "--contracts", ",".join(c["name"] for c in cs)]
    if replays:
        rf = os.path.join(tmp, f"m_{tag}.json")
        json.dump(replays, open(rf, "w"))
        cmd += ["--replay", rf]
    rc, out, err, dt = run(cmd, seconds * len(cs) + 200)
    try:
        return json.load(open(f))
    except Exception:
        return {c["name"]: {"accepted": 0, "rejected": 0, "ensured": 0, "violations": [], "missing": None,
                            "error": (err or "").strip()[-1500:]} for c in cs}


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    mult = 8 if thorough else 1
    rsec = 240 if thorough else 45
    deadline = t0 + (3000 if thorough else 780)
    tmp = tempfile.mkdtemp(prefix="vf_")
    try:
        return decide(prop, tier, seed, mult, rsec, tmp, t0, deadline)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, mult, rsec, tmp, t0, deadline):
    thorough = tier == "thorough"
    cs = names(prop)
    nw = min(8, os.cpu_count() or 4)
    groups = [cs[k::3] for k in range(3) if cs[k::3]]
    with cf.ThreadPoolExecutor(nw) as ex:
        fr = [ex.submit(rac, prop, g, tmp, f"a{k}", seed, mult, rsec) for k, g in enumerate(groups)]
        fp = [ex.submit(prove_one, prop, c, tmp) for c in sorted(cs, key=lambda c: -c["budget"])]
        proofs = {d["name"]: d for d in (f.result() for f in fp)}
        conc = {}
        for f in fr:
            conc.update(f.result())
    by = {c["name"]: c for c in cs}
    undecided, failed = [], []
    for n, d in proofs.items():
        d["bad"] = [o for o in d["obligations"] if o["status"] != "proved"]
        if d["bad"] or d["errors"]:
            failed.append(n)
        elif d["unsupported"]:
            undecided.append(n)
        elif not d["obligations"]:
            d["errors"].append("no obligation was generated (vacuous)")
            failed.append(n)
    # second stage: search a failing input for everything not discharged
    again = [n for n in failed + undecided if not conc.get(n, {}).get("violations") and not by[n]["known"]]
    if again:
        rep = {n: [o["model"] for o in proofs[n]["bad"] if o.get("model")][:12] for n in again}
        left = max(60.0, deadline - time.time() - 60)
        per = min(150.0, left / max(1, (len(again) + 5) // 6) - 15)
        with cf.ThreadPoolExecutor(6) as ex:
            fs = [ex.submit(rac, prop, [by[n]], tmp, f"b{k}", seed + 1 + k, 40 * mult, max(20.0, min(per, 60.0) if by[n]["bounded"] and not thorough else per), rep) for k, n in enumerate(again)]
            for f in fs:
                for n, r in f.result().items():
                    old = conc.get(n, {"accepted": 0, "rejected": 0, "ensured": 0})
                    for k in ("accepted", "rejected", "ensured"):
                        r[k] = r.get(k, 0) + old.get(k, 0)
                    conc[n] = r
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    viol, lines, known = [], [], []

    def replay_file(n, content):
        f = os.path.join(rdir, f"{prop}-{n}.json")
        content.update(property=prop, contract=n, targets=by[n]["targets"],
                       how_to_replay=f"cd /verif && PYTHONPATH=/verif {REAL} -m vf.rac {prop} --contracts {n} --mult 0.01 --replay <this file's 'replay' object saved as json>")
        json.dump(content, open(f, "w"), indent=1, default=str)
        return f
    for c in cs:
        n = c["name"]
        d, r = proofs[n], conc.get(n, {})
        ob = [{"obligation": o["name"], "status": o["status"], "verifier_output": o["detail"], "countermodel": o["model"]} for o in d.get("bad", [])]
        if r.get("violations"):
            v = r["violations"][0]
            if c["known"]:
                known.append((c["known"], n, v["name"]))
                continue
            f = replay_file(n, {"failed_property": v["name"], "observed": v["detail"], "inputs": v["inputs"], "replay": {n: [v["inputs"]]},
                                "seed": v["seed"], "failed_obligations": ob, "errors": d["errors"]})
            lines.append(f"VIOLATION property={prop} replay={f}")
            viol.append({"contract": n, "postcondition": v["name"], "replay": f})
        elif n in failed and not c["known"]:
            f = replay_file(n, {"failed_obligations": ob, "errors": d["errors"], "note": "no failing input found",
                                "concrete_runs": r.get("accepted", 0)})
            lines.append(f"VIOLATION property={prop} replay={f} no-failing-input-found")
            viol.append({"contract": n, "postcondition": (ob[0]["obligation"] if ob else d["errors"][:1]), "replay": f})
    for k, n, v in known:
        print(f"KNOWN-FINDING: property={prop} {k}: {n}: {v}")
    # concrete violations first
    lines.sort(key=lambda s: s.endswith("no-failing-input-found"))
    write_evidence(prop, tier, seed, cs, proofs, conc, failed, undecided, viol, t0)
    tot = sum(len(d["obligations"]) for d in proofs.values())
    ok = sum(1 for d in proofs.values() for o in d["obligations"] if o["status"] == "proved")
    print(f"{prop}: {len(cs)} contracts, {ok}/{tot} obligations discharged, {sum(r.get('accepted', 0) for r in conc.values())} concrete runs, {time.time() - t0:.0f}s")
    for n in undecided:
        print(f"  outside the verifier's reach, bounded check only: {n}: {proofs[n]['unsupported'][0][:200]} ({conc.get(n, {}).get('accepted', 0)} concrete runs)")
    for n in failed:
        d = proofs[n]
        print(f"  not discharged: {n}: " + "; ".join(sorted({f"{o['name']} ({o['status']})" for o in d["bad"]})[:4]) + " ".join(e.strip().splitlines()[-1] for e in d["errors"][:1]))
    for l in lines[:5]:
        print(l)
    return 1 if lines else 0


def write_evidence(prop, tier, seed, cs, proofs, conc, failed, undecided, viol, t0):
    obs, solver, secs, src = [], {}, 0.0, {}
    funcs = {}
    for c in cs:
        d = proofs[c["name"]]
        bounded = bool(c["bounded"]) or bool(d["unsupported"])
        for tg in c["targets"]:
            funcs.setdefault(tg, []).append(c["name"] + (" (bounded)" if bounded else ""))
        src.update(d.get("sources", {}))
        for o in d["obligations"]:
            secs += o["seconds"]
            if o["status"] == "proved":
                solver[o["solver"]] = solver.get(o["solver"], 0) + 1
    per = []
    for c in cs:
        d = proofs[c["name"]]
        r = conc.get(c["name"], {})
        per.append({"contract": c["name"], "functions": c["targets"], "paths": d["paths"], "obligations": len(d["obligations"]),
                    "discharged": sum(1 for o in d["obligations"] if o["status"] == "proved"), "seconds": d["seconds"],
                    "status": "bounded" if (c["bounded"] or (c["name"] in undecided)) else ("not discharged" if c["name"] in failed else "proved"),
                    "bound": c["bounded"], "outside_reach": d["unsupported"][:2], "concrete_runs": r.get("accepted", 0),
                    "concrete_runs_outside_precondition": r.get("rejected", 0), "note": r.get("missing") or r.get("error")})
    from .trusted import TRUSTED, ASSUMPTIONS
    total = sum(len(d["obligations"]) for c in cs for d in [proofs[c["name"]]] if not c["bounded"])
    done = sum(1 for c in cs for o in proofs[c["name"]]["obligations"] if o["status"] == "proved" and not c["bounded"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof",
          "coverage": {"obligations": total, "discharged": done, "discharged_by": solver, "solver_seconds": round(secs, 2),
                       "checker_cmd": f"python3-vt -m vf.run {prop} --tier {tier}", "trusted_base": TRUSTED,
                       "functions_under_contract": funcs, "contracts": per,
                       "source_sha256": {k.replace(REPO, "repo"): v for k, v in sorted(src.items())}},
          "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    if viol:
        ev["coverage"]["violations_detail"] = viol
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
