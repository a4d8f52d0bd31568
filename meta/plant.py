"""Build and validate planted bugs: python3 meta/plant.py SPEC.py [ids...]
SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo=..., needs=..., breaks=...)].
Writes seeded/<id>/ only after the demo passes on the unchanged tree and fails on the changed one."""
import json, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/tmp/vf_plant"
DEMO = """#!/bin/bash
cd /repo || exit 2
export PYTHONWARNINGS=ignore JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg
export PYTHONPATH="${DEMO_REPO:-/repo}"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:]
    for b in ns["BUGS"]:
        if ids and b["id"] not in ids:
            continue
        shutil.rmtree(CP, ignore_errors=True)
        os.makedirs(CP)
        sh(f"git -C /repo archive HEAD | tar x -C {CP} && cd {CP} && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x")
        d = os.path.join(HERE, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(DEMO)
        open(d + "/demo.py", "w").write("import jax\njax.config.update('jax_enable_x64', True)\n" + b["demo"].lstrip("\n"))
        os.chmod(d + "/demo.sh", 0o755)
        env = dict(os.environ, DEMO_REPO=CP)
        p0 = sh(f"bash {d}/demo.sh", env=env)
        for f, old, new in b["edits"]:
            s = open(f"{CP}/{f}").read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(f"{CP}/{f}", "w").write(s.replace(old, new))
        p1 = sh(f"bash {d}/demo.sh", env=env)
        ok = p0.returncode == 0 and p1.returncode != 0
        print(b["id"], "clean", p0.returncode, "bug", p1.returncode, "OK" if ok else "BAD")
        if not ok:
            print(p0.stderr[-1500:], p1.stdout[-500:], p1.stderr[-500:])
        diff = sh(f"git -C {CP} diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if "--tests" in os.environ.get("PLANT", ""):
            pass
    shutil.rmtree(CP, ignore_errors=True)


main()
