"""Make or re-validate planted changes.

    mkseed.py check [ID ...] [--tier quick]   validate demos and run the property's check on each patched copy

A definition file tools/seeds/*.py calls seed(...). Everything happens in scratch copies under /tmp.
"""
import glob, json, os, shutil, subprocess, sys, textwrap

V = "/verif"
PY = "/opt/venv/bin/python"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def sh(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout,
                       env={**os.environ, **(env or {})})
    return p.returncode, p.stdout + p.stderr


def scratch():
    d = f"/tmp/seedwork.{os.getpid()}"
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree("/repo", d, symlinks=True)
    return d


def seed(sid, prop, needs, breaks, edits, demo, simenv=False):
    out = f"{V}/seeded/{sid}"
    d = scratch()
    try:
        for path, old, new in edits:
            p = os.path.join(d, path)
            s = open(p).read()
            if s.count(old) != 1:
                print(f"{sid}: edit matches {s.count(old)} times in {path}: {old[:60]!r}")
                return
            open(p, "w").write(s.replace(old, new))
        _, diff = sh("git diff", cwd=d)
    finally:
        shutil.rmtree(d)
    os.makedirs(out, exist_ok=True)
    open(f"{out}/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{out}/meta.json", "w"), indent=1)
    open(f"{out}/demo.py", "w").write(textwrap.dedent(demo).lstrip())
    extra = "export PYTHONPATH=\"$here/simenv\"\n" if simenv else ""
    open(f"{out}/demo.sh", "w").write(
        "#!/bin/bash\nhere=$(cd \"$(dirname \"$0\")\" && pwd)\n"
        "export PETSC_DIR=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real PYTHONDONTWRITEBYTECODE=1 "
        "OMP_NUM_THREADS=1 MPLBACKEND=Agg PYTHONHASHSEED=0\n" + extra +
        "exec timeout 250 /opt/venv/bin/python -B \"$here/demo.py\"\n")
    os.chmod(f"{out}/demo.sh", 0o755)
    if simenv:
        dst = f"{out}/simenv"
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(f"{V}/simenv", dst, ignore=shutil.ignore_patterns("__pycache__"))
    print(f"{sid}: written")


def validate(sid, tier="quick", run_check=True, extra=""):
    src = f"{V}/seeded/{sid}"
    prop = json.load(open(f"{src}/meta.json"))["property"]
    tmp = f"/tmp/seeddemo.{os.getpid()}"
    if os.path.exists(tmp):
        shutil.rmtree(tmp)
    shutil.copytree(src, tmp)
    for f in glob.glob(tmp + "/*.diff") + glob.glob(tmp + "/meta.json"):
        os.remove(f)
    d = scratch()
    try:
        r0, o0 = sh(f"{tmp}/demo.sh", cwd=d)
        rc, o = sh(f"git apply {src}/patch.diff", cwd=d)
        if rc:
            print(sid, "patch does not apply", o[-300:])
            return
        r1, o1 = sh(f"{tmp}/demo.sh", cwd=d)
        t = "-k 'test_get_gmres_solution or test_dummy' tests"
        # the tests import the installed (editable) package, so point the path at the copy
        rt, ot = sh(f"{PY} -P -m pytest -q -p no:cacheprovider --continue-on-collection-errors -x tests/test_gmres.py tests/test_dxss.py",
                    cwd=d, env={"PYTHONPATH": d + "/src", "PETSC_DIR": "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real",
                                "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1"})
        tests = ot.strip().splitlines()[-1] if ot.strip() else ""
        demo = "ok" if r0 == 0 and r1 != 0 else f"BAD(clean {r0}, patched {r1})"
        if demo != "ok":
            print((o0 if r0 else o1)[-1500:])
        res = ""
        if run_check:
            rc, oc = sh(f"{V}/check.sh {prop} {tier} --no-evidence {extra}", cwd=V, timeout=1800, env={"DXSS_REPO": d})
            lines = [ln for ln in oc.splitlines() if ln.startswith(prop) or "HARNESS" in ln]
            res = f"check exit {rc}: {lines[0][:140] if lines else oc[-200:]}"
        print(f"{sid} [{prop}] demo {demo}; tests {tests}; {'CAUGHT' if rc == 1 and run_check else 'missed' if run_check else ''} {res}", flush=True)
    finally:
        shutil.rmtree(d)
        shutil.rmtree(tmp)


if __name__ == "__main__":
    cmd = sys.argv[1]
    args = [a for a in sys.argv[2:] if not a.startswith("--")]
    if cmd == "make":
        for f in args:
            exec(compile(open(f).read(), f, "exec"), {"seed": seed, "__file__": f})
    else:
        ids = args or sorted(os.listdir(f"{V}/seeded"))
        for i in ids:
            validate(i, run_check="--nocheck" not in sys.argv)
