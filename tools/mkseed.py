"""Make one planted bug: edit a scratch clone, run the stable tests, run the demo on both trees, store under /verif/seeded/<id>/.

usage: mkseed.py SPEC.py   where SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source)
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

spec = runpy.run_path(sys.argv[1])
scratch = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
tree = os.path.join(scratch, "repo")
try:
    subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
    for f, old, new in spec["EDITS"]:
        p = os.path.join(tree, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", tree, "diff"], capture_output=True, text=True, check=True).stdout
    d = f"/verif/seeded/{spec['ID']}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(spec["DEMO"])
    if "FILES" in spec:
        for n, t in spec["FILES"].items():
            open(os.path.join(d, n), "w").write(t)
    open(d + "/demo.sh", "w").write(
        '#!/bin/bash\n# exit 0: the property held in this history; nonzero: it did not\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
        'export PYTHONPATH="$PWD/src:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec timeout 250 /opt/venv/bin/python "$here/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    # demo on both trees
    good = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    bad = subprocess.run(["bash", d + "/demo.sh"], cwd=tree, capture_output=True, text=True)
    print("demo unchanged:", good.returncode, good.stderr[-600:] if good.returncode else "")
    print("demo patched:  ", bad.returncode, bad.stderr[-300:])
    if "--notest" not in sys.argv:
        # stable tests on the patched tree
        env = dict(os.environ, PYTHONPATH=os.path.join(tree, "src"), PYTHONDONTWRITEBYTECODE="1")
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("tests") or base.get("passed") or base
        r = subprocess.run([sys.executable, "/verif/tools/runtests.py", tree], capture_output=True, text=True, env=env)
        print("tests:", r.stdout[-500:], r.stderr[-500:])
    chk = subprocess.run(["/verif/check", spec["PROPERTY"], "quick"], env=dict(os.environ, VERIF_REPO=tree), capture_output=True, text=True)
    print("check:", chk.returncode, chk.stdout[-600:], chk.stderr[-300:] if chk.returncode != 1 else "")
finally:
    shutil.rmtree(scratch)
