"""Run the repository's stable tests in the given tree; prints what fails."""
import json, os, subprocess, sys, tempfile, shutil

tree = sys.argv[1]
work = tempfile.mkdtemp(prefix="rt.", dir="/tmp")
try:
    env = dict(os.environ, PYTHONPATH=os.path.join(tree, "src"), PYTHONDONTWRITEBYTECODE="1")
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "8", "-p", "no:cacheprovider", "--timeout=300", "--tb=line",
                    "--continue-on-collection-errors", "--basetemp", work + "/tmp", "-o", "junit_family=xunit2", "--junitxml", work + "/junit.xml"],
                   cwd=tree, env=env, capture_output=True, text=True)
    subprocess.run(["python3", "/opt/vp/results.py", work + "/out.json", "junit:" + work + "/junit.xml"], capture_output=True)
    out = json.load(open(work + "/out.json"))
    passed = set(out.get("passed", []))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    miss = sorted(stable - passed)
    print(f"stable passing {len(stable)-len(miss)}/{len(stable)}", miss[:5])
    sys.exit(1 if miss else 0)
finally:
    shutil.rmtree(work)
