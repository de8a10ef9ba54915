"""Shared by the command-line properties: one simulated `ecalc` process per run, on a simulated disk, against a simulated Java peer."""

from __future__ import annotations

import errno
import json
import os
import random
import re
import shutil
import signal
import tempfile

from dst import cli, core, fs, jvm, models

ERRNOS = {n: getattr(errno, n) for n in ("EIO", "ENOSPC", "EACCES", "EROFS", "EMFILE", "EDQUOT", "ENOENT", "EEXIST", "ESTALE", "EINTR", "EPERM", "ENFILE", "EPIPE")}


# generated node identifiers of the flow diagram: compared up to renaming
_UUID = re.compile(rb"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}")


def seed_entropy(seed):
    """Randomness of one simulated process: os.urandom (and with it uuid4) and the random module."""
    r = random.Random(f"entropy:{seed}")
    os.urandom = lambda n: r.getrandbits(8 * n).to_bytes(n, "big") if n else b""
    random.seed(r.getrandbits(64))
    import numpy as np

    np.random.seed(r.getrandbits(32))


def scratch():
    return tempfile.mkdtemp(prefix="c.", dir=core.scratch_root())


# ------------------------------------------------------------------ command lines
def gen_opts(r, cmd=None):
    c = cmd or r.choices(["run", "show"], [12, 1])[0]
    if c == "show":
        return {"cmd": "show", "file": r.random() < 0.7, "what": r.choice(["yaml", "yaml", "schema"])}
    o = {"cmd": "run", "csv": r.random() < 0.9, "json": r.random() < 0.6, "ltp": r.random() < 0.45, "stp": r.random() < 0.45,
         "flow": r.random() < 0.35, "detailed": r.random() < 0.3, "freq": r.choice([None, None, None, "YEAR", "MONTH"]), "fmt": r.choice([None, None, "1", "2"]),
         "prefix": r.choice([None, None, "case1", "a b"]), "out": r.choice(["default", "default", "new", "existing", "relative"]),
         "jpype": r.random() < 0.2, "flash": r.choice([None] * 6 + [0, 1, 7]), "ref": r.choice([None] * 8 + [0, 1])}
    if not (o["csv"] or o["json"] or o["ltp"] or o["stp"] or o["flow"]):
        o["csv"] = True
    return o


def argv(o, root):
    """Command line for a case whose folder is root (current directory of the run)."""
    model = os.path.join(root, "m", "model.yaml")
    if o["cmd"] == "show":
        a = ["show", o["what"]] + ([model] if o["what"] == "yaml" else [])
        if o["file"]:
            a += ["--file", os.path.join(root, "m", "shown.txt")]
        return a
    if o["out"] == "relative":
        model = os.path.join("m", "model.yaml")
    a = ["run", model]
    if not o["csv"]:
        a.append("--no-csv")
    for k, f in (("json", "--json"), ("ltp", "--ltp-export"), ("stp", "--stp-export"), ("flow", "--flow-diagram"), ("detailed", "--detailed-output"), ("jpype", "--use-experimental-neqsim")):
        if o[k]:
            a.append(f)
    if o["freq"]:
        a += ["-f", o["freq"]]
    if o["fmt"]:
        a += ["--date-format-option", o["fmt"]]
    if o["prefix"]:
        a += ["-n", o["prefix"]]
    if o["out"] in ("new", "existing"):
        a += ["-o", os.path.join(root, "m", "res")]
    if o["out"] == "relative":
        a += ["-o", "m/res"]
    if o["flash"] is not None:
        a += ["--flash-cache-size", str(o["flash"])]
    if o["ref"] is not None:
        a += ["--reference-cache-size", str(o["ref"])]
    return a


def out_dir(o, root):
    return os.path.join(root, "m") if o["cmd"] == "show" else os.path.join(root, "m", "output" if o["out"] == "default" else "res")


def requested(o):
    """Names that have to be there after a successful run; tables by suffix."""
    if o["cmd"] == "show":
        return (["shown.txt"] if o["file"] else []), []
    p = o["prefix"] or "model"
    names, suffixes = [], []
    if o["csv"]:
        names += [p + ".csv", p + "_intensity.csv"]
    if o["json"]:
        names += [p + "_v3.json", p + "_run_info.json", p + "_intensity.json"]
    if o["flow"]:
        names.append(p + ".flow-diagram.json")
    if o["ltp"]:
        suffixes.append(".ltp.tsv")
    if o["stp"]:
        suffixes.append(".stp.tsv")
    return names, suffixes


def shrink_opts(o):
    if o["cmd"] != "run":
        return
    for k in ("json", "ltp", "stp", "flow", "detailed", "jpype", "csv"):
        if o[k]:
            n = dict(o, **{k: False})
            if n["csv"] or n["json"] or n["ltp"] or n["stp"] or n["flow"]:
                yield n
    for k, v in (("freq", None), ("fmt", None), ("prefix", None), ("out", "default"), ("flash", None), ("ref", None)):
        if o[k] != v:
            yield dict(o, **{k: v})


# ------------------------------------------------------------------ one simulated process
def prepare(root, files, o):
    m = os.path.join(root, "m")
    os.makedirs(m)
    models.write(files, m)
    if o.get("out") == "existing":
        os.makedirs(os.path.join(m, "res"))


class FailingOut:
    """Standard output that stops accepting data after some characters."""

    def __init__(self, limit, err):
        self.buf, self.limit, self.err, self.failed = "", limit, err, False

    def write(self, s):
        if len(self.buf) + len(s) > self.limit:
            self.buf += s[: max(0, self.limit - len(self.buf))]
            self.failed = True
            raise OSError(self.err, os.strerror(self.err))
        self.buf += s
        return len(s)

    def flush(self):
        if self.failed:
            raise OSError(self.err, os.strerror(self.err))

    def isatty(self):
        return False

    def getvalue(self):
        return self.buf

    encoding = "utf-8"


def process(root, o, plan=(), world=None, stdout=None, extra=(), sim=True, pre=None, log_folder=None, on_op=None, cpu=60, entropy=0, args=None, fork=True):
    """Run the command in a forked process of its own.  Returns dict(code, trace, fired, out, outside, rpc, counters) or code 137 for a crash."""

    def go():
        signal.signal(signal.SIGPROF, signal.SIG_DFL)
        signal.setitimer(signal.ITIMER_PROF, cpu)
        os.chdir(root)
        seed_entropy(entropy)
        w = jvm.SimWorld(world or {})
        jvm.set_world(w)
        if pre:
            pre(w)
        f = fs.SimFS([root], plan)
        if on_op:
            f.on_op = on_op
        side = os.path.join(root, ".crash.json")

        def crash():
            f.uninstall()
            with open(side, "w") as fh:
                json.dump({"trace": f.trace, "fired": f.fired, "rpc": w.calls, "writes": sorted(f.writes)}, fh)

        f.on_crash = crash
        w.sim_fs = f
        if sim:
            f.install()
        a = (["--log-folder", log_folder] if log_folder else []) + list(extra) + (args if args is not None else argv(o, root))
        code, out, err = cli.run(a, stdout=stdout)
        f.uninstall()
        return {"code": code, "trace": f.trace, "fired": f.fired, "out": out, "err": err[-1500:], "writes": sorted(f.writes), "rpc": w.calls, "counters": w.counters, "names": w.names}

    if not fork:
        return go()
    res = cli.in_fork(go)
    if "__exit__" in res:
        st = res["__exit__"]
        side = os.path.join(root, ".crash.json")
        d = {"code": 137, "trace": [], "fired": {}, "out": "", "err": "", "writes": [], "rpc": 0, "counters": {}}
        if os.path.exists(side):
            with open(side) as fh:
                d.update(json.load(fh))
            os.unlink(side)
        if os.WIFSIGNALED(st):
            d["code"] = -os.WTERMSIG(st)
            d["stall"] = os.WTERMSIG(st) == signal.SIGPROF
        return d
    return res


def norm(rel, data):
    """Content without what is documented to be a time stamp of the run."""
    if rel.endswith("_run_info.json"):
        try:
            d = json.loads(data)
            return json.dumps({k: ("T" if k in ("start", "end") and isinstance(v, str) and len(v) >= 19 else v) for k, v in d.items()}, sort_keys=True).encode()
        except Exception:
            return data
    if rel.endswith("flow-diagram.json"):
        names: dict = {}
        return _UUID.sub(lambda m: names.setdefault(m.group(0), b"id%04d" % len(names)), data)
    return data


def outputs(o, root):
    d = out_dir(o, root)
    t = cli.tree(d) if os.path.isdir(d) else {}
    if o["cmd"] == "show":
        t = {k: v for k, v in t.items() if k == "shown.txt"}
    return {k: norm(k, v) for k, v in t.items()}


def inputs(root, o):
    t = cli.tree(os.path.join(root, "m"))
    d = os.path.relpath(out_dir(o, root), os.path.join(root, "m"))
    return {k: v for k, v in t.items() if not (d != "." and (k == d or k.startswith(d + os.sep))) and k != "shown.txt"}


def complete(o, files):
    """None, or why the output of a successful run is not complete."""
    names, suffixes = requested(o)
    for n in names:
        if n not in files:
            return f"{n} was requested and is missing"
        if not files[n] and not n.endswith("_intensity.csv"):
            return f"{n} is empty"
        if n.endswith(".json"):
            try:
                json.loads(files[n])
            except ValueError:
                return f"{n} is not a complete JSON document"
    for s in suffixes:
        if not any(f.endswith(s) for f in files):
            return f"no table {s} was written"
    return None


def diff(a, b):
    """First difference between two output sets (b may hold more files)."""
    for k in sorted(a):
        if k not in b:
            return f"{k} is missing"
        if a[k] != b[k]:
            n = next((i for i, (x, y) in enumerate(zip(a[k], b[k])) if x != y), min(len(a[k]), len(b[k])))
            return f"{k} differs at byte {n} (expected {len(a[k])} bytes, found {len(b[k])}): {a[k][n:n+60]!r} / {b[k][n:n+60]!r}"
    return None


def clean(root):
    shutil.rmtree(root, ignore_errors=True)


# ------------------------------------------------------------------ placing faults
def is_out(o, op):
    d = "m/output" if o.get("out") == "default" else "m/res"
    if o["cmd"] == "show":
        return op[2] == "m/shown.txt"
    return op[2] == d or op[2].startswith(d + "/")


def resolve(faults, trace, o):
    """Turn fractions into operation numbers of the recorded fault-free run."""
    plan = []
    for f in faults:
        ops = [t for t in trace if f["where"] == "any" or (is_out(o, t) == (f["where"] == "out"))]
        if f.get("ops"):
            ops = [t for t in ops if t[1] in f["ops"]] or ops
        if not ops:
            continue
        t = ops[min(len(ops) - 1, int(f["pos"] * len(ops)))]
        p = {k: v for k, v in f.items() if k not in ("where", "pos", "ops")}
        p["sel"] = [t[1], t[2], sum(1 for u in trace[: t[0]] if u[1:3] == t[1:3])]
        if p["kind"] == "errno" and isinstance(p["errno"], str):
            p["errno"] = ERRNOS[p["errno"]]
        plan.append(p)
    return plan
