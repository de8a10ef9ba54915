"""C07: a killed run is fully repaired by simply running again."""

from __future__ import annotations

import os
import random

from dst import clirun, cli, core, models

LEVEL = "exploration"
RULE = (
    "one evaluation = one history in one folder: leftovers of an older run, one to three runs killed (or aborted) at a disk operation, in the middle of a write or at a remote call, loss of unsynced data, "
    "then one healthy run compared with an undisturbed run elsewhere; distinct = distinct (kill points, what was lost, leftovers); nontrivial = at least one run was killed or aborted"
)
REAL = ["ecalc_cli", "libecalc", "ecalc_neqsim_wrapper"]
STUB = ["disk below the case folder (dst.fs; kills end the process at an operation, afterwards unsynced writes are dropped, torn or zeroed)", "Java process, Py4J/JPype and NeqSim (dst.jvm)"]
ASSUMPTIONS = ["unsynced data of any file written by the killed run may be lost; inputs are not written by the run and survive", "files the healthy run does not write itself may remain in the output folder"]
COUNTS = {"quick": 360, "thorough": 60000}
QUICK_S = 110
PROBES = ("killed", "killed.mid_write", "killed.rpc", "killed.twice", "aborted", "lost.absent", "lost.prefix", "lost.zero", "left.old", "left.junk", "left.dir_only", "logs")
SIM_TIME_UNIT = "disk operations + remote calls"
REPEAT_EVERY = 60


def setup():
    cli.setup()


def gen(r, i, tier):
    o = clirun.gen_opts(r, "show" if i % 20 == 19 else "run")
    if o["cmd"] == "show":
        o["file"] = True
    spec = models.gen_spec(r, r.choice([None, None, "light"]), nsteps=r.choice([None] * 7 + [12]))
    kills = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        x = r.random()
        if x < 0.12:
            kills.append({"rpc": r.random()})
            continue
        where = r.choice(["out", "out", "out", "any"])
        y = r.random()
        if y < 0.35:
            f = {"kind": "crash_mid", "frac": r.random(), "ops": ["write"]}
        elif y < 0.6:
            f = {"kind": "crash"}
        elif y < 0.8:
            f = {"kind": "crash_after"}
        elif y < 0.9:
            f = {"kind": "errno", "errno": r.choice(["ENOSPC", "EIO"]), "ops": ["write", "open", "close"]}
        else:
            f = {"kind": "kbint"}
        f.update(where=where, pos=r.random())
        kills.append({"fault": f, "lose": r.choice([None, None, "absent", "prefix", "zero", "mixed"]), "lseed": r.randrange(1 << 20)})
    return {"spec": spec, "opts": o, "kills": kills, "left": r.choice([None, None, "old", "old", "junk", "junk", "dir_only"]), "lseed": r.randrange(1 << 20), "log": r.random() < 0.3}


def run(case):
    top = clirun.scratch()
    try:
        return _run(case, top)
    finally:
        clirun.clean(top)


def _lose(o, root, written, how, seed, cnt):
    """Unsynced data of the killed process."""
    r = random.Random(seed)
    for p in sorted(written):
        if not os.path.isfile(p) or not p.startswith(clirun.out_dir(o, root)):
            continue
        h = r.choice(["absent", "prefix", "zero", None]) if how == "mixed" else how
        x = r.random()
        n = os.path.getsize(p)
        if h == "absent":
            os.unlink(p)
        elif h == "prefix":
            os.truncate(p, int(n * x))
        elif h == "zero":
            k = int(n * x)
            with open(p, "r+b") as f:
                f.seek(k)
                f.write(b"\0" * (n - k))
        if h:
            cnt("lost." + h)


def _run(case, top):
    o = case["opts"]
    files = models.build(case["spec"])
    stats, log, viol = {}, [], None

    def cnt(k, n=1):
        stats[k] = stats.get(k, 0) + n

    base = os.path.join(top, "b0")
    clirun.prepare(base, files, o)
    b = clirun.process(base, o)
    ref = clirun.outputs(o, base)
    log.append(["base", b["code"], [t[1:] for t in b["trace"]], sorted((k, core.digest(v.decode("latin1"))) for k, v in ref.items())])
    if b["code"] != 0:
        cnt("baseline.failed")
        return {"violation": None, "stats": stats, "sig": "", "nontrivial": False, "digest": core.digest(log), "trace": [b["err"]]}
    root = os.path.join(top, "w0")
    clirun.prepare(root, files, o)
    lf = os.path.join(top, "w0log") if case["log"] else None
    if lf:
        os.makedirs(lf)
        cnt("logs")
    od = clirun.out_dir(o, root)
    r = random.Random(case["lseed"])
    if case["left"] and o["cmd"] == "run":
        os.makedirs(od, exist_ok=True)
        if case["left"] != "dir_only":
            for k, v in ref.items():
                if r.random() < 0.8:
                    with open(os.path.join(od, k), "wb") as f:
                        f.write(v * r.choice([1, 2, 3]) + b"older run" if case["left"] == "old" else bytes(r.getrandbits(8) for _ in range(r.choice([0, 10, 3000]))) * 3)
            with open(os.path.join(od, "notes.txt"), "w") as f:
                f.write("kept by the user")
        cnt("left." + case["left"])
    elif case["left"] and o["cmd"] == "show":
        with open(os.path.join(od, "shown.txt"), "wb") as f:
            f.write(b"x" * 200000)
    before = clirun.inputs(root, o)
    if o["cmd"] == "show":
        before.pop("shown.txt", None)
    steps = len(b["trace"]) + b["rpc"]
    sig = []

    def after(p, what):
        nonlocal viol
        out = [w for w in p["writes"] if not any(w == a or w.startswith(a + os.sep) for a in ([os.path.realpath(od)] if o["cmd"] == "run" else [os.path.join(os.path.realpath(od), "shown.txt")])
                                                 + ([os.path.realpath(lf)] if lf else [])) and not w.startswith("/dev/")]
        now = clirun.inputs(root, o)
        if viol is None and now != before:
            ch = sorted(k for k in set(now) | set(before) if now.get(k) != before.get(k))
            viol = {"class": "input_changed", "detail": f"{what} changed {ch} outside the output folder"}
        if viol is None and out:
            rel = sorted(os.path.relpath(w, os.path.realpath(root)) for w in out)
            viol = {"class": "outside", "detail": f"{what} wrote outside its output and log folders: {rel[:3] if all(not x.startswith('../../..') for x in rel) else 'elsewhere in the file system'}"}

    nk = 0
    for k, kill in enumerate(case["kills"]):
        if viol:
            break
        if "rpc" in kill:
            at = 1 + int(kill["rpc"] * max(1, b["rpc"]))

            def pre(w, at=at):
                def hook(what, seen=[0]):
                    if what == "rpc":
                        seen[0] += 1
                        if seen[0] == at:
                            w.sim_fs.crash()

                w.yield_hook = hook

            p = clirun.process(root, o, pre=pre, log_folder=lf)
            fired = {"kill.rpc": 1} if p["code"] == 137 else {}
            where = ["rpc"]
        else:
            pl = clirun.resolve([kill["fault"]], b["trace"], o)
            p = clirun.process(root, o, plan=pl, log_folder=lf)
            fired = p["fired"]
            where = [t[1:3] + t[5:] for t in p["trace"] if len(t) > 5]
        for f, n in fired.items():
            cnt("fault." + f, n)
        steps += len(p["trace"]) + p["rpc"]
        if p["code"] == 137:
            nk += 1
            cnt("killed")
            if any("crash_mid" in f for f in fired):
                cnt("killed.mid_write")
            if "rpc" in kill:
                cnt("killed.rpc")
        elif p["code"] != 0:
            cnt("aborted")
        after(p, "the killed run")
        if p["code"] == 137 and kill.get("lose"):
            _lose(o, root, p["writes"], kill["lose"], kill["lseed"], cnt)
        sig.append([where, p["code"] == 137, kill.get("lose")])
        log.append([k, p["code"], sorted(fired.items()), [t[1:] for t in p["trace"]]])
    if nk > 1:
        cnt("killed.twice")
    if viol is None:
        p = clirun.process(root, o, log_folder=lf)
        got = clirun.outputs(o, root)
        d = clirun.diff(ref, got)
        steps += len(p["trace"]) + p["rpc"]
        after(p, "the healthy run")
        if viol is None:
            if p["code"] != 0:
                viol = {"class": "rerun_failed", "detail": f"running again after {sig} ended with status {p['code']}"}
            elif d:
                viol = {"class": "not_repaired", "detail": f"running again after {sig} left a different output: {d}"}
            elif case["left"] in ("old", "junk") and o["cmd"] == "run" and got.get("notes.txt") != b"kept by the user":
                viol = {"class": "foreign_file", "detail": "a file of the user in the output folder was changed or removed"}
        log.append(["rerun", p["code"], d])
    return {"violation": viol, "stats": stats, "sig": core.digest([sig, case["left"]]), "nontrivial": bool(nk or stats.get("aborted")), "digest": core.digest(log + [viol]), "sim_time": steps,
            "trace": [str(x)[:600] for x in log]}


from dst.props.c05 import describe  # noqa: E402


def shrink(case):
    for k in core.shrink_list(case["kills"], 0):
        yield dict(case, kills=k)
    if case["left"]:
        yield dict(case, left=None)
    if case["log"]:
        yield dict(case, log=False)
    for j, k in enumerate(case["kills"]):
        if k.get("lose"):
            yield dict(case, kills=case["kills"][:j] + [dict(k, lose=None)] + case["kills"][j + 1 :])
    for s in models.shrink_spec(case["spec"]):
        yield dict(case, spec=s)
    for o in clirun.shrink_opts(case["opts"]):
        yield dict(case, opts=o)
