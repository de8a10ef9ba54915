"""C05: a run that reports success has written every requested output completely."""

from __future__ import annotations

import errno
import os
import random

from dst import clirun, cli, core, models

LEVEL = "exploration"
RULE = (
    "one evaluation = one case: a generated model and command line, its undisturbed run and up to six disturbed runs of the real program on the simulated disk, or one "
    "model in error; distinct = distinct (faulted operation kind, file role, fault kind, outcome) combinations per command line shape; nontrivial = at least one fault fired or the model was in error"
)
REAL = ["ecalc_cli (argument parsing, run, show, output writers, exit status)", "libecalc (loading, validation, evaluation, result mapping, exporters)", "ecalc_neqsim_wrapper"]
STUB = ["disk below the case folder (dst.fs: every open/read/write/close/stat/mkdir numbered, faults injected)", "Java process, Py4J/JPype and NeqSim (dst.jvm)", "standard output (show commands)"]
ASSUMPTIONS = ["a write error is reported by the operating system at write or close", "the time stamps in the run-info file are not compared"]
COUNTS = {"quick": 240, "thorough": 60000}
QUICK_S = 120
PROBES = ("exit.zero", "exit.nonzero", "bad.model", "stdout", "fault.open.errno", "fault.write.errno", "fault.write.full", "fault.write.short", "fault.close.errno", "fault.mkdir.errno",
          "fault.write.kbint", "launch")
SIM_TIME_UNIT = "disk operations + remote calls"
REPEAT_EVERY = 60


def setup():
    cli.setup()


OUT_KINDS = [
    lambda r: {"kind": "errno", "errno": r.choice(["EIO", "ENOSPC", "EDQUOT", "ESTALE"]), "ops": ["write"]},
    lambda r: {"kind": "errno", "errno": r.choice(["EIO", "ENOSPC", "EDQUOT"]), "ops": ["close"]},
    lambda r: {"kind": "errno", "errno": r.choice(["EACCES", "EROFS", "EMFILE", "ENOSPC", "ENOENT", "EIO", "EPERM", "ENFILE"]), "ops": ["open"]},
    lambda r: {"kind": "errno", "errno": r.choice(["EACCES", "ENOSPC", "EROFS", "EEXIST", "EIO"]), "ops": ["mkdir"]},
    lambda r: {"kind": "errno", "errno": r.choice(["EACCES", "EIO", "ENOENT", "ESTALE"]), "ops": ["stat"]},
    lambda r: {"kind": "full", "frac": r.random(), "ops": ["write"]},
    lambda r: {"kind": "full", "frac": 0.0, "ops": ["open", "write"]},
    lambda r: {"kind": "short", "frac": r.random(), "ops": ["write"]},
    lambda r: {"kind": "kbint", "ops": ["write", "close", "open"]},
    lambda r: {"kind": "vanish", "ops": ["close", "open", "write"]},
]
OUT_W = [5, 4, 4, 1, 1, 3, 2, 2, 2, 0]

ERRORS = ["missing_series", "missing_facility", "missing_include", "unknown_key", "broken_yaml", "missing_column", "garbage_cell", "unknown_reference", "no_model", "no_out_parent",
          "empty_model", "dup_key", "bad_load", "truncated"]


def gen(r, i, tier):
    if i % 5 == 4:
        return {"mode": "bad", "spec": models.gen_spec(r, r.choice([None, "light"])), "opts": clirun.gen_opts(r, "run"), "error": r.choice(ERRORS), "x": r.random()}
    o = clirun.gen_opts(r)
    spec = models.gen_spec(r, r.choice([None, None, "light"]), nsteps=r.choice([None] * 6 + [12, 20]))
    plans = []
    for _ in range(r.choice([4, 6])):
        if o["cmd"] == "show" and not o["file"]:
            plans.append({"stdout": r.random(), "errno": r.choice(["ENOSPC", "EIO", "EPIPE"])})
            continue
        x = r.random()
        if x < 0.04 and o["cmd"] == "run":
            plans.append({"launch": r.choice(["bad_port", "no_java", "eagain"])})
            continue
        fs_ = []
        for _ in range(r.choice([1, 1, 1, 1, 2])):
            f = r.choices(OUT_KINDS, OUT_W)[0](r)
            f.update(where="out", pos=r.random())
            fs_.append(f)
        plans.append({"faults": fs_})
    return {"mode": "faults", "spec": spec, "opts": o, "plans": plans}


def run(case):
    top = clirun.scratch()
    try:
        return _bad(case, top) if case["mode"] == "bad" else _faults(case, top)
    finally:
        clirun.clean(top)


def _faults(case, top, sub="out"):
    o = case["opts"]
    files = models.build(case["spec"])
    stats, log, viol, sigs = {}, [], None, []

    def cnt(k, n=1):
        stats[k] = stats.get(k, 0) + n

    base = os.path.join(top, "b0")
    clirun.prepare(base, files, o)
    b = clirun.process(base, o)
    ref = clirun.outputs(o, base)
    log.append(["base", b["code"], [t[1:] for t in b["trace"]], sorted((k, core.digest(v.decode("latin1"))) for k, v in ref.items())])
    steps = len(b["trace"]) + b["rpc"]
    shape = [o["cmd"]] + [k for k in ("csv", "json", "ltp", "stp", "flow") if o.get(k)]
    if b["code"] != 0:
        return {"violation": None, "stats": {"baseline.failed": 1}, "sig": "", "nontrivial": False, "digest": core.digest(log), "trace": [b["err"]]}
    why = clirun.complete(o, ref)
    if why:
        viol = {"class": "incomplete", "detail": f"the run ended with status 0 but {why}"}
    for k, plan in enumerate(case["plans"]):
        root = os.path.join(top, f"p{k}")
        clirun.prepare(root, files, o)
        if "stdout" in plan:
            n = len(b["out"])
            st = clirun.FailingOut(int(plan["stdout"] * n), clirun.ERRNOS[plan["errno"]])
            p = clirun.process(root, o, stdout=st)
            got_out = p["out"]
            fired = {"stdout." + plan["errno"]: 1}
            cnt("stdout")
        elif "launch" in plan:
            p = clirun.process(root, o, world={"launches": [{"at": a, "kind": plan["launch"]} for a in range(1, 9)]})
            fired = {k2: v for k2, v in p["counters"].items()}
            got_out = b["out"]
            cnt("launch")
        else:
            pl = clirun.resolve(plan["faults"], b["trace"], o)
            p = clirun.process(root, o, plan=pl)
            fired = p["fired"]
            got_out = b["out"]
        for f, n in fired.items():
            cnt("fault." + f, n)
        got = clirun.outputs(o, root)
        steps += len(p["trace"]) + p["rpc"]
        cnt("exit.zero" if p["code"] == 0 else "exit.nonzero")
        d = clirun.diff(ref, got) or (None if got_out == b["out"] else "standard output was not written completely")
        log.append([k, p["code"], sorted(fired.items()), [t[1:] for t in p["trace"]], d])
        hit = [t[1:3] + t[5:] for t in p["trace"] if len(t) > 5]
        sigs.append(core.digest([shape, [[h[0], h[1].split(".")[-1], h[2:]] for h in hit], sorted(fired), p["code"] == 0]))
        if viol is None:
            if p.get("stall"):
                viol = {"class": "stall", "detail": f"plan {k}: the run did not end"}
            elif p["code"] == 0 and d:
                viol = {"class": "false_success", "detail": f"the run ended with status 0 although {d}; faults: {hit or sorted(fired)}"}
        if viol is not None:
            break
    res = {"violation": viol, "stats": stats, "sigs": sigs, "sig": core.digest(shape), "nontrivial": bool(sigs), "digest": core.digest(log + [viol]), "sim_time": steps,
           "trace": [str(x)[:600] for x in log]}
    if viol and viol["class"] != "incomplete":
        res["explicit_case"] = dict(case, plans=[case["plans"][len(log) - 2]])
    return res


def spoil(files, case, root):
    """Make the model wrong in a way that must be reported; returns the changed options."""
    o = dict(case["opts"])
    r = random.Random(case["x"])
    m = os.path.join(root, "m")
    e = case["error"]

    def edit(rel, fn):
        p = os.path.join(m, rel)
        s = open(p).read()
        t = fn(s)
        assert t != s, e
        with open(p, "w", newline="") as f:
            f.write(t)

    inc = sorted(x for x in files if x.startswith("parts/"))
    if e == "missing_include" and not inc:
        e = "unknown_key"
    if e == "missing_series":
        os.unlink(os.path.join(m, r.choice(["sim/base.csv", "sim/flare.csv"])))
    elif e == "missing_facility":
        os.unlink(os.path.join(m, r.choice(sorted(x for x in files if x.startswith("einput/") and not x.endswith("vs_chart.csv")))))
    elif e == "missing_include":
        os.unlink(os.path.join(m, r.choice(inc)))
    elif e == "unknown_key":
        edit("model.yaml", lambda s: s + "\nUNKNOWN_SECTION: 3\n")
    elif e == "broken_yaml":
        edit("model.yaml", lambda s: s + "\n}: [\n")
    elif e == "truncated":
        edit("model.yaml", lambda s: s[: s.index("INSTALLATIONS:")])
    elif e == "missing_column":
        edit("sim/base.csv", lambda s: s.replace("REGULARITY", "REGUL", 1))
    elif e == "garbage_cell":
        lines = [x for x in files["sim/base.csv"].splitlines() if x]
        j = r.randrange(1, len(lines))
        cells = lines[j].split(",")
        cells[3] = r.choice(["x12", "1e", "--", "12;5"])
        lines[j] = ",".join(cells)
        edit("sim/base.csv", lambda s: "\n".join(lines) + "\n")
    elif e == "unknown_reference":
        edit("model.yaml", lambda s: s.replace("ELECTRICITY2FUEL: genset", "ELECTRICITY2FUEL: gensett", 1))
    elif e == "empty_model":
        edit("model.yaml", lambda s: "")
    elif e == "dup_key":
        edit("model.yaml", lambda s: s + "\nVARIABLES: {}\n")
    elif e == "bad_load":
        edit("model.yaml", lambda s: s.replace("REGULARITY: SIM1;REGULARITY", "REGULARITY: SIM1;NOT_THERE", 1))
    elif e == "no_model":
        os.unlink(os.path.join(m, "model.yaml"))
    elif e == "no_out_parent":
        o["out"] = "gone"
    return o


def _bad(case, top):
    root = os.path.join(top, "b0")
    files = models.build(case["spec"])
    clirun.prepare(root, files, case["opts"])
    o = spoil(files, case, root)
    extra = ()
    if o["out"] == "gone":
        o["out"] = "default"
        real = clirun.argv

        def argv2(oo, rr):
            return real(oo, rr) + ["-o", os.path.join(rr, "m", "nowhere", "res")]

        clirun.argv = argv2
        try:
            p = clirun.process(root, o, extra=extra)
        finally:
            clirun.argv = real
    else:
        p = clirun.process(root, o, extra=extra)
    viol = None
    if p["code"] == 0:
        viol = {"class": "error_as_success", "detail": f"the run ended with status 0 although the model is in error ({case['error']})"}
    return {"violation": viol, "stats": {"bad.model": 1, "bad." + case["error"]: 1, "exit.zero" if p["code"] == 0 else "exit.nonzero": 1},
            "sigs": [core.digest(["bad", case["error"], p["code"] == 0, sorted(case["spec"]["kinds"])])], "sig": case["error"], "nontrivial": True,
            "digest": core.digest([p["code"], [t[1:] for t in p["trace"]], viol]), "sim_time": len(p["trace"]), "trace": [p["err"][-600:]]}


def shrink(case):
    if case["mode"] == "faults":
        for p in core.shrink_list(case["plans"], 1):
            yield dict(case, plans=p)
        for j, p in enumerate(case["plans"]):
            if len(p.get("faults", ())) > 1:
                for f in core.shrink_list(p["faults"], 1):
                    yield dict(case, plans=case["plans"][:j] + [dict(p, faults=f)] + case["plans"][j + 1 :])
    for s in models.shrink_spec(case["spec"]):
        yield dict(case, spec=s)
    for o in clirun.shrink_opts(case["opts"]):
        yield dict(case, opts=o)


def describe(case):
    return {k: v for k, v in case.items() if k != "spec"} | {"kinds": case["spec"]["kinds"]}
