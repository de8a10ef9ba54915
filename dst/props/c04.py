"""C04: losing the thermodynamic backend is never reported as a result."""

from __future__ import annotations

import os

from dst import clirun, cli, core, jvm, models, plant, trains

LEVEL = "exploration"
RULE = (
    "one evaluation = one case: a generated model with thermodynamic consumers, its undisturbed run and up to seven runs in which the Java process dies or its connection breaks at a "
    "chosen remote call, or one such set on a compressor train evaluated or a process system solved directly; distinct = distinct (kind of loss, remote method hit, consumer kinds, outcome); nontrivial = a loss happened"
)
REAL = ["ecalc_cli run and exit status", "libecalc (evaluation, trains, process solvers, result mapping)", "ecalc_neqsim_wrapper (fluid service, caches, bridge error mapping, life cycle)"]
STUB = ["Java process, Py4J connection and NeqSim (dst.jvm); error types and retry behaviour as in Py4J's client", "disk below the case folder (dst.fs, no faults)"]
ASSUMPTIONS = ["a lost call surfaces as Py4J's client reports it: refused connection -> Py4JNetworkError, broken connection during a call -> bare Py4JError, Java exception -> Py4JJavaError",
               "with JPype the JVM lives in the Python process and cannot be lost separately"]
COUNTS = {"quick": 280, "thorough": 40000}
QUICK_S = 120
PROBES = ("exit.nonzero", "lost.crash", "lost.crash_reset", "lost.net", "lost.net_request", "lost.net_reply", "lost.partition", "hit.flash", "hit.getter", "hit.clone", "hit.new", "lib", "lib.max_rate", "process") + tuple("kind." + k for k in plant.KINDS)
SIM_TIME_UNIT = "remote calls"
REPEAT_EVERY = 40


def setup():
    cli.setup()


def gen(r, i, tier):
    plans = [{"kind": r.choice(jvm.LOST), "pos": r.random(), "on": r.choice(["any", "any", "flash", "late", "first"])} for _ in range(6)]
    x = r.random()
    if r.random() < 0.35:
        spec = plant.gen_spec(r, r.choice(["single"] * 6 + plant.KINDS))
        return {"mode": "plant", "spec": spec, "pts": [plant.gen_point(r, spec)], "plans": plans * 2, "flash": r.choice([None, None, 0, 5])}
    if r.random() < 0.35:
        kind = r.choice(trains.THERMO + ["vs_one", "vs_train", "ss_train", "multi"])
        op = "evaluate" if kind == "multi" or r.random() < 0.6 else "max_rate"
        return {"mode": "lib", "seed": r.randrange(1 << 20), "kind": kind, "op": op, "pts": [trains.gen_point(r, kind) for _ in range(r.randint(1, 3))], "plans": plans * 2,
                "flash": r.choice([None, None, 0, 5])}
    spec = models.gen_spec(r, "light" if x < 0.55 else "heavy", nsteps=r.choice([1, 2, 2, 3]) if x >= 0.55 else None)
    o = clirun.gen_opts(r, "run")
    o.update(jpype=False, flow=False, stp=False, csv=True)
    return {"mode": "cli", "spec": spec, "opts": o, "plans": plans}


def place(p, names):
    """Ordinal (1-based) of the remote call at which the loss happens."""
    idx = list(range(len(names)))
    if p["on"] == "flash":
        idx = [k for k in idx if "flash" in names[k]] or idx
    elif p["on"] == "late":
        idx = idx[len(idx) * 4 // 5 :] or idx
    elif p["on"] == "first":
        idx = idx[: max(1, len(idx) // 10)]
    return idx[min(len(idx) - 1, int(p["pos"] * len(idx)))] + 1


def role(name):
    return "new" if name.startswith("new ") else "flash" if "flash" in name else "clone" if name == "clone" else "setter" if name.startswith(("set", "add", "init")) else "getter"


def run(case):
    top = clirun.scratch()
    try:
        return _cli(case, top) if case["mode"] == "cli" else _direct(case)
    finally:
        clirun.clean(top)


def _cli(case, top):
    o = case["opts"]
    files = models.build(case["spec"])
    stats, log, viol, sigs = {}, [], None, []

    def cnt(k, n=1):
        stats[k] = stats.get(k, 0) + n

    base = os.path.join(top, "b0")
    clirun.prepare(base, files, o)
    b = clirun.process(base, o, world={"names": True}, sim=False)
    ref = clirun.outputs(o, base)
    log.append(["base", b["code"], b["rpc"], sorted((k, core.digest(v.decode("latin1"))) for k, v in ref.items())])
    steps = b["rpc"]
    if b["code"] != 0 or not b["rpc"]:
        return {"violation": None, "stats": {"baseline.failed" if b["code"] else "baseline.no_rpc": 1}, "sig": "", "nontrivial": False, "digest": core.digest(log), "trace": [b["err"]]}
    kinds = sorted(k for k in case["spec"]["kinds"] if k not in models.CHEAP)
    for k, p in enumerate(case["plans"]):
        at = place(p, b["names"])
        root = os.path.join(top, f"p{k}")
        clirun.prepare(root, files, o)
        q = clirun.process(root, o, world={"calls": [{"at": at, "kind": p["kind"]}]}, sim=False)
        steps += q["rpc"]
        got = clirun.outputs(o, root)
        cnt("fault." + p["kind"])
        cnt("lost." + p["kind"])
        cnt("hit." + role(b["names"][at - 1]))
        cnt("exit.zero" if q["code"] == 0 else "exit.nonzero")
        d = clirun.diff(ref, got)
        log.append([k, p["kind"], at, b["names"][at - 1], q["code"], d])
        sigs.append(core.digest([p["kind"], b["names"][at - 1], kinds, q["code"] == 0]))
        if q.get("stall"):
            viol = {"class": "stall", "detail": f"loss of the backend ({p['kind']}) at call {at} ({b['names'][at-1]}): the run did not end"}
        elif q["code"] == 0 and d:
            viol = {"class": "loss_as_result", "detail": f"the backend was lost ({p['kind']}) at remote call {at} of {b['rpc']} ({b['names'][at-1]}), yet the run ended with status 0 and {d}"}
        if viol:
            break
    res = {"violation": viol, "stats": stats, "sigs": sigs, "sig": core.digest(kinds), "nontrivial": True, "digest": core.digest(log + [viol]), "sim_time": steps, "trace": [str(x)[:500] for x in log]}
    if viol:
        res["explicit_case"] = dict(case, plans=[case["plans"][len(log) - 2]])
    return res


def _solve(case):
    """A process system solved; ids replaced by names."""
    import ecalc_neqsim_wrapper.fluid_service as fsvc

    return plant.System(case["spec"], fsvc.NeqSimFluidService.instance()).solve(case["pts"][0])


def _direct(case):
    """One machine evaluated, or one process system solved, directly."""
    stats, log, viol, sigs = {}, [], None, []

    def cnt(k, n=1):
        stats[k] = stats.get(k, 0) + n

    solving = case["mode"] == "plant"
    kind, op = ("process", case["spec"]["kind"]) if solving else (case["kind"], case["op"])
    bench = None if solving else trains.Bench(case["seed"])

    def go(plan):
        def f():
            w = jvm.set_world(jvm.SimWorld(plan))
            trains.service(*(() if case["flash"] is None else (case["flash"], case["flash"])))
            try:
                v = ["ok", _solve(case) if solving else getattr(bench.machine(kind, case["pts"]), op)(case["pts"])]
            except Exception as e:
                v = ["error", type(e).__name__]
            return {"v": v, "names": w.names, "rpc": w.calls}

        return cli.in_fork(f)

    b = go({"names": True})
    log.append([kind, op, core.digest(b["v"]), b["rpc"]])
    steps = b["rpc"]
    if b["v"][0] != "ok" or not b["rpc"]:
        return {"violation": None, "stats": {"baseline.failed" if b["v"][0] != "ok" else "baseline.no_rpc": 1}, "sig": "", "nontrivial": False, "digest": core.digest(log), "trace": [str(b["v"])[:300]]}
    cnt("process" if solving else "lib")
    cnt(("kind." if solving else "lib.") + op)
    for k, p in enumerate(case["plans"]):
        p = dict(p, pos=(p["pos"] + 0.5 * (k // 6)) % 1.0)
        at = place(p, b["names"])
        q = go({"calls": [{"at": at, "kind": p["kind"]}]})
        steps += q["rpc"]
        cnt("fault." + p["kind"])
        cnt("lost." + p["kind"])
        cnt("hit." + role(b["names"][at - 1]))
        cnt("exit.zero" if q["v"][0] == "ok" else "exit.nonzero")
        d = trains.equal(b["v"][1], q["v"][1]) if q["v"][0] == "ok" else None
        log.append([k, p["kind"], at, b["names"][at - 1], q["v"][0], q["v"][1] if q["v"][0] != "ok" else "", d])
        sigs.append(core.digest([p["kind"], b["names"][at - 1], kind, op, q["v"][0]]))
        if d:
            viol = {"class": "loss_as_result", "detail": f"{kind}.{op}: the backend was lost ({p['kind']}) at remote call {at} of {b['rpc']} ({b['names'][at-1]}), yet a result was returned and {d}"}
            break
    res = {"violation": viol, "stats": stats, "sigs": sigs, "sig": core.digest([kind, op]), "nontrivial": True, "digest": core.digest(log + [viol]), "sim_time": steps, "trace": [str(x)[:500] for x in log]}
    if viol:
        res["explicit_case"] = dict(case, plans=[p])
    return res


def shrink(case):
    if case["mode"] == "lib":
        for q in core.shrink_list(case["pts"], 1):
            yield dict(case, pts=q)
    for p in core.shrink_list(case["plans"], 1):
        yield dict(case, plans=p)
    if case["mode"] == "cli":
        for s in models.shrink_spec(case["spec"]):
            yield dict(case, spec=s)
        for o in clirun.shrink_opts(case["opts"]):
            yield dict(case, opts=o)


def describe(case):
    return {k: v for k, v in case.items() if k != "spec"} | ({"kinds": case["spec"]["kinds"]} if case["mode"] == "cli" else {})
