"""C12: a failed validation or evaluation stays failed, and a retry is as good as new."""

from __future__ import annotations

import errno
import os

from dst import clirun, cli, core, fs, jvm, models, trains, ymodel

LEVEL = "exploration"
RULE = (
    "one evaluation = one history of validate, evaluate, result, process simulation and repair steps on one model object, with disk errors, missing or damaged resources and backend failures in some of them; "
    "distinct = distinct (step, fault, outcome) sequences; nontrivial = at least one step failed"
)
REAL = ["libecalc.presentation.yaml (model, mappers, resources)", "libecalc evaluation and result mapping", "ecalc_cli.infrastructure.file_resource_service", "ecalc_neqsim_wrapper"]
STUB = ["disk below the model folder (dst.fs)", "Java process and NeqSim (dst.jvm)"]
ASSUMPTIONS = ["asking for results after a failed evaluation may fail; it may not return anything but the true results"]
COUNTS = {"quick": 1100, "thorough": 60000}
QUICK_S = 110
PROBES = ("validate.failed", "evaluate.failed", "result.failed", "validate.ok_after_failure", "result.ok_after_failure", "broken.series", "broken.facility", "broken.model", "repaired", "fault.errno", "fault.backend",
          "evaluate.unvalidated", "broken.forever", "simulated")
SIM_TIME_UNIT = "disk operations + remote calls"
REPEAT_EVERY = 50

DAMAGE = ["missing", "empty", "garbage", "bad_number", "bad_header", "dup_column"]


def setup():
    cli.setup()


def gen(r, i, tier):
    spec = models.gen_spec(r, r.choice([None, None, "light"]), nsteps=2, include=[], ncons=r.choice([2, 3, 3]))
    spec["crlf"] = False
    if r.random() < 0.4:
        spec["sims"] = r.randrange(1000)
    broken = None
    x = r.random()
    if x < 0.5:
        broken = {"what": r.choice(["series", "facility", "facility"]), "pos": r.random(), "how": r.choice(DAMAGE)}
    elif x < 0.6:
        broken = {"what": "model", "how": r.choice(["genset", "variable", "fuel", "chart", "dates"])}
    ops = []
    n = r.randint(2, 6)
    for _ in range(n):
        op = r.choices(["validate", "evaluate", "result", "simulate"], [3, 2, 1, 2 if "sims" in spec else 0])[0]
        o = {"op": op}
        y = r.random()
        if y < 0.4 and op == "validate":
            o["fault"] = {"kind": "errno", "errno": r.choice(["EIO", "EACCES", "ENOENT", "EMFILE", "ESTALE"]), "pos": r.random()}
        elif y < 0.45 and op not in ("result", "simulate"):
            o["fault"] = {"kind": "backend", "how": r.choice(["java", "crash", "net", "crash_reset", "oom"]), "pos": r.random()}
        ops.append(o)
    if broken and broken["what"] != "model" and r.random() < 0.85:
        ops.insert(r.randint(1, len(ops)), {"op": "repair"})
    return {"spec": spec, "broken": broken, "ops": ops}


def spoil(text, how):
    lines = text.split("\n")
    if how == "empty":
        return ""
    if how == "garbage":
        return "\x00\x01not a table\n;;;;\n"
    if how == "bad_number":
        c = lines[1].split(",")
        c[-1] = "abc"
        return "\n".join([lines[0], ",".join(c)] + lines[2:])
    if how == "bad_header":
        return "\n".join(["X" + lines[0].replace(",", "X,")] + lines[1:])
    if how == "dup_column":
        return "\n".join((ln + "," + ln.split(",")[-1]) if ln else ln for ln in lines)
    raise AssertionError(how)


def spoil_model(text, how):
    import yaml

    if how == "genset":
        return text.replace("ELECTRICITY2FUEL: genset", "ELECTRICITY2FUEL: nothing", 1)
    if how == "variable":
        return text.replace("VALUE: SIM1;WATER_INJ", "VALUE: SIM1;NO_SUCH", 1)
    if how == "fuel":
        return text.replace("FUEL: fuel_gas", "FUEL: no_fuel", 1)
    if how == "chart":
        return text.replace("ENERGYFUNCTION: ", "ENERGYFUNCTION: not_", 1)
    if how == "dates":
        return text.replace("END: 20", "END: 19", 1)
    raise AssertionError(how)


def run(case):
    top = clirun.scratch()
    try:
        return _run(case, top)
    finally:
        clirun.clean(top)


def outcome(fn):
    try:
        return ["ok", fn()]
    except Exception as e:
        return ["error", type(e).__name__, str(e)[:160]]


def fresh(folder, sims=False):
    """Outcomes of the steps on a new model object in a new process."""

    def f():
        w = jvm.set_world(jvm.SimWorld({}))
        trains.service(0, 0)
        m = ymodel.load(folder)
        v = outcome(lambda: m.validate_for_run() and None)
        if v[0] != "ok":
            return {"validate": v, "evaluate": v, "result": v, "simulate": v, "rpc": w.calls}
        s = outcome(lambda: ymodel.simulations(m)) if sims else v
        e = outcome(m.evaluate_energy_usage)
        q = outcome(lambda: ymodel.result(m)) if e[0] == "ok" else e
        return {"validate": v, "evaluate": e, "result": q, "simulate": s, "rpc": w.calls}

    return cli.in_fork(f)


def _run(case, top):
    stats, log, viol, sim = {}, [], None, 0

    def cnt(k, n=1):
        stats[k] = stats.get(k, 0) + n

    files = models.build(case["spec"])
    good = dict(files)
    b = case["broken"]
    target = None
    if b:
        if b["what"] == "model":
            files["model.yaml"] = spoil_model(files["model.yaml"], b["how"])
            if files["model.yaml"] == good["model.yaml"]:
                b = None
        else:
            cand = [f for f in sorted(files) if f.startswith("sim/" if b["what"] == "series" else "einput/")]
            target = cand[min(len(cand) - 1, int(b["pos"] * len(cand)))]
            if b["how"] != "missing":
                files[target] = spoil(files[target], b["how"])
    folder = os.path.join(top, "m")
    ymodel.write(files, folder)
    if target and b["how"] == "missing":
        os.unlink(os.path.join(folder, target))
    cur = fresh(folder, "sims" in case["spec"])
    sim += cur["rpc"]
    log.append(["fresh", cur["validate"][0], cur["evaluate"][0], cur["result"][0], core.digest(cur["result"])])
    if b:
        cnt("broken." + b["what"])
        if not any(o["op"] == "repair" for o in case["ops"]):
            cnt("broken.forever")
    if target and any(o["op"] == "repair" for o in case["ops"]) and cur["validate"][0] != "ok":
        ymodel.write(good, os.path.join(top, "good"))
        repaired = fresh(os.path.join(top, "good"), "sims" in case["spec"])
        sim += repaired["rpc"]
    w = jvm.set_world(jvm.SimWorld({}))
    ns, _ = trains.service(0, 0)
    m = ymodel.load(folder)
    ops = list(case["ops"]) + [{"op": "validate"}, {"op": "evaluate"}, {"op": "result"}] + ([{"op": "simulate"}] if "sims" in case["spec"] else [])
    validated = evaluated = clean = failed = absorbed = False
    sig = []
    for j, o in enumerate(ops):
        op, f = o["op"], o.get("fault")
        if op == "repair":
            if not target or cur["validate"][0] == "ok":
                continue  # what was valid stays as it is
            ymodel.write({target: good[target]}, folder)
            cur = repaired
            cnt("repaired")
            log.append([j, "repair", cur["validate"][0], cur["evaluate"][0], core.digest(cur["result"])])
            continue
        call = {"validate": lambda: m.validate_for_run() and None, "evaluate": m.evaluate_energy_usage, "result": lambda: ymodel.result(m), "simulate": lambda: ymodel.simulations(m)}[op]
        if op == "simulate" and (not validated or "sims" not in case["spec"]):
            continue
        plan, fired = [], False
        if f and f["kind"] == "errno":

            def dry():
                s = fs.SimFS([folder], [])
                s.install()
                outcome(call)
                s.uninstall()
                return s.trace

            tr = cli.in_fork(dry)
            if tr:
                plan = [{"at": tr[min(len(tr) - 1, int(f["pos"] * len(tr)))][0], "kind": "errno", "errno": clirun.ERRNOS[f["errno"]]}]
        elif f:

            def dry():
                c = w.calls
                outcome(call)
                return w.calls - c

            n = cli.in_fork(dry)
            if n:
                w.call_faults[w.calls + 1 + min(n - 1, int(f["pos"] * n))] = f["how"]
        s = fs.SimFS([folder], plan)
        s.install()
        c0 = dict(w.counters)
        try:
            out = outcome(call)
        finally:
            s.uninstall()
        sim += s.n
        w.call_faults.clear()
        fired = bool(s.fired) or w.counters != c0
        if fired:
            cnt("fault." + f["kind"])
        if w.jvms and not w.jvms[-1].alive:
            ns.shutdown()
            ns, _ = trains.service()
        short = out if out[0] == "error" else ["ok", core.digest(out)]
        log.append([j, op, f["kind"] if f else None, fired, short])
        sig.append([op, f["kind"] if f else None, fired, out[0]])
        if op == "evaluate" and out[0] == "ok":
            # one flash reported as failed by a living backend may be answered with a fallback
            absorbed = fired and f["how"] in ("java", "oom")
        elif fired and f["kind"] == "backend" and out[0] == "ok" and f["how"] in ("java", "oom"):
            absorbed = True
        want = cur[op]
        what = f"step {j} ({op}{', ' + str(f) if fired else ''})"
        if out[0] == "error":
            cnt(op + ".failed")
            failed = True
        if op == "validate":
            if out[0] == "ok":
                if want[0] != "ok":
                    viol = {"class": "validated", "detail": f"{what}: reported as validated; a new model object fails with {want[1]}: {want[2]}"}
                validated = True
                if failed:
                    cnt("validate.ok_after_failure")
            elif not fired and want[0] == "ok":
                viol = {"class": "stays_failed", "detail": f"{what}: fails with {out[1]}: {out[2]}, though a new model object validates"}
            elif fired and out[0] == "error" and not validated:
                pass
        elif op == "evaluate":
            if not validated:
                cnt("evaluate.unvalidated")
            if out[0] == "ok":
                if want[0] != "ok":
                    viol = {"class": "evaluated", "detail": f"{what}: succeeds; on a new model object {want[1]}: {want[2]}"}
                evaluated, clean, validated = True, True, True
            else:
                clean = False
                if not fired and want[0] == "ok" and validated:
                    viol = {"class": "stays_failed", "detail": f"{what}: fails with {out[1]}: {out[2]}, though a new model object evaluates"}
        elif op == "simulate":
            if out[0] == "ok":
                cnt("simulated")
                d = trains.equal(out[1], want[1], 1e-9) if want[0] == "ok" else f"{want[1]}: {want[2]}"
                if d:
                    viol = {"class": "simulated", "detail": f"{what}: {d} (this object / a new one)"}
            elif not fired and want[0] == "ok":
                viol = {"class": "stays_failed", "detail": f"{what}: fails with {out[1]}: {out[2]}, though a new model object gives simulations"}
        else:
            if out[0] == "ok":
                if want[0] != "ok":
                    viol = {"class": "result", "detail": f"{what}: returns a result; on a new model object {want[1]}: {want[2]}"}
                elif not absorbed:
                    d = trains.equal(out[1], want[1], 1e-9)
                    if d:
                        viol = {"class": "result", "detail": f"{what}: {d} (this object / a new one)" + ("" if evaluated else "; nothing had been evaluated successfully")}
                if failed:
                    cnt("result.ok_after_failure")
            elif clean and not fired and want[0] == "ok":
                viol = {"class": "stays_failed", "detail": f"{what}: fails with {out[1]}: {out[2]} after a successful evaluation"}
        if viol:
            break
    return {"violation": viol, "stats": stats, "sig": core.digest([sig, b and b["how"]]), "nontrivial": failed, "digest": core.digest(log + [viol]), "sim_time": sim + w.calls, "trace": [str(x)[:300] for x in log]}


def shrink(case):
    for ops in core.shrink_list(case["ops"], 1):
        yield dict(case, ops=ops)
    if case["broken"]:
        yield dict(case, broken=None)
    for j, o in enumerate(case["ops"]):
        if "fault" in o:
            yield dict(case, ops=case["ops"][:j] + [{"op": o["op"]}] + case["ops"][j + 1 :])
    if "sims" in case["spec"]:
        yield dict(case, spec={k: v for k, v in case["spec"].items() if k != "sims"}, ops=[o for o in case["ops"] if o["op"] != "simulate"])
    for s in models.shrink_spec(case["spec"]):
        yield dict(case, spec=s)


def describe(case):
    return {"broken": case["broken"], "ops": case["ops"], "kinds": case["spec"]["kinds"]}
