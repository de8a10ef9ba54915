"""C10: a time step's compressor or pump result depends on that time step only."""

from __future__ import annotations

import os

from dst import clirun, cli, core, jvm, models, trains, ymodel

LEVEL = "exploration"
RULE = (
    "one evaluation = one history of evaluations, capacity queries and aborted evaluations on up to two machines sharing charts and fluid service, or one model with several time steps; "
    "distinct = distinct (machine kinds, operations, verdicts per point); nontrivial = a machine was used more than once or for more than one point"
)
REAL = ["libecalc.domain.process (trains, stages, turbine, sampled compressors, pumps)", "libecalc.presentation.yaml (mappers, model)", "consumer functions, systems, generator sets, result mapping", "ecalc_neqsim_wrapper"]
STUB = ["Java process and NeqSim (dst.jvm)"]
ASSUMPTIONS = ["fluid caches off, so that equal requests give exactly equal answers (caches are C02)", "trains whose charts are generated from the model's own input are created from the same input on both sides"]
COUNTS = {"quick": 480, "thorough": 60000}
QUICK_S = 150
PROBES = ("op.eval", "op.max", "op.abort", "aborted", "abort.survived", "batch>1", "repeat", "two_machines", "rows", "point.NO_FAILURE", "point.failed", "calc_max_rate", "max_power_seen")
SIM_TIME_UNIT = "remote calls"
REPEAT_EVERY = 30
RTOL = 1e-8
SKIP = ("cumulative", "hydrocarbon_export_rate_cum", "periods")


def setup():
    cli.setup()


ROW_KINDS = ["direct", "tab_pump", "pump_ss", "pump_vs", "pump_system", "sampled", "sampled3", "tabulated", "sampled_system", "vs_one", "vs_train", "ss_train", "vs_turbine", "vs_system", "multi", "flare"]


def gen(r, i, tier):
    if r.random() < 0.2:
        s = models.gen_spec(r, "light", nsteps=r.choice([2, 3, 4, 5]), installs=1)
        s["kinds"] = r.sample(ROW_KINDS[:9], 2) + r.sample(ROW_KINDS[9:], r.randint(1, 2))
        for k in range(1, len(s["rows"])):
            if r.random() < 0.25:
                s["rows"][k] = list(s["rows"][r.randrange(k)])
        return {"mode": "rows", "spec": s}
    kinds = [r.choices(trains.KINDS, [0.4 if k == "vs_turbine" else 0.7 if k in ("vs_train", "vs_one") else 0.5 if k.startswith("sampled") else 1 for k in trains.KINDS])[0]]
    if r.random() < 0.3:
        kinds.append(r.choice(trains.KINDS if r.random() < 0.5 else [kinds[0]]))
    cheap = all(k.startswith(("pump", "sampled")) for k in kinds)
    pools = [[trains.gen_point(r, k) for _ in range(r.randint(4, 7) if cheap else r.randint(2, 4))] for k in kinds]
    for k, pool in zip(kinds, pools):  # often constant but for one quantity, as time series are
        for j in range(1, len(pool)):
            if k != "multi" and r.random() < 0.35:
                f = r.choice(sorted(pool[0]))
                pool[j] = dict(pool[0], **{f: pool[j][f]})
    ops = []
    for _ in range(r.randint(4, 8) if cheap else r.randint(2, 5)):
        m = r.randrange(len(kinds))
        idx = [r.randrange(len(pools[m])) for _ in range(r.choice([1, 2, 3, 4, 5]) if cheap else r.choice([1, 1, 2, 3]))]
        x = r.random()
        if x < 0.5:
            ops.append({"op": "eval", "m": m, "idx": idx})
        elif x < 0.72:
            ops.append({"op": "max", "m": m, "idx": idx})
        else:
            ops.append({"op": "abort", "m": m, "idx": idx, "what": r.choice(["eval", "eval", "max"]), "kind": r.choice(["java", "java", "crash", "net", "crash_reset"]), "pos": r.random()})
    ops.append({"op": "eval", "m": r.randrange(len(kinds)), "idx": [0]})
    return {"mode": "machine", "seed": r.randrange(1 << 20), "kinds": kinds, "pools": pools, "ops": ops}


def _do(machine, what, pts):
    try:
        return ["ok", machine.evaluate(pts) if what == "eval" else machine.max_rate(pts)]
    except Exception as e:
        return ["error", type(e).__name__, str(e)[:200]]


def _allowed(kind, what):
    return not (what == "max" and kind == "multi")


def run(case):
    return _rows(case) if case["mode"] == "rows" else _machine(case)


def _machine(case):
    stats, log, viol, steps = {}, [], None, 0

    def cnt(k, n=1):
        stats[k] = stats.get(k, 0) + n

    kinds, pools = case["kinds"], case["pools"]
    need = set()
    for o in case["ops"]:
        what = {"eval": "eval", "max": "max"}.get(o["op"], o.get("what"))
        if o["op"] != "abort" and _allowed(kinds[o["m"]], what):
            need |= {(o["m"], what, k) for k in o["idx"]}

    alone = {}
    for m, what, k in sorted(need):

        def one():
            w = jvm.set_world(jvm.SimWorld({}))
            trains.service(0, 0)
            v = _do(trains.Bench(case["seed"]).machine(kinds[m], pools[m]), what, [pools[m][k]])
            return {"v": v, "rpc": w.calls}

        q = cli.in_fork(one)
        alone[m, what, k] = q["v"]
        steps += q["rpc"]
        log.append(["alone", m, what, k, core.digest(q["v"])])
    w = jvm.set_world(jvm.SimWorld({}))
    ns, _ = trains.service(0, 0)
    bench = trains.Bench(case["seed"])
    machines = [bench.machine(k, p) for k, p in zip(kinds, pools)]
    if len(machines) > 1:
        cnt("two_machines")
    seen, sig = set(), [kinds]
    for j, o in enumerate(case["ops"]):
        m = o["m"]
        pts = [pools[m][k] for k in o["idx"]]
        what = {"eval": "eval", "max": "max"}.get(o["op"], o.get("what"))
        if not _allowed(kinds[m], what):
            continue
        cnt("op." + o["op"])
        if o["op"] == "abort":
            base = cli.in_fork(lambda: _count(w, machines[m], what, pts))  # remote calls it would make undisturbed
            if base:
                at = w.calls + 1 + min(base - 1, int(o["pos"] * base))
                w.call_faults[at] = o["kind"]
                cnt("fault." + o["kind"])
                v = _do(machines[m], what, pts)
                w.call_faults.pop(at, None)
                cnt("aborted" if v[0] == "error" else "abort.survived")
                if not w.jvms[-1].alive:
                    ns.shutdown()
                    ns, _ = trains.service()
                log.append([j, "abort", o["kind"], at, v[0], v[1] if v[0] == "error" else core.digest(v)])
                sig.append([o["op"], m, what, o["kind"], v[0]])
            continue
        if len(pts) > 1:
            cnt("batch>1")
        if m in seen:
            cnt("repeat")
        seen.add(m)
        v = _do(machines[m], what, pts)
        log.append([j, o["op"], m, o["idx"], core.digest(v)])
        want = [alone[m, what, k] for k in o["idx"]]
        errs = [x for x in want if x[0] == "error"]
        sig.append([o["op"], m, v[0], [str(x[1].get("failure_status", "")) if isinstance(x[1], dict) else "" for x in want if x[0] == "ok"]])
        for x in want:
            if x[0] == "ok" and isinstance(x[1], dict):
                fst = str(x[1].get("failure_status"))
                cnt("point.NO_FAILURE" if "NO_FAILURE" in fst else "point.failed")
                if "MAXIMUM_POWER" in fst:
                    cnt("max_power_seen")
                if any(isinstance(y, float) for y in x[1].get("max_standard_rate") or []):
                    cnt("calc_max_rate")
        d = None
        if errs:
            if v[0] != "error":
                d = f"point that fails alone with {errs[0][1]} does not fail here"
            elif v[1:] not in [x[1:] for x in errs]:
                d = f"fails with {v[1:]}, alone with {errs[0][1:]}"
        elif v[0] == "error":
            d = f"fails with {v[1]}: {v[2]}, though every point succeeds alone"
        else:
            for n, k in enumerate(o["idx"]):
                d = trains.compare(v[1], want[n][1], len(pts), n, RTOL)
                if d:
                    d = f"point {k} {pools[m][k]} (position {n} of {len(pts)}): {d}"
                    break
        if d:
            viol = {"class": "history", "detail": f"{kinds[m]} {o['op']} as operation {j}: {d} (here / alone on a fresh model)"}
            break
    return {"violation": viol, "stats": stats, "sig": core.digest(sig), "nontrivial": len(case["ops"]) > 1, "digest": core.digest(log + [viol]), "sim_time": steps + w.calls, "trace": [str(x)[:400] for x in log]}


def _count(w, machine, what, pts):
    c = w.calls
    _do(machine, what, pts)
    return w.calls - c


def _rows(case):
    spec = dict(case["spec"], include=[], crlf=False)
    top = clirun.scratch()
    steps = 0
    try:

        def one(s, folder):
            def f():
                w = jvm.set_world(jvm.SimWorld({}))
                trains.service(0, 0)
                ymodel.write(models.build(s), folder)
                try:
                    m = ymodel.load(folder).validate_for_run()
                    m.evaluate_energy_usage()
                    v = ["ok", ymodel.result(m)]
                except Exception as e:
                    v = ["error", type(e).__name__, str(e)[:200]]
                return {"v": v, "rpc": w.calls}

            return cli.in_fork(f)

        full = one(spec, os.path.join(top, "full"))
        log, viol = [["full", core.digest(full["v"])]], None
        steps += full["rpc"]
        n = len(spec["rows"])
        if full["v"][0] != "ok":
            return {"violation": None, "stats": {"rows.failed": 1}, "sig": "", "nontrivial": False, "digest": core.digest(log), "trace": [str(full["v"])]}
        for i in range(n if n > 1 else 0):
            a = one(dict(spec, rows=[spec["rows"][i]], first=i), os.path.join(top, f"r{i}"))
            steps += a["rpc"]
            log.append([i, core.digest(a["v"])])
            d = str(a["v"][1:]) if a["v"][0] != "ok" else trains.compare(full["v"][1], a["v"][1], n, i, RTOL, skip=SKIP)
            if d:
                viol = {"class": "rows", "detail": f"time step {i} of {n}: {d} (whole model / model with this step only)"}
                break
        return {"violation": viol, "stats": {"rows": 1, "batch>1": 1}, "sig": core.digest([spec["kinds"], n]), "nontrivial": True, "digest": core.digest(log + [viol]), "sim_time": steps, "trace": [str(x)[:300] for x in log]}
    finally:
        clirun.clean(top)


def shrink(case):
    if case["mode"] == "rows":
        for s in models.shrink_spec(case["spec"]):
            if len(s["rows"]) >= 2:
                yield dict(case, spec=s)
        return
    for ops in core.shrink_list(case["ops"], 1):
        yield dict(case, ops=ops)
    for j, o in enumerate(case["ops"]):
        for idx in core.shrink_list(o["idx"], 1):
            yield dict(case, ops=case["ops"][:j] + [dict(o, idx=idx)] + case["ops"][j + 1 :])


def describe(case):
    return case if case["mode"] == "machine" else {"mode": "rows", "kinds": case["spec"]["kinds"], "rows": case["spec"]["rows"]}
