"""C09: a process solution does not depend on what was solved before."""

from __future__ import annotations

from dst import cli, core, jvm, plant, sched, trains

LEVEL = "exploration"
RULE = (
    "one evaluation = one history of solves, aborted solves and excess-rate or distribution requests on one or two process systems, one after another or from two threads; "
    "distinct = distinct (system kinds, pressure controls, operations, verdicts); nontrivial = a system was asked more than once"
)
REAL = ["libecalc.process (units, shaft, pipeline sections, all solvers, finders, anti-surge and pressure-control strategies, stream distribution)", "compressor charts", "ecalc_neqsim_wrapper"]
STUB = ["Java process and NeqSim (dst.jvm)"]
ASSUMPTIONS = ["fluid caches off, so that equal requests give exactly equal answers (caches are C02)", "thread switches happen at calls to the backend"]
COUNTS = {"quick": 420, "thorough": 60000}
QUICK_S = 120
PROBES = ("op.solve", "op.abort", "aborted", "abort.survived", "repeat", "two_systems", "threads", "switched", "verdict.success", "verdict.failed", "verdict.error", "applied_fresh") + tuple(
    "kind." + k for k in plant.KINDS) + tuple("pc." + p for p in plant.PC)
SIM_TIME_UNIT = "remote calls"
REPEAT_EVERY = 30


def setup():
    cli.setup()
    import logging

    logging.disable(logging.CRITICAL)


def gen(r, i, tier):
    n = 2 if r.random() < 0.35 else 1
    specs = [plant.gen_spec(r)]
    if n == 2:
        specs.append(specs[0] if r.random() < 0.4 else plant.gen_spec(r))
    pools = [[plant.gen_point(r, s) for _ in range(r.randint(2, 4))] for s in specs]
    ops = []
    for _ in range(r.randint(2, 6)):
        m = r.randrange(n)
        o = {"op": "solve", "m": m, "k": r.randrange(len(pools[m]))}
        if r.random() < 0.35:
            o |= {"op": "abort", "kind": r.choice(["java", "java", "crash", "net", "crash_reset", "interrupt"]), "pos": r.random()}
        ops.append(o)
    m = r.randrange(n)
    ops.append({"op": "solve", "m": m, "k": r.randrange(len(pools[m]))})
    case = {"specs": specs, "pools": pools, "ops": ops}
    if n == 2 and r.random() < 0.6:
        case["schedule"] = {"mode": "rand", "seed": r.randrange(1 << 30), "p": r.choice([0.0003, 0.002, 0.01, 0.1])}
        case["ops"] = [dict(o, op="solve") for o in ops[:4]]
    return case


class Interrupt(BaseException):
    """The user stops the computation."""


def _solve(sys_, pt):
    try:
        return ["ok", sys_.solve(pt)]
    except Exception as e:
        t = str(e)
        for k, v in sys_.names.items():
            t = t.replace(str(k), v)
        return ["error", type(e).__name__, t[:160]]


def _world(names=False):
    w = jvm.set_world(jvm.SimWorld({}))
    return w


def _fresh(spec, charts=None):
    import ecalc_neqsim_wrapper.fluid_service as fsvc

    return plant.System(spec, fsvc.NeqSimFluidService.instance())


def run(case):
    stats, log, viol, steps = {}, [], None, 0

    def cnt(k, n=1):
        stats[k] = stats.get(k, 0) + n

    specs, pools = case["specs"], case["pools"]
    alone = {}
    for m, k in sorted({(o["m"], o["k"]) for o in case["ops"] if o["op"] == "solve"}):

        def one():
            w = _world()
            trains.service(0, 0)
            v = _solve(_fresh(specs[m]), pools[m][k])
            rpc, ap = w.calls, None
            if v[0] == "ok" and v[1].get("success"):
                try:
                    ap = _fresh(specs[m]).outlets(v[1]["configuration"], pools[m][k])
                except Exception as e:
                    ap = "raises " + type(e).__name__
            return {"v": v, "rpc": rpc, "apply": ap}

        q = cli.in_fork(one)
        alone[m, k] = q["v"]
        steps += q["rpc"]
        log.append(["alone", m, k, core.digest(q["v"])])
        v = q["v"]
        cnt("verdict.error" if v[0] == "error" else "verdict.success" if v[1].get("success", True) else "verdict.failed")
        if q["apply"] is not None:
            cnt("applied_fresh")
            d = plant_equal(v[1]["outlets"], q["apply"])
            if isinstance(v[1]["outlets"], str):
                d = v[1]["outlets"]
            if d and viol is None:
                viol = {"class": "configuration", "detail": f"applying the returned configuration to a fresh identical system does not give the reported outlet {d}"}
    if viol is not None:
        return _res(stats, log, viol, [], steps, True)
    w = _world()
    ns, _ = trains.service(0, 0)
    systems = [_fresh(s) for s in specs]
    if len(systems) > 1:
        cnt("two_systems")
    for s in specs:
        cnt("kind." + s["kind"])
        for x in s["sections"]:
            cnt("pc." + x["pc"])
    sig = [[(s["kind"], [x["pc"] for x in s["sections"]]) for s in specs]]
    if "schedule" in case:
        return _threads(case, stats, cnt, log, alone, systems, w, steps, sig)
    seen = set()
    for j, o in enumerate(case["ops"]):
        m, pt = o["m"], pools[o["m"]][o["k"]]
        cnt("op." + o["op"])
        if o["op"] == "abort":
            base = cli.in_fork(lambda: _count(w, systems[m], pt))
            if not base:
                continue
            at = w.calls + 1 + min(base - 1, int(o["pos"] * base))
            cnt("fault." + o["kind"])
            if o["kind"] == "interrupt":

                def yh(tag, at=at):
                    if w.calls == at:
                        raise Interrupt()

                w.yield_hook = yh
                try:
                    v = _solve(systems[m], pt)
                except Interrupt:
                    v = ["error", "Interrupt", ""]
                w.yield_hook = None
            else:
                w.call_faults[at] = o["kind"]
                v = _solve(systems[m], pt)
                w.call_faults.pop(at, None)
            cnt("aborted" if v[0] == "error" else "abort.survived")
            if not w.jvms[-1].alive:
                ns.shutdown()
                ns, _ = trains.service()
            log.append([j, "abort", o["kind"], at, v[0], core.digest(v)])
            sig.append([o["op"], m, o["kind"], v[0]])
            seen.add(m)
            continue
        if m in seen:
            cnt("repeat")
        seen.add(m)
        v = _solve(systems[m], pt)
        log.append([j, m, o["k"], core.digest(v)])
        sig.append(["solve", m, _verdict(v)])
        d = trains.equal(v, alone[m, o["k"]])
        if d:
            viol = {"class": "history", "detail": f"step {j}: {specs[m]['kind']} system asked for point {o['k']} of {len(pools[m])}: {_where(d)}"}
            break
    steps += w.calls
    return _res(stats, log, viol, sig, steps, "repeat" in stats)


def _threads(case, stats, cnt, log, alone, systems, w, steps, sig):
    cnt("threads")
    specs, pools = case["specs"], case["pools"]
    s = sched.Sched(case["schedule"], max_steps=20_000_000)
    got = {}

    def body(m):
        def f():
            for j, o in enumerate(case["ops"]):
                if o["m"] == m:
                    got[j] = _solve(systems[m], pools[m][o["k"]])

        return f

    for m in range(len(systems)):
        s.spawn(body(m))

    def yh(tag):
        t = sched._me()
        if t is not None:
            s.yield_point(t, tag)

    w.yield_hook = yh
    s.run()
    w.yield_hook = None
    if s.preemptions:
        cnt("switched")
    viol = {"class": "blocked", "detail": s.failure} if s.failure else None
    for t in s.threads:
        if t.exc is not None and viol is None:
            viol = {"class": "thread_died", "detail": f"{type(t.exc).__name__}: {t.exc}"}
    for j in sorted(got):
        o = case["ops"][j]
        log.append([j, o["m"], o["k"], core.digest(got[j])])
        sig.append([o["m"], _verdict(got[j])])
        d = trains.equal(got[j], alone[o["m"], o["k"]])
        if d and viol is None:
            viol = {"class": "interleaving", "detail": f"step {j}: {specs[o['m']]['kind']} system solved while another thread solves another system: {_where(d)}"}
    explicit = dict(case, schedule={"mode": "list", "switches": s.switches}) if len(s.switches) < 3000 else None
    return _res(stats, log, viol, sig + [len(s.switches)], steps + w.calls, True, explicit)


def _res(stats, log, viol, sig, steps, nontrivial, explicit=None):
    out = {"violation": viol, "stats": stats, "sig": core.digest(sig), "nontrivial": nontrivial, "digest": core.digest(log + [viol]), "sim_time": steps, "trace": [str(x)[:300] for x in log]}
    if explicit:
        out["explicit_case"] = explicit
    return out


def _count(w, s, pt):
    c0 = w.calls
    _solve(s, pt)
    return w.calls - c0


def _verdict(v):
    if v[0] == "error":
        return v[1]
    f = v[1].get("failure")
    return f["type"] if f else "ok"


def _where(d):
    return "the answer differs from that of a fresh system: " + d[:300]


def plant_equal(a, b):
    if isinstance(b, str):
        return b
    return trains.equal(a, b)


def shrink(case):
    for o in core.shrink_list(case["ops"], 1):
        if any(x["op"] == "solve" for x in o):
            yield dict(case, ops=o)
    if "schedule" in case:
        for s in sched.shrink_schedule(case["schedule"]):
            yield dict(case, schedule=s)
    for j, o in enumerate(case["ops"]):
        if o["op"] == "abort" and o["pos"] > 0.001:
            yield dict(case, ops=case["ops"][:j] + [dict(o, pos=o["pos"] / 2)] + case["ops"][j + 1:])
    for m, s in enumerate(case["specs"]):
        if s["kind"] == "single":
            for st in core.shrink_list(s["sections"][0]["stages"], 1):
                if st:
                    yield dict(case, specs=case["specs"][:m] + [dict(s, sections=[dict(s["sections"][0], stages=st)])] + case["specs"][m + 1:])


def describe(case):
    out = []
    for m, s in enumerate(case["specs"]):
        out.append(f"system {m}: {s['kind']} " + " | ".join(f"{x['pc']} x{len(x['stages'])}" for x in s["sections"]))
    for j, o in enumerate(case["ops"]):
        pt = case["pools"][o["m"]][o["k"]]
        out.append(f"{j}: {'solve' if o['op'] == 'solve' else 'solve aborted by ' + o['kind'] + f' at {o["pos"]:.3f}'} on system {o['m']}: {pt['rate']:.0f} Sm3/d, {pt['ps']} -> {pt['targets']} bara")
    if "schedule" in case:
        out.append(f"threads: {case['schedule']}")
    return out
