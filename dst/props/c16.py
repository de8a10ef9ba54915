"""C16: a shared feed is kept in full, and no train keeps more than it can handle."""

from __future__ import annotations

import math

from dst import cli, core, jvm, plant, trains
from dst.props.c13 import Faults

LEVEL = "exploration"
RULE = (
    "one evaluation = one common feed shared between two to five trains under one to three prioritised settings of fractions and overflows, asked before, during and after injected failures; "
    "distinct = distinct (train capabilities, overflow graphs, verdicts); nontrivial = some train could not take its share, or a failure was injected"
)
REAL = ["libecalc.process.stream_distribution", "libecalc.process.process_solver.feasibility_solver with its search", "StreamDistributionItem of the process simulation mapper", "in part of the cases whole process systems (units, shaft, charts, section solver, anti-surge, pressure control)", "ecalc_neqsim_wrapper"]
STUB = ["Java process and NeqSim (dst.jvm)", "in the others the trains' solvers, simulated by the rates they can take"]
ASSUMPTIONS = ["fluid caches off", "the capacity search may stop within 0.02 % of the capacity", "at most one overflow leaves a train", "the solver of a train answers by rate only, not by earlier requests (C09)"]
COUNTS = {"quick": 1500, "thorough": 200000}
QUICK_S = 75
PROBES = ("sim", "real", "overflowed", "kept_nothing", "chain", "merge", "upstream_order", "priority.first", "priority.later", "priority.none", "fault.error", "fault.crash", "fault.refuse", "after_fault", "cycle_refused", "region", "valid_share")
SIM_TIME_UNIT = "remote calls"
REPEAT_EVERY = 40
TOL = 2.5e-4


def setup():
    cli.setup()
    import logging

    logging.disable(logging.CRITICAL)


# ------------------------------------------------------------------ cases
def gen_cap(r, feed, n):
    t = r.choice(["step"] * 6 + ["always", "never", "band", "bands"])
    x = feed / n * r.choice([0.003, 0.2, 0.5, 0.8, 0.97, 1.04, 1.3, 1.6, 2.2, 4.0]) * r.uniform(0.97, 1.03)
    if t == "step":
        return {"t": t, "cap": x}
    if t == "band":
        return {"t": t, "bands": [[x * r.choice([0.1, 0.4, 0.8]), x]]}
    if t == "bands":
        return {"t": "band", "bands": [[0.0, x * 0.3], [x * r.uniform(0.5, 0.8), x]]}
    return {"t": t}


def gen_setting(r, n):
    k = r.choice(["even", "one", "random", "random", "part"])
    if k == "even":
        fr = [1.0 / n] * n
    elif k == "one":
        fr = [0.0] * n
        fr[r.randrange(n)] = 1.0
    else:
        w = [r.choice([0.0, 1, 2, 3, 5]) for _ in range(n)]
        w[r.randrange(n)] += 1
        fr = [x / sum(w) * (1.0 if k == "random" else 0.7) for x in w]
    order = list(range(n))
    r.shuffle(order)
    ov = []
    for k, i in enumerate(order[:-1]):
        if r.random() < 0.7:
            ov.append([i, r.choice(order[k + 1:])])
    r.shuffle(ov)
    return {"fractions": fr, "overflow": ov}


def gen(r, i, tier):
    n = r.choice([2, 2, 3, 3, 4, 5])
    real = r.random() < 0.12
    case = {}
    if real:
        n = r.choice([2, 2, 3])
        spec = plant.gen_spec(r, "distribution")
        while len(spec["sections"]) < n:
            spec["sections"].append(plant.gen_section(r, 1))
        spec["sections"] = spec["sections"][:n]
        pt = plant.gen_point(r, spec)
        pt["rate"] *= r.choice([1, 1, 2])
        case |= {"plant": spec, "point": pt, "targets": [round(pt["targets"][0] * r.choice([1, 1, 0.9, 1.1]), 4) for _ in range(n)]}
    else:
        feed = r.choice([1e6, 3.7e6, 2.5e7, 1e5]) * r.uniform(0.9, 1.1)
        case |= {"feed": feed, "caps": [gen_cap(r, feed, n) for _ in range(n)]}
    case["settings"] = [gen_setting(r, n) for _ in range(1 if real else r.choice([1, 1, 2, 3]))]
    if r.random() < (0.25 if real else 0.5):
        k = r.choice(["error", "refuse", "crash"] if not real else ["crash", "refuse", "region"])
        case["fault"] = {"kind": k, "pos": r.random(), "n": r.choice([1, 1, 3])}
        if k == "region":
            case["fault"] |= {"what": r.choice(["P>", "P<", "T>", "T<", "band"]), "at": r.random(), "width": r.choice([0.02, 0.1, 0.4]), "flash": "any"}
    if r.random() < 0.06:
        case["cycle"] = [r.randrange(n) for _ in range(r.choice([1, 2, 2, 3]))]
    return case


# ------------------------------------------------------------------ simulated trains
def can(cap, rate):
    if cap["t"] == "step":
        return rate <= cap["cap"]
    if cap["t"] == "band":
        return any(lo <= rate <= hi for lo, hi in cap["bands"])
    return cap["t"] == "always"


class Down(Exception):
    """Set by the simulator: the backend of a train went away."""


class Trains:
    """The trains of one case; `solves` counts requests to simulated solvers so that one of them can fail."""

    def __init__(self, case, arm=None):
        self.case, self.arm, self.solves = case, arm, 0

    def _sim(self, i):
        from libecalc.process.process_solver.solver import Solution, TargetDirection, TargetPressureUnreachableFailure

        outer, cap = self, self.case["caps"][i]

        class Sim:
            def find_solution(self, pressure_targets, inlet_stream):
                k = outer.solves
                outer.solves += 1
                ok = can(cap, inlet_stream.standard_rate_sm3_per_day)
                if outer.arm and outer.arm["at"] <= k < outer.arm["at"] + outer.arm["n"]:
                    if outer.arm["kind"] == "refuse":
                        ok = False
                    elif outer.arm["kind"] == "error":
                        from libecalc.common.errors.exceptions import EcalcError

                        raise EcalcError("simulated", "the train can not be computed")
                    else:
                        raise Down("the backend is gone")
                if ok:
                    return Solution(configuration=[])
                return Solution(configuration=[], failure=_unreachable(TargetPressureUnreachableFailure, TargetDirection))

        return Sim()

    def make(self):
        import ecalc_neqsim_wrapper.fluid_service as fsvc

        from libecalc.presentation.yaml.mappers.process_simulation_mapper import StreamDistributionItem
        from libecalc.process.process_solver.feasibility_solver import FeasibilitySolver
        from libecalc.process.process_solver.float_constraint import FloatConstraint

        fs = fsvc.NeqSimFluidService.instance()
        if "plant" in self.case:
            s = plant.System(self.case["plant"], fs)
            solvers, targets, inlet = [x.solver for x in s.systems], self.case["targets"], s.inlet(self.case["point"])
        else:
            fluid = plant.fluid_model({"eos": "SRK", "gas": "light"})
            solvers, targets = [self._sim(i) for i in range(len(self.case["caps"]))], [50.0] * len(self.case["caps"])
            inlet = fs.create_stream_from_standard_rate(fluid_model=fluid, pressure_bara=30.0, temperature_kelvin=300.0, standard_rate_m3_per_day=self.case["feed"])
        items = {f"train{i}": StreamDistributionItem(FeasibilitySolver(x), FloatConstraint(t)) for i, (x, t) in enumerate(zip(solvers, targets))}
        return items, inlet, fs

    def ask(self, which=None):
        """The rates every train is given, and what they are made of."""
        from libecalc.process.stream_distribution.common_stream_distribution import CommonStreamDistribution, Overflow
        from libecalc.process.stream_distribution.priorities_stream_distribution import PrioritiesStreamDistribution

        items, inlet, fs = self.make()
        return self.share(items, inlet, fs, which)

    def share(self, items, inlet, fs, which=None):
        from libecalc.process.stream_distribution.common_stream_distribution import CommonStreamDistribution, Overflow
        from libecalc.process.stream_distribution.priorities_stream_distribution import PrioritiesStreamDistribution

        ds = []
        for k, s in enumerate(self.case["settings"]):
            if which is None or k == which:
                ov = [Overflow(from_id=f"train{a}", to_id=f"train{b}") for a, b in s["overflow"]]
                ds.append(CommonStreamDistribution(inlet_stream=inlet, items=items, rate_fractions=list(s["fractions"]), overflows=ov, fluid_service=fs))
        d = ds[0] if which is not None else PrioritiesStreamDistribution(ds, list(items.values()))
        return {"n": d.get_number_of_streams(), "streams": [[float(x.standard_rate_sm3_per_day), float(x.pressure_bara), float(x.temperature_kelvin), core.digest(str(x.fluid_model))] for x in d.get_streams()],
                "feed": [float(inlet.standard_rate_sm3_per_day), float(inlet.pressure_bara), float(inlet.temperature_kelvin), core.digest(str(inlet.fluid_model))]}


def _unreachable(cls, direction):
    import dataclasses
    import inspect

    kw = {}
    for p in inspect.signature(cls).parameters.values():
        if p.default is inspect.Parameter.empty:
            kw[p.name] = list(direction)[0] if "direction" in p.name else None if "id" in p.name else 1.0
    return cls(**kw)


# ------------------------------------------------------------------ one run
def _region(case):
    f = case.get("fault")
    return [f] if f and f["kind"] == "region" else []


def _new_world(case):
    w = jvm.set_world(jvm.SimWorld({}))
    w.met = set()
    Faults(case, _region(case), w.met).install(w)
    trains.service(0, 0)
    return w


def _guard(f):
    try:
        return ["ok", f()]
    except Exception as e:
        return ["error", type(e).__name__, str(e)[:120]]


def run(case):
    stats, log, viol, sig, steps = {}, [], None, [], 0

    def cnt(k, n=1):
        stats[k] = stats.get(k, 0) + n

    real = "plant" in case
    n = len(case["plant"]["sections"]) if real else len(case["caps"])
    cnt("real" if real else "sim")
    if not real:
        sig.append([c["t"] for c in case["caps"]])
    for s in case["settings"]:
        pos = {b for _, b in s["overflow"]}
        if any(a in pos for a, _ in s["overflow"]):
            cnt("chain")
        if len(pos) < len(s["overflow"]):
            cnt("merge")
        if any(b < a for a, b in s["overflow"]):
            cnt("upstream_order")
        sig.append([sorted(map(tuple, s["overflow"])), [x > 0 for x in s["fractions"]]])

    def feasible(i, rate):
        """What a fresh train says of this rate; None when it hangs on the last digits."""
        if rate <= 0:
            return True
        if not real:
            got = [can(case["caps"][i], rate * x) for x in (1 - 1e-6, 1, 1 + 1e-6)]
        else:

            def one():
                from libecalc.process.process_solver.float_constraint import FloatConstraint

                w = _new_world(case)
                import ecalc_neqsim_wrapper.fluid_service as fsvc

                out = []
                for x in (1 - 1e-6, 1, 1 + 1e-6):
                    s = plant.System(case["plant"], fsvc.NeqSimFluidService.instance())
                    out.append(_guard(lambda: s.systems[i].solver.find_solution([FloatConstraint(case["targets"][i])], s.inlet(case["point"]).with_standard_rate(rate * x)).success))
                return {"out": out, "rpc": w.calls}

            q = cli.in_fork(one)
            nonlocal steps
            steps += q["rpc"]
            if any(x[0] == "error" for x in q["out"]):
                return None
            got = [x[1] for x in q["out"]]
        return got[0] if got[0] == got[1] == got[2] else None

    # each setting on its own, on fresh trains
    single = []
    for k, s in enumerate(case["settings"]):

        def one(k=k):
            w = _new_world(case)
            t = Trains(case)
            return {"v": _guard(lambda: t.ask(k)), "rpc": w.calls, "met": sorted(w.met)}

        q = cli.in_fork(one)
        steps += q["rpc"]
        for m in q["met"]:
            cnt("region")
        v = q["v"]
        log.append(["setting", k, v])
        single.append(v)
        if v[0] == "error":
            if not real:
                viol = {"class": "refused", "detail": f"setting {k}: {v[1]}: {v[2]}"}
            sig.append(v[1])
            continue
        viol = viol or judge(case, s, v[1], feasible, cnt, n)
        sig.append("ok")
    if viol is None:
        viol = _priorities(case, single, feasible, cnt, log, sig)
    if viol is None and "fault" in case and case["fault"]["kind"] != "region":
        viol, st = _faulted(case, cnt, log, sig)
        steps += st
    if viol is None and "cycle" in case:
        viol = _cycle(case, n, cnt)
    return {"violation": viol, "stats": stats, "sig": core.digest(sig), "nontrivial": "overflowed" in stats or "fault" in case, "digest": core.digest(log + [viol]), "sim_time": steps, "trace": [str(x)[:400] for x in log]}


def judge(case, s, got, feasible, cnt, n, exact=True):
    feed = got["feed"][0]
    if got["n"] != n or len(got["streams"]) != n:
        return {"class": "count", "detail": f"{len(got['streams'])} streams for {n} trains"}
    rates = [x[0] for x in got["streams"]]
    for i, x in enumerate(got["streams"]):
        if x[1:] != got["feed"][1:]:
            return {"class": "condition", "detail": f"train {i} is given a stream at {x[1:3]} where the feed is at {got['feed'][1:3]} (or of another composition)"}
    eps = 1e-9 * feed + 1e-6
    if not all(math.isfinite(x) and x >= -eps for x in rates):
        return {"class": "rate", "detail": f"rates {rates}"}
    want = feed * math.fsum(s["fractions"])
    if abs(math.fsum(rates) - want) > eps * n:
        return {"class": "conservation", "detail": f"the trains are given {math.fsum(rates)!r} of {want!r} Sm3/day"}
    # asked of every train, in overflow order
    to = dict(reversed([tuple(x) for x in s["overflow"]]))
    asked, done = {}, set()
    while len(done) < n:
        for i in range(n):
            up = [a for a in to if to[a] == i]
            if i in done or not all(a in done for a in up):
                continue
            asked[i] = s["fractions"][i] * feed + math.fsum(asked[a] - rates[a] for a in up)
            done.add(i)
    for i in range(n):
        ex = asked[i] - rates[i]
        if i not in to:
            if abs(ex) > eps * n:
                return {"class": "share", "detail": f"train {i} has a share of {s['fractions'][i]} and overflow in, together {asked[i]!r} Sm3/day, but is given {rates[i]!r}"}
            continue
        if not -eps * n <= ex <= asked[i] + eps * n:
            return {"class": "share", "detail": f"train {i} is asked to take {asked[i]!r} Sm3/day and is given {rates[i]!r}"}
        if ex <= eps * n:
            cnt("valid_share")
            if exact and feasible(i, asked[i]) is False:
                return {"class": "overload", "detail": f"train {i} can not take {asked[i]!r} Sm3/day, and passes nothing on"}
            continue
        cnt("overflowed")
        if not exact:
            continue
        if feasible(i, asked[i]) is True:
            return {"class": "excess", "detail": f"train {i} can take {asked[i]!r} Sm3/day, but keeps only {rates[i]!r}"}
        if rates[i] <= eps * n:
            cnt("kept_nothing")
        elif feasible(i, rates[i]) is False:
            return {"class": "overload", "detail": f"train {i} passes {ex!r} Sm3/day on and keeps {rates[i]!r}, which it can not take either"}
        if "caps" in case and case["caps"][i]["t"] == "step" and abs(rates[i] - case["caps"][i]["cap"]) > TOL * max(1.0, case["caps"][i]["cap"]):
            return {"class": "excess", "detail": f"train {i} can take {case['caps'][i]['cap']!r} Sm3/day, but keeps {rates[i]!r} of {asked[i]!r}"}
    return None


def _priorities(case, single, feasible, cnt, log, sig):
    def one():
        w = _new_world(case)
        return {"v": _guard(lambda: Trains(case).ask()), "rpc": w.calls}

    v = cli.in_fork(one)["v"]
    log.append(["prioritised", v])
    first = None
    for k, s in enumerate(single):
        if s[0] == "error":
            first = s
            break
        ok = [feasible(i, x[0]) for i, x in enumerate(s[1]["streams"])]
        if any(x is None for x in ok):
            return None
        if all(ok):
            first = s
            cnt("priority.first" if k == 0 else "priority.later")
            break
    else:
        first = single[-1]
        cnt("priority.none")
    sig.append(["prio", single.index(first)])
    if v[0] != first[0]:
        return {"class": "priority", "detail": f"the settings give {v}, alone {first}"} if v[0] == "ok" or "plant" not in case else None
    if v[0] == "error":
        return None
    for a, b in zip(v[1]["streams"], first[1]["streams"], strict=True):
        if abs(a[0] - b[0]) > 1e-9 * abs(b[0]) + 1e-6:
            return {"class": "priority", "detail": f"setting {single.index(first)} is the first that every train can take (or the last), with rates {[x[0] for x in first[1]['streams']]}; chosen were {[x[0] for x in v[1]['streams']]}"}
    return None


def _faulted(case, cnt, log, sig):
    f, real = case["fault"], "plant" in case

    def dry():
        w = _new_world(case)
        t = Trains(case)
        items, inlet, fs = t.make()
        c0 = w.calls
        v = _guard(lambda: t.share(items, inlet, fs))
        return {"v": v, "total": w.calls - c0 if real else t.solves, "rpc": w.calls}

    d = cli.in_fork(dry)
    base, total = d["v"], d["total"]
    if base[0] == "error" or not total:
        return None, d["rpc"]

    def one():
        at = min(total - 1, int(f["pos"] * total))
        w = _new_world(case)
        t = Trains(case)
        items, inlet, fs = t.make()
        if real:
            for k in range(f["n"] if f["kind"] == "refuse" else 1):
                w.call_faults[w.calls + 1 + at + k] = "java" if f["kind"] == "refuse" else "crash"
        else:
            t.arm = {"at": at, "n": f["n"], "kind": f["kind"]}
        hit = _guard(lambda: t.share(items, inlet, fs))
        fired = t.solves > at if not real else any(w.calls >= a for a in w.call_faults)
        t.arm = None
        w.call_faults.clear()
        after = None
        if not real or w.jvms[-1].alive:
            after = _guard(lambda: t.share(items, inlet, fs))
        return {"hit": hit, "fired": fired, "after": after, "rpc": w.calls}

    q = cli.in_fork(one)
    q["rpc"] += d["rpc"]
    if not q["fired"]:
        return None, q["rpc"]
    cnt("fault." + f["kind"])
    log.append([f["kind"], q["hit"][:2] if q["hit"][0] == "error" else q["hit"], q["after"]])
    sig.append([f["kind"], q["hit"][0]])
    if f["kind"] in ("error", "crash") and q["hit"][0] == "ok":
        return {"class": "lost", "detail": f"a train could not be computed ({f['kind']}), and the feed is shared all the same: {[x[0] for x in q['hit'][1]['streams']]}"}, q["rpc"]
    if q["hit"][0] == "ok":
        feed, tot = q["hit"][1]["feed"][0], math.fsum(x[0] for x in q["hit"][1]["streams"])
        if not any(abs(tot - feed * math.fsum(s["fractions"])) <= 1e-9 * feed * 5 + 1e-5 for s in case["settings"]):
            return {"class": "conservation", "detail": f"after refusals the trains are given {tot!r} of {feed!r} Sm3/day"}, q["rpc"]
    if q["after"] is not None:
        cnt("after_fault")
        diff = trains.equal(q["after"], base)
        if diff:
            return {"class": "history", "detail": f"the same request after a failed one is answered differently: {diff}"}, q["rpc"]
    return None, q["rpc"]


def _cycle(case, n, cnt):
    def one():
        from libecalc.process.stream_distribution.common_stream_distribution import CommonStreamDistribution, Overflow

        _new_world(case)
        items, inlet, fs = Trains(case).make()
        c = case["cycle"]
        c = [x for k, x in enumerate(c) if x not in c[:k]]
        ov = [Overflow(from_id=f"train{a}", to_id=f"train{b}") for a, b in zip(c, c[1:] + c[:1])]

        def f():
            d = CommonStreamDistribution(inlet_stream=inlet, items=items, rate_fractions=[1.0 / n] * n, overflows=ov, fluid_service=fs)
            return [x.standard_rate_sm3_per_day for x in d.get_streams()]

        return _guard(f)

    v = cli.in_fork(one)
    if v[0] == "ok":
        return {"class": "cycle", "detail": f"overflow in a cycle is accepted: {v[1]}"}
    cnt("cycle_refused")
    return None


# ------------------------------------------------------------------ minimising
def shrink(case):
    for s in core.shrink_list(case["settings"], 1):
        if s:
            yield dict(case, settings=s)
    for k in ("fault", "cycle"):
        if k in case:
            yield {a: b for a, b in case.items() if a != k}
    for k, s in enumerate(case["settings"]):
        for o in core.shrink_list(s["overflow"], 0):
            yield dict(case, settings=case["settings"][:k] + [dict(s, overflow=o)] + case["settings"][k + 1:])
    n = len(case.get("caps", case.get("targets")))
    used = {x for s in case["settings"] for o in s["overflow"] for x in o}
    last = n - 1
    if n > 2 and last not in used and all(s["fractions"][last] == 0.0 for s in case["settings"]) and "cycle" not in case:
        c = dict(case, settings=[dict(s, fractions=s["fractions"][:-1]) for s in case["settings"]])
        if "caps" in case:
            yield dict(c, caps=case["caps"][:-1])
        else:
            yield dict(c, targets=case["targets"][:-1], plant=dict(case["plant"], sections=case["plant"]["sections"][:-1]))
    for i, c in enumerate(case.get("caps", [])):
        if c["t"] != "always":
            yield dict(case, caps=case["caps"][:i] + [{"t": "always"}] + case["caps"][i + 1:])


def describe(case):
    out = []
    if "plant" in case:
        out.append(f"feed {case['point']['rate']:.0f} Sm3/d at {case['point']['ps']} bara, trains to {case['targets']} bara: " + " | ".join(f"{x['pc']}" for x in case["plant"]["sections"]))
    else:
        out.append(f"feed {case['feed']:.0f} Sm3/d, trains: {case['caps']}")
    for k, s in enumerate(case["settings"]):
        out.append(f"setting {k}: fractions {[round(x, 4) for x in s['fractions']]}, overflow " + ", ".join(f"{a}->{b}" for a, b in s["overflow"]))
    for k in ("fault", "cycle"):
        if k in case:
            out.append(f"{k}: {case[k]}")
    return out
