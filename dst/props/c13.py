"""C13: process solving always ends with an honest verdict, whatever the backend does."""

from __future__ import annotations

import math

from dst import cli, core, jvm, plant, trains

LEVEL = "exploration"
RULE = (
    "one evaluation = one to three solves of a process system, or evaluations and maximum-rate searches of a compressor train, with a backend that refuses regions of state space, fails at seeded calls "
    "or answers with undefined numbers; distinct = distinct (system, controls, fault plan, verdicts); nontrivial = a fault was met"
)
REAL = ["libecalc.process (units, shaft, solvers, finders, strategies, distribution)", "libecalc compressor trains and charts", "libecalc.common.numeric_methods", "ecalc_neqsim_wrapper"]
STUB = ["Java process and NeqSim (dst.jvm)"]
ASSUMPTIONS = ["fluid caches off", "the stub's thermodynamics is smooth; NeqSim's own wrong but finite answers are out of scope", "call bounds are several times the largest count seen without faults"]
COUNTS = {"quick": 1300, "thorough": 100000}
QUICK_S = 110
FAULTS = ["java", "region", "region_nan", "jump", "nan", "inf", "zero", "negative"]
PROBES = tuple("fault." + f for f in FAULTS) + ("verdict.success", "verdict.failed", "verdict.error", "success_with_fault", "train", "plant", "point.ok", "point.failed", "max_rate") + tuple(
    "kind." + k for k in plant.KINDS) + tuple("pc." + p for p in plant.PC) + tuple("train." + k for k in trains.THERMO)
SIM_TIME_UNIT = "remote calls"
REPEAT_EVERY = 30

TOL = 2e-3  # bar; the program's own tolerance for a met pressure is 1e-3
TRAIN_TOL = 1.1e-3  # relative; the trains' own tolerance is 1e-3
CAP = {"single": 400_000, "multi_pressure": 1_500_000, "multi_shaft": 1_500_000, "equal_ratio": 4_000_000, "excess": 6_000_000, "distribution": 12_000_000, "evaluate": 2_500_000, "max_rate": 12_000_000}
WATCHED = ("getTemperature", "getDensity", "getEnthalpy", "getGamma2", "getZ", "getMolarMass", "getVolume", "getProperties_GERG2008", "getDensity_GERG2008", "getPressure")


def setup():
    cli.setup()
    import logging

    logging.disable(logging.CRITICAL)


def gen_faults(r):
    out = []
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        k = r.choice(FAULTS)
        f = {"kind": k}
        if k == "jump":
            f |= {"what": r.choice(["P>", "P<", "T>", "T<", "band"]), "at": r.random(), "width": r.choice([0.02, 0.1, 0.4]), "factor": r.choice([0.6, 0.7, 0.8, 0.9, 1.1, 1.3, 1.6])}
        elif k.startswith("region"):
            f |= {"what": r.choice(["P>", "P<", "T>", "T<", "band"]), "at": r.random(), "width": r.choice([0.02, 0.1, 0.4]), "flash": r.choice(["TP", "PH", "any", "any"])}
        else:
            f |= {"pos": r.random(), "n": r.choice([1, 1, 2, 5, 40])}
            if k != "java":
                f["name"] = r.choice([n for n in WATCHED if n != "getEnthalpy" or k in ("nan", "inf")])  # any enthalpy is a defined number
        out.append(f)
    return out


def gen(r, i, tier):
    faults = gen_faults(r)
    if r.random() < 0.6:
        spec = plant.gen_spec(r, r.choice(["single"] * 8 + ["multi_pressure", "multi_shaft", "equal_ratio"] * 2 + ["excess", "distribution"]))
        return {"plant": spec, "points": [plant.gen_point(r, spec) for _ in range(r.choice([1, 1, 2]))], "faults": faults}
    kind = r.choice(trains.THERMO)
    if kind != "multi" and r.random() < 0.25:
        return {"train": kind, "seed": r.randrange(40), "points": [trains.gen_point(r, kind)], "op": "max_rate", "faults": faults}
    return {"train": kind, "seed": r.randrange(40), "points": [trains.gen_point(r, kind) for _ in range(r.choice([1, 1, 2, 3]))], "op": "evaluate", "faults": faults}


class Overrun(BaseException):
    """More backend calls than any honest search needs."""


class Faults:
    """The backend's misbehaviour: by region for as long as it is installed, by call count only in the judged request."""

    def __init__(self, case, plan, met):
        self.plan, self.met, self.n = plan, met, {}
        self.lo, self.hi = 1.0, 400.0

    def _in(self, f, st):
        v, lo, hi = (st.T, 150.0, 800.0) if f["what"].startswith("T") else (st.P, 5.0, 300.0)
        x = math.log(max(v, 1e-6) / lo) / math.log(hi / lo)
        if f["what"] == "band":
            return abs(x - f["at"]) < f["width"] / 2
        return x > f["at"] if f["what"].endswith(">") else x < f["at"]

    def hook(self, st, kind):
        for f in self.plan:
            if f["kind"] in ("region", "region_nan") and f["flash"] in (kind, "any") and self._in(f, st):
                self.met.add(f["kind"])
                if f["kind"] == "region":
                    raise jvm.SimJavaError(f"neqsim.util.exception.IsNaNException: no convergence ({kind})")
                st.T = math.nan

    def install(self, w):
        if any(f["kind"].startswith("region") for f in self.plan):
            w.hook = self.hook
        if any(f["kind"] == "jump" for f in self.plan):
            w.zfun = self.zfun

    def zfun(self, st):
        """A fluid whose compressibility jumps, as at the edge of a phase."""
        x = 1.0
        for f in self.plan:
            if f["kind"] == "jump" and self._in(f, st):
                self.met.add("jump")
                x *= f["factor"]
        return x

    def arm(self, w, base):
        """base: calls of the request without these faults, by name."""
        total = sum(base.values())
        bad = {}
        for f in self.plan:
            if f["kind"] == "java":
                at = w.calls + 1 + min(total - 1, int(f["pos"] * total))
                for k in range(f["n"]):
                    w.call_faults[at + k] = "java"
                self.met.add("java")
            elif "name" in f and base.get(f["name"]):
                at = int(f["pos"] * base[f["name"]])
                for k in range(f["n"]):
                    bad[f["name"], at + k] = f["kind"]
        if not bad:
            return
        val = {"nan": math.nan, "inf": math.inf, "zero": 0.0, "negative": -1.0}

        def rh(name, out):
            k = self.n.get(name, 0)
            self.n[name] = k + 1
            f = bad.get((name, k))
            if f is None:
                return out
            self.met.add(f)
            return [val[f]] * len(out) if isinstance(out, list | tuple) else val[f]

        w.result_hook = rh


def _world(cap):
    w = jvm.set_world(jvm.SimWorld({}))
    w.cap = cap

    def yh(tag):
        if w.calls > w.cap:
            raise Overrun()

    w.yield_hook = yh
    return w


def _err(e, names=()):
    t = str(e)
    for k, v in names:
        t = t.replace(str(k), v)
    return ["error", type(e).__name__, t[:120]]


def run(case):
    return _plant(case) if "plant" in case else _train(case)


def _service():
    import ecalc_neqsim_wrapper.fluid_service as fsvc

    return fsvc.NeqSimFluidService.instance()


def _base(case, make, op, cap):
    """Calls by name of the same request with regional refusals only."""

    def f():
        w = _world(cap)
        w.names = []
        Faults(case, case["faults"], set()).install(w)
        trains.service(0, 0)
        try:
            op(make())
        except Overrun:
            return None
        except Exception:
            pass
        out = {}
        for n in w.names:
            out[n] = out.get(n, 0) + 1
        return out

    return cli.in_fork(f)


def _plant(case):
    stats, log, viol, sig, met_any, steps = {}, [], None, [], False, 0

    def cnt(k, n=1):
        stats[k] = stats.get(k, 0) + n

    spec = case["plant"]
    cnt("plant")
    cnt("kind." + spec["kind"])
    for s in spec["sections"]:
        cnt("pc." + s["pc"])
    cap = CAP[spec["kind"]]
    for k, pt in enumerate(case["points"]):
        base = None
        if any(not f["kind"].startswith(("region", "jump")) for f in case["faults"]):
            base = _base(case, lambda: plant.System(spec, _service()), lambda s: s.solve(pt, outlets=False), cap)

        def one():
            w = _world(cap)
            met = set()
            fl = Faults(case, case["faults"], met)
            fl.install(w)
            trains.service(0, 0)
            if base:
                fl.arm(w, base)
            c0, bad, names = w.calls, None, {}
            try:
                s = plant.System(spec, _service())
                names = s.names
                v = ["ok", s.solve(pt, outlets=False)]
            except Overrun:
                return {"bad": {"class": "unbounded", "detail": f"{spec['kind']} system: no verdict after {cap} backend calls"}, "v": None, "calls": w.calls, "met": sorted(met)}
            except Exception as e:
                v = _err(e, names.items())
            calls = w.calls - c0
            w.call_faults.clear()
            w.result_hook = None
            if v[0] == "ok":
                bad = judge(v[1], spec, pt)
                if bad is None and v[1].get("success"):
                    fresh = plant.System(spec, _service())
                    try:
                        out = fresh.outlets(v[1]["configuration"], pt)
                    except Exception as e:
                        bad = f"successful configuration raises {type(e).__name__} when applied"
                    else:
                        bad = judge_outlets(out, spec, pt) or judge_machines(fresh, v[1]["configuration"])
                if bad:
                    bad = {"class": "dishonest", "detail": f"{spec['kind']} system: {bad}"}
            return {"bad": bad, "v": trains.plain(v), "calls": calls, "met": sorted(met)}

        q = cli.in_fork(one)
        steps += q["calls"]
        met_any = met_any or bool(q["met"])
        for m in q["met"]:
            cnt("fault." + m)
        v = q["v"]
        verdict = "none" if v is None else v[1] if v[0] == "error" else "success" if v[1].get("success", True) else v[1]["failure"]["type"]
        cnt("verdict." + ("error" if v is None or v[0] == "error" else "success" if verdict == "success" else "failed"))
        if verdict == "success" and q["met"]:
            cnt("success_with_fault")
        log.append([k, verdict, q["calls"], core.digest(v)])
        sig.append(verdict)
        if q["bad"]:
            viol = q["bad"]
            break
    return _res(stats, log, viol, [spec["kind"], [s["pc"] for s in spec["sections"]], case["faults"], sig], steps, met_any)


def judge(o, spec, pt):
    """What a caller can see wrong in the answer itself."""
    if "excess" in o:
        x = o["excess"]
        return None if math.isfinite(x) and -1e-6 <= x <= pt["rate"] * (1 + 1e-6) + 1e-6 else f"excess rate {x} of {pt['rate']}"
    if "rates" in o:
        x = o["rates"]
        if not all(math.isfinite(v) and v >= -1e-6 for v in x):
            return f"distributed rates {x}"
        return None if abs(sum(x) - pt["rate"]) <= 1e-4 * pt["rate"] + 1.0 else f"distributed rates {x} do not add up to {pt['rate']}"
    if o["success"]:
        if o["failure"] is not None:
            return "success with a failure reason"
        for n, c in o["configuration"].items():
            for k, x in c.items():
                if k != "_" and (not math.isfinite(x) or x < -1e-6):
                    return f"success with {n}.{k} = {x}"
    return None


def judge_outlets(out, spec, pt):
    t = pt["targets"]
    got = [out[-1]["p"]] if len(t) == 1 else [x["p"] for x in out]
    for a, b in zip(got, t):
        if not abs(a - b) <= TOL:
            return f"success at {got} bara for targets {t}"
    for x in out:
        if not all(math.isfinite(v) for v in x.values()) or x["mass"] < 0 or x["t"] <= 0:
            return f"success with outlet {x}"
    return None


def judge_machines(s, conf):
    for i, sysm in enumerate(s.systems):
        b = sysm.pipeline_section.get_speed_boundary()
        n = conf.get("shaft", conf.get(f"shaft{i}", {})).get("speed")
        if n is None or not b.min * (1 - 1e-6) <= n <= b.max * (1 + 1e-6):
            return f"success at speed {n}, range {b.min}-{b.max}"
    return None


def _bench(seed):
    if seed not in _benches:
        _benches[seed] = trains.Bench(seed)
    return _benches[seed]


_benches: dict = {}


def _train(case):
    stats, log, viol = {}, [], None
    kind, pts, op = case["train"], case["points"], case["op"]

    def cnt(k, n=1):
        stats[k] = stats.get(k, 0) + n

    cnt("train")
    cnt("train." + kind)
    cap = CAP[op] * (len(pts) if op == "evaluate" else 1)
    b = _bench(case["seed"])
    req = (lambda m: m.max_rate(pts)) if op == "max_rate" else (lambda m: m.evaluate(pts))
    if op == "max_rate":
        cnt("max_rate")
    base = None
    if any(not f["kind"].startswith(("region", "jump")) for f in case["faults"]):
        base = _base(case, lambda: b.machine(kind, pts), req, cap)

    def one():
        w = _world(cap)
        met = set()
        fl = Faults(case, case["faults"], met)
        fl.install(w)
        trains.service(0, 0)
        if base:
            fl.arm(w, base)
        bad = None
        try:
            v = ["ok", req(b.machine(kind, pts))]
        except Overrun:
            return {"bad": {"class": "unbounded", "detail": f"{kind} train: no verdict after {cap} backend calls"}, "v": None, "calls": w.calls, "met": sorted(met)}
        except Exception as e:
            v = _err(e)
        ok = []
        if v[0] == "ok" and op == "evaluate":
            ok = v[1]["energy_result"]["is_valid"]
            for i, p in enumerate(pts):
                bad = ok[i] and judge_train(v[1], kind, p, i)
                if bad:
                    bad = {"class": "dishonest_train", "detail": f"{kind} train, point {i}: {bad}"}
                    break
        return {"bad": bad or None, "v": v, "calls": w.calls, "met": sorted(met), "ok": ok}

    q = cli.in_fork(one)
    for m in q["met"]:
        cnt("fault." + m)
    if q["v"] is None or q["v"][0] == "error":
        cnt("verdict.error")
    for x in q.get("ok", []):
        cnt("point.ok" if x else "point.failed")
    if q["met"] and any(q.get("ok", [])):
        cnt("success_with_fault")
    log.append([kind, q["calls"], core.digest(q["v"])])
    return _res(stats, log, q["bad"], [kind, op, case["faults"], q.get("ok"), q["v"] and q["v"][0]], q["calls"], bool(q["met"]))


def judge_train(o, kind, p, i):
    e = o["energy_result"]
    use, power = e["energy_usage"]["values"][i], e["power"]["values"][i]
    for n, x in (("energy usage", use), ("power", power)):
        if not isinstance(x, int | float) or x < 0:
            return f"valid with {n} {x}"
    if o["failure_status"][i] not in ("NO_FAILURE", None):
        return f"valid with status {o['failure_status'][i]}"
    if p["rate"] <= 0:
        return None
    got = o["outlet_stream"]["pressure"][i]
    if not isinstance(got, int | float) or abs(got - p["pd"]) > TRAIN_TOL * p["pd"]:
        return f"valid with outlet pressure {got} for {p['pd']}"
    got = o["inlet_stream"]["pressure"][i]
    if not isinstance(got, int | float) or abs(got - p["ps"]) > TRAIN_TOL * p["ps"]:
        return f"valid with inlet pressure {got} for {p['ps']}"
    for k, st in enumerate(o["stage_results"]):
        if not st["is_valid"][i]:
            return f"valid with invalid stage {k}"
        if st["rate_exceeds_maximum"][i] or st["head_exceeds_maximum"][i]:
            return f"valid with stage {k} above its maximum rate or head"
        for n in ("mass_rate_kg_per_hr", "power", "polytropic_head_kJ_per_kg", "polytropic_efficiency"):
            x = st[n][i]
            if not isinstance(x, int | float) or x < 0:
                return f"valid with stage {k} {n} {x}"
    if kind == "multi" and not any(abs(st["outlet_stream_condition"]["pressure"][i] - p["pi"]) <= TRAIN_TOL * p["pi"] for st in o["stage_results"]):
        return f"valid with no stage at the requested intermediate pressure {p['pi']}"
    return None


def _res(stats, log, viol, sig, steps, nontrivial):
    return {"violation": viol, "stats": stats, "sig": core.digest(sig), "nontrivial": nontrivial, "digest": core.digest(log + [viol]), "sim_time": steps, "trace": [str(x)[:300] for x in log]}


def shrink(case):
    for pts in core.shrink_list(case["points"], 1):
        yield dict(case, points=pts)
    for fl in core.shrink_list(case["faults"], 0):
        yield dict(case, faults=fl)
    for j, f in enumerate(case["faults"]):
        if f.get("n", 1) > 1:
            yield dict(case, faults=case["faults"][:j] + [dict(f, n=1)] + case["faults"][j + 1:])
    if "plant" in case and case["plant"]["kind"] == "single":
        s = case["plant"]["sections"][0]
        for st in core.shrink_list(s["stages"], 1):
            yield dict(case, plant=dict(case["plant"], sections=[dict(s, stages=st)]))


def describe(case):
    out = [f"backend: {f}" for f in case["faults"]]
    if "plant" in case:
        s = case["plant"]
        out.append(f"{s['kind']} system " + " | ".join(f"{x['pc']} x{len(x['stages'])}" for x in s["sections"]))
        out += [f"solve {p['rate']:.0f} Sm3/d, {p['ps']} -> {p['targets']} bara" for p in case["points"]]
    else:
        out.append(f"{case['train']} train ({case['op']})")
        out += [str(p) for p in case["points"]]
    return out
