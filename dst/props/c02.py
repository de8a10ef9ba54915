"""C02: whatever was cached, cleared, evicted, failed or raced before, an answer is the one a cache-less service gives."""

from __future__ import annotations

import os

from dst import cli, core, jvm, models, sched

LEVEL = "exploration"
RULE = (
    "one evaluation = one simulated history of thermodynamic requests (sequential with faults, multi-threaded, or a command line run with "
    "cache-size options); distinct = distinct (mode, cache sizes, request sequence, fault and switch sequence); nontrivial = at least one "
    "answer came from a cache, or a fault fired, or a thread was preempted"
)
REAL = ["ecalc_neqsim_wrapper.fluid_service, thermo, components, mappings, cache_service, java_service", "libecalc.process.fluid_stream",
        "ecalc_cli run command (command line mode)"]
STUB = ["Java process, Py4J bridge and NeqSim library (dst.jvm: deterministic equation of state with remote object identity)",
        "threading locks and OS scheduler (simulated)"]
ASSUMPTIONS = ["requested states lie on the documented rounding grid of the cache keys, so the cached and the fresh answer have to agree to 1e-9 (1e-6 after liquid removal, whose result composition is off the grid)",
               "the peer's flash result does not depend on its start state (converged flash)"]
COUNTS = {"quick": 2400, "thorough": 200000}
QUICK_S = 110
PROBES = ("answers.checked", "cache.hits", "fault.java", "fault.net", "fault.crash", "fault.bad_ph", "op.clear", "op.restart", "mode.cli", "preempted",
          "answers.failed_ok", "evictions", "disabled")
SIM_TIME_UNIT = "remote calls + scheduler steps"

NS = FS = CSV = FM = None


def setup():
    global NS, FS, CSV, FM
    sched.install_locks()
    cli.setup()
    import ecalc_neqsim_wrapper.cache_service as c
    import ecalc_neqsim_wrapper.fluid_service as f
    import ecalc_neqsim_wrapper.java_service as j
    import libecalc.process.fluid_stream.fluid_model as fm

    NS, FS, CSV, FM = j, f, c, fm


COMPS = [
    {"nitrogen": 0.01, "CO2": 0.02, "methane": 0.85, "ethane": 0.07, "propane": 0.05},
    {"methane": 0.9, "ethane": 0.1},
    {"methane": 0.7, "ethane": 0.1, "propane": 0.08, "n_butane": 0.05, "n_pentane": 0.04, "n_hexane": 0.02, "water": 0.01},
    {"methane": 0.1, "ethane": 0.9},
]


def _fluid(r, base):
    c = dict(COMPS[base])
    k = r.random()
    if k < 0.15:  # same mixture, other scale
        s = r.choice([100, 2, 0.5])
        c = {a: b * s for a, b in c.items()}
    elif k < 0.35:  # a slightly different mixture
        d = r.choice([1e-3, 1e-5, 1e-6, 1e-7])
        a, b = ("methane", "ethane") if r.random() < 0.5 else r.sample(["nitrogen", "CO2", "water", "propane", "n_butane", "i_butane", "i_pentane", "n_hexane"], 2)
        c[a] = c.get(a, 0.0) - d if c.get(a, 0.0) > d else c.get(a, 0.0)
        c[b] = c.get(b, 0.0) + d
    elif k < 0.45:  # order of components
        c = dict(reversed(list(c.items())))
    eos = r.choice(["SRK", "SRK", "SRK", "PR", "GERG_SRK", "GERG_PR"])
    return {"comp": c, "eos": eos}


def _ops(r, n, bases, stop_words=True):
    P0 = r.choice([[20.0, 60.0], [50.0, 300.0], [1.0, 100.0], [288.15, 1.01325]])
    T0 = r.choice([[280.0, 310.0], [300.0, 50.0], [288.15, 350.0], [250.0, 300.0]])
    fluids = [_fluid(r, b) for b in bases for _ in range(r.choice([1, 2]))]
    out = []
    for _ in range(n):
        if out and r.random() < 0.35:
            o = dict(r.choice(out))
            if r.random() < 0.4:
                o["fluid"] = r.choice(fluids)
            out.append(o)
            continue
        p = r.choice(P0) + r.choice([0, 0, 0, 1e-6, 1e-5, 1e-3])
        t = r.choice(T0) + r.choice([0, 0, 0, 1e-6, 1e-5, 1e-3])
        p, t = round(p, 6), round(t, 6)
        k = r.choice(["pt", "pt", "ph", "ph", "ph_guess", "liquid", "fluid", "std", "mass", "s2m", "m2s"])
        o = {"k": k, "fluid": r.choice(fluids), "p": p, "t": t}
        if k.startswith("ph"):
            o["h"] = r.choice([round(r.uniform(-60000, 90000), 6), t, 300.0, 12345.678901, 12345.678902, 20000.0, 9e9])
            o["guess"] = r.choice([250.0, 300.0, 400.0])
        if k in ("std", "s2m"):
            o["rate"] = r.choice([1e6, 2.5e6, 0.0])
        if k in ("mass", "m2s"):
            o["rate"] = r.choice([1e5, 3e4])
        out.append(o)
    if not stop_words:
        return out
    for _ in range(r.choice([0, 0, 1, 2])):
        out.insert(r.randrange(len(out) + 1), {"k": r.choice(["clear", "clear_one", "restart", "stats"])})
    return out


def gen(r, i, tier):
    if i % 40 == 7:
        return {"mode": "cli", "spec": models.gen_spec(r, "light", nsteps=2, ncons=3), "ref": r.choice([0, 0, None, 1]), "flash": r.choice([0, 0, None, 2])}
    sizes = [r.choice([0, 1, 2, 512]), r.choice([0, 1, 2, 3, 100000])]
    bases = r.sample(range(len(COMPS)), r.choice([1, 2, 3]))
    if i % 3 == 1:
        nt = r.choice([2, 2, 3])
        ops = [_ops(r, r.choice([1, 2, 3]), bases) for _ in range(nt)]
        if r.random() < 0.6:
            for o in ops[1:]:
                o[: len(ops[0])] = [dict(x) for x in ops[0]]
        for lst in ops:
            for o in lst:
                if o["k"] == "restart":
                    o["k"] = "clear"
        c = {"mode": "threads", "sizes": sizes, "ops": ops, "faults": [], "first_use": r.random() < 0.5,
             "schedule": sched.gen_schedule(r, est_steps=r.choice([200, 600, 1500]), nthreads=nt)}
    else:
        n = r.choice([4, 8, 12])
        c = {"mode": "seq", "sizes": sizes, "ops": _ops(r, n, bases), "faults": [], "first_use": True}
    if r.random() < 0.6:
        for _ in range(r.choice([1, 1, 2, 3])):
            c["faults"].append({"at": r.randint(1, r.choice([12, 40, 150])),
                                "kind": r.choice(["java", "java", "net", "crash", "bad_ph"] if c["mode"] == "seq" else ["java", "net", "bad_ph"])})
    return c


# ------------------------------------------------------------------ requests
def _model(f):
    return FM.FluidModel(composition=FM.FluidComposition(**f["comp"]), eos_model=FM.EoSModel[f["eos"]])


def _props(p):
    return [float(x) for x in (p.temperature_kelvin, p.pressure_bara, p.density, p.enthalpy_joule_per_kg, p.z, p.kappa, p.vapor_fraction_molar,
                               p.molar_mass, p.standard_density)]


def _fluid_val(fl):
    comp = dict(fl.fluid_model.composition.items())
    return _props(fl.properties) + [float(comp[k]) for k in sorted(comp)] + [str(fl.fluid_model.eos_model)]


def request(svc, o):
    fm = _model(o["fluid"])
    k = o["k"]
    if k == "pt":
        return _props(svc.flash_pt(fm, o["p"], o["t"]))
    if k == "ph":
        return _props(svc.flash_ph(fm, o["p"], o["h"]))
    if k == "ph_guess":
        return _props(svc.flash_ph(fm, o["p"], o["h"], temperature_guess_kelvin=o["guess"]))
    if k == "liquid":
        return _fluid_val(svc.remove_liquid(svc.create_fluid(fm, o["p"], o["t"])))
    if k == "fluid":
        return _fluid_val(svc.create_fluid(fm, o["p"], o["t"]))
    if k == "std":
        s = svc.create_stream_from_standard_rate(fm, o["p"], o["t"], o["rate"])
        return [float(s.mass_rate_kg_per_h), float(s.standard_rate_sm3_per_day)] + _fluid_val(s.fluid)
    if k == "mass":
        s = svc.create_stream_from_mass_rate(fm, o["p"], o["t"], o["rate"])
        return [float(s.mass_rate_kg_per_h), float(s.standard_rate_sm3_per_day)] + _fluid_val(s.fluid)
    if k == "s2m":
        return [float(svc.standard_rate_to_mass_rate(fm, o["rate"]))]
    if k == "m2s":
        return [float(svc.mass_rate_to_standard_rate(fm, o["rate"]))]
    raise AssertionError(k)


def reference(ops):
    """What a freshly started service without caches answers, each request in its own fresh process."""
    out = {}

    def fresh(o):
        def f():
            jvm.set_world(jvm.SimWorld())
            FS.NeqSimFluidService.configure(CSV.CacheConfig(reference_fluid_max_size=0, flash_max_size=0))
            NS.NeqsimService.factory().initialize()
            try:
                return {"v": request(FS.NeqSimFluidService.instance(), o)}
            except Exception as e:
                return {"e": type(e).__name__}

        return f

    for o in ops:
        key = core.digest(o)
        if key not in out:
            out[key] = cli.in_fork(fresh(o))
    return out


def close(a, b, tol=1e-9):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
        elif not abs(x - y) <= tol * max(1.0, abs(x), abs(y)):
            return False
    return True


def _stats():
    d = FS.get_fluid_service_stats()
    return d.get("reference_fluid") or {}, d.get("fluid_service_flash") or {}


def run(case):
    if case["mode"] == "cli":
        return run_cli(case)
    stats = {}

    def cnt(k, n=1):
        stats[k] = stats.get(k, 0) + n

    lists = case["ops"] if case["mode"] == "threads" else [case["ops"]]
    reqs = [o for lst in lists for o in lst if "fluid" in o]
    refs = reference(reqs)
    w = jvm.set_world(jvm.SimWorld({"calls": [f for f in case["faults"] if f["kind"] != "bad_ph"]}))
    bad = {f["at"] for f in case["faults"] if f["kind"] == "bad_ph"}

    def hook(st, kind):
        if kind == "PH" and bad and min(bad) <= w.calls:
            bad.discard(min(bad))
            st.T += 7.0  # the peer returns a state that does not meet the target
            w.count("bad_ph")

    w.hook = hook
    FS.NeqSimFluidService.configure(CSV.CacheConfig(reference_fluid_max_size=case["sizes"][0], flash_max_size=case["sizes"][1]))
    NS.NeqsimService.factory().initialize()
    if not case["first_use"]:
        FS.NeqSimFluidService.instance()
    log = []
    viols = []
    hits = [0, 0]

    def fired():
        return sum(w.counters.values())

    def do(tid, o, busy):
        k = o["k"]
        cnt("op." + k)
        if k == "clear":
            CSV.CacheService.clear_all()
            return
        if k == "clear_one":
            CSV.CacheService.clear_cache(list(CSV.CacheName)[len(log) % 2])
            return
        if k == "restart":
            restart()
            return
        if k == "stats":
            check_stats()
            return
        f0 = fired()
        try:
            got = {"v": request(FS.NeqSimFluidService.instance(), o)}
        except sched.Abort:
            raise
        except Exception as e:
            got = {"e": type(e).__name__, "m": str(e)[:120]}
        log.append([tid, k, got.get("e"), core.digest(got.get("v"))])
        ref = refs[core.digest(o)]
        disturbed = fired() > f0 or not w.alive() or busy()
        if "v" in got:
            cnt("answers.checked")
            if "v" not in ref:
                viols.append({"class": "answer", "detail": f"{o} answered {got['v'][:3]} but a fresh service fails with {ref['e']}"})
            elif not close(got["v"], ref["v"], 1e-6 if k == "liquid" else 1e-9):
                viols.append({"class": "answer", "detail": f"{o} answered {got['v']} but a fresh service answers {ref['v']}"})
        elif "e" in ref or disturbed:
            cnt("answers.failed_ok")
        else:
            viols.append({"class": "spurious_failure", "detail": f"{o} failed with {got['e']}: {got['m']}; a fresh service answers"})
        if not w.alive() and case["mode"] == "seq":
            cnt("recoveries")
            restart()

    def restart():
        try:
            NS.NeqsimService.instance().shutdown()
        except Exception:
            pass
        NS.NeqsimService.factory().initialize()

    def check_stats():
        for j, s in enumerate(_stats()):
            if not s:
                continue
            hits[j] = max(hits[j], s["hits"])
            if s["size"] > case["sizes"][j] or s["max_size"] != case["sizes"][j]:
                viols.append({"class": "limit", "detail": f"cache {j} limit {case['sizes'][j]} reports {s}"})
            if case["sizes"][j] == 0 and (s["size"] or s["hits"]):
                viols.append({"class": "disabled", "detail": f"cache {j} is disabled but reports {s}"})

    explicit = None
    steps = 0
    switches = []
    if case["mode"] == "seq":
        for o in case["ops"]:
            do(0, o, lambda: False)
            if viols:
                break
        pre = 0
    else:
        s = sched.Sched(case["schedule"], trace_files=(core.REPO + "/src/",), max_steps=400_000)

        def body(tid, lst):
            def f():
                for o in lst:
                    do(tid, o, lambda: False)

            return f

        for tid, lst in enumerate(case["ops"]):
            s.spawn(body(tid, lst))

        def yh(tag):
            t = sched._me()
            if t is not None:
                s.yield_point(t, tag)

        w.yield_hook = yh
        s.run()
        w.yield_hook = None
        steps, pre, switches = s.step, s.preemptions, s.switches
        explicit = dict(case, schedule={"mode": "list", "switches": s.switches})
        if s.failure:
            viols.insert(0, {"class": "blocked", "detail": s.failure})
        for t in s.threads:
            if t.exc is not None:
                viols.append({"class": "thread_died", "detail": f"{type(t.exc).__name__}: {t.exc}"})
        # once the threads are gone, everything is answered as by a fresh service
        w.call_faults.clear()
        bad.clear()
        if not viols:
            for lst in case["ops"]:
                for o in lst:
                    if "fluid" in o:
                        do(99, o, lambda: False)
    if w.stale_uses and not viols:
        viols.append({"class": "stale_object", "detail": f"an object of an earlier backend was used: {w.stale_uses[0]}"})
    check_stats()
    cnt("cache.hits", sum(hits))
    cnt("evictions", sum(int(s.get("evictions", 0)) for s in _stats()))
    if 0 in case["sizes"]:
        cnt("disabled")
    if pre:
        cnt("preempted")
    for k, v in w.counters.items():
        cnt("fault." + k.replace("call_", ""), v)
    shape = [[o["k"] + str(o.get("p")) for o in lst] for lst in lists]
    return {"violation": viols[0] if viols else None, "stats": stats, "explicit_case": explicit,
            "sig": core.digest([case["mode"], case["sizes"], shape, case["faults"], switches]),
            "nontrivial": bool(sum(hits) or w.counters or pre), "digest": core.digest([log, w.calls, switches, viols]),
            "sim_time": w.calls + steps, "trace": [str(x) for x in log] + [str(e) for e in w.events] + [f"switches {switches}"]}


# ------------------------------------------------------------------ command line
def run_cli(case):
    root = os.path.join(core.scratch_root(), f"c02.{os.getpid()}")
    files = models.build(case["spec"])
    model = models.write(files, root)
    stats = {"mode.cli": 1}

    def once(ref, flash, outdir):
        def f():
            w = jvm.set_world(jvm.SimWorld())
            bad = []
            peak = [0, 0, 0, 0]
            orig = w.remote_call

            def rc(j, name, args):
                orig(j, name, args)
                if w.calls % 20 == 0:
                    for n, s in enumerate(_stats()):
                        if s:
                            lim = (ref, flash)[n]
                            peak[n] = max(peak[n], s["hits"])
                            peak[n + 2] = max(peak[n + 2], s["size"])
                            if lim is not None and (s["max_size"] != lim or s["size"] > lim or (lim == 0 and s["hits"])):
                                bad.append([n, lim, dict(s)])

            w.remote_call = rc
            argv = ["run", model, "-o", outdir, "--json", "--detailed-output"]
            if ref is not None:
                argv += ["--reference-cache-size", str(ref)]
            if flash is not None:
                argv += ["--flash-cache-size", str(flash)]
            os.makedirs(outdir)
            code, out, err = cli.run(argv)
            return {"code": code, "bad": bad[:1], "peak": peak, "calls": w.calls, "err": err[-300:]}

        return cli.in_fork(f)

    a = once(None, None, os.path.join(root, "out_a"))
    b = once(case["ref"], case["flash"], os.path.join(root, "out_b"))
    viol = None
    if a.get("code") != b.get("code"):
        viol = {"class": "cli_status", "detail": f"default caches: status {a.get('code')}; sizes {case['ref']},{case['flash']}: status {b.get('code')}: {b.get('err')}"}
    elif b.get("bad"):
        n, lim, s = b["bad"][0]
        viol = {"class": "cli_cache_size", "detail": f"{['reference', 'flash'][n]} cache was asked for with limit {lim} but reports {s}"}
    elif a.get("code") == 0:
        ta, tb = cli.tree(os.path.join(root, "out_a")), cli.tree(os.path.join(root, "out_b"))
        for k in sorted(set(ta) | set(tb)):
            if k.endswith("run_info.json") or "run_info" in k:
                continue
            if not cli.same_numbers(ta.get(k), tb.get(k)):
                viol = {"class": "cli_output", "detail": f"{k} differs between default cache sizes and {case['ref']},{case['flash']}"}
                break
    import shutil

    shutil.rmtree(root, ignore_errors=True)
    stats["cache.hits"] = sum(a.get("peak", [0, 0])[:2])
    return {"violation": viol, "stats": stats, "sig": core.digest(["cli", case["spec"]["kinds"], case["ref"], case["flash"]]),
            "nontrivial": a.get("calls", 0) > 0, "digest": core.digest([a.get("code"), a.get("calls"), b.get("code"), b.get("calls"), b.get("bad"), viol and viol["class"]]), "sim_time": a.get("calls", 0) + b.get("calls", 0)}


def shrink(case):
    if case["mode"] == "cli":
        for s in models.shrink_spec(case["spec"]):
            yield dict(case, spec=s)
        return
    if case["mode"] == "seq":
        for cand in core.shrink_list(case["ops"], 1):
            yield dict(case, ops=cand)
    else:
        for sch in sched.shrink_schedule(case["schedule"]):
            yield dict(case, schedule=sch)
        for t in range(len(case["ops"])):
            for cand in core.shrink_list(case["ops"][t]):
                yield dict(case, ops=[x if k != t else cand for k, x in enumerate(case["ops"])])
    for cand in core.shrink_list(case["faults"]):
        yield dict(case, faults=cand)
