"""C03: life cycle of the Java backend: at most one, always released, always recoverable."""

from __future__ import annotations

from dst import core, jvm, sched
from dst.props import c02

LEVEL = "exploration"
RULE = (
    "one evaluation = one simulated history of start-up, scopes, use, faults and shutdown (sequential, or first use from several threads); "
    "distinct = distinct (operation sequence, faults that fired, switch sequence); nontrivial = a backend was started and a fault fired, "
    "a scope was nested, a restart happened or a thread was preempted"
)
REAL = ["ecalc_neqsim_wrapper.java_service, fluid_service, thermo, cache_service"]
STUB = ["Java process, its launch, Py4J gateway and NeqSim (dst.jvm)", "threading locks and OS scheduler (simulated)"]
ASSUMPTIONS = ["scopes are closed in the reverse order of opening", "threads share a kept-alive backend; shutting down while another thread calculates is not explored",
               "the JPype backend lives as long as the Python process, as documented, and is not counted"]
COUNTS = {"quick": 6000, "thorough": 300000}
QUICK_S = 90
PROBES = ("starts", "reuse", "restarts", "launch_failures", "fault.call_crash", "fault.shutdown_lost", "scope.shutdown", "scope.keep", "refused.mix",
          "refused.uninitialised", "refused.configure", "answers", "preempted", "nested")
SIM_TIME_UNIT = "remote calls + scheduler steps"


def setup():
    c02.setup()
    import ecalc_neqsim_wrapper  # noqa: F401

    global NS, FS, CSV, ERR
    NS, FS, CSV = c02.NS, c02.FS, c02.CSV
    from libecalc.common.errors.exceptions import ProgrammingError

    ERR = ProgrammingError


REQS = [
    {"k": "pt", "fluid": {"comp": c02.COMPS[0], "eos": "SRK"}, "p": 50.0, "t": 300.0},
    {"k": "ph", "fluid": {"comp": c02.COMPS[0], "eos": "SRK"}, "p": 80.0, "t": 300.0, "h": 30000.0},
    {"k": "liquid", "fluid": {"comp": c02.COMPS[2], "eos": "PR"}, "p": 20.0, "t": 280.0},
    {"k": "s2m", "fluid": {"comp": c02.COMPS[1], "eos": "GERG_SRK"}, "p": 1.0, "t": 280.0, "rate": 1e6},
    {"k": "pt", "fluid": {"comp": c02.COMPS[1], "eos": "SRK"}, "p": 50.0, "t": 300.0},
]


def gen(r, i, tier):
    if i % 3 == 2:
        nt = r.choice([2, 2, 3])
        return {"mode": "threads", "keep": r.random() < 0.7, "nt": nt, "ops": [[r.randrange(len(REQS)) for _ in range(r.choice([0, 1, 2]))] for _ in range(nt)],
                "faults": {"launches": [{"at": r.choice([1, 1, 2]), "kind": r.choice(["bad_port", "no_java"])}] if r.random() < 0.2 else []},
                "jpype": r.random() < 0.1, "rounds": r.choice([1, 1, 2]),
                "schedule": sched.gen_schedule(r, est_steps=r.choice([30, 60, 200]), nthreads=nt)}
    n = r.choice([4, 8, 14, 20])
    style = r.random()
    ops = []
    w = {"open": 4, "close": 3, "use": 5, "shutdown": 1, "shutdown_old": 1, "cfg": 1, "cfg_bad": 0.2, "reset_cfg": 0.3, "init": 1, "crash": 1,
         "open_jpype": 0.5, "uninit": 0.5, "raw": 1}
    if style < 0.25:
        ops.append({"op": "cfg", "mem": r.choice(["512M", "4G", "1024m"]), "keep": True})
    names = list(w)
    for _ in range(n):
        op = r.choices(names, [w[x] for x in names])[0]
        o = {"op": op}
        if op == "use":
            o["req"] = r.randrange(len(REQS))
        if op == "cfg":
            o.update(mem=r.choice(["512M", "4G", "1024m", "3g"]), keep=r.random() < 0.6)
        if op == "close":
            o["exc"] = r.choice([None, None, "ValueError", "KeyboardInterrupt"])
        if op in ("shutdown_old",):
            o["n"] = r.randrange(4)
        ops.append(o)
    f = {"calls": [], "launches": [], "shutdowns": [], "shutdown_raises_when_dead": r.random() < 0.3}
    for _ in range(r.choice([0, 0, 1, 2])):
        f["calls"].append({"at": r.randint(1, 120), "kind": r.choice(["crash", "crash", "net", "java"])})
    for _ in range(r.choice([0, 0, 1, 2])):
        f["launches"].append({"at": r.randint(1, 4), "kind": r.choice(["bad_port", "no_java", "eagain"])})
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        f["shutdowns"].append({"at": r.randint(1, 3), "kind": r.choice(["lost", "raise"])})
    return {"mode": "seq", "ops": ops, "faults": f}


def run(case):
    stats = {}
    log = []
    viols = []

    def cnt(k, n=1):
        stats[k] = stats.get(k, 0) + n

    def bad(cls, detail):
        viols.append({"class": cls, "detail": detail})

    w = jvm.SimWorld(case["faults"])
    used = sorted({0} | {o["req"] for o in case["ops"] if o.get("op") == "use"} if case["mode"] == "seq" else {x for lst in case["ops"] for x in lst} | {0})
    refs = c02.reference([REQS[k] for k in used])
    jvm.set_world(w)
    if case["mode"] == "seq":
        run_seq(case, w, refs, cnt, log, bad, viols)
        switches, pre, steps, explicit = [], 0, 0, None
    else:
        s = run_threads(case, w, refs, cnt, log, bad)
        switches, pre, steps = s.switches, s.preemptions, s.step
        explicit = dict(case, schedule={"mode": "list", "switches": s.switches})
    py = [j for j in w.jvms if j.kind == "py4j"]
    if w.stale_uses:
        bad("stale_object", f"an object of an earlier backend process was used: {w.stale_uses[0]}")
    for k, v in w.counters.items():
        cnt("fault." + k, v)
    cnt("starts", len(py))
    if pre:
        cnt("preempted")
    return {"violation": viols[0] if viols else None, "stats": stats, "explicit_case": explicit,
            "sig": core.digest([[x[0] for x in log], sorted(w.counters.items()), switches]),
            "nontrivial": bool(py) and bool(w.counters or pre or stats.get("nested") or stats.get("restarts")),
            "digest": core.digest([log, w.events, switches, viols]), "sim_time": w.calls + steps,
            "trace": [str(x) for x in log] + [str(e) for e in w.events] + [f"switches {switches}"]}


def alive_py(w):
    return [j for j in w.jvms if j.alive and j.kind == "py4j"]


def run_seq(case, w, refs, cnt, log, bad, viols):
    F = NS.NeqsimService.factory
    scopes = []  # (service object, keep at start)
    old = []  # services already shut down
    cur = None  # model: None, ("py4j", obj, keep) or ("jpype", obj)
    cfg = ("2G", False)

    def fired():
        return sum(v for k, v in w.counters.items())

    def start(jp):
        nonlocal cur
        before = len(w.jvms)
        f0 = fired()
        live0 = alive_py(w)
        try:
            obj = F(use_jpype=jp).initialize()
        except BaseException as e:
            log.append(["start", jp, type(e).__name__])
            if cur is None or (not jp and cur[0] == "py4j" and not live0):
                if fired() == f0:
                    bad("start_failed", f"starting the backend failed with {type(e).__name__}: {e} although nothing was wrong")
                else:
                    cnt("launch_failures")
                if cur is not None:
                    cur = None
                    try:
                        NS.NeqsimService.instance()
                        cur = ("py4j", None, False)
                        NS.NeqsimService.instance().shutdown()
                        cur = None
                    except ERR:
                        pass
            elif jp == (cur[0] == "jpype"):
                bad("start_failed", f"asking for the running backend again failed with {type(e).__name__}: {e}")
            else:
                cnt("refused.mix")
            return None
        log.append(["start", jp, "ok", len(w.jvms)])
        if cur is not None and jp != (cur[0] == "jpype"):
            if live0 or cur[0] == "jpype":
                bad("mixed_kinds", "a backend of the other kind was started while one is in use")
                return None
        if jp:
            if cur is None or cur[0] != "jpype":
                cur = ("jpype", obj)
            return obj
        if len(w.jvms) > before:
            if live0:
                bad("restart", f"a live backend (generation {live0[0].gen}) was not reused: generation {w.jvms[-1].gen} was started")
            if cur is not None:
                cnt("restarts")
            if f"-Xmx{cfg[0]}" not in w.jvms[-1].javaopts:
                bad("memory", f"configured memory {cfg[0]} but the backend was started with {w.jvms[-1].javaopts}")
            cur = ("py4j", obj, cfg[1])
        else:
            cnt("reuse")
            if not live0:
                bad("dead_backend", "a start request succeeded but no backend is alive")
        return obj

    def after():
        n = alive_py(w)
        if len(n) > 1:
            bad("two_backends", f"{len(n)} backend processes are alive at once (generations {[j.gen for j in n]})")

    for o in case["ops"]:
        op = o["op"]
        if op in ("open", "open_jpype"):
            s = start(op == "open_jpype")
            if s is not None:
                s.__enter__()
                scopes.append((s, cur))
                if len(scopes) > 1:
                    cnt("nested")
        elif op == "init":
            start(False)
        elif op == "close":
            if not scopes:
                continue
            s, owner = scopes.pop()
            live0 = alive_py(w)
            exc = {"ValueError": ValueError("x"), "KeyboardInterrupt": KeyboardInterrupt(), None: None}[o["exc"]]
            try:
                res = s.__exit__(type(exc) if exc else None, exc, None)
                if exc is not None and res:
                    bad("swallowed", "leaving the scope swallowed the exception raised inside it")
            except Exception as e:
                bad("exit_raised", f"leaving the scope raised {type(e).__name__}: {e}")
            log.append(["close", o["exc"], len(alive_py(w))])
            if owner[0] == "py4j" and owner is cur:
                if owner[2]:
                    cnt("scope.keep")
                    if live0 and not alive_py(w):
                        bad("keep_alive", "a backend configured to be kept alive was shut down when its scope ended")
                else:
                    cnt("scope.shutdown")
                    if alive_py(w):
                        bad("leak", f"the scope was left but backend generation {alive_py(w)[0].gen} is still alive")
                    old.append(s)
                    cur = None
        elif op == "shutdown":
            if cur is None:
                continue
            try:
                cur[1].shutdown()
            except Exception as e:
                bad("exit_raised", f"shutdown raised {type(e).__name__}: {e}")
            log.append(["shutdown", len(alive_py(w))])
            if cur[0] == "py4j":
                if alive_py(w):
                    bad("leak", f"after shutdown backend generation {alive_py(w)[0].gen} is still alive")
                old.append(cur[1])
                cur = None
        elif op == "shutdown_old":
            if not old:
                continue
            s = old[o["n"] % len(old)]
            live0 = [j.gen for j in alive_py(w)]
            try:
                s.shutdown()
            except Exception as e:
                bad("exit_raised", f"a second shutdown raised {type(e).__name__}: {e}")
            log.append(["shutdown_old", live0])
            if [j.gen for j in alive_py(w)] != live0:
                bad("old_shutdown", "shutting down an already shut down service again ended a newer backend")
        elif op in ("cfg", "cfg_bad", "reset_cfg"):
            try:
                if op == "reset_cfg":
                    NS.NeqsimService.reset_py4j_config()
                    cfg = ("2G", False)
                elif op == "cfg_bad":
                    NS.NeqsimService.configure_py4j(NS.Py4JConfig(maximum_memory="lots"))
                    bad("config", "an invalid memory setting was accepted")
                else:
                    NS.NeqsimService.configure_py4j(NS.Py4JConfig(maximum_memory=o["mem"], shutdown_on_exit=not o["keep"]))
                    if cur is not None:
                        bad("config", "settings were accepted after the backend was started and would be ignored")
                    cfg = (o["mem"], o["keep"])
            except ValueError:
                if op != "cfg_bad":
                    bad("config", f"valid settings {o} were refused")
            except RuntimeError:
                cnt("refused.configure")
                if cur is None:
                    bad("config", "settings were refused although no backend has been started")
            log.append([op, cfg])
        elif op == "crash":
            for j in alive_py(w):
                w.kill(j, "crash op")
                w.count("crash_op")
            log.append(["crash"])
        elif op == "uninit":
            try:
                NS.NeqsimService.instance()
                if cur is None:
                    bad("uninitialised", "the service was handed out before any start")
            except ERR:
                cnt("refused.uninitialised")
                if cur is not None:
                    bad("lost_service", "the running service cannot be found")
            log.append(["uninit"])
        elif op in ("use", "raw"):
            f0 = fired()
            live0 = bool(alive_py(w)) or (cur is not None and cur[0] == "jpype")
            try:
                if op == "raw":
                    m = NS.NeqsimService.instance().get_neqsim_module()
                    got = [m.thermo.system.SystemSrkEos(300.0, 10.0).getTemperature("K")]
                    ok = got == [300.0]
                    want = [300.0]
                else:
                    got = c02.request(FS.NeqSimFluidService.instance(), REQS[o["req"]])
                    want = refs[core.digest(REQS[o["req"]])]["v"]
                    ok = c02.close(got, want, 1e-6)
                cnt("answers")
                log.append([op, "ok", core.digest(got)])
                if not ok:
                    bad("wrong_answer", f"{o} answered {got}, expected {want}")
                if not live0 and op == "raw":
                    bad("uninitialised", "a remote object was used without a live backend")
            except Exception as e:
                log.append([op, type(e).__name__])
                if cur is not None and live0 and fired() == f0:
                    bad("use_failed", f"{o} failed with {type(e).__name__}: {e} although the backend is alive and no fault occurred")
                if cur is None:
                    cnt("refused.uninitialised")
        after()
        if viols:
            return
    # recovery: faults are over, a new start has to work and answer correctly
    w.call_faults.clear()
    w.launch_faults.clear()
    w.shutdown_faults.clear()
    if cur is not None and cur[0] == "jpype":
        return
    s = start(False)
    after()
    if viols or s is None:
        return
    try:
        got = c02.request(FS.NeqSimFluidService.instance(), REQS[0])
    except Exception as e:
        bad("no_recovery", f"after all faults a new start succeeds but the first request fails with {type(e).__name__}: {e}")
        return
    ref = refs[core.digest(REQS[0])]["v"]
    if not c02.close(got, ref):
        bad("wrong_answer", f"after recovery {REQS[0]} answered {got}, expected {ref}")
    NS.NeqsimService.instance().shutdown()
    if alive_py(w):
        bad("leak", "after the final shutdown a backend is still alive")


def run_threads(case, w, refs, cnt, log, bad):
    S = NS.NeqsimService
    if case["keep"]:
        S.configure_py4j(NS.Py4JConfig(shutdown_on_exit=False))
    sw = sched.Sched(case["schedule"], trace_files=(core.REPO + "/src/",), max_steps=400_000)
    objs = []
    done = []
    leaked = []

    def body(tid, lst):
        def f():
            for _ in range(case["rounds"]):
                launch0 = sum(w.counters.values())
                try:
                    svc = S.factory(use_jpype=case["jpype"] and tid == 0).initialize()
                except sched.Abort:
                    raise
                except Exception as e:
                    log.append(["start", tid, type(e).__name__])
                    if not w.counters and not case["jpype"]:
                        bad("start_failed", f"concurrent start failed with {type(e).__name__}: {e}")
                    cnt("refused.mix" if isinstance(e, ERR) else "launch_failures")
                    return
                objs.append(svc)
                with_scope = case["keep"]
                for k in lst:
                    try:
                        got = c02.request(FS.NeqSimFluidService.instance(), REQS[k])
                    except sched.Abort:
                        raise
                    except Exception as e:
                        log.append(["use", tid, type(e).__name__])
                        if sum(w.counters.values()) == launch0:
                            bad("use_failed", f"{REQS[k]} failed with {type(e).__name__}: {e} on a live backend")
                        continue
                    cnt("answers")
                    log.append(["use", tid, core.digest(got)])
                    if not c02.close(got, refs[core.digest(REQS[k])]["v"], 1e-6):
                        bad("wrong_answer", f"{REQS[k]} answered {got}")
                if with_scope:
                    svc.__exit__(None, None, None)
                done.append(tid)

        return f

    for tid in range(case["nt"]):
        sw.spawn(body(tid, case["ops"][tid]))

    def yh(tag):
        t = sched._me()
        if t is not None:
            sw.yield_point(t, tag)

    w.yield_hook = yh
    sw.run()
    if sw.failure:
        bad("blocked", sw.failure)
    for t in sw.threads:
        if t.exc is not None:
            bad("thread_died", f"{type(t.exc).__name__}: {t.exc}")
    py = [j for j in w.jvms if j.kind == "py4j"]
    if len([j for j in py if j.alive]) > 1 or (len(py) > 1 and not w.counters):
        bad("two_backends", f"{case['nt']} concurrent starts launched {len(py)} backends")
    if objs and len({id(x) for x in objs}) > 1 and not w.counters and not case["jpype"]:
        bad("two_services", "concurrent starts were handed different services")
    if case["keep"] and py and not w.counters and done and not alive_py(w):
        bad("keep_alive", "a backend configured to be kept alive was shut down when a scope ended")
    # concurrent release
    if alive_py(w) and not leaked:
        sw2 = sched.Sched({"mode": "rand", "seed": 5, "p": 0.2} if case["schedule"]["mode"] == "rand" else {"mode": "list", "switches": []},
                          trace_files=(core.REPO + "/src/",))
        for svc in objs[:3]:
            sw2.spawn(svc.shutdown)
        w.yield_hook = None
        sw2.run()
        if sw2.failure:
            bad("blocked", sw2.failure)
        for t in sw2.threads:
            if t.exc is not None:
                bad("exit_raised", f"concurrent shutdown raised {type(t.exc).__name__}: {t.exc}")
        if alive_py(w):
            bad("leak", "after shutdown by every user a backend is still alive")
    w.yield_hook = None
    w.launch_faults.clear()
    return sw


def shrink(case):
    if case["mode"] == "seq":
        for c in core.shrink_list(case["ops"]):
            yield dict(case, ops=c)
        for k in ("calls", "launches", "shutdowns"):
            for c in core.shrink_list(case["faults"][k]):
                yield dict(case, faults=dict(case["faults"], **{k: c}))
    else:
        for sch in sched.shrink_schedule(case["schedule"]):
            yield dict(case, schedule=sch)
        for t in range(case["nt"]):
            for c in core.shrink_list(case["ops"][t]):
                yield dict(case, ops=[x if k != t else c for k, x in enumerate(case["ops"])])
