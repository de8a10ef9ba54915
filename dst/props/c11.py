"""C11: models loaded or evaluated in one process never influence each other."""

from __future__ import annotations

import io
import os
from pathlib import Path

from dst import clirun, cli, core, jvm, models, sched, trains, ymodel

LEVEL = "exploration"
RULE = (
    "one evaluation = two to four sessions (load with or without includes, validate, evaluate, result, process simulations, again) on models with equally named includes and resources (partly of equal size and time stamp), interleaved step by step in a seeded order "
    "or as threads under the seeded scheduler; distinct = distinct (sessions, order or switch sequence); nontrivial = the sessions overlapped"
)
REAL = ["libecalc.presentation.yaml (reader, includes, validation, mappers, model)", "libecalc evaluation and result mapping", "process-simulation, event and pump-simulation mappers", "PyYAML, pydantic"]
STUB = ["thread scheduler (dst.sched: switches at lines of the reader, model, mapper and expression code)", "Java process and NeqSim (dst.jvm)"]
ASSUMPTIONS = ["each model object is used by one thread", "fluid caches off (C02 covers them)"]
COUNTS = {"quick": 700, "thorough": 60000}
QUICK_S = 110
PROBES = ("threads", "seq", "preempted", "how.file", "how.res", "how.noinc", "how.dump", "how.twin", "how.rt", "how.rtno", "refused", "evaluated", "simulated", "again", "includes", "sibling", "same_mtime")
SIM_TIME_UNIT = "scheduler steps"
REPEAT_EVERY = 60
TRACE = ("libecalc/presentation/yaml/yaml_models", "libecalc/presentation/yaml/model.py", "libecalc/presentation/yaml/mappers", "libecalc/expression", "libecalc/presentation/yaml/file_configuration_service.py",
         "libecalc/presentation/yaml/yaml_reference_service.py", "libecalc/presentation/yaml/yaml_node.py", "libecalc/presentation/yaml/domain")


def setup():
    sched.install_locks()
    cli.setup()


def gen(r, i, tier):
    nf = r.choice([2, 2, 3])
    same = models.gen_spec(r, None, nsteps=2, ncons=3)
    folders = []
    for k in range(nf):
        s = models.gen_spec(r, r.choice([None] * 6 + ["light"]), nsteps=r.choice([1, 2]), include=r.choice([["fuel"], ["fuel", "models"], ["series", "fuel"], []]), ncons=r.choice([1, 2, 3]))
        if r.random() < 0.5:
            s["kinds"] = list(same["kinds"])
        if r.random() < 0.35:
            s["sims"] = r.choice([1, 1, 2]) * 100 + i % 50  # models with the same structure and names, too
        if folders and r.random() < 0.45:  # the same file names and sizes with other numbers
            s = dict(folders[0], twist=r.randrange(1 << 20))
        folders.append(s)
    stamp = r.choice([None, 10**9, 1700000000])
    sessions = []
    for _ in range(r.choice([2, 2, 3, 4])):
        how = r.choices(["file", "res", "noinc", "dump", "twin", "rt", "rtno"], [6, 2, 2, 1, 1, 1, 1])[0]
        steps = r.choice([[], ["validate"], ["validate", "evaluate", "result"], ["validate", "evaluate", "result", "evaluate", "result"], ["validate", "evaluate", "evaluate", "result", "validate", "result"]])
        f = r.randrange(nf)
        if "sims" in folders[f] and r.random() < 0.8:
            steps = r.choice([["simulate"], ["simulate", "simulate"], ["validate", "simulate", "evaluate", "simulate"], ["simulate", "validate", "evaluate", "result"]])
        sessions.append({"f": f, "how": how, "steps": steps if how not in ("noinc", "dump", "rt", "rtno") else []})
    if i % 2:
        return {"mode": "threads", "folders": folders, "stamp": stamp, "sessions": sessions, "schedule": sched.gen_schedule(r, est_steps=r.choice([100, 1000, 4000]), nthreads=len(sessions))}
    return {"mode": "seq", "folders": folders, "stamp": stamp, "sessions": sessions, "oseed": r.randrange(1 << 30)}


def session(s, top, out):
    """A generator: one step per next()."""
    from libecalc.presentation.yaml.yaml_entities import ResourceStream
    from libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model import PyYamlYamlModel

    folder = os.path.join(top, f"f{s['f']}")
    text = open(os.path.join(folder, "model.yaml")).read()

    def do(name, fn):
        try:
            v = fn()
            out.append([name, "ok", v])
            return True
        except Exception as e:
            out.append([name, "error", type(e).__name__, str(e)[:160].replace(top, "")])
            return False

    box = {}

    def load():
        if s["how"] in ("file", "twin"):
            box["m"] = ymodel.load(folder)
            if s["how"] == "twin":  # a second model object over the same configuration
                from libecalc.presentation.yaml.model import YamlModel

                box["twin"] = YamlModel(configuration=box["m"]._configuration, resource_service=box["m"]._resource_service)
                box["twin"].validate_for_run()
            return None
        if s["how"] == "res":
            from ecalc_cli.infrastructure.file_resource_service import FileResourceService
            from libecalc.presentation.yaml.model import YamlModel

            parts = {os.path.relpath(p, folder): io.StringIO(p.read_text()) for p in sorted(Path(folder, "parts").glob("*"))} if os.path.isdir(os.path.join(folder, "parts")) else {}
            cfg = PyYamlYamlModel.read(main_yaml=ResourceStream(name="model", stream=io.StringIO(text)), resources=parts, enable_include=True)
            box["m"] = YamlModel(configuration=cfg, resource_service=FileResourceService(working_directory=Path(folder), configuration=cfg))
            return None
        if s["how"] in ("rt", "rtno"):  # the comment-preserving reader
            from libecalc.presentation.yaml.yaml_models.ruamel_yaml_model import RuamelYamlModel

            return RuamelYamlModel.read(main_yaml=ResourceStream(name="model", stream=io.StringIO(text)), base_dir=Path(folder), enable_include=s["how"] == "rt").dump()
        if s["how"] == "noinc":
            cfg = PyYamlYamlModel.read(main_yaml=ResourceStream(name="model", stream=io.StringIO(text)), base_dir=Path(folder), enable_include=False)
            return cfg.dump()
        return PyYamlYamlModel.dump_and_load_yaml(main_yaml=ResourceStream(name="model", stream=io.StringIO(text)), base_dir=Path(folder))

    ok = do("load", load)
    yield
    if not ok:
        return
    if s["how"] == "file" or s["how"] == "res" or s["how"] == "twin":
        out.append(["names", sorted(box["m"]._configuration.timeseries_resource_names)])
    for st in s["steps"]:
        m = box["m"]
        if not do(st, {"validate": lambda: m.validate_for_run() and None, "evaluate": m.evaluate_energy_usage, "result": lambda: ymodel.result(m), "simulate": lambda: ymodel.simulations(m)}[st]):
            return
        yield


def run(case):
    top = clirun.scratch()
    try:
        return _run(case, top)
    finally:
        clirun.clean(top)


def _run(case, top):
    import random

    stats, log, viol = {}, [], None

    def cnt(k, n=1):
        stats[k] = stats.get(k, 0) + n

    for k, spec in enumerate(case["folders"]):
        ymodel.write(models.build(spec), os.path.join(top, f"f{k}"))
        if spec["include"]:
            cnt("includes")
        if "twist" in spec:
            cnt("sibling")
    if case.get("stamp"):  # as after unpacking archives
        cnt("same_mtime")
        for d, _, fs_ in os.walk(top):
            for f in fs_:
                os.utime(os.path.join(d, f), (case["stamp"], case["stamp"]))
    alone = []
    for s in case["sessions"]:

        def one():
            jvm.set_world(jvm.SimWorld({}))
            trains.service(0, 0)
            out = []
            for _ in session(s, top, out):
                pass
            return out

        alone.append(cli.in_fork(one))
        cnt("how." + s["how"])
    for a in alone:
        if a[0][1] == "error":
            cnt("refused")
        if any(x[0] == "evaluate" and x[1] == "ok" for x in a):
            cnt("evaluated")
        if sum(1 for x in a if x[0] == "evaluate") > 1:
            cnt("again")
        if any(x[0] == "simulate" and x[1] == "ok" for x in a):
            cnt("simulated")
    log.append(["alone", core.digest(alone)])
    jvm.set_world(jvm.SimWorld({}))
    trains.service(0, 0)
    outs = [[] for _ in case["sessions"]]
    explicit, switches, steps = None, [], 0
    if case["mode"] == "seq":
        cnt("seq")
        gens = [session(s, top, o) for s, o in zip(case["sessions"], outs)]
        order = case.get("order")
        r = random.Random(f"order:{case.get('oseed')}")
        live, done = list(range(len(gens))), []
        while live:
            if order is not None:
                k = next((x for x in order[len(done) :][:1] if x in live), live[0])
            else:
                k = r.choice(live)
            done.append(k)
            try:
                next(gens[k])
            except StopIteration:
                live.remove(k)
        switches, explicit, steps = done, dict(case, order=done), len(done)
    else:
        cnt("threads")
        sc = sched.Sched(case["schedule"], trace_files=TRACE, max_steps=3_000_000)
        for s, o in zip(case["sessions"], outs):

            def body(s=s, o=o):
                for _ in session(s, top, o):
                    pass

            sc.spawn(body)
        sc.run()
        switches, steps = sc.switches, sc.step
        explicit = dict(case, schedule={"mode": "list", "switches": sc.switches})
        if sc.preemptions:
            cnt("preempted")
        if sc.failure:
            viol = {"class": "schedule", "detail": sc.failure}
        for t in sc.threads:
            if t.exc is not None:
                raise t.exc
    for k, (a, b) in enumerate(zip(alone, outs)):
        log.append([k, core.digest(b)])
        d = trains.equal(_plain(b), a, 1e-9)
        if d and not viol:
            s = case["sessions"][k]
            step = next((x[0] for x, y in zip(b, a) if trains.equal(_plain(x), y, 1e-9)), "?")
            viol = {"class": "influence", "detail": f"session {k} ({s['how']} {s['f']}), step {step}: {str(d)[:300]} (with the others / alone)"}
    return {"violation": viol, "stats": stats, "sig": core.digest([case["sessions"], switches[:200]]), "nontrivial": len(case["sessions"]) > 1, "digest": core.digest(log + [switches, viol]), "sim_time": steps,
            "explicit_case": explicit, "trace": [str(x)[:300] for x in log] + [f"switches {str(switches)[:2000]}"]}


def _plain(x):
    import json

    return json.loads(json.dumps(x, default=str))


def shrink(case):
    if case["mode"] == "seq":
        if case.get("order"):
            for k in range(len(case["sessions"])):
                if len(case["sessions"]) > 1:
                    yield dict(case, sessions=case["sessions"][:k] + case["sessions"][k + 1 :], order=[x - (x > k) for x in case["order"] if x != k])
    else:
        for s in sched.shrink_schedule(case["schedule"]):
            yield dict(case, schedule=s)
    for k, s in enumerate(case["sessions"]):
        if s["steps"]:
            yield dict(case, sessions=case["sessions"][:k] + [dict(s, steps=s["steps"][:-1])] + case["sessions"][k + 1 :])
    for k, f in enumerate(case["folders"]):
        for q in models.shrink_spec(f):
            yield dict(case, folders=case["folders"][:k] + [q] + case["folders"][k + 1 :])


def describe(case):
    return {"mode": case["mode"], "sessions": case["sessions"], "includes": [f["include"] for f in case["folders"]], "order": case.get("order"), "schedule": case.get("schedule")}
