"""C06: input that cannot be read is an error, never a different result."""

from __future__ import annotations

import os

from dst import clirun, cli, core, models

LEVEL = "exploration"
RULE = (
    "one evaluation = one case: a generated model with included, time-series and facility files, its undisturbed run and up to eight runs with faults at stat, open, read and close of inputs with vanishing files, "
    "or with blocks of zero bytes, bytes that are not text, unreadable values or lines with more values than headings in an input; distinct = distinct (operation, input role, fault kind, outcome); nontrivial = at least one fault fired"
)
REAL = ["ecalc_cli", "libecalc (YAML reading with includes, resource discovery and parsing, validation, evaluation, results)", "ecalc_neqsim_wrapper"]
STUB = ["disk below the case folder (dst.fs)", "Java process, Py4J/JPype and NeqSim (dst.jvm)"]
ASSUMPTIONS = ["the operating system reports a failing read as an error; data that is silently different on the disk but well-formed cannot be told from an edited file"]
COUNTS = {"quick": 300, "thorough": 60000}
QUICK_S = 110
PROBES = ("exit.zero", "exit.nonzero", "role.series", "role.facility", "role.include", "role.model", "fault.open.errno", "fault.read.errno", "fault.read.short", "fault.stat.errno", "fault.close.errno",
          "fault.stat.vanish", "gone", "fault.torn.hole", "fault.torn.cell", "fault.torn.byte", "fault.torn.extra", "fault.torn.extra_all")
SIM_TIME_UNIT = "disk operations + remote calls"
REPEAT_EVERY = 60


def setup():
    cli.setup()


KINDS = [
    lambda r: {"kind": "errno", "errno": r.choice(["EIO", "ESTALE", "EINTR"]), "ops": ["read"]},
    lambda r: {"kind": "errno", "errno": r.choice(["EACCES", "ENOENT", "EMFILE", "EIO", "EPERM", "ENFILE", "ESTALE"]), "ops": ["open"]},
    lambda r: {"kind": "errno", "errno": r.choice(["EIO", "ESTALE"]), "ops": ["close"]},
    lambda r: {"kind": "errno", "errno": r.choice(["EACCES", "ENOENT", "EIO", "ESTALE", "EPERM"]), "ops": ["stat"]},
    lambda r: {"kind": "short", "frac": r.random(), "ops": ["read"]},
    lambda r: {"kind": "vanish", "ops": ["stat"]},
    lambda r: {"kind": "vanish", "ops": ["open"]},
    lambda r: {"kind": "kbint", "ops": ["read", "open", "close"]},
]
W = [6, 6, 2, 6, 3, 3, 3, 1]


def gen(r, i, tier):
    o = clirun.gen_opts(r, "show" if i % 12 == 11 else "run")
    if o["cmd"] == "show":
        o.update(what="yaml", file=True)
    o.update(jpype=False)
    for k in ("ltp", "stp", "flow"):
        if k in o:
            o[k] = o[k] and r.random() < 0.3
    if o["cmd"] == "run" and not (o["csv"] or o["json"] or o["ltp"] or o["stp"] or o["flow"]):
        o["csv"] = True
    spec = models.gen_spec(r, r.choice([None, None, "light"]), include=r.choice([[], ["fuel"], ["fuel", "models"], ["series", "fuel"], ["series", "fuel", "models"]]))
    spec["pad"] = r.choice([0, 0, 700, 3000, 5000])
    plans = []
    for _ in range(8):
        if r.random() < 0.15:
            plans.append({"gone": r.random(), "how": r.choice(["unlink", "dir"])})
            continue
        if r.random() < 0.35:
            plans.append({"torn": r.random(), "pos": r.random(), "how": r.choice(["hole", "cell", "byte", "extra", "extra_all"]), "len": r.choice([1, 2, 3, 5, 16, 64]), "text": r.choice(["abc", "1.2.3", "-", "12e", "?"])})
            continue
        fs_ = []
        for _ in range(r.choice([1, 1, 1, 1, 2, 3])):
            f = r.choices(KINDS, W)[0](r)
            f.update(where="in", pos=r.random())
            fs_.append(f)
        plans.append({"faults": fs_})
    return {"spec": spec, "opts": o, "plans": plans}


def role(rel):
    if rel.startswith("m/sim"):
        return "series"
    if rel.startswith("m/einput"):
        return "facility"
    if rel.startswith("m/parts"):
        return "include"
    if rel == "m/model.yaml":
        return "model"
    return "other"


def tear(path, plan):
    """What a crash of the machine that wrote the file or a failing transfer leaves: a block of zero bytes, bytes that are not text, a value that is none, lines with too many values."""
    with open(path, "rb") as f:
        data = bytearray(f.read())
    kind = plan["how"]
    if kind in ("cell", "extra", "extra_all"):
        lines = data.decode().split("\n")
        rows = [k for k, ln in enumerate(lines) if k and "," in ln and not ln.lstrip().startswith("#")]
        if not path.lower().endswith(".csv") or not rows:
            kind = "hole"
        else:
            k = rows[min(len(rows) - 1, int(plan["pos"] * len(rows)))]
            if kind == "cell":
                cells = lines[k].split(",")
                j = int(plan["pos"] * 7919) % len(cells)
                cells[j] = plan["text"]
                lines[k] = ",".join(cells)
            else:  # lines with more values than the file has headings
                for k_ in rows if kind == "extra_all" else [k]:
                    lines[k_] = lines[k_].rstrip("\r") + f",{plan['len']}"
            data = "\n".join(lines).encode()
    if kind == "byte":  # a byte that is not text
        if not data:
            return None
        c = min(len(data) - 1, int(plan["pos"] * len(data)))
        if plan["len"] % 2:
            data[c] = 0xFF
        else:
            data[c:c] = b"\xfe"
    if kind == "hole":
        if not data:
            return None
        c = min(len(data) - 1, int(plan["pos"] * len(data)))
        n = min(plan["len"], len(data) - c)
        data[c : c + n] = bytes(n)
    with open(path, "wb") as f:
        f.write(data)
    return kind


def run(case):
    top = clirun.scratch()
    try:
        return _run(case, top)
    finally:
        clirun.clean(top)


def _run(case, top):
    o = case["opts"]
    files = models.build(case["spec"])
    stats, log, viol, sigs = {}, [], None, []

    def cnt(k, n=1):
        stats[k] = stats.get(k, 0) + n

    base = os.path.join(top, "b0")
    clirun.prepare(base, files, o)
    b = clirun.process(base, o)
    ref = clirun.outputs(o, base)
    log.append(["base", b["code"], [t[1:] for t in b["trace"]], sorted((k, core.digest(v.decode("latin1"))) for k, v in ref.items())])
    steps = len(b["trace"]) + b["rpc"]
    if b["code"] != 0:
        cnt("baseline.failed")
        return {"violation": None, "stats": stats, "sig": "", "nontrivial": False, "digest": core.digest(log), "trace": [b["err"]]}
    used = sorted({t[2] for t in b["trace"] if t[1] == "open" and t[3].startswith("r") and role(t[2]) != "other"})
    for k, plan in enumerate(case["plans"]):
        root = os.path.join(top, f"p{k}")
        clirun.prepare(root, files, o)
        must_fail = None
        if "gone" in plan:
            rel = used[min(len(used) - 1, int(plan["gone"] * len(used)))]
            p_ = os.path.join(root, rel)
            os.unlink(p_)
            if plan["how"] == "dir":
                os.mkdir(p_)
            cnt("gone")
            cnt("role." + role(rel))
            p = clirun.process(root, o)
            fired = {"input_" + plan["how"]: 1}
            must_fail = f"{role(rel)} file {rel[2:]} is not there"
            hit = [["gone", rel]]
        elif "torn" in plan:
            rel = used[min(len(used) - 1, int(plan["torn"] * len(used)))]
            kind = tear(os.path.join(root, rel), plan)
            cnt("role." + role(rel))
            p = clirun.process(root, o)
            fired = {"torn." + kind: 1} if kind else {}
            hit = [["torn." + str(kind), rel]]
        else:
            pl = clirun.resolve(plan["faults"], b["trace"], o)
            p = clirun.process(root, o, plan=pl)
            fired = p["fired"]
            hit = [t[1:3] + t[5:] for t in p["trace"] if len(t) > 5]
            for h in hit:
                cnt("role." + role(h[1]))
        for f, n in fired.items():
            cnt("fault." + f, n)
        got = clirun.outputs(o, root)
        steps += len(p["trace"]) + p["rpc"]
        cnt("exit.zero" if p["code"] == 0 else "exit.nonzero")
        d = clirun.diff(ref, got)
        log.append([k, p["code"], sorted(fired.items()), [t[1:] for t in p["trace"]], d])
        if fired:
            sigs.append(core.digest([o["cmd"], [[h[0], role(h[1]), h[2:]] for h in hit], p["code"] == 0]))
        if p.get("stall"):
            viol = {"class": "stall", "detail": f"the run did not end; faults {hit}"}
        elif p["code"] == 0 and must_fail:
            viol = {"class": "missing_accepted", "detail": f"the run ended with status 0 although {must_fail}"}
        elif p["code"] == 0 and d:
            viol = {"class": "different_result", "detail": f"the run ended with status 0 and a different result: {d}; faults {hit}"}
        if viol:
            break
    res = {"violation": viol, "stats": stats, "sigs": sigs, "sig": o["cmd"], "nontrivial": bool(sigs), "digest": core.digest(log + [viol]), "sim_time": steps, "trace": [str(x)[:600] for x in log]}
    if viol:
        res["explicit_case"] = dict(case, plans=[case["plans"][len(log) - 2]])
    return res


from dst.props.c05 import describe  # noqa: E402


def shrink(case):
    from dst.props import c05

    yield from c05.shrink(dict(case, mode="faults"))
