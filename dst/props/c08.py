"""C08: output is a function of the model and its inputs only."""

from __future__ import annotations

import gc
import os
import random
import time

from dst import cli, clirun, core, models, ymodel, zygote

LEVEL = "exploration"
RULE = (
    "one evaluation = one generated model and option set, run once in a reference environment and up to six times in other ones (hash seed, clocks with jumps, entropy, process id, working directory and path spelling, "
    "folder listing order, garbage collection and memory layout, time zone, file times, bridge, cache sizes, earlier runs in the process, log level and failing log files, files of the same names in the working directory, leftovers next to the model, environment variables); distinct = distinct (environment dimensions varied, outcome) "
    "per model make-up; nontrivial = at least one varied run was compared"
)
REAL = ["ecalc_cli", "libecalc", "ecalc_neqsim_wrapper", "CPython with the hash seed set", "logging"]
STUB = ["clocks (interposed clock_gettime)", "entropy (os.urandom, random, numpy)", "disk below the case folder (dst.fs: log faults, listing order)", "Java process, Py4J/JPype and NeqSim (dst.jvm)"]
ASSUMPTIONS = [
    "start and end of the run in the run-info file are time stamps; node identifiers of the flow diagram count up to renaming",
    "with caches of another size or filled by earlier runs, numbers may differ within the rounding of the cache keys (relative 1e-3 is allowed, as in C02)",
    "the text encoding of the platform is UTF-8",
]
COUNTS = {"quick": 260, "thorough": 80000}
QUICK_S = 110
PROBES = ("dim.hash", "dim.clock", "dim.entropy", "dim.cwd", "dim.pid", "dim.gc", "dim.tz", "dim.listing", "dim.mtime", "dim.bridge", "dim.cache", "dim.prior", "dim.log", "dim.logfault", "dim.decoy", "dim.environ", "fault.clock_jump", "fault.log_errno",
          "clock.read", "compared.bytes", "log.failed_run")
SIM_TIME_UNIT = "simulated seconds of clock"
REPEAT_EVERY = 60

_procs = None


def setup():
    global _procs
    cli.setup()
    _procs = zygote.start("dst.props.c08:serve")


LOGERR = ["EIO", "ENOSPC", "EACCES", "EROFS", "EMFILE"]


def gen(r, i, tier):
    o = clirun.gen_opts(r, "show" if i % 25 == 24 else "run")
    if o["cmd"] == "show":
        o.update(what="yaml", file=True)
    else:
        o.update(jpype=False, flash=None, ref=None, csv=r.random() < 0.8, json=r.random() < 0.8, flow=r.random() < 0.5)
        if not (o["csv"] or o["json"] or o["ltp"] or o["stp"] or o["flow"]):
            o["csv"] = True
    spec = models.gen_spec(r, r.choice([None, None, None, "light"]), include=r.choice([[], ["fuel"], ["series", "fuel", "models"]]))
    envs = []
    for _ in range(6):
        e = {}
        n = r.choice([1, 1, 2, 3, 6])
        for d in r.sample(["hash", "hash", "clock", "entropy", "cwd", "pid", "gc", "tz", "listing", "mtime", "bridge", "cache", "prior", "log", "logfault", "decoy", "environ"], n):
            if d == "hash":
                e[d] = r.choice(zygote.SEEDS[1:])
            elif d == "clock":
                e[d] = {"real": r.choice([0, 86399.9, 951782399, 1582934400, 1700000000, 2147483646, 4102444799, 7258118400]), "mono": r.choice([0, 5, 1e6]), "tick": r.choice([0, 1e-6, 0.3, 40, 90000]),
                        "jumps": [[r.randint(1, 40), r.choice([-86400 * 400, -3600, -1, 3600, 86400 * 366, 1e7])] for _ in range(r.choice([0, 1, 3]))]}
                if e[d]["real"] < 1.1e8:  # never before 1970
                    e[d]["jumps"] = [[at, abs(by)] for at, by in e[d]["jumps"]]
            elif d == "entropy":
                e[d] = r.randrange(1, 1 << 30)
            elif d == "cwd":
                e[d] = r.choice(["elsewhere", "inside", "dots", "link", "relative", "linkcwd"])
            elif d == "pid":
                e[d] = r.choice([1, 2, 77, 32768, 4194303])
            elif d == "gc":
                e[d] = [r.choice(["off", "often"]), r.randrange(1 << 20)]
            elif d == "tz":
                e[d] = r.choice(["Etc/GMT+12", "Etc/GMT-14", "UTC", "Europe/Oslo", "XYZ-05:30"])
            elif d in ("listing", "mtime"):
                e[d] = r.randrange(1 << 20)
            elif d == "bridge":
                e[d] = "jpype"
            elif d in ("decoy", "environ"):
                e[d] = r.randrange(1 << 20)
            elif d == "cache":
                e[d] = [r.choice([None, 0, 1, 3, 50]), r.choice([None, 0, 1, 2])]
            elif d == "prior":
                e[d] = r.choice(["same", "other", "other_broken"])
            elif d == "log":
                e[d] = [r.choice(["ERROR", "WARNING", "DEBUG", "DEBUG"]), r.choice([None, "logs", "nologs"])]
            elif d == "logfault":
                e[d] = {"ops": r.choice([["open"], ["write"], ["write"], ["close"], ["stat"], ["write", "close"]]), "errno": r.choice(LOGERR), "from": r.choice([1, 1, 2, 5, 20])}
        envs.append(e)
    return {"spec": spec, "opts": o, "envs": envs, "other": models.gen_spec(r, None, nsteps=1, include=[], ncons=2)}


# ------------------------------------------------------------------ in the other interpreter
def serve(req):
    e, root, o = req["env"], req["root"], req["opts"]
    if "tz" in e:
        os.environ["TZ"] = e["tz"]
        time.tzset()
    if "environ" in e:
        r = random.Random(e["environ"])
        os.environ.update(HOME=r.choice(["/", "/nonexistent", root]), USER=r.choice(["root", "somebody"]), TERM=r.choice(["dumb", "xterm-256color"]), COLUMNS=r.choice(["20", "80", "400"]),
                          TMPDIR=root, EDITOR="vi", PAGER="less", NO_COLOR="1", DEBUG="1", ECALC_DEBUG="1", LOG_LEVEL="DEBUG")
        os.umask(r.choice([0o022, 0o002, 0o077]))
    junk = []
    if "gc" in e:
        r = random.Random(e["gc"][1])
        junk = [bytearray(r.choice([8, 24, 56, 120, 500])) for _ in range(20000)]
        del junk[:: r.choice([2, 3, 5])]
        if e["gc"][0] == "off":
            gc.disable()
        else:
            gc.set_threshold(500, 3, 3)
    if "pid" in e:
        os.getpid = lambda: e["pid"]
    if "prior" in e:
        clirun.seed_entropy(("prior", e.get("entropy", 0)))
        prior(root, e["prior"])
    on_op = None
    st = {"n": 0, "fired": 0}
    if "logfault" in e:
        lf = e["logfault"]

        def on_op(kind, rel):
            if rel.startswith("logs" + os.sep) and kind in lf["ops"]:
                st["n"] += 1
                if st["n"] >= lf["from"]:
                    st["fired"] += 1
                    raise OSError(clirun.ERRNOS[lf["errno"]], os.strerror(clirun.ERRNOS[lf["errno"]]))

    if "listing" in e:
        shuffle_listing(e["listing"])

    def pre(w):
        c = e.get("cwd")
        os.chdir({"elsewhere": os.path.join(root, "away"), "inside": os.path.join(root, "m"), "linkcwd": os.path.join(root, "lnk")}.get(c, root))
        if c in ("linkcwd",):
            os.environ["PWD"] = os.path.join(root, "lnk")
        if "clock" in e:
            zygote.clock(e["clock"])

    extra = []
    lg = e.get("log")
    if lg:
        extra += ["--log", lg[0]]
    folder = None
    if "logfault" in e:
        folder = os.path.join(root, "logs")
    elif lg and lg[1]:
        folder = os.path.join(root, lg[1])
    p = clirun.process(root, o, args=req["args"], entropy=e.get("entropy", 0), extra=extra, log_folder=folder, pre=pre, on_op=on_op, fork=False)
    reads = zygote.clock_off() if "clock" in e else {"real": 0, "mono": 0}
    return {"code": p["code"], "err": p["err"][-600:], "rpc": p["rpc"], "reads": reads, "logfired": st["fired"], "counters": p["counters"]}


def prior(root, how):
    """Evaluate another model (or this one) in the process first, through the library."""
    from dst import jvm, trains

    jvm.set_world(jvm.SimWorld({}))
    ns, _ = trains.service()
    try:
        m = ymodel.load(os.path.join(root, "m" if how == "same" else "other"))
        if how == "other_broken":
            m._resource_service = None
        m.validate_for_run()
        m.evaluate_energy_usage()
        ymodel.result(m)
    except Exception:
        if how != "other_broken":
            raise
    finally:
        ns.shutdown()


def shuffle_listing(seed):
    r = random.Random(seed)
    ld, sd = os.listdir, os.scandir

    def listdir(p="."):
        x = sorted(ld(p))
        r.shuffle(x)
        return x

    class Scan(list):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

        def __next__(self):
            if not self:
                raise StopIteration
            return self.pop(0)

        def __iter__(self):
            return self

    def scandir(p="."):
        with sd(p) as it:
            x = sorted(list(it), key=lambda d: d.name)
        r.shuffle(x)
        return Scan(x)

    os.listdir, os.scandir = listdir, scandir


# ------------------------------------------------------------------ in the check
def spell(args, root, how):
    """The same files by other names."""
    m = os.path.join(root, "m")
    out = []
    for a in args:
        a2 = a
        if os.path.isabs(a) and a.startswith(m):
            rest = a[len(m) :].lstrip(os.sep)
        elif a.startswith("m/"):
            rest = a[2:]
        else:
            out.append(a)
            continue
        if how == "elsewhere":
            a2 = os.path.join("..", "m", rest)
        elif how == "inside":
            a2 = rest or "."
        elif how == "dots":
            a2 = os.path.join(root, "away", "..", ".", "m", rest)
        elif how == "link":
            a2 = os.path.join(root, "lnk", rest)
        elif how == "relative":
            a2 = os.path.join("m", rest)
        elif how == "linkcwd":
            a2 = rest or "."
        out.append(a2)
    return out


def run(case):
    top = clirun.scratch()
    try:
        return _run(case, top)
    finally:
        clirun.clean(top)


def one(case, files, other, root, env):
    o = dict(case["opts"])
    clirun.prepare(root, files, o)
    ymodel.write(other, os.path.join(root, "other"))
    for d in ("away", "logs"):
        os.makedirs(os.path.join(root, d))
    os.symlink("m", os.path.join(root, "lnk"))
    if "decoy" in env:  # files of the same names where the program is started, and leftovers next to the model
        fake = models.twist(files, env["decoy"])
        for d in ("", "away"):
            models.write(fake, os.path.join(root, d))
        r = random.Random(env["decoy"])
        for n in sorted(files):
            if r.random() < 0.5:
                d, f = os.path.split(n)
                stem, ext = os.path.splitext(f)
                f = r.choice([f + "~", f + ".bak", "." + f, stem + "_old" + ext, stem.upper() + ".txt", "#" + f + "#", stem, f + ".part", f + ".lock", stem + ".json", stem + ".pkl", f + ".cache"])
                p = os.path.join(root, "m", d, f)
                if not os.path.exists(p):
                    with open(p, "w") as fh:
                        fh.write(fake[n])
    if "mtime" in env:
        r = random.Random(env["mtime"])
        for d, ds, fs_ in os.walk(root):
            for f in sorted(fs_) + sorted(ds):
                t = r.choice([0, 1, 10**9, 4 * 10**9]) + r.random()
                os.utime(os.path.join(d, f), (t, t), follow_symlinks=False)
    if "bridge" in env and o["cmd"] == "run":
        o["jpype"] = True
    args = clirun.argv(o, root)
    if "cache" in env and o["cmd"] == "run" and "prior" not in env:
        for v, f in zip(env["cache"], ("--flash-cache-size", "--reference-cache-size")):
            if v is not None:
                args += [f, str(v)]
    if "cwd" in env:
        args = spell(args, root, env["cwd"])
    a = zygote.ask(env.get("hash", 0), {"env": env, "root": root, "opts": o, "args": args})
    return a, clirun.outputs(o, root)


def _run(case, top):
    stats, log, viol, sigs, sim = {}, [], None, [], 0.0

    def cnt(k, n=1):
        stats[k] = stats.get(k, 0) + n

    o = case["opts"]
    files, other = models.build(case["spec"]), models.build(case["other"])
    a, ref = one(case, files, other, os.path.join(top, "b"), {})
    log.append(["base", a["code"], core.digest(sorted((k, v.decode("latin1")) for k, v in ref.items()))])
    if a["code"] != 0:
        cnt("baseline.failed")
        return {"violation": None, "stats": stats, "sig": "", "nontrivial": False, "digest": core.digest(log), "trace": [a.get("err", "")]}
    for j, e in enumerate(case["envs"]):
        root = os.path.join(top, f"v{j}" + "x" * (j * 7))
        a, got = one(case, files, other, root, e)
        for d in e:
            cnt("dim." + d)
        if a.get("reads", {}).get("real"):
            cnt("clock.read")
            sim += abs(a["reads"]["real"] * e["clock"]["tick"])
            n = sum(1 for at, _ in e["clock"]["jumps"] if at <= a["reads"]["real"])
            if n:
                cnt("fault.clock_jump", n)
                sim += sum(abs(by) for at, by in e["clock"]["jumps"] if at <= a["reads"]["real"])
        if a.get("logfired"):
            cnt("fault.log_errno", a["logfired"])
        soft = bool("cache" in e or "prior" in e) and a.get("rpc", 0) > 0
        what = f"environment {e}"
        log.append([j, sorted(e), a["code"]])
        if a.get("stall"):
            viol = {"class": "stall", "detail": f"{what}: the run did not end"}
        elif a["code"] != 0:
            if a.get("logfired"):
                cnt("log.failed_run")
            else:
                viol = {"class": "failed", "detail": f"{what}: the run fails with status {a['code']}: {tail(a['err'], top)}"}
        else:
            d = clirun.diff(ref, got) or clirun.diff(got, ref)
            if d and soft and set(ref) == set(got):
                cnt("compared.numbers")
                d = next((f"{k} differs in more than rounding" for k in sorted(ref) if not cli.same_numbers(ref[k], got[k])), None)
            else:
                cnt("compared.bytes")
            if d:
                viol = {"class": "differs", "detail": f"{what}: {d.split(':')[0] if 'gc' in e or 'pid' in e else d}"}
        sigs.append(core.digest([sorted(e), sorted(set(case["spec"]["kinds"])), o["cmd"], a["code"] == 0]))
        if viol:
            break
    res = {"violation": viol, "stats": stats, "sigs": sigs, "sig": core.digest(sigs), "nontrivial": bool(sigs), "digest": core.digest(log + [viol and viol["class"]]), "sim_time": sim, "trace": [str(x)[:400] for x in log]}
    if viol:
        res["explicit_case"] = dict(case, envs=[case["envs"][len(log) - 2]])
    return res


def tail(err, top):
    return err.strip().replace(top, "").split("\n")[-1][:200]


def shrink(case):
    for p in core.shrink_list(case["envs"], 1):
        yield dict(case, envs=p)
    if len(case["envs"]) == 1:
        e = case["envs"][0]
        for k in list(e):
            if len(e) > 1:
                yield dict(case, envs=[{a: b for a, b in e.items() if a != k}])
    for o in clirun.shrink_opts(case["opts"]):
        yield dict(case, opts=o)
    for s in models.shrink_spec(case["spec"]):
        yield dict(case, spec=s)


def describe(case):
    return {"opts": {k: v for k, v in case["opts"].items() if v}, "kinds": case["spec"]["kinds"], "envs": case["envs"][:3]}
