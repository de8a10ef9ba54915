"""Runner: seeded cases, one forked child per run, minimisation, replay, evidence."""

from __future__ import annotations

import gc
import hashlib
import importlib
import json
import os
import random
import resource
import select
import shutil
import signal
import struct
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
REPLAYS = os.path.join(VERIF, "replays")
NPROC = int(os.environ.get("VERIF_WORKERS", "0")) or os.cpu_count() or 4

# CPU seconds one run may use before it counts as stalled (typical runs use well under two)
CPU_BUDGET = int(os.environ.get("VERIF_CPU_BUDGET", "90"))


class HarnessError(Exception):
    pass


_cur_child = 0


def _on_term(*_):
    if _cur_child:
        try:
            os.killpg(_cur_child, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
    os._exit(4)


def scratch_root():
    base = os.environ.get("VERIF_SCRATCH")
    if not base:
        base = f"/tmp/vdst.{os.getpid()}"
        os.environ["VERIF_SCRATCH"] = base
    os.makedirs(base, exist_ok=True)
    return base


def digest(obj) -> str:
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


def case_rng(seed, prop, i):
    return random.Random(f"{seed}:{prop}:{i}")


# ------------------------------------------------------------------ running one case in a child
def _child_main(mod, case, wfd):
    try:
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        signal.signal(signal.SIGPROF, signal.SIG_DFL)
        signal.setitimer(signal.ITIMER_PROF, getattr(mod, "CPU_BUDGET", CPU_BUDGET))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        res = mod.run(case)
    except MemoryError:
        res = {"harness_error": "MemoryError"}
    except BaseException:
        res = {"harness_error": traceback.format_exc()}
    data = json.dumps(res, default=str).encode()
    try:
        os.write(wfd, struct.pack("<Q", len(data)))
        off = 0
        while off < len(data):
            off += os.write(wfd, data[off : off + 65536])
    finally:
        os._exit(0)


def run_case(mod, case, wall=150):
    """Run one case in a fresh forked child; returns its result dict."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        if not os.environ.get("VERIF_DEBUG"):
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            os.dup2(dn, 0)
        _child_main(mod, case, w)
        os._exit(0)
    os.close(w)
    global _cur_child
    _cur_child = pid
    buf = bytearray()
    deadline = time.monotonic() + wall
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            timed_out = True
            break
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL) if timed_out else None
    except ProcessLookupError:
        pass
    _, st = os.waitpid(pid, 0)
    _cur_child = 0
    try:
        os.killpg(pid, signal.SIGKILL)  # stray grandchildren
    except (ProcessLookupError, PermissionError):
        pass
    if len(buf) >= 8 and len(buf) - 8 == struct.unpack("<Q", bytes(buf[:8]))[0]:
        return json.loads(bytes(buf[8:]))
    if timed_out:
        return {"violation": {"class": "stall", "detail": f"no progress within {wall}s wall"}, "stats": {}, "sig": "stall",
                "nontrivial": True, "digest": "stall"}
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGPROF:
        return {"violation": {"class": "stall", "detail": "run did not end within its CPU budget"}, "stats": {}, "sig": "stall",
                "nontrivial": True, "digest": "stall"}
    return {"harness_error": f"child ended without a result, status {st}"}


def normalise(res):
    res.setdefault("violation", None)
    res.setdefault("stats", {})
    res.setdefault("sig", "")
    res.setdefault("nontrivial", True)
    res.setdefault("digest", "")
    return res


# ------------------------------------------------------------------ minimisation
def minimise(mod, case, vclass, budget_s=60.0, max_runs=600):
    t0 = time.monotonic()
    runs = 0
    cur = case
    if not hasattr(mod, "shrink"):
        return cur, runs
    improved = True
    while improved and time.monotonic() - t0 < budget_s and runs < max_runs:
        improved = False
        for cand in mod.shrink(cur):
            if time.monotonic() - t0 > budget_s or runs >= max_runs:
                break
            runs += 1
            res = run_case(mod, cand)
            v = res.get("violation")
            if v and v["class"] == vclass:
                cur = cand
                improved = True
                break
    return cur, runs


def shrink_list(lst, min_len=0):
    """Candidate shorter lists: halves, quarters, then single removals."""
    n = len(lst)
    size = n // 2
    while size >= 1:
        for s in range(0, n, size):
            cand = lst[:s] + lst[s + size :]
            if len(cand) >= min_len and len(cand) < n:
                yield cand
        size //= 2


# ------------------------------------------------------------------ known findings
def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def match_finding(prop, res, findings):
    v = res["violation"]
    for f in findings:
        if f["property"] != prop:
            continue
        m = f["match"]
        if m.get("class") != v["class"]:
            continue
        if "key" in m and m["key"] != v.get("key"):
            continue
        return f
    return None


# ------------------------------------------------------------------ workers
def _worker(mod, prop, tier, seed, idxs, wfd, deadline, repeat_every):
    w = os.fdopen(wfd, "w", buffering=1)
    for i in idxs:
        if time.monotonic() > deadline:
            break
        try:
            case = mod.gen(case_rng(seed, prop, i), i, tier)
        except Exception:
            w.write(json.dumps({"i": i, "harness_error": traceback.format_exc()}) + "\n")
            continue
        t = time.monotonic()
        res = run_case(mod, case)
        if "harness_error" in res:  # the sandbox may have refused a fork or a file: once more before giving up
            print(f"case {i} tried again after: {res['harness_error'][-1500:]}", file=sys.stderr, flush=True)
            time.sleep(0.5)
            res = run_case(mod, case)
        out = {"i": i, "t": time.monotonic() - t}
        if "harness_error" in res:
            out["harness_error"] = res["harness_error"]
            out["case"] = case
        else:
            normalise(res)
            out.update(stats=res["stats"], sig=res["sig"], sigs=res.get("sigs"), nontrivial=res["nontrivial"],
                       digest=res["digest"], sim_time=res.get("sim_time", 0))
            if res["violation"]:
                out["violation"] = res["violation"]
                out["case"] = res.get("explicit_case") or case
                out["orig_case"] = case
            elif repeat_every and i % repeat_every == 0:
                res2 = run_case(mod, case)
                out["repeat_ok"] = res2.get("digest") == res["digest"]
                if not out["repeat_ok"]:
                    out["case"] = case
            if i < 3:
                out["sample"] = mod.describe(case) if hasattr(mod, "describe") else case
        w.write(json.dumps(out, default=str) + "\n")
    w.close()
    os._exit(0)


def run_check(mod, prop, tier, seed):
    t0 = time.monotonic()
    n = mod.COUNTS[tier]
    cap = {"quick": getattr(mod, "QUICK_S", 110), "thorough": getattr(mod, "THOROUGH_S", 780)}[tier]
    cap = float(os.environ.get("VERIF_BUDGET_S", cap))
    deadline = t0 + cap
    repeat_every = getattr(mod, "REPEAT_EVERY", 40)
    nw = min(getattr(mod, "WORKERS", NPROC), NPROC)
    pipes = {}
    pids = []
    for k in range(nw):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for rr in pipes:
                os.close(rr)
            try:
                _worker(mod, prop, tier, seed, range(k, n, nw), w, deadline, repeat_every)
            except BaseException:
                traceback.print_exc()
            os._exit(3)
        os.close(w)
        pipes[r] = bytearray()
        pids.append(pid)

    stats: dict = {}
    sigs = set()
    allsigs = set()
    runs = nontriv = 0
    repeats = repeat_bad = 0
    sim_time = 0.0
    harness = []
    viols = []
    samples = []
    stop = False
    maxrun = 0.0

    def handle(line):
        nonlocal runs, nontriv, repeats, repeat_bad, sim_time, maxrun
        o = json.loads(line)
        runs += 1
        if "harness_error" in o:
            harness.append(o)
            return
        maxrun = max(maxrun, o.get("t", 0))
        for k, v in o["stats"].items():
            stats[k] = stats.get(k, 0) + v
        allsigs.add(o["sig"])
        for s in o.get("sigs") or ():
            sigs.add(s)
        if o["nontrivial"]:
            nontriv += 1
            if not o.get("sigs"):
                sigs.add(o["sig"])
        sim_time += o.get("sim_time") or 0
        if "repeat_ok" in o:
            repeats += 1
            if not o["repeat_ok"]:
                repeat_bad += 1
                print(f"warning: case {o['i']} gave a different event digest when repeated", file=sys.stderr)
        if o.get("sample") is not None and len(samples) < 3:
            samples.append(o["sample"])
        if o.get("violation"):
            viols.append(o)

    open_fds = set(pipes)
    findings = load_findings()
    while open_fds:
        rd, _, _ = select.select(list(open_fds), [], [], 5)
        for fd in rd:
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                open_fds.discard(fd)
                os.close(fd)
                continue
            pipes[fd] += chunk
            *lines, rest = bytes(pipes[fd]).split(b"\n")
            pipes[fd] = bytearray(rest)
            for ln in lines:
                if ln:
                    handle(ln)
        if any(match_finding(prop, o, findings) is None for o in viols) and not stop:
            stop = True
            for p in pids:
                try:
                    os.kill(p, signal.SIGTERM)
                except ProcessLookupError:
                    pass
    bad_workers = 0
    for p in pids:
        _, st = os.waitpid(p, 0)
        if st != 0 and not stop:
            bad_workers += 1
    wall_search = time.monotonic() - t0

    # ---- verdict
    new = [o for o in viols if match_finding(prop, o, findings) is None]
    known = {}
    for o in viols:
        f = match_finding(prop, o, findings)
        if f:
            known[f["id"]] = f
    exit_code = 0
    reported = []
    if new:
        new.sort(key=lambda o: (o["i"],))
        by_class = {}
        for o in new:
            by_class.setdefault(o["violation"]["class"], o)
        unreproduced = []
        for cls, o in list(by_class.items())[:3]:
            rp = report(mod, prop, tier, seed, o)
            if rp:
                reported.append(rp)
            else:
                unreproduced.append(o)
        if reported:
            exit_code = 1
        else:
            exit_code = 2
            for o in unreproduced:
                print(f"error: violation of {prop} in case {o['i']} did not replay: {o['violation']}", file=sys.stderr)
    if exit_code == 0 and (harness or bad_workers):
        exit_code = 2
    if exit_code != 1:
        for o in harness[:3]:
            print(f"harness error in case {o['i']}:\n{o['harness_error']}", file=sys.stderr)
    for f in known.values():
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    if exit_code == 0 and runs == 0:
        exit_code = 2
    zero_probes = [k for k in getattr(mod, "PROBES", ()) if not stats.get(k)]
    if zero_probes and exit_code == 0:
        print(f"note: probes never reached in this batch: {zero_probes}", file=sys.stderr)
    write_evidence(mod, prop, tier, seed, runs, nontriv, sigs, stats, samples, t0, wall_search, repeats, repeat_bad,
                   sim_time, len(new), reported, zero_probes, maxrun, len(harness))
    print(f"{prop} {tier}: runs={runs} nontrivial={nontriv} distinct={len(sigs)} harness_errors={len(harness)} "
          f"violations={len(new)} known={len(known)} wall={time.monotonic()-t0:.1f}s exit={exit_code}")
    return exit_code


def report(mod, prop, tier, seed, o):
    os.makedirs(REPLAYS, exist_ok=True)
    vclass = o["violation"]["class"]
    small, shrink_runs = minimise(mod, o["case"], vclass) if vclass != "stall" else (o["case"], 0)
    for cand in (small, o["case"], o["orig_case"]):
        res = run_case(mod, cand)
        v = res.get("violation")
        if not v or v["class"] != vclass:
            continue
        path = os.path.join(REPLAYS, f"{prop}-{seed}-{o['i']}-{vclass}.json")
        doc = {"property": prop, "seed": seed, "index": o["i"], "tier": tier, "violation": v, "digest": res.get("digest"),
               "shrink_runs": shrink_runs, "case": cand, "trace": res.get("trace", [])[-400:]}
        with open(path, "w") as f:
            json.dump(doc, f, indent=1, default=str)
        # a fresh interpreter has to see exactly the same
        rc = subprocess.run([os.path.join(VERIF, "check"), "--replay", path], capture_output=True, text=True).returncode
        if rc == 1:
            print(f"violation of {prop} [{vclass}]: {v['detail']}")
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            return {"class": vclass, "detail": v["detail"], "replay": path, "index": o["i"]}
        os.unlink(path)
    return None


def replay(path):
    doc = json.load(open(path))
    mod = load(doc["property"])
    res = run_case(mod, doc["case"])
    if "harness_error" in res:
        print(res["harness_error"], file=sys.stderr)
        return 2
    v = res.get("violation")
    for line in res.get("trace", [])[-400:]:
        print("  ", line)
    if v and v["class"] == doc["violation"]["class"]:
        same = res.get("digest") == doc.get("digest")
        print(f"replayed {doc['property']} [{v['class']}]: {v['detail']} (event digest {'identical' if same else 'DIFFERS'})")
        print(f"VIOLATION property={doc['property']} replay={os.path.abspath(path)}")
        return 1 if same else 2
    print(f"replay of {path}: no violation" + (f" of that class (now: {v})" if v else ""))
    return 0


def write_evidence(mod, prop, tier, seed, runs, nontriv, sigs, stats, samples, t0, wall_search, repeats, repeat_bad, sim_time,
                   nviol, reported, zero_probes, maxrun, nharness):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault.")}
    other = {k: v for k, v in sorted(stats.items()) if not k.startswith("fault.")}
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(seed),
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": [json.dumps(s, default=str)[:1500] for s in samples] or ["none"],
            "nontrivial_runs": nontriv,
            "runs_per_hour": round(runs / max(wall_search, 1e-9) * 3600),
            "seeds_per_hour": round(runs / max(wall_search, 1e-9) * 3600),
            "simulated_time": {"unit": getattr(mod, "SIM_TIME_UNIT", "scheduler/remote-call steps"), "total": sim_time},
            "faults_fired": faults,
            "probes": other,
            "probes_at_zero": zero_probes,
            "repeat_runs": repeats,
            "repeat_runs_with_different_digest": repeat_bad,
            "longest_run_s": round(maxrun, 2),
            "harness_errors": nharness,
            "real_components": mod.REAL,
            "stubbed_components": mod.STUB,
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": nviol,
    }
    if reported:
        ev["coverage"]["reported"] = reported
    with open(os.path.join(d, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")


def load(prop):
    from dst import seams

    mod = importlib.import_module(f"dst.props.{prop.lower()}")
    seams.third_party()
    if hasattr(mod, "setup"):
        mod.setup()
    seams.check_tree()
    gc.collect()
    gc.freeze()  # forked children do not touch (and so copy) the pages of what is already loaded
    return mod


def main(argv):
    signal.signal(signal.SIGTERM, _on_term)
    scratch = scratch_root()
    try:
        if argv[0] == "--replay":
            return replay(argv[1])
        if argv[0] == "--digests":  # determinism proof: print index -> digest
            prop, lo, hi = argv[1], int(argv[2]), int(argv[3])
            mod = load(prop)
            seed = int(os.environ.get("VERIF_SEED", "1"))
            for i in range(lo, hi):
                res = run_case(mod, mod.gen(case_rng(seed, prop, i), i, "quick"))
                print(i, res.get("digest"), (res.get("violation") or {}).get("class"), res.get("harness_error", "")[-300:])
            return 0
        if argv[0] == "--case":
            prop, i = argv[1], int(argv[2])
            mod = load(prop)
            seed = int(os.environ.get("VERIF_SEED", "1"))
            case = mod.gen(case_rng(seed, prop, i), i, argv[3] if len(argv) > 3 else "quick")
            print(json.dumps(case)[:3000])
            t = time.monotonic()
            res = run_case(mod, case)
            he = res.pop("harness_error", None)
            print(json.dumps(res, default=str)[:6000], f"{time.monotonic()-t:.2f}s")
            if he:
                print(he)
            return 0
        prop, tier = argv[0], argv[1]
        mod = load(prop)
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return run_check(mod, prop, tier, seed)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
