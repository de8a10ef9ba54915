"""C15: runs at the same time do not disturb each other."""

from __future__ import annotations

import json
import os
import random
import select
import signal
import struct
import traceback

from dst import clirun, cli, core, models

LEVEL = "exploration"
RULE = (
    "one evaluation = two or three runs of the program as processes of their own in one folder, one disk operation of one of them at a time in a seeded order, some killed; "
    "distinct = distinct sequences of (process, operation, file) at the switches; nontrivial = at least one switch happened between the operations of a run"
)
REAL = ["ecalc_cli", "libecalc", "ecalc_neqsim_wrapper"]
STUB = ["process scheduling at disk operations (token passing between forked processes)", "disk below the case folder (dst.fs: numbering and kills only)", "Java process and NeqSim (dst.jvm)"]
ASSUMPTIONS = ["processes interact through the file system only; each has a Java process of its own", "two runs with the same output name in the same folder are not claimed to be independent"]
COUNTS = {"quick": 260, "thorough": 40000}
QUICK_S = 110
PROBES = ("shared_out", "fresh_out", "own_out", "existing_out", "switch.in_write", "switch.at_mkdir", "killed", "show", "other_model", "three", "logs", "end.ok")
SIM_TIME_UNIT = "disk operations"
REPEAT_EVERY = 40


def setup():
    cli.setup()


def gen(r, i, tier):
    n = r.choice([2, 2, 3])
    share = r.choice(["default", "default", "new", "existing", "own"])
    runs = []
    for k in range(n):
        if r.random() < 0.08:
            runs.append({"cmd": "show", "file": True, "what": "yaml", "tag": k})
            continue
        o = clirun.gen_opts(r, "run")
        o.update(out=share if share != "own" else "new", prefix=f"r{k}", tag=k if share == "own" else None, jpype=False, flash=None, ref=None)
        if r.random() < 0.25:
            o["model"] = "other.yaml"
        runs.append(o)
    kills = [{"run": r.randrange(n), "pos": r.random(), "mid": r.random() < 0.5}] if r.random() < 0.3 else []
    # stickiness: mean number of operations before a switch; "front" switches at every operation around the start of the run
    return {"spec": models.gen_spec(r, r.choice([None, None, None, "light"]), nsteps=2, ncons=3), "runs": runs, "kills": kills, "sseed": r.randrange(1 << 30), "stick": r.choice([1, 2, 2, 5, 20]),
            "log": r.random() < 0.2}


def argv(o, root):
    a = clirun.argv(o, root)
    if o["cmd"] == "show":
        a[-1] = os.path.join(root, "m", f"shown{o['tag']}.txt")
        return a
    if o.get("model"):
        a[1] = os.path.join(os.path.dirname(a[1]), o["model"])
    if o.get("tag") is not None:
        a[a.index("-o") + 1] = os.path.join(root, "m", f"res{o['tag']}")
    return a


def outs(o, root):
    m = os.path.join(root, "m")
    if o["cmd"] == "show":
        p = os.path.join(m, f"shown{o['tag']}.txt")
        return {"shown": open(p, "rb").read()} if os.path.exists(p) else {}
    d = os.path.join(m, f"res{o['tag']}") if o.get("tag") is not None else clirun.out_dir(o, root)
    t = cli.tree(d) if os.path.isdir(d) else {}
    return {k: clirun.norm(k, v) for k, v in t.items() if k.startswith(o["prefix"])}


class Proc:
    """One program run in a forked process that does one disk operation per token."""

    def __init__(self, k, root, o, kill, log):
        self.k, self.done, self.ready, self.last, self.buf, self.ops = k, False, False, "", b"", 0
        r, w = os.pipe()
        tr, tw = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(r)
                os.close(tw)
                self._child(root, o, w, tr, kill, log)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(9)
        os.close(w)
        os.close(tr)
        self.r, self.tok = r, tw

    def _child(self, root, o, w, tr, kill, log):
        n = [0]

        def gate(kind, rel):
            n[0] += 1
            if w >= 0:
                os.write(w, struct.pack("<I", 0x52000000 | min(len(rel), 200)) + kind[:1].encode() + rel.encode()[:200])
                if not os.read(tr, 1):
                    os._exit(8)

        plan = []
        if kill:
            plan = [{"at": kill["at"], "kind": "crash_mid" if kill["mid"] else "crash", "frac": 0.5}]
        res = clirun.process(root, o, plan=plan, on_op=gate, log_folder=os.path.join(root, "logs") if log else None, entropy=self.k, args=argv(o, root), fork=False)
        data = json.dumps({"code": res["code"], "err": res["err"].replace(root, "")[-600:], "ops": n[0]}).encode()
        os.write(w, struct.pack("<I", 0x45000000 | len(data)) + data)
        os._exit(0)

    def _read(self, n):
        while len(self.buf) < n:
            rd, _, _ = select.select([self.r], [], [], 120)
            if not rd:
                os.kill(self.pid, signal.SIGKILL)
                raise core.HarnessError("a run stopped answering")
            c = os.read(self.r, 65536)
            if not c:
                return None
            self.buf += c
        x, self.buf = self.buf[:n], self.buf[n:]
        return x

    def advance(self):
        """Wait until it stands before its next disk operation, or has ended."""
        h = self._read(4)
        if h is None:
            _, st = os.waitpid(self.pid, 0)
            self.done, self.res = True, {"code": 137 if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 137 else -1 if os.WIFSIGNALED(st) else os.WEXITSTATUS(st), "err": ""}
            self._close()
            if self.res["code"] in (8, 9):
                raise core.HarnessError("a run ended inside the harness")
            return
        (v,) = struct.unpack("<I", h)
        body = self._read(1 + (v & 0xFFFFFF) if v >> 24 == 0x52 else v & 0xFFFFFF)
        if v >> 24 == 0x52:
            self.last = body.decode()
            return
        self.res = json.loads(body)
        os.waitpid(self.pid, 0)
        self.done = True
        self._close()

    def _close(self):
        os.close(self.r)
        os.close(self.tok)

    def step(self):
        self.ops += 1
        os.write(self.tok, b"t")
        self.advance()


def run(case):
    top = clirun.scratch()
    try:
        return _run(case, top)
    finally:
        clirun.clean(top)


def prep(root, files, case):
    m = os.path.join(root, "m")
    os.makedirs(m)
    models.write(files, m)
    models.write({"other.yaml": files["model.yaml"].replace("inst0", "platform")}, m)
    if any(o.get("out") == "existing" for o in case["runs"]):
        os.makedirs(os.path.join(m, "res"))
    if case["log"]:
        os.makedirs(os.path.join(root, "logs"))


def _run(case, top):
    stats, log, viol = {}, [], None

    def cnt(k, n=1):
        stats[k] = stats.get(k, 0) + n

    files = models.build(case["spec"])
    ref = []
    for k, o in enumerate(case["runs"]):
        root = os.path.join(top, f"alone{k}")
        prep(root, files, case)
        p = Proc(k, root, o, None, case["log"])
        p.advance()
        while not p.done:
            p.step()
        ref.append((p.res["code"], outs(o, root), p.ops))
        log.append(["alone", k, p.res["code"], p.ops, sorted((a, core.digest(b.decode("latin1"))) for a, b in ref[-1][1].items())])
    if any(c != 0 for c, _, _ in ref):
        return {"violation": None, "stats": {"baseline.failed": 1}, "sig": "", "nontrivial": False, "digest": core.digest(log), "trace": [str(x)[:300] for x in log]}
    cnt("three" if len(ref) == 3 else "two")
    for o in case["runs"]:
        cnt("show" if o["cmd"] == "show" else "own_out" if o.get("tag") is not None else "existing_out" if o["out"] == "existing" else "fresh_out")
        if o.get("model"):
            cnt("other_model")
    if sum(1 for o in case["runs"] if o["cmd"] == "run" and o.get("tag") is None) > 1:
        cnt("shared_out")
    if case["log"]:
        cnt("logs")
    kills = {q["run"]: {"at": 1 + int(q["pos"] * (ref[q["run"]][2] - 1)), "mid": q["mid"]} for q in case["kills"] if ref[q["run"]][2] > 1}
    root = os.path.join(top, "c")
    prep(root, files, case)
    procs = [Proc(k, root, o, kills.get(k), case["log"]) for k, o in enumerate(case["runs"])]
    for p in procs:
        p.advance()
    sched = case.get("sched")
    r = random.Random(f"sched:{case['sseed']}")
    order, cur, switches, sig = [], None, 0, []
    i = 0
    while True:
        live = [p for p in procs if not p.done]
        if not live:
            break
        if sched is not None:
            want = sched[i] if i < len(sched) else (cur.k if cur else 0)
            p = next((x for x in live if x.k == want), live[0])
        elif cur is not None and not cur.done and r.random() >= 1.0 / case["stick"]:
            p = cur
        else:
            p = r.choice(live)
        i += 1
        if cur is not None and p is not cur:
            switches += 1
            if not cur.done:
                cnt("switch.in_write" if cur.last[:1] in "wc" and "res" in cur.last or "output" in cur.last else "switch")
                if cur.last[:1] == "m":
                    cnt("switch.at_mkdir")
                sig.append([cur.k, cur.last, p.k, p.last])
        cur = p
        order.append(p.k)
        p.step()
    for k, (p, o) in enumerate(zip(procs, case["runs"])):
        code = p.res["code"]
        if k in kills and code == 137:
            cnt("killed")
            cnt("fault.kill")
            log.append([k, "killed"])
            continue
        got = outs(o, root)
        d = clirun.diff(ref[k][1], got) or clirun.diff(got, ref[k][1])
        log.append([k, code, d])
        if code != 0:
            viol = {"class": "failed", "detail": f"run {k} ended with status {code} next to others, alone it succeeds: {p.res['err'][-300:]}"}
        elif d:
            viol = {"class": "differs", "detail": f"run {k} wrote something else next to others than alone: {d}"}
        else:
            cnt("end.ok")
        if viol:
            break
    res = {"violation": viol, "stats": stats, "sig": core.digest(sig), "nontrivial": switches > 0, "digest": core.digest([log, order, viol]), "sim_time": len(order) + sum(x[2] for x in ref), "trace": [str(x)[:400] for x in log] + ["order " + "".join(map(str, order))[:3000]]}
    if viol:
        res["explicit_case"] = dict(case, sched=order)
    return res


def shrink(case):
    if case["kills"]:
        yield dict(case, kills=[])
    if len(case["runs"]) > 2:
        for k in range(len(case["runs"])):
            yield dict(case, runs=case["runs"][:k] + case["runs"][k + 1 :], kills=[], sched=[x - (x > k) for x in case["sched"] if x != k] if "sched" in case else None) if "sched" in case else dict(case, runs=case["runs"][:k] + case["runs"][k + 1 :], kills=[])
    if case["log"]:
        yield dict(case, log=False)
    if case.get("sched"):
        # fewer switches: extend the run of a process over the next one's short turn
        s, blocks = case["sched"], []
        for x in s:
            if blocks and blocks[-1][0] == x:
                blocks[-1][1] += 1
            else:
                blocks.append([x, 1])
        for span in (8, 4, 2, 1):
            for j in range(0, len(blocks) - 2 * span, span):
                a, mid = blocks[j][0], blocks[j : j + 2 * span]
                new = blocks[:j] + sorted(mid, key=lambda b: b[0] != a) + blocks[j + 2 * span :]
                if new != blocks and sum(1 for x, y in zip(new, new[1:]) if x[0] != y[0]) < len(blocks) - 1:
                    yield dict(case, sched=[b[0] for b in new for _ in range(b[1])])
    for s in models.shrink_spec(case["spec"]):
        yield dict(case, spec=s)
    for k, o in enumerate(case["runs"]):
        for q in clirun.shrink_opts(o):
            if q["prefix"] == o["prefix"] and q["out"] == o["out"]:
                yield dict(case, runs=case["runs"][:k] + [q] + case["runs"][k + 1 :])


def describe(case):
    return {k: v for k, v in case.items() if k not in ("spec", "sched")} | {"kinds": case["spec"]["kinds"], "turns": len(case.get("sched") or [])}
