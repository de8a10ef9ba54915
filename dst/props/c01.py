"""C01: shared caches are linearizable, bounded LRU maps under every simulated interleaving."""

from __future__ import annotations

from dst import core, sched

LEVEL = "exploration"
RULE = (
    "one evaluation = one simulated multi-thread history; distinct = distinct (workload shape, executed context-switch sequence) "
    "pairs; nontrivial = at least one preemption happened inside a cache or registry operation"
)
REAL = ["ecalc_neqsim_wrapper.cache_service (LRUCache, CacheService)"]
STUB = ["threading.Lock/RLock (simulated, known to the scheduler)", "OS thread scheduler (seeded)"]
ASSUMPTIONS = [
    "preemption is possible at every source line, lock operation and call boundary of eCalc's own code; C-implemented dict operations are atomic (GIL)",
    "histories of at most 4 threads; at most 24 overlapping or 80 mostly sequential operations",
]
COUNTS = {"quick": 9000, "thorough": 400000}
QUICK_S = 70
PROBES = ("op.get", "op.put", "op.clear", "op.clear_all", "op.create", "op.all_stats", "evictions", "disabled_cache", "preempted")
SIM_TIME_UNIT = "scheduler steps"

CS = None


def setup():
    global CS
    sched.install_locks()
    import ecalc_neqsim_wrapper.cache_service as m

    CS = m


KEYS = ["k1", ["t", 1], "k3", 7, "k5"]
VALS = [0, ""]


def gen(r, i, tier):
    nthreads = r.choice([2, 2, 2, 3, 3, 4])
    maxops = r.choice([2, 3, 4, 6]) if nthreads < 4 else r.choice([2, 3, 4])
    kind = r.choice(["cache", "cache", "cache", "multi", "registry", "grow", "long"])
    if kind == "long":
        nthreads, maxops = r.choice([1, 1, 2]), r.choice([12, 25, 40])
    sizes = [r.choice([0, 1, 1, 2, 2, 3, 4]) for _ in range(2 if kind in ("multi", "grow") else 1)]
    nk = r.choice([1, 2, 3, 4])
    weights = {
        "get": r.choice([1, 3]), "put": r.choice([2, 4]), "clear": r.choice([0, 1]), "len": r.choice([0, 1]),
        "stats": r.choice([0, 1]), "clear_all": 0, "clear_cache": 0, "all_stats": 0, "create": 0, "get_cache": 0,
    }
    if kind == "multi":
        weights.update(clear_all=1, clear_cache=1, all_stats=1, create=1, get_cache=1)
    if kind == "registry":
        weights.update(create=2, get_cache=1, all_stats=1)
    if kind == "grow":
        weights.update(create_new=3, all_stats=2, clear_all=2)
    if kind == "long":
        weights["clear"] = 0.2
    names = list(weights)
    w = [weights[n] for n in names]
    ctr = 0
    ops = []
    for t in range(nthreads):
        lst = []
        for k in range(r.randint(1, maxops)):
            op = r.choices(names, w)[0]
            if kind == "registry" and k == 0:
                op = r.choice(["create", "get_cache", "create"])
            o = {"op": op}
            if op in ("get", "put"):
                o["key"] = r.randrange(nk)
            if op == "put":
                ctr += 1
                o["val"] = r.choice(VALS) if r.random() < 0.08 else f"v{ctr}"
            if op in ("get", "put", "clear", "len", "stats"):
                o["c"] = r.randrange(len(sizes))
            if op in ("clear_cache", "get_cache", "create"):
                o["c"] = r.randrange(len(sizes))
            if op == "create_new":
                o.update(name=f"new{r.randrange(3)}", size=r.choice([0, 1, 5]))
            if op == "create":
                o["size"] = sizes[o["c"]] if r.random() < 0.5 else r.choice([0, 1, 2, 5])
            lst.append(o)
        ops.append(lst)
    pre = []
    if kind != "registry":
        for _ in range(r.choice([0, 0, 2, 4])):
            ctr += 1
            pre.append({"op": r.choice(["put", "put", "get"]), "key": r.randrange(nk), "val": f"p{ctr}", "c": r.randrange(len(sizes))})
    nops = sum(len(x) for x in ops)
    opc = r.random() < 0.6
    return {"kind": kind, "sizes": sizes, "pre": pre, "ops": ops, "opcodes": opc,
            "schedule": sched.gen_schedule(r, est_steps=10 + 2 * len(pre) + nops * (16 if opc else 8), nthreads=nthreads)}


def _key(k):
    v = KEYS[k]
    return tuple(v) if isinstance(v, list) else v


# ------------------------------------------------------------------ sequential specification
def spec_apply(state, op, max_size):
    """state = (items tuple, hits, misses, evictions); returns (state, result)"""
    items, h, m, e = state
    k = op["op"]
    if k == "get":
        for idx, (kk, vv) in enumerate(items):
            if kk == op["key"]:
                return (items[:idx] + items[idx + 1 :] + ((kk, vv),), h + 1, m, e), vv
        return (items, h, m + 1, e), None
    if k == "put":
        if max_size == 0:
            return state, None
        items = tuple(x for x in items if x[0] != op["key"]) + ((op["key"], op["val"]),)
        while len(items) > max_size:
            items = items[1:]
            e += 1
        return (items, h, m, e), None
    if k == "clear":
        return ((), 0, 0, 0), None
    if k == "len":
        return state, len(items)
    if k == "stats":
        tot = h + m
        return state, [h, m, e, len(items), max_size, round(h / tot * 100, 1) if tot else 0.0]
    raise AssertionError(k)


def linearizable(hist, max_size, cap=400_000):
    """hist: list of dicts {inv, ret, op, key?, val?, res, optional?}.  Wing-Gong search with memoisation."""
    hist = sorted(hist, key=lambda o: o["inv"])
    n = len(hist)
    full = (1 << n) - 1
    seen = set()
    stack = [(0, ((), 0, 0, 0))]
    steps = 0
    while stack:
        mask, st = stack.pop()
        if mask == full:
            return True
        if (mask, st) in seen:
            continue
        seen.add((mask, st))
        steps += 1
        if steps > cap:
            return None
        minret = min(hist[j]["ret"] for j in range(n) if not mask >> j & 1)
        for j in range(n):
            if mask >> j & 1:
                continue
            o = hist[j]
            if o["inv"] > minret:
                break
            st2, res = spec_apply(st, o, max_size)
            if _same(o["op"], res, o["res"]):
                stack.append((mask | 1 << j, st2))
    return False


def _same(op, want, got):
    if op == "stats":
        return got is not None and all(abs(a - b) < 0.051 for a, b in zip(want, got)) and want[:5] == got[:5]
    if op in ("put", "clear"):
        return True
    return type(want) is type(got) and want == got


def _stats(d):
    return [d["hits"], d["misses"], d["evictions"], d["size"], d["max_size"], float(d["hit_rate_percent"])]


def run(case):
    CS.CacheService._caches.clear() if hasattr(CS.CacheService, "_caches") else None
    S = CS.CacheService
    names = [f"c{j}" for j in range(len(case["sizes"]))]
    created_pre = case["kind"] != "registry"
    caches = [S.create_cache(n, max_size=s) for n, s in zip(names, case["sizes"])] if created_pre else [None] * len(names)
    s = sched.Sched(case["schedule"], trace_files=(core.REPO + "/src/",), opcodes=case["opcodes"])
    hist = {n: [] for n in names}
    reg = []
    stats = {}
    errors = []

    def cnt(k, n=1):
        stats[k] = stats.get(k, 0) + n

    def do(o, tid, handles, clock):
        op = o["op"]
        cnt("op." + op)
        inv = clock()
        name = names[o["c"]] if "c" in o else None
        try:
            if op in ("get", "put", "clear", "len", "stats"):
                c = handles[o["c"]]
                if c is None:
                    return
                rec = {"inv": inv, "op": op, "t": tid}
                if op == "get":
                    rec["key"] = _key(o["key"])
                    rec["res"] = c.get(_key(o["key"]))
                elif op == "put":
                    rec.update(key=_key(o["key"]), val=o["val"])
                    rec["res"] = c.put(_key(o["key"]), o["val"])
                elif op == "clear":
                    rec["res"] = c.clear()
                elif op == "len":
                    rec["res"] = len(c)
                else:
                    rec["res"] = _stats(c.get_stats())
                rec["ret"] = clock()
                hist[name].append(rec)
            elif op == "create":
                c = S.create_cache(name, max_size=o["size"])
                reg.append({"op": "create", "n": name, "inv": inv, "ret": clock(), "id": id(c), "size": o["size"], "t": tid})
                handles[o["c"]] = c
                keep.append(c)
            elif op == "create_new":
                c = S.create_cache(o["name"], max_size=o["size"])
                reg.append({"op": "create", "n": o["name"], "inv": inv, "ret": clock(), "id": id(c), "size": o["size"], "t": tid})
                keep.append(c)
            elif op == "get_cache":
                c = S.get_cache(name)
                reg.append({"op": "get_cache", "n": name, "inv": inv, "ret": clock(), "id": None if c is None else id(c), "t": tid})
                if c is not None:
                    handles[o["c"]] = c
                    keep.append(c)
            elif op == "clear_all":
                S.clear_all()
                ret = clock()
                for n in names:
                    hist[n].append({"inv": inv, "ret": ret, "op": "clear", "res": None, "t": tid})
            elif op == "clear_cache":
                S.clear_cache(name)
                hist[name].append({"inv": inv, "ret": clock(), "op": "clear", "res": None, "t": tid})
            elif op == "all_stats":
                d = S.get_all_stats()
                ret = clock()
                for n in names:
                    if n in d:
                        hist[n].append({"inv": inv, "ret": ret, "op": "stats", "res": _stats(d[n]), "t": tid})
                    elif created_pre:
                        errors.append(f"registered cache {n} missing from statistics of all caches")
        except sched.Abort:
            raise
        except Exception as e:  # an operation on a cache must not raise
            errors.append(f"{op} raised {type(e).__name__}: {e}")

    keep = []
    for o in case["pre"]:
        do(o, -1, list(caches), s.now)

    def body(tid, lst):
        def f():
            handles = list(caches)
            for o in lst:
                do(o, tid, handles, s.now)

        return f

    for tid, lst in enumerate(case["ops"]):
        s.spawn(body(tid, lst))
    s.run()
    explicit = dict(case, schedule={"mode": "list", "switches": s.switches})
    viol = None
    if s.failure:
        viol = {"class": "blocked" if "deadlock" in s.failure else "steplimit", "detail": s.failure}
    for t in s.threads:
        if t.exc is not None and viol is None:
            viol = {"class": "exception", "detail": f"thread died: {type(t.exc).__name__}: {t.exc}"}
    if errors and viol is None:
        viol = {"class": "exception", "detail": errors[0]}
    if viol is None:
        # final sequential reads are part of the history
        for j, n in enumerate(names):
            c = caches[j] or S.get_cache(n)
            if c is None:
                continue
            hs = [None] * len(names)
            hs[j] = c
            try:
                ln, st = len(c), _stats(c.get_stats())
                if ln > c_max(st) or st[3] != ln:
                    viol = {"class": "bound", "detail": f"cache holds {ln} entries, statistics {st}"}
            except Exception as e:
                viol = {"class": "exception", "detail": f"{type(e).__name__}: {e}"}
            for o in [{"op": "len", "c": j}, {"op": "stats", "c": j}] + [{"op": "get", "c": j, "key": k} for k in range(len(KEYS))] + [
                {"op": "stats", "c": j}
            ]:
                do(o, -2, hs, s.now)
    if errors and viol is None:
        viol = {"class": "exception", "detail": errors[0]}
    # registry: one name, one cache, visible from its creation on
    ids = {}
    for o in reg:
        if o["id"] is not None:
            ids.setdefault(o["n"], set()).add(o["id"])
    for j, n in enumerate(names):
        if created_pre:
            ids.setdefault(n, set()).add(id(caches[j]))
    for n, v in sorted(ids.items()):
        if len(v) > 1 and viol is None:
            viol = {"class": "identity", "detail": f"{len(v)} different caches were handed out under one name"}
    for o in reg:
        if o["op"] == "get_cache" and o["id"] is None and viol is None:
            if created_pre or any(x["op"] == "create" and x["n"] == o["n"] and x["ret"] < o["inv"] for x in reg):
                viol = {"class": "lost_registration", "detail": "a created cache could not be found under its name"}
    if viol is None:
        for j, n in enumerate(names):
            if created_pre:
                cands = [case["sizes"][j]]
            else:
                creates = [x for x in reg if x["op"] == "create" and x["n"] == n]
                if not creates:
                    continue
                firstret = min(x["ret"] for x in creates)
                cands = sorted({x["size"] for x in creates if x["inv"] < firstret})
            ok = False
            for m in cands:
                lin = linearizable(hist[n], m)
                if lin is None:
                    cnt("undecided_histories")
                if lin is not False:
                    ok = True
                    break
            if any(m == 0 for m in cands):
                cnt("disabled_cache")
            if not ok:
                h = [{k: v for k, v in o.items()} for o in sorted(hist[n], key=lambda o: o["inv"])]
                viol = {"class": "linearizability", "detail": f"no sequential LRU (limit {cands}) explains: {h}"}
                break
    for h in hist.values():
        for o in h:
            if o["op"] == "stats" and o["t"] == -2:
                cnt("evictions", o["res"][2])
    if s.preemptions:
        cnt("preempted")
    cnt("context_switches", len(s.switches))
    shape = [[o["op"] for o in l] for l in case["ops"]]
    return {"violation": viol, "stats": stats, "sig": core.digest([shape, s.switches]), "nontrivial": s.preemptions > 0,
            "digest": core.digest([{n: h for n, h in hist.items()}, [[o["op"], o["n"], o["inv"], o["ret"]] for o in reg], s.switches, viol]),
            "explicit_case": explicit, "sim_time": s.step,
            "trace": [f"t{o['t']} [{o['inv']}..{o['ret']}] {n}.{o['op']} {o.get('key','')} {o.get('val','')} -> {o['res']}"
                      for n in names for o in sorted(hist[n], key=lambda o: o["inv"])] + [f"switches {s.switches}"]}


def c_max(st):
    return st[4]


def shrink(case):
    ops = case["ops"]
    if len(ops) > 1:
        for t in range(len(ops)):
            if len(ops) > 2 or True:
                c = dict(case, ops=[x if k != t else [] for k, x in enumerate(ops)])
                if ops[t]:
                    yield c
    for sch in sched.shrink_schedule(case["schedule"]):
        yield dict(case, schedule=sch)
    for cand in core.shrink_list(case["pre"]):
        yield dict(case, pre=cand)
    for t in range(len(ops)):
        for k in range(len(ops[t])):
            yield dict(case, ops=[x if j != t else x[:k] + x[k + 1 :] for j, x in enumerate(ops)])
    if case["opcodes"]:
        yield dict(case, opcodes=False)
