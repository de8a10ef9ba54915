"""C14: corrupted or truncated uploads are refused or read exactly, never misread."""

from __future__ import annotations

import errno
import io
import os
import random
import tempfile
import zipfile
from pathlib import Path

from dst import core, clirun

LEVEL = "exploration"
RULE = (
    "one evaluation = one generated archive delivered through a simulated stream with one plan of damage (truncation, bit flips, overwritten, zeroed, moved or repeated blocks, read errors, full temporary disk) "
    "and several variations of it; distinct = distinct (damage kind, part of the archive hit, outcome); nontrivial = the archive was damaged or a fault fired"
)
REAL = ["libecalc.infrastructure.file_io (archive unpacking, file type checks, main-file detection)", "zipfile of the standard library"]
STUB = ["upload stream (pieces, errors, early end)", "temporary files (full disk, write errors)", "current directory of the service"]
ASSUMPTIONS = ["a CRC-32 match is taken to mean equal contents", "archives do not contain archives", "the archive's directory carries no checksum: after damage to the directory itself only the contents of what is returned are judged, and after zeroed directory blocks (a zero checksum is that of an empty file) only the kind of error"]
COUNTS = {"quick": 12000, "thorough": 2000000}
QUICK_S = 90
PROBES = ("intact", "damage.truncate", "damage.flip", "damage.overwrite", "damage.zero", "damage.move", "damage.repeat", "damage.tail", "stream.pieces", "stream.error", "stream.early_end", "tmp.full",
          "cwd.folder", "dup", "hit.local_header", "hit.data", "hit.central", "hit.eocd", "out.same", "out.refused", "encrypted", "main.found")
SIM_TIME_UNIT = "bytes delivered"
REPEAT_EVERY = 200

VARIATIONS = 12


def setup():
    import libecalc.infrastructure.file_io  # noqa: F401


NAMES = ["model.yaml", "m/model.yml", "sim/base.csv", "einput/GENSET.CSV", "a/b/c/deep.csv", "data.csv", "fuel.yaml", "notes.txt", "readme", "img.png", "__MACOSX/x.csv", ".DS_Store", "m/.DS_Store", "sim/", "b.csv"]


def gen(r, i, tier):
    names = r.sample(NAMES, r.randint(1, 6))
    mem = [{"name": n, "seed": r.randrange(1 << 20), "size": r.choice([0, 1, 40, 300, 3000, 20000]), "method": r.choice([8, 8, 8, 0, 12, 14]), "text": r.random() < 0.7} for n in names]
    dup = r.random() < 0.06
    if dup:
        mem.append(dict(r.choice(mem), seed=5))
    plans = []
    for _ in range(VARIATIONS):
        x = r.random()
        if x < 0.08:
            p = {"kind": "none"}
        elif x < 0.25:
            p = {"kind": "truncate", "pos": r.random()}
        elif x < 0.62:
            p = {"kind": "flip", "part": r.choice(["local_header", "data", "central", "eocd", "any"]), "bits": [r.random() for _ in range(r.choice([1, 1, 1, 2, 4]))]}
        elif x < 0.72:
            p = {"kind": r.choice(["overwrite", "zero"]), "pos": r.random(), "len": r.choice([1, 2, 4, 16, 64, 512]), "seed": r.randrange(1 << 20)}
        elif x < 0.78:
            p = {"kind": r.choice(["move", "repeat"]), "pos": r.random(), "to": r.random(), "len": r.choice([4, 30, 46, 200])}
        elif x < 0.82:
            p = {"kind": "tail", "len": r.choice([1, 20, 70000]), "seed": r.randrange(1 << 20)}
        elif x < 0.88:
            p = {"kind": "none", "stream": {"kind": "error", "pos": r.random(), "errno": r.choice(["EIO", "EPIPE", "ESTALE"])}}
        elif x < 0.91:
            p = {"kind": "none", "stream": {"kind": "early_end", "pos": r.random()}}
        elif x < 0.96:
            p = {"kind": "none", "tmp": {"after": r.random(), "errno": r.choice(["ENOSPC", "EIO", "EDQUOT"])}}
        else:
            p = {"kind": "encrypt_bit", "m": r.random()}
        if "stream" not in p and r.random() < 0.3:
            p["stream"] = {"kind": "pieces", "seed": r.randrange(1 << 20)}
        if r.random() < 0.1:
            p["cwd"] = r.choice([n["name"] for n in mem])
        plans.append(p)
    return {"members": mem, "plans": plans, "entry": r.choice(["upload", "upload", "unpack"]), "comment": r.random() < 0.1}


def content(m):
    r = random.Random(f"member:{m['seed']}")
    if m["text"]:
        s = "\n".join(f"{r.randrange(100)},{r.random():.4f}" for _ in range(m["size"] // 9 + 1))[: m["size"]]
        if m["name"] in ("model.yaml", "fuel.yaml") and m["size"] > 20 and m["seed"] % 3:
            where = m["seed"] % 5
            s = s + "\nTIME_SERIES:\n" if where == 1 else s[: m["size"] // 2] + "\nTIME_SERIES:\n" + s[m["size"] // 2 :] if where == 2 else "TIME_SERIES:\n" + s
        return s.encode()
    return r.randbytes(m["size"])


def build(case):
    buf = io.BytesIO()
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with zipfile.ZipFile(buf, "w") as z:
            for m in case["members"]:
                zi = zipfile.ZipInfo(m["name"], (2020, 1, 1, 0, 0, 0))
                zi.compress_type = m["method"]
                z.writestr(zi, b"" if m["name"].endswith("/") else content(m))
            if case["comment"]:
                z.comment = b"made by a user"
    return buf.getvalue()


def parts(data):
    """Byte ranges of the archive by role."""
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        out = {"local_header": [], "data": [], "central": [], "eocd": []}
        for zi in z.infolist():
            h = zi.header_offset
            n = 30 + len(zi.filename.encode()) + 0
            out["local_header"].append((h, h + n))
            out["data"].append((h + n, h + n + zi.compress_size))
        e = data.rfind(b"PK\x05\x06")
        out["central"].append((z.start_dir, e))
        out["eocd"].append((e, len(data)))
    return out


def damage(data, p, pts):
    k, n = p["kind"], len(data)
    b = bytearray(data)
    hit = set()

    def at(x):
        for role, rs in pts.items():
            if any(lo <= x < hi for lo, hi in rs):
                hit.add(role)

    if k == "truncate":
        c = int(p["pos"] * n)
        at(c)
        return bytes(b[:c]), hit
    if k == "flip":
        idx = [x for lo, hi in pts[p["part"]] for x in range(lo, hi)] if p["part"] != "any" else None
        total = (len(idx) if idx is not None else n) * 8
        for f in p["bits"] if total else []:
            q = int(f * total)
            x = (idx[q // 8] if idx is not None else q // 8)
            b[x] ^= 1 << (q % 8)
            at(x)
    elif k in ("overwrite", "zero"):
        c = int(p["pos"] * n)
        junk = random.Random(p["seed"]).randbytes(p["len"]) if k == "overwrite" else bytes(p["len"])
        junk = junk[: n - c]
        b[c : c + len(junk)] = junk
        for x in range(c, c + len(junk)):
            at(x)
    elif k in ("move", "repeat"):
        c, t = int(p["pos"] * n), int(p["to"] * n)
        blk = bytes(b[c : c + p["len"]])
        if k == "move":
            del b[c : c + p["len"]]
        b[min(t, len(b)) : min(t, len(b))] = blk
        at(c)
    elif k == "tail":
        b += random.Random(p["seed"]).randbytes(p["len"])
    elif k == "encrypt_bit":
        rs = pts["central"][0]
        x = bytes(b).find(b"PK\x01\x02", rs[0])
        cand = []
        while x >= 0:
            cand.append(x)
            x = bytes(b).find(b"PK\x01\x02", x + 4)
        x = cand[min(len(cand) - 1, int(p["m"] * len(cand)))]
        b[x + 8] |= 1
    return bytes(b), hit


class Stream(io.RawIOBase):
    """The upload as it arrives."""

    def __init__(self, data, plan):
        self.d, self.p, self.plan, self.fired = data, 0, plan or {}, False
        self.r = random.Random(f"pieces:{self.plan.get('seed')}")

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.p = off if whence == 0 else self.p + off if whence == 1 else len(self.d) + off
        return self.p

    def tell(self):
        return self.p

    def readinto(self, b):
        k = self.plan.get("kind")
        n = min(len(b), len(self.d) - self.p)
        if k == "pieces" and n:
            n = min(n, self.r.choice([1, 7, 100, 4096, 1 << 20]))
        if k in ("error", "early_end"):
            stop = int(self.plan["pos"] * len(self.d))
            if self.p >= stop:
                self.fired = True
                if k == "error":
                    raise OSError(clirun.ERRNOS[self.plan["errno"]], os.strerror(clirun.ERRNOS[self.plan["errno"]]))
                return 0
            n = min(n, stop - self.p)
        b[:n] = self.d[self.p : self.p + n]
        self.p += n
        return n


class TmpFile(io.BytesIO):
    """A temporary file on a disk with little space: buffered, so the error shows at write, flush, seek or close."""

    left = None
    err = 0

    def write(self, b):
        if TmpFile.left is not None:
            if len(b) > TmpFile.left:
                super().write(bytes(b)[: TmpFile.left])
                TmpFile.left = 0
                TmpFile.fired = True
                raise OSError(TmpFile.err, os.strerror(TmpFile.err))
            TmpFile.left -= len(b)
        return super().write(b)

    def __enter__(self):
        return self


MAIN = (b"INSTALLATION", b"TIME_SERIES", b"FACILITY_INPUTS", b"FUEL_TYPES")


def utf8(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False


class Up:
    def __init__(self, filename, file):
        self.filename, self.file = filename, file


def expected(members):
    valid, other, dup = {}, 0, False
    for m in members:
        n = m["name"]
        if n.endswith("/") or ".DS_Store" in n or "__MACOSX" in n:
            continue
        if n.lower().endswith((".csv", ".yaml", ".yml")):
            dup |= n in valid
            valid[n] = content(m)
        else:
            other += 1
    return valid, other, dup


def run(case):
    import libecalc.infrastructure.file_io as fio
    from libecalc.common.errors.exceptions import EcalcError

    fake = lambda *a, **k: TmpFile()  # noqa: E731
    tempfile.TemporaryFile = fake
    for n in ("TemporaryFile",):
        if hasattr(fio, n):
            setattr(fio, n, fake)
    stats, log, viol, sigs, sim = {}, [], None, [], 0

    def cnt(k, n=1):
        stats[k] = stats.get(k, 0) + n

    data = build(case)
    pts = parts(data)
    valid, other, dup = expected(case["members"])
    if dup:
        cnt("dup")
    home = os.getcwd()
    for j, p in enumerate(case["plans"]):
        bad, hit = damage(data, p, pts)
        s = Stream(bad, p.get("stream"))
        TmpFile.left, TmpFile.fired = None, False
        if p.get("tmp"):
            TmpFile.left, TmpFile.err = int(p["tmp"]["after"] * sum(len(v) for v in valid.values())), clirun.ERRNOS[p["tmp"]["errno"]]
        d = tempfile.mkdtemp(dir=core.scratch_root())
        os.chdir(d)
        try:
            if p.get("cwd"):
                os.makedirs(os.path.join(d, p["cwd"].rstrip("/")), exist_ok=True)
                cnt("cwd.folder")
            try:
                if case["entry"] == "upload":
                    v, inv = fio.EcalcFiles.validate_filetypes([Up("upload.zip", s)])
                else:
                    v, inv = fio.unpack_zip(s)
                got = [(str(x.original_filename), x.file.read()) for x in v]
                for x in v:
                    x.file.seek(0)
                main = None
                try:
                    main = str(fio.EcalcFiles.get_main_file(v).original_filename)
                except EcalcError:
                    pass
                again = [(str(x.original_filename), x.file.read()) for x in v]
                out = ["ok", got, len(inv), main, again == got]
            except EcalcError as e:
                out = ["refused", type(e).__name__]
            except Exception as e:
                out = ["exception", type(e).__name__, str(e)[:120]]
        finally:
            os.chdir(home)
            clirun.clean(d)
        sim += s.p
        sk = (p.get("stream") or {}).get("kind")
        damaged = bad != data or s.fired or TmpFile.fired
        cnt("intact" if not damaged else "damage." + p["kind"] if p["kind"] != "none" else "fault")
        if p["kind"] == "encrypt_bit":
            cnt("encrypted")
        for h in hit:
            cnt("hit." + h)
        if sk and (sk == "pieces" or s.fired):
            cnt("stream." + sk)
            cnt("fault.stream_" + sk)
        if TmpFile.fired:
            cnt("tmp.full")
            cnt("fault.tmp_full")
        if bad != data:
            cnt("fault." + p["kind"])
        cnt("out." + {"ok": "same", "refused": "refused", "exception": "exception"}[out[0]])
        log.append([j, p["kind"], sk, bool(p.get("tmp")), out[0], core.digest([out[0], [(n, core.digest(b.decode("latin1"))) for n, b in out[1]], out[2]] if out[0] == "ok" else out)])
        sigs.append(core.digest([p["kind"], sk, bool(p.get("tmp")), sorted(hit), out[0], dup]))
        where = f"damage {p['kind']}" + (f" in {'/'.join(sorted(hit))}" if hit else "") + (f", stream {sk}" if sk else "") + (", temporary disk full" if p.get("tmp") else "") + (f", folder {p['cwd']} in the working directory" if p.get("cwd") else "")
        io_fault = (sk == "error" and s.fired) or TmpFile.fired
        if out[0] == "exception" and not (io_fault and issubclass(getattr(__builtins__, out[1], Exception) if not isinstance(__builtins__, dict) else __builtins__.get(out[1], Exception), OSError)):
            viol = {"class": "exception", "detail": f"{where}: {out[1]}: {out[2]} instead of an eCalc error"}
        elif out[0] == "refused" and not damaged and not dup:
            viol = {"class": "refused_intact", "detail": f"{where}: an intact archive was refused"}
        elif out[0] == "ok":
            wrong = [n for n, b in out[1] if valid.get(n) != b] if not dup else []
            if dup and not damaged:
                viol = {"class": "duplicates", "detail": f"{where}: an archive with duplicate paths was accepted"}
            elif wrong and not dup and not (p["kind"] == "zero" and hit & {"central", "eocd"}):
                viol = {"class": "misread", "detail": f"{where}: {wrong[0]} came out with other contents than were packed"}
            elif len(out[1]) != len(set(n for n, _ in out[1])):
                viol = {"class": "duplicates", "detail": f"{where}: duplicate paths returned"}
            elif not dup and (not damaged or (hit <= {"local_header", "data"} and p["kind"] in ("flip", "overwrite", "zero"))) and len(out[1]) < len(valid):
                viol = {"class": "dropped", "detail": f"{where}: {len(valid) - len(out[1])} packed file(s) are neither returned nor reported"}
            elif not damaged and not dup and (dict(out[1]) != valid or out[2] != other):
                viol = {"class": "misread", "detail": f"{where}: intact archive not returned exactly"}
            elif not out[4]:
                viol = {"class": "misread", "detail": f"{where}: looking for the main file changed what the returned files read as"}
            else:
                mains = [n for n, b in out[1] if n.lower().endswith((".yaml", ".yml")) and any(k in b for k in MAIN)]
                if out[3] is not None:
                    cnt("main.found")
                if out[3] is not None and mains != [out[3]]:
                    viol = {"class": "main", "detail": f"{where}: {out[3]} taken for the main file of {mains}"}
                elif out[3] is None and len(mains) == 1 and all(utf8(b) for n, b in out[1]):
                    viol = {"class": "main", "detail": f"{where}: the main file {mains[0]} was not found"}
        if viol:
            break
    res = {"violation": viol, "stats": stats, "sigs": sigs, "sig": core.digest(sigs), "nontrivial": True, "digest": core.digest(log + [viol]), "sim_time": sim, "trace": [str(x)[:300] for x in log]}
    if viol:
        res["explicit_case"] = dict(case, plans=[case["plans"][len(log) - 1]])
    return res


def shrink(case):
    for p in core.shrink_list(case["plans"], 1):
        yield dict(case, plans=p)
    for m in core.shrink_list(case["members"], 1):
        yield dict(case, members=m)
    p = case["plans"][0]
    for k in ("cwd", "tmp", "stream"):
        if len(case["plans"]) == 1 and k in p:
            yield dict(case, plans=[{a: b for a, b in p.items() if a != k}])
    if len(case["plans"]) == 1 and p["kind"] == "flip" and len(p["bits"]) > 1:
        for b in core.shrink_list(p["bits"], 1):
            yield dict(case, plans=[dict(p, bits=b)])
    for k, m in enumerate(case["members"]):
        if m["size"] > 40:
            yield dict(case, members=case["members"][:k] + [dict(m, size=40)] + case["members"][k + 1 :])


def describe(case):
    return case
