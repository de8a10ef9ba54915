"""Compressor trains, turbines, sampled compressors and pumps as the mappers build them, evaluated directly (no command line)."""

from __future__ import annotations

import dataclasses
import enum
import math
import os

from dst import clirun, jvm, models

KINDS = ["simpl_known", "simpl_unknown", "simpl_turbine", "vs_one", "vs_train", "ss_train", "vs_turbine", "multi", "sampled", "sampled3", "pump_ss", "pump_vs"]
THERMO = KINDS[:8]
LIGHT = ["simpl_known", "simpl_unknown", "simpl_turbine", "vs_one", "sampled", "sampled3", "pump_ss", "pump_vs"]
COST = {"simpl_known": 1, "simpl_unknown": 1, "simpl_turbine": 1, "vs_one": 3, "vs_train": 8, "ss_train": 4, "vs_turbine": 8, "multi": 10}


def spec(seed):
    return {"kinds": ["simpl_known", "simpl_unknown", "turbine", "vs_one", "vs_train", "ss_train", "vs_turbine", "multi", "sampled", "sampled3", "pump_ss", "pump_vs"],
            "rows": [[3000, 0, 1200000, 9000, 1, 0, 120, 1]] * 2, "step": "Y", "seed": seed, "include": [], "installs": 1, "crlf": False, "start": True, "variants": True}


def service(flash=None, ref=None):
    """A started (simulated) backend and a fluid service with the given cache sizes."""
    import ecalc_neqsim_wrapper.fluid_service as fsvc
    from ecalc_neqsim_wrapper import CacheConfig, NeqSimFluidService, NeqsimService

    if flash is not None:
        NeqSimFluidService.configure(CacheConfig(reference_fluid_max_size=ref, flash_max_size=flash))
    ns = NeqsimService.factory(use_jpype=False).initialize()
    return ns, fsvc


class Bench:
    """The model file and its resources, from which fresh machines are made."""

    def __init__(self, seed):
        from pathlib import Path

        from ecalc_cli.infrastructure.file_resource_service import FileResourceService
        from libecalc.presentation.yaml.file_configuration_service import FileConfigurationService
        from libecalc.presentation.yaml.mappers import consumer_function_mapper as cfm
        from libecalc.presentation.yaml.mappers.simplified_train_mapping_utils import CompressorOperationalTimeSeries
        from libecalc.presentation.yaml.yaml_reference_service import YamlReferenceService

        root = clirun.scratch()
        try:
            models.write(models.build(spec(seed)), root)
            cfg = FileConfigurationService(configuration_path=Path(root) / "model.yaml").get_configuration()
            res, err = FileResourceService(working_directory=Path(root), configuration=cfg).get_facility_resources()
            assert not err, err
        finally:
            clirun.clean(root)
        refs = YamlReferenceService(configuration=cfg)
        self._c = cfm.CompressorModelMapper(resources=res, reference_service=refs, configuration=cfg)
        self._p = cfm.PumpModelMapper(resources=res, reference_service=refs, configuration=cfg)
        self._ots = CompressorOperationalTimeSeries

    def machine(self, kind, pool):
        """A fresh machine of the given kind; pool = operating points it is designed for."""
        import numpy as np

        if kind.startswith("pump"):
            return Machine(kind, self._p.create_pump_model(kind), None)
        od = None
        if kind.startswith("simpl"):
            od = self._ots(rates=np.asarray([p["rate"] for p in pool], float), suction_pressures=np.asarray([p["ps"] for p in pool], float),
                           discharge_pressures=np.asarray([p["pd"] for p in pool], float))
        m, fluid = self._c.create_compressor_model(kind, operational_data=od)
        return Machine(kind, m, fluid)


class Machine:
    def __init__(self, kind, model, fluid):
        self.kind, self.model, self.fluid = kind, model, fluid

    def evaluate(self, pts):
        import numpy as np

        a = lambda k: np.asarray([p[k] for p in pts], float)  # noqa: E731
        if self.kind.startswith("pump"):
            self.model.set_evaluation_input(stream_day_rate=a("rate"), suction_pressure=a("ps"), discharge_pressure=a("pd"), fluid_density=a("rho"))
        elif self.kind == "multi":
            rate = np.asarray([[p["rate"] for p in pts], [p["rate2"] for p in pts], [p["rate3"] for p in pts]], float)
            self.model.set_evaluation_input(rate=rate, fluid_model=self.fluid, suction_pressure=a("ps"), discharge_pressure=a("pd"), intermediate_pressure=a("pi"))
        else:
            self.model.set_evaluation_input(rate=a("rate"), fluid_model=self.fluid, suction_pressure=a("ps"), discharge_pressure=a("pd"))
        return plain(self.model.evaluate())

    def max_rate(self, pts):
        import numpy as np

        a = lambda k: np.asarray([p[k] for p in pts], float)  # noqa: E731
        if self.kind.startswith("pump"):
            return plain(self.model.get_max_standard_rates(suction_pressures=a("ps"), discharge_pressures=a("pd"), fluid_densities=a("rho")))
        if self.kind.startswith("sampled"):
            return plain(self.model.get_max_standard_rate(suction_pressures=a("ps"), discharge_pressures=a("pd")))
        return plain(self.model.get_max_standard_rate(suction_pressures=a("ps"), discharge_pressures=a("pd"), fluid_model=self.fluid))


def gen_point(r, kind):
    if kind.startswith("pump"):
        return {"rate": r.choice([0, 3000, 9000, 20000, 31000, 46000, 70000]), "ps": r.choice([1, 3]), "pd": r.choice([3, 60, 120, 200, 290]), "rho": r.choice([900.0, 1000.0, 1026.0])}
    if kind == "multi":
        a, c = r.choice([0, 400000, 800000, 1500000]), r.choice([0, 250000, 500000])
        return {"rate": a, "rate2": c, "rate3": r.choice([x for x in (0, 100000, 200000) if x <= a + c]), "ps": r.choice([8.0, 10.0, 15.0]),
                "pi": r.choice([30.0, 40.0, 60.0]), "pd": r.choice([90.0, 120.0, 250.0])}
    if kind == "sampled":
        return {"rate": r.choice([0, 500000, 1500000, 3333333, 9000000]), "ps": 200, "pd": 400}
    if kind == "sampled3":
        return {"rate": r.choice([0, 1000000, 1500000, 5000000, 7500000, 9000000]), "ps": r.choice([50, 51, 52.5]), "pd": r.choice([150, 200, 250, 380])}
    pds = [60.0, 75.0, 95.0, 110.0, 120.0, 180.0] if kind in ("vs_one", "ss_train") else [95.0, 120.0, 150.0, 180.0, 200.0, 250.0, 300.0, 400.0]
    return {"rate": r.choice([0, 1e-3, 400000, 1200000, 2500000, 4000000, 5500000, 5500000, 7000000, 9000000, 15000000]) * r.choice([1, 1, 1.013]),
            "ps": r.choice([30.0, 40.0, 50.0, 60.0, 80.0]), "pd": r.choice(pds) * r.choice([1, 1, 1.001])}


def plain(x, depth=0):
    """A JSON value holding everything observable in a result object."""
    import numpy as np

    if depth > 14:
        return "..."
    if x is None or isinstance(x, bool | str):
        return str(x.value) if isinstance(x, enum.Enum) else x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, int | np.integer):
        return int(x)
    if isinstance(x, float | np.floating):
        x = float(x)
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, enum.Enum):
        return str(x.value)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return plain(x.item(), depth)
    if isinstance(x, np.ndarray):
        return [plain(v, depth + 1) for v in x.tolist()]
    if isinstance(x, dict):
        return {str(plain(k, depth + 1)): plain(v, depth + 1) for k, v in x.items()}
    if isinstance(x, list | tuple):
        return [plain(v, depth + 1) for v in x]
    if isinstance(x, set | frozenset):
        return sorted(str(plain(v, depth + 1)) for v in x)
    if dataclasses.is_dataclass(x):
        return {f.name: plain(getattr(x, f.name), depth + 1) for f in dataclasses.fields(x) if not f.name.startswith("_")}
    if hasattr(x, "model_dump"):
        return plain(x.model_dump(), depth + 1)
    if hasattr(x, "__dict__"):
        return _public(x, depth)
    return str(x)


def _public(x, depth):
    """Public attributes and properties: what a caller can see, not how it is kept."""
    out = {k: plain(v, depth + 1) for k, v in vars(x).items() if not k.startswith("_") and "service" not in k}
    for k in dir(type(x)):
        if not k.startswith("_") and k not in out and "service" not in k and isinstance(getattr(type(x), k, None), property):
            try:
                out[k] = plain(getattr(x, k), depth + 1)
            except Exception as e:
                out[k] = "raises " + type(e).__name__
    if callable(getattr(x, "get_energy_result", None)):
        out["energy_result"] = plain(x.get_energy_result(), depth + 1)
    return dict(sorted(out.items()))


def same(a, b, rtol=0.0):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, int | float) and isinstance(b, int | float):
        return a == b or (rtol > 0 and abs(a - b) <= rtol * max(abs(a), abs(b), 1e-9))
    return a == b


def compare(batch, alone, n, i, rtol=0.0, path="", skip=()):
    """Where element i of a result for n points differs from the result of that point alone; None if nowhere."""
    if isinstance(batch, dict) and isinstance(alone, dict):
        for k in sorted(set(batch) | set(alone)):
            if any(x in k for x in skip):
                continue
            if k not in batch or k not in alone:
                return f"{path}.{k} only on one side"
            d = compare(batch[k], alone[k], n, i, rtol, f"{path}.{k}", skip)
            if d:
                return d
        return None
    if isinstance(batch, list) and isinstance(alone, list):
        if len(alone) == 1 and len(batch) == n:
            return compare(batch[i], alone[0], n, i, rtol, path, skip)
        if len(alone) != len(batch):
            return f"{path}: {len(batch)} entries / {len(alone)}"
        for k, (x, y) in enumerate(zip(batch, alone)):
            d = compare(x, y, n, i, rtol, f"{path}[{k}]", skip)
            if d:
                return d
        return None
    return None if same(batch, alone, rtol) else f"{path}: {batch!r} / {alone!r}"


def equal(a, b, rtol=0.0, path=""):
    """Where two plain values differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return f"{path}.{k} only on one side"
            d = equal(a[k], b[k], rtol, f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} entries / {len(b)}"
        for k, (x, y) in enumerate(zip(a, b)):
            d = equal(x, y, rtol, f"{path}[{k}]")
            if d:
                return d
        return None
    return None if same(a, b, rtol) else f"{path}: {a!r} / {b!r}"
