"""Whole models loaded, validated and evaluated through the library (no command line)."""

from __future__ import annotations

import os
from pathlib import Path

from dst import models, trains


def load(folder, resource_service=None):
    from ecalc_cli.infrastructure.file_resource_service import FileResourceService
    from libecalc.presentation.yaml.file_configuration_service import FileConfigurationService
    from libecalc.presentation.yaml.model import YamlModel

    cfg = FileConfigurationService(configuration_path=Path(folder) / "model.yaml").get_configuration()
    rs = (resource_service or FileResourceService)(working_directory=Path(folder), configuration=cfg)
    return YamlModel(configuration=cfg, resource_service=rs)


def result(model):
    """Everything the asset result holds, as plain values."""
    from libecalc.presentation.json_result.mapper import get_asset_result

    return trains.plain(get_asset_result(model).model_dump())


def write(files, folder):
    os.makedirs(folder, exist_ok=True)
    models.write(files, folder)


def simulations(model):
    """Process simulations, events and pump simulations of a model, and what the pumps do, free of generated ids."""
    from libecalc.ecalc_model.ecalc_event import EcalcEventService

    seen = {}
    events = model.get_events()
    pipes, sims = model.get_process_simulations(EcalcEventService(events))
    pumps = model.get_pump_process_simulations()
    out = {"events": _walk(events, seen), "pipelines": [_walk(p, seen) for p in pipes], "simulations": [_walk(s, seen) for s in sims], "pumps": []}
    for sim, inputs, periods in pumps:
        out["pumps"].append({"simulation": _walk(sim, seen), "inputs": _walk(inputs, seen), "periods": _walk(periods, seen), "results": _walk(list(sim.evaluate(inputs)), seen)})
    return out


SKIP = ("_fluid_service", "fluid_service", "_expression_evaluator", "expression_evaluator")


def _walk(x, seen, depth=0):
    """Plain structure of an object graph: public state, with generated ids numbered in order of appearance."""
    import enum
    import uuid
    from collections.abc import Mapping

    import numpy as np

    if depth > 40:
        return "..."
    if isinstance(x, uuid.UUID):
        return f"id{seen.setdefault(x, len(seen))}"
    if isinstance(x, float) and x != x:
        return "nan"
    if x is None or isinstance(x, bool | int | float | str):
        return x.value if isinstance(x, enum.Enum) else x
    if isinstance(x, enum.Enum):
        return x.name
    if isinstance(x, np.ndarray):
        return [_walk(v, seen, depth + 1) for v in x.tolist()]
    if isinstance(x, np.generic):
        return _walk(x.item(), seen, depth)
    if isinstance(x, Mapping):
        return {str(_walk(k, seen, depth + 1)): _walk(v, seen, depth + 1) for k, v in x.items()}
    if isinstance(x, list | tuple):
        return [_walk(v, seen, depth + 1) for v in x]
    for series in ("get_stream_day_values", "get_masked_values", "get_values"):  # evaluated expressions
        f = getattr(x, series, None)
        if f is not None:
            return {series: _walk(list(f()), seen, depth + 1)}
    mod = type(x).__module__ or ""
    if not mod.startswith("libecalc"):
        return str(x)[:200] if mod in ("datetime", "builtins") else type(x).__name__
    if id(x) in seen.setdefault("objects", {}):
        return f"object{seen['objects'][id(x)][0]}"
    seen["objects"][id(x)] = (len(seen["objects"]), x)
    out = {"_": type(x).__name__}
    for get in sorted(n for n in dir(type(x)) if (n.startswith("get_") or n in ("units", "name")) and not n.startswith("get_event_by")):
        f = getattr(x, get)
        if not callable(f):
            out[get] = _walk(f, seen, depth + 1)
            continue
        import inspect

        if any(p.default is p.empty and p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY) for p in inspect.signature(f).parameters.values()):
            continue
        try:
            out[get] = _walk(f(), seen, depth + 1)
        except Exception as e:
            out[get] = "raises " + type(e).__name__
    for k in ("compressor_chart", "chart_data", "pressure_change"):
        if hasattr(x, k):
            out[k] = _walk(getattr(x, k), seen, depth + 1)
    for k, v in sorted(vars(x).items()) if hasattr(x, "__dict__") else []:
        if not k.startswith("_") and k not in SKIP:
            out[k] = _walk(v, seen, depth + 1)
    return out
