"""Process systems (compressors, chokes, recirculation loops, mixers, splitters) and the solvers over them, built as the production assembly builds them."""

from __future__ import annotations

import math

from dst import trains

PC = ["DOWNSTREAM_CHOKE", "UPSTREAM_CHOKE", "COMMON_ASV", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE"]
KINDS = ["single", "multi_pressure", "multi_shaft", "equal_ratio", "excess", "distribution"]
GASES = {"light": dict(nitrogen=0.6, CO2=1.1, methane=90.0, ethane=6.0, propane=2.3), "rich": dict(water=0.2, CO2=2.0, methane=76.0, ethane=10.0, propane=8.0, n_butane=3.0, n_pentane=0.8)}


def gen_stage(r, mx):
    shape = r.choice(["affine", "affine", "flat", "steep"])
    return {"shape": shape, "min": mx * r.choice([0.1, 0.3, 0.5]), "max": mx, "head": r.choice([60000.0, 90000.0, 130000.0]), "eff": r.choice([0.7, 0.75]),
            "cm": r.choice([0.0, 0.0, 0.1]), "T": r.choice([293.15, 303.15, 313.15]), "dp": r.choice([0.0, 0.0, 0.5, 2.0]), "liq": r.random() < 0.15,
            "mix": r.choice([0, 0, 0, 200000.0]), "split": r.choice([0, 0, 0, 50000.0])}


def gen_section(r, n=None, pcs=PC, size=None):
    out, size = {"pc": r.choice(pcs), "stages": []}, size or [r.choice([2500.0, 4000.0, 6000.0])]
    for _ in range(n or r.choice([1, 1, 2, 3])):
        out["stages"].append(gen_stage(r, size[0]))
        size[0] *= r.choice([0.45, 0.6, 0.8])  # the gas takes less room after each stage
    return out


def gen_spec(r, kind=None):
    kind = kind or r.choice(["single"] * 5 + KINDS)
    if kind == "single":
        secs = [gen_section(r)]
    elif kind == "excess":
        secs = [gen_section(r, 1)]
    elif kind == "distribution":
        secs = [gen_section(r, 1) for _ in range(r.choice([2, 3]))]
    else:
        n, size = r.choice([2, 2, 3]), [r.choice([2500.0, 4000.0, 6000.0])]
        secs = []
        for i in range(n):
            pcs = [p for p in PC if kind != "multi_pressure" or not ((p == "UPSTREAM_CHOKE" and i > 0) or (p == "DOWNSTREAM_CHOKE" and i < n - 1))]
            secs.append(gen_section(r, r.choice([1, 1, 2]), pcs, size))
    gas = r.choice(["light", "light", "light", "rich"])
    if gas == "rich" and r.random() < 0.9:
        for s in secs:
            for st in s["stages"]:
                st["liq"] = True
    return {"kind": kind, "gas": gas, "eos": r.choice(["SRK", "PR"]), "sections": secs, "overflow": r.random() < 0.8}


def gen_point(r, spec):
    """Mostly feasible: a rate the first compressor can take, pressure ratios its head can give."""
    ps = r.choice([15.0, 30.0, 45.0, 60.0])
    first = spec["sections"][0]["stages"][0]
    rate = first["max"] * ps * 25.0 * r.choice([0.0, 0.0005, 0.05, 0.2, 0.3, 0.45, 0.45, 0.6, 0.6, 0.75, 0.9, 1.2, 3.0]) * r.choice([1, 1, 1.0137])
    pt = {"rate": rate, "ps": ps, "T": r.choice([288.15, 300.0, 310.0])}
    c0 = r.choice([None, -0.1, 0.1, 0.25, 0.4, 0.5, 0.6, 0.7, 0.8, 0.95, 1.3])
    p, out = ps, []
    for s in spec["sections"][: 1 if spec["kind"] == "distribution" else None]:
        c = r.choice([0.3, 0.4, 0.5, 0.6, 0.7, 0.8]) if c0 is None else c0
        for st in s["stages"]:
            p = max(1.2, (p - st["dp"]) * math.exp(c * st["head"] / 125000.0))
        out.append(round(p * r.choice([1, 1.0003]), 4))
    pt["targets"] = out if spec["kind"] in ("multi_pressure", "multi_shaft") else out[-1:]
    return pt


def fluid_model(spec):
    from libecalc.process.fluid_stream.fluid_model import EoSModel, FluidComposition, FluidModel

    return FluidModel(eos_model=EoSModel(spec["eos"]), composition=FluidComposition(**GASES[spec["gas"]]))


def chart(st):
    from libecalc.domain.process.value_objects.chart import ChartCurve
    from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData

    curves = []
    for n in (6000.0, 7500.0, 9000.0, 10500.0):
        f = n / 10500.0
        if st["shape"] == "flat":
            q, h, k = [st["min"], st["max"]], [1.0, 0.9], 0.6 + 0.4 * f
        elif st["shape"] == "steep":
            q, h, k = [st["min"] * f, 0.7 * st["max"] * f, st["max"] * f], [1.0, 0.85, 0.3], f * f
        else:
            q, h, k = [st["min"] * f, (st["min"] + st["max"]) / 2 * f, st["max"] * f], [1.0, 0.9, 0.6], f * f
        curves.append(ChartCurve(speed_rpm=n, rate_actual_m3_hour=q, polytropic_head_joule_per_kg=[st["head"] * k * x for x in h], efficiency_fraction=[st["eff"]] * len(q)))
    return UserDefinedChartData(curves=curves, control_margin=st["cm"])


class System:
    """A fresh, fully wired system and its solver."""

    def __init__(self, spec, service):
        self.spec, self.fs = spec, service
        self.names, self.handlers, self.sections, self.systems = {}, {}, [], []
        self.fluid = fluid_model(spec)
        from libecalc.process.shaft import VariableSpeedShaft

        shared = VariableSpeedShaft() if spec["kind"] == "multi_pressure" else None
        if shared is not None:
            self._name("shaft", shared)
        for i, sec in enumerate(spec["sections"]):
            self._section(i, sec, shared)
        if shared is not None:  # the speed range is known once every compressor is on the shaft
            for ps in self.sections:
                ps._speed_boundary = shared.get_speed_boundary()
        k = spec["kind"]
        if k == "multi_pressure":
            from libecalc.process.process_solver.multi_pressure_solver import MultiPressureSolver
            from libecalc.process.process_solver.pipeline_section import Pipeline

            self.solver = MultiPressureSolver(Pipeline(self.sections))
        elif k == "multi_shaft":
            from libecalc.process.process_solver.multi_shaft_solver import MultiShaftSolver

            self.solver = MultiShaftSolver(self.sections)
        elif k == "equal_ratio":
            from libecalc.process.process_solver.multi_shaft_equal_ratio_solver import MultiShaftEqualRatioSolver

            self.solver = MultiShaftEqualRatioSolver(self.sections)
        else:
            self.solver = self.systems[0].solver

    def _name(self, name, x):
        self.names[x.get_id()] = name
        self.handlers[name] = x.get_id()

    def _section(self, i, sec, shared):
        from libecalc.process.process_solver.anti_surge.anti_surge_strategy import AntiSurgeType
        from libecalc.process.process_solver.choke_configuration_handler import ChokeConfigurationHandler
        from libecalc.process.process_solver.recirculation_loop import RecirculationLoop
        from libecalc.process.process_solver.section_assembly import assemble_process_section
        from libecalc.process.process_solver.solver_assembly import assemble_solver
        from libecalc.process.process_units.choke import Choke
        from libecalc.process.process_units.compressor import Compressor
        from libecalc.process.process_units.liquid_remover import LiquidRemover
        from libecalc.process.process_units.mixer import Mixer
        from libecalc.process.process_units.pressure_dropper import PressureDropper
        from libecalc.process.process_units.splitter import Splitter
        from libecalc.process.process_units.temperature_setter import TemperatureSetter
        from libecalc.process.shaft import VariableSpeedShaft

        fs, units, comps = self.fs, [], []
        shaft = shared or VariableSpeedShaft()
        if shared is None:
            self._name(f"shaft{i}", shaft)
        for k, st in enumerate(sec["stages"]):
            if k and st["mix"] and sec["pc"] != "COMMON_ASV":
                m = Mixer(fluid_service=fs)
                m.set_stream(fs.create_stream_from_standard_rate(fluid_model=self.fluid, pressure_bara=30.0, temperature_kelvin=300.0, standard_rate_m3_per_day=st["mix"]))
                units.append(m)
            if k and st["split"] and sec["pc"] != "COMMON_ASV":
                units.append(Splitter(fluid_service=fs, rate=st["split"]))
            units.append(TemperatureSetter(fluid_service=fs, required_temperature_kelvin=st["T"]))
            if st["dp"]:
                units.append(PressureDropper(fluid_service=fs, pressure_drop_bara=st["dp"]))
            if st["liq"]:
                units.append(LiquidRemover(fluid_service=fs))
            c = Compressor(compressor_chart=chart(st), fluid_service=fs)
            shaft.connect(c)
            comps.append(c)
            units.append(c)
            self.names[c.get_id()] = f"compressor{i}.{k}"
        asm = assemble_process_section(units, AntiSurgeType.COMMON_ASV if sec["pc"] == "COMMON_ASV" else AntiSurgeType.INDIVIDUAL_ASV, sec["pc"], fs)
        loops = [h for h in asm.configuration_handlers if isinstance(h, RecirculationLoop)]
        chokes = [h for h in asm.configuration_handlers if isinstance(h, ChokeConfigurationHandler)]
        for k, l in enumerate(loops):
            self._name(f"loop{i}.{k}", l)
        for h in chokes:
            self._name(f"choke{i}", h)
        for k, u in enumerate(asm.process_units):
            self.names.setdefault(u.get_id(), f"unit{i}.{k}")
        s = assemble_solver(process_units=asm.process_units, configuration_handlers=[shaft, *asm.configuration_handlers], compressors=comps, recirculation_loops=loops, shaft=shaft,
                            pipeline_name=f"p{i}", pressure_control_type=sec["pc"], choke=None, choke_configuration_handler=chokes[0] if chokes else None)
        self.names[s.pipeline.get_id()] = f"pipeline{i}"
        self.names[s.pipeline_section.get_id()] = f"section{i}"
        self.systems.append(s)
        self.sections.append(s.pipeline_section)

    # -- operations
    def inlet(self, pt):
        return self.fs.create_stream_from_standard_rate(fluid_model=self.fluid, pressure_bara=pt["ps"], temperature_kelvin=pt["T"], standard_rate_m3_per_day=pt["rate"])

    def solve(self, pt, outlets=True):
        """Everything a caller sees of one request, in a form free of generated ids."""
        from libecalc.process.process_pipeline.process_error import ProcessError
        from libecalc.process.process_solver.float_constraint import FloatConstraint

        inlet = self.inlet(pt)
        k = self.spec["kind"]
        if k == "excess":
            from libecalc.process.process_solver.feasibility_solver import FeasibilitySolver

            return {"excess": float(FeasibilitySolver(self.solver).get_excess_rate(inlet, FloatConstraint(pt["targets"][0])))}
        if k == "distribution":
            return self._distribute(pt, inlet)
        sol = self.solver.find_solution([FloatConstraint(t) for t in pt["targets"]], inlet)
        out = {"success": sol.success, "failure": self._failure(sol.failure), "configuration": self._conf(sol.configuration)}
        if sol.success and outlets:
            try:
                out["outlets"] = self.outlets(out["configuration"], pt, inlet)
            except ProcessError as e:
                out["outlets"] = "raises " + type(e).__name__
        return out

    def _distribute(self, pt, inlet):
        from libecalc.presentation.yaml.mappers.process_simulation_mapper import StreamDistributionItem
        from libecalc.process.process_solver.feasibility_solver import FeasibilitySolver
        from libecalc.process.process_solver.float_constraint import FloatConstraint
        from libecalc.process.stream_distribution.common_stream_distribution import CommonStreamDistribution, Overflow
        from libecalc.process.stream_distribution.priorities_stream_distribution import PrioritiesStreamDistribution

        n = len(self.systems)
        items = {i: StreamDistributionItem(FeasibilitySolver(s.solver), FloatConstraint(pt["targets"][0])) for i, s in enumerate(self.systems)}
        dists = []
        for fr in ([1.0] + [0.0] * (n - 1), [1.0 / n] * n):
            ov = [Overflow(i, i + 1) for i in range(n - 1)] if self.spec["overflow"] else []
            dists.append(CommonStreamDistribution(inlet_stream=inlet, items=items, rate_fractions=fr, overflows=ov, fluid_service=self.fs))
        return {"rates": [float(s.standard_rate_sm3_per_day) for s in PrioritiesStreamDistribution(dists, list(items.values())).get_streams()]}

    def _conf(self, cs):
        return {self.names.get(c.configuration_handler_id, "?"): {k: float(v) for k, v in vars(c.value).items()} | {"_": type(c.value).__name__} for c in cs}

    def _failure(self, f):
        if f is None:
            return None
        d = {}
        for k, v in vars(f).items():
            d[k] = self.names.get(v, "?") if "id" in k and v is not None else trains.plain(v)
        for i, n in sorted(self.names.items(), key=lambda x: x[1]):
            if isinstance(d.get("reason"), str):
                d["reason"] = d["reason"].replace(str(i), n)
        return {"type": type(f).__name__, **d}

    def apply(self, conf):
        from libecalc.process.process_solver import configuration as cm

        for i, s in enumerate(self.systems):
            for name, v in conf.items():
                if name == "shaft" or name.lstrip("abcdefghijklmnopqrstuvwxyz").split(".")[0] == str(i):
                    val = getattr(cm, v["_"])(**{k: x for k, x in v.items() if k != "_"})
                    s.runner.apply_configuration(cm.Configuration(configuration_handler_id=self.handlers[name], value=val))

    def outlets(self, conf, pt, inlet=None):
        """Outlet of every section in flow order with a configuration applied."""
        self.apply(conf)
        cur, out = inlet or self.inlet(pt), []
        for s in self.systems:
            cur = s.runner.run(inlet_stream=cur)
            out.append({"p": float(cur.pressure_bara), "t": float(cur.temperature_kelvin), "rate": float(cur.standard_rate_sm3_per_day), "mass": float(cur.mass_rate_kg_per_h), "h": float(cur.enthalpy_joule_per_kg)})
        return out


def finite(x):
    if isinstance(x, dict):
        return all(finite(v) for v in x.values())
    if isinstance(x, list):
        return all(finite(v) for v in x)
    return not isinstance(x, float) or math.isfinite(x)
