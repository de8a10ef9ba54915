"""Seeded generator of small but complete eCalc models: YAML text, included files, time series and facility files."""

from __future__ import annotations

import datetime as dt

import yaml

VS_CURVES = [
    (7689, [2900.0666, 3503.8068, 4002.5554, 4595.0148], [8412.9156, 7996.2541, 7363.8161, 6127.1702], [0.723, 0.7469, 0.7449, 0.7015]),
    (9886, [3708.8713, 4502.2531, 4993.5959, 5507.8114, 5924.3308], [13845.3808, 13182.6922, 12425.3699, 11276.3984, 10054.3539],
     [0.723, 0.7473, 0.748, 0.7306, 0.704]),
    (11533, [4327.9175, 4998.517, 5505.8851, 6027.6167, 6506.9064, 6908.2832],
     [18882.3055, 18235.1912, 17531.6259, 16489.7195, 15037.1474, 13618.7919], [0.7254, 0.7444, 0.745, 0.7466, 0.7266, 0.7019]),
]
SS_CURVE = ([1735, 1882, 2027, 2182, 2322, 2467, 2615, 2762, 2907, 3054, 3201],
            [95.942, 92.999, 89.663, 86.426, 81.325, 76.126, 70.142, 63.569, 56.604, 49.639, 42.477],
            [0.7121, 0.7214, 0.7281, 0.7286, 0.7194, 0.7108, 0.7001, 0.6744, 0.6364, 0.5859, 0.5185])

GENSET = "POWER,FUEL\n0,0\n0.1,75000\n10,80000\n20,120000\n50,250000\n100,450000\n250,1000000\n"
PUMP_TAB = "RATE,POWER\n0,0\n1,4.5\n8500,4.5\n9000,4.61\n20000,6.1\n40000,9.0\n"
PUMP_SS = "RATE,HEAD,EFFICIENCY\n200,3000,40\n500,2500,50\n1000,2400,60\n1300,2000,70\n1500,1900,72\n2000,1000,65\n"
PUMP_VS = ("SPEED,RATE,HEAD,EFFICIENCY\n2650,250,1050,0.5\n2650,500,1000,0.65\n2650,700,900,0.7\n2650,800,880,0.75\n"
           "3000,300,1400,0.5\n3000,600,1300,0.65\n3000,900,1100,0.72\n3500,350,2400,0.5\n3500,800,2100,0.7\n3500,1300,1500,0.75\n")
SAMPLED = "RATE,FUEL,POWER\n0,0,0\n1000000,10000,1\n2000000,11000,2\n3000000,12000,3\n4000000,13000,4\n8000000,21000,9\n"
SAMPLED3 = ("RATE,SUCTION_PRESSURE,DISCHARGE_PRESSURE,FUEL\n1000000,50,162,52765\n1000000,50,258,76928\n1000000,50,394,118032\n"
            "1000000,51,166,53000\n1000000,51,400,119965\n1000000,53,169,53674\n5200000,50,305,68000\n5200000,51,394,81000\n"
            "7200000,50,146,85200\n7200000,51,200,98000\n8200000,53,150,139000\n8200000,53,250,160000\n")
TABULAR = "VARIABLE1,FUEL\n0,0\n20000,1000\n40000,2000\n60000,3000\n800000,4000\n"


def _vs_csv():
    rows = ["SPEED,RATE,HEAD,EFFICIENCY"]
    for sp, ra, he, ef in VS_CURVES:
        rows += [f"{sp},{a},{b},{c}" for a, b, c in zip(ra, he, ef)]
    return "\n".join(rows) + "\n"


def _chart_models():
    u = {"RATE": "AM3_PER_HOUR", "HEAD": "M", "EFFICIENCY": "FRACTION"}
    return [
        {"NAME": "vs_file", "TYPE": "COMPRESSOR_CHART", "CHART_TYPE": "VARIABLE_SPEED", "UNITS": u, "CURVES": {"FILE": "einput/vs_chart.csv"}},
        {"NAME": "vs_inline", "TYPE": "COMPRESSOR_CHART", "CHART_TYPE": "VARIABLE_SPEED", "UNITS": u,
         "CURVES": [{"SPEED": s, "RATE": a, "HEAD": b, "EFFICIENCY": c} for s, a, b, c in VS_CURVES]},
        {"NAME": "ss_chart", "TYPE": "COMPRESSOR_CHART", "CHART_TYPE": "SINGLE_SPEED",
         "UNITS": {"RATE": "AM3_PER_HOUR", "HEAD": "KJ_PER_KG", "EFFICIENCY": "FRACTION"},
         "CURVE": {"RATE": SS_CURVE[0], "HEAD": SS_CURVE[1], "EFFICIENCY": SS_CURVE[2]}},
        {"NAME": "gen_input", "TYPE": "COMPRESSOR_CHART", "CHART_TYPE": "GENERIC_FROM_INPUT", "UNITS": {"EFFICIENCY": "FRACTION"},
         "POLYTROPIC_EFFICIENCY": 0.75},
        {"NAME": "gen_design", "TYPE": "COMPRESSOR_CHART", "CHART_TYPE": "GENERIC_FROM_DESIGN_POINT",
         "UNITS": {"RATE": "AM3_PER_HOUR", "HEAD": "KJ_PER_KG", "EFFICIENCY": "FRACTION"}, "POLYTROPIC_EFFICIENCY": 0.75,
         "DESIGN_RATE": 5000, "DESIGN_HEAD": 100},
    ]


def _fluids(r):
    eos = r.choice(["SRK", "SRK", "PR", "GERG_SRK"])
    return [
        {"NAME": "gas", "TYPE": "FLUID", "FLUID_MODEL_TYPE": "PREDEFINED", "EOS_MODEL": eos, "GAS_TYPE": r.choice(["MEDIUM", "DRY", "ULTRA_DRY"])},
        {"NAME": "rich", "TYPE": "FLUID", "FLUID_MODEL_TYPE": "PREDEFINED", "EOS_MODEL": "SRK", "GAS_TYPE": "RICH"},
        {"NAME": "custom", "TYPE": "FLUID", "FLUID_MODEL_TYPE": "COMPOSITION", "EOS_MODEL": "SRK",
         "COMPOSITION": {"nitrogen": 0.74, "CO2": 2.4, "methane": 85.6, "ethane": 6.7, "propane": 2.6, "n_butane": 0.69}},
    ]


def _stage(chart, margin=None):
    s = {"INLET_TEMPERATURE": 30, "COMPRESSOR_CHART": chart}
    if margin is not None:
        s.update(CONTROL_MARGIN=margin, CONTROL_MARGIN_UNIT="PERCENTAGE")
    return s


PC = ["DOWNSTREAM_CHOKE", "UPSTREAM_CHOKE", "INDIVIDUAL_ASV_PRESSURE", "INDIVIDUAL_ASV_RATE", "COMMON_ASV"]


def _train_models(r):
    return [
        {"NAME": "simpl_known", "TYPE": "SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN", "FLUID_MODEL": "gas",
         "COMPRESSOR_TRAIN": {"STAGES": [_stage("gen_input"), _stage("gen_design")]}},
        {"NAME": "simpl_unknown", "TYPE": "SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN", "FLUID_MODEL": "gas",
         "COMPRESSOR_TRAIN": {"MAXIMUM_PRESSURE_RATIO_PER_STAGE": 3.5, "COMPRESSOR_CHART": r.choice(["gen_input", "gen_design"]),
                              "INLET_TEMPERATURE": 30}},
        {"NAME": "vs_train", "TYPE": "VARIABLE_SPEED_COMPRESSOR_TRAIN", "FLUID_MODEL": r.choice(["gas", "custom", "rich"]),
         "PRESSURE_CONTROL": r.choice(PC),
         "COMPRESSOR_TRAIN": {"STAGES": [_stage("vs_file", r.choice([0, 10])), _stage("vs_inline", 0)]}},
        {"NAME": "vs_one", "TYPE": "VARIABLE_SPEED_COMPRESSOR_TRAIN", "FLUID_MODEL": r.choice(["gas", "custom"]),
         "PRESSURE_CONTROL": r.choice(PC), "COMPRESSOR_TRAIN": {"STAGES": [_stage("vs_inline", r.choice([0, 5]))]}},
        {"NAME": "ss_train", "TYPE": "SINGLE_SPEED_COMPRESSOR_TRAIN", "FLUID_MODEL": "gas", "PRESSURE_CONTROL": r.choice(PC),
         "COMPRESSOR_TRAIN": {"STAGES": [_stage("ss_chart", 0), _stage("ss_chart", 0)]}},
        {"NAME": "turbine", "TYPE": "TURBINE", "LOWER_HEATING_VALUE": 38,
         "TURBINE_LOADS": [0, 2.352, 4.589, 6.853, 9.125, 11.399, 13.673, 15.947, 18.223, 20.496, 22.767],
         "TURBINE_EFFICIENCIES": [0, 0.138, 0.210, 0.255, 0.286, 0.310, 0.328, 0.342, 0.353, 0.360, 0.362]},
        {"NAME": "simpl_turbine", "TYPE": "COMPRESSOR_WITH_TURBINE", "COMPRESSOR_MODEL": "simpl_known", "TURBINE_MODEL": "turbine"},
        {"NAME": "vs_turbine", "TYPE": "COMPRESSOR_WITH_TURBINE", "COMPRESSOR_MODEL": "vs_train", "TURBINE_MODEL": "turbine"},
        {"NAME": "multi", "TYPE": "VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES",
         "STREAMS": [{"NAME": "in1", "TYPE": "INGOING", "FLUID_MODEL": "rich"}, {"NAME": "in2", "TYPE": "INGOING", "FLUID_MODEL": "custom"},
                     {"NAME": "out3", "TYPE": "OUTGOING"}],
         "STAGES": [dict(_stage("vs_file", 0), STREAM=["in1"]), dict(_stage("vs_file", 0), STREAM=["in2"]),
                    dict(_stage("vs_file", 0), STREAM=["out3"],
                         INTERSTAGE_CONTROL_PRESSURE={"UPSTREAM_PRESSURE_CONTROL": "UPSTREAM_CHOKE",
                                                      "DOWNSTREAM_PRESSURE_CONTROL": "INDIVIDUAL_ASV_PRESSURE"})],
         "PRESSURE_CONTROL": r.choice(["INDIVIDUAL_ASV_PRESSURE", "DOWNSTREAM_CHOKE"])},
    ]


def _vary(models, r):
    """Optional settings of the train models."""
    for m in models:
        t = m["TYPE"]
        if t in ("VARIABLE_SPEED_COMPRESSOR_TRAIN", "SINGLE_SPEED_COMPRESSOR_TRAIN", "SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN"):
            if r.random() < 0.4:
                m["CALCULATE_MAX_RATE"] = True
            if r.random() < 0.4:
                m["MAXIMUM_POWER"] = r.choice([3.0, 12.0, 30.0])
            if t[:2] in ("VA", "SI") and t != "SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN" and r.random() < 0.4:
                m["COMPRESSOR_TRAIN"]["STAGES"][-1]["PRESSURE_DROP_AHEAD_OF_STAGE"] = 1.5
        if t == "SINGLE_SPEED_COMPRESSOR_TRAIN" and m["PRESSURE_CONTROL"] == "DOWNSTREAM_CHOKE" and r.random() < 0.6:
            m["MAXIMUM_DISCHARGE_PRESSURE"] = r.choice([150.0, 250.0])
        if t in ("VARIABLE_SPEED_COMPRESSOR_TRAIN", "TURBINE") and r.random() < 0.3:
            m.update(POWER_ADJUSTMENT_CONSTANT=0.5, POWER_ADJUSTMENT_FACTOR=1.03)


def _comp(fn, rate, ps, pd, **kw):
    return dict({"TYPE": "COMPRESSOR", "ENERGYFUNCTION": fn, "RATE": rate, "SUCTION_PRESSURE": ps, "DISCHARGE_PRESSURE": pd}, **kw)


# name -> (where, category, energy usage model, cost class)
def _consumer(kind, r, dates):
    rate = r.choice(["SIM1;GAS_PROD", "SIM1;GAS_PROD {/} 2", "SIM1;GAS_PROD {*} 0.8"])
    ps, pd = r.choice([("50", "250"), ("60", "SIM1;PD"), ("50", "SIM1;PD {+} 10"), ("40", "180")])
    if kind == "direct":
        return "el", "FIXED-PRODUCTION-LOAD", {"TYPE": "DIRECT", "LOAD": "4.1 {*} SIM1;FACTOR", "CONDITION": "SIM1;GAS_PROD > 0", "POWERLOSSFACTOR": 0.05}
    if kind == "temporal":
        return "el", "FIXED-PRODUCTION-LOAD", {dates[0]: {"TYPE": "DIRECT", "LOAD": 1}, dates[-1]: {"TYPE": "DIRECT", "LOAD": 2}}
    if kind == "tab_pump":
        return "el", "PUMP", {"TYPE": "TABULATED", "ENERGYFUNCTION": "pump_tab", "VARIABLES": [{"NAME": "RATE", "EXPRESSION": "$var.inj"}]}
    if kind == "pump_ss":
        return "el", "PUMP", {"TYPE": "PUMP", "ENERGYFUNCTION": "pump_ss", "RATE": "SIM1;WATER_INJ", "SUCTION_PRESSURE": 3,
                              "DISCHARGE_PRESSURE": 200, "FLUID_DENSITY": 1000, "CONDITION": "SIM1;GAS_PROD > 0"}
    if kind == "pump_vs":
        return "el", "PUMP", {"TYPE": "PUMP", "ENERGYFUNCTION": "pump_vs", "RATE": "$var.inj", "SUCTION_PRESSURE": 3,
                              "DISCHARGE_PRESSURE": r.choice([120, 200]), "FLUID_DENSITY": 1000, "POWERLOSSFACTOR": "SIM1;LOSS"}
    if kind == "pump_system":
        return "el", "PUMP", {"TYPE": "PUMP_SYSTEM", "PUMPS": [{"NAME": "p1", "CHART": "pump_ss"}, {"NAME": "p2", "CHART": "pump_vs"}],
                              "FLUID_DENSITY": 1026, "TOTAL_SYSTEM_RATE": "SIM1;WATER_INJ", "POWERLOSSFACTOR": 0.05,
                              "OPERATIONAL_SETTINGS": [
                                  {"RATE_FRACTIONS": [1, 0], "SUCTION_PRESSURES": [3, 3], "DISCHARGE_PRESSURES": [200, 200], "CROSSOVER": [2, 0]},
                                  {"RATE_FRACTIONS": [0.5, 0.5], "SUCTION_PRESSURE": 3, "DISCHARGE_PRESSURE": 150}]}
    if kind == "simpl_known":
        return "el", "COMPRESSOR", _comp("simpl_known", rate, ps, pd)
    if kind == "simpl_unknown":
        return "el", "COMPRESSOR", _comp("simpl_unknown", rate, ps, pd, POWERLOSSFACTOR=0.05)
    if kind == "vs_train":
        return "el", "COMPRESSOR", _comp("vs_train", rate, ps, pd)
    if kind == "vs_one":
        return "el", "COMPRESSOR", _comp("vs_one", rate, "60", "SIM1;PD {/} 2")
    if kind == "ss_train":
        return "el", "COMPRESSOR", _comp("ss_train", rate, 80, "SIM1;PD {+} 20")
    if kind == "multi":
        return "el", "COMPRESSOR", {"TYPE": "VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES", "COMPRESSOR_TRAIN_MODEL": "multi",
                                    "RATE_PER_STREAM": ["SIM1;GAS_PROD {/} 5", 250000, 200000], "SUCTION_PRESSURE": 10,
                                    "INTERSTAGE_CONTROL_PRESSURE": 40, "DISCHARGE_PRESSURE": 120}
    if kind == "vs_system":
        return "el", "COMPRESSOR", {"TYPE": "COMPRESSOR_SYSTEM", "COMPRESSORS": [{"NAME": "t1", "COMPRESSOR_MODEL": "vs_train"}, {"NAME": "t2", "COMPRESSOR_MODEL": "vs_one"}],
                                    "TOTAL_SYSTEM_RATE": "SIM1;GAS_PROD",
                                    "OPERATIONAL_SETTINGS": [
                                        {"RATE_FRACTIONS": [1.0, 0.0], "SUCTION_PRESSURE": 50, "DISCHARGE_PRESSURE": "SIM1;PD", "CROSSOVER": [2, 0]},
                                        {"RATE_FRACTIONS": [0.5, 0.5], "SUCTION_PRESSURE": 55, "DISCHARGE_PRESSURE": "SIM1;PD"}]}
    if kind == "flare":
        return "fuel", "FLARE", {"TYPE": "DIRECT", "FUELRATE": "FLARE;FLARE_RATE"}
    if kind == "sampled":
        return "fuel", "COMPRESSOR", _comp("sampled", "SIM1;GAS_PROD {/} 2", 200, 400)
    if kind == "sampled3":
        return "fuel", "COMPRESSOR", _comp("sampled3", rate, 50, "SIM1;PD")
    if kind == "tabulated":
        return "fuel", "MISCELLANEOUS", {"TYPE": "TABULATED", "ENERGYFUNCTION": "tabular", "VARIABLES": [{"NAME": "VARIABLE1", "EXPRESSION": "SIM1;WATER_INJ"}]}
    if kind == "sampled_system":
        return "fuel", "COMPRESSOR", {"TYPE": "COMPRESSOR_SYSTEM", "POWERLOSSFACTOR": 0.05,
                                      "COMPRESSORS": [{"NAME": "s1", "COMPRESSOR_MODEL": "sampled"}, {"NAME": "s2", "COMPRESSOR_MODEL": "sampled"}],
                                      "OPERATIONAL_SETTINGS": [{"RATES": ["SIM1;GAS_PROD {/} 2", "SIM1;GAS_PROD {/} 4"], "SUCTION_PRESSURE": 200, "DISCHARGE_PRESSURE": 400}]}
    if kind == "turbine":
        return "fuel", "COMPRESSOR", _comp("simpl_turbine", rate, 40, "SIM1;PD")
    if kind == "vs_turbine":
        return "fuel", "COMPRESSOR", _comp("vs_turbine", rate, 50, "SIM1;PD")
    raise AssertionError(kind)


CHEAP = ["direct", "temporal", "tab_pump", "pump_ss", "pump_vs", "pump_system", "flare", "sampled", "sampled3", "tabulated", "sampled_system"]
THERMO_LIGHT = ["simpl_known", "simpl_unknown", "turbine", "vs_one"]
THERMO_HEAVY = ["vs_train", "ss_train", "vs_turbine", "vs_system", "multi"]


class _Inc(str):
    pass


class _Dumper(yaml.SafeDumper):
    def ignore_aliases(self, data):
        return True


_Dumper.add_representer(_Inc, lambda d, v: d.represent_scalar("!include", str(v)))


def gen_spec(r, thermo="light", nsteps=None, include=None, installs=None, ncons=None):
    """A JSON description; `build(spec)` turns it into files."""
    n = nsteps or r.choice([2, 2, 3, 4])
    kinds = r.sample(CHEAP, r.randint(1, 4))
    if thermo == "light":
        kinds += r.sample(THERMO_LIGHT, r.randint(1, 2))
    elif thermo == "heavy":
        kinds += r.sample(THERMO_LIGHT + THERMO_HEAVY * 2, r.randint(1, 2))
    kinds = list(dict.fromkeys(kinds))
    if ncons:
        kinds = kinds[-ncons:]
    rows = []
    for k in range(n):
        gas = r.choice([0, 1200000, 2500000, 4000000, 5500000, 9000000]) * r.choice([1, 1, 0.93])
        rows.append([r.choice([3000, 5000]), r.choice([0, 8000, 24000]), gas, r.choice([0, 9000, 25000, 32000]), r.choice([1, 1, 0.9, 0]),
                     r.choice([0, 0.04]), r.choice([120, 180, 250, 310]), r.choice([0.5, 1, 1.5])])
    return {"kinds": kinds, "rows": rows, "step": r.choice(["Y", "Y", "M"]), "seed": r.randrange(1 << 30),
            "include": include if include is not None else r.choice([[], ["fuel"], ["fuel", "models"], ["series", "fuel"]]),
            "installs": installs or r.choice([1, 1, 2]), "crlf": r.random() < 0.1, "start": r.choice([True, False]), "variants": r.random() < 0.5}


def build(spec):
    import random

    r = random.Random(f"model:{spec['seed']}")
    n = len(spec["rows"])
    f0 = spec.get("first", 0)
    if spec["step"] == "Y":
        dates = [dt.date(2020 + k, 1, 1) for k in range(f0, f0 + n)]
        end = dt.date(2020 + f0 + n, 1, 1)
    else:
        dates = [dt.date(2020 + k // 12, 1 + k % 12, 1) for k in range(f0, f0 + n)]
        end = dt.date(2020 + (f0 + n) // 12, 1 + (f0 + n) % 12, 1)
    files = {}
    hdr = "DATE,OIL_PROD,WATER_PROD,GAS_PROD,WATER_INJ,REGULARITY,LOSS,PD,FACTOR"
    files["sim/base.csv"] = hdr + "\n" + "\n".join(
        ",".join([d.strftime("%d.%m.%Y")] + [repr(float(v)) for v in row]) for d, row in zip(dates, spec["rows"])) + "\n"
    files["sim/flare.csv"] = "DATE,FLARE_RATE,METHANE_RATE\n" + "\n".join(
        f"{d.strftime('%d.%m.%Y')},{10000 + 100 * k},{3 + k}" for k, d in enumerate(dates, f0)) + "\n"
    files["einput/genset.csv"] = GENSET
    files["einput/vs_chart.csv"] = _vs_csv()
    fac = [{"NAME": "genset", "FILE": "einput/genset.csv", "TYPE": "ELECTRICITY2FUEL"}]
    opt = {
        "pump_tab": ("einput/pump_tab.csv", PUMP_TAB, {"TYPE": "TABULAR"}, ("tab_pump",)),
        "pump_ss": ("einput/pump_ss.csv", PUMP_SS, {"TYPE": "PUMP_CHART_SINGLE_SPEED", "UNITS": {"EFFICIENCY": "PERCENTAGE", "HEAD": "M", "RATE": "AM3_PER_HOUR"}}, ("pump_ss", "pump_system")),
        "pump_vs": ("einput/pump_vs.csv", PUMP_VS, {"TYPE": "PUMP_CHART_VARIABLE_SPEED", "UNITS": {"EFFICIENCY": "FRACTION", "HEAD": "M", "RATE": "AM3_PER_HOUR"}}, ("pump_vs", "pump_system")),
        "sampled": ("einput/sampled.csv", SAMPLED, {"TYPE": "COMPRESSOR_TABULAR"}, ("sampled", "sampled_system")),
        "sampled3": ("einput/sampled3.csv", SAMPLED3, {"TYPE": "COMPRESSOR_TABULAR"}, ("sampled3",)),
        "tabular": ("einput/tabular.csv", TABULAR, {"TYPE": "TABULAR"}, ("tabulated",)),
    }
    for name, (path, text, kw, users) in opt.items():
        if any(u in spec["kinds"] for u in users):
            files[path] = text
            fac.append(dict({"NAME": name, "FILE": path}, **kw))
    models = _chart_models() + _fluids(r) + _train_models(r)
    if spec.get("variants"):
        _vary(models, random.Random(f"variants:{spec['seed']}"))
    fuel = [{"NAME": "fuel_gas", "CATEGORY": "FUEL-GAS",
             "EMISSIONS": [{"NAME": "co2", "FACTOR": r.choice([2.2, "2.5"])}, {"NAME": "nox", "FACTOR": 0.02}]},
            {"NAME": "diesel", "CATEGORY": "DIESEL", "EMISSIONS": [{"NAME": "co2", "FACTOR": 3.1}]}]
    series = [{"NAME": "SIM1", "TYPE": "MISCELLANEOUS", "FILE": "sim/base.csv", "INTERPOLATION_TYPE": "RIGHT", "INFLUENCE_TIME_VECTOR": True},
              {"NAME": "FLARE", "TYPE": "MISCELLANEOUS", "FILE": "sim/flare.csv", "INTERPOLATION_TYPE": r.choice(["LEFT", "LINEAR", "RIGHT"]),
               "EXTRAPOLATION": True, "INFLUENCE_TIME_VECTOR": False}]
    doc = {}
    if spec["start"] or spec.get("sims") is not None:  # process simulations need START (DESIGN.md)
        doc["START"] = dates[0]
    doc["END"] = end
    inc = spec["include"]

    def part(key, value, fname):
        if key in inc:
            files[fname] = yaml.dump(value, Dumper=_Dumper, sort_keys=False)
            return _Inc(fname)
        return value

    doc["TIME_SERIES"] = part("series", series, "parts/series.yaml")
    doc["FACILITY_INPUTS"] = fac
    doc["VARIABLES"] = {"inj": {"VALUE": "SIM1;WATER_INJ {-} SIM1;WATER_PROD {*} (SIM1;WATER_PROD < SIM1;WATER_INJ)"}}
    used = set()
    for k in spec["kinds"]:
        used |= {"simpl_known": {"simpl_known"}, "simpl_unknown": {"simpl_unknown"}, "turbine": {"simpl_known", "simpl_turbine", "turbine"},
                 "vs_one": {"vs_one"}, "vs_train": {"vs_train"}, "ss_train": {"ss_train"}, "vs_turbine": {"vs_train", "vs_turbine", "turbine"},
                 "vs_system": {"vs_train", "vs_one"}, "multi": {"multi"}}.get(k, set())
    keep = [m for m in models if m["TYPE"] in ("COMPRESSOR_CHART", "FLUID") or m["NAME"] in used]
    if not used:
        keep = []
        files.pop("einput/vs_chart.csv", None)
    if keep:
        doc["MODELS"] = part("models", keep, "parts/models.yaml")
    doc["FUEL_TYPES"] = part("fuel", fuel, "parts/fuel.yaml")
    insts = []
    ni = spec["installs"]
    buckets = [[] for _ in range(ni)]
    for j, k in enumerate(spec["kinds"]):
        buckets[j % ni].append(k)
    for j, kinds in enumerate(buckets):
        el, fu = [], []
        for k in kinds:
            where, cat, eum = _consumer(k, r, dates)
            (el if where == "el" else fu).append({"NAME": f"{k}_{j}", "CATEGORY": cat, "ENERGY_USAGE_MODEL": eum})
        if not el:
            el.append({"NAME": f"base_{j}", "CATEGORY": "BASE-LOAD", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "LOAD": 7.5 + j}})
        inst = {"NAME": f"inst{j}", "HCEXPORT": "SIM1;OIL_PROD {+} SIM1;GAS_PROD {/} 1000", "REGULARITY": "SIM1;REGULARITY", "FUEL": "fuel_gas",
                "CATEGORY": r.choice(["FIXED", "MOBILE"]),
                "GENERATORSETS": [{"NAME": f"genset_{j}", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "genset", "CONSUMERS": el}]}
        if fu:
            inst["FUELCONSUMERS"] = fu
        if j == 0:
            inst["VENTING_EMITTERS"] = [{"NAME": "venting", "CATEGORY": "COLD-VENTING-FUGITIVE", "TYPE": "DIRECT_EMISSION",
                                         "EMISSIONS": [{"NAME": "ch4", "RATE": {"VALUE": "FLARE;METHANE_RATE", "UNIT": "KG_PER_DAY", "TYPE": "STREAM_DAY"}}]}]
        insts.append(inst)
    doc["INSTALLATIONS"] = insts
    if spec.get("sims") is not None:
        _simulations(doc, files, fac, random.Random(f"sims:{spec['sims']}"), dates)
    text = yaml.dump(doc, Dumper=_Dumper, sort_keys=False, width=200)
    files["model.yaml"] = text
    if spec.get("pad"):
        files = {k: pad(k, v, spec["pad"]) for k, v in files.items()}
    if "twist" in spec:
        files = twist(files, spec["twist"])
    if spec.get("crlf"):
        files = {k: (v.replace("\n", "\r\n") if k.endswith(".csv") else v) for k, v in files.items()}
    return files


def _simulations(doc, files, fac, r, dates):
    """Process pipelines with their simulations, events, and pump simulations."""
    u = {"RATE": "AM3_PER_HOUR", "HEAD": "M", "EFFICIENCY": "FRACTION"}
    files["einput/unit.csv"] = _vs_csv()

    def comp(scale=1.0, file=False):
        curves = {"FILE": "einput/unit.csv"} if file else [{"SPEED": s, "RATE": [round(x * scale, 3) for x in a], "HEAD": b, "EFFICIENCY": c} for s, a, b, c in VS_CURVES]
        return {"TYPE": "COMPRESSOR", "COMPRESSOR_MODEL": {"TYPE": "COMPRESSOR_CHART", "CHART": {"CURVES": curves, "UNITS": u}, "CONTROL_MARGIN": {"UNIT": r.choice(["FRACTION", "PERCENTAGE"]), "VALUE": r.choice([0.0, 0.1])}}}

    fluids = {"light": {"TYPE": "PREDEFINED", "EOS_MODEL": "SRK", "GAS_TYPE": r.choice(["DRY", "MEDIUM"])},
              "mix": {"TYPE": "COMPOSITION", "EOS_MODEL": "PR", "COMPOSITION": {"methane": r.choice([85.0, "SIM1;FACTOR {+} 80"]), "ethane": 8.0, "propane": r.choice([4.5, 5.5])}}}
    units = {"big": comp(file=True), "small": comp(r.choice([0.6, 0.75])), "cool": {"TYPE": "TEMPERATURE_SETTER", "TEMPERATURE": r.choice([30.5, "25 {+} SIM1;FACTOR"])},
             "drop": {"TYPE": "PRESSURE_DROPPER", "PRESSURE_DROP": r.choice([1.5, "SIM1;FACTOR"])}, "scrub": {"TYPE": "LIQUID_REMOVER"}}
    rate = lambda: {"VALUE": r.choice(["SIM1;GAS_PROD", "SIM1;GAS_PROD {*} 0.45", 2500000.5]), "UNIT": "SM3_PER_DAY", "TYPE": r.choice(["STREAM_DAY", "CALENDAR_DAY"])} | r.choice([{}, {}, {"CONDITION": "SIM1;GAS_PROD > 1300000"}])
    streams = {n: {"NAME": n, "FLUID": r.choice(["light", "mix"]), "TEMPERATURE": 303.15, "PRESSURE": r.choice([30.5, "SIM1;PD {/} 4"]), "RATE": rate()} for n in ("feed", "side")}
    units["tiein"] = {"TYPE": "MIXER", "SIDESTREAM": r.choice(["side", dict(streams["side"], NAME="own_side")])}
    units["offtake"] = {"TYPE": "SPLITTER", "OFFTAKE_RATE": {"VALUE": r.choice([5000.5, "SIM1;OIL_PROD"]), "UNIT": "SM3_PER_DAY"}}
    events, pevents = [], []
    for k in range(r.choice([0, 1, 2])):
        events.append({"NAME": f"revamp{k}", "TYPE": r.choice(["CALIBRATION", "TIE_IN", "OTHER"]), "START": r.choice(dates)})
        pevents.append({"NAME": f"rebundle{k}", "TYPE": "OTHER", "REF": f"revamp{k}"})
    pipes, cons = {}, {}
    names = [f"train{k}" for k in range(r.choice([1, 2, 2, 3]))]
    for n in names:
        pu, cs = [], []
        for s in range(r.choice([1, 1, 2])):
            seq = [x for x in ("tiein", "offtake", "cool", "drop", "scrub") if r.random() < (0.25 if x in ("tiein", "offtake") else 0.5) and (s or x not in ("tiein", "offtake"))]
            pc = r.choice(["DOWNSTREAM_CHOKE", "UPSTREAM_CHOKE", "INDIVIDUAL_ASV_RATE", "COMMON_ASV"])
            if s == 1 or pc == "DOWNSTREAM_CHOKE":
                pc = r.choice(["INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE"])
            for x in seq:
                pu.append({"TARGET": x if r.random() < 0.8 else units[x]})
            pu.append({"NAME": f"c{s}", "TARGET": r.choice(["big", "small"])})
            cs.append({"PROCESS_UNIT": f"c{s}", "OUTLET_PRESSURE": r.choice([80.5, "SIM1;PD", "SIM1;PD {*} 0.7"]), "PRESSURE_CONTROL": pc, "ANTI_SURGE": "COMMON_ASV" if pc == "COMMON_ASV" else "INDIVIDUAL_ASV"})
        pipes[n] = {"NAME": n, "PROCESS_UNITS": pu}
        if pevents and r.random() < 0.7:
            pipes[n]["EVENTS"] = [{"TYPE": "CHANGE", "CHANGE_TARGET": "c0", "CHANGE_FROM": pu[[x.get("NAME") for x in pu].index("c0")]["TARGET"], "CHANGE_TO": r.choice(["big", "small"]), "CHANGE_TYPE": "REBUNDLE", "REF": r.choice(pevents)["NAME"]}]
        cons[n] = cs
    sims = []
    for k in range(r.choice([1, 1, 2])):
        ts = r.sample(names, r.randint(1, len(names)))
        if r.random() < 0.6:
            setting = {"RATE_FRACTIONS": [r.choice([round(1 / len(ts), 4), "0.5 {*} SIM1;FACTOR"]) for _ in ts]}
            if len(ts) > 1:
                setting["OVERFLOW"] = [{"FROM_REFERENCE": a, "TO_REFERENCE": b} for a, b in zip(ts, ts[1:])]
            sd = {"METHOD": "COMMON_STREAM", "INLET_STREAM": "feed", "SETTINGS": [setting]}
        else:
            sd = {"METHOD": "INDIVIDUAL_STREAMS", "INLET_STREAMS": [r.choice(["feed", "side"]) for _ in ts]}
        sims.append({"NAME": f"simulation{k}", "TARGETS": ts, "STREAM_DISTRIBUTION": sd, "CONSTRAINTS": {n: cons[n] for n in ts}})
    doc["DEFINITIONS"] = {"PROCESS_UNITS": units, "FLUIDS": fluids}
    doc["INLET_STREAMS"], doc["PROCESS_PIPELINES"], doc["PROCESS_SIMULATIONS"] = streams, pipes, sims
    if events:
        doc["ECALC_EVENTS"], doc["PROCESS_EVENTS"] = events, pevents
    if "einput/pump_ss.csv" not in files:
        files["einput/pump_ss.csv"] = PUMP_SS
        fac.append({"NAME": "pump_ss", "FILE": "einput/pump_ss.csv", "TYPE": "PUMP_CHART_SINGLE_SPEED", "UNITS": {"EFFICIENCY": "PERCENTAGE", "HEAD": "M", "RATE": "AM3_PER_HOUR"}})
    doc["PUMP_PROCESS_SIMULATIONS"] = [{"TYPE": "PUMP", "NAME": f"injection{k}", "PUMP_MODEL": {"CHART": "pump_ss"} | r.choice([{}, {"MINIMUM_FLOW_RATE": 350.5}]),
                                        "INLET": {"RATE": r.choice(["SIM1;WATER_INJ", "SIM1;WATER_INJ {*} 0.8", 9000.5]), "PRESSURE": r.choice([3.5, 10.5]), "DENSITY": r.choice([1005.5, 1026.5])},
                                        "REQUIRED_DISCHARGE_PRESSURE": r.choice(["SIM1;PD", 200.5])} for k in range(r.choice([0, 1, 2]))]


def twist(files, seed):
    """The same files, names and sizes with other numbers in them."""
    import random
    import re

    r = random.Random(f"twist:{seed}")

    def other(m):
        return m.group()[:-1] + str(int(m.group()[-1]) ^ 1) if r.random() < 0.6 else m.group()

    out = {}
    for name, text in files.items():
        lines = text.split("\n")
        for k, ln in enumerate(lines):
            if ln.lstrip().startswith("#"):
                continue
            if name.endswith(".csv"):
                if k and "," in ln:
                    first, rest = ln.split(",", 1)
                    lines[k] = first + "," + re.sub(r"\d+\.\d+|\d{2,}", other, rest)
            else:
                lines[k] = re.sub(r"(?<![\w.])\d+\.\d+(?![\w.])", other, ln)
        out[name] = "\n".join(lines)
    return out


def pad(name, text, size):
    """Comment lines between the data lines, so that the file does not fit into one read."""
    out = []
    for k, line in enumerate(text.split("\n")):
        if k and line and (name.endswith(".csv") or line[0] not in " #"):
            out.append("#" + "-" * size)
        out.append(line)
    return "\n".join(out)


def write(files, root):
    import os

    for rel, text in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", newline="") as f:
            f.write(text)
    return os.path.join(root, "model.yaml")


def shrink_spec(spec):
    from dst.core import shrink_list

    for k in shrink_list(spec["kinds"], 1):
        yield dict(spec, kinds=k)
    for rows in shrink_list(spec["rows"], 1):
        if len(rows) >= 1:
            yield dict(spec, rows=rows)
    if spec["installs"] > 1:
        yield dict(spec, installs=1)
    if spec.get("pad"):
        yield dict(spec, pad=0)
    if spec.get("variants"):
        yield dict(spec, variants=False)
    if spec.get("sims") is not None:
        yield {k: v for k, v in spec.items() if k != "sims"}
    for inc in shrink_list(spec["include"]):
        yield dict(spec, include=inc)
