"""calculations that are described by parameter dictionaries"""
import os
import tempfile
import numpy as np
import pandas as pd
import foxes
import foxes.variables as FV
import foxes.constants as FC
from foxes.config import config
from foxes.core import Engine
from foxes.input.yaml import run_dict, read_dict, run_outputs
from foxes.input.yaml import yaml as ymod
from foxes.utils import Dict
from symx.runner import case
from . import lib
from .p21_pipeline import Lin

XY = [(0.0, 0.0), (700.0, 20.0), (1500.0, -30.0)]


class Seen(foxes.output.Output):
    """remembers the calls of its functions"""

    calls = []

    def __init__(self, farm, farm_results, extra=None, **kw):
        super().__init__(**kw)
        self.farm, self.results, self.extra = farm, farm_results, extra

    def mean(self, variable, weight=1, **kw):
        Seen.calls.append(("mean", variable, weight, kw))
        return (self.results[variable].to_numpy()[:, 0] * weight, variable)

    def pair(self, a, b):
        return [a, b]

    def own(self, algo, farm, n=0):
        return Box(algo, farm, n)


class Box:
    def __init__(self, algo, farm, n):
        self.v = (algo, farm, n)

    def add(self, k=1, algo=None):
        return [self.v[2] + k, algo]


class Points(foxes.output.Output):
    def __init__(self, point_results, farm_results=None, **kw):
        super().__init__(**kw)
        self.p, self.f = point_results, farm_results

    def get(self):
        return self.p, self.f


def inputs(ctx, S):
    """one wind speed, wake strength and position are arbitrary"""
    v = dict(ws=ctx.real("ws", 8, 14), ti=ctx.real("ti", 0.05, 0.1), k=ctx.real("k", 0.1, 0.3), y=ctx.real("y", -20, 20), h=ctx.real("h", 90, 110), px=ctx.real("px", 800, 900))
    df = pd.DataFrame(index=np.arange(S) * 10, data={FV.WS: [v["ws"]] + [ctx.const(9.5 + s) for s in range(1, S)], FV.TI: [v["ti"]] * S, "dir": [ctx.const(270.0)] * S})
    curve = pd.DataFrame({"ws": [0.0, 50.0], "P": [ctx.const(0.0), ctx.const(5000.0)], "ct": [ctx.const(0.7), ctx.const(0.6)]})
    lay = pd.DataFrame({"x": [ctx.const(p[0]) for p in XY[:2]], "y": [ctx.const(XY[0][1]), v["y"]], "name": ["a", "b"]})
    pts = ctx.empty((S, 2, 3))
    for s in range(S):
        for i, p in enumerate(((v["px"], 10.0, 95.0), (2000.0 + s, -15.0, 100.0))):
            pts[s, i] = p
    return v, df, curve, lay, pts


def document(ctx, v, df, curve, lay, pts, algo="Downwind", points=True):
    """the parameters of a calculation"""
    d = dict(
        states=dict(states_type="Timeseries" if algo == "Timeseries" else "StatesTable", data_source=df, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], var2col={FV.WD: "dir"}, fixed_vars={FV.RHO: 1.1}),
        model_book=dict(
            turbine_types=[dict(name="A", ttype_type="PCtFile", data_source=curve, D=100.0, H=100.0, P_nominal=5000.0), dict(name="B", ttype_type="PCtFile", data_source=curve, D=80.0, H=v["h"], P_nominal=5000.0)],
            turbine_models=[dict(name="kti", tmodel_type="kTI", kTI=0.5)],
            wake_models=[dict(name="W", wmodel_type="Lin", a=v["k"], sup="ws_linear_amb")],
        ),
        wind_farm=dict(name="farm", layouts=[
            dict(function="add_from_df", data_source=lay, col_x="x", col_y="y", col_name="name", turbine_models=["A", "kti"]),
            dict(function="add_row", xy_base=list(XY[2]), xy_step=[800.0, 0.0], n_turbines=1, turbine_models=["B", "kti"])]),
        algorithm=dict(algo_type="Downwind", wake_models=["W"], rotor_model="centre", partial_wakes="centre", wake_frame="rotor_wd"),
    )
    if points:
        d["calc_points"] = dict(points=pts)
    return d


def direct(ctx, v, df, curve, lay, pts, wakes=("W",), cls="Downwind", rotor="centre", partial="centre", frame="rotor_wd", fkw={}, pkw={}):
    """the calculation, with the classes"""
    mb = foxes.ModelBook()
    tt = foxes.models.turbine_types.PCtFile
    mb.turbine_types["A"] = tt(curve, D=100.0, H=100.0, P_nominal=5000.0)
    mb.turbine_types["B"] = tt(curve, D=80.0, H=v["h"], P_nominal=5000.0)
    mb.wake_models["W"] = Lin(v["k"], sup="ws_linear_amb")
    mb.turbine_models["kti"] = foxes.models.turbine_models.kTI(kTI=0.5)
    farm = foxes.WindFarm(name="farm")
    for n, (x, y, m) in zip(("a", "b", None), ((XY[0][0], XY[0][1], "A"), (XY[1][0], v["y"], "A"), (*XY[2], "B"))):
        farm.add_turbine(foxes.Turbine(xy=ctx.arr([x, y]), name=n, turbine_models=[m, "kti"]), verbosity=0)
    st = foxes.input.states.StatesTable(df, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], var2col={FV.WD: "dir"}, fixed_vars={FV.RHO: 1.1})
    a = getattr(foxes.algorithms, cls)(farm, st, wake_models=list(wakes), rotor_model=rotor, partial_wakes=partial, wake_frame=frame, mbook=mb, verbosity=0)
    with lib.engine():
        f = a.calc_farm(**fkw)
        return f, a.calc_points(f, pts, **pkw) if pts is not None else None





def same(ctx, r, e, vs=None):
    """equal results"""
    if vs is None:
        ctx.true("variables", set(r.data_vars) == set(e.data_vars), f"{set(r.data_vars) ^ set(e.data_vars)}")
    for v in [v for v in e.data_vars if v != FV.ORDER_SSEL] if vs is None else vs:
        a, b = r[v], e[v]
        if v == FV.WEIGHT and a.dims != b.dims:
            # weights of states, or of states at points
            a, b = a.transpose(FC.STATE, ...), b.transpose(FC.STATE, ...)
            for s in range(a.shape[0]):
                for x in np.ravel(a.to_numpy()[s]):
                    for y in np.ravel(b.to_numpy()[s]):
                        ctx.eq(v, x, y, tol=1e-9)
            continue
        ctx.true("dimensions", a.dims == b.dims and a.shape == b.shape, f"{v} {a.dims} {b.dims} {a.shape} {b.shape}")
        a, b = a.to_numpy(), b.to_numpy()
        if v in (FC.TNAME,) or a.dtype.kind in "UST":
            ctx.true(v, list(a) == list(b), f"{v} {a} {b}")
            continue
        for i in np.ndindex(*a.shape):
            ctx.eq(v, a[i], b[i], tol=1e-9)


def snapshot(d):
    """what a parameter dictionary contains"""
    if isinstance(d, dict):
        return {k: snapshot(x) for k, x in d.items()}
    if isinstance(d, (list, tuple)):
        return [snapshot(x) for x in d]
    return d


def unchanged(ctx, d, s, path=""):
    if isinstance(s, dict):
        ctx.true("parameters of the user", isinstance(d, dict) and list(d) == list(s), f"{path}: {list(d)}, had {list(s)}")
        for k in s:
            unchanged(ctx, d[k], s[k], f"{path}.{k}")
    elif isinstance(s, list):
        ctx.true("list of the user", len(d) == len(s), path)
        for i, x in enumerate(s):
            unchanged(ctx, d[i], x, f"{path}[{i}]")
    else:
        ctx.true("value of the user", d is s, path)


KINDS = ("plain", "engine", "engine_pars", "args", "iterative", "twice", "parts", "norun", "algo", "nowakes", "pars")


@case("P27", quick=[dict(kind=k, S=s) for k, s in zip(KINDS, (2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 2))], thorough=[dict(kind=k, S=3) for k in KINDS],
      bounds="{S} states, one with any wind speed, any turbulence, wake strength, position of a turbine, hub height and evaluation point; {kind}")
def runs(ctx, kind, S):
    """a dictionary gives the results of the calculation it describes"""
    v, df, curve, lay, pts = inp = inputs(ctx, S)
    d = document(ctx, *inp)
    kw, exp, eng = {}, {}, None
    if kind == "engine":
        d["engine"] = dict(engine_type="NumpyEngine", chunk_size_states=1, chunk_size_points=1)
    elif kind == "engine_pars":
        d["engine"] = dict(engine_type="NoSuchEngine")
        kw["engine_pars"] = dict(engine_type="NumpyEngine", chunk_size_states=1, chunk_size_points=1, verbosity=0)
    elif kind == "args":
        d["algorithm"]["wake_models"] = []
        d["algorithm"]["rotor_model"] = "level10"
        kw.update(wake_models=["W"], rotor_model="centre", wake_frame=None, partial_wakes=None)
    elif kind == "nowakes":
        kw["wake_models"] = []
        exp["wakes"] = []
    elif kind == "pars":
        a, b = ctx.choice("ambient", ((True, True), (False, True), (False, False)))
        d["calc_farm"] = dict(ambient=a)
        d["calc_points"].update(outputs=[FV.AMB_TI, FV.WD if b else FV.WS], ambient=b)
        exp["fkw"], exp["pkw"] = d["calc_farm"], {k: x for k, x in d["calc_points"].items() if k != "points"}
    elif kind == "iterative":
        kw["iterative"] = True
        exp["cls"] = "Iterative"
    elif kind == "norun":
        d["calc_farm"] = dict(run=ctx.choice("farm", (True, False)))
        d["calc_points"]["run"] = False
    if kind not in ("engine", "engine_pars"):
        d["engine"] = dict(engine_type="SingleChunkEngine")
    snap = snapshot(d)
    idict = Dict(d, name="doc")
    if kind == "parts":
        f0 = foxes.WindFarm()
        for x, y, m in ((*XY[0], "A"), (XY[1][0], v["y"], "A"), (*XY[2], "B")):
            f0.add_turbine(foxes.Turbine(xy=ctx.arr([x, y]), turbine_models=[m, "kti"]), verbosity=0)
        kw.update(farm=f0)
        del idict["wind_farm"]
    if kind == "algo":
        a, e = read_dict(idict, verbosity=0)
        e.finalize()
        kw["algo"] = a
        for k in ("states", "model_book", "wind_farm", "algorithm"):
            del idict[k]
    out = run_dict(idict, verbosity=0, **kw)
    ctx.true("engine is closed", foxes.core.get_engine(error=False, default=False) is None)
    if kind == "norun":
        ctx.true("results", len(out) == 3 and (out[0] is not None) == d["calc_farm"]["run"] and out[1] is None and out[2] == [], f"{out}")
        ctx.true("parameters", snapshot(d) == snap)
        if out[0] is None:
            return
    if kind == "twice":
        out = run_dict(idict, verbosity=0)
        unchanged(ctx, idict, snap)
    r, p = direct(ctx, *inp, **exp)
    if kind == "parts":
        r[FC.TNAME] = out[0][FC.TNAME]
    same(ctx, out[0], r)
    if kind != "norun":
        ctx.true("number of results", len(out) == 3, f"{len(out)}")
        same(ctx, out[1], p)
        ctx.true("outputs", out[2] == [], f"{out[2]}")
    unchanged(ctx, d, snap)


@case("P27", quick=[dict(points=p) for p in (False, True)], bounds="one state with any wind speed, one turbine position arbitrary; points: {points}")
def outputs(ctx, points):
    """output functions get the results, their parameters and the labelled results of earlier functions"""
    v, df, curve, lay, pts = inp = inputs(ctx, 1)
    d = document(ctx, *inp, points=points)
    d["engine"] = dict(engine_type="SingleChunkEngine")
    d["outputs"] = [
        dict(output_type="Seen", extra=v["k"], functions=[
            dict(function="mean", variable=FV.P, weight=v["ti"], result_labels=["$m", "_"]),
            dict(function="mean", variable=FV.REWS, result_labels="$r"),
            dict(function="pair", args=[3, "u"], result_labels="$l"),
            dict(function="own", n=v["h"], result_labels="$box"),
            dict(function="pair", a="$r[0]", b="$m"),
            dict(function="pair", a="$l[1]", b="$l"),
        ]),
        dict(object="$box", functions=[dict(function="add", k=v["y"]), dict(function="add")]),
    ] + ([dict(output_type="Points", functions=[dict(function="get")])] if points else []) + [
        dict(output_type="FarmResultsEval", functions=[dict(function="calc_mean_farm_power")])]
    snap = snapshot(d)
    idict = Dict(d, name="doc")
    del Seen.calls[:]
    out = run_dict(idict, verbosity=0)
    ctx.true("number of results", len(out) == (3 if points else 2), f"{len(out)}")
    o, f = out[-1], out[0]
    ctx.true("list of outputs", isinstance(o, list) and len(o) == len(d["outputs"]), f"{type(o)} {len(o)}")
    for (q, res), w in zip(o, d["outputs"]):
        k = "output_type" if "output_type" in w else "object"
        ctx.true("type", q[k] == w[k], f"{q}")
        ctx.true("results of all functions", len(res) == len(w["functions"]), f"{res}")
    r = [res for q, res in o]
    ctx.eq("weighted power", r[0][0][0][0], f[FV.P].to_numpy()[0, 0] * v["ti"])
    ctx.eq("wind speed", r[0][1][0][0], f[FV.REWS].to_numpy()[0, 0])
    ctx.true("arguments", r[0][2] == [3, "u"])
    box = r[0][3]
    ctx.true("objects", isinstance(box, Box) and box.v[1].n_turbines == 3 and box.v[0].farm is box.v[1])
    ctx.eq("parameter", box.v[2], v["h"])
    ctx.true("labelled results", r[0][4][0] is r[0][1][0] and r[0][4][1] is r[0][0][0])
    ctx.true("labelled list", r[0][5][0] == "u" and r[0][5][1] is r[0][2], f"{r[0][5]}")
    ctx.true("calls", [c[:2] for c in Seen.calls] == [("mean", FV.P), ("mean", FV.REWS)] and all(c[3] == {} for c in Seen.calls), f"{Seen.calls}")
    ctx.eq("function of the object", r[1][0][0], v["h"] + v["y"])
    ctx.eq("function of the object, default", r[1][1][0], v["h"] + 1)
    ctx.true("algorithm", r[1][0][1] is box.v[0])
    if points:
        ctx.true("point results", r[2][0][0] is out[1] and r[2][0][1] is f)
    ctx.eq("mean farm power", r[-1][0], sum(f[FV.P].to_numpy()[0, i] for i in range(3)))
    unchanged(ctx, d, snap)
    # the results alone, or with the labelled objects
    idict = Dict(outputs=d["outputs"][:1], name="o")
    del Seen.calls[:]
    q = run_outputs(idict, box.v[0], farm_results=f, verbosity=0)
    ctx.true("list", isinstance(q, list) and len(q) == 1, f"{type(q)}")
    q, lab = run_outputs(idict, box.v[0], farm_results=f, ret_rlabels=True, verbosity=0)
    ctx.true("labels", set(lab) == {"$m", "$r", "$l", "$box"} and lab["$l"] == [3, "u"], f"{list(lab)}")
    q = run_outputs(idict, box.v[0], farm_results=None, verbosity=0)
    ctx.true("without farm results", len(q) == 1 and q[0][1] is None, f"{q}")


ARGS = [
    ([], {}, {}),
    (["-r", "level10", "-w", "W", "V", "-p", "top_hat", "rotor_points", "-f", "yawed"], dict(rotor_model="level10", wake_models=["W", "V"], partial_wakes=["top_hat", "rotor_points"], wake_frame="yawed"), {}),
    (["-e", "numpy", "-n", "3", "-c", "7", "-C", "11"], {}, dict(engine_type="numpy", n_procs=3, chunk_size_states=7, chunk_size_points=11)),
    (["-c", "7", "-it"], dict(iterative=True), dict(engine_type=None, n_procs=None, chunk_size_states=7, chunk_size_points=None)),
    (["-o", "out", "-v", "0"], dict(output_dir="out", verbosity=0), {}),
]


@case("P27", quick=[dict(i=i) for i in range(len(ARGS))], bounds="one wind speed and one step, any values; command line {i}")
def command(ctx, i):
    """the command for yaml files runs the contents of the file with the options"""
    args, kw, ep = ARGS[i]
    tok = lib.Tokens(ctx)
    ws, st = ctx.real("ws", 5, 20), ctx.real("step", 100, 500)
    t = [float(x) for x in tok.ids(ctx.arr([ws, st]))]
    seen = []
    with tempfile.TemporaryDirectory() as tmp:
        fn = os.path.join(tmp, "my.yaml")
        with open(fn, "w") as o:
            o.write(f"# test\nstates:\n  states_type: SingleStateStates\n  ws: {t[0]}\n  wd: 270.0\nwind_farm:\n  layouts:\n    - function: add_row\n      xy_step: [{t[1]}, 0]\nalgorithm: {{algo_type: Downwind, wake_models: [W]}}\n")

        def run(*a, **k):
            seen.append((a, k))

        class AP:
            class ArgumentParser(ymod.argparse.ArgumentParser):
                def parse_args(self, a=None, n=None):
                    return super().parse_args([fn] + args)

        with lib.patch_attr(ymod, "argparse", **{k: x for k, x in vars(AP).items() if k[0] != "_"}):
            old, ymod.run_dict = ymod.run_dict, run
            try:
                ymod.foxes_yaml()
            finally:
                ymod.run_dict = old
        (a,), k = seen[0]
        ctx.true("directory", str(k["input_dir"]) == tmp, f"{k['input_dir']}")
    ctx.true("calls", len(seen) == 1)
    val = lambda x: tok.vals[int(x) - tok.BASE]
    ctx.eq("wind speed", val(a["states"]["ws"]), ws)
    ctx.eq("step", val(a["wind_farm"]["layouts"][0]["xy_step"][0]), st)
    ctx.true("sections", list(a) == ["states", "wind_farm", "algorithm"] and a["algorithm"] == dict(algo_type="Downwind", wake_models=["W"]) and a.name == "my", f"{a}")
    for q in ("rotor_model", "wake_models", "partial_wakes", "wake_frame", "output_dir", "verbosity"):
        ctx.true(q, k[q] == kw.get(q), f"{q}: {k[q]}")
    ctx.true("iterative", bool(k["iterative"]) == kw.get("iterative", False))
    e = k["engine_pars"]
    if ep:
        ctx.true("engine", {q: x for q, x in e.items() if q != "verbosity"} == ep, f"{e}")
    else:
        ctx.true("engine", e is None, f"{e}")
