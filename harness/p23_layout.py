"""wind farm layouts: rows, grids, rings, random, files; bounds; layout output"""
import json
import os
import tempfile
import types
import numpy as np
import pandas as pd
import foxes
import foxes.variables as FV
import foxes.utils.random_xy as rxy
from foxes.input import farm_layout as FL
from foxes.output import FarmLayoutOutput
from symx.runner import case
from . import lib

# the real readers: a replay may run while the outer, symbolic run has replaced them
READ_JSON, READ_CSV = json.load, pd.read_csv
NAMES = ["north", "east", "T0", "b-12", "x", "y", "z", "q"]


def check(ctx, t, xy, index, name, models=("T",), D=None, H=None, sel=None):
    for k in range(2):
        ctx.eq("position", t.xy[k], xy[k])
    ctx.true("index", t.index == index, f"{t.index} {index}")
    ctx.true("name", t.name == name, f"{t.name} {name}")
    ctx.true("models", t.models == list(models), f"{t.models} {models}")
    ctx.true("selections", len(t.mstates_sel) == len(t.models))
    for v, w in ((t.D, D), (t.H, H)):
        if w is None:
            ctx.true("no value", v is None, f"{v}")
        else:
            ctx.eq("value", v, w)


def farm_with(n0):
    f = foxes.WindFarm()
    for i in range(n0):
        f.add_turbine(foxes.Turbine(xy=[1.0 * i, 7.0], turbine_models=["T"]), verbosity=0)
    return f


@case("P23", quick=[dict(n=n, n0=m, ids=i, names=a) for n, m, i, a in ((1, 0, False, False), (4, 0, False, True), (3, 2, True, False), (5, 1, True, True))], thorough=[dict(n=n, n0=m, ids=i, names=a) for n in range(1, 8) for m in range(3) for i in (False, True) for a in (False, True)],
      bounds="{n} turbines after {n0} others, any base point and step")
def row(ctx, n, n0, ids, names):
    """turbines of a row are at base + i * step"""
    b, s = ctx.reals("b", (2,), -1000, 1000), ctx.reals("s", (2,), -1000, 1000)
    b0, s0 = b.copy(), s.copy()
    H, D = ctx.real("H", 60, 160), ctx.real("D", 60, 160)
    f = farm_with(n0)
    I = [11, 5, 0, 8, 3, 99, 2] if ids else None
    models = ["T", "u"]
    FL.add_row(f, b, s, n, indices=I, names=NAMES if names else None, verbosity=0, turbine_models=models, H=H, D=D)
    ctx.true("number of turbines", f.n_turbines == n0 + n)
    xy = f.xy_array
    for i in range(n):
        ix = I[i] if ids else n0 + i
        p = [b0[k] + i * s0[k] for k in range(2)]
        check(ctx, f.turbines[n0 + i], p, ix, NAMES[i] if names else f"T{ix}", ["T", "u"], D, H)
        for k in range(2):
            ctx.eq("xy_array", xy[n0 + i, k], p[k])
    f.turbines[n0].add_model("w")
    f.turbines[n0].insert_model(0, "v", "sel")
    ctx.true("insert", f.turbines[n0].models == ["v", "T", "u", "w"] and f.turbines[n0].mstates_sel == ["sel", None, None, None])
    ctx.true("models of the other turbines", all(t.models == ["T", "u"] for t in f.turbines[n0 + 1:]) and models == ["T", "u"])
    ctx.true("names", f.turbine_names == [t.name for t in f.turbines] and len(f.turbine_names) == n0 + n)


@case("P23", quick=[dict(n=n, n0=m, ids=i) for n, m, i in (((2, 3), 0, False), ((3, 1), 1, True), ((1, 4), 0, True))], thorough=[dict(n=(a, b), n0=m, ids=i) for a in range(1, 4) for b in range(1, 4) for m in range(2) for i in (False, True)],
      bounds="{n} turbines after {n0} others, any base point and step vectors")
def grid(ctx, n, n0, ids):
    """turbines of a grid are at base + i * step0 + j * step1, the second step first"""
    b, s = ctx.reals("b", (2,), -1000, 1000), ctx.reals("s", (2, 2), -1000, 1000)
    f = farm_with(n0)
    N = n[0] * n[1]
    I = list(range(40, 40 - N, -1)) if ids else None
    A = [f"n{i}" for i in range(N)] if ids else None
    FL.add_grid(f, b, s, n, indices=I, names=A, verbosity=0, turbine_models=["T"])
    ctx.true("number of turbines", f.n_turbines == n0 + N)
    c = 0
    for i in range(n[0]):
        for j in range(n[1]):
            ix = I[c] if ids else n0 + c
            check(ctx, f.turbines[n0 + c], [b[k] + i * s[0, k] + j * s[1, k] for k in range(2)], ix, A[c] if ids else f"T{ix}")
            c += 1


@case("P23", quick=[dict(n=n, offset=o) for n, o in ((4, None), (7, None), (3, 30), (8, 45.0), (5, 10), (6, "array"), (12, 90))], thorough=[dict(n=n, offset=o) for n in range(1, 13) for o in (None, 30, 45.0, 90, "array")],
      bounds="{n} turbines, offset {offset}, any base point and distance")
def ring(ctx, n, offset):
    """turbines of a ring are equally distributed on a circle of circumference n * dist, starting at the offset from north"""
    b = ctx.reals("b", (2,), -1000, 1000)
    d = ctx.real("d", 1, 1000)
    f = farm_with(1)
    kw = {}
    o = 0.0
    if offset == "array":
        o = 30.0
        kw["offset_deg"] = np.array([30.0])
        keep = kw["offset_deg"].copy()
    elif offset is not None:
        o = offset
        kw["offset_deg"] = offset
    b0 = b.copy()
    FL.add_ring(f, b, d, n, verbosity=0, turbine_models=["T"], **kw)
    ctx.true("number of turbines", f.n_turbines == n + 1)
    import math
    for i in range(n):
        a = math.radians(o + i * 360 / n)
        R = n * d / (2 * math.pi)
        t = f.turbines[1 + i]
        for k, c in enumerate((math.sin(a), math.cos(a))):
            ctx.between("position", t.xy[k] - b0[k] - R * c, -1e-6 * d - 1e-6, 1e-6 * d + 1e-6)
        ctx.true("name", t.name == f"T{i + 1}" and t.index == i + 1 and t.models == ["T"])
    if offset == "array":
        ctx.eq("offset unchanged", kw["offset_deg"][0], keep[0])


IDX = {"range": [0, 1, 2], "filtered": [2, 5, 7], "names": ["a", "b", "c"], "twice": [0, 1, 0]}


@case("P23", quick=[dict(index=i, opt=o) for i, o in (("range", "plain"), ("range", "shift"), ("range", "full"), ("filtered", "ids"), ("filtered", "full"), ("names", "plain"), ("names", "full"), ("twice", "full"), ("twice", "ids"), ("range", "defaults"), ("range", "extra"))],
      thorough=[dict(index=i, opt=o) for i in IDX for o in ("plain", "full", "ids", "defaults", "extra")], bounds="three rows with index {index}, any positions, heights and diameters")
def data_frame(ctx, index, opt):
    """turbines from a data frame have the values of their row"""
    x, y, h, d = (ctx.reals(v, (3,), 50, 1000) for v in "xyhd")
    H, D = ctx.real("H0", 60, 160), ctx.real("D0", 60, 160)
    df = pd.DataFrame({"E": list(x), "N": list(y), "hub": list(h), "dia": list(d), "x": [0.0] * 3, "y": [0.0] * 3,
                       "id": [30, 10, 20], "nm": ["u", "v", "w"], "t": ["A", "B", "A"], "m1": ["a1", "a2", "a3"], "m2": ["b1", "b2", "b3"], "p": ["c1", "c2", "c3"]}, index=IDX[index])
    c0 = list(df.columns)
    f = farm_with(1)
    kw = dict(col_x="E", col_y="N", verbosity=0)
    if opt == "full":
        kw.update(col_name="nm", col_H="hub", col_D="dia", col_id="id", cols_models_pre=["m1", "m2"], col_turbine_type="t", cols_models_post=["p"], turbine_models=["M"])
    elif opt == "ids":
        kw.update(turbine_ids=[7, 8, 9], col_id="id", turbine_base_name="W", H=H, D=D, col_turbine_type="t")
    elif opt == "shift":
        kw.update(turbine_base_name_count_shift=True)
    elif opt == "defaults":
        kw.update(col_H="nothing", H=H, D=D, col_D="dia", cols_models_pre=["m2"])
    elif opt == "extra":
        kw.update(turbine_models=["M", "N"], models_state_sel=["s", "t"], H=H)
    FL.add_from_df(f, df, **kw)
    ctx.true("number of turbines", f.n_turbines == 4)
    for i in range(3):
        l = IDX[index][i]
        e = dict(index=i + 1, name=f"T{l}", models=[], D=None, H=None)
        if opt == "full":
            e.update(index=[30, 10, 20][i], name="uvw"[i], models=[f"a{i+1}", f"b{i+1}", "ABA"[i], "M", f"c{i+1}"], D=d[i], H=h[i])
        elif opt == "ids":
            e.update(index=7 + i, name=f"W{l}", H=H, D=D, models=["ABA"[i]])
        elif opt == "shift":
            e.update(name=f"T{l + 1}")
        elif opt == "defaults":
            e.update(H=H, D=d[i], models=[f"b{i+1}"])
        elif opt == "extra":
            e.update(H=H, models=["M", "N"])
            ctx.true("state selection", f.turbines[1 + i].mstates_sel == ["s", "t"])
        check(ctx, f.turbines[1 + i], (x[i], y[i]), **e)
    ctx.true("data unchanged", list(df.columns) == c0 and list(df.index) == IDX[index])


@case("P23", quick=[dict(kind=k) for k in ("csv", "csv.gz", "csv.bz2", "csv.zip", "path.csv.gz", "json", "index")], bounds="three turbines, any positions, heights and diameters, file type {kind}")
def files(ctx, kind):
    """turbines from a file are those of its rows or entries"""
    x, y, h, d = (ctx.reals(v, (3,), 50, 1000) for v in "xyhd")
    tok = lib.Tokens(ctx)
    f = farm_with(1)
    with tempfile.TemporaryDirectory() as tmp:
        if kind == "json":
            p = os.path.join(tmp, "farm.json")
            t = [[float(i) for i in tok.ids(v)] for v in (x, y, h, d)]
            js = {"My farm": {"A": dict(UTMX=t[0][0], UTMY=t[1][0], id=12, H=t[2][0]), "B": dict(UTMX=t[0][1], UTMY=t[1][1], turbine_models=["q"], D=t[3][1]), "C": dict(UTMX=t[0][2], UTMY=t[1][2])}}
            with open(p, "w") as o:
                json.dump(js, o)
            old = json.load

            def load(o, *a, **k):
                def rep(v):
                    if isinstance(v, dict):
                        return {q: rep(w) for q, w in v.items()}
                    if isinstance(v, (int, float)) and tok.BASE <= v < tok.BASE + len(tok.vals):
                        return tok.vals[int(v) - tok.BASE]
                    return v
                return rep(READ_JSON(o, *a, **k))

            json.load = load
            H0 = ctx.real("H0", 50, 100)
            try:
                FL.add_from_file(f, p, turbine_models=["z"], H=H0, verbosity=0)
            finally:
                json.load = old
            ctx.true("name of the farm", f.name == "My farm")
            ctx.true("number of turbines", f.n_turbines == 4)
            check(ctx, f.turbines[1], (x[0], y[0]), 12, "A", ["z"], None, h[0])
            check(ctx, f.turbines[2], (x[1], y[1]), 2, "B", ["q", "z"], d[1], H0)
            check(ctx, f.turbines[3], (x[2], y[2]), 3, "C", ["z"], None, H0)
            return
        sfx = kind.split("path.")[-1] if kind != "index" else "csv"
        p = os.path.join(tmp, "farm." + sfx)
        pd.DataFrame({"nm": ["u", "v", "w"], "x": tok.ids(x), "y": tok.ids(y), "h": tok.ids(h), "t": ["A", "B", "A"]}).to_csv(p, index=False)
        if kind.startswith("path"):
            from pathlib import Path
            p = Path(p)
        old = pd.read_csv

        def read(*a, **k):
            df = READ_CSV(*a, **k)
            return pd.DataFrame({c: (tok.array(df[c].to_numpy()) if df[c].dtype.kind in "fi" else df[c].to_numpy()) for c in df.columns}, index=df.index)

        pd.read_csv = read
        try:
            if kind == "index":
                FL.add_from_file(f, p, col_index="nm", col_H="h", col_turbine_type="t", verbosity=0)
            else:
                FL.add_from_file(f, p, col_name="nm", col_H="h", col_turbine_type="t", verbosity=0)
        finally:
            pd.read_csv = old
    ctx.true("number of turbines", f.n_turbines == 4)
    for i in range(3):
        check(ctx, f.turbines[1 + i], (x[i], y[i]), i + 1, "uvw"[i] if kind != "index" else "T" + "uvw"[i], ["ABA"[i]], None, h[i])


class Draws:
    """any random numbers in the requested range, the last ones such that the loop ends"""

    def __init__(self, ctx, n, rounds):
        self.ctx, self.seeds, self.n = ctx, [], 0
        self.u = ctx.reals("u", (rounds, n, 2), 0, 1)
        self.rounds = rounds

    def seed(self, s=None):
        self.seeds.append(s)

    def uniform(self, lo, hi, size):
        if self.n >= self.rounds:
            self.ctx.assume(False)
        a = self.ctx.empty(size)
        for i in range(size[0]):
            for k in range(2):
                a[i, k] = lo + (hi - lo) * self.u[self.n, i, k]
        self.n += 1
        return a


@case("P23", quick=[dict(n=2, rounds=2, seed=None), dict(n=2, rounds=1, seed=0), dict(n=2, rounds=2, seed=7)], thorough=[dict(n=3, rounds=1, seed=7), dict(n=2, rounds=3, seed=3), dict(n=3, rounds=2, seed=0)], bounds="{n} turbines, any random numbers, up to {rounds} draws", budget_s=120)
def random(ctx, n, rounds, seed):
    """turbines of a random layout keep their distance, and have the requested centre"""
    c = ctx.reals("c", (2,), -1000, 1000)
    r = Draws(ctx, n, rounds)
    f = farm_with(1)
    old = rxy.np.random

    class NP:
        random = r

        def __getattr__(self, k):
            return getattr(base, k)

    base = rxy.np
    rxy.np = NP()
    try:
        FL.add_random(f, n, 500.0, centre=c, seed=seed, verbosity=0, turbine_models=["T"])
    finally:
        rxy.np = base
    ctx.true("seed", r.seeds == ([] if seed is None else [seed]), f"{r.seeds}")
    ctx.true("number of turbines", f.n_turbines == n + 1)
    T = f.turbines[1:]
    for i in range(n):
        for j in range(i):
            ctx.le("distance", 500.0**2, sum((T[i].xy[k] - T[j].xy[k]) ** 2 for k in range(2)))
    for k in range(2):
        ctx.eq("centre", sum(t.xy[k] for t in T) / n, c[k])


@case("P23", quick=[dict(extra=e, own=o) for e in (None, "m", "2.5D") for o in (False, True)], bounds="two turbines with any positions, diameters from turbine type or turbine ({own})")
def bounds(ctx, extra, own):
    """bounds, rotor diameters and hub heights of a wind farm"""
    xy = ctx.reals("xy", (2, 2), -1000, 1000)
    Ds, Hs = ctx.reals("D", (2,), 60, 160), ctx.reals("H", (2,), 60, 160)
    tD, tH = ctx.real("tD", 60, 160), ctx.real("tH", 60, 160)
    f = foxes.WindFarm()
    for i in range(2):
        f.add_turbine(foxes.Turbine(xy=xy[i], D=Ds[i] if own and i == 1 else None, H=Hs[i] if own and i == 0 else None), verbosity=0)
    tt = types.SimpleNamespace(D=tD, H=tH)
    algo = types.SimpleNamespace(farm_controller=types.SimpleNamespace(turbine_types=[tt, tt]))
    D, H = f.get_rotor_diameters(algo), f.get_hub_heights(algo)
    eD = [tD, Ds[1] if own else tD]
    eH = [Hs[0] if own else tH, tH]
    for i in range(2):
        ctx.eq("rotor diameter", D[i], eD[i])
        ctx.eq("hub height", H[i], eH[i])
    e = ctx.real("e", 0, 100) if extra == "m" else extra
    x0 = xy.copy()
    for rep in range(2):
        lo, hi = f.get_xy_bounds(extra_space=e, algo=algo)
        for k in range(2):
            m = [2.5 * eD[i] if extra == "2.5D" else e if extra == "m" else 0 for i in range(2)]
            a = [xy[i, k] - m[i] for i in range(2)]
            b = [xy[i, k] + m[i] for i in range(2)]
            ctx.eq("minimum", lo[k], a[0] if a[0] <= a[1] else a[1])
            ctx.eq("maximum", hi[k], b[0] if b[0] >= b[1] else b[1])
    ctx.eq_arr("positions unchanged", np.stack([t.xy for t in f.turbines]), x0)


@case("P23", quick=[dict(k=k) for k in ("farm", "results")], bounds="three turbines, any positions and heights, from {k}")
def output(ctx, k):
    """layout output: positions, heights, ids and names of all turbines"""
    import xarray as xr
    xy, H = ctx.reals("xy", (3, 2), -1000, 1000), ctx.reals("H", (3,), 60, 160)
    f = foxes.WindFarm(name="F")
    for i in range(3):
        f.add_turbine(foxes.Turbine(xy=xy[i], H=H[i], D=ctx.const(100 + i), index=[4, np.int64(9), 2][i], name=NAMES[i] if i < 2 else np.int64(77)), verbosity=0)
    if k == "results":
        r = ctx.empty((2, 3, 3))
        for s in range(2):
            for t in range(3):
                r[s, t] = [ctx.const(10 * s + t), ctx.const(20 * s - t), ctx.const(90 + s + t)]
        r[1, 2, 0] = xy[0, 0]
        fres = xr.Dataset(coords={"state": [0, 1], "turbine": [0, 1, 2]}, data_vars={v: (("state", "turbine"), r[:, :, j]) for j, v in enumerate((FV.X, FV.Y, FV.H))})
        o = FarmLayoutOutput(f, fres, from_results=True, results_state=1)
        e = r[1]
    else:
        o = FarmLayoutOutput(f)
        e = [[xy[i, 0], xy[i, 1], H[i]] for i in range(3)]
    d = o.get_layout_data()
    j = o.get_layout_dict()
    ctx.true("shape", d.shape == (3, 3) and list(j) == ["F"] and list(j["F"]) == ["north", "east", "77"], f"{j}")
    for i, (n, w) in enumerate(j["F"].items()):
        for c in range(3):
            ctx.eq("layout data", d[i, c], e[i][c])
        ctx.eq("x", w["UTMX"], e[i][0])
        ctx.eq("y", w["UTMY"], e[i][1])
        ctx.true("id", w["id"] == [4, 9, 2][i] and w["name"] == n)
    seen = {}
    with tempfile.TemporaryDirectory() as tmp:
        o.out_dir = type(o.out_dir)(tmp)

        def savetxt(fn, data, **kw):
            seen["xyh"] = (fn, data)

        def dump(data, fn, **kw):
            json.dumps({"F": {a: {p: float(0) if p.startswith("UTM") else q for p, q in w.items()} for a, w in data["F"].items()}})
            seen["json"] = (fn.name, data)

        mod = __import__("foxes.output.farm_layout", fromlist=["x"])
        with lib.patch_attr(mod, "np", savetxt=savetxt, round=lambda x, n=0: x), lib.patch_attr(mod, "json", dump=dump):
            o.write_xyh()
            o.write_json()
            old = pd.DataFrame.to_csv
            pd.DataFrame.to_csv = lambda s, fn=None, *a, **kw: seen.update(csv=(fn, s))
            try:
                o.write_csv()
            finally:
                pd.DataFrame.to_csv = old
        for q in ("xyh", "json", "csv"):
            ctx.true("file in the output directory", str(seen[q][0]) == os.path.join(tmp, "F." + q), f"{seen[q][0]}")
    for i in range(3):
        for c in range(3):
            ctx.eq("xyh", seen["xyh"][1][i, c], e[i][c])
            ctx.eq("csv", seen["csv"][1]["xyh"[c]].iloc[i], e[i][c])
        ctx.eq("csv D", seen["csv"][1]["D"].iloc[i], 100 + i)
        ctx.true("csv name", str(seen["csv"][1]["name"].iloc[i]) == ["north", "east", "77"][i])
    ctx.true("json", seen["json"][1] == j)
