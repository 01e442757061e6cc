"""grids and slice data"""
import types
import sys
import numpy as np
import pandas as pd
import xarray as xr
import foxes
import foxes.variables as FV
import foxes.constants as FC
from foxes.output import grids
from symx.runner import case
from . import lib

DIR = {270: (1, 0), 90: (-1, 0), 0: (0, -1), 180: (0, 1)}
XYH = [(0.0, 10.0, 100.0), (300.0, -40.0, 110.0), (-100.0, 60.0, 90.0)]
STATES = [3, 5, 8]


def results(ctx, S=3, which=None):
    """farm results, one turbine coordinate of one state is any"""
    v = ctx.empty((S, 3, 3))
    for s in range(S):
        for t in range(3):
            for k in range(3):
                v[s, t, k] = ctx.const(XYH[t][k] + (5 * s if k == 2 else 0))
    if which is not None:
        s, t, k, lo, hi = which
        v[s, t, k] = ctx.real("coordinate", lo, hi)
    return xr.Dataset(coords={FC.STATE: STATES[:S], FC.TURBINE: [0, 1, 2]},
                      data_vars={n: ((FC.STATE, FC.TURBINE), v[:, :, k]) for k, n in enumerate((FV.X, FV.Y, FV.H))}), v


def value(ctx, v, si, p):
    """point result of state number si"""
    if v in (FV.WD, FV.AMB_WD):
        return ctx.const([350.0, 30.0, 10.0][si])
    a, b, c, d = {FV.WS: (9, 1, -2, 3), FV.TI: (1, 2, 1, -1), FV.AMB_WS: (11, 0, 0, 1)}[v]
    return a + si + (b * p[0] + c * p[1] + d * p[2]) / 1024


class Algo:
    """calculates given functions of the state and the point"""

    def __init__(self, ctx, fres, weights, point_weights=False, vars=(FV.WS, FV.TI, FV.AMB_WS)):
        self.ctx, self.fres, self.w, self.vars, self.pw = ctx, fres, weights, vars, point_weights
        self.verbosity = 0
        self.calls = []

    def calc_points(self, fres, points, states_sel=None, states_isel=None, **kw):
        ids = STATES[:fres.sizes[FC.STATE]]
        if states_sel is not None:
            ids = list(states_sel)
        if states_isel is not None:
            ids = [ids[i] for i in states_isel]
        self.ctx.true("points of the selected states", points.shape[0] == len(ids) and points.shape[2] == 3 and fres is self.fres, f"{points.shape}")
        self.calls.append((ids, points))
        P = points.shape[1]
        out = {}
        for v in self.vars:
            d = self.ctx.empty((len(ids), P))
            for n, i in enumerate(ids):
                for p in range(P):
                    d[n, p] = value(self.ctx, v, STATES.index(i), points[n, p])
            out[v] = ((FC.STATE, FC.POINT), d)
        w = self.ctx.empty((len(ids), P) if self.pw else (len(ids),))
        for n, i in enumerate(ids):
            w[n] = self.w[STATES.index(i)]
        out[FV.WEIGHT] = ((FC.STATE, FC.POINT) if self.pw else (FC.STATE,), w)
        return xr.Dataset(coords={FC.STATE: ids}, data_vars=out)


def axes(k, direction):
    """unit vectors of the coordinates of a grid"""
    n = DIR[direction] if k != "xy" else (1, 0)
    return dict(x=(n[0], n[1], 0), y=(-n[1], n[0], 0), z=(0, 0, 1))


def split(k):
    c = [x for x in "xyz" if x not in k][0]
    return k[0], k[1], c


def grid(ctx, k, fres, direction, **kw):
    f = getattr(grids, "get_grid_" + k)
    if k != "xy":
        kw["x_direction"] = direction
    g = f(fres, **kw)
    return dict(zip("xyz", g[:3])), g[3]


def proj(p, e):
    return sum(a * b for a, b in zip(p, e))


def margins(ctx, k, v, e, name, space):
    vals = [proj(v[s, t], e) for s in range(v.shape[0]) for t in range(3)]
    lo, hi = vals[0], vals[0]
    for x in vals[1:]:
        lo = x if x < lo else lo
        hi = x if x > hi else hi
    return lo - space, hi + space


GQ = [dict(k=k, direction=d, mode=m, sel=s, which=w) for k, d, m, s, w in (
    ("xy", 270, "n", None, (1, 1, 0, 50, 700)), ("xy", 270, "res", None, (0, 2, 1, -200, 250)), ("xy", 270, "n", "isel", (2, 0, 2, 60, 150)), ("xy", 270, "given", "sel", (1, 1, 0, 50, 700)),
    ("xz", 270, "res", None, (1, 1, 0, 50, 700)), ("xz", 180, "n", None, (1, 1, 1, -300, 300)), ("xz", 90, "n", "sel", (2, 2, 2, 60, 150)), ("xz", 0, "given", None, (1, 1, 0, 50, 700)),
    ("yz", 270, "n", None, (1, 1, 1, -300, 300)), ("yz", 0, "n", "isel", (0, 1, 0, 50, 700)), ("yz", 90, "res", None, (2, 2, 1, -200, 250)), ("yz", 180, "given", None, (1, 1, 0, 50, 700)))]


@case("P22", quick=GQ, thorough=[dict(k=k, direction=d, mode=m, sel=s, which=(i, t, c, *r)) for k in ("xy", "xz", "yz") for d in (DIR if k != "xy" else (270,)) for m in ("n", "res", "given") for s in (None, "sel", "isel") for i in (0, 1) for t in (1, 2) for c, r in ((0, (-300, 700)), (1, (-200, 250)), (2, (60, 150)))],
      bounds="{k} grid with x direction {direction}, size by {mode}; 3 states, 3 turbines, one coordinate anywhere in {which}", budget_s=120)
def grid_points(ctx, k, direction, mode, sel, which):
    """the grid covers all turbines of the selected states with the given margin, at their mean height or depth; its points are those of the returned coordinates"""
    fres, v = results(ctx, which=which)
    vv = v
    kw = {}
    if sel == "isel":
        kw["states_isel"], vv = [0, 2], v[[0, 2]]
    elif sel == "sel":
        kw["states_sel"], vv = [5, 8], v[[1, 2]]
    a, b, c = split(k)
    E = axes(k, direction)
    na, nb = 3, 4
    space = {a: 100.0, b: 50.0}
    kw.update({a + "space": ctx.const(100.0), b + "space": ctx.const(50.0)})
    lim = {}
    for n in (a, b):
        lo, hi = margins(ctx, k, vv, E[n], n, space[n])
        if n == "z":
            # the ground by default
            lo = 0
        lim[n] = [lo, hi]
    lo, hi = margins(ctx, k, vv, E[c], c, 0)
    mid = (lo + hi) / 2
    if mode == "given":
        lim[a][0] = kw[a + "min"] = ctx.real("amin", -2000, -1000)
        lim[b][1] = kw[b + "max"] = ctx.real("bmax", 1000, 2000)
        mid = kw[c] = ctx.real("c", -50, 50)
        lim[b][0] = kw[b + "min"] = ctx.const(-60.0)
    if mode == "res":
        kw["resolution"] = 250.0
    else:
        kw["n_img_points"] = (na, nb)
    pos, g = grid(ctx, k, fres, direction, **kw)
    if mode == "res":
        for n in (a, b):
            d = lim[n][1] - lim[n][0] - (len(pos[n]) - 1) * 250
            ctx.le("resolution", d, 125, tol=1e-6)
            ctx.le("resolution", -d, 125, tol=1e-6)
        na, nb = len(pos[a]), len(pos[b])
    ctx.true("shape", len(pos[a]) == na and len(pos[b]) == nb and g.shape == (len(vv), na * nb, 3), f"{g.shape}")
    for n, m in ((a, na), (b, nb)):
        for i in range(m):
            ctx.eq("position " + n, pos[n][i], lim[n][0] + (lim[n][1] - lim[n][0]) * i / (m - 1), tol=1e-6)
    ctx.eq("plane", pos[c], mid, tol=1e-6)
    for s in range(len(vv)):
        for i in range(na):
            for j in range(nb):
                for d in range(3):
                    ctx.eq("point", g[s, i * nb + j, d], pos[a][i] * E[a][d] + pos[b][j] * E[b][d] + mid * E[c][d], tol=1e-6)
    for n, m in zip((FV.X, FV.Y, FV.H), range(3)):
        ctx.eq_arr("farm results", fres[n].to_numpy(), v[:, :, m])


def weights(ctx):
    w = ctx.empty((3,))
    w[0], w[1], w[2] = ctx.const(0.25), ctx.real("w", 0.125, 0.5), ctx.const(0.25)
    return w


def at(data, fmt, v, n, i, j, a, b, na, nb, states, mean, variables, lm):
    """value of a slice at grid position i, j in state n"""
    if fmt == "numpy":
        vi = variables.index(v)
        return data[i, j, vi] if mean else data[n, i, j, vi]
    v = lm.get(v, v)
    A, B, s = lm.get(a, a), lm.get(b, b), lm.get(FC.STATE, FC.STATE)
    if fmt == "pandas":
        return data[v].loc[(i, j) if mean else (states[n], i, j)]
    d = data[v].transpose(*(([] if mean else [s]) + [A, B])).to_numpy()
    return d[i, j] if mean else d[n, i, j]


SQ = [dict(k=k, fmt=f, mean=m, opt=o) for k, f, m, o in (
    ("xy", "xarray", True, "plain"), ("xy", "numpy", True, "isel"), ("xy", "pandas", True, "pweights"), ("xy", "xarray", False, "label"), ("xy", "numpy", False, "norm"), ("xy", "pandas", False, "sel"),
    ("xz", "xarray", True, "label"), ("xz", "numpy", True, "norm"), ("xz", "pandas", True, "sel"), ("xz", "xarray", False, "isel"), ("xz", "numpy", False, "clip"), ("xz", "pandas", False, "label"),
    ("yz", "xarray", True, "sel"), ("yz", "numpy", True, "clip"), ("yz", "pandas", True, "label"), ("yz", "xarray", False, "norm"), ("yz", "numpy", False, "plain"), ("yz", "pandas", False, "norm"))]


@case("P22", quick=SQ, thorough=[dict(k=k, fmt=f, mean=m, opt=o) for k in ("xy", "xz", "yz") for f in ("numpy", "pandas", "xarray") for m in (True, False) for o in ("plain", "isel", "sel", "pweights", "label", "norm", "clip")],
      bounds="{k} slice in format {fmt}; 3 states, any weights; point results are linear functions of the position", budget_s=120)
def slice_data(ctx, k, fmt, mean, opt):
    """each value of a slice is the result at its grid point: of each state, or the weighted mean of all selected states"""
    fres, _ = results(ctx)
    w = weights(ctx)
    al = Algo(ctx, fres, w, point_weights=opt == "pweights")
    out = foxes.output.SliceData(al, fres, verbosity_delta=0)
    a, b, c = split(k)
    na, nb = 3, 2
    sts = [0, 1, 2]
    kw = {c: ctx.real("c", 50, 150)}
    lm, nrm, clip = {}, {}, {}
    given = opt != "plain" or fmt == "numpy"
    variables = [FV.TI, FV.WS]
    if given:
        kw["variables"] = list(variables)
    else:
        variables = [FV.WS, FV.TI, FV.AMB_WS]
    if opt == "isel":
        kw["states_isel"], sts = [2, 0], [2, 0]
    elif opt == "sel":
        kw["states_sel"], sts = [5], [1]
    elif opt == "label":
        lm = kw["label_map"] = {FV.WS: "wind", a: "first", b: "second", FC.STATE: "time", c: "third"}
    elif opt == "norm":
        nrm = {a: 2.0, b: 4.0, c: 8.0}
        kw.update({f"normalize_{n}": x for n, x in nrm.items()})
        kw["normalize_v"] = {FV.WS: 2.0}
    elif opt == "clip":
        clip = dict(vmin={FV.WS: ctx.const(9.2)}, vmax={FV.TI: ctx.const(2.0)})
        kw.update(clip)
    E = axes(k, 270)
    f = getattr(out, f"get_{'mean' if mean else 'states'}_data_{k}")
    lims = {a + "min": ctx.const(-128.0), a + "max": ctx.const(128.0), b + "min": ctx.const(64.0), b + "max": ctx.const(192.0)}
    pa, pb = [-128.0, 0.0, 128.0], [64.0, 192.0]
    for rep in range(2):
        rs = ctx.choice("ret", [True, False]) if rep == 0 else False
        data = f(n_img_points=(na, nb), data_format=fmt, ret_states=rs, ret_grid=rs, **lims, **kw)
        if rs:
            data, states, gd = data
            ctx.true("states", list(states) == [STATES[i] for i in sts])
            ctx.eq_arr("grid", gd[3], al.calls[-1][1])
        if fmt == "xarray":
            for n, p in ((a, pa), (b, pb)):
                ctx.eq_arr("coordinate", data[lm.get(n, n)].to_numpy(), ctx.arr([x / nrm.get(n, 1) for x in p]), tol=1e-9)
            ctx.eq("plane", data.attrs[lm.get(c, c)], kw[c] / nrm.get(c, 1), tol=1e-6)
            ctx.true("variables", set(data.data_vars) == {lm.get(v, v) for v in variables}, f"{list(data.data_vars)}")
            if not mean:
                ctx.true("states", list(data[lm.get(FC.STATE, FC.STATE)].to_numpy()) == [STATES[i] for i in sts])
        elif fmt == "pandas":
            ctx.true("index", list(data.index.names) == ([] if mean else [lm.get(FC.STATE, FC.STATE)]) + [lm.get(a, a), lm.get(b, b)])
        else:
            ctx.true("shape", data.shape == (() if mean else (len(sts),)) + (na, nb, len(variables)))
        for i in range(na):
            for j in range(nb):
                p = [pa[i] * E[a][d] + pb[j] * E[b][d] + kw[c] * E[c][d] for d in range(3)]
                for v in variables:
                    vals = [value(ctx, v, s, p) for s in sts]
                    if mean:
                        tw = sum(w[s] for s in sts)
                        vals = [sum(w[s] * x for s, x in zip(sts, vals)) / tw]
                    for n, x in enumerate(vals):
                        if opt == "norm" and v == FV.WS:
                            x = x / 2
                        if opt == "clip":
                            if v == FV.WS:
                                x = x if x > 9.2 else 9.2
                            else:
                                x = x if x < 2 else 2
                        ctx.eq(v, at(data, fmt, v, n, i, j, a, b, na, nb, [STATES[q] for q in sts], mean, variables, lm), x, tol=1e-6)


@case("P22", quick=[dict(isel=None), dict(isel=[0, 1])], bounds="3 states with winds from 350, 30 and 10 degrees and given weights")
def mean_direction(ctx, isel):
    """the mean wind direction is the direction of the mean unit vector"""
    fres, _ = results(ctx)
    w = ctx.arr([0.25, 0.25, 0.5])
    al = Algo(ctx, fres, w, vars=(FV.WD, FV.AMB_WD))
    out = foxes.output.SliceData(al, fres, verbosity_delta=0)
    ds = out.get_mean_data_xy(n_img_points=(2, 2), states_isel=isel, z=ctx.real("z", 50, 150))
    for v in (FV.WD, FV.AMB_WD):
        for x in ds[v].to_numpy().flat:
            # symmetric about 10 degrees
            ctx.angle_eq("mean of " + v, x, 10, tol=1e-6)


def slice_dims(k, mean):
    """the order of the dimensions"""
    c = split(k)[2]
    if mean:
        return (c,) + {"xy": ("y", "x"), "xz": ("z", "x"), "yz": ("z", "y")}[k]
    return (FC.STATE, "z", "y", "x")


@case("P22", quick=[dict(k=k, mean=m) for k in ("xy", "xz", "yz") for m in (True, False)], bounds="two {k} slices; 3 states, any weights and second slice position")
def slices(ctx, k, mean):
    """several slices: each is the one of its own position"""
    fres, _ = results(ctx)
    w = weights(ctx)
    al = Algo(ctx, fres, w)
    out = foxes.output.SlicesData(al, fres, verbosity_delta=0)
    a, b, c = split(k)
    E = axes(k, 270)
    cp = [ctx.real("c", 20, 60), ctx.const(90.0)]
    lims = {a + "min": ctx.const(-128.0), a + "max": ctx.const(128.0), b + "min": ctx.const(64.0), b + "max": ctx.const(192.0)}
    f = getattr(out, f"get_{'mean' if mean else 'states'}_data_{k}")
    ds = f(cp, n_img_points=(3, 2), variables=[FV.WS], **lims)
    ctx.true("dimensions", ds[FV.WS].dims == slice_dims(k, mean), f"{ds[FV.WS].dims}")
    ctx.eq_arr("positions", ds[c].to_numpy(), ctx.arr([0, 0]) + cp)
    d = ds[FV.WS].transpose(*([] if mean else [FC.STATE]), c, a, b).to_numpy()
    for n in range(2):
        for i, x in enumerate((-128.0, 0.0, 128.0)):
            for j, y in enumerate((64.0, 192.0)):
                p = [x * E[a][q] + y * E[b][q] + cp[n] * E[c][q] for q in range(3)]
                vals = [value(ctx, FV.WS, s, p) for s in range(3)]
                if mean:
                    ctx.eq("mean", d[n, i, j], sum(u * v for u, v in zip(w, vals)) / sum(w), tol=1e-6)
                else:
                    for s in range(3):
                        ctx.eq("value", d[s, n, i, j], vals[s], tol=1e-6)
    # the file has all slices, with the requested names
    m = sys.modules["foxes.output.slice_data"]
    files, old = [], m.write_nc
    m.write_nc = lambda d, fpath, **kw: files.append((str(fpath), d, kw))
    lm = {FV.WS: "wind", a: "first", c: "third", FC.STATE: "time"}
    try:
        d2 = f(cp, n_img_points=(3, 2), variables=[FV.WS], to_file="s.nc", write_pars=dict(complevel=3), label_map=lm, **lims)
    finally:
        m.write_nc = old
    ctx.true("one file", len(files) == 1 and files[0][0].endswith("s.nc") and files[0][2].get("complevel") == 3, f"{files}")
    for x in (d2, files[0][1]):
        ctx.true("names", list(x.data_vars) == ["wind"] and x["wind"].dims == tuple(lm.get(q, q) for q in slice_dims(k, mean)), f"{x}")
        ctx.eq_arr("positions", x["third"].to_numpy(), ctx.arr([0, 0]) + cp)
        ctx.eq_arr("values", x["wind"].to_numpy(), ds[FV.WS].to_numpy())


@case("P22", quick=[dict(k=k, mean=m, S=s) for k, m, s in (("xy", False, 3), ("xz", True, 3), ("yz", "weights", 3), ("xy", False, 1), ("yz", False, 3))], bounds="{k} grid, {S} states, any plane position and weights")
def data2xr(ctx, k, mean, S):
    """grid data from point results"""
    fres, _ = results(ctx, S)
    w = weights(ctx)
    a, b, c = split(k)
    E = axes(k, 270)
    cp = ctx.real("c", 50, 150)
    pos, g = grid(ctx, k, fres, 270, n_img_points=(3, 2), **{c: cp, a + "min": ctx.const(-128.0), a + "max": ctx.const(128.0), b + "min": ctx.const(64.0), b + "max": ctx.const(192.0)})
    r = Algo(ctx, fres, w).calc_points(fres, g)
    given = ctx.choice("given", [True, False])
    ds = grids.data2xr(pos["x"], pos["y"], pos["z"], r, vars=[FV.WS] if given else None, state_mean=w if mean == "weights" else mean)
    ctx.eq("plane", ds.attrs[c], cp, tol=1e-6)
    d = ds[FV.WS].transpose(*([] if mean else [FC.STATE]), a, b).to_numpy()
    for i, x in enumerate((-128.0, 0.0, 128.0)):
        for j, y in enumerate((64.0, 192.0)):
            p = [x * E[a][q] + y * E[b][q] + cp * E[c][q] for q in range(3)]
            vals = [value(ctx, FV.WS, s, p) for s in range(S)]
            if mean == "weights":
                ctx.eq("mean", d[i, j], sum(u * v for u, v in zip(w, vals)), tol=1e-6)
            elif mean:
                ctx.eq("mean", d[i, j], sum(vals) / 3, tol=1e-6)
            else:
                for s in range(S):
                    ctx.eq("value", d[s, i, j], vals[s], tol=1e-6)
