"""Ambient states"""
import tempfile
import os
import numpy as np
import pandas as pd
import xarray as xr
import foxes
import foxes.variables as FV
import foxes.constants as FC
from foxes.core import VerticalProfile
from foxes.core.data import MData
from foxes.input import states as fs
from symx.runner import case
from . import lib

B = "up to {} states, all symbolic, evaluated for every chunk of consecutive states at {} with symbolic positions"


class P14Linear(VerticalProfile):
    """linear in height"""

    def __init__(self, slope=2):
        super().__init__()
        self.slope = slope

    def input_vars(self):
        return [FV.WS, FV.H]

    def calculate(self, tdata, heights):
        return tdata[FV.WS] + self.slope * (heights - tdata[FV.H])


class Algo(lib.StubAlgo):
    def store_model_data(self, model, idata, force=False):
        self.idata[model.name] = idata

    def del_model_data(self, model):
        self.idata.pop(model.name, None)


def setup(ctx, states, algo=None):
    al = algo or Algo(1, 1, dbook=foxes.StaticData())
    al.states = states
    al.idata = {}
    if not hasattr(al, "farm"):
        al.farm = foxes.WindFarm()
    states.initialize(al)
    al.n_states = states.size()
    al.stash = {}
    states.set_running(al, al.stash)
    return al


def evaluate(ctx, al, states, p, b, e):
    """results for the states b..e of the chunk at points p (n_states, n_targets, n_tpoints, 3)"""
    data, dims = {}, {}
    idx = np.arange(al.n_states)
    for idata in al.idata.values():
        for c, d in idata["coords"].items():
            data[c], dims[c] = np.asarray(d), (c,)
        for v, (dd, d) in idata["data_vars"].items():
            data[v], dims[v] = d, (dd,) if isinstance(dd, str) else tuple(dd)
    data.setdefault(FC.STATE, idx)
    dims[FC.STATE] = (FC.STATE,)
    data = {v: (d[b:e] if len(dims[v]) and dims[v][0] == FC.STATE else d) for v, d in data.items()}
    md = MData(data=data, dims=dims, loop_dims=[FC.STATE], states_i0=b)
    td = lib.tdata(p[b:e])
    fd = lib.fdata({FV.D: lib.filled(ctx, (e - b, 1), ctx.const(100))})
    states.ensure_variables(al, md, fd, td)
    z0 = td[FC.TARGETS].copy()
    m0 = {v: d.copy() for v, d in md.items() if isinstance(d, np.ndarray)}
    r = states.calculate(al, md, fd, td)
    ctx.eq_arr("points unchanged", td[FC.TARGETS], z0)
    if any(_differ(d, m0[v]) for v, d in md.items() if v in m0):
        # whatever the calculation left behind must not matter for the next one
        r = {v: a.copy() for v, a in r.items()}
        t2 = lib.tdata(p[b:e])
        states.ensure_variables(al, md, fd, t2)
        for v, a in states.calculate(al, md, fd, t2).items():
            ctx.eq_arr(f"{v} of a second evaluation", a, r[v])
    ctx.true("variables", set(r) == set(states.output_point_vars(al)), f"{list(r)}")
    for v, a in r.items():
        ctx.true("shape", a.shape == p[b:e].shape[:3], f"{v}: {a.shape}")
    return r, td


def _differ(a, b):
    if a.shape != b.shape:
        return True
    if a.dtype == object:
        return any(x is not y and not (isinstance(x, float) and x == y) for x, y in zip(a.flat, b.flat))
    return bool(np.any((a != b) & ~((a != a) & (b != b)))) if a.dtype.kind == "f" else False


def chunk(ctx, S):
    b = ctx.choice("first", range(S))
    return b, ctx.choice("end", range(b + 1, S + 1))


def check(ctx, r, b, spec, T, P):
    """compares with spec(variable, state, target, point)"""
    for v, a in r.items():
        for s, t, p in np.ndindex(*a.shape):
            w = spec(v, b + s, t, p)
            if v == FV.WD and isinstance(w, tuple):
                ctx.angle_eq(f"{v} value", a[s, t, p], np.rad2deg(np.arctan2(-w[0], -w[1])))
            else:
                ctx.eq(f"{v} value", a[s, t, p], w)


def weights(ctx, td, b, spec):
    w = td[FV.WEIGHT]
    S, T, P = td.n_states, td.n_targets, td.n_tpoints
    ctx.true("weight dims", w.ndim == 3 and tuple(td.dims[FV.WEIGHT]) == (FC.STATE, FC.TARGET, FC.TPOINT))
    w = np.broadcast_to(w, (S, T, P))
    for i in np.ndindex(S, T, P):
        ctx.eq("weight", w[i], spec(b + i[0], i[1], i[2]))


@case("P14", quick=[dict(cls=c, wcol=w, sub=s) for c, w, s in (("StatesTable", "weight", None), ("StatesTable", None, "sel"), ("StatesTable", "freq", "loc"), ("StatesTable", None, "reset"), ("Timeseries", None, None))],
      bounds=B.format(4, "2 targets with 2 points"))
def table(ctx, cls, wcol, sub):
    """values, weights and fixed values of the table row of each state; subsets of the states; profiles see the values of their state and the height of the point"""
    S, T, P = 4, 2, 2
    cols = {n: ctx.reals(n, S, 1, 20) for n in ("ws", FV.WD, FV.TI, "unused")}
    if wcol is not None:
        cols[wcol] = ctx.reals("w", S, 0, 1)
    order = ctx.permutation("cols", 3)
    names = list(cols)
    names = [names[i] for i in order] + names[3:]
    ix = pd.date_range("2020-01-01", periods=S, freq="h") if cls == "Timeseries" else [11, 7, 5, 9]
    df = pd.DataFrame({n: cols[n] for n in names}, index=ix)
    prof = ctx.choice("profile", [None, "dict", "object"])
    kw = dict(profiles={FV.WS: dict(type="P14Linear", slope=3) if prof == "dict" else P14Linear(3)}) if prof else {}
    fixed = {FV.RHO: ctx.real("rho", 1, 2)}
    if prof:
        fixed[FV.H] = ctx.real("H", 50, 100)
    v2c = {FV.WS: "ws"}
    if wcol == "freq":
        v2c[FV.WEIGHT] = "freq"
    rows = list(range(S))
    if sub == "sel":
        rows = kw["states_sel"] = [3, 1]
    elif sub == "loc":
        rows = [1, 3, 0]
        kw["states_loc"] = [df.index[i] for i in rows]
    ovars = [FV.WD, FV.RHO, FV.WS, FV.TI]
    st = getattr(fs, cls)(df, output_vars=ovars, var2col=v2c, fixed_vars=fixed, **kw)
    al = setup(ctx, st)
    if sub == "reset":
        st.unset_running(al, al.stash)
        rows = [2, 0, 3]
        st.reset(al, states_sel=rows)
        al = setup(ctx, st)
    ctx.true("size", st.size() == len(rows))
    p = lib.points(ctx, "p", len(rows), T, P)
    b, e = chunk(ctx, len(rows))
    r, td = evaluate(ctx, al, st, p, b, e)

    def spec(v, s, t, q):
        if v == FV.RHO:
            return fixed[v]
        x = cols["ws" if v == FV.WS else v][rows[s]]
        return x + 3 * (p[s, t, q, 2] - fixed[FV.H]) if v == FV.WS and prof else x

    check(ctx, r, b, spec, T, P)
    weights(ctx, td, b, lambda s, t, q: 1 / ctx.const(len(rows)) if wcol is None else cols[wcol][rows[s]])
    st.unset_running(al, al.stash)
    ctx.true("index", list(st.index()) == [df.index[i] for i in rows], f"{st.index()}")
    ctx.true("source kept", st.data_source is df and list(df.columns) == names)
    # the same states in another calculation
    st.finalize(al)
    al = setup(ctx, st)
    ctx.true("size again", st.size() == len(rows))
    r2, __ = evaluate(ctx, al, st, p, b, e)
    for v in r:
        ctx.eq_arr(v + " again", r2[v], r[v])


@case("P14", quick=[{}], bounds=B.format(2, "2 points"))
def table_profile_only(ctx):
    """a variable that only a profile provides needs no column"""
    S = 2
    cols = {n: ctx.reals(n, S, 1, 20) for n in (FV.WS, FV.H, FV.RHO)}
    order = ctx.permutation("cols", 3)
    df = pd.DataFrame({list(cols)[i]: list(cols.values())[i] for i in order})
    st = fs.StatesTable(df, output_vars=[FV.WS, FV.TI, FV.RHO], profiles={FV.TI: P14Linear(1)})
    al = setup(ctx, st)
    p = lib.points(ctx, "p", S, 1, 2)
    b, e = chunk(ctx, S)
    r, td = evaluate(ctx, al, st, p, b, e)
    check(ctx, r, b, lambda v, s, t, q: cols[FV.WS][s] + p[s, t, q, 2] - cols[FV.H][s] if v == FV.TI else cols[v][s], 1, 2)


@case("P14", quick=[dict(prof=p) for p in (None, "dict", "object")], bounds=B.format(1, "2 targets with 2 points"))
def single(ctx, prof):
    """one uniform state with weight one"""
    v = dict(ws=ctx.real("ws", 1, 20), wd=ctx.real("wd", 0, 360), ti=ctx.real("ti", 0, 1), rho=ctx.real("rho", 1, 2))
    kw = {}
    if prof:
        kw = dict(profiles={FV.WS: dict(type="P14Linear", slope=3) if prof == "dict" else P14Linear(3)}, H=ctx.real("H", 50, 100))
    have = ctx.choice("have", [("ws", "wd", "ti", "rho"), ("wd", "ws"), ("rho", "ws", "ti")])
    st = fs.SingleStateStates(**{k: v[k] for k in have}, **kw)
    p = lib.points(ctx, "p", 1, 2, 2)
    for i in range(2):
        al = setup(ctx, st)
        r, td = evaluate(ctx, al, st, p, 0, 1)
        ctx.true("all", set(r) == {k.upper() for k in have}, f"{list(r)}")
        check(ctx, r, 0, lambda n, s, t, q: v["ws"] + 3 * (p[s, t, q, 2] - kw["H"]) if n == FV.WS and prof else v[n.lower()], 2, 2)
        weights(ctx, td, 0, lambda s, t, q: 1)
        st.unset_running(al, al.stash)
        st.finalize(al)


@case("P14", quick=[{}], bounds=B.format("2x3x2", "2 points"))
def scan(ctx):
    """all combinations of the given values, the last variable runs fastest, all with the same weight"""
    d = {FV.WS: ctx.reals("ws", 2, 1, 20), FV.WD: ctx.reals("wd", 3, 0, 360), FV.TI: ctx.reals("ti", 2, 0, 1)}
    st = fs.ScanStates(d)
    al = setup(ctx, st)
    ctx.true("size", st.size() == 12)
    p = lib.points(ctx, "p", 12, 1, 2)
    b = ctx.choice("first", [0, 5, 7])
    e = ctx.choice("end", [8, 12])
    r, td = evaluate(ctx, al, st, p, b, e)
    ij = [(i, j, k) for i in range(2) for j in range(3) for k in range(2)]
    check(ctx, r, b, lambda v, s, t, q: d[v][ij[s][[FV.WS, FV.WD, FV.TI].index(v)]], 1, 2)
    weights(ctx, td, b, lambda s, t, q: 1 / ctx.const(12))


@case("P14", quick=[dict(norm=n) for n in (True, False)], bounds="tab file of 2 wind speed bins and 2 or 3 sectors, all frequencies and upper bin edges symbolic, read by the real file reader")
def tab(ctx, norm):
    """tab files: bin centres, sector directions, and weights from sector and wind speed frequencies; empty bins are left out"""
    from foxes.utils import tab_files
    nw, ns = 2, ctx.choice("ns", [2, 3])
    tk = lib.Tokens(ctx)
    f = ctx.reals("f", (nw, ns), 0, 700)
    f[:, 1] = ctx.arr([300, 500])
    for j in range(ns):
        ctx.assume(f[0, j] + f[1, j] > 1)
    g = ctx.reals("g", ns, 1, 60)
    w = ctx.empty((nw,))
    w[0] = ctx.real("w0", 0.5, 5)
    w[1] = w[0] + ctx.real("dw", 0.5, 5)
    a = ctx.real("a", 0.8, 1.2)
    # one symbol per file line, as the header is parsed with another function
    ia, ig, iw, iff = tk.ids(np.array([a], dtype=object))[0], tk.ids(g), tk.ids(w), tk.ids(f)
    with tempfile.TemporaryDirectory() as tmp:
        fn = os.path.join(tmp, "x.tab")
        with open(fn, "w") as h:
            h.write(f"Site\n55.0\t8.0 \t100\n{ns} {ia:.0f} 0\n" + "\t".join(f"{x:.0f}" for x in ig) + "\n")
            for i in range(nw):
                h.write(f"{iw[i]:.0f}\t" + "\t".join(f"{x:.0f}" for x in iff[i]) + "\n")
        base = tab_files.np
        with lib.patch_attr(tab_files, "np", genfromtxt=lambda *q, **k: tk.array(np.genfromtxt(*q, **k)), fromstring=lambda *q, **k: tk.array(np.fromstring(*q, **k))):
            st = fs.TabStates(fn, output_vars=[FV.WS, FV.WD, FV.RHO], fixed_vars={FV.RHO: ctx.const(1.2)}, normalize=norm)
            al = setup(ctx, st)
    cells = [(i, j) for i in range(nw) for j in range(ns) if f[i, j] > 0]
    ctx.true("size", st.size() == len(cells), f"{st.size()}")
    if not cells:
        return
    p = lib.points(ctx, "p", len(cells), 1, 1)
    r, td = evaluate(ctx, al, st, p, 0, len(cells))
    wm = [a * w[0] / 2, a * (w[0] + w[1]) / 2]
    check(ctx, r, 0, lambda v, s, t, q: dict(WS=wm[cells[s][0]], WD=cells[s][1] * 360 / ctx.const(ns), RHO=1.2)[v], 1, 1)

    def wspec(s, t, q):
        i, j = cells[s]
        if norm:
            return f[i, j] / (f[0, j] + f[1, j]) * g[j] / sum(g)
        return f[i, j] / 1000 * g[j] / 100

    weights(ctx, td, 0, wspec)


def _interp(h, d, z, clip=False):
    """piecewise linear"""
    if clip and z <= h[0]:
        return d[0]
    if clip and z >= h[-1]:
        return d[-1]
    k = 0
    while k < len(h) - 2 and z > h[k + 1]:
        k += 1
    t = (z - h[k]) / (h[k + 1] - h[k])
    return (1 - t) * d[k] + t * d[k + 1]


def _uv(ws, wd):
    a = np.deg2rad(wd)
    return -ws * np.sin(a), -ws * np.cos(a)


@case("P14", quick=[dict(src=s, wd=w, be=b) for s, w, b in (("pd", "h", True), ("pd", "col", True), ("pd", "fixed", False), ("nc", "h", True), ("nc", "col", False), ("nc", "none", True), ("pd", "wscol", True))],
      bounds=B.format(2, "2 points") + ", 3 heights, one symbolic", budget_s=120)
def multi_height(ctx, src, wd, be):
    """wind vectors and scalars interpolated linearly in height, from the columns or dimensions of their variable; single columns and fixed values at all heights"""
    S, T, P = 2, 1, 2
    hs = [50.0, 100.0, 150.0]
    cols = {}
    ws = ctx.reals("ws", (S, 3), 4, 15)
    ti = ctx.reals("ti", (S, 3), 0.01, 0.4)
    rho = ctx.reals("rho", S, 1, 2)
    w = ctx.reals("w", S, 0, 1)
    dirs = ctx.empty((S, 3))
    dirs[...] = ctx.arr([[30, 40, 60], [350, 10, 100]])
    if wd == "h":
        dirs[0, 1] = ctx.angle("wd", 0, 170)
    elif wd == "wscol":
        ws[:] = ws[:, :1]
    else:
        dirs[...] = dirs[:, :1]
    sub = ctx.choice("sub", [None, [1], [1, 0]])
    rows = sub or [0, 1]
    fixed = {FV.WD: ctx.const(30)} if wd == "fixed" else {}
    ov = [FV.WS, FV.TI, FV.RHO] + ([] if wd == "none" else [FV.WD])
    wcol = ctx.choice("weights", [None, "weight"])
    bkw = {} if be else dict(bounds_error=False)
    if src == "pd":
        for k in ctx.choice("order", [(2, 0, 1), (0, 1, 2)]):
            if wd != "wscol":
                cols[f"wind-{hs[k]:.0f}"] = ws[:, k]
            cols[f"TI-{hs[k]:.0f}"] = ti[:, k]
            if wd in ("h", "wscol"):
                cols[f"WD-{hs[k]:.0f}"] = dirs[:, k]
        if wd == "wscol":
            cols["wind"] = ws[:, 0]
        if wd == "col":
            cols["WD"] = dirs[:, 0]
        cols["RHO"] = rho
        if wcol:
            cols[wcol] = w
        st = fs.MultiHeightStates(pd.DataFrame(cols), output_vars=ov, heights=hs, var2col={FV.WS: "wind"}, fixed_vars=fixed, states_sel=sub, **bkw)
    else:
        dv = {"wind": (("state", "height"), ws), "RHO": (("state",), rho)}
        dv["TI"] = (("state", "height"), ti)
        if wd == "h":
            dv["WD"] = (("state", "height"), dirs)
        elif wd == "col":
            dv["WD"] = (("state",), dirs[:, 0])
        if wcol:
            dv[wcol] = (("state",), w)
        ds = xr.Dataset(coords={"state": np.arange(S), "height": hs}, data_vars=dv)
        st = fs.MultiHeightNCStates(ds, output_vars=ov, var2col={FV.WS: "wind"}, fixed_vars=fixed, states_sel=sub, h_coord="height", **bkw)
    al = setup(ctx, st)
    ctx.true("size", st.size() == len(rows))
    p = lib.points(ctx, "p", len(rows), T, P)
    p[..., 2] = ctx.const(80)
    p[0, 0, 0, 2] = ctx.real("z", 50 if be else 10, 150 if be else 300)
    b, e = chunk(ctx, len(rows))
    r, td = evaluate(ctx, al, st, p, b, e)

    def spec(v, s, t, q):
        s, z = rows[s], p[s, t, q, 2]
        if v == FV.RHO:
            return rho[s]
        if v == FV.TI:
            return _interp(hs, ti[s], z, not be)
        if wd in ("h", "wscol"):
            c = [_uv(ws[s, k], dirs[s, k]) for k in range(3)]
            u, w = (_interp(hs, [x[i] for x in c], z, not be) for i in range(2))
            return (u, w) if v == FV.WD else np.sqrt(u**2 + w**2)
        return dirs[s, 0] if v == FV.WD and wd == "col" else (30 if v == FV.WD else _interp(hs, ws[s], z, not be))

    check(ctx, r, b, spec, T, P)
    weights(ctx, td, b, lambda s, t, q: w[rows[s]] if wcol else 1 / ctx.const(len(rows)))


@case("P14", quick=[{}], bounds=B.format(2, "2 points") + ", 3 heights")
def multi_height_attr(ctx):
    """values given as attribute of the data set"""
    rho = ctx.const(1.125)
    ti = ctx.reals("ti", (2, 3), 0.01, 0.4)
    ds = xr.Dataset(coords={"state": np.arange(2), "height": [50.0, 100.0, 150.0]}, data_vars={FV.TI: (("state", "height"), ti)}, attrs={"rho": 1.125, "other": 2.0})
    st = fs.MultiHeightNCStates(ds, output_vars=[FV.RHO, FV.TI], var2col={FV.RHO: "rho"}, h_coord="height")
    al = setup(ctx, st)
    p = lib.points(ctx, "p", 2, 1, 2, z=(60, 90))
    b, e = chunk(ctx, 2)
    r, __ = evaluate(ctx, al, st, p, b, e)
    check(ctx, r, b, lambda v, s, t, q: rho if v == FV.RHO else _interp([50.0, 100.0, 150.0], ti[s], p[s, t, q, 2]), 1, 2)


@case("P14", quick=[dict(space=s) for s in (None, 30.0)], bounds="wrg file of 4x3 points with 2 sectors, two wind speed bins, frequencies and Weibull scales of one cell symbolic, shape parameter 2, one symbolic point")
def wrg(ctx, space):
    """resource grids: bin centres and sector directions; weights from the frequency and Weibull density at the point, bilinear in the grid"""
    from foxes.utils import wrg_utils
    nx, ny, ns, res = 4, 3, 2, 100
    tk = lib.Tokens(ctx)
    A = ctx.arr((80.0 + np.arange(nx * ny * ns)).reshape(ny, nx, ns).tolist())
    f = ctx.arr((400.0 + 7 * np.arange(nx * ny * ns)).reshape(ny, nx, ns).tolist())
    f[1, 2, :] = ctx.reals("f", ns, 100, 900)
    f[2, 1, :] = ctx.reals("g", ns, 100, 900)
    k = 200
    ia, jf = tk.ids(A), tk.ids(f)
    wsb = ctx.empty((3,))
    wsb[:] = ctx.arr([4, 6, 9])
    with tempfile.TemporaryDirectory() as tmp:
        fn = os.path.join(tmp, "x.wrg")
        with open(fn, "w") as h:
            h.write(f"{nx} {ny} 1000.0 2000.0 {res}\n")
            for j in range(ny):
                for i in range(nx):
                    h.write(f"GridPoint {1000 + i * res} {2000 + j * res} 0 100 9.0 2.0 500 {ns} " + " ".join(f"{jf[j, i, s]:.0f} {ia[j, i, s]:.0f} {k}" for s in range(ns)) + "\n")
        al = Algo(1, 1, dbook=foxes.StaticData())
        al.farm = lib.farm_of(ctx, [(1070.0, 2160.0), (1230.0, 2060.0)])
        with lib.patch_attr(wrg_utils, "pd", read_csv=lambda *q, **kw: tk.frame(pd.read_csv(*q, **kw))):
            st = fs.WRGStates(fn, wsb, fixed_vars={FV.RHO: ctx.const(1.25)}, bounds_extra_space=space)
            setup(ctx, st, al)
    ctx.true("size", st.size() == 4)
    p = lib.points(ctx, "p", 4, 1, 1)
    lo, hi = ((1040, 2030), (1260, 2190)) if space else ((1000, 2000), (1300, 2200))
    x, y = ctx.real("x", lo[0], hi[0]), ctx.real("y", lo[1], hi[1])
    p[:, 0, 0, 0], p[:, 0, 0, 1] = x, y
    b, e = chunk(ctx, 4)
    r, td = evaluate(ctx, al, st, p, b, e)
    cells = [(i, j) for i in range(2) for j in range(ns)]
    wm = [5, 7.5]
    check(ctx, r, b, lambda v, s, t, q: dict(WS=wm[cells[s][0]], WD=180 * cells[s][1], RHO=1.25)[v], 1, 1)

    def wspec(s, t, q):
        i, j = cells[s]
        gx, gy = [1000 + n * res for n in range(nx)], [2000 + n * res for n in range(ny)]
        bil = lambda a: _interp(gx, [_interp(gy, [a[m, n, j] for m in range(ny)], y) for n in range(nx)], x)
        sc = bil(A) / 10
        u = wm[i] / sc
        return bil(f) / 10 * (wsb[i + 1] - wsb[i]) * (2 / sc * u * np.exp(-u**2))

    weights(ctx, td, b, wspec)


def field(ctx, S, wd, full=("WS", "WD", "TI")):
    """dataset with heights 50, 150, y 0, 200, x 0, 100, 300; returns it and spec values"""
    hs, ys, xs = [50.0, 150.0], [0.0, 200.0], [0.0, 100.0, 300.0]
    shp = (S, 2, 2, 3)
    n = np.arange(S * 12).reshape(shp)
    ws = ctx.arr((6 + 0.25 * n).tolist())
    ti = ctx.arr((0.05 + 0.01 * n).tolist())
    ti[0, 1, 0, :] = ctx.reals("ti", 3, 0.01, 0.3)
    ti[-1, 0, 1, :] = ctx.reals("tj", 3, 0.01, 0.3)
    dr = ctx.arr((90.0 * (n % 2)).tolist()) if wd == "vary" else ctx.arr((90.0 + 0 * n).tolist())
    if wd != "vary":
        ws[0, 0, 0, 1:] = ctx.reals("ws", 2, 5, 12)
    return hs, ys, xs, ws, dr, ti


@case("P14", quick=[dict(mode=m, wd=w, form=f) for m, w, f in (("preload", "same", "ds"), ("preload", "vary", "file"), ("lazy", "same", "file"), ("fly", "same", "file"), ("preload", "fixed", "ds"), ("preload", "wsfixed", "ds"), ("preload", "none", "file"))],
      bounds=B.format(3, "1 point") + ", 2 heights, 2x3 grid points, data in up to two files, some of the values symbolic", budget_s=150)
def field_data(ctx, mode, wd, form):
    """wind vectors and scalars interpolated linearly in height, y and x of the data of their state; fewer dimensions mean no dependence"""
    from foxes.input.states import field_data_nc as fm
    S = 3
    hs, ys, xs, ws, dr, ti = field(ctx, S, wd)
    rho = ctx.reals("rho", S, 1, 2)
    kh = ctx.arr([[0.1, 0.2], [0.3, 0.4], [0.5, 0.6]])
    kh[0, 1] = ctx.real("kh", 0, 1)
    ey = ctx.arr((1.0 + np.arange(S * 6)).reshape(S, 2, 3).tolist())
    w = ctx.reals("w", S, 0, 1)
    tr = ctx.choice("order", [False, True])
    d4 = ("Time", "height", "UTMY", "UTMX")
    sw = lambda a: np.swapaxes(a, -1, -2)
    dv = {"ti": ((d4[0], d4[1], d4[3], d4[2]), sw(ti)) if tr else (d4, ti)}
    if wd != "wsfixed":
        dv["WS"] = (d4, ws)
    if wd not in ("fixed", "none"):
        dv["WD"] = (d4, dr)
    dv["RHO"] = (("Time",), rho)
    dv[FV.K] = (("Time", "height"), kh)
    dv["E"] = (("Time", "UTMX", "UTMY"), sw(ey)) if tr else (("Time", "UTMY", "UTMX"), ey)
    dv["w"] = (("Time",), w)
    times = np.array([f"2021-01-01_0{i}:00:00" for i in range(S)])
    fixed = {}
    if wd == "fixed":
        fixed[FV.WD] = ctx.const(90)
    if wd == "wsfixed":
        fixed[FV.WS] = ctx.const(9)
    ov = ([FV.WS, FV.WD] if wd != "none" else []) + [FV.TI, FV.RHO, FV.K, "E", "F"]
    fixed["F"] = ctx.const(3)
    kw = dict(var2ncvar={FV.TI: "ti"}, fixed_vars=fixed, load_mode=mode, bounds_extra_space=195.0)
    wt = ctx.choice("weights", [True, False])
    if wt:
        kw["weight_ncvar"] = "w"
    ds = xr.Dataset(coords={"Time": times, "height": hs, "UTMY": ys, "UTMX": xs}, data_vars=dv)
    al = Algo(1, 1, dbook=foxes.StaticData())
    al.farm = lib.farm_of(ctx, [(40.0, 15.0), (250.0, 25.0)])
    S0 = S
    with tempfile.TemporaryDirectory() as tmp, lib.engine():
        if form == "ds":
            st = fs.FieldDataNC(ds, output_vars=ov, **kw)
            setup(ctx, st, al)
            b, e = chunk(ctx, S)
        else:
            tk = lib.Tokens(ctx)
            enc = {v: (d, tk.ids(a)) for v, (d, a) in dv.items()}
            n = 0
            for i, m in enumerate((2, 1)):
                o = xr.Dataset(coords={"Time": times[n:n + m], "height": hs, "UTMY": ys, "UTMX": xs}, data_vars={v: (d, a[n:n + m]) for v, (d, a) in enc.items()})
                o.to_netcdf(os.path.join(tmp, f"x_{i}.nc"), engine="h5netcdf")
                n += m
            over = dict(open_dataset=lambda *q, **k: tk.dataset(xr.open_dataset(*q, **k)))
            with lib.patch_attr(fm, "xr", **over):
                st = fs.FieldDataNC(os.path.join(tmp, "x_*.nc"), output_vars=ov, **kw)
                setup(ctx, st, al)
                b, e = chunk(ctx, S)
                p, r, td = _field_eval(ctx, al, st, S, b, e)
        if form == "ds":
            p, r, td = _field_eval(ctx, al, st, S, b, e)
    ctx.true("size", st.size() == S)

    def spec(v, s, t, q):
        x, y, z = p[s, t, q]
        in_x = lambda a: _interp(xs, a, x)
        in_yx = lambda a: _interp(ys, [in_x(a[j]) for j in range(2)], y)
        tri = lambda a: _interp(hs, [in_yx(a[k]) for k in range(2)], z)
        if v in (FV.WS, FV.WD) and wd == "vary":
            c = np.vectorize(_uv, otypes=[object, object])(ws[s], dr[s])
            u, n = tri(c[0]), tri(c[1])
            return (u, n) if v == FV.WD else np.sqrt(u**2 + n**2)
        return {FV.WS: lambda: 9 if wd == "wsfixed" else tri(ws[s]), FV.WD: lambda: 90, FV.TI: lambda: tri(ti[s]), FV.RHO: lambda: rho[s],
                FV.K: lambda: _interp(hs, kh[s], z), "E": lambda: in_yx(ey[s]), "F": lambda: 3}[v]()

    check(ctx, r, b, spec, 1, 1)
    weights(ctx, td, b, lambda s, t, q: w[s] if wt else 1 / ctx.const(S))


def _field_eval(ctx, al, st, S, b, e):
    p = lib.points(ctx, "p", S, 1, 1)
    p[..., 0], p[..., 1], p[..., 2] = ctx.const(150), ctx.const(60), ctx.const(70)
    f = ctx.choice("coord", [0, 1, 2])
    p[b, 0, 0, f] = ctx.real("c", *[(0, 300), (0, 200), (50, 150)][f])
    r, td = evaluate(ctx, al, st, p, b, e)
    return p, r, td


@case("P14", quick=[dict(kind=k) for k in ("frame", "dict", "file", "ustar", "tke", "deltas")], bounds=B.format(3, "2 targets with 2 points"))
def point_models(ctx, kind):
    """states followed by point models: given data per state, turbulence from friction velocity or kinetic energy, wake deltas"""
    from foxes.models import point_models as pm
    S, T, P = 3, 2, 2
    cols = {n: ctx.reals(n, S, 1, 20) for n in (FV.WS, FV.USTAR, FV.TKE)}
    ov = [FV.WS, FV.USTAR, FV.TKE]
    st0 = fs.StatesTable(pd.DataFrame(cols), output_vars=ov)
    p = lib.points(ctx, "p", S, T, P)
    b, e = chunk(ctx, S)
    g = {n: ctx.reals(n, S, 0, 5) for n in ("a", "b")}
    if kind == "ustar":
        mx = ctx.choice("max", [None, 1])
        mx = mx and ctx.real("max_ti", 0.1, 3)
        m = pm.Ustar2TI(max_ti=mx)

        def spec(v, s, t, q):
            if v != FV.TI:
                return cols[v][s]
            x = cols[FV.USTAR][s] / ctx.const(0.41) / cols[FV.WS][s]
            return x if mx is None or x <= mx else mx
    elif kind == "tke":
        m = pm.TKE2TI()
        spec = lambda v, s, t, q: cols[v][s] if v != FV.TI else np.sqrt(cols[FV.TKE][s] * 1.5) / cols[FV.WS][s]
    elif kind == "deltas":
        nz = ctx.choice("normalize", [False, True])
        m = pm.WakeDeltas([FV.WS], normalize=nz)
        amb = ctx.reals("amb", (S, T, P), 1, 20)
        td = lib.tdata(p, tvars={FV.WS: ctx.reals("u", (S, T, P), 1, 20), FV.AMB_WS: amb})
        r = m.calculate(lib.StubAlgo(), lib.mdata(S), None, td)
        ctx.true("name", list(r) == ["DELTA_WS"])
        d = td[FV.WS] - amb
        ctx.eq_arr("difference", r["DELTA_WS"], d / amb if nz else d)
        ctx.eq_arr("ambient unchanged", td[FV.AMB_WS], amb)
        return
    else:
        src = pd.DataFrame({"b": g["b"], "x": g["a"] + 1, "A": g["a"]}) if kind != "dict" else {"A": g["a"][0], "b": g["b"][0]}
        m = pm.SetUniformData(src, output_vars=["A", "b"]) if kind != "frame" else pm.SetUniformData(src, output_vars=["q", "b"], var2col={"q": "A"})
        i = (lambda s: 0) if kind == "dict" else (lambda s: s)
        spec = lambda v, s, t, q: cols[v][s] if v in cols else (g["b"][i(s)] if v == "b" else g["a"][i(s)])
        if kind == "file":
            tk = lib.Tokens(ctx)
            with tempfile.TemporaryDirectory() as tmp:
                fn = os.path.join(tmp, "x.csv")
                pd.DataFrame({k: tk.ids(src[k].to_numpy()) for k in src}).to_csv(fn)
                m.data_source = fn
                from foxes.utils import pandas_utils as ph
                with lib.patch_attr(ph, "pd", read_csv=lambda *q, **k: tk.frame(pd.read_csv(*q, **k))):
                    st = st0 + m
                    al = setup(ctx, st)
    if kind != "file":
        st = st0 + m
        al = setup(ctx, st)
    ctx.true("size", st.size() == S)
    r, td = evaluate(ctx, al, st, p, b, e)
    ctx.true("variables of both", set(r) == set(ov) | set(m.output_point_vars(al)))
    check(ctx, r, b, spec, T, P)
    weights(ctx, td, b, lambda s, t, q: 1 / ctx.const(S))
