"""Evaluation of farm and point results"""
import os
import tempfile
import numpy as np
import pandas as pd
import xarray as xr
import foxes
import foxes.variables as FV
import foxes.constants as FC
from symx.runner import case
from . import lib

ST = (FC.STATE, FC.TURBINE)


def index_of(kind, S):
    return {"int": np.arange(S), "ids": np.arange(S)[::-1] * 7 + 3,
            "time": pd.date_range("2020-01-01 22:00", periods=S, freq="30min").to_numpy()}[kind]


def results(ctx, S, T, wdims, index="int", lo=0, hi=5000, vars=(FV.P, FV.AMB_P), names=False):
    """farm results with symbolic data"""
    d = {v: (ST, ctx.reals(v, (S, T), lo, hi)) for v in vars}
    w = ctx.reals("w", (S,) if wdims == 1 else (S, T), 0, 1, lo_open=True)
    for t in range(1 if wdims == 1 else T):
        c = w if wdims == 1 else w[:, t]
        tot = 0
        for i in range(S):
            tot = tot + c[i]
        ctx.assume(tot == 1)
    d[FV.WEIGHT] = (ST[:wdims], w)
    d[FC.TNAME] = ((FC.TURBINE,), np.array([f"name{(T - t) % T}" for t in range(T)]))
    r = xr.Dataset(coords={FC.STATE: index_of(index, S), FC.TURBINE: np.arange(T)}, data_vars=d)
    W = lib.filled(ctx, (S, T), 0)
    for s, t in np.ndindex(S, T):
        W[s, t] = w[s] if wdims == 1 else w[s, t]
    return r, {v: d[v][1] for v in vars}, W


def isums(it):
    s = 0
    for x in it:
        s = s + x
    return s


def spec(op, x, w=None):
    x = list(x)
    if op == "weights":
        return isums(a * b for a, b in zip(x, w))
    if op == "sum":
        return isums(x)
    if op == "mean_no_weights":
        return isums(x) / len(x)
    m = x[0]
    for a in x[1:]:
        m = np.minimum(m, a) if op == "min" else np.maximum(m, a)
    return m


OPS = ["weights", "mean_no_weights", "sum", "min", "max"]


@case("P19", quick=[dict(S=3, T=2, wdims=w) for w in (1, 2)], thorough=[dict(S=4, T=3, wdims=w) for w in (1, 2)],
      bounds="{S} states and {T} turbines, all values; weights per state or per state and turbine")
def reductions(ctx, S, T, wdims):
    """reduction over the states or turbines gives the documented statistic of each variable"""
    index = ctx.choice("index", ["int", "ids", "time"])
    r, d, W = results(ctx, S, T, wdims, index)
    keep = {v: a.copy() for v, a in d.items()}
    e = foxes.output.FarmResultsEval(r)
    o1, o2 = ctx.choice("op", [(OPS[i], OPS[(i + 2) % 5]) for i in range(5)])
    ops = {FV.P: o1, FV.AMB_P: o2}
    a = e.reduce_states(ops)
    ctx.true("turbines", list(a.index) == list(range(T)) and set(a.columns) == set(ops))
    for v, op in ops.items():
        for t in range(T):
            ctx.eq("states " + op, a[v].to_numpy()[t], spec(op, d[v][:, t], W[:, t]))
    ops = {v: o for v, o in ops.items() if o != "weights"}
    b = e.reduce_turbines(ops)
    ctx.true("states", list(b.index) == list(r[FC.STATE].to_numpy()))
    for v, op in ops.items():
        for s in range(S):
            ctx.eq("turbines " + op, b[v].to_numpy()[s], spec(op, d[v][s]))
    c = e.reduce_all({v: (o1 if v == FV.P else o2) for v in ops}, ops)
    for v, op in ops.items():
        so = o1 if v == FV.P else o2
        ctx.eq("all " + op, c[v], spec(op, [spec(so, d[v][:, t], W[:, t]) for t in range(T)]))
    for v in keep:
        ctx.eq_arr("data unchanged", r[v].to_numpy(), keep[v])


@case("P19", quick=[dict(S=3, T=2, wdims=w) for w in (1, 2)], thorough=[dict(S=4, T=3, wdims=w) for w in (1, 2)],
      bounds="{S} states and {T} turbines, all values; weights per state or per state and turbine")
def statistics(ctx, S, T, wdims):
    """means, sums and deviations over states, turbines and both"""
    r, d, W = results(ctx, S, T, wdims)
    e = foxes.output.FarmResultsEval(r)
    vs = [FV.AMB_P, FV.P]
    for nm, op, kw in (("calc_states_mean", "weights", {}), ("calc_states_mean", "mean_no_weights", dict(use_weights=False)), ("calc_states_sum", "sum", {})):
        a = getattr(e, nm)(vs, **kw)
        for v in vs:
            for t in range(T):
                ctx.eq(nm, a[v].to_numpy()[t], spec(op, d[v][:, t], W[:, t]))
    a = e.calc_states_mean(FV.P)
    ctx.true("one variable", list(a.columns) == [FV.P])
    for nm, op in (("calc_turbine_mean", "mean_no_weights"), ("calc_turbine_sum", "sum")):
        a = getattr(e, nm)(vs)
        for v in vs:
            for s in range(S):
                ctx.eq(nm, a[v].to_numpy()[s], spec(op, d[v][s]))
    a = e.calc_states_std([FV.P])
    for t in range(T):
        x = d[FV.P][:, t]
        m = isums(x) / S
        y = a[FV.P].to_numpy()[t]
        ctx.le("std", 0, y)
        ctx.eq("std", y * y, isums((k - m) * (k - m) for k in x) / S)
    a, b = e.calc_farm_mean(vs), e.calc_farm_sum(vs)
    for v in vs:
        ctx.eq("calc_farm_mean", a[v], isums(spec("weights", d[v][:, t], W[:, t]) for t in range(T)) / T)
        ctx.eq("calc_farm_sum", b[v], isums(d[v].reshape(-1)))
    for amb, v in ((False, FV.P), (True, FV.AMB_P)):
        ctx.eq("calc_mean_farm_power", e.calc_mean_farm_power(ambient=amb), isums(spec("weights", d[v][:, t], W[:, t]) for t in range(T)))


@case("P19", quick=[dict(S=3, T=2, wdims=w) for w in (1, 2)],
      bounds="{S} states and {T} turbines, any of the values of one variable invalid")
def invalid(ctx, S, T, wdims):
    """weighted sums leave out states with invalid values and rescale the weights of the others"""
    r, d, W = results(ctx, S, T, wdims)
    e = foxes.output.FarmResultsEval(r)
    x, y = d[FV.P].copy(), d[FV.AMB_P]
    bad = [tuple(divmod(i, T)) for i in range(S * T) if ctx.bool(f"nan{i}")] if S * T <= 6 else []
    ok = [s for s in range(S) if all((s, t) not in bad for t in range(T))]
    if not ok:
        return
    for i in bad:
        x[i] = np.nan
    rhs = ctx.choice("rhs", ["t", "s", ""])
    a = e.weinsum(rhs, x, FV.AMB_P)
    tot = [isums(W[s, t] for s in ok) for t in range(T)]

    def f(s, t):
        return x[s, t] * y[s, t] * W[s, t] / tot[t]

    if rhs == "t":
        for t in range(T):
            ctx.eq("sum over states", a[t], isums(f(s, t) for s in ok))
    elif rhs == "s":
        ctx.true("states", len(a) == len(ok))
        for i, s in enumerate(ok):
            ctx.eq("sum over turbines", a[i], isums(f(s, t) for t in range(T)))
    else:
        ctx.eq("sum", a if np.ndim(a) == 0 else a[()], isums(f(s, t) for s in ok for t in range(T)))
    ctx.eq_arr("weights unchanged", r[FV.WEIGHT].to_numpy(), W if wdims == 2 else W[:, 0])
    with ctx.raises("invalid results", AssertionError):
        r[FV.P] = (ST, x if bad else np.full((S, T), np.nan))
        e.reduce_states({FV.P: ctx.choice("op", OPS)})


class _Algo:
    pass


@case("P19", quick=[dict(wdims=w, index=i) for w in (1, 2) for i in ("ids", "time")],
      bounds="3 states (or times), 2 turbines of different power units, all values and durations")
def energy(ctx, wdims, index):
    """energy yield per turbine and farm; capacity; efficiency"""
    S, T = 3, 2
    r, d, W = results(ctx, S, T, wdims, index)
    e = foxes.output.FarmResultsEval(r)
    units = [FC.kW, FC.MW]
    src = ctx.choice("units", ["algo", "P_unit_W"])
    pn = [ctx.real("pn0", 1000, 9000), ctx.real("pn1", 1, 9)]
    if src == "algo":
        al = _Algo()
        al.farm_controller = _Algo()
        al.farm_controller.turbine_types = [lib.turbine_type(ctx, P_nominal=p, P_unit=u) for p, u in zip(pn, units)]
        kw, kc = dict(algo=al), dict(algo=al)
        U = [1000, 1000000]
    else:
        u = ctx.real("unit", 1, 10 ** 6)
        kw, kc = dict(P_unit_W=u), dict(P_nom=pn)
        U = [u, u]
    amb = ctx.choice("ambient", [False, True])
    ann = ctx.choice("annual", [False, True])
    v, vo = (FV.AMB_P, FV.AMB_YLD) if amb else (FV.P, FV.YLD)
    if index == "time":
        dt = ctx.choice("delta_t", [None, np.timedelta64(90, "m")])
        hours = 1.5 if dt is None else 2.5
        if dt is not None:
            kw["delta_t"] = dt
        with ctx.raises("hours of times", KeyError):
            e.calc_turbine_yield(annual=ann, ambient=amb, hours=3, **kw)
    else:
        hours = ctx.choice("hours", [None, 1])
        if hours is not None:
            hours = kw["hours"] = ctx.real("h", 1, 9000)
        elif not ann:
            with ctx.raises("hours missing", ValueError):
                e.calc_turbine_yield(annual=ann, ambient=amb, **kw)
            return
    y = e.calc_turbine_yield(annual=ann, ambient=amb, **kw)
    ctx.true("columns", list(y.columns) == [vo], f"{list(y.columns)}")
    want = [spec("weights", d[v][:, t], W[:, t]) * U[t] * (8760 if ann else hours) / 10 ** 9 for t in range(T)]
    for t in range(T):
        ctx.eq("turbine yield", y[vo].to_numpy()[t], want[t])
    tot = isums(want)
    ctx.eq("farm yield of turbine yields", e.calc_farm_yield(turbine_yield=y), tot)
    pu = ctx.real("uncert", 0, 0.5)
    f = e.calc_farm_yield(power_uncert=pu, annual=ann, ambient=amb, **kw)
    for n, x, c in zip(("P50", "P75", "P90"), f, (0, 0.675, 1.282)):
        ctx.eq(n, x, tot * (1 - c * pu))
    e.add_capacity(ambient=amb, verbosity=0, **kc)
    c = e.results[FV.AMB_CAP if amb else FV.CAP]
    ctx.true("dims", c.dims == ST)
    for s, t in np.ndindex(S, T):
        ctx.eq("capacity", c.to_numpy()[s, t] * pn[t], d[v][s, t])


@case("P19", quick=[dict(wdims=w) for w in (1, 2)], bounds="2 states, 2 turbines, all power values")
def efficiency(ctx, wdims):
    """efficiency is power over ambient power, zero without power, never above one"""
    S, T = 2, 2
    r, d, W = results(ctx, S, T, wdims)
    e = foxes.output.FarmResultsEval(r)
    P, A = d[FV.P], d[FV.AMB_P]
    low = ctx.choice("case", [0, 1, 2])
    for i in np.ndindex(S, T):
        if i == (0, 1) and low == 1:
            ctx.assume(P[i] == 0)
        elif i == (0, 1) and low == 2:
            ctx.assume(A[i] == 0)
            ctx.assume(P[i] == 0)
        else:
            ctx.assume(P[i] >= 1)
            ctx.assume(A[i] >= 1)
    e.add_efficiency(verbosity=0)
    a = e.results[FV.EFF].to_numpy()
    for i in np.ndindex(S, T):
        ctx.between("range", a[i], 0, 1)
        if i == (0, 1) and low:
            ctx.eq("without power", a[i], 0)
        else:
            ctx.eq("efficiency", a[i], np.minimum(P[i] / A[i], 1))
    f = e.calc_farm_efficiency()
    tot = [isums(x[s, t] * W[s, t] for s, t in np.ndindex(S, T)) for x in (P, A)]
    ctx.eq("farm efficiency", f, np.minimum(tot[0] / tot[1], 1))


def sector(wd, n):
    """index of the sector, its lower bound included"""
    d = 360 / n
    for i in range(1, n):
        if wd >= (i - 0.5) * d and wd < (i + 0.5) * d:
            return i
    return 0


def wsbin(ws, b):
    for i in range(len(b) - 1):
        if ws >= b[i] and (ws < b[i + 1] or (i == len(b) - 2 and ws <= b[i + 1])):
            return i
    return None


def rose_results(ctx, S, T, wdims, focus, dim):
    """wind data at 'focus' symbolic, fixed elsewhere"""
    wd = lib.filled(ctx, (S, T), 100)
    ws = lib.filled(ctx, (S, T), 7)
    for s in range(S):
        for t in range(T):
            wd[s, t], ws[s, t] = ctx.const([10, 95, 200, 350][(2 * s + t) % 4]), ctx.const([3, 7, 12][(s + t) % 3])
    wd[focus] = ctx.real("wd", 0, 360, hi_open=True)
    ws[focus] = ctx.real("ws", 0, 20)
    wdm = (FC.STATE, dim)[:wdims]
    w = ctx.reals("w", (S, T)[:wdims], 0.01, 1)
    r = xr.Dataset(coords={FC.STATE: np.arange(S)}, data_vars={
        FV.AMB_WD: ((FC.STATE, dim), wd), FV.AMB_REWS: ((FC.STATE, dim), ws), FV.P: ((FC.STATE, dim), ctx.reals("P", (S, T), 0, 100)),
        FV.WEIGHT: (wdm, w)})
    W = [w[s] if wdims == 1 else w[s, focus[1]] for s in range(S)]
    return r, wd, ws, W


@case("P19", quick=[dict(n=4, dim=d, wdims=w) for d in ("turbine", "point") for w in (1, 2)] + [dict(n=5, dim="turbine", wdims=1)],
      bounds="3 states, 2 turbines or points, {n} sectors, any wind direction and speed of one state")
def rose(ctx, n, dim, wdims):
    """wind rose frequencies: share of the states in each sector and wind speed bin, in per cent"""
    S, T = 3, 2
    k = ctx.choice("turbine", [0, 1])
    dimn = FC.TURBINE if dim == "turbine" else FC.POINT
    r, wd, ws, W = rose_results(ctx, S, T, wdims, (1, k), dimn)
    inf = ctx.choice("inf", [False, True])
    bins = [2, 6, 12]
    # the wind speed of the fixed states is in some bin only with infinite upper limit
    o = foxes.output.RosePlotOutput(**{("farm_results" if dim == "turbine" else "point_results"): r})
    a = o.get_data(n, FV.AMB_REWS, bins, add_inf=inf, **{dim: k})
    b = bins + [np.inf] if inf else bins
    f = a["frequency"].to_numpy()
    ctx.true("shape", a["frequency"].dims == (FV.AMB_WD, FV.AMB_REWS) and f.shape == (n, len(b) - 1))
    want = lib.filled(ctx, f.shape, 0)
    for s in range(S):
        i, j = sector(wd[s, k], n), wsbin(ws[s, k], b)
        if j is not None:
            want[i, j] = want[i, j] + 100 * W[s]
    ctx.eq_arr("frequency", f, want)
    for i in range(n):
        ctx.eq("sector centre", a[FV.AMB_WD].to_numpy()[i], i * 360 / n)
        ctx.eq("sector minimum", a[f"bin_min_{FV.AMB_WD}"].to_numpy()[i], (i - 0.5) * 360 / n)
        ctx.eq("sector maximum", a[f"bin_max_{FV.AMB_WD}"].to_numpy()[i], (i + 0.5) * 360 / n)
    ctx.eq_arr("data unchanged", r[FV.AMB_WD].to_numpy(), wd)


@case("P19", quick=[dict(n=4, con=c) for c in ("weights", "mean_no_weights", "sum_no_weights")],
      bounds="3 states, 2 turbines, {n} sectors, any wind direction and speed of one state")
def rose_bins(ctx, n, con):
    """statistics of a variable in each sector and wind speed bin"""
    S, T = 3, 2
    k = ctx.choice("turbine", [0, 1])
    r, wd, ws, W = rose_results(ctx, S, T, ctx.choice("wdims", [1, 2]), (1, k), FC.TURBINE)
    bins = [2, 6, 15]
    o = foxes.output.WindRoseBinPlot(r)
    a = o.get_data(FV.P, bins, wd_sectors=n, turbine=k, contraction=con)
    z = a[FV.P].to_numpy()
    P = r[FV.P].to_numpy()
    cells = {}
    for s in range(S):
        i, j = sector(wd[s, k], n), wsbin(ws[s, k], bins)
        cells.setdefault((i, j), []).append(s)
    for i, j in np.ndindex(n, len(bins) - 1):
        ss = cells.get((i, j), [])
        if not ss and con != "sum_no_weights":
            ctx.true("empty bin", bool(np.isnan(z[i, j])), f"{z[i, j]}")
        elif con == "weights":
            ctx.eq("weighted mean", z[i, j] * isums(W[s] for s in ss), isums(W[s] * P[s, k] for s in ss))
        else:
            x = isums(P[s, k] for s in ss)
            ctx.eq(con, z[i, j], x / len(ss) if con == "mean_no_weights" else x)


class _PAlgo:
    """returns data that depends on the points"""

    def __init__(self, n, extra):
        self.n_states, self.extra = n, extra

    def calc_points(self, fr, pts, *a, **k):
        self.got = pts
        d = {FV.WS: ((FC.STATE, FC.POINT), pts[..., 0] + 2 * pts[..., 1] + 3 * pts[..., 2])}
        if self.extra:
            d[FV.WEIGHT] = ((FC.STATE,), fr[FV.WEIGHT].to_numpy())
        return xr.Dataset(coords={FC.STATE: fr[FC.STATE].to_numpy()}, data_vars=d)


class capture:
    """collects what is written"""

    def __init__(self, module, name):
        self.m, self.n, self.got = module, name, []

    def __enter__(self):
        self.old = getattr(self.m, self.n)
        setattr(self.m, self.n, self.write)
        return self.got

    def write(self, ds, fpath, **kw):
        self.got.append((ds, fpath, kw))

    def __exit__(self, *a):
        setattr(self.m, self.n, self.old)
        return False


@case("P19", quick=[dict(wdims=w) for w in (1, 2)], bounds="3 states, 2 turbines, 2 points, all positions and weights")
def point_means(ctx, wdims):
    """point results at the given points, and their weighted mean over the states; file contents"""
    from foxes.output import calc_points as mod
    S, T, N = 3, 2, 2
    r, d, W = results(ctx, S, T, wdims, "ids")
    al = _PAlgo(S, wdims == 1)
    per_state = ctx.choice("points", [False, True])
    p = ctx.reals("p", (S, N, 3) if per_state else (N, 3), -1000, 1000)
    mean = ctx.choice("mean", [False, True])
    k = ctx.choice("weight_turbine", [0, 1])
    o = foxes.output.PointCalculator(al, r)
    file = ctx.choice("file", [None, "x.nc"])
    with capture(mod, "write_nc") as got:
        q = o.calculate(p, states_mean=mean, weight_turbine=k, to_file=file, write_vars=[FV.WS] if file else None)
    P = p if per_state else np.stack([p] * S)
    ctx.true("shape", al.got.shape == (S, N, 3))
    ctx.eq_arr("points", al.got, P)
    val = lambda s, n: P[s, n, 0] + 2 * P[s, n, 1] + 3 * P[s, n, 2]
    a = q[FV.WS].to_numpy()
    ctx.true("dims", q[FV.WS].dims == ((FC.POINT,) if mean else (FC.STATE, FC.POINT)), f"{q[FV.WS].dims}")
    for n in range(N):
        if mean:
            ctx.eq("mean over states", a[n], isums(W[s, k] * val(s, n) for s in range(S)))
        else:
            for s in range(S):
                ctx.eq("results", a[s, n], val(s, n))
    ctx.true("files", len(got) == (file is not None))
    for ds, fp, kw in got:
        ctx.eq_arr("written results", ds[FV.WS].to_numpy(), a)
        for i, c in enumerate("xyz"):
            x = ds[c].to_numpy()
            if per_state and not mean:
                ctx.eq_arr("written points", x, p[..., i])
            elif per_state:
                for n in range(N):
                    ctx.eq("written mean points", x[n], isums(W[s, k] * p[s, n, i] for s in range(S)))
            else:
                ctx.eq_arr("written points", x, p[:, i])


@case("P19", quick=[dict(index=i) for i in ("ids", "time")], bounds="3 states, 2 turbines, all values; two files written in sequence, all selections of the options")
def writer(ctx, index):
    """tables and files contain the value of each state and turbine under the chosen names, each time they are written"""
    from foxes.output import results_writer as mod, output as omod
    S, T = 3, 2
    r, d, W = results(ctx, S, T, 1, index, vars=(FV.P, FV.CT))
    names = r[FC.TNAME].to_numpy()
    ix = list(r[FC.STATE].to_numpy())
    same = lambda a, b: [pd.Timestamp(x) if index == "time" else int(x) for x in a] == [pd.Timestamp(x) if index == "time" else int(x) for x in b]
    o = foxes.output.ResultsWriter(r)
    csv = []
    rec = lambda data, fpath, fd={}, **kw: csv.append((data, fd))
    for k in range(2):
        kind = ctx.choice(f"kind{k}", ["csv", "table", "nc"])
        sel = ctx.choice(f"vars{k}", ["all", "list", "map", "index"]) if kind != "table" else "list"
        tn = ctx.choice(f"names{k}", [False, True])
        variables = {"all": None, "list": [FV.CT] if kind == "table" else [FV.CT, FV.P], "map": {FV.P: "power"},
                     "index": {FC.STATE: "time", FV.P: "power", FV.CT: FV.CT}}[sel]
        n0 = dict(variables) if isinstance(variables, dict) else None
        col = (lambda v: "power" if v == FV.P else v) if sel in ("map", "index") else (lambda v: v)
        vs = {"map": [FV.P], "list": [FV.CT] if kind == "table" else [FV.P, FV.CT]}.get(sel, [FV.P, FV.CT])
        st = "time" if sel == "index" else FC.STATE
        csv.clear()
        with lib.patch_attr(omod, "PandasFileHelper", write_file=rec), capture(mod, "write_nc") as got:
            if kind == "nc":
                o.write_nc("x.nc", variables, turbine_names=tn, verbosity=0)
            else:
                o.write_csv("x.csv", variables, turbine_names=tn, state_turbine_table=kind == "table", verbosity=0)
        if n0 is not None:
            ctx.true("given names unchanged", variables == n0, f"{variables}")
        if kind == "nc":
            ds = got[0][0]
            for v in vs:
                ctx.true("dims", ds[col(v)].dims == (st, FC.TURBINE), f"{ds[col(v)].dims}")
                ctx.eq_arr("netcdf values", ds[col(v)].to_numpy(), d[v])
            ctx.true("netcdf states", same(ds[st].to_numpy(), ix))
            if tn:
                ctx.true("netcdf names", list(ds[FC.TURBINE].to_numpy()) == list(names), f"{ds[FC.TURBINE].to_numpy()}")
        else:
            df = csv[0][0]
            if kind == "table":
                ctx.true("table states", same(df.index, ix) and df.index.name == FC.STATE)
                ctx.true("table columns", len(df.columns) == T)
                for s, t in np.ndindex(S, T):
                    c = f"{FV.CT}_{names[t]}" if tn else f"{FV.CT}_T{t:04d}"
                    ctx.eq("table values", df[c].to_numpy()[s], d[FV.CT][s, t])
            else:
                ctx.true("index names", list(df.index.names) == [st, FC.TNAME if tn else FC.TURBINE], f"{df.index.names}")
                ctx.true("rows", len(df) == S * T)
                for i, (s, t) in enumerate(np.ndindex(S, T)):
                    ctx.true("row", same([df.index[i][0]], [ix[s]]) and df.index[i][1] == (names[t] if tn else t), f"{df.index[i]}")
                    for v in vs:
                        ctx.eq("csv values", df[col(v)].to_numpy()[i], d[v][s, t])


@case("P19", quick=[dict(index=i) for i in ("ids", "time")], bounds="3 states, 2 turbines, all values, all selections")
def table(ctx, index):
    """state-turbine data sets: values under the chosen names and selections"""
    from foxes.output import state_turbine_table as mod
    S, T = 3, 2
    r, d, W = results(ctx, S, T, 1, index, vars=(FV.P, FV.CT))
    o = foxes.output.StateTurbineTable(r)
    nm = ctx.choice("names", [{}, {FV.P: "power", FC.STATE: "time"}, {FC.TURBINE: "T"}])
    st, tu, pn = nm.get(FC.STATE, FC.STATE), nm.get(FC.TURBINE, FC.TURBINE), nm.get(FV.P, FV.P)
    s = ctx.choice("sel", range(S))
    kw, sel = ctx.choice("selection", [({}, np.s_[:]), (dict(isel={st: s}), np.s_[s]), (dict(sel={st: r[FC.STATE].to_numpy()[s]}), np.s_[s]), (dict(sel={tu: [1]}), np.s_[:, [1]])])
    f = ctx.choice("file", [None, "x.nc"])
    with capture(mod, "write_nc") as got:
        w = o.get_dataset([FV.CT, FV.P], name_map=nm, to_file=f, **kw) if f is None else None
        if f is not None:
            o.get_dataset([FV.CT, FV.P], name_map=nm, to_file=f, **kw)
            w = got[0][0] if got and isinstance(got[0][0], xr.Dataset) else w
    ctx.true("data", w is not None)
    ctx.eq_arr("values", w[pn].to_numpy(), d[FV.P][sel])
    ctx.eq_arr("values", w[FV.CT].to_numpy(), d[FV.CT][sel])


@case("P19", quick=[dict()], bounds="tables of 3 rows with all values, two files written and read in sequence, all formats of text files, with and without separator option")
def files(ctx):
    """a written text file gives the written table when it is read; options hold for one call only"""
    from foxes.utils import PandasFileHelper as F
    with tempfile.TemporaryDirectory() as d:
        for k in range(2):
            tok = lib.Tokens(ctx)
            x = ctx.reals(f"x{k}", (3, 2), -100, 100)
            ids = tok.ids(x)
            df = pd.DataFrame({"a": ids[:, 0], "b": ids[:, 1]}, index=pd.Index([3, 5, 4], name="id"))
            nm = ctx.choice(f"name{k}", ["r.csv", "r.v2.csv", "r.csv.gz", "a.b.csv.gz"])
            kw = ctx.choice(f"options{k}", [{}, dict(sep=";")])
            F.write_file(df, os.path.join(d, nm), **kw)
            q = F.read_file(os.path.join(d, nm), index_col=0, **kw)
            ctx.true("columns", list(q.columns) == ["a", "b"] and list(q.index) == [3, 5, 4], f"{list(q.columns)}")
            ctx.eq_arr("values", tok.frame(q).to_numpy(), x)
        with ctx.raises("unknown format", KeyError):
            F.write_file(df, os.path.join(d, "x.txt"))
