"""Turbine models"""
import numpy as np
import pandas as pd
import foxes
import foxes.variables as FV
import foxes.constants as FC
import foxes.models.turbine_models as tm
from foxes.models.axial_induction import BetzAxialInduction, MadsenAxialInduction
from foxes.utils import cubic_roots
from symx.runner import case
from . import lib
from .p16_turbine_types import select

B = "1-2 states, 2-3 turbines; "
SELS = ("all", "mask", "turbine", "states")


def _shape(sel):
    return (1, 2) if sel in ("all", "mask") else (2, 2)


def _check(ctx, out, fd, old, pairs, ovars, spec):
    """values of the selection, everything else as it was"""
    ctx.true("result variables", set(out.keys()) == set(ovars))
    for v in ovars:
        for i in np.ndindex(*old[v].shape):
            ctx.eq(v if i in pairs else v + " not selected", out[v][i], spec(v, *i) if i in pairs else old[v][i])
            ctx.eq(v + " stored", fd[v][i], out[v][i])
    for v in old:
        if v not in ovars:
            ctx.eq_arr(v + " unchanged", fd[v], old[v])


def _fd(ctx, n_s, n_t, **rng):
    d = {v: ctx.reals(v, (n_s, n_t), *r) for v, r in rng.items()}
    return lib.fdata(d), {v: a.copy() for v, a in d.items()}


KTI = [dict(sel=s, kb=b, ti=t, src=q) for s, b, t, q in (
    ("all", None, None, "self"), ("mask", 0.01, None, "self"), ("turbine", 0.0, FV.TI, "self"), ("states", 0.002, FV.AMB_TI, "self"),
    ("mask", 0.01, "val", "self"), ("all", None, None, "farm"), ("turbine", 0.01, "val", "farm"))]


@case("P17", quick=KTI, bounds=B + "kTI in [0,1], TI in [0.02,0.4]")
def kti(ctx, sel, kb, ti, src):
    """wake growth k = kTI TI + kb from the designated turbulence intensity, or the given uniform one"""
    S, T = _shape(sel)
    kT = ctx.real("kTI", 0, 1)
    val = ctx.real("ti_val", 0.02, 0.4) if ti == "val" else None
    tv = FV.TI if ti in (None, "val") else ti
    m = tm.kTI(kTI=kT if src == "self" else None, kb=kb, ti_var=tv, ti_val=val, k_var=FV.K)
    m.name = "kTI"
    rng = {FV.TI: (0.02, 0.4), FV.AMB_TI: (0.02, 0.4), FV.K: (0, 1)}
    if src == "farm":
        rng[FV.KTI] = (0, 1)
    fd, old = _fd(ctx, S, T, **rng)
    ss, pairs = select(ctx, sel, S, T)
    out = m.calculate(lib.StubAlgo(S, T), lib.mdata(S), fd, ss)

    def spec(v, s, t):
        x = val if ti == "val" else old[tv][s, t]
        return (kT if src == "self" else old[FV.KTI][s, t]) * x + (kb or 0)

    _check(ctx, out, fd, old, pairs, [FV.K], spec)


@case("P17", quick=[dict(sel=s, var=v) for s, v in (("all", FV.REWS2), ("mask", FV.REWS), ("turbine", FV.REWS2), ("states", FV.REWS3))],
      bounds=B + "thrust in [0,1e6], rho in [0.8,1.5], D in [20,300], wind speed in [1,30]")
def thrust2ct(ctx, sel, var):
    """thrust coefficient of a given thrust: ct = T / (rho A ws^2 / 2)"""
    S, T = _shape(sel)
    m = tm.Thrust2Ct(thrust_var=FV.T, var_ws_ct=var)
    fd, old = _fd(ctx, S, T, **{FV.T: (0, 1e6), FV.RHO: (0.8, 1.5), FV.D: (20, 300), FV.REWS: (1, 30), FV.REWS2: (1, 30), FV.REWS3: (1, 30), FV.CT: (0, 1)})
    ss, pairs = select(ctx, sel, S, T)
    out = m.calculate(None, None, fd, ss)
    for s, t in pairs:
        ctx.eq("thrust", out[FV.CT][s, t] * old[FV.RHO][s, t] * np.pi * old[FV.D][s, t] ** 2 * old[var][s, t] ** 2, 8 * old[FV.T][s, t])
    _check(ctx, out, fd, old, pairs, [FV.CT], lambda v, s, t: 2 * old[FV.T][s, t] / (old[FV.RHO][s, t] * np.pi * old[FV.D][s, t] ** 2 / 4 * old[var][s, t] ** 2))


@case("P17", quick=[dict(sel=s) for s in SELS], bounds=B + "wind direction and yaw in [0,360), misalignment in [-180,180]", budget_s=90)
def yaw(ctx, sel):
    """yaw misalignment is the rotation from wind direction to yaw, and back gives the same yaw"""
    S, T = _shape(sel)
    fd, old = _fd(ctx, S, T, **{FV.WD: (0, 359.99), FV.YAW: (0, 359.99), FV.YAWM: (-180, 180)})
    ss, pairs = select(ctx, sel, S, T)
    out = tm.YAW2YAWM().calculate(None, None, fd, ss)
    ctx.true("result variables", list(out) == [FV.YAWM])
    for i in np.ndindex(S, T):
        if i in pairs:
            d = old[FV.YAW][i] - old[FV.WD][i]
            ctx.between("in [-180,180]", out[FV.YAWM][i], -180, 180)
            x = out[FV.YAWM][i]
            ctx.true("same direction", bool(abs(x - d) < 1e-7) or bool(abs(x - d - 360) < 1e-7) or bool(abs(x - d + 360) < 1e-7), f"{x} {d}")
        else:
            ctx.eq("not selected", out[FV.YAWM][i], old[FV.YAWM][i])
    ctx.eq_arr("WD unchanged", fd[FV.WD], old[FV.WD])
    ctx.eq_arr("YAW unchanged", fd[FV.YAW], old[FV.YAW])
    out = tm.YAWM2YAW().calculate(None, None, fd, ss)
    ctx.true("result variables", list(out) == [FV.YAW])
    for i in np.ndindex(S, T):
        ctx.eq("yaw round trip", out[FV.YAW][i], old[FV.YAW][i])
    ctx.eq_arr("WD unchanged", fd[FV.WD], old[FV.WD])


@case("P17", quick=[dict(sel=s) for s in ("all", "mask", "states")], bounds=B + "wind direction in [0,360), misalignment in [-180,180]", budget_s=90)
def yawm(ctx, sel):
    """yaw is wind direction plus misalignment, in [0,360)"""
    S, T = _shape(sel)
    fd, old = _fd(ctx, S, T, **{FV.WD: (0, 359.99), FV.YAW: (0, 359.99), FV.YAWM: (-180, 180)})
    ss, pairs = select(ctx, sel, S, T)
    out = tm.YAWM2YAW().calculate(None, None, fd, ss)
    for i in np.ndindex(S, T):
        x, d = out[FV.YAW][i], old[FV.WD][i] + old[FV.YAWM][i]
        if i in pairs:
            ctx.true("in [0,360)", (x >= 0) & (x < 360))
            ctx.true("same direction", bool(abs(x - d) < 1e-7) or bool(abs(x - d - 360) < 1e-7) or bool(abs(x - d + 360) < 1e-7), f"{x} {d}")
        else:
            ctx.eq("not selected", x, old[FV.YAW][i])


@case("P17", quick=[{}], bounds=B + "an arbitrary function")
def calculator(ctx):
    """user functions get farm data before model data, and the selection"""
    S, T = 2, 2
    fd, old = _fd(ctx, S, T, **{"a": (-1, 1), "b": (-1, 1), "r": (-1, 1)})
    mb, mc = ctx.reals("mb", (S, T), -1, 1), ctx.reals("mc", (S, T), -1, 1)
    md = lib.mdata(S, dict(b=mb, c=mc), dict(b=lib.ST, c=lib.ST))
    got = {}

    def f(a, b, c, st_sel):
        got["sel"] = st_sel
        return a + 2 * b + 3 * c, a * b

    m = tm.Calculator(["a", "b", "c"], ["r", "q"], f)
    ss = np.s_[:, 1]
    out = m.calculate(None, md, fd, ss)
    ctx.true("selection", got["sel"] is ss)
    ctx.true("names", list(out) == ["r", "q"] and m.output_farm_vars(None) == ["r", "q"])
    ctx.eq_arr("r", out["r"], old["a"] + 2 * old["b"] + 3 * mc)
    ctx.eq_arr("q", out["q"], old["a"] * old["b"])


# -------------------------------------------------------------- power mask


def _cubic(c, x):
    return c[0] + c[1] * x + c[2] * x**2 + c[3] * x**3


CUB = [(4.0, -8.0, 4.0), (-3.0, 0.0, 1.0), (1.0, 1.5, 0.5)]


@case("P17", quick=[dict(c=c) for c in CUB], bounds="leading coefficients fixed, constant coefficient symbolic in [-8,8]", budget_s=60)
def roots(ctx, c):
    """every returned value is a root, and there is always one"""
    a0 = ctx.real("a0", -8, 8)
    co = [a0] + [ctx.const(x) for x in c]
    r = cubic_roots(*[ctx.arr([x]) for x in co])
    ctx.true("shape", r.shape == (1, 3))
    n = 0
    for x in r[0]:
        if not np.isnan(x):
            n += 1
            ctx.eq("root", _cubic(co, x), 0, tol=1e-6)
    ctx.true("number of roots", n in (1, 3), f"{n}")


class Double(float):
    """float type that also takes symbolic values"""

    def __new__(cls, x):
        return x


class Config:
    dtype_double = Double


PM = [dict(sel=s, ind=i, lim=l, f=f) for s, i, l, f in (("all", "Betz", 100, 1e3), ("mask", "Betz", 20.0, 1e3), ("turbine", "Betz", 100, 1.0), ("states", "Betz", 0.0, 1e6))]


@case("P17", quick=PM, bounds=B + "P in [0,3] rated, power limits of 0.2 to 2 rated or none, ct in [0.05,0.88], one symbolic state and turbine", budget_s=200, branch_ms=3000)
def power_mask(ctx, sel, ind, lim, f):
    """power is limited (or boosted at rated power) to the given value, with the thrust at the same efficiency; nothing else changes"""
    S, T = _shape(sel)
    rated = (2000.0, 5000.0)
    m = tm.PowerMask(var_ws_P=FV.REWS3, factor_P=f, P_lim=lim, induction=BetzAxialInduction())
    m.name = "pm"
    al = lib.StubAlgo(S, T)
    al.farm_controller = lib.StubAlgo(turbine_types=[lib.StubAlgo(P_nominal=p) for p in rated])
    import foxes.models.turbine_models.power_mask as mod
    old_c = mod.config
    if ctx.symbolic:
        mod.config = Config()
    try:
        m.initialize(al)
    finally:
        mod.config = old_c
    d = {v: ctx.empty((S, T)) for v in (FV.P, FV.CT, FV.MAX_P, FV.REWS2, FV.REWS3, FV.RHO, FV.D)}
    d[FV.ORDER] = np.zeros((S, T), dtype=int)
    d[FV.ORDER_INV] = np.zeros((S, T), dtype=int)
    for s in range(S):
        o = ctx.permutation(f"order{s}", T)
        d[FV.ORDER][s] = o
        d[FV.ORDER_INV][s] = np.argsort(np.array(o, dtype=int))
    fo = ctx.choice("focus", list(np.ndindex(S, T)))
    for i in np.ndindex(S, T):
        # not limited: no value given, or nothing to do
        k = i[0] * T + i[1]
        for v, x in ((FV.P, 1500.0 + k), (FV.CT, 0.7), (FV.MAX_P, (np.nan, 1800.0, np.nan, 1900.0)[k]), (FV.REWS2, 9.0), (FV.REWS3, 9.5), (FV.RHO, 1.2), (FV.D, 100.0 + k)):
            d[v][i] = ctx.const(x) if x == x else np.nan
    pr = rated[d[FV.ORDER][fo]]
    # the induction a of the thrust, and the ratio y of the new power to the one of an ideal turbine; an induction exists up to 16 / 27
    mp, a, y = ctx.real("maxP", 0.2 * pr, 2 * pr), ctx.real("a", 0.0126, 0.33), ctx.real("y", 0.001, 0.592)
    ct, ws, D = 4 * a * (1 - a), ctx.real("ws", 3, 25), ctx.real("D", 20, 300)
    P = mp * 4 * a * (1 - a) ** 2 / y
    ctx.assume((P >= 10) & (P <= 3 * pr))
    d[FV.P][fo], d[FV.MAX_P][fo], d[FV.CT][fo], d[FV.REWS3][fo], d[FV.D][fo] = P, mp, ct, ws, D
    old = {v: x.copy() for v, x in d.items()}
    fd = lib.fdata(d)
    ss, pairs = select(ctx, sel, S, T)
    out = m.calculate(al, None, fd, ss)
    ctx.true("result variables", set(out) == {FV.P, FV.CT})
    act = False
    if fo in pairs:
        if mp < pr:
            act = bool(P > mp)
        elif mp > pr:
            act = bool(P > pr - lim)
    for i in np.ndindex(S, T):
        if i != fo or not act:
            ctx.eq("P not limited", out[FV.P][i], old[FV.P][i])
            ctx.eq("ct not limited", out[FV.CT][i], old[FV.CT][i])
    if act:
        ctx.eq("P", out[FV.P][fo], mp)
        c2 = out[FV.CT][fo]
        # the induction a of the new ct, from y = ct (1 - a), with ct = 4 a (1 - a) and a <= 1/3
        ctx.eq("efficiency", (2 * y - c2) ** 2, c2**2 * (1 - c2), tol=1e-6)
        ctx.le("induction", c2, (2 * y - c2) * 3, tol=1e-6)
        ctx.between("ct", c2, 0, 1)
    for v in d:
        if v not in (FV.P, FV.CT):
            for i in np.ndindex(S, T):
                if v != FV.MAX_P or i == fo:
                    ctx.eq(v + " unchanged", fd[v][i], old[v][i])


# -------------------------------------------------------------- sector management


def _in(x, lo, hi, per):
    if per is None:
        return bool((x >= lo) & (x < hi))
    # x lies in [lo, hi) modulo the period
    return any(bool((x + k * per >= lo) & (x + k * per < hi)) for k in (-2, -1, 0, 1, 2))


SM = [dict(sel=s, cols=c, vars=v) for s, c, v in (
    ("all", "index", ("WD",)), ("mask", "column", ("WD",)), ("turbine", "names", ("WD",)), ("all", "names", ("REWS",)),
    ("states", "index", ("REWS",)), ("all", "column", ("WD", "REWS")), ("mask", "names", ("TI", "REWS")))]


@case("P17", quick=SM, bounds=B + "2 table rows for any two of 2 turbines, symbolic ranges; wind directions in [0,360), ranges that start in [-180,360) and are up to 360 deg wide", budget_s=120)
def sectors(ctx, sel, cols, vars):
    """the table values are set for exactly the turbines and states within the ranges"""
    S, T = _shape(sel)
    names = ["first", "second"]
    rows = ctx.permutation("rows", 2)
    rng = dict(WD=(0, 359.99), REWS=(0, 30), TI=(0.02, 0.4))
    df = {}
    lim = {}
    for v in vars:
        a, b = rng[v]
        lo = ctx.reals(f"{v}_lo", 2, -180 if v == "WD" else a, b)
        w = ctx.reals(f"{v}_w", 2, 0, 360 if v == "WD" else b - a)
        if len(vars) > 1 or S > 1:
            lo[1], w[1] = ctx.const(a + (b - a) / 4), ctx.const((b - a) / 2)
        lim[v] = lo, lo + w
        df[f"{v}_min" if v != "REWS" else "ws0"], df[f"{v}_max"] = lim[v]
    tv = ctx.reals("newK", 2, 0, 1), ctx.reals("newC", 2, 0, 1)
    df["k"], df["ct_new"] = tv
    kw = dict(colmap={"REWS_min": "ws0", FV.CT: "ct_new"}, range_vars=list(vars), target_vars=[FV.K, FV.CT])
    if cols == "index":
        df = pd.DataFrame(df, index=pd.Index(rows, name="nr"))
        kw["col_tinds"] = "nr"
    elif cols == "column":
        df["nr"] = rows
        df = pd.DataFrame(df)
        kw["col_tinds"] = "nr"
    else:
        df["nm"] = [names[i] for i in rows]
        df = pd.DataFrame(df)
        kw["col_tnames"] = "nm"
    m = tm.SectorManagement(df, **kw)
    m.name = "sm"
    al = lib.StubAlgo(S, T, farm=lib.StubAlgo(turbine_names=names))
    m.initialize(al)
    d = {v: ctx.reals(v, (S, T), *rng[v]) for v in vars}
    # with two states, one element and one table row is symbolic and the others are fixed
    fs, ft = ctx.choice("focus", list(np.ndindex(S, T))) if sel in ("turbine", "states") else (0, 0)
    for v in vars:
        for i in np.ndindex(S, T):
            if i[0] != fs or (sel in ("turbine", "states") and i[1] != ft):
                d[v][i] = ctx.const(rng[v][0] + (rng[v][1] - rng[v][0]) * (0.3 + 0.2 * i[1]))
    d[FV.K], d[FV.CT] = ctx.reals("K0", (S, T), 0, 1), ctx.reals("CT0", (S, T), 0, 1)
    d[FV.ORDER] = np.zeros((S, T), dtype=int)
    d[FV.ORDER_INV] = np.zeros((S, T), dtype=int)
    for s in range(S):
        o = ctx.permutation(f"order{s}", T) if s == fs else [1, 0]
        d[FV.ORDER][s] = o
        d[FV.ORDER_INV][s] = np.argsort(np.array(o, dtype=int))
    old = {v: x.copy() for v, x in d.items()}
    fd = lib.fdata(d)
    ss, pairs = select(ctx, sel, S, T)
    out = m.calculate(al, None, fd, ss)
    per = {"WD": 360.0}

    def spec(v, s, t):
        ft = old[FV.ORDER][s, t]
        r = rows.index(ft)
        for u in vars:
            if not _in(old[u][s, t], lim[u][0][r], lim[u][1][r], per.get(u)):
                return old[v][s, t]
        return tv[0 if v == FV.K else 1][r]

    _check(ctx, out, fd, old, pairs, [FV.K, FV.CT], spec)


# -------------------------------------------------------------- set farm vars


@case("P17", quick=[dict(sel=s, once=o, kind=k) for s, o, k in (("all", False, "full"), ("mask", False, "full"), ("turbine", True, "turbine"), ("states", True, "state"), ("mask", True, "scalar"))],
      bounds=B + "any of the given values may be missing (NaN)", budget_s=60)
def set_vars(ctx, sel, once, kind):
    """given values replace those of the selection, missing ones do not; 'once' acts in the first call for each chunk"""
    S, T = 2, 2
    m = tm.SetFarmVars(once=once)
    m.name = "sfv"
    sh = dict(full=(S, T), turbine=(T,), state=(S, 1), scalar=())[kind]
    val = ctx.reals("val", sh, 0, 1) if sh else ctx.real("val", 0, 1)
    if sh:
        i = ctx.choice("missing", [None] + list(np.ndindex(*sh)))
        if i is not None:
            val[i] = np.nan
    full = ctx.empty((S, T))
    full[...] = val
    m.add_var(FV.K, val)
    m.add_var(FV.YAWM, np.full((S, T), np.nan))
    st = {}
    al = lib.StubAlgo(S, T, store_model_data=lambda mm, idata, force=False: st.update(idata))
    m.initialize(al)
    ctx.true("variables", m.output_farm_vars(al) == [FV.K, FV.YAWM])
    dims, data = st["data_vars"][m.var(FV.K)]
    ctx.true("dims", tuple(dims) == lib.ST)
    ctx.eq_arr("model data", data, full)
    fd, old = _fd(ctx, S, T, **{FV.K: (0, 1), FV.YAWM: (-30, 30)})
    ss, pairs = select(ctx, sel, S, T)
    md = lib.mdata(S, {m.var(v): st["data_vars"][m.var(v)][1] for v in (FV.K, FV.YAWM)}, {m.var(v): lib.ST for v in (FV.K, FV.YAWM)})
    out = m.calculate(al, md, fd, ss)
    spec = lambda v, s, t: old[v][s, t] if v == FV.YAWM or np.isnan(full[s, t]) else full[s, t]
    _check(ctx, out, fd, old, pairs, [FV.K, FV.YAWM], spec)
    # second call for the same chunk, and a call for another chunk
    fd2, old2 = lib.fdata({v: a * 0 + 7 for v, a in old.items()}), {v: a * 0 + 7 for v, a in old.items()}
    out2 = m.calculate(al, md, fd2, ss)
    for i in np.ndindex(S, T):
        e = 7 if once or i not in pairs or np.isnan(full[i]) else full[i]
        ctx.eq("second call", out2[FV.K][i], e)
    md3 = lib.MData(data={v: md[v] for v in md if v != FC.STATE} | {FC.STATE: np.arange(S)}, dims=dict(md.dims), loop_dims=[FC.STATE], states_i0=S)
    fd3 = lib.fdata({v: a * 0 + 7 for v, a in old.items()})
    out3 = m.calculate(al, md3, fd3, ss)
    for i in np.ndindex(S, T):
        ctx.eq("other chunk", out3[FV.K][i], 7 if i not in pairs or np.isnan(full[i]) else full[i])


@case("P17", quick=[dict(var=v) for v in (FV.X, FV.Y, FV.D, FV.H)], bounds=B + "any of the given values may be missing (NaN)", budget_s=60)
def set_geometry(ctx, var):
    """given positions, diameters and hub heights reach the turbines of the farm, missing ones keep the turbine's or the type's value"""
    S, T = 2, 2
    t0 = [foxes.Turbine(xy=ctx.reals(f"xy{i}", 2, -100, 100), turbine_models=[], D=ctx.const(80) if i else None, H=ctx.const(70) if i else None) for i in range(T)]
    oxy = [t.xy.copy() for t in t0]
    types = [lib.StubAlgo(D=ctx.const(120 + i), H=ctx.const(110 + i)) for i in range(T)]
    m = tm.SetFarmVars()
    m.name = "sfv"
    val = ctx.reals("val", (S, T), 20, 200)
    i = ctx.choice("missing", list(np.ndindex(S, T)))
    val[i] = np.nan
    m.add_var(var, val)
    al = lib.StubAlgo(S, T, store_model_data=lambda *a, **k: None, farm=lib.StubAlgo(turbines=t0),
                      farm_controller=lib.StubAlgo(turbine_types=types), states=lib.StubAlgo())
    m.initialize(al)
    for s in range(S):
        for t in range(T):
            dflt = {FV.X: oxy[t][0], FV.Y: oxy[t][1], FV.D: 80 if t else types[t].D, FV.H: 70 if t else types[t].H}[var]
            e = dflt if (s, t) == i else val[s, t]
            if var in (FV.X, FV.Y):
                k = 0 if var == FV.X else 1
                ctx.eq(var, t0[t].xy[s, k], e)
                ctx.eq("other coordinate", t0[t].xy[s, 1 - k], oxy[t][1 - k])
            else:
                ctx.eq(var, (t0[t].D if var == FV.D else t0[t].H)[s], e)


# -------------------------------------------------------------- table factors


@case("P17", quick=[dict(sel=s) for s in SELS], bounds=B + "2 x 3 table of symbolic factors, values within the table; scipy's interpolation is replaced by an equivalent one over symbolic values", budget_s=120)
def factors(ctx, sel):
    """the selected values are multiplied with the bilinearly interpolated table factor"""
    S, T = _shape(sel)
    rv, cv = (2.0, 12.0), (0.0, 90.0, 270.0)
    tab = ctx.reals("tab", (2, 3), 0, 2)

    def bil(x, y):
        j = 0 if y <= cv[1] else 1
        u, w = (x - rv[0]) / (rv[1] - rv[0]), (y - cv[j]) / (cv[j + 1] - cv[j])
        return (tab[0, j] * (1 - u) + tab[1, j] * u) * (1 - w) + (tab[0, j + 1] * (1 - u) + tab[1, j + 1] * u) * w

    m = tm.TableFactors(pd.DataFrame(np.array([list(r) for r in tab], dtype=object) if ctx.symbolic else tab, index=list(rv), columns=list(cv)), FV.REWS, FV.WD, [FV.P, FV.CT])
    m.name = "tf"
    m.initialize(lib.StubAlgo(S, T))
    fd, old = _fd(ctx, S, T, **{FV.REWS: rv, FV.WD: (0, 270), FV.P: (0, 5000), FV.CT: (0, 1)})
    ss, pairs = select(ctx, sel, S, T)
    out = m.calculate(None, None, fd, ss)
    _check(ctx, out, fd, old, pairs, [FV.P, FV.CT], lambda v, s, t: old[v][s, t] * bil(old[FV.REWS][s, t], old[FV.WD][s, t]))


# -------------------------------------------------------------- rotor centre


@case("P17", quick=[dict(sel=s, calc=c) for s in ("all", "turbine", "mask") for c in (("REWS",), ("TI", "WS"))], bounds=B + "arbitrary wake results per variable")
def rotor_centre(ctx, sel, calc):
    """variables at the rotor centre: ambient states at the hub followed by the wake calculation"""
    S, T = _shape(sel)
    if calc[0] == "REWS":
        cv = {"myTI": FV.TI}
    else:
        cv = list(calc)
    hub = lib.points(ctx, "hub", S, T)[:, :, 0]
    amb = ctx.reals("amb", (S, T, 1), 1, 2)
    wk = ctx.reals("wk", (S, T, 1), 1, 2)

    class Wakes(foxes.core.PointDataModel):
        def calculate(self, algo, mdata, fdata, tdata, **kw):
            ctx.eq_arr("at the hubs", tdata[FC.TARGETS][:, :, 0], hub)
            for v in (FV.WS, FV.TI):
                ctx.eq_arr("ambient " + v, tdata[FV.var2amb[v]], tdata[v])
                old = tdata[v].copy()
                tdata[v] *= wk
                ctx.eq_arr("ambient " + v + " stays", tdata[FV.var2amb[v]], old)
            return {v: tdata[v] for v in (FV.WS, FV.TI)}

        def output_point_vars(self, algo):
            return [FV.WS, FV.TI]

    class States:
        def calculate(self, algo, mdata, fdata, tdata):
            return {FV.WS: amb * 10, FV.TI: amb.copy()}

    al = lib.StubAlgo(S, T, states=States(), get_model=lambda n: Wakes, store_model_data=lambda *a, **k: None)
    m = tm.RotorCentreCalc(cv)
    m.name = "rcc"
    m.initialize(al)
    names = list(cv) if isinstance(cv, dict) else cv
    d = {v: ctx.reals(v, (S, T), 0, 1) for v in names}
    d[FV.X] = hub[..., 0]
    d[FV.TXYH] = hub
    fd = lib.fdata({v: d[v] for v in names + [FV.X, FV.TXYH]})
    old = {v: d[v].copy() for v in names}
    ss, pairs = select(ctx, sel, S, T)
    out = m.calculate(al, lib.mdata(S), fd, ss)

    def spec(v, s, t):
        f = 10 if (cv[v] if isinstance(cv, dict) else v) == FV.WS else 1
        return f * amb[s, t, 0] * wk[s, t, 0]

    _check(ctx, out, fd, old, pairs, names, spec)
