"""Turbine types: power and thrust curves"""
import numpy as np
import pandas as pd
import foxes.variables as FV
import foxes.constants as FC
import foxes.models.turbine_types as tt
from symx.runner import case
from . import lib

B = ("1-2 states, 2 turbines, curves with 3 points (fixed wind speeds 4, 9, 20 m/s in any row order; symbolic power in [0,9000], ct in [0,1.2]); "
     "rotor wind speeds in [0,30] m/s, air density in [0.8,1.5], yaw misalignment in [-60,60] deg, TI in [0.02,0.4]")
WS = (4.0, 9.0, 20.0)
XS = {"rho": (0.9, 1.2), "ti": (0.05, 0.2)}


def lin(x, xs, ys):
    """piecewise linear, zero outside"""
    if (x < xs[0]) | (x > xs[-1]):
        return 0 * x
    for j in range(len(xs) - 2, -1, -1):
        if (j == 0) | (x >= xs[j]):
            return ys[j] + (x - xs[j]) / (xs[j + 1] - xs[j]) * (ys[j + 1] - ys[j])


def select(ctx, kind, S, T):
    """a state-turbine selection as the farm controller builds it, and its elements"""
    if kind == "all":
        return np.s_[:, :], [(s, t) for s in range(S) for t in range(T)]
    t = ctx.int("dind", 0, T - 1)
    t = [i for i in range(T) if t == i][0]
    if kind == "turbine":
        return np.s_[:, t], [(s, t) for s in range(S)]
    m = lib.boolmask(ctx, "sel", (S, T) if kind == "mask" else (S,))
    if kind == "mask":
        sel = [(s, t) for s in range(S) for t in range(T) if m[s, t]]
        return m, sel
    return np.s_[m, t], [(s, t) for s in range(S) if m[s]]


def farm_data(ctx, S, T, yaw=False, ti=False, extra=()):
    d = {}
    for v, lo, hi in ((FV.REWS, 0, 30), (FV.REWS2, 0, 30), (FV.REWS3, 0, 30), (FV.RHO, 0.8, 1.5), (FV.P, 0, 9000), (FV.CT, 0, 1)):
        d[v] = ctx.reals(v, (S, T), lo, hi)
    if yaw:
        d[FV.YAWM] = ctx.reals(FV.YAWM, (S, T), -60, 60)
    if ti:
        d[FV.TI] = ctx.reals(FV.TI, (S, T), 0.02, 0.4)
    # one element is symbolic in all its wind speeds, the others have their own fixed ones
    f = ctx.choice("focus", list(range(S * T)))
    for k in range(S * T):
        if k != f:
            for j, v in enumerate((FV.REWS, FV.REWS2, FV.REWS3)):
                d[v].reshape(-1)[k] = ctx.const((5.0, 7.5, 11.25, 16.0)[(k + j) % 4] + 0.125 * k)
            for v, x0 in ((FV.RHO, 0.95), (FV.YAWM, 8.0), (FV.TI, 0.06)):
                if v in d:
                    d[v].reshape(-1)[k] = ctx.const(x0 * (1 + k / 16))
    return lib.fdata(d), {v: a.copy() for v, a in d.items()}


def compare(ctx, out, fd, old, sel, spec, ovars=(FV.P, FV.CT)):
    """results for the selection, everything else as it was"""
    for v in ovars:
        for s, t in np.ndindex(*old[v].shape):
            ctx.eq(v if (s, t) in sel else v + " not selected", out[v][s, t],
                   spec(v, s, t) if (s, t) in sel else old[v][s, t])
    for v in old:
        if v not in ovars:
            ctx.eq_arr(v + " unchanged", fd[v], old[v])


def _curves(ctx, n=3):
    return ctx.reals("P_tab", n, 0, 9000), ctx.reals("ct_tab", n, 0, 1.2)


def _corrected(fd, s, t, wv, rho, p, e, yaw, rexp=None):
    ws = fd[wv][s, t]
    if rho is not None and rexp is not None:
        ws = ws * (fd[FV.RHO][s, t] / rho) ** rexp
    if yaw and p is not None:
        ws = ws * (np.cos(fd[FV.YAWM][s, t] / 180 * np.pi) ** p) ** e
    return ws


SETS = [dict(cls=c, rho=r, yaw=y, p=p, sel=s, wsv=w) for c in ("PCtFile", "PCtFromTwo") for r, y, p, s, w in (
    (None, False, (1.0, 1.88), "all", None),
    (None, False, (1.0, 1.88), "mask", None),
    (1.225, False, (1.0, 1.88), "turbine", (FV.REWS, FV.REWS)),
    (1.1, True, (1.0, 1.88), "all", None),
    (None, True, (2.0, None), "states", (FV.REWS, FV.REWS2)),
    (None, True, (None, 1.88), "all", (FV.REWS2, FV.REWS2)),
    (1.0, True, (None, None), "mask", None))]


def _type(ctx, cls, P, ct, order=(0, 1, 2), **kw):
    ws = [WS[i] for i in order]
    P, ct = [P[i] for i in order], [ct[i] for i in order]
    if cls == "PCtFile":
        df = pd.DataFrame(dict(ws=ws, P=P, ct=ct))
        return tt.PCtFile(df, **kw)
    return tt.PCtFromTwo(pd.DataFrame(dict(ws=ws, P=P)), pd.DataFrame(dict(ws=ws, ct=ct)), **kw)


@case("P16", quick=SETS, bounds=B, budget_s=240, branch_ms=500)
def curves(ctx, cls, rho, yaw, p, sel, wsv):
    """linear interpolation of the tables at the designated, corrected wind speeds; zero outside; only the selection changes"""
    S, T = (1, 2) if sel in ("all", "mask") else (2, 2)
    P, ct = _curves(ctx)
    wct, wP = wsv or (FV.REWS2, FV.REWS3)
    t = _type(ctx, cls, P, ct, order=(1, 2, 0), rho=rho, p_ct=p[0], p_P=p[1], D=ctx.const(100), H=ctx.const(90),
              var_ws_ct=wct, var_ws_P=wP)
    t.initialize(lib.StubAlgo(S, T))
    ctx.true("needs rews2", t.needs_rews2() == (FV.REWS2 in (wct, wP)))
    ctx.true("needs rews3", t.needs_rews3() == (FV.REWS3 in (wct, wP)))
    fd, old = farm_data(ctx, S, T, yaw)
    ss, pairs = select(ctx, sel, S, T)
    out = t.calculate(None, None, fd, st_sel=ss)

    def spec(v, s, i):
        if v == FV.P:
            return lin(_corrected(old, s, i, wP, rho, p[1], 1 / 3, yaw, 1 / 3), WS, P)
        return lin(_corrected(old, s, i, wct, rho, p[0], 0.5, yaw), WS, ct)

    compare(ctx, out, fd, old, pairs, spec)


@case("P16", quick=[dict(cls=c, unit=u) for c in ("PCtFile", "PCtFromTwo") for u in ("kW", "MW", "W")], bounds=B, budget_s=60)
def nominal_power(ctx, cls, unit):
    """the default nominal power is the maximum of the power curve, a given one is kept"""
    P, ct = _curves(ctx)
    t = _type(ctx, cls, P, ct, D=100.0, H=90.0, P_unit=unit)
    t.initialize(lib.StubAlgo(1, 1))
    for i in range(3):
        ctx.le("not below the curve", P[i], t.P_nominal)
    ctx.true("from the curve", (t.P_nominal == P[0]) | (t.P_nominal == P[1]) | (t.P_nominal == P[2]))
    t = _type(ctx, cls, P, ct, D=100.0, H=90.0, P_unit=unit, P_nominal=77.0)
    t.initialize(lib.StubAlgo(1, 1))
    ctx.eq("given", t.P_nominal, 77.0)


@case("P16", quick=[dict(cls=c, x=x, yaw=y, sel=s, rho=r) for c, x in (("WsRho2PCtFromTwo", "rho"), ("WsTI2PCtFromTwo", "ti"))
                    for y, s, r in ((False, "all", None), (False, "mask", None), (True, "turbine", None), (False, "states", 1.2))
                    if not (x == "rho" and r)],
      bounds=B + "; second table variable between its first and last value", budget_s=240, branch_ms=500)
def tables2d(ctx, cls, x, yaw, sel, rho):
    """bilinear interpolation of the two-dimensional tables, separate ones for power and thrust"""
    S, T = (1, 2) if sel in ("all", "mask") else (2, 2)
    P, ct = ctx.reals("P_tab", (3, 2), 0, 9000), ctx.reals("ct_tab", (3, 2), 0, 1.2)
    wsc = (3.0, 8.0, 25.0)
    xs = XS[x]
    dfP = pd.DataFrame({xs[j]: [P[i, j] for i in range(3)] for j in (1, 0)}, index=list(WS))
    dfc = pd.DataFrame({xs[j]: [ct[i, j] for i in range(3)] for j in (1, 0)}, index=list(wsc))
    kw = dict(rho=rho) if rho else {}
    t = getattr(tt, cls)(dfP, dfc, D=100.0, H=90.0, **kw)
    t.initialize(lib.StubAlgo(S, T))
    fd, old = farm_data(ctx, S, T, yaw, ti=x == "ti")
    v2 = FV.RHO if x == "rho" else FV.TI
    for a in fd[v2].reshape(-1):
        ctx.assume((a >= xs[0]) & (a <= xs[-1]))
    ss, pairs = select(ctx, sel, S, T)
    out = t.calculate(None, None, fd, st_sel=ss)

    def spec(v, s, i):
        wv, g, tab, p, e = (FV.REWS3, WS, P, 1.88, 1 / 3) if v == FV.P else (FV.REWS2, wsc, ct, 1.0, 0.5)
        ws = _corrected(old, s, i, wv, rho, p, e, yaw, e)
        u = (old[v2][s, i] - xs[0]) / (xs[1] - xs[0])
        return lin(ws, g, [tab[j, 0] * (1 - u) + tab[j, 1] * u for j in range(3)])

    compare(ctx, out, fd, old, pairs, spec)


class Lookup:
    """an arbitrary table of (wind speed, density): symbolic bilinear coefficients"""

    name = "lookup"
    initialized = True

    def __init__(self, ctx):
        self.input_vars = [FV.REWS, FV.TI]
        self.c = ctx.reals("tab", (2, 4), -2, 2)

    def f(self, i, ws, ti):
        c = self.c[i]
        return c[0] + c[1] * ws + c[2] * ti + c[3] * ws * ti

    def calculate(self, algo, mdata, fdata, st_sel):
        for i, v in enumerate((FV.P, FV.CT)):
            fdata[v][st_sel] = self.f(i, fdata[FV.REWS][st_sel], fdata[FV.TI][st_sel])
        return {v: fdata[v] for v in (FV.P, FV.CT)}


@case("P16", quick=[dict(rho=r, yaw=y, sel=s, wsv=w) for r, y, s, w in (
    (None, False, "all", None), (1.1, True, "mask", None), (None, True, "turbine", (FV.REWS, FV.REWS)), (1.2, False, "all", (FV.REWS, FV.REWS)),
    (None, False, "states", (FV.REWS, FV.REWS)))], bounds=B + "; the interpolation itself (xarray) is replaced by an arbitrary bilinear function", budget_s=200)
def lookup_type(ctx, rho, yaw, sel, wsv):
    """FromLookupTable evaluates power and thrust at their own corrected wind speeds"""
    S, T = 2, 2
    wct, wP = wsv or (FV.REWS2, FV.REWS3)
    df = pd.DataFrame({v: [1.0, 2.0] for v in (FV.REWS, FV.TI, FV.P, FV.CT)})
    t = tt.FromLookupTable(df, input_vars=[FV.REWS, FV.TI], rho=rho, var_ws_ct=wct, var_ws_P=wP, D=100.0, H=90.0)
    t._lookup = Lookup(ctx)
    fd, old = farm_data(ctx, S, T, yaw, ti=True)
    ss, pairs = select(ctx, sel, S, T)
    out = t.calculate(lib.StubAlgo(S, T), None, fd, st_sel=ss)

    def spec(v, s, i):
        wv, p, e, k, r = (wP, 1.88, 1 / 3, 0, 1 / 3) if v == FV.P else (wct, 1.0, 0.5, 1, None)
        return t._lookup.f(k, _corrected(old, s, i, wv, rho, p, e, yaw, r), old[FV.TI][s, i])

    compare(ctx, out, fd, old, pairs, spec)


@case("P16", quick=[dict(cls=c, sel=s) for c in ("CpCtFile", "CpCtFromTwo") for s in ("all", "mask")], bounds=B + "; power coefficient table with wind speeds 8 and 8.00045 m/s (the class resamples with 0.0001 m/s), symbolic values in [0,0.6]", budget_s=120)
def cp_curves(ctx, cls, sel):
    """power from the power coefficient curve: P = cp rho A ws^3 / 2, exact at the resampled wind speeds"""
    S, T = 1, 2
    ws = (8.0, 8.00045)
    cp, ct = ctx.reals("cp", 2, 0, 0.6), ctx.reals("ct_tab", 2, 0, 1.2)
    D = ctx.real("D", 50, 200)
    rho = 1.2
    if cls == "CpCtFile":
        t = tt.CpCtFile(pd.DataFrame(dict(ws=list(ws), cp=list(cp), ct=list(ct))), D=D, H=90.0, rho=rho)
        t.initialize(lib.StubAlgo(S, T))
    else:
        t = tt.CpCtFromTwo(pd.DataFrame(dict(ws=list(ws), cp=list(cp))), pd.DataFrame(dict(ws=list(ws), ct=list(ct))), D=D, H=90.0, rho=rho)
        t.initialize(lib.StubAlgo(S, T))
    fd, old = farm_data(ctx, S, T)
    n = int((ws[1] - ws[0]) / 1e-4)
    j = ctx.choice("nodes", [(a, (a + 1) % n) for a in range(n)])
    g = np.linspace(ws[0], ws[1], n)
    for i in range(T):
        fd[FV.REWS3][0, i] = old[FV.REWS3][0, i] = ctx.const(g[j[i]])
        fd[FV.RHO][0, i] = old[FV.RHO][0, i] = ctx.const(rho)
    ss, pairs = select(ctx, sel, S, T)
    out = t.calculate(None, None, fd, st_sel=ss)

    def spec(v, s, i):
        if v == FV.P:
            w = g[j[i]]
            c = cp[0] + (w - ws[0]) / (ws[1] - ws[0]) * (cp[1] - cp[0])
            return c * rho * np.pi * (D / 2) ** 2 * w**3 / 2 / 1000
        return lin(old[FV.REWS2][s, i], ws, ct)

    compare(ctx, out, fd, old, pairs, spec)


@case("P16", quick=[{}], bounds=B, budget_s=20)
def null_type(ctx):
    fd, old = farm_data(ctx, 1, 2)
    t = tt.NullType(D=1.0, H=1.0)
    out = t.calculate(None, None, fd, st_sel=np.s_[:])
    ctx.true("no results", out == {})
    for v in old:
        ctx.eq_arr(v + " unchanged", fd[v], old[v])


CUT = [dict(cls=c, mct=a, mP=b, first=f) for c in ("PCtFile", "PCtFromTwo") for a, b in ((True, False), (False, True), (True, True)) for f in (True, False)]


@case("P16", quick=CUT, bounds=B + "; 4 smoothing steps, 3 iterations, a = b = 0.55; curve with or without a zero first row", budget_s=240, branch_ms=500)
def cutin(ctx, cls, mct, mP, first):
    """smoothing at cut-in: a ramp from zero that does not decrease and joins the curve, which is unchanged from cut-in upwards; the other curve is unchanged"""
    P, ct = _curves(ctx)
    lo = 0
    if first:
        P[0], ct[0] = 0 * P[0], 0 * ct[0]
        lo = 1
    for i in range(lo, 3):
        ctx.assume((P[i] >= 1) & (ct[i] >= 0.01))
    new = []
    for k in range(2):
        t = _type(ctx, cls, P, ct, D=100.0, H=90.0)
        t.initialize(lib.StubAlgo(1, 1))
        if k:
            t.modify_cutin(modify_ct=mct, modify_P=mP, steps=4, iterations=3)
        new.append(t)
    ws = ctx.real("ws", 0, 30)
    ws2 = ctx.real("ws2", 0, 30)

    def ev(t, w):
        f = lib.fdata({v: lib.filled(ctx, (1, 1), ctx.const(0)) for v in (FV.REWS2, FV.REWS3, FV.P, FV.CT)})
        f[FV.REWS2][0, 0] = f[FV.REWS3][0, 0] = w
        o = t.calculate(None, None, f, st_sel=np.s_[:, :])
        return {v: o[v][0, 0] for v in (FV.P, FV.CT)}

    wc = WS[lo]
    a, b = ev(new[0], ws), ev(new[1], ws)
    for v, m in ((FV.P, mP), (FV.CT, mct)):
        if not m:
            ctx.eq(v + " not modified", b[v], a[v])
        elif ws >= wc:
            ctx.eq(v + " above cut-in", b[v], a[v])
        else:
            top = (P if v == FV.P else ct)[lo]
            ctx.between(v + " ramp", b[v], 0, top)
            if ws == 0:
                ctx.eq(v + " at rest", b[v], 0)
            if ws2 <= ws:
                ctx.le(v + " ramp does not decrease", ev(new[1], ws2)[v], b[v])
