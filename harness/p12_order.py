"""Turbine numbering, calculation order and per-turbine settings"""
import numpy as np
import pandas as pd
import foxes
import foxes.variables as FV
import foxes.constants as FC
import foxes.models.turbine_models as tm
from symx.runner import case
from . import lib

class Wake(foxes.models.wake_models.axisymmetric.AxisymmetricWakeModel):
    """a deficit that is linear in the data of the causing turbine"""

    def __init__(self):
        super().__init__({FV.WS: "ws_linear"})
        self.wake_k = foxes.core.WakeK()

    def sub_models(self):
        return super().sub_models() + [self.wake_k]

    def calc_wakes_x_r(self, algo, mdata, fdata, tdata, downwind_index, x, r):
        kw = dict(upcast=False, algo=algo, fdata=fdata, tdata=tdata, downwind_index=downwind_index)
        ct = self.get_data(FV.CT, FC.STATE_TARGET, lookup="w", **kw)
        D = self.get_data(FV.D, FC.STATE_TARGET, lookup="w", **kw)
        sel = x > 1e-8
        k = self.wake_k(FC.STATE_TARGET, lookup_ti="w", lookup_k="sw", **kw)
        w = -0.5 * ((ct * 0.4 + k + D / 10000) * (1 + x / 10000))[:, :, None] + r / 10000000
        return {FV.WS: w[sel]}, sel


XY = [(0.0, 0.0), (520.0, 30.0), (1010.0, -40.0)]
B = ("Downwind or Iterative algorithm, 3 turbines (one symbolic state, or two states with opposite wind) at fixed positions, all numberings of the turbines or one rotation of them; "
     "symbolic wind speeds and values per turbine; wake deficit linear in ct, k and D of the causing turbine")
PERMS = [(0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]


def run(ctx, perm, setup, models, wd, ws, types=None, cls="Downwind", D=None, H=None, sels=None, ti=None, rotor="centre", outputs=None, chunk=None, XY=XY):
    """farm results, sorted back into the original numbering"""
    T = len(perm)
    mb = foxes.ModelBook()
    for n, t in (types or {"T": dict()}).items():
        mb.turbine_types[n] = lib.turbine_type(ctx, **{**dict(ws=(0.0, 50.0), P=[ctx.const(0.0), ctx.const(5000.0)]), **t})
    mb.wake_models["stub"] = Wake()
    farm = foxes.WindFarm()
    for i, j in enumerate(perm):
        farm.add_turbine(foxes.Turbine(
            xy=XY[j] if isinstance(XY, np.ndarray) else ctx.arr(list(XY[j])), name=f"t{j}", turbine_models=models(j), D=None if D is None else D[j], H=None if H is None else H[j],
            models_state_sel=None if sels is None else sels(j)), verbosity=0)
    setup(mb, list(perm))
    S = len(wd)
    w, d, q = ctx.empty((S,)), ctx.empty((S,)), ctx.empty((S,))
    for s in range(S):
        w[s], d[s], q[s] = ws[s], ctx.const(wd[s]), ctx.const(0.08) if ti is None else ti[s]
    df = pd.DataFrame(index=np.arange(S), data={FV.WS: w, FV.WD: d, FV.TI: q})
    st = foxes.input.states.StatesTable(df, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], fixed_vars={FV.RHO: ctx.const(1.1)})
    with lib.engine("SingleChunkEngine" if chunk is None else "NumpyEngine", **({} if chunk is None else dict(chunk_size_states=chunk))):
        kw = dict(max_it=20) if cls == "Iterative" else {}
        algo = getattr(foxes.algorithms, cls)(farm, st, wake_models=["stub"], rotor_model=rotor, partial_wakes="centre", mbook=mb, verbosity=0, **kw)
        r = algo.calc_farm(outputs=outputs)
    out = {}
    for v in r.data_vars:
        if r[v].dims[:2] == (FC.STATE, FC.TURBINE):
            a = r[v].to_numpy()
            b = a.copy()
            for i, j in enumerate(perm):
                b[:, j] = a[:, i]
            out[v] = b
    names = list(r[FC.TNAME].to_numpy())
    ctx.true("turbine names", names == [f"t{j}" for j in perm], f"{names}")
    return out, r


SKIP = (FV.ORDER, FV.ORDER_INV, FV.ORDER_SSEL)


def same(ctx, a, b, what=""):
    ctx.true("same variables", set(a) == set(b))
    for v in a:
        if v not in SKIP:
            ctx.eq_arr(what + v, b[v], a[v])


def order_ok(ctx, r, perm, wd):
    """order: upstream first; order_inv: its inverse"""
    o, oi = (np.asarray(r[v].to_numpy()).astype(int) for v in (FV.ORDER, FV.ORDER_INV))
    for s in range(len(wd)):
        a = np.deg2rad(wd[s])
        n = -np.sin(a), -np.cos(a)
        x = [XY[j][0] * n[0] + XY[j][1] * n[1] for j in perm]
        ctx.true("order", list(o[s]) == list(np.argsort(x)), f"{o[s]} for {x}")
        ctx.true("order_inv", [int(o[s][k]) for k in oi[s]] == list(range(len(perm))), f"{o[s]} {oi[s]}")


def _ws(ctx, S):
    ws = ctx.empty((S,))
    ws[0] = ctx.real("ws", 6, 9.5)
    if S > 1:
        ws[1:] = ctx.arr([7.25, 8.5][: S - 1])
    return ws


def twice(ctx, perms, wd, **kw):
    p = ctx.choice("perm", perms)
    a, r = run(ctx, (0, 1, 2), wd=wd, **kw)
    order_ok(ctx, r, (0, 1, 2), wd)
    b, r = run(ctx, p, wd=wd, **kw)
    order_ok(ctx, r, p, wd)
    same(ctx, a, b)
    return a


WDS = [(270.0,), (90.0,), (200.0,), (270.0, 90.0)]


@case("P12", quick=[dict(wd=w, cls=c, pre=p) for w, c, p in (
    ((270.0,), "Downwind", False), ((90.0,), "Downwind", True), ((270.0, 90.0), "Downwind", False), ((270.0, 90.0), "Downwind", True),
    ((90.0,), "Iterative", True), ((270.0, 90.0), "Iterative", False))],
      thorough=[dict(wd=w, cls=c, pre=p, perms=PERMS) for w in WDS + [(90.0, 270.0, 45.0)] for c in ("Downwind", "Iterative") for p in (False, True)], bounds=B, budget_s=200)
def set_vars(ctx, wd, cls, pre, perms=None):
    """values given per state and turbine reach their turbine, and the results do not depend on the numbering"""
    S = len(wd)
    k = ctx.arr((0.03 + 0.01 * np.arange(S * 3)).reshape(S, 3).tolist())
    k[-1] = ctx.reals("k", 3, 0.02, 0.2)

    def setup(mb, perm):
        m = tm.SetFarmVars(pre_rotor=pre)
        m.add_var(FV.K, k[:, perm])
        mb.turbine_models["s"] = m

    a = twice(ctx, perms or PERMS[2:4], wd, setup=setup, models=lambda j: ["s", "T"] if pre else ["T", "s"], ws=_ws(ctx, S), cls=cls)
    ctx.eq_arr("given values", a[FV.K], k)


@case("P12", quick=[dict(wd=w, cls=c, seldim=n) for w, c, n in (((270.0,), "Downwind", 1), ((270.0, 90.0), "Downwind", 2), ((270.0, 90.0), "Iterative", 1))],
      thorough=[dict(wd=w, cls=c, seldim=n, perms=PERMS) for w in WDS for c in ("Downwind", "Iterative") for n in (1, 2)], bounds=B + "; every selection of states for two of the models", budget_s=300)
def model_sels(ctx, wd, cls, seldim, perms=None):
    """models with state selections act for their own turbine, their own selection and nothing else"""
    S = len(wd)
    m0 = lib.boolmask(ctx, "sel0", (S,))
    m1 = lib.boolmask(ctx, "sel1", (S,)) if seldim > 1 else np.array([True, False][:S])
    v = ctx.reals("v", 3, 0.02, 0.1)

    def setup(mb, perm):
        for i, (x, pre) in enumerate(((0.05, True), (v[0], False), (v[1], False), (v[2], False))):
            m = tm.SetFarmVars(pre_rotor=pre)
            m.add_var(FV.K, x)
            mb.turbine_models[f"s{i}"] = m

    # base value before the rotor, later models replace it where selected
    models = lambda j: ["s0", "T", "s1"] if j == 0 else (["s0", "T", "s1", "s2"] if j == 1 else ["s0", "T", "s3"])
    sels = lambda j: [None, None, m0] if j == 0 else ([None, None, m1, m0] if j == 1 else [None, None, m1])
    a = twice(ctx, perms or PERMS[3:4], wd, setup=setup, models=models, sels=sels, ws=_ws(ctx, S), cls=cls)
    for s in range(S):
        ctx.eq("first turbine", a[FV.K][s, 0], v[0] if m0[s] else 0.05)
        ctx.eq("second turbine", a[FV.K][s, 1], v[1] if m0[s] else (v[0] if m1[s] else 0.05))
        ctx.eq("third turbine", a[FV.K][s, 2], v[2] if m1[s] else 0.05)


@case("P12", quick=[dict(wd=(270.0,)), dict(wd=(90.0, 270.0))], thorough=[dict(wd=w, perms=PERMS) for w in WDS], bounds=B, budget_s=200)
def types(ctx, wd, perms=None):
    """each turbine uses the curves, diameter and hub height of its own type, or its own diameter and hub height"""
    S = len(wd)
    ct = ctx.reals("ct", 2, 0.2, 0.8)
    Pn = ctx.reals("Pn", 2, 1000, 4000)
    D = ctx.real("D", 60, 140)
    H = ctx.real("H", 60, 140)
    types = {"T": dict(ct=[ct[0]] * 2, P=[Pn[0]] * 2, D=80.0, H=70.0), "U": dict(ct=[ct[1]] * 2, P=[Pn[1]] * 2, D=110.0, H=100.0)}
    own = [0, 1, 0]
    a = twice(ctx, perms or PERMS[2:3], wd, setup=lambda mb, perm: None, models=lambda j: ["TU"[own[j]], "kTI_02"], types=types,
              D=[None, None, D], H=[H, None, None], ws=_ws(ctx, S))
    for s in range(S):
        for j in range(3):
            ctx.eq("ct", a[FV.CT][s, j], ct[own[j]])
            ctx.eq("P", a[FV.P][s, j], Pn[own[j]])
            ctx.eq("D", a[FV.D][s, j], D if j == 2 else (80, 110)[own[j]])
            ctx.eq("H", a[FV.H][s, j], H if j == 0 else (70, 100)[own[j]])
            ctx.eq("X", a[FV.X][s, j], XY[j][0])
            ctx.eq("Y", a[FV.Y][s, j], XY[j][1])


@case("P12", quick=[dict(wd=(90.0,)), dict(wd=(270.0, 90.0))], thorough=[dict(wd=w, perms=PERMS) for w in WDS], bounds=B + "; power curves with one value above 3 m/s", budget_s=300)
def masks(ctx, wd, perms=None):
    """sector management and power limits act on the right turbines"""
    S = len(wd)
    P0 = (1000.0, 2000.0)
    types = {n: dict(ct=[ctx.const(0.7)] * 2, P=[ctx.const(P0[i])] * 2, D=100.0, H=90.0, P_nominal=ctx.const(P0[i])) for i, n in enumerate("TU")}
    mp = ctx.reals("mp", 2, 300, 900)
    lim = ctx.real("lim", 100, 260)

    def setup(mb, perm):
        m = tm.SetFarmVars()
        m.add_var(FV.MAX_P, ctx.const(50000.0))
        mb.turbine_models["i"] = m
        df = pd.DataFrame(dict(nm=["t2", "t0"], WD_min=[lim, ctx.const(0)], WD_max=[ctx.const(300), ctx.const(360)], MAXP=[mp[0], mp[1]]))
        mb.turbine_models["sm"] = tm.SectorManagement(df, range_vars=[FV.WD], target_vars=[FV.MAX_P], col_tnames="nm")

    a = twice(ctx, perms or PERMS[2:3], wd, setup=setup, models=lambda j: ["TUU"[j], "kTI_02", "i", "sm"], types=types, ws=_ws(ctx, S))
    for s in range(S):
        ctx.eq("first", a[FV.MAX_P][s, 0], mp[1])
        ctx.eq("second", a[FV.MAX_P][s, 1], 50000)
        ctx.eq("third", a[FV.MAX_P][s, 2], mp[0] if lim <= wd[s] else 50000)


@case("P12", quick=[dict(wd=(270.0,), var=FV.H), dict(wd=(270.0, 90.0), var=FV.D), dict(wd=(270.0, 90.0), var=FV.X), dict(wd=(270.0, 90.0), var=FV.H, chunk=1)],
      thorough=[dict(wd=w, var=v, perms=PERMS) for w in WDS for v in (FV.X, FV.Y, FV.D, FV.H)], bounds=B, budget_s=200)
def geometry(ctx, wd, var, perms=None, chunk=None):
    """state dependent positions, diameters and hub heights per turbine"""
    S = len(wd)
    g = ctx.empty((S, 3))
    for s in range(S):
        for j in range(3):
            g[s, j] = ctx.const(dict(X=XY[j][0], Y=XY[j][1], D=100.0, H=90.0)[var] + 3 * j + s)
    g[0, 1] = ctx.real("g", 500, 560) if var == FV.X else (ctx.real("g", 10, 50) if var == FV.Y else ctx.real("g", 70, 120))

    def setup(mb, perm):
        m = tm.SetFarmVars(pre_rotor=True)
        m.add_var(var, g[:, perm])
        mb.turbine_models["s"] = m

    a = twice(ctx, perms or PERMS[2:3], wd, setup=setup, models=lambda j: ["s", "T", "kTI_02"], ws=_ws(ctx, S), chunk=chunk)
    ctx.eq_arr("given values", a[var], g)


@case("P12", quick=[dict(wd=(270.0,)), dict(wd=(90.0,))], thorough=[dict(wd=w) for w in WDS], bounds=B, budget_s=200)
def causality(ctx, wd):
    """settings of a turbine have no influence on those upstream of it, and turbines far aside do not matter at all"""
    S = len(wd)
    ws = _ws(ctx, S)
    res = []
    j0 = 2 if wd[0] == 270.0 else 0  # the most downstream one
    for i in range(2):
        ct = ctx.reals(f"ct{i}", 3, 0.2, 0.8)
        types = {f"T{j}": dict(ct=[ct[j] if j == j0 else ctx.const(0.5 + j / 10)] * 2, D=100.0) for j in range(3)}
        res.append((run(ctx, (0, 1, 2), setup=lambda mb, perm: None, models=lambda j: [f"T{j}", "kTI_02"], types=types, wd=wd, ws=ws)[0], ct))
    (a, c1), (b, c2) = res
    for s in range(S):
        if wd[s] != wd[0]:
            continue
        for j in range(3):
            for v in (FV.REWS, FV.WS, FV.WD, FV.TI, FV.P, FV.K, FV.AMB_REWS, FV.AMB_WS):
                if v in a:
                    ctx.eq(f"{v} upstream", b[v][s, j], a[v][s, j])
            ctx.eq("ct", a[FV.CT][s, j], c1[j] if j == j0 else 0.5 + j / 10)
            ctx.eq("ambient", a[FV.AMB_REWS][s, j], ws[s])
        ctx.eq("first turbine sees the free stream", a[FV.REWS][s, 2 - j0], ws[s])


@case("P12", quick=[dict(wd=(270.0, 90.0), chunk=None), dict(wd=(270.0, 270.0, 90.0), chunk=1), dict(wd=(270.0, 90.0, 270.0), chunk=2)],
      thorough=[dict(wd=w, chunk=c, perms=PERMS) for w in [(270.0, 90.0), (90.0, 270.0, 45.0), (270.0, 270.0, 90.0)] for c in (None, 1, 2)], bounds=B + "; positions, diameters and hub heights of turbines given for each state, chunks of 1 or 2 states", budget_s=200)
def moving_turbines(ctx, wd, chunk, perms=None):
    """turbines with positions, diameters and hub heights that are given for each state"""
    S = len(wd)
    xy = ctx.empty((3, S, 2))
    for j in range(3):
        for s in range(S):
            for c in range(2):
                xy[j, s, c] = ctx.const(XY[j][c] + 5 * s + j * c)
    xy[1, S - 1, 0] = ctx.real("x", 500, 560)
    D, H = ctx.reals("D", S, 70, 120), ctx.reals("H", S, 70, 120)
    ws = _ws(ctx, S)
    res = []
    for perm in ((0, 1, 2), ctx.choice("perm", perms or PERMS[2:4])):
        res.append(run(ctx, perm, setup=lambda mb, p: None, models=lambda j: ["T", "kTI_02"], wd=wd, ws=ws, chunk=chunk,
                       D=[D, None, None], H=[None, None, H], XY=xy)[0])
    a, b = res
    same(ctx, a, b)
    for s in range(S):
        for j in range(3):
            ctx.eq("X", a[FV.X][s, j], xy[j, s, 0])
            ctx.eq("Y", a[FV.Y][s, j], xy[j, s, 1])
            ctx.eq("H", a[FV.H][s, j], H[s] if j == 2 else 100)
            ctx.eq("D", a[FV.D][s, j], D[s] if j == 0 else 100)
