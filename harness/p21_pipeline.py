"""complete calculations of farm and point results"""
import numpy as np
import pandas as pd
import foxes
import foxes.variables as FV
import foxes.constants as FC
from symx.runner import case
from . import lib

# deficits of wind speed and turbulence, linear in thrust, wake growth and lateral position
XY = [(0.0, 0.0), (500.0, 100.0), (1100.0, -100.0)]
N = {270.0: (1, 0), 90.0: (-1, 0), 0.0: (0, -1), 180.0: (0, 1)}


class Lin(foxes.models.wake_models.dist_sliced.DistSlicedWakeModel):
    def __init__(self, a, var=FV.WS, sup="ws_linear_amb", up=False):
        super().__init__({var: sup})
        self.a, self.var, self.up = a, var, up

    @property
    def affects_downwind(self):
        return not self.up

    def new_wake_deltas(self, algo, mdata, fdata, tdata):
        return {self.var: np.zeros_like(tdata[FC.TARGETS][..., 0])}

    def calc_wakes_x_yz(self, algo, mdata, fdata, tdata, downwind_index, x, yz):
        kw = dict(upcast=False, algo=algo, fdata=fdata, tdata=tdata, downwind_index=downwind_index)
        ct = self.get_data(FV.CT, FC.STATE_TARGET, lookup="w", **kw)
        k = self.get_data(FV.K, FC.STATE_TARGET, lookup="w", **kw)
        sel = x < -1e-6 if self.up else x > 1e-6
        return {self.var: self.value(ct[:, :, None], k[:, :, None], x[:, :, None], yz[..., 0], yz[..., 1])[sel]}, sel

    def value(self, ct, k, x, y, z):
        s = 1 if self.var == FV.TI else -1
        return s * (self.a * ct + k / 4) * (1 + abs(x) / 10000) * (1 + y / 2000 + z / 1000)


# name: (strength, variable, superposition)
MODELS = dict(
    A=(0.2, FV.WS, "ws_linear_amb"),
    B=(0.1, FV.WS, "ws_linear"),
    M=(0.15, FV.WS, "ws_max_amb"),
    P=(0.15, FV.WS, "ws_product"),
    Q=(0.1, FV.WS, "ws_product"),
    L=(0.3, FV.WS, "ws_linear_amb_lim"),
    T=(0.02, FV.TI, "ti_linear_lin"),
    X=(0.03, FV.TI, "ti_max_lin"),
)


def combine(sup, deltas, amb, rews, ambs):
    """total change due to the relative changes of the causing turbines"""
    if not deltas:
        return 0
    if sup.startswith("ti"):
        m = sum(deltas) if sup == "ti_linear_lin" else _max(deltas)
        return m
    if sup == "ws_product":
        f = 1
        for d in deltas:
            f = f * (1 + d)
        return amb * f - amb
    sc = rews if sup == "ws_linear" else ambs
    w = [d * s for d, s in zip(deltas, sc)]
    if sup == "ws_max_amb":
        return -_max([-x for x in w])
    w = sum(w)
    if sup.endswith("lim"):
        return w if w > 6 - amb else 6 - amb
    return w


def _max(l):
    m = l[0]
    for x in l[1:]:
        m = x if x > m else m
    return m


CT0, CT1 = 0.9, 0.4


class Spec:
    """results of the turbines of one state, from upstream to downstream"""

    def __init__(self, ctx, models, wd, ws, ti, xyh, shear=0):
        self.ctx, self.m, self.n, self.amb, self.shear = ctx, models, N[wd], {FV.WS: ws, FV.TI: ti}, shear
        T = len(xyh)
        self.xyh = xyh
        self.r = {}
        up = models[0] == "I"
        order = sorted(range(T), key=lambda i: float(self.pos(XY[i])[0]) * (-1 if up else 1))
        self.order = order[::-1] if up else order
        for i in order:
            w, t = self.at(xyh[i])
            self.r[i] = dict(ws=w, ti=t, amb=self.ambient(xyh[i])[FV.WS], k=t / 2, ct=CT0 + (CT1 - CT0) * w / 50, P=100 * w)

    def pos(self, p):
        """downstream and left coordinates"""
        return self.n[0] * p[0] + self.n[1] * p[1], -self.n[1] * p[0] + self.n[0] * p[1]

    def ambient(self, p):
        if not self.shear:
            return dict(self.amb)
        return {FV.WS: self.amb[FV.WS] * (1 + (p[2] - 100) * self.shear), FV.TI: self.amb[FV.TI]}

    def at(self, p):
        """wind speed and turbulence at a point"""
        amb = self.ambient(p)
        out = dict(amb)
        x, y = self.pos(p)
        for m in self.m:
            a, var, sup = MODELS.get(m) or (0.1, FV.WS, "ws_linear_amb")
            l = Lin(a, var, sup)
            d, rews, ambs = [], [], []
            for j, r in self.r.items():
                xj, yj = self.pos(self.xyh[j])
                if (x < xj) if m == "I" else (x > xj):
                    d.append(l.value(r["ct"], r["k"], x - xj, y - yj, p[2] - self.xyh[j][2]))
                    rews.append(r["ws"])
                    ambs.append(r["amb"])
            out[var] = out[var] + combine(sup, d, amb[var], rews, ambs)
        return out[FV.WS], out[FV.TI]


def values(ctx, S):
    """the state with any wind speed and turbulence"""
    return ctx.choice("focus", range(S)) if S > 1 else 0, ctx.real("ws", 8, 14), ctx.real("ti", 0.02, 0.2)


class Sheared(foxes.input.states.StatesTable):
    """wind speed that depends on the height"""

    shear = 0

    def calculate(self, algo, mdata, fdata, tdata):
        r = super().calculate(algo, mdata, fdata, tdata)
        if self.shear:
            r[FV.WS] = r[FV.WS] * (1 + (tdata[FC.TARGETS][..., 2] - 100) * self.shear)
        return r


def setup(ctx, cls, models, wd, T, xyh, vals=None, shear=0, **kw):
    mb = foxes.ModelBook()
    mb.turbine_types["T"] = lib.turbine_type(ctx, ws=(0.0, 50.0), P=[ctx.const(0.0), ctx.const(5000.0)], ct=[ctx.const(CT0), ctx.const(CT1)], P_nominal=ctx.const(5000.0))
    mb.turbine_models["kti"] = foxes.models.turbine_models.kTI(kTI=0.5)
    mb.wake_superpositions["ws_linear_amb_lim"] = foxes.models.wake_superpositions.WSLinear(scale_amb=True, lim_low=6)
    mb.wake_superpositions["ti_linear_lin"] = foxes.models.wake_superpositions.TILinear("linear")
    mb.wake_superpositions["ti_max_lin"] = foxes.models.wake_superpositions.TIMax("linear")
    for m in models:
        mb.wake_models[m] = Lin(0.1, up=True) if m == "I" else Lin(*MODELS[m])
    farm = foxes.WindFarm()
    for i in range(T):
        farm.add_turbine(foxes.Turbine(xy=ctx.arr(list(xyh[i][:2])), H=xyh[i][2], turbine_models=["T", "kti"], name=f"t{i}"), verbosity=0)
    S = len(wd)
    ws, ti, d, we = (ctx.empty((S,)) for _ in range(4))
    foc, w, t = vals or values(ctx, S)
    for s in range(S):
        ws[s] = w if s == foc else ctx.const(9 + s)
        ti[s] = t if s == foc else ctx.const(0.05)
        d[s] = ctx.const(wd[s])
        we[s] = ctx.const((1 + s) / 8)
    df = pd.DataFrame(index=np.arange(S) * 10 + 5, data={FV.WS: ws, FV.WD: d, FV.TI: ti, FV.WEIGHT: we})
    st = Sheared(df, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], fixed_vars={FV.RHO: ctx.const(1.1)})
    st.shear = shear
    if cls == "Iterative":
        kw = {**dict(max_it=T, conv_crit=None, mod_cutin=dict(modify_ct=False)), **kw}
    al = getattr(foxes.algorithms, cls)(farm, st, wake_models=models, partial_wakes=kw.pop("partial_wakes", "centre"), mbook=mb, verbosity=0, **kw)
    return al, [Spec(ctx, models, wd[s], ws[s], ti[s], xyh, shear) for s in range(S)], ws, ti, we


def geometry(ctx, T):
    """turbine positions, one of them with any lateral offset and height"""
    f = ctx.choice("moved", range(T))
    xyh = [list(XY[i]) + [ctx.const(100.0)] for i in range(T)]
    xyh[f][2] = ctx.real("h", 60, 140)
    return [tuple(p) for p in xyh]


def check_farm(ctx, r, specs, ws, ti, we, wd, T):
    S = len(wd)
    ctx.true("state index", list(r[FC.STATE].to_numpy()) == [10 * s + 5 for s in range(S)])
    g = lambda v: r[v].to_numpy()
    for s in range(S):
        ctx.true("order", [int(i) for i in g(FV.ORDER)[s]] == specs[s].order, f"{g(FV.ORDER)[s]}")
        for i in range(T):
            e = specs[s].r[i]
            a = e["amb"]
            for v, x in ((FV.REWS, e["ws"]), (FV.TI, e["ti"]), (FV.K, e["k"]), (FV.CT, e["ct"]), (FV.P, e["P"]), (FV.AMB_REWS, a), (FV.AMB_TI, ti[s]), (FV.WEIGHT, we[s]), (FV.WD, wd[s]),
                         (FV.AMB_WD, wd[s]), (FV.AMB_CT, CT0 + (CT1 - CT0) * a / 50), (FV.AMB_P, 100 * a), (FV.RHO, 1.1), (FV.X, specs[s].xyh[i][0]), (FV.Y, specs[s].xyh[i][1]), (FV.H, specs[s].xyh[i][2]), (FV.D, 100)):
                ctx.eq(v, g(v)[s, i] if v != FV.WEIGHT else g(v)[s], x, tol=1e-9)


ENG = {None: ("SingleChunkEngine", {}), 1: ("NumpyEngine", dict(chunk_size_states=1, chunk_size_points=1)), 2: ("NumpyEngine", dict(chunk_size_states=2, chunk_size_points=3))}
B = "{T} turbines at fixed positions, one of any height; states with wind directions {wd}, one with any wind speed and turbulence; wake models {models}, linear in thrust, wake growth and position; linear thrust curve"
FQ = [((270.0,), "A", 3, "Downwind"), ((90.0, 180.0), "B", 2, "Downwind"), ((90.0,), "B", 3, "Downwind"), ((180.0, 270.0), "A", 3, "Downwind"), ((180.0,), "AT", 3, "Downwind"), ((270.0,), "TA", 3, "Downwind"), ((180.0,), "PQ", 3, "Downwind"), ((90.0,), "AB", 3, "Downwind"),
      ((180.0,), "M", 3, "Downwind"), ((270.0, 90.0), "AX", 2, "Downwind"), ((270.0,), "I", 3, "Downwind"), ((90.0,), "L", 3, "Downwind"), ((270.0,), "ABT", 3, "Downwind"),
      ((180.0,), "AT", 3, "Iterative"), ((90.0,), "AI", 2, "Iterative")]


@case("P21", quick=[dict(wd=w, models=m, T=t, cls=c) for w, m, t, c in FQ[:-1]],
      thorough=[dict(wd=w, models=m, T=3, cls=c) for w in ((270.0,), (90.0, 180.0), (180.0, 270.0)) for m in ("A", "B", "AT", "TA", "PQ", "AB", "M", "L", "I", "AX", "ABT", "PT", "XB") for c in ("Downwind", "Iterative")],
      bounds=B, budget_s=250)
def farm(ctx, wd, models, T, cls):
    """farm results: every turbine is affected by all turbines upstream of it, and only by them, with their final thrust and wake growth"""
    xyh = geometry(ctx, T)
    ch = ctx.choice("chunks", [None, 1]) if len(wd) > 1 else None
    e, kw = ENG[ch]
    with lib.engine(e, **kw):
        al, specs, ws, ti, we = setup(ctx, cls, list(models), wd, T, xyh)
        r = al.calc_farm()
        check_farm(ctx, r, specs, ws, ti, we, wd, T)


def check_points(ctx, q, specs, ws, ti, wd, p, states=None):
    S = len(wd)
    states = list(range(S)) if states is None else states
    ctx.true("shape", q[FV.WS].dims == (FC.STATE, FC.POINT) and q[FV.WS].shape == (len(states), len(p)), f"{q[FV.WS].dims} {q[FV.WS].shape}")
    ctx.true("state index", list(q[FC.STATE].to_numpy()) == [10 * s + 5 for s in states])
    for n, s in enumerate(states):
        for i in range(len(p)):
            w, t = specs[s].at(p[i])
            for v, x in ((FV.WS, w), (FV.TI, t), (FV.AMB_WS, ws[s]), (FV.AMB_TI, ti[s]), (FV.WD, wd[s]), (FV.AMB_WD, wd[s]), (FV.RHO, 1.1)):
                ctx.eq("point " + v, q[v].to_numpy()[n, i], x, tol=1e-9)


def pts(ctx, wd):
    y = ctx.real("y", -300, 300)
    p = [(700.0, y, 90.0), (500.0, 100.0, 100.0), (-200.0, 0.0, 110.0), (2000.0, -50.0, 100.0)]
    return p


def parr(ctx, p, S=None):
    """points of all states, or for each state"""
    a = ctx.empty((len(p), 3) if S is None else (S, len(p), 3))
    for i, x in enumerate(p):
        for k in range(3):
            a[..., i, k] = x[k]
    return a


@case("P21", quick=[dict(wd=(270.0,), models="A", T=2, cls="Downwind"), dict(wd=(270.0, 90.0), models="B", T=2, cls="Downwind"), dict(wd=(270.0,), models="Q", T=3, cls="Downwind"), dict(wd=(90.0,), models="AT", T=3, cls="Iterative")],
      thorough=[dict(wd=w, models=m, T=t, cls=c) for w in ((270.0,), (90.0, 180.0)) for m in ("A", "B", "Q", "AT", "M", "I") for t in (2, 3) for c in ("Downwind", "Iterative")],
      bounds=B + "; ambient wind speed linear in the height, turbines of different height", budget_s=250)
def sheared(ctx, wd, models, T, cls):
    """turbines with different ambient wind: wakes are relative to the ambient conditions of the right turbine"""
    xyh = [XY[i] + (ctx.const((100.0, 120.0, 80.0)[i]),) for i in range(T)]
    p = [(ctx.const(XY[1][0] + 250.0), ctx.const(40.0), ctx.const(130.0)), xyh[T - 1]]
    q = ctx.empty((2, 3))
    for i in range(2):
        for c in range(3):
            q[i, c] = p[i][c] if hasattr(p[i][c], "e") else ctx.const(float(p[i][c]))
    ch = ctx.choice("chunks", [None, 1]) if len(wd) > 1 else None
    e, kw = ENG[ch]
    with lib.engine(e, **kw):
        al, specs, ws, ti, we = setup(ctx, cls, list(models), wd, T, xyh, shear=1 / 500)
        r = al.calc_farm()
        check_farm(ctx, r, specs, ws, ti, we, wd, T)
        pr = al.calc_points(r, q)
    for s in range(len(wd)):
        for i in range(2):
            w, t = specs[s].at(p[i])
            ctx.eq("wind speed at point", pr[FV.WS].to_numpy()[s, i], w, tol=1e-9)
            ctx.eq("turbulence at point", pr[FV.TI].to_numpy()[s, i], t, tol=1e-9)
            ctx.eq("ambient wind speed", pr[FV.AMB_WS].to_numpy()[s, i], specs[s].ambient(p[i])[FV.WS], tol=1e-9)


@case("P21", quick=[{}], bounds="2 turbines, any wind speed and turbulence, every order of a wake and an induction model")
def up_and_down(ctx):
    """the Downwind algorithm refuses wake models that act upstream together with models that act downstream"""
    xyh = [XY[i] + (ctx.const(100.0),) for i in range(2)]
    models = ctx.choice("models", [["A", "I"], ["I", "A"], ["A", "I", "T"], ["A", "T", "I"]])
    with lib.engine("SingleChunkEngine"):
        al, *_ = setup(ctx, "Downwind", models, (270.0,), 2, xyh)
        refused = False
        try:
            al.calc_farm()
        except KeyError:
            refused = True
        ctx.true("refused", refused)


@case("P21", quick=[dict(wd=w, models=m, T=t, cls=c) for w, m, t, c in (((270.0,), "A", 2, "Downwind"), ((90.0, 270.0), "B", 2, "Downwind"), ((270.0,), "TA", 2, "Downwind"), ((270.0,), "PQ", 2, "Downwind"), ((90.0,), "AL", 2, "Downwind"),
                                                                ((270.0,), "MX", 2, "Downwind"), ((270.0,), "I", 2, "Downwind"), ((270.0,), "AB", 2, "Iterative"))],
      thorough=[dict(wd=w, models=m, T=t, cls=c) for w in ((270.0,), (90.0, 270.0)) for m in ("A", "B", "AT", "TA", "PQ", "AB", "AL", "M", "L", "I", "MX", "PB") for t in (2, 3) for c in ("Downwind", "Iterative")],
      bounds=B + "; 4 points, one of any lateral position", budget_s=250)
def points(ctx, wd, models, T, cls):
    """point results: wakes of all turbines upstream of the point, with the thrust and wake growth of the farm results; at a turbine, its own wind speed"""
    xyh = [XY[i] + (ctx.const(100.0),) for i in range(T)]
    p = pts(ctx, wd)
    ch = ctx.choice("chunks", [None, 1, 2]) if len(wd) > 1 else None
    P = ctx.choice("points", [None, len(wd)])
    e, kw = ENG[ch]
    with lib.engine(e, **kw):
        al, specs, ws, ti, we = setup(ctx, cls, list(models), wd, T, xyh)
        r = al.calc_farm()
        q = al.calc_points(r, parr(ctx, p, P))
        check_points(ctx, q, specs, ws, ti, wd, p)
        if T > 1:
            for v, w in ((FV.WS, FV.REWS), (FV.TI, FV.TI), (FV.WD, FV.WD)):
                for s in range(len(wd)):
                    ctx.eq("point at turbine " + v, q[v].to_numpy()[s, 1], r[w].to_numpy()[s, 1], tol=1e-9)


@case("P21", quick=[dict(wd=(270.0, 90.0, 270.0), models="AT", cls=c, how=h) for c, h in (("Downwind", "isel"), ("Downwind", "sel"), ("Downwind", "slice"), ("Iterative", "isel"))],
      thorough=[dict(wd=(270.0, 90.0, 180.0), models=m, cls=c, how=h) for m in ("AT", "B", "PQ") for c in ("Downwind", "Iterative") for h in ("isel", "sel", "slice")],
      bounds="2 turbines, 3 states, one with any wind speed and turbulence, every subset of states; 4 points", budget_s=250)
def subset(ctx, wd, models, cls, how):
    """point results for a subset of the states"""
    xyh = [XY[i] + (ctx.const(100.0),) for i in range(2)]
    p = pts(ctx, wd)
    if how == "slice":
        sel = ctx.choice("sel", [(0, 2), (1, 3), (2, 3), (0, 3)])
        idx, kw = list(range(*sel)), dict(states_isel=slice(*sel))
    else:
        idx = list(ctx.choice("sel", [(0,), (2,), (1, 2), (0, 2), (0, 1, 2)]))
        kw = dict(states_isel=idx) if how == "isel" else dict(states_sel=[10 * i + 5 for i in idx])
    c, P = ctx.choice("chunks", [(None, None), (1, len(idx))])
    e, ek = ENG[c]
    with lib.engine(e, **ek):
        al, specs, ws, ti, we = setup(ctx, cls, list(models), wd, 2, xyh)
        r = al.calc_farm()
        q = al.calc_points(r, parr(ctx, p, P), **kw)
        check_points(ctx, q, specs, ws, ti, wd, p, idx)
        # the subset has no influence on later calculations
        q = al.calc_points(r, parr(ctx, p[1:2]))
        check_points(ctx, q, specs, ws, ti, wd, p[1:2])


class Double(foxes.core.PointDataModel):
    """a point model with the doubled wind speed"""

    def output_point_vars(self, algo):
        return ["twice"]

    def calculate(self, algo, mdata, fdata, tdata):
        tdata.add("twice", tdata[FV.WS] * 2 + tdata[FV.TI], (FC.STATE, FC.TARGET, FC.TPOINT))
        return {"twice": tdata["twice"]}


@case("P21", quick=[dict(wd=(90.0, 270.0), models="AT", cls="Downwind"), dict(wd=(90.0, 270.0), models="AT", cls="Iterative")], bounds="2 turbines, 2 states, one with any wind speed and turbulence; 4 points", budget_s=200)
def outputs(ctx, wd, models, cls):
    """selected outputs and point models at points; ambient results; farm results from another algorithm object"""
    xyh = [XY[i] + (ctx.const(100.0),) for i in range(2)]
    p = pts(ctx, wd)
    e, ek = ENG[ctx.choice("chunks", [None, 1])]
    other = ctx.choice("algo", [None, "Downwind", "Iterative"])
    what = ctx.choice("what", ["outputs", "model", "ambient", "ambient_none"])
    with lib.engine(e, **ek):
        al, specs, ws, ti, we = setup(ctx, cls, list(models), wd, 2, xyh)
        r = al.calc_farm()
        if other is not None:
            mb = al.mbook
            al = getattr(foxes.algorithms, other)(al.farm, al.states, wake_models=list(models), partial_wakes="centre", mbook=mb, verbosity=0)
        if what == "outputs":
            q = al.calc_points(r, parr(ctx, p), outputs=[FV.AMB_WS, FV.TI])
            ctx.true("variables", set(q.data_vars) == {FV.AMB_WS, FV.TI}, f"{list(q.data_vars)}")
            for s in range(2):
                for i in range(4):
                    ctx.eq("TI", q[FV.TI].to_numpy()[s, i], specs[s].at(p[i])[1], tol=1e-9)
                    ctx.eq("AMB_WS", q[FV.AMB_WS].to_numpy()[s, i], ws[s])
        elif what == "model":
            q = al.calc_points(r, parr(ctx, p), point_models=Double())
            for s in range(2):
                for i in range(4):
                    w, t = specs[s].at(p[i])
                    ctx.eq("point model", q["twice"].to_numpy()[s, i], 2 * w + t, tol=1e-9)
                    ctx.eq("WS", q[FV.WS].to_numpy()[s, i], w, tol=1e-9)
        else:
            q = al.calc_points(None if what == "ambient_none" else r, parr(ctx, p), ambient=True)
            ctx.true("variables", FV.WS not in q and FV.TI not in q)
            for s in range(2):
                for i in range(4):
                    ctx.eq("AMB_WS", q[FV.AMB_WS].to_numpy()[s, i], ws[s])
                    ctx.eq("AMB_TI", q[FV.AMB_TI].to_numpy()[s, i], ti[s])


@case("P21", quick=[dict(wd=(90.0, 270.0), models="AT", cls=c) for c in ("Downwind", "Iterative")], bounds="2 or 3 turbines, 2 states, one with any wind speed and turbulence", budget_s=200)
def extra_turbine(ctx, wd, models, cls):
    """a further turbine does not change the results of the turbines upstream of it"""
    xyh = [XY[i] + (ctx.const(100.0),) for i in range(3)]
    vals = values(ctx, 2)
    with lib.engine("SingleChunkEngine"):
        al, specs, ws, ti, we = setup(ctx, cls, list(models), wd, 3, xyh, vals)
        a = al.calc_farm()
        al, specs, ws, ti, we = setup(ctx, cls, list(models), wd, 2, xyh, vals)
        b = al.calc_farm()
    for v in (FV.REWS, FV.CT, FV.P, FV.TI, FV.K, FV.AMB_REWS, FV.AMB_P):
        for s in range(2):
            if wd[s] == 270.0:
                ctx.eq_arr(v, a[v].to_numpy()[s, :2], b[v].to_numpy()[s])
            else:
                ctx.eq(v, a[v].to_numpy()[s, 2], {FV.REWS: ws[s], FV.AMB_REWS: ws[s], FV.TI: ti[s], FV.K: ti[s] / 2, FV.P: 100 * ws[s], FV.AMB_P: 100 * ws[s], FV.CT: CT0 + (CT1 - CT0) * ws[s] / 50}[v])
