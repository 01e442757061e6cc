"""Iterative and Sequential algorithms"""
import contextlib
import io
import numpy as np
import pandas as pd
import xarray as xr
import foxes
import foxes.variables as FV
import foxes.constants as FC
import foxes.models.turbine_models as tm
from foxes.algorithms.iterative import models as im
from symx.runner import case
from . import lib


class Both(foxes.models.wake_models.axisymmetric.AxisymmetricWakeModel):
    """a deficit on both sides of the rotor, linear in the thrust coefficient of the causing turbine"""

    def __init__(self, up=0.1, down=0.3):
        super().__init__({FV.WS: "ws_linear_amb"})
        self.up, self.down = up, down

    @property
    def affects_downwind(self):
        return self.down != 0

    def calc_wakes_x_r(self, algo, mdata, fdata, tdata, downwind_index, x, r):
        ct = self.get_data(FV.CT, FC.STATE_TARGET, lookup="w", upcast=False, algo=algo, fdata=fdata, tdata=tdata, downwind_index=downwind_index)
        sel = np.abs(x) > 1e-6
        a = np.where(x > 0, self.down * (1 + x / 10000), self.up * (1 + x / 20000))
        w = -(ct * a)[:, :, None] * (1 + r / 1000)
        return {FV.WS: w[sel]}, sel


XY = [(0.0, 0.0), (500.0, 0.0), (1100.0, 0.0)]
# east or west of each other, so that distances are exact
SGN = {270.0: 1, 90.0: -1}


def weights_of(m, wd, T, xy=XY):
    """deficit factor at turbine i due to turbine j, per unit of thrust"""
    c = np.zeros((T, T))
    for i in range(T):
        for j in range(T):
            x = SGN[wd] * (xy[i][0] - xy[j][0])
            if i != j:
                c[i, j] = (m.down * (1 + x / 10000) if x > 0 else m.up * (1 + x / 20000)) * (1 + abs(xy[i][1] - xy[j][1]) / 1000)
    return c


def make(ctx, cls, T, wd, ws, wakes, ct=(0.9, 0.4), xy=XY, models=None, setup=None, ti=False, **kw):
    mb = foxes.ModelBook()
    mb.turbine_types["T"] = lib.turbine_type(ctx, ws=(0.0, 50.0), P=[ctx.const(0.0), ctx.const(5000.0)], ct=[ctx.const(c) for c in ct])
    for i, w in enumerate(wakes):
        mb.wake_models[f"w{i}"] = w
    if setup is not None:
        setup(mb)
    farm = lib.farm_of(ctx, xy[:T], models=None if models is None else [models] * T, names=[f"t{i}" for i in range(T)])
    S = len(wd)
    d = ctx.empty((S,))
    for s in range(S):
        d[s] = ctx.const(wd[s])
    df = pd.DataFrame(index=np.arange(S) * 3 + 2, data={FV.WS: ws, FV.WD: d})
    st = foxes.input.states.StatesTable(df, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], fixed_vars={FV.RHO: ctx.const(1.1), FV.TI: ctx.const(0.08)})
    if cls != "Downwind":
        kw.setdefault("mod_cutin", dict(modify_ct=False))
    kw = {**dict(partial_wakes="centre"), **kw}
    return getattr(foxes.algorithms, cls)(farm, st, wake_models=[f"w{i}" for i in range(len(wakes))], mbook=mb, verbosity=0, **kw)


def ref(ws, C, ct, n, u=0, u_ws=0):
    """state of the fixed point iteration after n steps: wind speeds and thrust coefficients per turbine"""
    T = len(C)
    f = lambda w: ct[0] + (ct[1] - ct[0]) * w / 50
    c = [f(ws)] * T
    w = None
    for k in range(n):
        w1 = [ws - sum(C[i][j] * c[j] * ws for j in range(T) if j != i) for i in range(T)]
        c1 = [f(x) for x in w1]
        if k > 0:
            w1 = [u_ws * a + (1 - u_ws) * b for a, b in zip(w, w1)]
            c1 = [u * a + (1 - u) * b for a, b in zip(c, c1)]
        w, c = w1, c1
    return w, c


def check(ctx, r, ws, wd, C, n, ct=(0.9, 0.4), **kw):
    for s in range(len(wd)):
        w, c = ref(ws[s], C[s], ct, n, **kw)
        for i in range(len(w)):
            ctx.eq("wind speed", r[FV.REWS].to_numpy()[s, i], w[i])
            ctx.eq("thrust coefficient", r[FV.CT].to_numpy()[s, i], c[i])
            ctx.eq("ambient wind speed", r[FV.AMB_REWS].to_numpy()[s, i], ws[s])


def _ws(ctx, S):
    ws = ctx.empty((S,))
    for s in range(S):
        ws[s] = ctx.real(f"ws{s}", 6, 12)
    return ws


WDS = [(270.0,), (90.0,), (270.0, 90.0)]
B = "{T} turbines on a line, states with wind directions {wd}, any wind speeds; deficits linear in the thrust coefficient, linear thrust curve"


@case("P18", quick=[dict(wd=w, T=t, n=n, chunk=c) for w, t, n, c in (((270.0,), 3, 2, None), ((90.0,), 3, 3, None), ((270.0, 90.0), 2, 3, 1), ((270.0, 90.0), 3, 1, 1))],
      thorough=[dict(wd=w, T=3, n=n, chunk=c) for w in WDS for n in (1, 2, 3, 4) for c in (None, 1)], bounds=B + "; {n} iterations", budget_s=200)
def coupled(ctx, wd, T, n, chunk):
    """turbines that act on each other in both directions: the results are those of the n-th fixed point iteration"""
    S = len(wd)
    ws = _ws(ctx, S)
    split = ctx.choice("models", [False, True])
    m = Both()
    wakes = [Both(up=0), Both(down=0)] if split else [m]
    with lib.engine("SingleChunkEngine" if chunk is None else "NumpyEngine", **({} if chunk is None else dict(chunk_size_states=chunk))):
        al = make(ctx, "Iterative", T, wd, ws, wakes, max_it=n - 1, conv_crit=None)
        r = al.calc_farm()
        ctx.true("iterations", al.iterations == n - 1)
        check(ctx, r, ws, wd, [weights_of(m, d, T) for d in wd], n)
        # a second calculation starts from the beginning
        r = al.calc_farm()
        check(ctx, r, ws, wd, [weights_of(m, d, T) for d in wd], n)


@case("P18", quick=[dict(wd=w, T=2, entry=e, var=v, chunk=c) for w, e, v, c in (((270.0,), "pre_wake", FV.CT, None), ((90.0, 270.0), "last", FV.CT, 1), ((270.0, 90.0), "pre_wake", FV.CT, 1), ((90.0,), "pre_wake", FV.REWS, None), ((90.0,), "last", FV.REWS, None))],
      thorough=[dict(wd=w, T=3, entry=e, var=v, chunk=1) for w in WDS for e in ("pre_wake", "last") for v in (FV.CT, FV.REWS)], bounds=B + "; 3 iterations, any relaxation factor", budget_s=200)
def relaxation(ctx, wd, T, entry, var, chunk):
    """under-relaxation mixes each new value with that of the previous iteration"""
    S = len(wd)
    ws = _ws(ctx, S)
    u = ctx.real("u", 0, 1)
    n = ctx.choice("n", [1, 2, 3])
    m = Both()
    with lib.engine("SingleChunkEngine" if chunk is None else "NumpyEngine", **({} if chunk is None else dict(chunk_size_states=chunk))):
        al = make(ctx, "Iterative", T, wd, ws, [m], max_it=n - 1, conv_crit=None)
        al.set_urelax(entry, **{var: u})
        r = al.calc_farm()
    check(ctx, r, ws, wd, [weights_of(m, d, T) for d in wd], n, **{"u" if var == FV.CT else "u_ws": u})


@case("P18", quick=[dict(entry=e) for e in ("first", "pre_rotor", "post_rotor")], bounds="2 turbines, any wind speed and relaxation factor, 2 iterations")
def relaxation_entry(ctx, entry):
    """under-relaxation at the other documented entry points"""
    ws = _ws(ctx, 1)
    u = ctx.real("u", 0, 1)
    with lib.engine("SingleChunkEngine"):
        al = make(ctx, "Iterative", 2, (270.0,), ws, [Both()], max_it=1, conv_crit=None)
        al.set_urelax(entry, **{FV.CT: u})
        try:
            r = al.calc_farm()
        except Exception as e:
            if type(e).__module__.startswith("symx"):
                raise
            ctx.fail("calculation", f"{type(e).__name__}: {e}")
            return
        ctx.true("results", r[FV.CT].shape == (1, 2))


@case("P18", quick=[dict(wd=w, T=2, crit=c) for w, c in (((270.0,), "REWS"), ((270.0, 90.0), "CT"), ((90.0,), "both"))],
      thorough=[dict(wd=w, T=t, crit=c) for w in WDS for c in ("REWS", "CT", "both") for t in (2, 3)], bounds=B + "; up to 3 iterations, any limit", budget_s=200)
def stopping(ctx, wd, T, crit):
    """the iteration stops as soon as the change of all variables is within the limits, not before, or at the maximal number of iterations"""
    S = len(wd)
    ws = _ws(ctx, S)
    m = Both()
    C = [weights_of(m, d, T) for d in wd]
    lw, lc = ctx.real("limit_ws", 0, 1), ctx.real("limit_ct", 0, 0.02)
    lim = {"REWS": {FV.REWS: lw}, "CT": {FV.CT: lc}, "both": {FV.REWS: lw, FV.CT: lc}}[crit]
    N = 3
    with lib.engine("SingleChunkEngine"):
        al = make(ctx, "Iterative", T, wd, ws, [m], max_it=N - 1, conv_crit=im.ConvVarDelta(lim) if crit != "both" else im.ConvCritList([im.ConvVarDelta({v: x}) for v, x in lim.items()]))
        r = al.calc_farm()
    n = al.iterations + 1
    ctx.true("iterations", 2 <= n <= N)
    check(ctx, r, ws, wd, C, n)
    for k in range(2, n + 1):
        ok = True
        for s in range(S):
            (w0, c0), (w1, c1) = (ref(ws[s], C[s], (0.9, 0.4), i) for i in (k - 1, k))
            for i in range(T):
                if FV.REWS in lim:
                    ok = ok and bool(abs(w1[i] - w0[i]) <= lw)
                if FV.CT in lim:
                    ok = ok and bool(abs(c1[i] - c0[i]) <= lc)
        if k < N or ok:
            ctx.true("stopped when converged", ok == (k == n), f"step {k} of {n}: {ok}")


@case("P18", quick=[dict(S=2, T=2)], thorough=[dict(S=3, T=2)], bounds="{S} states, {T} turbines, all values of two subsequent iterations, any limits")
def criteria(ctx, S, T):
    """convergence criteria: largest change of each variable against its limit, directions on the circle"""
    dims = (FC.STATE, FC.TURBINE)
    focus = ctx.choice("focus", [(0, 0), (S - 1, T - 1)])
    rs = []
    for k in range(2):
        d = {FV.CT: lib.filled(ctx, (S, T), 0.5), FV.WD: lib.filled(ctx, (S, T), ctx.const(200)), "other": lib.filled(ctx, (S, T), ctx.const(200))}
        d[FV.CT][focus] = ctx.real(f"ct{k}", 0, 1)
        d[FV.WD][focus] = ctx.real(f"wd{k}", 0, 360, hi_open=True)
        d["other"][focus] = ctx.real(f"o{k}", 0, 360, hi_open=True)
        rs.append(xr.Dataset({v: (dims, a) for v, a in d.items()}))
    l = [ctx.real("l0", 0, 0.5), ctx.real("l1", 0, 150), ctx.real("l2", 0, 150)]
    wdv = ctx.choice("wd_vars", [None, ["other"]])
    c = im.ConvVarDelta({FV.CT: l[0], FV.WD: l[1], "other": l[2]}, wd_vars=wdv)
    verb = ctx.choice("verbosity", [0, 1])
    with contextlib.redirect_stdout(io.StringIO()):
        a = c.check_converged(None, rs[0], rs[1], verbosity=verb)
    ch = []
    for v in (FV.CT, FV.WD, "other"):
        x = abs(rs[1][v].to_numpy()[focus] - rs[0][v].to_numpy()[focus])
        if v in (wdv or [FV.WD]):
            x = 360 - x if x > 180 else x
        ch.append(x)
    want = all(bool(x <= y) for x, y in zip(ch, l))
    ctx.true("converged", bool(a) == want, f"{a} instead of {want}")
    got = c.get_deltas()
    for v, x in zip((FV.CT, FV.WD, "other"), ch):
        if v in got:
            ctx.eq("reported change", got[v], x)
    ctx.true("first iteration", not c.check_converged(None, None, rs[1]))
    two = im.ConvCritList([im.ConvVarDelta({FV.CT: l[0]})])
    two.add_crit(im.ConvVarDelta({FV.WD: l[1]}))
    b = two.check_converged(None, rs[0], rs[1])
    want = bool(ch[0] <= l[0]) and bool((ch[1] if wdv is None else _circ(rs, focus)) <= l[1])
    ctx.true("list of criteria", bool(b) == want, f"{b}")


def _circ(rs, f):
    x = abs(rs[1][FV.WD].to_numpy()[f] - rs[0][FV.WD].to_numpy()[f])
    return 360 - x if x > 180 else x


class Blocker(foxes.core.TurbineModel):
    """blocks the convergence in the first calls"""

    def __init__(self, n):
        super().__init__()
        self.n, self.calls = n, 0

    def output_farm_vars(self, algo):
        return []

    def calculate(self, algo, mdata, fdata, st_sel):
        self.calls += 1
        if self.calls <= self.n:
            algo.block_convergence(mdata=mdata)
        return {}


@case("P18", quick=[dict(chunk=c) for c in (None, 1)], bounds="2 states, 2 turbines without wakes, any wind speeds, up to 6 iterations")
def blocked(ctx, chunk):
    """convergence is only accepted when no model blocks it"""
    ws = _ws(ctx, 2)
    k = ctx.choice("blocks", [0, 1, 2, 3])
    b = Blocker(0)
    with lib.engine("SingleChunkEngine" if chunk is None else "NumpyEngine", **({} if chunk is None else dict(chunk_size_states=chunk))):
        al = make(ctx, "Iterative", 2, (270.0, 90.0), ws, [Both()], max_it=6, conv_crit=im.ConvVarDelta({FV.CT: 1.0}),
                  models=["T", "b"], setup=lambda mb: mb.turbine_models.__setitem__("b", b))
        ch = 2 if chunk == 1 else 1
        # two calls of the first iteration (before and after the wakes) per chunk, then one
        b.n = [0, 2 * ch, 3 * ch, 5 * ch][k]
        al.calc_farm()
    ctx.true("iterations", al.iterations == [1, 1, 2, 4][k], f"{al.iterations}")


def same(ctx, a, b, skip=()):
    ctx.true("variables", set(a.data_vars) == set(b.data_vars), f"{sorted(set(a.data_vars) ^ set(b.data_vars))}")
    for v in a.data_vars:
        if v not in skip and v != FC.TNAME:
            ctx.true("dims", a[v].dims == b[v].dims)
            ctx.eq_arr(v, b[v].to_numpy(), a[v].to_numpy())
    ctx.true("names", list(a[FC.TNAME].to_numpy()) == list(b[FC.TNAME].to_numpy()))


OPT = [dict(), dict(ground_models="ground_mirror"), dict(rotor_model="grid4", partial_wakes="rotor_points"), dict(two=True), dict(rotor_model="level3", partial_wakes="grid4")]


@case("P18", quick=[dict(wd=w, T=3, opt=o) for w, o in (((270.0,), 0), ((270.0, 90.0), 0), ((90.0,), 1), ((270.0,), 2), ((90.0,), 3), ((90.0,), 4))],
      thorough=[dict(wd=w, T=3, opt=o) for w in WDS for o in range(5)], bounds=B + "; rotor model, partial wakes and ground model number {opt}", budget_s=200)
def downwind_only(ctx, wd, T, opt):
    """without upstream influence the iterative results equal those of the Downwind algorithm"""
    S = len(wd)
    ws = ctx.empty((S,))
    ws[0] = ctx.real("ws", 6, 12)
    ws[1:] = ctx.arr([8.0])[: S - 1]
    kw = dict(OPT[opt])
    two = kw.pop("two", False)
    mk = lambda: [Both(up=0, down=0.1 if opt == 1 else 0.3)] + ([Both(up=0, down=0.1)] if two else [])
    with lib.engine("SingleChunkEngine"):
        a = make(ctx, "Downwind", T, wd, ws, mk(), **kw).calc_farm()
        b = make(ctx, "Iterative", T, wd, ws, mk(), max_it=T, conv_crit=None, **kw).calc_farm()
    same(ctx, a, b)


@case("P18", quick=[dict(cls=c, chunk=k) for c, k in (("Downwind", None), ("Iterative", None), ("Downwind", 1), ("Iterative", 1))], bounds="2 states, 2 turbines, one point, any wind speeds; every sequence of two of the calculations before a full one", budget_s=300)
def histories(ctx, cls, chunk):
    """earlier calculations (ambient, with selected outputs, at points) have no influence on later ones; selected outputs have their full values"""
    wd = (270.0, 90.0)
    ws = _ws(ctx, 2)
    kw = dict(max_it=2, conv_crit=None) if cls == "Iterative" else {}
    with lib.engine("SingleChunkEngine" if chunk is None else "NumpyEngine", **({} if chunk is None else dict(chunk_size_states=chunk))):
        mk = lambda: make(ctx, cls, 2, wd, ws, [Both(up=0)], **kw)
        full = mk().calc_farm()
        al = mk()
        p = ctx.arr([[800.0, 30.0, 80.0]])
        p0 = None
        for k in range(2):
            op = ctx.choice(f"op{k}", ["ambient", "outputs", "points", "farm", "ambient_points", "default"])
            if op == "ambient":
                r = al.calc_farm(ambient=True)
                ctx.true("ambient variables", FV.AMB_REWS in r and FV.REWS not in r and FV.CT not in r)
                ctx.eq_arr("ambient", r[FV.AMB_CT].to_numpy(), full[FV.AMB_CT].to_numpy())
                ctx.eq_arr("ambient", r[FV.AMB_REWS].to_numpy(), full[FV.AMB_REWS].to_numpy())
                ctx.eq_arr("ambient", r[FV.X].to_numpy(), full[FV.X].to_numpy())
            elif op == "outputs":
                r = al.calc_farm(outputs=[FV.REWS, FV.X])
                ctx.true("selected variables", set(r.data_vars) == {FV.REWS, FV.X, FC.TNAME}, f"{list(r.data_vars)}")
                ctx.eq_arr("selected", r[FV.REWS].to_numpy(), full[FV.REWS].to_numpy())
                ctx.eq_arr("selected", r[FV.X].to_numpy(), full[FV.X].to_numpy())
            elif op == "default":
                r = al.calc_farm(outputs="default")
                ctx.true("default variables", set(r.data_vars) == set(al.DEFAULT_FARM_OUTPUTS) & set(full.data_vars) | {FC.TNAME})
                for v in set(r.data_vars) - {FC.TNAME}:
                    ctx.eq_arr("default", r[v].to_numpy(), full[v].to_numpy())
            elif op == "farm":
                same(ctx, full, al.calc_farm())
            elif op == "points":
                q = al.calc_points(full, p)
                for s in range(2):
                    c = full[FV.CT].to_numpy()[s]
                    xx = [SGN[wd[s]] * (800.0 - XY[j][0]) for j in range(2)]
                    w = ws[s] - sum(c[j] * ws[s] * 0.3 * (1 + xx[j] / 10000) * (1 + np.hypot(30.0, -20.0) / 1000) for j in range(2) if xx[j] > 0)
                    ctx.eq("point wind speed", q[FV.WS].to_numpy()[s, 0], w, tol=1e-9)
            else:
                q = al.calc_points(full, p, ambient=True)
                ctx.true("ambient variables", FV.WS not in q and FV.AMB_WS in q)
                ctx.eq_arr("ambient", q[FV.AMB_WS].to_numpy()[:, 0], ws)
        same(ctx, full, al.calc_farm())


@case("P18", quick=[dict(wd=(270.0, 90.0, 270.0), geo=g, pts=p, eng=e) for g, p, e in ((False, "common", "SingleChunkEngine"), (True, "state", "SingleChunkEngine"), (False, None, "NumpyEngine"))],
      thorough=[dict(wd=(270.0, 90.0, 270.0), geo=g, pts=p, eng=e) for g in (False, True) for p in ("common", "state", None) for e in ("SingleChunkEngine", "NumpyEngine")],
      bounds="3 states, 2 turbines (fixed, or positions and heights per state), any wind speeds; points of all states or of each state", budget_s=300)
def sequential(ctx, wd, geo, pts, eng):
    """running the states one after the other gives the results of each state of a full run, also if repeated"""
    S, T = 3, 2
    ws = ctx.empty((S,))
    ws[:] = ctx.arr([7.0, 9.0, 8.0])
    ws[ctx.choice("focus", range(S))] = ctx.real("ws", 6, 12)
    k = ctx.arr([[0.1, 0.2], [0.3, 0.4], [0.5, 0.6]])

    once = ctx.choice("once", [False, True])

    def setup(mb):
        m = tm.SetFarmVars(once=once)
        m.add_var("var", k)
        mb.turbine_models["s"] = m

    p = {None: None, "common": ctx.arr([[800.0, 0.0, 100.0], [900.0, 0.0, 100.0]]),
         "state": ctx.arr([[[800.0 + 10 * s, 0.0, 100.0 + s]] for s in range(S)])}[pts]

    def mk(cls, **kw):
        al = make(ctx, cls, T, wd, ws, [Both(up=0)], models=["T", "s"], setup=setup, **kw)
        if geo:
            for i, t in enumerate(al.farm.turbines):
                t.xy = ctx.arr([[XY[i][0] + 10 * s, 0.0] for s in range(S)])
                t.H = ctx.arr([100.0 + s for s in range(S)])
        return al

    with lib.engine(eng):
        d = mk("Downwind")
        full = d.calc_farm()
        if p is not None:
            fp = d.calc_points(full, p)
        al = mk("Sequential", points=p, max_it=T, conv_crit=None)
        for rep in range(2):
            n = 0
            for x in al:
                r = x if p is None else x[0]
                ctx.true("state", list(r[FC.STATE].to_numpy()) == [full[FC.STATE].to_numpy()[n]] and al.counter == n and al.size == 1)
                for v in (FV.REWS, FV.CT, FV.X, FV.H, FV.P, FV.AMB_REWS, "var"):
                    ctx.eq_arr(v, r[v].to_numpy()[0], full[v].to_numpy()[n])
                    ctx.eq_arr("current " + v, al.cur_farm_results[v].to_numpy()[0], full[v].to_numpy()[n])
                if p is not None:
                    ctx.eq_arr("points", x[1][FV.WS].to_numpy()[0], fp[FV.WS].to_numpy()[n])
                n += 1
            ctx.true("number of states", n == S)
            for v in (FV.REWS, FV.CT, FV.X, FV.H, FV.P, FV.AMB_REWS, "var", FV.ORDER):
                ctx.eq_arr("all " + v, al.farm_results[v].to_numpy(), full[v].to_numpy())
            if p is not None:
                ctx.eq_arr("all points", al.point_results[FV.WS].to_numpy(), fp[FV.WS].to_numpy())


@case("P18", quick=[dict()], bounds="3 states, 2 turbines, any wind speeds")
def sequential_ambient(ctx):
    """ambient sequential run; plugins see every state of their own algorithm once"""
    wd = (270.0, 90.0, 270.0)
    ws = _ws(ctx, 3)
    log = []

    class P(foxes.algorithms.sequential.SequentialPlugin):
        def update(self, algo, fres, pres=None):
            super().update(algo, fres, pres)
            log.append(int(fres[FC.STATE].to_numpy()[0]))

    with lib.engine("SingleChunkEngine"):
        al = make(ctx, "Sequential", 2, wd, ws, [Both(up=0)], ambient=True)
        al.plugins.append(P())
        for r in al:
            ctx.true("ambient variables", FV.AMB_REWS in r and FV.REWS not in r)
        ctx.true("plugin calls", log == [2, 5, 8], f"{log}")
        ctx.true("ambient variables", FV.AMB_REWS in al.farm_results and FV.REWS not in al.farm_results)
        for s in range(3):
            for t in range(2):
                ctx.eq("ambient", al.farm_results[FV.AMB_REWS].to_numpy()[s, t], ws[s])
        b = make(ctx, "Sequential", 2, wd, ws, [Both(up=0)])
        ctx.true("own plugins", len(b.plugins) == 0)
