"""Partial wakes"""
import numpy as np
import foxes
import foxes.variables as FV
import foxes.constants as FC
from foxes.core import WakeModel, TData
from foxes.models.wake_frames import RotorWD
from foxes.models.wake_models.axisymmetric import AxisymmetricWakeModel
from foxes.models.wake_models.top_hat import TopHatWakeModel
from foxes.models.wake_superpositions import WSLinear
import foxes.models.partial_wakes as pw
from foxes.models.rotor_models import CentreRotor, GridRotor, LevelRotor
from foxes.utils.two_circles import calc_area
from symx.runner import case
from . import lib

B = ("{} states, one wake causing turbine and {} target rotors, rotor diameters in [20,300] m, wake coordinates up to 3000 m, "
     "wake field an arbitrary {}")


def _sup(m):
    m.superp = {FV.WS: WSLinear()}
    return m


class Axi(AxisymmetricWakeModel):
    """wake strength c0 + c1 r + c2 r^2 downstream of the rotor"""

    def __init__(self, c):
        super().__init__({FV.WS: "x"})
        self.c = c
        self.seen = []
        _sup(self)

    def calc_wakes_x_r(self, algo, mdata, fdata, tdata, downwind_index, x, r):
        sel = (x > 1e-8)
        self.seen.append(r)
        rs = r[sel]
        return {FV.WS: self.c[0] + self.c[1] * rs + self.c[2] * rs**2}, sel


class Hat(TopHatWakeModel):
    """constant strength within a wake radius that grows linearly"""

    def __init__(self, c, k, n):
        super().__init__({FV.WS: "x"})
        self.c, self.k, self.n = c, k, n
        _sup(self)

    def calc_wake_radius(self, algo, mdata, fdata, tdata, downwind_index, x, ct):
        return 50 + self.k * x

    def calc_centreline(self, algo, mdata, fdata, tdata, downwind_index, st_sel, x, wake_r, ct):
        return {FV.WS: self.c * ct}


def _setup(ctx, S, W, P=1, sameD=True, off=None, ctmin=0.0, P0=None):
    """turbine 0 causes the wake; wd=270, so wake coordinates are the coordinate differences"""
    tx = ctx.empty((S, W, 3))
    tx[:, 0, :] = ctx.arr([ctx.const(0), ctx.const(0), ctx.const(400)])
    o = ctx.reals("o", (W - 1, 3), -3000.0, 3000.0) if off is None else off
    for s in range(S):
        for w in range(1, W):
            for i in range(3):
                tx[s, w, i] = tx[s, 0, i] + o[w - 1, i]
    D = ctx.empty((S, W))
    if sameD:
        D[...] = ctx.real("D", 20.0, 300.0)
    else:
        D[...] = ctx.reals("D", (S, W), 20.0, 300.0)
    fd = lib.fdata({
        FV.TXYH: tx, FV.WD: lib.filled(ctx, (S, W), ctx.const(270)), FV.YAW: lib.filled(ctx, (S, W), ctx.const(270)),
        FV.D: D, FV.CT: ctx.reals("ct", (S, W), ctmin, 0.95),
        FV.AMB_REWS: lib.filled(ctx, (S, W), ctx.const(1)), FV.REWS: lib.filled(ctx, (S, W), ctx.const(1))})
    md = lib.mdata(S, data={FC.TURBINE: np.arange(W)}, dims={FC.TURBINE: (FC.TURBINE,)})
    al = lib.StubAlgo(S, W, wake_frame=RotorWD(), mbook=foxes.ModelBook(), rotor_model=CentreRotor(calc_vars=[]))
    return al, md, fd, o, D


def _farm_contribution(ctx, al, md, fd, p, wm, W):
    """what the farm calculation does for the first turbine"""
    pts, w = p.get_wake_points(al, md, fd)
    tdp = TData.from_tpoints(pts, w)
    wd = p.new_wake_deltas(al, md, fd, tdp, wm)
    s = np.s_[:, 1:]
    td = tdp.get_slice([FC.STATE, FC.TARGET], s)
    part = {v: d[s] for v, d in wd.items()}
    p.contribute(al, md, fd, td, 0, part, wm)
    for v, d in part.items():
        wd[v][s] = d
    return tdp, wd


def _finalize(ctx, al, md, fd, p, tdp, wd, wm, dwi, S, R=1, P=1):
    wm.superp = {FV.WS: Final(wm.superp[FV.WS])}
    w = np.ones(R) / R
    amb = {FV.WS: lib.filled(ctx, (S, fd.n_turbines, R), ctx.const(9))}
    return p.finalize_wakes(al, md, fd, tdp, amb, w, wd, wm, dwi)


class Final:
    def __init__(self, sup):
        self.s = sup

    def calc_final_wake_delta(self, algo, mdata, fdata, variable, amb_results, wake_delta):
        return wake_delta


def _field(c, r):
    return c[0] + c[1] * r + c[2] * r**2


def _axi_model(ctx):
    return Axi(ctx.reals("c", (3,), -1.0, 1.0))


@case("P10", quick=[dict(kind="centre"), dict(kind="rotor", P=2)], thorough=[dict(kind="centre", W=4, S=2), dict(kind="rotor", P=3, W=3)],
      bounds=B.format("1-2", "1-3", "quadratic function of the radius"))
def point_models(ctx, kind, W=3, S=1, P=1):
    """centre and rotor_points: the wake at exactly the hub or the rotor points of every downstream turbine"""
    al, md, fd, o, D = _setup(ctx, S, W)
    wm = _axi_model(ctx)
    if kind == "centre":
        p = pw.PartialCentre()
        rel = lib.filled(ctx, (S, W, 1, 3), ctx.const(0))
    else:
        p = pw.RotorPoints()
        rel = ctx.reals("rel", (S, W, P, 3), -100.0, 100.0)
        rel[..., 0] = ctx.const(0)
        al._store = {FC.ROTOR_POINTS: fd[FV.TXYH][:, :, None, :] + rel, FC.ROTOR_WEIGHTS: np.ones(P) / P}
    p.initialize(al)
    tdp, wd = _farm_contribution(ctx, al, md, fd, p, wm, W)
    for t in range(1, W):
        f = _finalize(ctx, al, md, fd, p, tdp, wd, wm, t, S, R=P)[FV.WS]
        ctx.true("shape", f.shape == (S, P))
        for s in range(S):
            for i in range(P):
                y, z = o[t - 1, 1] + rel[s, t, i, 1], o[t - 1, 2] + rel[s, t, i, 2]
                r = np.sqrt(y**2 + z**2)
                ctx.eq("wake", f[s, i], _field(wm.c, r) if o[t - 1, 0] > 1e-8 else 0)
        wm.superp = {FV.WS: WSLinear()}


@case("P10", quick=[dict(n=2), dict(n=2, grid=False, R=4)], thorough=[dict(n=3, grid=False, W=3), dict(n=3, reduce=True)],
      bounds=B.format("1", "1-2", "quadratic function of the radius"))
def segregated(ctx, n, reduce=False, grid=True, R=1, W=2, S=1):
    """grid and segregated: the weighted mean of the wake over the model's own rotor points, whatever the rotor model"""
    al, md, fd, o, D = _setup(ctx, S, W)
    wm = _axi_model(ctx)
    p = pw.PartialGrid(n=n, reduce=reduce, nint=10) if grid else pw.PartialSegregated(LevelRotor(n=n, reduce=reduce, nint=10, calc_vars=[]))
    p.initialize(al)
    p.rotor.initialize(al)
    tdp, wd = _farm_contribution(ctx, al, md, fd, p, wm, W)
    dp, w = p.rotor.design_points(), p.rotor.rotor_point_weights()
    for t in range(1, W):
        f = _finalize(ctx, al, md, fd, p, tdp, wd, wm, t, S, R=R)[FV.WS]
        ctx.true("shape", f.shape == (S, R))
        for s in range(S):
            if not o[t - 1, 0] > 1e-8:
                exp = 0
            else:
                exp = 0
                for i in range(len(w)):
                    y = o[t - 1, 1] + D[s, t] / 2 * float(dp[i, 1])
                    z = o[t - 1, 2] + D[s, t] / 2 * float(dp[i, 2])
                    exp = exp + float(w[i]) * _field(wm.c, np.sqrt(y**2 + z**2))
            for i in range(R):
                ctx.eq("mean", f[s, i], exp)
        wm.superp = {FV.WS: WSLinear()}


@case("P10", quick=[dict(), dict(S=2, W=2), dict(sameD=False, W=2)], thorough=[dict(W=4)],
      bounds=B.format("1-2", "1-3", "top hat of symbolic strength and growth"))
def top_hat(ctx, S=1, W=3, sameD=True):
    """top_hat: centreline wake times the fraction of the target rotor's area that lies inside the wake"""
    al, md, fd, o, D = _setup(ctx, S, W, sameD=sameD)
    wm = Hat(ctx.real("c", -1.0, 1.0), ctx.real("k", 0.0, 0.2), 3)
    p = pw.PartialTopHat()
    p.initialize(al)
    tdp, wd = _farm_contribution(ctx, al, md, fd, p, wm, W)
    for s in range(S):
        ct = fd[FV.CT][s, 0]
        for t in range(1, W):
            x, y, z = o[t - 1]
            got = wd[FV.WS][s, t, 0]
            if not ((x > 1e-8) & (ct > 1e-8)):
                ctx.eq("no wake", got, 0)
                continue
            R = np.sqrt(y**2 + z**2)
            Dt = D[s, t]
            rw = 50 + wm.k * x
            if rw <= R - Dt / 2:
                ctx.eq("no overlap", got, 0)
            else:
                A = calc_area(ctx.arr([Dt / 2]), ctx.arr([rw]), ctx.arr([R]))[0]
                ctx.eq("overlap", got, wm.c * ct * (A / (np.pi * (Dt / 2) ** 2)), tol=1e-5)


@case("P10", quick=[dict(where="out"), dict(where="in"), dict(where="edge")], thorough=[dict(where="any", n=2), dict(where="any", n=6)],
      bounds=B.format("1", "1", "constant") + "; 3 to 6 rings", skip_unknown=True)
def axiwake_uniform(ctx, where, n=3):
    """axiwake: a uniform wake is passed on unchanged wherever the rotor is"""
    al, md, fd, o, D = _setup(ctx, 1, 2)
    x, y, z = o[0]
    ctx.assume(x > 0.01)
    if where == "edge":
        ctx.assume(y == D[0, 1] / 2)
        ctx.assume(z == 0)
    elif where == "out":
        ctx.assume(y**2 + z**2 > D[0, 1] ** 2 / 4)
    elif where == "in":
        ctx.assume(y**2 + z**2 < D[0, 1] ** 2 / 4)
    c0 = ctx.real("c0", -1.0, 1.0)
    wm = Axi([c0, 0, 0])
    p = pw.PartialAxiwake(n=n)
    p.initialize(al)
    tdp, wd = _farm_contribution(ctx, al, md, fd, p, wm, 2)
    ctx.eq("uniform", wd[FV.WS][0, 1, 0], c0)


def _ring(ctx, D, R, lo, hi):
    one = lambda v: ctx.arr([v])
    return (calc_area(one(D / 2), one(hi), one(R)) - calc_area(one(D / 2), one(lo), one(R)))[0]


@case("P10", quick=[dict(n=2)], thorough=[dict(n=3), dict(n=2, sameD=False)], bounds=B.format("1", "1", "quadratic function of the radius") + "; 2-3 rings",
      skip_unknown=True)
def axiwake_outside(ctx, n, sameD=True):
    """axiwake, wake axis outside the rotor: mean of the wake at the mid radii of n rings across the rotor, weighted with the rotor area in each ring"""
    al, md, fd, o, D = _setup(ctx, 1, 2, sameD=sameD)
    x, y, z = o[0]
    Dt = D[0, 1]
    ctx.assume(x > 0.01)
    ctx.assume(y**2 + z**2 > Dt**2 / 4)
    R = np.sqrt(y**2 + z**2)
    wm = _axi_model(ctx)
    p = pw.PartialAxiwake(n=n)
    p.initialize(al)
    tdp, wd = _farm_contribution(ctx, al, md, fd, p, wm, 2)
    e = [R + Dt * (i / n - 0.5) for i in range(n + 1)]
    r = wm.seen[0]
    ctx.eq_arr("radii", r[0, 0], ctx.arr([(e[i] + e[i + 1]) / 2 for i in range(n)]))
    A = [_ring(ctx, Dt, R, e[i], e[i + 1]) + 1e-15 for i in range(n)]
    tot = sum(A)
    ctx.eq("mean", wd[FV.WS][0, 1, 0] * tot, sum(a * _field(wm.c, (e[i] + e[i + 1]) / 2) for i, a in enumerate(A)))


@case("P10", quick=[dict(n=3)], thorough=[dict(n=6)], bounds=B.format("1", "1", "quadratic function of the radius") + "; aligned rotors, 3-6 rings")
def axiwake_aligned(ctx, n):
    """axiwake, aligned rotors: annuli cover exactly the rotor, weighted with their area"""
    off = ctx.empty((1, 3))
    off[0, 0] = ctx.real("x", 0.01, 3000.0)
    off[0, 1] = off[0, 2] = ctx.const(0)
    al, md, fd, o, D = _setup(ctx, 1, 2, off=off)
    Dt = D[0, 1]
    wm = _axi_model(ctx)
    p = pw.PartialAxiwake(n=n)
    p.initialize(al)
    tdp, wd = _farm_contribution(ctx, al, md, fd, p, wm, 2)
    b = [0] + [Dt / 2 * (0.5 + i) / (n - 0.5) for i in range(n)]
    exp = 0
    for i in range(n):
        r = 0 if i == 0 else (b[i] + b[i + 1]) / 2
        exp = exp + (b[i + 1] ** 2 - b[i] ** 2) / (Dt / 2) ** 2 * _field(wm.c, r)
    ctx.eq("mean", wd[FV.WS][0, 1, 0], exp)


@case("P10", quick=[dict(kind=k) for k in ("centre", "rotor", "tophat", "axi", "grid")], bounds="all upstream offsets in [-3000,0] m")
def upstream(ctx, kind):
    """rotors that are not downstream get no wake, and ring or overlap models accept only suitable wake models"""
    off = ctx.reals("o", (1, 3), -3000.0, 3000.0)
    ctx.assume(off[0, 0] <= 0)
    al, md, fd, o, D = _setup(ctx, 1, 2, off=off, ctmin=0.1)
    wm = Hat(ctx.real("c", -1.0, 1.0), ctx.real("k", 0.0, 0.02), 3) if kind == "tophat" else _axi_model(ctx)
    p = {"centre": pw.PartialCentre, "rotor": pw.PartialCentre, "tophat": pw.PartialTopHat, "axi": lambda: pw.PartialAxiwake(n=2),
         "grid": lambda: pw.PartialGrid(n=2, reduce=False)}[kind]()
    p.initialize(al)
    if kind == "grid":
        p.rotor.initialize(al)
    tdp, wd = _farm_contribution(ctx, al, md, fd, p, wm, 2)
    ctx.eq_arr("no wake", wd[FV.WS], lib.filled(ctx, wd[FV.WS].shape, ctx.const(0)))
    ok = p.check_wmodel(Axi([0, 0, 0]), error=False)
    ctx.true("check", ok == (kind != "tophat"))


class Amb:
    """effect proportional to the ambient result at each point"""

    def __init__(self, wm):
        self.wm = wm

    def calc_final_wake_delta(self, algo, mdata, fdata, variable, amb_results, wake_delta):
        return wake_delta * amb_results[variable] if isinstance(amb_results, dict) else wake_delta * amb_results


@case("P10", quick=[dict(kind=k, R=r) for k, r in (("centre", 1), ("centre", 3), ("rotor", 3), ("top_hat", 2), ("axi", 1), ("grid", 4), ("grid", 3), ("grid", 5), ("levels", 3), ("levels", 6), ("levels", 2))],
      bounds="2 states, 3 turbines, all wake deltas; ambient results that differ per state, turbine and rotor point, or per state and point only; unequal rotor point weights")
def finalize(ctx, kind, R, S=2, W=3):
    """the final effect uses the wake deltas and ambient results of that turbine and state only, and leaves both unchanged"""
    al, md, fd, o, D = _setup(ctx, S, W, off=np.array([[ctx.const(500 * w), ctx.const(30), ctx.const(0)] for w in range(1, W)], dtype=object))
    dwi = ctx.choice("turbine", [1, 2])
    one = ctx.choice("ambient for all turbines", [False, True])
    if kind == "rotor":
        p = pw.RotorPoints()
        al._store = {FC.ROTOR_POINTS: fd[FV.TXYH][:, :, None, :] + np.zeros((S, W, R, 3)), FC.ROTOR_WEIGHTS: np.ones(R) / R}
    else:
        p = {"centre": pw.PartialCentre, "top_hat": pw.PartialTopHat, "axi": pw.PartialAxiwake, "grid": lambda: pw.PartialGrid(n=2, nint=10),
             "levels": lambda: pw.PartialSegregated(LevelRotor(n=3, nint=10, calc_vars=[]))}[kind]()
    p.initialize(al)
    if kind in ("grid", "levels"):
        p.rotor.initialize(al)
    pts, tw = p.get_wake_points(al, md, fd)
    tdp = TData.from_tpoints(pts, tw)
    TP = tdp.n_tpoints
    wm = _axi_model(ctx)
    wm.superp = {FV.WS: Amb(wm)}
    wd = {FV.WS: ctx.reals("wd", (S, W, TP), -1, 1)}
    keep = wd[FV.WS].copy()
    same = R == TP and kind in ("grid", "levels")
    A = ctx.empty((S, 1 if one else W, R))
    for s, w, r in np.ndindex(*A.shape):
        A[s, w, r] = ctx.const(8 + 3 * s + w + (0 if same else 2 * r))
    ak = A.copy()
    rw = np.array([(i + 1) / (R * (R + 1) / 2) for i in range(R)])
    for rep in range(2):
        f = p.finalize_wakes(al, md, fd, tdp, {FV.WS: A}, rw, wd, wm, dwi)[FV.WS]
        ctx.true("shape", f.shape == (S, R), f"{f.shape}")
        for s in range(S):
            a, d = A[s, 0 if one else dwi], keep[s, dwi]
            for r in range(R):
                if kind in ("grid", "levels"):
                    am = sum(rw[i] * a[i] for i in range(R))
                    want = sum(float(tw[i]) * d[i] for i in range(TP)) * am
                else:
                    want = d[r if TP == R else 0] * a[r]
                ctx.eq("effect", f[s, r], want)
        ctx.eq_arr("wake deltas unchanged", wd[FV.WS], keep)
        ctx.eq_arr("ambient results unchanged", A, ak)
