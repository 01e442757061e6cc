"""Rotor models"""
import numpy as np
import foxes
import foxes.variables as FV
import foxes.constants as FC
from foxes.models.rotor_models import CentreRotor, GridRotor, LevelRotor
from symx.runner import case
from . import lib

B = "1-2 states, 2 turbines, {} rotor points, wind speeds in [0.1,40] m/s, wind directions in [0,360) deg per point, yaw per turbine, D in [20,300] m"
STP = lib.STP


class States:
    """ambient states: fields of symbolic coefficients, linear in the position"""

    name = "states"

    def __init__(self, ctx, S, vars=(FV.WS, FV.WD, FV.TI, FV.RHO)):
        self.ctx = ctx
        self.c = ctx.reals("c", (S, 4), 0.0, 0.01)
        self.wd = [ctx.angle(f"wd{s}", link=False) for s in range(S)]
        self.vars = list(vars)

    def output_point_vars(self, algo):
        return list(self.vars)

    def ws(self, s, p):
        c = self.c[s]
        return 5 + c[0] * p[0] + c[1] * p[1] + c[2] * p[2]

    def ti(self, s, p):
        return 0.1 + self.c[s, 3] * p[2]

    def calculate(self, algo, mdata, fdata, tdata):
        p = tdata[FC.TARGETS]
        out = {v: self.ctx.empty(p.shape[:3]) for v in self.vars}
        for i in np.ndindex(*p.shape[:3]):
            for v in self.vars:
                out[v][i] = {FV.WS: lambda: self.ws(i[0], p[i]), FV.TI: lambda: self.ti(i[0], p[i]),
                             FV.WD: lambda: self.wd[i[0]], FV.RHO: lambda: self.ctx.const(1.2)}[v]()
        tdata.add(FV.WEIGHT, lib.filled(self.ctx, (p.shape[0], 1, 1), self.ctx.const(1)), (FC.STATE, FC.TARGET, FC.TPOINT))
        return out


class FC2:
    def __init__(self, r2=False, r3=False):
        self.r = r2, r3

    def needs_rews2(self):
        return self.r[0]

    def needs_rews3(self):
        return self.r[1]


def _rotor(kind):
    n, r = kind[1:] if len(kind) > 1 else (0, False)
    if kind[0] == "centre":
        return CentreRotor()
    return {"grid": GridRotor, "level": LevelRotor}[kind[0]](n=n, reduce=r, nint=20)


def _dir(ctx, uv):
    return uv[0], uv[1]


KINDS = [("centre",), ("grid", 1, False), ("grid", 2, False), ("level", 2, False), ("level", 3, True)]
THOR = [("grid", 2, True), ("grid", 3, True), ("level", 4, False), ("level", 5, True)]


@case("P09", quick=[dict(kind=k) for k in KINDS + THOR[:2]], thorough=[dict(kind=k, S=2) for k in THOR], bounds=B.format("1-9"))
def points(ctx, kind, S=1):
    """rotor points lie in the plane through the hub, normal to the rotor axis, within the rotor square, and average to the hub"""
    W = 2
    r = _rotor(kind)
    al = lib.StubAlgo(S, W)
    r.initialize(al)
    yaw = ctx.empty((S, W))
    for i in np.ndindex(S, W):
        yaw[i] = ctx.angle(f"yaw{i[0]}_{i[1]}", link=False)
    D = ctx.reals("D", (S, W), 20.0, 300.0)
    tx = ctx.reals("t", (S, W, 3), -2000.0, 2000.0)
    fd = lib.fdata({FV.D: D, FV.YAW: yaw, FV.TXYH: tx})
    p = r.get_rotor_points(al, lib.mdata(S), fd)
    w = r.rotor_point_weights()
    P = len(w)
    ctx.true("shape", p.shape == (S, W, P, 3) and r.n_rotor_points() == P)
    ctx.eq("weights sum", sum(float(x) for x in w), 1.0, tol=1e-9)
    ctx.true("weights positive", all(x > 0 for x in w))
    for s in range(S):
        for t in range(W):
            a = np.deg2rad(yaw[s, t])
            n, m = (-np.sin(a), -np.cos(a)), (np.cos(a), -np.sin(a))
            cy, cz = 0, 0
            for i in range(P):
                d = p[s, t, i] - tx[s, t]
                ctx.eq("in the rotor plane", d[0] * n[0] + d[1] * n[1], 0)
                y = d[0] * m[0] + d[1] * m[1]
                ctx.between("lateral extension", y, -D[s, t] / 2, D[s, t] / 2)
                ctx.between("vertical extension", d[2], -D[s, t] / 2, D[s, t] / 2)
                dy, dz = r.design_points()[i, 1:]
                ctx.eq("lateral design", y, D[s, t] / 2 * float(dy))
                ctx.eq("vertical design", d[2], D[s, t] / 2 * float(dz))
                cy, cz = cy + float(w[i]) * y, cz + float(w[i]) * d[2]
            ctx.eq("centre", cy, 0, tol=1e-6)
            ctx.eq("centre", cz, 0, tol=1e-6)


VRS = [FV.REWS, FV.REWS2, FV.REWS3, FV.WD, FV.WS, FV.TI]


def _evals(ctx, P, S, W, T, mode):
    ws = ctx.reals("ws", (S, T, P), 0.1, 40.0)
    wd = ctx.empty((S, T, P))
    yaw = ctx.empty((S, W))
    if mode == "fixed":
        for i in np.ndindex(S, T, P):
            wd[i] = ctx.const([340.0, 30.0, 110.0, 95.0][i[2] + i[1]])
        yaw[...] = ctx.const(0.0)
        yaw[:, -1] = ctx.const(15.0)
    else:
        for i in np.ndindex(S, T, P):
            if mode == "free" or i[2] == 0:
                wd[i] = ctx.angle("wd" + "".join(f"_{k}" for k in i), link=False)
            else:
                wd[i] = wd[i[:2] + (0,)]
        for i in np.ndindex(S, W):
            yaw[i] = ctx.angle("yaw" + "".join(f"_{k}" for k in i), link=False)
    ti = ctx.reals("ti", (S, T, P), 0.0, 0.5)
    td = lib.tdata(lib.filled(ctx, (S, T, P, 3), ctx.const(0)), weights=np.ones(P) / P, tvars={FV.WS: ws, FV.WD: wd, FV.TI: ti})
    old = {v: ctx.reals("old_" + v, (S, W), 0.0, 1.0) for v in VRS if v != FV.YAW}
    fd = lib.fdata(dict({FV.YAW: yaw}, **{v: a.copy() for v, a in old.items()}))
    return ws, wd, yaw, ti, td, fd, old


@case("P09", quick=[dict(P=1, kind="centre"), dict(P=1, kind="base"), dict(P=2, kind="base", mode="fixed"), dict(P=2, kind="centre", dwi=None, mode="fixed"),
                    dict(P=2, kind="base", dwi=None, mode="fixed", W=3), dict(P=2, kind="base", mode="same"), dict(P=2, kind="base", dwi=0, mode="same"), dict(P=1, kind="centre", dwi=None, W=1), dict(P=1, kind="base", dwi=None)],
      thorough=[dict(P=2, kind="base"), dict(P=2, kind="base", dwi=None, S=2, W=1, mode="same"), dict(P=3, kind="base", S=2, dwi=0, mode="fixed")],
      bounds=B.format("1-3"), skip_unknown=True, branch_ms=800)
def evaluation(ctx, P, kind, dwi=1, S=1, W=2, mode="free"):
    """rotor averages: vector mean for wind speed and direction, projection on the rotor axis and its 1st, 2nd and 3rd moments for the effective speeds, weighted mean for everything else; other turbines are untouched"""
    T = W if dwi is None else 1
    ws, wd, yaw, ti, td, fd, old = _evals(ctx, P, S, W, T, mode)
    r = CentreRotor(calc_vars=list(VRS)) if kind == "centre" else GridRotor(n=P, calc_vars=list(VRS))
    al = lib.StubAlgo(S, W)
    w = np.ones(P) / P if P > 1 else np.array([1.0])
    r.eval_rpoint_results(al, lib.mdata(S), fd, td, w, downwind_index=dwi, copy_to_ambient=dwi is None)
    for s in range(S):
        for t in range(W):
            if dwi is not None and t != dwi:
                for v in old:
                    ctx.eq(f"{v} of others", fd[v][s, t], old[v][s, t])
                continue
            j = t if dwi is None else 0
            f = 1.0 / P
            uv = [ws[s, j, p] * x for p in range(P) for x in (-np.sin(np.deg2rad(wd[s, j, p])), -np.cos(np.deg2rad(wd[s, j, p])))]
            u, v = sum(uv[::2]) * f, sum(uv[1::2]) * f
            ya = np.deg2rad(yaw[s, t])
            q = [-uv[2 * p] * np.sin(ya) - uv[2 * p + 1] * np.cos(ya) for p in range(P)]
            ctx.eq("TI", fd[FV.TI][s, t], sum(ti[s, j]) * f)
            ctx.eq("WS^2", fd[FV.WS][s, t]**2, u**2 + v**2)
            ctx.ge("WS", fd[FV.WS][s, t], 0)
            a = np.deg2rad(fd[FV.WD][s, t])
            ctx.eq("WD parallel", -u * np.cos(a) + v * np.sin(a), 0, tol=1e-6)
            ctx.le("WD orientation", 0, -u * np.sin(a) - v * np.cos(a), tol=1e-6)
            ctx.eq("REWS", fd[FV.REWS][s, t], np.maximum(sum(q) * f, 0))
            ctx.eq("REWS2^2", fd[FV.REWS2][s, t]**2, np.maximum(sum(x * np.abs(x) for x in q) * f, 0))
            ctx.ge("REWS2", fd[FV.REWS2][s, t], 0)
            ctx.eq("REWS3^3", fd[FV.REWS3][s, t]**3, np.maximum(sum(x**3 for x in q) * f, 0))
            ctx.ge("REWS3", fd[FV.REWS3][s, t], 0)
            if dwi is None:
                for v in (FV.REWS, FV.TI):
                    ctx.eq("ambient copy", fd[FV.var2amb[v]][s, t], fd[v][s, t])


@case("P09", quick=[dict(kind=k) for k in KINDS], thorough=[dict(kind=k, S=2) for k in KINDS + THOR[:2]],
      bounds=B.format("1-4") + "; states fields linear in the position with symbolic coefficients")
def ambient(ctx, kind, S=1):
    """ambient rotor results: the states are evaluated exactly at the rotor points; in wind from the rotor axis REWS is the weighted mean wind speed"""
    W = 2
    r = _rotor(kind)
    st = States(ctx, S)
    al = lib.StubAlgo(S, W, states=st, farm_controller=FC2())
    r.initialize(al)
    yaw = ctx.empty((S, W))
    for s in range(S):
        yaw[s, :] = st.wd[s]
    fd = lib.fdata({FV.D: ctx.reals("D", (S, W), 20.0, 300.0), FV.YAW: yaw,
                    FV.TXYH: ctx.reals("t", (S, W, 3), 100.0, 300.0)})
    p = r.get_rotor_points(al, lib.mdata(S), fd)
    for v in r.output_farm_vars(al):
        fd[v] = lib.filled(ctx, (S, W), ctx.const(0)) if v != FV.YAW else fd[v]
    md = lib.mdata(S)
    out = r.calculate(al, md, fd, store=True)
    w = r.rotor_point_weights()
    for s in range(S):
        for t in range(W):
            ctx.eq("REWS", out[FV.REWS][s, t], sum(float(w[i]) * st.ws(s, p[s, t, i]) for i in range(len(w))))
            ctx.eq("TI", out[FV.TI][s, t], sum(float(w[i]) * st.ti(s, p[s, t, i]) for i in range(len(w))))
            ctx.eq("RHO", out[FV.RHO][s, t], 1.2, tol=1e-9)
            ctx.eq("AMB_REWS", fd[FV.AMB_REWS][s, t], out[FV.REWS][s, t])
            for i in range(len(w)):
                ctx.eq("stored rotor points", al._store[FC.ROTOR_POINTS][s, t, i, 2], p[s, t, i, 2])
                ctx.eq("stored results", al._store[FC.AMB_ROTOR_RES][FV.WS][s, t, i], st.ws(s, p[s, t, i]))
