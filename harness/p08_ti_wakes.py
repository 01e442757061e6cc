"""Turbulence intensity wake models"""
import numpy as np
import foxes.variables as FV
import foxes.models.wake_models as wm
from symx.runner import case
from . import lib
from .p07_wake_models import setup, result, a_of, KVAR, concrete, XS

B = ("1 state, up to 2 targets, 2 target points; ct in [0.01,0.95], D in [20,300] m, TI in [0.02,0.4], "
     "x in [-5000,20000] m, |y|,|z| <= 3000 m")


def crespo_radius(fd, w, x, k, sb=0.25, ind="Betz"):
    a = a_of(ind, fd[FV.CT][0, w])
    return 2 * (k * x + sb * np.sqrt((1 - a) / (1 - 2 * a)) * fd[FV.D][0, w])


def crespo(ctx, fd, w, x, y, z, k, amb=False, nw=None, ind="Betz", c=(0.362, 0.73, 0.83, -0.0325, -0.32)):
    an, af, e1, e2, e3 = c
    a = a_of(ind, fd[FV.CT][0, w])
    D, ti = fd[FV.D][0, w], fd[FV.AMB_TI if amb else FV.TI][0, w]
    r = np.sqrt(y**2 + z**2)
    if not r < crespo_radius(fd, w, x, k, ind=ind):
        return ctx.const(0)
    xn = (2**e1 * an / (af * ti**e2) * (2 * a) ** (1 - e1)) ** (1 / e3) if nw is None else nw
    if x < xn * D:
        return an * (2 * a)
    return af * a**e1 * ti**e2 * (x / D) ** e3


VARS = [
    dict(kv="k", amb=False, nw=None, ind="Betz"),
    dict(kv="kfarm", amb=True, nw=None, ind="Madsen"),
    dict(kv="kti", amb=False, nw=3.0, ind="Betz"),
    dict(kv="kambti", amb=True, nw=2.0, ind="Madsen"),
]


@case("P08", quick=VARS, bounds=B, budget_s=200, branch_ms=500, skip_unknown=True)
def crespo_formula(ctx, kv, amb, nw, ind):
    """near wake constant, far wake power law; zero outside of the wake; own turbine data"""
    P = 2
    model = wm.ti.CrespoHernandezTIWake(superposition="ti_linear", use_ambti=amb, near_wake_D=nw, induction=ind,
                                        **KVAR[kv][0])
    al, md, fd, td, c = setup(ctx, model, 1, 1, P, ctmin=0.01, xlo=0.1, rews=1)
    d = result(ctx, al, md, fd, td, model, c, 1, FV.TI)
    k = KVAR[kv][1](fd, 0, 1)
    for p in range(P):
        ctx.eq("added TI", d[0, 0, p], crespo(ctx, fd, 1, *c[0, 0, p], k, amb, nw, ind))


IEC = [dict(typ=t, op=o) for t in ("2005", "2019", "Frandsen") for o in (21.6, 30.0, None)]


def iec(ctx, fd, w, x, y, z, typ, op, k):
    r = np.sqrt(y**2 + z**2)
    D, ws, ct = fd[FV.D][0, w], fd[FV.REWS][0, w], fd[FV.CT][0, w]
    R = float(np.tan(np.deg2rad(op / 2))) * x if op is not None else D / 2 + k * x
    if not r < R:
        return ctx.const(0)
    if typ == "2005":
        return np.sqrt(ctx.const(0.9)) / (1.5 + 0.3 * x / D * np.sqrt(ws))
    return 1 / (1.5 + 0.8 * x / D / np.sqrt(ct))


@case("P08", quick=IEC, bounds=B, budget_s=200, branch_ms=500)
def iec_formula(ctx, typ, op):
    P = 2
    model = wm.ti.IECTIWake(superposition="ti_linear", iec_type=typ, opening_angle=op, **(dict(k=0.07) if op is None else {}))
    al, md, fd, td, c = setup(ctx, model, 1, 1, P, ctmin=0.01, xlo=0.1)
    d = result(ctx, al, md, fd, td, model, c, 1, FV.TI)
    for p in range(P):
        ctx.eq("added TI", d[0, 0, p], iec(ctx, fd, 1, *c[0, 0, p], typ, op, 0.07))


def _mk(kind):
    if kind == "Crespo":
        return wm.ti.CrespoHernandezTIWake(superposition="ti_linear", near_wake_D=2.0, k=0.05)
    return wm.ti.IECTIWake(superposition="ti_linear", iec_type="2019" if kind == "IEC2019" else "2005")


@case("P08", quick=[dict(kind=k) for k in ("Crespo", "IEC2019", "IEC2005")], bounds=B, budget_s=200, branch_ms=500)
def selection(ctx, kind):
    """nothing upstream, at the rotor or for a turbine without thrust; targets do not mix"""
    model = _mk(kind)
    al, md, fd, td, c = setup(ctx, model, 1, 2, 1)
    d = result(ctx, al, md, fd, td, model, c, 0, FV.TI)
    ct = fd[FV.CT][0, 0]
    for t in range(2):
        x = c[0, t, 0, 0]
        if (x <= 0) | (ct <= 0):
            ctx.eq("no effect", d[0, t, 0], 0)
        elif (x > 1e-6) & (ct > 1e-6):
            if kind == "Crespo":
                spec = crespo(ctx, fd, 0, *c[0, t, 0], 0.05, nw=2.0)
            else:
                spec = iec(ctx, fd, 0, *c[0, t, 0], kind[3:], 21.6, None)
            ctx.eq("own strength", d[0, t, 0], spec)


@case("P08", quick=[dict(kind=k) for k in ("Crespo", "IEC2019", "IEC2005")], bounds=B, budget_s=200, branch_ms=500,
      skip_unknown=True)
def bounds(ctx, kind):
    """added turbulence is not negative and does not grow with the distance"""
    model = _mk(kind)
    al, md, fd, td, c = setup(ctx, model, 1, 2, 1, ctmin=0.01, xlo=1.0)
    c[0, :, 0, 1:] = 0 * c[0, :, 0, 1:]
    d = result(ctx, al, md, fd, td, model, c, 0, FV.TI)
    ctx.le("sign", 0, d[0, 0, 0])
    if kind != "Crespo":
        ctx.assume(c[0, 0, 0, 0] <= c[0, 1, 0, 0])
        ctx.le("decay", d[0, 1, 0], d[0, 0, 0])


@case("P08", quick=VARS[2:] + [dict(iec=("2005", 21.6)), dict(iec=("2019", 30.0)), dict(iec=("2019", None))],
      bounds="2 states, 3 targets, 2 target points with different numbers each; lateral positions up to 1000 m at any one target", budget_s=120, branch_ms=400,
      skip_unknown=True)
def several(ctx, kv=None, amb=False, nw=None, ind="Betz", iec=None, S=2, T=3, P=2):
    """every state, target and point uses its own distance and its own state's data of the causing turbine"""
    if iec is None:
        model = wm.ti.CrespoHernandezTIWake(superposition="ti_linear", use_ambti=amb, near_wake_D=nw, induction=ind, **KVAR[kv][0])
    else:
        typ, op = iec
        model = wm.ti.IECTIWake(superposition="ti_linear", iec_type=typ, opening_angle=op, **(dict(k=0.07) if op is None else {}))
    al, md, fd, td, c = setup(ctx, model, S, T, P, ctmin=0.01, yz=1000.0)
    concrete(ctx, fd, td, c, S, T, P, XS)
    for s in range(S):
        for w in range(2):
            fd[FV.REWS][s, w] = ctx.const([[4, 9], [16, 25]][s][w])
    d = result(ctx, al, md, fd, td, model, c, 1, FV.TI)
    for s, t, p in np.ndindex(S, T, P):
        if XS[s][t] <= 0:
            ctx.eq("no effect", d[s, t, p], 0)
        elif iec is None:
            ctx.eq("own data", d[s, t, p], _crespo_s(ctx, fd, s, 1, *c[s, t, p], KVAR[kv][1](fd, s, 1), amb, nw, ind))
        else:
            ctx.eq("own data", d[s, t, p], _iec_s(ctx, fd, s, 1, *c[s, t, p], typ, op, 0.07))


class _State:
    def __init__(self, fd, s):
        self.fd, self.s = fd, s

    def __getitem__(self, v):
        return self.fd[v][self.s:self.s + 1]


def _crespo_s(ctx, fd, s, w, *a):
    return crespo(ctx, _State(fd, s), w, *a)


def _iec_s(ctx, fd, s, w, *a):
    return _iec(ctx, _State(fd, s), w, *a)


_iec = iec
