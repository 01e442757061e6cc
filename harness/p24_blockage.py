"""Induction (blockage) models"""
import numpy as np
import foxes.variables as FV
import foxes.models.wake_models as wm
from symx.runner import case
from . import lib
from .p07_wake_models import setup, a_of, coos, concrete

B = ("1 state, up to 2 targets, 1 target point; ct in [0.01,0.95], D in [20,300] m, rotor wind speed in [1,30] m/s, "
     "x in [-5000,5000] m, |y|,|z| <= 3000 m")


def _rathmann(ctx, ct, x, r, ind):
    """x <= 0, in units of R"""
    mu = 1 + x / np.sqrt(1 + x**2)
    s2 = 2 * x / np.sqrt((x**2 + (r - 1) ** 2) * (x**2 + (r + 1) ** 2))
    sa = np.sqrt(0.5 * (1 - np.sqrt(1 - s2**2)))
    sb = 1 / np.sqrt(x**2 + r**2 + 1)
    return a_of(ind, ct) * mu * (sa * sb * (1 + x**2))


def _rad(ctx, x, r, half):
    return (1 / np.cosh(np.sqrt(2) * r / half)) ** (8 / 9)


def _selfsim(ctx, ct, x, r, ind, gamma=1.1):
    mu = 1 + x / np.sqrt(1 + x**2)
    return a_of(ind, gamma * ct) * mu * _rad(ctx, x, r, np.sqrt(0.587 * (1.32 + x**2)))


def _selfsim20(ctx, ct, x, r, ind):
    def mu(x):
        return 1 + x / np.sqrt(1 + x**2)

    xn = np.minimum(np.maximum(-np.abs(x), -6), -1)
    c = (mu(xn) - mu(-1)) / (mu(-6) - mu(-1))
    far = -0.06489 * np.sin((ct - 0.4911) / 0.1577) + 1.116
    near = -1.381 * ct**3 + 2.627 * ct**2 - 1.524 * ct + 1.336
    return a_of(ind, (c * far + (1 - c) * near) * ct) * mu(x) * _rad(ctx, x, r, -0.672 * x + 0.4897)


def _vsheet(ctx, ct, x, r, ind):
    xi = np.sqrt(x**2 + r**2)
    return a_of(ind, ct) * (1 - xi / np.sqrt(1 + xi**2))


MODELS = {
    "Rathmann": _rathmann,
    "SelfSimilar": _selfsim,
    "SelfSimilar2020": _selfsim20,
    "VortexSheet": _vsheet,
}


def _run(ctx, kind, ind, T, P, pre, dwi, W=2, sup="ws_linear", **kw):
    model = getattr(wm.induction, kind)(superposition=sup, induction=ind, pre_rotor_only=pre)
    al, md, fd, td, c = setup(ctx, model, 1, T, P, W=W, ctmin=0.01, xhi=5000.0, same_x=False, **kw)
    deltas = model.new_wake_deltas(al, md, fd, td)
    c0 = c.copy()
    model.contribute(al, md, fd, td, dwi, c, deltas)
    ctx.eq_arr("coordinates unchanged", c, c0)
    return al, md, fd, td, c, deltas, model


@case("P24", quick=[dict(kind=k, reg=r, ind=i) for k in MODELS for r, i in (("up", "Madsen"), ("down", "Madsen"), ("up", "Betz"))],
      bounds=B, budget_s=200, branch_ms=500, skip_unknown=True)
def blockage(ctx, kind, reg, ind):
    """slow-down upstream, speed-up of the same size beside the wake, nothing inside the wake"""
    kw = dict(xlo=-5000.0) if reg == "up" else dict(xlo=0.1)
    al, md, fd, td, c, deltas, model = _run(ctx, kind, ind, 1, 1, False, 1, **kw)
    if reg == "up":
        ctx.assume(c[0, 0, 0, 0] <= 0)
    R = fd[FV.D][0, 1] / 2
    x, y, z = c[0, 0, 0]
    r = np.sqrt(y**2 + z**2)
    ct, ws = fd[FV.CT][0, 1], fd[FV.REWS][0, 1]
    # the code rounds coordinates relative to the radius
    got = deltas[FV.WS][0, 0, 0]
    if reg == "up":
        ctx.eq("upstream", got, -ws * MODELS[kind](ctx, ct, x / R, r / R, ind), tol=1e-6)
    elif r / R > 1:
        ctx.eq("beside", got, ws * MODELS[kind](ctx, ct, -x / R, r / R, ind), tol=1e-6)
    else:
        ctx.eq("inside", got, 0)


@case("P24", quick=[dict(kind=k) for k in MODELS], bounds=B, budget_s=200, branch_ms=500, skip_unknown=True)
def pre_rotor_only(ctx, kind):
    """with the upstream option nothing happens downstream; targets do not mix"""
    al, md, fd, td, c, deltas, model = _run(ctx, kind, "Madsen", 2, 1, True, 0, xlo=-5000.0)
    R = fd[FV.D][0, 0] / 2
    for t in range(2):
        x, y, z = c[0, t, 0]
        if x > 0.001:
            ctx.eq("downstream", deltas[FV.WS][0, t, 0], 0)
        elif (t == 1) & (x <= 0):
            r = np.sqrt(y**2 + z**2)
            ctx.eq("upstream", deltas[FV.WS][0, t, 0],
                   -fd[FV.REWS][0, 0] * MODELS[kind](ctx, fd[FV.CT][0, 0], x / R, r / R, "Madsen"), tol=1e-6)


@case("P24", quick=[dict(kind=k) for k in MODELS], bounds=B, budget_s=200, branch_ms=500, skip_unknown=True)
def no_thrust(ctx, kind):
    """a turbine without thrust has no induction zone, and the other turbine is not looked at"""
    model = getattr(wm.induction, kind)()
    al, md, fd, td, c = setup(ctx, model, 1, 1, 2, W=2, xhi=5000.0, same_x=False)
    fd[FV.CT][0, 0] = ctx.const(0)
    deltas = model.new_wake_deltas(al, md, fd, td)
    model.contribute(al, md, fd, td, 0, c, deltas)
    ctx.eq_arr("no effect", deltas[FV.WS][0, 0], 0 * c[0, 0, :, 0])


@case("P24", quick=[dict(ind="Madsen"), dict(ind="Betz")], bounds=B, budget_s=200, branch_ms=500, skip_unknown=True)
def rankine(ctx, ind):
    """source flow outside of the Rankine half body, nothing inside downstream, stagnation value ahead"""
    model = wm.induction.RankineHalfBody(induction=ind)
    al, md, fd, td, c = setup(ctx, model, 1, 1, 1, W=2, xhi=5000.0, same_x=False, ctmin=0.01)
    deltas = model.new_wake_deltas(al, md, fd, td)
    model.contribute(al, md, fd, td, 1, c, deltas)
    x, y, z = c[0, 0, 0]
    ctx.assume(x**2 + y**2 + z**2 > 0.01)
    ct, ws, D = fd[FV.CT][0, 1], fd[FV.REWS][0, 1], fd[FV.D][0, 1]
    m = 2 * ws * a_of(ind, ct) * (D / 2) ** 2
    r2 = y**2 + z**2
    R = np.sqrt(r2 + x**2)
    shape = x / R - 2 / (m + 1e-15) * ws * r2
    xs = -np.sqrt(m / (4 * ws + 1e-15))
    U, V = deltas["U"][0, 0, 0], deltas["V"][0, 0, 0]
    if (shape < -1) | (x < xs):
        ctx.eq("source U", U, m / (4 * R**3) * x, tol=1e-6)
        ctx.eq("source V", V, m / (4 * R**3) * y, tol=1e-6)
    elif x <= 0:
        ctx.eq("front U", U, -m / (4 * xs**2), tol=1e-6)
        ctx.eq("front V", V, 0)
    else:
        ctx.eq("inside U", U, 0)
        ctx.eq("inside V", V, 0)


@case("P24", quick=[{}], bounds="1 state, 1 point; wind speeds in [1,30], all directions, |U|,|V| <= 0.5 m/s", budget_s=100)
def rankine_final(ctx):
    """the wind vector plus the induced velocity: speed and direction changes"""
    model = wm.induction.RankineHalfBody(induction="Betz")
    al, md, fd, td, c = setup(ctx, model, 1, 1, 1, W=1)
    ws = ctx.reals("ws", (1, 1, 1), 1, 30)
    wd = ctx.empty((1, 1, 1))
    wd[0, 0, 0] = ctx.angle("wd")
    deltas = model.new_wake_deltas(al, md, fd, td)
    deltas["U"][...] = ctx.reals("U", (1, 1, 1), -0.5, 0.5)
    deltas["V"][...] = ctx.reals("V", (1, 1, 1), -0.5, 0.5)
    u, v = deltas["U"][0, 0, 0], deltas["V"][0, 0, 0]
    model.finalize_wake_deltas(al, md, fd, {FV.WS: ws, FV.WD: wd}, deltas)
    w1 = ws[0, 0, 0] + deltas[FV.WS][0, 0, 0]
    ctx.eq("speed", w1**2, (ws[0, 0, 0] + u) ** 2 + v**2)
    ctx.le("speed sign", 0, w1)
    nw = wd[0, 0, 0] + deltas[FV.WD][0, 0, 0]
    # direction: blowing to (sin, cos)(wd + 180)
    a = np.deg2rad(wd[0, 0, 0] + 180)
    ex = np.sin(a) * (ws[0, 0, 0] + u) - np.cos(a) * v
    ey = np.cos(a) * (ws[0, 0, 0] + u) + np.sin(a) * v
    b = np.deg2rad(nw + 180)
    ctx.eq("direction x", w1 * np.sin(b), ex, tol=1e-6)
    ctx.eq("direction y", w1 * np.cos(b), ey, tol=1e-6)


@case("P24", quick=[{}], bounds="2 states, 2 targets, 2 points with different ambient wind; induced velocities at any one of them up to 0.5 m/s", budget_s=100)
def rankine_final_several(ctx):
    """every point uses its own ambient wind vector"""
    model = wm.induction.RankineHalfBody(induction="Betz")
    S = T = P = 2
    al, md, fd, td, c = setup(ctx, model, S, T, P, W=1)
    ws, wd = ctx.empty((S, T, P)), ctx.empty((S, T, P))
    deltas = model.new_wake_deltas(al, md, fd, td)
    f = ctx.choice("point", list(np.ndindex(S, T, P)))
    for k, i in enumerate(np.ndindex(S, T, P)):
        ws[i] = ctx.const(5 + 2 * k)
        wd[i] = ctx.const([0, 90, 180, 270][k % 4])
        deltas["U"][i] = ctx.const(-0.25)
        deltas["V"][i] = ctx.const(0)
    deltas["U"][f] = u = ctx.real("U", -0.5, 0.5)
    deltas["V"][f] = v = ctx.real("V", -0.5, 0.5)
    model.finalize_wake_deltas(al, md, fd, {FV.WS: ws, FV.WD: wd}, deltas)
    for k, i in enumerate(np.ndindex(S, T, P)):
        w1 = 5 + 2 * k + deltas[FV.WS][i]
        if i != f:
            ctx.eq("speed", w1, 4.75 + 2 * k)
            ctx.eq("direction", deltas[FV.WD][i], 0)
        else:
            ctx.eq("speed of the vector", w1**2, (5 + 2 * k + u) ** 2 + v**2)


XS = [[-400, 30, -50], [100, -90, -150]]


@case("P24", quick=[dict(kind=k, pre=p) for k in MODELS for p in (False, True)],
      bounds="2 states, 3 targets, 2 target points with different numbers each; lateral positions up to 1000 m at any one target", budget_s=150, branch_ms=500,
      skip_unknown=True)
def several(ctx, kind, pre):
    """every state, target and point uses its own position and its own state's data of the causing turbine"""
    S, T, P = 2, 3, 2
    model = getattr(wm.induction, kind)(superposition="ws_linear", induction="Madsen", pre_rotor_only=pre)
    al, md, fd, td, c = setup(ctx, model, S, T, P, ctmin=0.01, yz=1000.0, rews=1)
    concrete(ctx, fd, td, c, S, T, P, XS)
    for s in range(S):
        fd[FV.REWS][s, 1] = ctx.const(7 + 4 * s)
    deltas = model.new_wake_deltas(al, md, fd, td)
    model.contribute(al, md, fd, td, 1, c, deltas)
    for s, t, p in np.ndindex(S, T, P):
        R = fd[FV.D][s, 1] / 2
        x, y, z = c[s, t, p]
        r = np.sqrt(y**2 + z**2)
        ct, ws = fd[FV.CT][s, 1], fd[FV.REWS][s, 1]
        got = deltas[FV.WS][s, t, p]
        if x <= 0:
            ctx.eq("upstream", got, -ws * MODELS[kind](ctx, ct, x / R, r / R, "Madsen"), tol=1e-6)
        elif pre:
            ctx.eq("downstream", got, 0)
        elif r > R:
            ctx.eq("beside", got, ws * MODELS[kind](ctx, ct, -x / R, r / R, "Madsen"), tol=1e-6)
        else:
            ctx.eq("inside", got, 0)
