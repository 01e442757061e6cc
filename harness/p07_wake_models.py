"""Wind deficit wake models"""
import numpy as np
import foxes
import foxes.variables as FV
import foxes.constants as FC
import foxes.models.wake_models as wm
from symx.runner import case
from . import lib

B = ("up to 2 states, 2 targets, 2 target points; ct in [0,0.95], D in [20,300] m, k in [0.005,0.2], "
     "TI in [0.02,0.4], wake coordinates x in [-5000,20000] m, |y|,|z| <= 3000 m")


def coos(ctx, S, T, P, xlo=-5000.0, xhi=20000.0, yz=3000.0, same_x=True):
    """wake frame coordinates; all points of a rotor share x"""
    c = ctx.empty((S, T, P, 3))
    if same_x:
        x = ctx.reals("x", (S, T), xlo, xhi)
        c[..., 0] = x[:, :, None]
    else:
        c[..., 0] = ctx.reals("x", (S, T, P), xlo, xhi)
    c[..., 1:] = ctx.reals("yz", (S, T, P, 2), -yz, yz)
    return c


def setup(ctx, model, S, T, P, W=2, ctmax=0.95, rews=None, ctmin=0.0, extra=None, **ck):
    """an initialized model, data for W turbines, wake coordinates"""
    fv = {
        FV.CT: ctx.reals("ct", (S, W), ctmin, ctmax),
        FV.D: ctx.reals("D", (S, W), 20.0, 300.0),
        FV.TI: ctx.reals("ti", (S, W), 0.02, 0.4),
        FV.AMB_TI: ctx.reals("ati", (S, W), 0.02, 0.4),
        FV.K: ctx.reals("k", (S, W), 0.005, 0.2),
        FV.REWS: ctx.reals("rews", (S, W), 1.0, 30.0) if rews is None else lib.filled(ctx, (S, W), ctx.const(rews)),
    }
    fv.update({v: f(S, W) for v, f in (extra or {}).items()})
    fd = lib.fdata(fv)
    td = lib.tdata(lib.filled(ctx, (S, T, P, 3), ctx.const(0)))
    md = lib.mdata(S)
    al = lib.StubAlgo(S, W, mbook=foxes.ModelBook())
    al.store_model_data = lambda *a, **k: None
    al.wake_models = {"w": model}
    model.initialize(al)
    c = coos(ctx, S, T, P, **ck)
    return al, md, fd, td, c


def result(ctx, al, md, fd, td, model, c, dwi, var, amb=None):
    """the wake delta that the model hands to its superposition, unchanged inputs"""
    c0 = c.copy()
    f0 = {v: fd[v].copy() for v in (FV.CT, FV.D, FV.TI, FV.AMB_TI, FV.K, FV.REWS)}
    deltas = model.new_wake_deltas(al, md, fd, td)
    model.contribute(al, md, fd, td, dwi, c, deltas)
    ctx.eq_arr("coordinates unchanged", c, c0)
    for v, a in f0.items():
        ctx.eq_arr(f"{v} unchanged", fd[v], a)
    return deltas[var]


KVAR = {
    "k": (dict(k=0.04), lambda fd, s, w: 0.04),
    "kfarm": (dict(), lambda fd, s, w: fd[FV.K][s, w]),
    "kti": (dict(ka=0.3), lambda fd, s, w: fd[FV.TI][s, w] * 0.3),
    "kambti": (dict(ka=0.2, kb=0.004, ti_var=FV.AMB_TI), lambda fd, s, w: fd[FV.AMB_TI][s, w] * 0.2 + 0.004),
}


def a_of(kind, ct):
    if kind == "Betz":
        return (1 - np.sqrt(1 - np.minimum(ct, 0.99999))) / 2
    return 0.246 * ct + 0.0586 * ct**2 + 0.0883 * ct**3


def clip1(v):
    return np.maximum(v, -1.0)


def jensen(ctx, fd, s, w, x, y, z, k, ind):
    R = fd[FV.D][s, w] / 2
    Rw = R + k * x
    r = np.sqrt(y**2 + z**2)
    if r < Rw:
        return -2 * a_of(ind, fd[FV.CT][s, w]) * R**2 / Rw**2
    return x * 0


def _gauss(ct, D, sigma, r, ind):
    amp = clip1(-2 * a_of(ind, ct / (8 * (sigma / D) ** 2)))
    return amp * np.exp(-(r**2) / (2 * sigma**2))


def bast14(ctx, fd, s, w, x, y, z, k, ind):
    ct, D = fd[FV.CT][s, w], fd[FV.D][s, w]
    a = a_of(ind, ct)
    sigma = k * x + np.sqrt((1 - a) / (1 - 2 * a)) * D / 5
    return _gauss(ct, D, sigma, np.sqrt(y**2 + z**2), ind)


def turbopark(ctx, fd, s, w, x, y, z, k, ind):
    ct, D, ati = fd[FV.CT][s, w], fd[FV.D][s, w], fd[FV.AMB_TI][s, w]
    a = a_of(ind, ct)
    al = 1.5 * ati
    be = 0.8 * ati / np.sqrt(ct)
    ab = al + be * x / D
    sq = np.sqrt(ab**2 + 1)
    sq0 = np.sqrt(1 + al**2)
    sigma = D * (np.sqrt((1 - a) / (1 - 2 * a)) / 4 + k / be * (
        sq - sq0 - np.log((sq + 1) * al / ((sq0 + 1) * ab))))
    return _gauss(ct, D, sigma, np.sqrt(y**2 + z**2), ind)


MODELS = {
    "JensenWake": jensen,
    "Bastankhah2014": bast14,
    "TurbOParkWake": turbopark,
}


def _make(kind, ind, kv):
    return getattr(wm.wind, kind)(superposition="ws_linear", induction=ind, **KVAR[kv][0])


O = {
    "JensenWake": {},
    "Bastankhah2014": dict(_opts=dict(branch_ms=500, skip_unknown=True)),
    "TurbOParkWake": dict(_opts=dict(branch_ms=300, skip_unknown=True)),
}


def _fsets():
    out = []
    for kind in MODELS:
        for ind in ("Betz", "Madsen"):
            if ind == "Betz" and kind != "JensenWake":
                continue
            for kv in KVAR:
                out.append(dict(kind=kind, ind=ind, kv=kv, S=2 if kind == "JensenWake" else 1, **O[kind]))
    return out


@case("P07", quick=_fsets(), bounds=B, budget_s=300)
def deficit_formula(ctx, kind, ind, kv, S):
    """downstream of an operating turbine: documented deficit of the causing turbine at each point"""
    T, P = 1, 2
    model = _make(kind, ind, kv)
    al, md, fd, td, c = setup(ctx, model, S, T, P, ctmin=0.01, xlo=0.1, rews=1)
    dwi = 1
    d = result(ctx, al, md, fd, td, model, c, dwi, FV.WS)
    for s, t, p in np.ndindex(S, T, P):
        k = KVAR[kv][1](fd, s, dwi)
        spec = MODELS[kind](ctx, fd, s, dwi, *c[s, t, p], k, ind)
        ctx.eq("deficit", d[s, t, p], spec)


@case("P07", quick=[dict(kind=k, ind="Madsen" if k != "JensenWake" else "Betz", **O[k]) for k in MODELS], bounds=B, budget_s=300)
def selection(ctx, kind, ind):
    """no effect upstream, at the rotor plane or of a turbine without thrust; targets do not interact"""
    S, T, P = 1, 2, 1
    model = _make(kind, ind, "kfarm")
    al, md, fd, td, c = setup(ctx, model, S, T, P)
    if kind != "JensenWake":
        c[0, 1, 0, 0] = ctx.choice("x1", [ctx.const(-50), ctx.const(0), ctx.const(700)])
    d = result(ctx, al, md, fd, td, model, c, 0, FV.WS)
    k = fd[FV.K][0, 0]
    for t in range(T):
        x = c[0, t, 0, 0]
        if (x <= 0) | (fd[FV.CT][0, 0] <= 0):
            ctx.eq("no effect", d[0, t, 0], 0)
        elif (x > 1e-6) & (fd[FV.CT][0, 0] > 1e-6):
            spec = MODELS[kind](ctx, fd, 0, 0, *c[0, t, 0], k, ind)
            ctx.eq("own strength", d[0, t, 0], spec * fd[FV.REWS][0, 0])


@case("P07", quick=[dict(kind=k, ind="Betz" if k == "JensenWake" else "Madsen", **O[k]) for k in MODELS], bounds=B, budget_s=300)
def deficit_bounds(ctx, kind, ind):
    """the deficit is between 0 and 100 per cent, is radially symmetric and does not grow with radius"""
    model = _make(kind, ind, "kfarm")
    al, md, fd, td, c = setup(ctx, model, 1, 1, 3, xlo=0.1, ctmin=0.01, rews=1)
    # third point: rotated by 90 degrees with respect to the first
    c[0, 0, 2, 1] = -c[0, 0, 0, 2]
    c[0, 0, 2, 2] = c[0, 0, 0, 1]
    d = result(ctx, al, md, fd, td, model, c, 0, FV.WS)[0, 0]
    for p in range(2):
        ctx.between("bounds", d[p], -1, 0)
    ctx.eq("symmetry", d[2], d[0])
    y, z = c[0, 0, :, 1], c[0, 0, :, 2]
    if y[0] ** 2 + z[0] ** 2 <= y[1] ** 2 + z[1] ** 2:
        ctx.le("decay", d[0], d[1])


def bast16(ctx, fd, s, w, x, y, z, k, ind, gamma, cosg, al=0.58, be=0.07):
    ct, D, ti = fd[FV.CT][s, w], fd[FV.D][s, w], fd[FV.TI][s, w]
    twoa = 2 * a_of(ind, ct)
    twoac = 2 * a_of(ind, ct * cosg)
    x0 = D * cosg * (2 - twoa) / (np.sqrt(ctx.const(2)) * (4 * al * ti + be * twoa))
    sy0 = D * cosg / np.sqrt(ctx.const(8))
    sz0 = D / np.sqrt(ctx.const(8))
    if x < x0:
        d = x / x0
        uR = 0.5 * ct * cosg / twoac
        u0 = 1 - twoa
        rpc0 = 0.5 * D * np.sqrt(uR / u0)
        rpc = rpc0 - d * rpc0
        r = np.sqrt(y**2 + z**2)
        if r > rpc:
            return -twoa * np.exp(-0.5 * ((r - rpc) / (d * sy0)) ** 2)
        return -twoa
    sy = k * (x - x0) + sy0
    sz = k * (x - x0) + sz0
    amp = np.maximum(-2 * a_of(ind, ct * cosg * D**2 / (8 * sy * sz)), -1)
    return amp * np.exp(-0.5 * (y / sy) ** 2) * np.exp(-0.5 * (z / sz) ** 2)


@case("P07", quick=[dict(kv=kv, reg=r) for kv in KVAR for r in ("near", "far")], bounds=B + "; yaw misalignment in [0,60] deg",
      budget_s=200, branch_ms=400, skip_unknown=True)
def bastankhah16_formula(ctx, kv, reg):
    """near wake: potential core with Gaussian edge; far wake: elliptic Gaussian; yawed rotors"""
    T, P = 1, 2 if reg == "far" else 1
    al, be = ctx.real("alpha", 0.3, 1.0), ctx.real("beta", 0.03, 0.2)
    model = wm.wind.Bastankhah2016(superposition="ws_linear", induction="Madsen", alpha=al, beta=be, **KVAR[kv][0])
    g = ctx.angle("yawm", 0, 60)
    gam = ctx.empty((1, 2))
    gam[0, 0] = ctx.const(0)
    gam[0, 1] = g
    md_al, md, fd, td, c = setup(ctx, model, 1, T, P, ctmin=0.01, xlo=0.1, rews=1,
                                 extra={FV.YAWM: lambda S, W: gam})
    k = KVAR[kv][1](fd, 0, 1)
    cosg = np.cos(g * np.pi / 180)
    ct, D, ti = fd[FV.CT][0, 1], fd[FV.D][0, 1], fd[FV.TI][0, 1]
    twoa = 2 * a_of("Madsen", ct)
    x0 = D * cosg * (2 - twoa) / (np.sqrt(ctx.const(2)) * (4 * al * ti + be * twoa))
    ctx.assume((c[0, 0, 0, 0] < x0) if reg == "near" else (c[0, 0, 0, 0] >= x0))
    d = result(ctx, md_al, md, fd, td, model, c, 1, FV.WS)
    for p in range(P):
        spec = bast16(ctx, fd, 0, 1, *c[0, 0, p], k, "Madsen", g, cosg, al, be)
        ctx.eq("deficit", d[0, 0, p], spec)


@case("P07", quick=[{}], bounds=B, budget_s=200, branch_ms=400, skip_unknown=True)
def bastankhah16_selection(ctx):
    """no effect upstream or without thrust; the second target has its own distance"""
    model = wm.wind.Bastankhah2016(superposition="ws_linear", induction="Madsen", k=0.05)
    al, md, fd, td, c = setup(ctx, model, 1, 2, 1, W=1, rews=1, extra={
        FV.YAWM: lambda S, W: lib.filled(ctx, (S, W), ctx.const(0))})
    c[0, 1, 0, 0] = ctx.choice("x1", [ctx.const(-50), ctx.const(0), ctx.const(20), ctx.const(3000)])
    d = result(ctx, al, md, fd, td, model, c, 0, FV.WS)
    ct = fd[FV.CT][0, 0]
    for t in range(2):
        x = c[0, t, 0, 0]
        if (x <= 0) | (ct <= 0):
            ctx.eq("no effect", d[0, t, 0], 0)
        elif (t == 1) & (x > 1e-6) & (ct > 1e-6):
            spec = bast16(ctx, fd, 0, 0, *c[0, t, 0], 0.05, "Madsen", 0, 1)
            ctx.eq("own strength", d[0, t, 0], spec)


@case("P07", quick=[{}], bounds=B, budget_s=200, branch_ms=400, skip_unknown=True)
def bastankhah16_two_models(ctx):
    """two wake models with different parameters in one calculation keep their own deficits"""
    ks = [0.03, ctx.real("k2", 0.04, 0.1)]
    models = [wm.wind.Bastankhah2016(superposition="ws_linear", induction="Madsen", k=k) for k in ks]
    al, md, fd, td, c = setup(ctx, models[0], 1, 1, 1, W=1, rews=1, ctmin=0.01, xlo=3000, extra={
        FV.YAWM: lambda S, W: lib.filled(ctx, (S, W), ctx.const(0))})
    models[1].initialize(al)
    for m, k in zip(models, ks):
        d = result(ctx, al, md, fd, td, m, c, 0, FV.WS)
        spec = bast16(ctx, fd, 0, 0, *c[0, 0, 0], k, "Madsen", 0, 1)
        ctx.eq("own parameters", d[0, 0, 0], spec)


def concrete(ctx, fd, td, c, S, T, P, xs, yaw=None):
    """different numbers for all states, turbines and targets; the lateral positions at one of the targets stay symbolic"""
    W = 2
    val = {
        FV.CT: [[0.36, 0.64], [0.75, 0.51], [0.19, 0.84]],
        FV.D: [[120, 80], [150, 200], [90, 60]],
        FV.TI: [[0.06, 0.08], [0.1, 0.12], [0.14, 0.05]],
        FV.AMB_TI: [[0.05, 0.07], [0.09, 0.11], [0.13, 0.04]],
        FV.K: [[0.03, 0.04], [0.05, 0.06], [0.07, 0.02]],
    }
    for v, a in val.items():
        for s in range(S):
            for w in range(W):
                fd[v][s, w] = ctx.const(a[s][w])
    free = ctx.choice("free", [(s, t) for s in range(S) for t in range(T) if xs[s][t] != 0 and (min(map(min, xs)) < -300 or xs[s][t] > 0)])
    y0 = c[free][:, 1].copy()
    for s in range(S):
        for t in range(T):
            c[s, t, :, 0] = ctx.const(xs[s][t])
            for p in range(P):
                c[s, t, p, 1] = y0[p] if (s, t) == free else ctx.const(17 * p - 40 * t + 30 * s)
                c[s, t, p, 2] = ctx.const(10 * (s + 2 * t) + 7 * p)


XS = [[400, -30, 3000], [-100, 900, 150], [2000, 100, 0]]


@case("P07", quick=[dict(kind=k, kv=kv) for k in ("JensenWake", "Bastankhah2014", "TurbOParkWake", "Bastankhah2016", "Bastankhah2016yaw") for kv in ("kti", "kfarm")],
      bounds="2-3 states, 2-3 targets, 2 target points with different numbers each; lateral positions up to 1000 m at any one target", budget_s=120, branch_ms=400,
      skip_unknown=True)
def several(ctx, kind, kv, S=2, T=3, P=2):
    """every state, target and point uses its own distance and its own state's data of the causing turbine"""
    yaw = kind.endswith("yaw")
    name = kind.replace("yaw", "")
    ind = "Betz" if name == "JensenWake" else "Madsen"
    model = _make(name, ind, kv)
    gam = ctx.empty((S, 2))
    for s in range(S):
        gam[s] = ctx.arr([0.0, 30.0 if s == 0 else -20.0]) if yaw else ctx.arr([0.0, 0.0])
    al, md, fd, td, c = setup(ctx, model, S, T, P, rews=1, ctmin=0.01, yz=1000.0, extra={FV.YAWM: lambda *a: gam})
    concrete(ctx, fd, td, c, S, T, P, XS)
    d = result(ctx, al, md, fd, td, model, c, 1, FV.WS)
    for s, t, p in np.ndindex(S, T, P):
        if XS[s][t] <= 0:
            ctx.eq("no effect", d[s, t, p], 0)
            continue
        k = KVAR[kv][1](fd, s, 1)
        if name == "Bastankhah2016":
            spec = bast16(ctx, fd, s, 1, *c[s, t, p], k, ind, gam[s, 1], np.cos(gam[s, 1] * np.pi / 180))
        else:
            spec = MODELS[name](ctx, fd, s, 1, *c[s, t, p], k, ind)
        ctx.eq("own data", d[s, t, p], spec)
