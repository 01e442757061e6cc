"""Vertical profiles"""
import numpy as np
import foxes.variables as FV
import foxes.constants as FC
import foxes.models.vertical_profiles as vp
from symx.runner import case
from . import lib

B = ("up to 2 states, 2 points; heights and reference heights in [1,400] m, z0 in [1e-4,0.9] m, |MOL| in [10,2000] m, "
     "wind speed in [0.5,40] m/s, friction velocity in [0.05,2], shear in [0,0.6]")
KAPPA = FC.KAPPA

KINDS = ["ABLLogNeutralWsProfile", "ABLLogStableWsProfile", "ABLLogUnstableWsProfile", "ABLLogWsProfile", "ShearedProfile"]


def psi(kind, h, mol):
    if kind == "neutral":
        return 0 * h
    if kind == "stable":
        return -5.0 * np.minimum(h, mol) / mol
    x = (1 - 16.0 * h / mol) ** 0.25
    return 2 * np.log((1 + x) / 2) + np.log((1 + x**2) / 2) - 2 * np.arctan(x) + np.pi / 2


def log_law(kind, h, z0, mol, ws=None, h0=None, ustar=None):
    """wind speed at h, from the value at h0 or from the friction velocity"""
    def f(z):
        return np.log(np.maximum(z, z0) / z0) - psi(kind, z, mol)

    if ustar is None:
        return ws * f(h) / f(h0)
    return ustar / KAPPA * f(h)


def _mol(ctx, name, shape, kind):
    if kind == "stable":
        return ctx.reals(name, shape, 10, 2000)
    if kind == "unstable":
        return ctx.reals(name, shape, -2000, -10)
    return ctx.reals(name, shape, 0, 0)


def _data(ctx, shape, scalar, kind, ustar, sheared=False):
    sh = () if scalar else shape
    def g(n, lo, hi):
        return ctx.real(n, lo, hi) if scalar else ctx.reals(n, shape, lo, hi)

    d = {}
    if sheared:
        d[FV.SHEAR] = g("shear", 0, 0.6)
    else:
        d[FV.Z0] = g("z0", 1e-4, 0.9)
        if kind is not None:
            m = _mol(ctx, "mol", (1,) if scalar else shape, kind)
            d[FV.MOL] = m[0] if scalar else m
    if ustar:
        d[FV.USTAR] = g("ustar", 0.05, 2)
    else:
        d[FV.WS] = g("ws", 0.5, 40)
        d[FV.H] = g("h0", 1, 400)
    return d


STAB = {"ABLLogNeutralWsProfile": ["neutral"], "ABLLogStableWsProfile": ["stable"],
        "ABLLogUnstableWsProfile": ["unstable"], "ABLLogWsProfile": ["neutral", "stable", "unstable"]}


def _sets():
    out = []
    for k in STAB:
        for st in STAB[k]:
            for u in (False, True):
                for sc in (False, True):
                    out.append(dict(cls=k, stab=st, ustar=u, scalar=sc))
    return out


def _at(d, v, i, scalar):
    return None if v not in d else d[v] if scalar else d[v][i]


@case("P15", quick=_sets(), bounds=B, budget_s=150, branch_ms=500, skip_unknown=True)
def log_profiles(ctx, cls, stab, ustar, scalar):
    """the documented log law with stability correction, with the data of the point itself"""
    shape = (1, 2, 1)
    p = getattr(vp, cls)(ustar_input=ustar)
    d = _data(ctx, shape, scalar, None if cls == "ABLLogNeutralWsProfile" else stab, ustar)
    need = set(p.input_vars())
    ctx.true("inputs", need <= set(d), f"{sorted(need)} vs {sorted(d)}")
    h = ctx.reals("h", shape, 1, 400)
    h0 = h.copy()
    p.initialize(lib.StubAlgo())
    res = p.calculate(dict(d), h)
    ctx.eq_arr("heights unchanged", h, h0)
    ctx.true("shape", np.shape(res) == shape, f"{np.shape(res)}")
    for i in np.ndindex(*shape):
        ctx.eq("wind speed", res[i], log_law(
            stab, h[i], *[_at(d, v, i, scalar) for v in (FV.Z0, FV.MOL, FV.WS, FV.H, FV.USTAR)]))


@case("P15", quick=[{}], bounds=B, budget_s=150, branch_ms=500, skip_unknown=True)
def mixed_stability(ctx):
    """each point follows its own stability class"""
    shape = (1, 3, 1)
    p = vp.ABLLogWsProfile()
    d = _data(ctx, shape, False, None, False)
    mol = ctx.empty(shape)
    perm = ctx.permutation("perm", 3)
    st = ["neutral", "stable", "unstable"]
    for j, i in enumerate(perm):
        mol[0, i, 0] = _mol(ctx, f"mol{j}", (1,), st[j])[0]
    d[FV.MOL] = mol
    h = ctx.reals("h", shape, 1, 400)
    res = p.calculate(dict(d), h)
    for j, i in enumerate(perm):
        i = (0, i, 0)
        ctx.eq("wind speed", res[i], log_law(st[j], h[i], *[d[v][i] for v in (FV.Z0, FV.MOL, FV.WS, FV.H)]))


@case("P15", quick=[dict(cls=c, stab=s) for c in STAB for s in STAB[c]] + [dict(cls="ShearedProfile", stab=None)],
      bounds=B, budget_s=150, branch_ms=500, skip_unknown=True)
def reference_height(ctx, cls, stab):
    """the reference wind speed is returned at the reference height"""
    shape = (1, 2, 1)
    p = getattr(vp, cls)()
    d = _data(ctx, shape, False, stab, False, sheared=stab is None)
    if stab is not None:
        ctx.assume(d[FV.H] >= 1.5)
    res = p.calculate(dict(d), d[FV.H].copy())
    ctx.eq_arr("reference", res, d[FV.WS])


@case("P15", quick=[dict(scalar=False), dict(scalar=True)], bounds=B, budget_s=100)
def sheared(ctx, scalar):
    shape = (2, 1, 2)
    p = vp.ShearedProfile()
    d = _data(ctx, shape, scalar, None, False, sheared=True)
    h = ctx.reals("h", shape, 1, 400)
    res = p.calculate(dict(d), h)
    for i in np.ndindex(*shape):
        f = {v: _at(d, v, i, scalar) for v in d}
        ctx.eq("power law", res[i], f[FV.WS] * (h[i] / f[FV.H]) ** f[FV.SHEAR])


@case("P15", quick=[dict(scalar=False), dict(scalar=True)], bounds=B, budget_s=100)
def uniform(ctx, scalar):
    shape = (2, 1, 2)
    p = vp.UniformProfile(FV.RHO)
    v = ctx.real("v", 0, 2) if scalar else ctx.reals("v", shape, 0, 2)
    h = ctx.reals("h", shape, 1, 400)
    res = p.calculate({FV.RHO: v}, h)
    for i in np.ndindex(*shape):
        ctx.eq("uniform", res[i], v if scalar else v[i])


@case("P15", quick=[dict(order=o) for o in ("up", "down", "mixed")],
      bounds="3 nodes with distances of at least 1 m in any file order, 2 points within the node range; linear interpolation",
      budget_s=150)
def data_profile(ctx, order):
    """piecewise linear through the nodes, which may be given in any order"""
    z = [ctx.real("z0", 1, 100)]
    for i in range(2):
        z.append(z[-1] + ctx.real(f"dz{i}", 1, 100))
    v = [ctx.real(f"v{i}", 0, 40) for i in range(3)]
    o = dict(up=[0, 1, 2], down=[2, 1, 0], mixed=[1, 2, 0])[order]
    data = ctx.empty((2, 3))
    for j, i in enumerate(o):
        data[0, j], data[1, j] = z[i], v[i]
    p = vp.DataProfile(data, FV.WS)
    h = ctx.reals("h", (1, 2, 1), 1, 400)
    ctx.assume(h >= z[0])
    ctx.assume(h <= z[2])
    res = p.calculate({}, h)
    for i in np.ndindex(1, 2, 1):
        x = h[i]
        s = 0 if x <= z[1] else 1
        ctx.eq("interpolation", res[i], v[s] + (v[s + 1] - v[s]) * (x - z[s]) / (z[s + 1] - z[s]))


@case("P15", quick=[dict(cls="ABLLogNeutralWsProfile", stab="neutral"), dict(cls="ABLLogStableWsProfile", stab="stable"), dict(cls="ShearedProfile", stab=None)],
      bounds=B, budget_s=150, branch_ms=500, skip_unknown=True)
def monotone(ctx, cls, stab):
    """wind speed does not decrease with height"""
    shape = (1, 2, 1)
    p = getattr(vp, cls)()
    d = _data(ctx, (1, 1, 1), True, stab, False, sheared=stab is None)
    h = ctx.reals("h", shape, 1, 400)
    ctx.assume(h[0, 0, 0] <= h[0, 1, 0])
    if stab is None:
        d[FV.SHEAR] = ctx.const(ctx.choice("s", [0.0, 0.1, 0.2, 1 / 7, 0.5]))
    else:
        ctx.assume(d[FV.H] >= 1.5)
    res = p.calculate(dict(d), h)
    ctx.le("monotone", res[0, 0, 0], res[0, 1, 0])
