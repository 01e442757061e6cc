"""Wake frames"""
import numpy as np
import foxes
import foxes.variables as FV
import foxes.constants as FC
from foxes.models.wake_frames import RotorWD, FarmOrder, YawedWakes
from symx.runner import case
from . import lib

B = ("{} states, {} turbines with individual symbolic positions in [-2000,2000]^2 x [5,300] m and wind directions in "
     "[0,360) deg, {} target points each")


def _setup(ctx, S, W, T=1, P=1, wd="each", link=False, **fv):
    txyh = ctx.empty((S, W, 3))
    xy = ctx.reals("xy", (W, 2), -2000.0, 2000.0)
    h = ctx.reals("h", (W,), 5.0, 300.0)
    for s in range(S):
        txyh[s, :, :2] = xy
        txyh[s, :, 2] = h
    wds = ctx.empty((S, W))
    for s in range(S):
        if wd == "state":
            wds[s, :] = ctx.angle(f"wd{s}", link=link)
        else:
            for w in range(W):
                wds[s, w] = ctx.angle(f"wd{s}_{w}", link=link)
    fd = lib.fdata(dict({FV.TXYH: txyh, FV.WD: wds}, **fv))
    td = lib.tdata(lib.points(ctx, "p", S, T, P))
    return lib.StubAlgo(S, W, wake_models={}, mbook=foxes.ModelBook()), lib.mdata(S), fd, td


def _axes(wd):
    """downwind and left-hand unit vectors of a meteorological wind direction"""
    a = np.deg2rad(wd)
    return (-np.sin(a), -np.cos(a)), (np.cos(a), -np.sin(a))


def _xyz(fd, s, w, p):
    d = p - fd[FV.TXYH][s, w]
    n, m = _axes(fd[FV.WD][s, w])
    return d[0] * n[0] + d[1] * n[1], d[0] * m[0] + d[1] * m[1], d[2]


def _frame(ctx, kind, al):
    f = RotorWD() if kind == "RotorWD" else FarmOrder()
    f.initialize(al)
    return f


@case("P06", quick=[dict(W=2, wd="state"), dict(W=3, wd="state"), dict(W=2, wd="each"), dict(W=1, wd="each")],
      thorough=[dict(W=3, wd="each"), dict(W=4, wd="state"), dict(W=2, wd="each", S=2)],
      bounds=B.format("1-2", "up to 4", 1))
def order(ctx, W, wd, S=1):
    """the calculation order is a permutation sorted along the mean wind vector, so nothing upstream comes later"""
    al, md, fd, td = _setup(ctx, S, W, wd=wd)
    f = _frame(ctx, "RotorWD", al)
    o = f.calc_order(al, md, fd)
    ctx.true("shape", o.shape == (S, W))
    for s in range(S):
        ctx.true("permutation", sorted(int(i) for i in o[s]) == list(range(W)), str(o))
        n = [sum(_axes(fd[FV.WD][s, w])[0][i] for w in range(W)) for i in range(2)]
        pr = [sum(fd[FV.TXYH][s, w, i] * n[i] for i in range(2)) for w in range(W)]
        for i in range(W - 1):
            ctx.le("downwind order", pr[o[s, i]], pr[o[s, i + 1]])


@case("P06", bounds="2 states, up to 3 turbines")
def farm_order(ctx):
    """the FarmOrder frame keeps the farm order and uses the coordinates of its base frame"""
    al, md, fd, td = _setup(ctx, 2, 3, T=2)
    f = _frame(ctx, "FarmOrder", al)
    b = _frame(ctx, "RotorWD", al)
    o = f.calc_order(al, md, fd)
    ctx.true("farm order", [[int(i) for i in r] for r in o] == [[0, 1, 2]] * 2, str(o))
    for w in range(3):
        ctx.eq_arr("coordinates", f.get_wake_coos(al, md, fd, td, w), b.get_wake_coos(al, md, fd, td, w))
    x = ctx.reals("x", (2, 2), 0.0, 5000.0)
    ctx.eq_arr("centreline", f.get_centreline_points(al, md, fd, 1, x), b.get_centreline_points(al, md, fd, 1, x))


@case("P06", quick=[dict(kind=k) for k in ("RotorWD", "FarmOrder")],
      thorough=[dict(kind=k, S=2, W=3, T=3, P=3) for k in ("RotorWD", "FarmOrder")],
      bounds=B.format("2", "2-3", "2x2 to 3x3"))
def coos(ctx, kind, S=2, W=2, T=2, P=2):
    """wake coordinates are the rotated offset from the hub of the causing turbine"""
    al, md, fd, td = _setup(ctx, S, W, T, P)
    f = _frame(ctx, kind, al)
    pts = td[FC.TARGETS].copy()
    tx = fd[FV.TXYH].copy()
    for w in range(W):
        c = f.get_wake_coos(al, md, fd, td, w)
        ctx.true("shape", c.shape == (S, T, P, 3))
        for s in range(S):
            for t in range(T):
                for p in range(P):
                    x, y, z = _xyz(fd, s, w, pts[s, t, p])
                    ctx.eq("downwind", c[s, t, p, 0], x)
                    ctx.eq("lateral", c[s, t, p, 1], y)
                    ctx.eq("vertical", c[s, t, p, 2], z)
                    d = pts[s, t, p] - tx[s, w]
                    ctx.eq("distance", (c[s, t, p]**2).sum(), (d**2).sum())
    ctx.eq_arr("points unchanged", td[FC.TARGETS], pts)
    ctx.eq_arr("turbines unchanged", fd[FV.TXYH], tx)


@case("P06", bounds=B.format("2", "2", "2x2"))
def rotor_at_origin(ctx):
    """hubs are at the origin of their own frame, and directly downstream means zero lateral coordinates"""
    al, md, fd, td = _setup(ctx, 2, 2, 1, 1)
    f = _frame(ctx, "RotorWD", al)
    pts = fd[FV.TXYH][:, :, None, :].copy()
    x = ctx.reals("x", (2, 1), -5000.0, 5000.0)
    for w in range(2):
        c = f.get_wake_coos(al, md, fd, lib.tdata(pts), w)
        ctx.eq_arr("origin", c[:, w, 0], lib.filled(ctx, (2, 3), ctx.const(0)))
        cl = f.get_centreline_points(al, md, fd, w, x)
        c = f.get_wake_coos(al, md, fd, lib.tdata(cl[:, :, None, :]), w)
        ctx.eq_arr("centreline x", c[:, :, 0, 0], x)
        ctx.eq_arr("centreline yz", c[:, :, 0, 1:], lib.filled(ctx, (2, 1, 2), ctx.const(0)))


@case("P06", quick=[dict(tg=t, sub=s) for t in (FC.STATE_TARGET_TPOINT, FC.STATE_TARGET, FC.STATE_TURBINE) for s in (False, True)],
      bounds="3 states, 3 turbines, with and without a selection of states")
def modelling_data(ctx, tg, sub):
    """wake model data are those of the turbine that causes the wake, in the state of the target"""
    S, W = 3, 3
    al = lib.StubAlgo(S, W)
    f = RotorWD()
    fd = lib.fdata({FV.CT: ctx.reals("ct", (S, W), 0.0, 1.0)})
    td = lib.tdata(lib.filled(ctx, (S, 2, 2, 3), ctx.const(0)))
    s0 = [2, 0, 0] if sub else None
    for w in range(W):
        r = f.get_wake_modelling_data(al, FV.CT, w, fd, td, target=tg, **({"states0": np.array(s0)} if sub else {}))
        ctx.true("dims", r.ndim == (3 if tg == FC.STATE_TARGET_TPOINT else 2))
        for s in range(S):
            ctx.eq("value", r.reshape(S, -1)[s, 0], fd[FV.CT][s0[s] if sub else s, w])
        ctx.true("size", r.size == S)


def _a(ct):
    return 0.246 * ct + 0.0586 * ct**2 + 0.0883 * ct**3


def deflection(fd, s, w, x, gamma, k, alpha=0.58, beta=0.07):
    """wake deflection by yaw misalignment of Bastankhah & Porte-Agel 2016"""
    ct, D, ti = fd[FV.CT][s, w], fd[FV.D][s, w], fd[FV.TI][s, w]
    if not ((x > 1e-8) & (ct > 1e-8)):
        return x * 0
    cg = np.cos(gamma)
    theta = 0.3 * gamma / cg * 2 * _a(ct * cg)
    twoa = 2 * _a(ct)
    x0 = D * cg * (2 - twoa) / (np.sqrt(2) * (4 * alpha * ti + beta * twoa))
    if x < x0:
        return theta * x
    sy = k * (x - x0) + D * cg / np.sqrt(8)
    sz = k * (x - x0) + D / np.sqrt(8)
    sq = np.sqrt(ct)
    q = np.sqrt(8 * sy * sz / (cg * D**2))
    return theta * x0 + D * theta / 14.7 * np.sqrt(cg / (ct * k**2)) * (2.9 + 1.3 * (1 - twoa) - ct) * np.log(
        (1.6 + sq) * (1.6 * q - sq) / ((1.6 - sq) * (1.6 * q + sq)))


def _yawed(ctx, S, W, T, P, yaw, ctmin=0.05, **kw):
    one = lambda v: lib.filled(ctx, (S, W), ctx.const(v))
    g = ctx.empty((S, W))
    if yaw == "sym":
        for i in np.ndindex(S, W):
            g[i] = ctx.angle("gam" + "".join(f"_{k}" for k in i), 0, 45)
    else:
        g[...] = ctx.const(yaw)
    al, md, fd, td = _setup(
        ctx, S, W, T, P, **{
            FV.CT: ctx.reals("ct", (S, W), ctmin, 0.95), FV.D: ctx.reals("D", (S, W), 20.0, 300.0),
            FV.TI: ctx.reals("ti", (S, W), 0.02, 0.4), FV.REWS: one(10), FV.YAWM: g}, **kw)
    f = YawedWakes(base_frame=RotorWD(), k=0.04)
    f.initialize(al)
    b = RotorWD()
    return al, md, fd, td, f, b


@case("P06", quick=[dict(yaw=0, P=1), dict(yaw=20, P=1), dict(yaw="sym", P=1), dict(yaw=-15, P=2), dict(yaw=0, P=3),
                    dict(yaw=0, P=1, ctmin=0.0)],
      thorough=[dict(yaw="sym", P=2), dict(yaw=-30, P=1, T=2), dict(yaw=-15, P=2, S=2)],
      bounds="1-2 states, 2 turbines, 1-2 targets with up to 3 target points, yaw misalignment fixed or in [0,45] deg, ct in [0.05,0.95], D in [20,300] m, TI in [0.02,0.4], k=0.04",
      skip_unknown=True, branch_ms=500)
def yawed(ctx, yaw, P, S=1, T=1, ctmin=0.05):
    """yawed wakes: all points of a rotor are shifted sideways by the documented deflection, x and z are kept"""
    W = 2
    al, md, fd, td, f, b = _yawed(ctx, S, W, T, P, yaw, ctmin=ctmin)
    w = 1
    c0 = b.get_wake_coos(al, md, fd, td, w)
    c = f.get_wake_coos(al, md, fd, td, w)
    ctx.eq_arr("x", c[..., 0], c0[..., 0])
    ctx.eq_arr("z", c[..., 2], c0[..., 2])
    for s in range(S):
        for t in range(T):
            if yaw == 0:
                ctx.eq_arr("no deflection", c[s, t, :, 1], c0[s, t, :, 1])
                continue
            x = sum(c0[s, t, p, 0] * td[FC.TWEIGHTS][p] for p in range(P))
            d = deflection(fd, s, w, x, fd[FV.YAWM][s, w] * np.pi / 180, 0.04)
            for p in range(P):
                ctx.eq("deflection", c[s, t, p, 1], c0[s, t, p, 1] - d)


@case("P06", quick=[dict(yaw=20)], thorough=[dict(yaw=-30, N=3)],
      bounds="1 state, 2 turbines, 2-3 increasing centreline distances in [10,5000] m", skip_unknown=True, branch_ms=500)
def yawed_centreline(ctx, yaw, N=2):
    """centreline points lie at zero lateral wake coordinate"""
    al, md, fd, td, f, b = _yawed(ctx, 1, 2, 1, 1, yaw)
    x = ctx.reals("x", (1, N), 10.0, 5000.0)
    for i in range(N - 1):
        ctx.assume(x[0, i + 1] > x[0, i])
    pts = f.get_centreline_points(al, md, fd, 1, x)
    c = f.get_wake_coos(al, lib.mdata(1), fd, lib.tdata(pts[:, :, None, :]), 1)
    ctx.eq_arr("x", c[:, :, 0, 0], x)
    ctx.eq_arr("yz", c[:, :, 0, 1:], lib.filled(ctx, (1, N, 2), ctx.const(0)))
