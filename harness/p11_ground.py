"""Ground models"""
import numpy as np
import foxes.variables as FV
import foxes.constants as FC
from foxes.core import TData, WakeModel
from foxes.models.ground_models import NoGround, WakeMirror, GroundMirror
from foxes.models.partial_wakes import PartialCentre, RotorPoints
from foxes.models.wake_frames import RotorWD
from symx.runner import case
from . import lib

B = ("1-2 states, 2-3 turbines, 1-2 target points, mirror heights in [-500,1000] m, wind direction in [0,360) deg, "
     "wake field a polynomial in the wake coordinates that tells all coordinates apart")


class Poly(WakeModel):
    def __init__(self, c):
        super().__init__()
        self.c = c
        self.calls = 0

    def f(self, x, y, z):
        return self.c[0] * x + self.c[1] * y + self.c[2] * z**2 + self.c[3] * z

    def contribute(self, algo, mdata, fdata, tdata, downwind_index, wake_coos, wake_deltas):
        self.calls += 1
        wake_deltas[FV.WS] += self.f(*np.moveaxis(wake_coos, -1, 0))


class Half(PartialCentre):
    """a partial wakes model that is recognizable: it counts half of the wake"""

    def contribute(self, algo, mdata, fdata, tdata, downwind_index, wake_deltas, wmodel):
        d = {v: a.copy() for v, a in wake_deltas.items()}
        super().contribute(algo, mdata, fdata, tdata, downwind_index, d, wmodel)
        for v in d:
            wake_deltas[v][:] = wake_deltas[v] + 0.5 * (d[v] - wake_deltas[v])


def _setup(ctx, S, W, P=1):
    tx = ctx.empty((S, W, 3))
    xy = ctx.reals("xy", (W, 2), -2000.0, 2000.0)
    h = ctx.reals("h", (W,), 5.0, 300.0)
    wd = ctx.empty((S, W))
    for s in range(S):
        tx[s, :, :2] = xy
        tx[s, :, 2] = h
        for w in range(W):
            wd[s, w] = ctx.angle(f"wd{s}_{w}", link=False)
    H = ctx.empty((S, W))
    H[...] = h
    fd = lib.fdata({FV.TXYH: tx, FV.H: H, FV.WD: wd})
    md = lib.mdata(S)
    al = lib.StubAlgo(S, W, wake_frame=RotorWD())
    return al, md, fd


def _coos(fd, s, w, p, height=None):
    d = p - fd[FV.TXYH][s, w]
    z = d[2] if height is None else p[2] - (2 * height - fd[FV.TXYH][s, w, 2])
    a = np.deg2rad(fd[FV.WD][s, w])
    n, m = (-np.sin(a), -np.cos(a)), (np.cos(a), -np.sin(a))
    return d[0] * n[0] + d[1] * n[1], d[0] * m[0] + d[1] * m[1], z


def _model(ctx, kind, nh):
    if kind == "none":
        return NoGround(), []
    if kind == "ground":
        return GroundMirror(), [ctx.const(0)]
    hs = [ctx.real(f"mh{i}", -500.0, 1000.0) for i in range(nh)]
    return WakeMirror(heights=list(hs)), hs


SETS = [dict(kind="none"), dict(kind="ground"), dict(kind="mirror", nh=1), dict(kind="mirror", nh=2)]


@case("P11", quick=SETS, thorough=[dict(d, S=2, W=3, P=3) for d in SETS], bounds=B)
def point_wakes(ctx, kind, nh=0, S=1, W=2, P=2):
    """the wake at a point is the sum of the wakes of the turbine and of its mirror images at all mirror heights"""
    al, md, fd = _setup(ctx, S, W)
    g, hs = _model(ctx, kind, nh)
    wm = Poly(ctx.reals("c", (4,), -1.0, 1.0))
    td = lib.tdata(lib.points(ctx, "p", S, P, 1))
    pts, tx = td[FC.TARGETS].copy(), fd[FV.TXYH].copy()
    wd = g.new_point_wake_deltas(al, md, fd, td, wm)
    exp = ctx.empty((S, P, 1))
    exp[...] = ctx.const(0)
    for w in range(W):
        g.contribute_to_point_wakes(al, md, fd, td, w, wd, wm)
        for s in range(S):
            for p in range(P):
                for h in [None] + hs:
                    exp[s, p, 0] = exp[s, p, 0] + wm.f(*_coos(fd, s, w, pts[s, p, 0], h))
    ctx.eq_arr("wakes", wd[FV.WS], exp)
    ctx.eq_arr("points unchanged", td[FC.TARGETS], pts)
    ctx.eq_arr("turbines unchanged", fd[FV.TXYH], tx)


@case("P11", quick=[dict(s, pw=p) for s in SETS for p in ("centre", "half")] + [dict(SETS[1], pw="rotor")],
      thorough=[dict(s, pw=p, S=2, W=4) for s in SETS for p in ("centre", "half", "rotor")], bounds=B)
def farm_wakes(ctx, kind, pw, nh=0, S=1, W=3):
    """the same for turbines: all mirror images contribute through the partial wakes model, nothing else changes"""
    al, md, fd = _setup(ctx, S, W)
    g, hs = _model(ctx, kind, nh)
    wm = Poly(ctx.reals("c", (4,), -1.0, 1.0))
    p = {"centre": PartialCentre, "half": Half, "rotor": RotorPoints}[pw]()
    if pw == "rotor":
        al._store = {FC.ROTOR_POINTS: fd[FV.TXYH][:, :, None, :] + ctx.reals("rel", (S, W, 2, 3), -100.0, 100.0),
                     FC.ROTOR_WEIGHTS: np.ones(2) / 2}
    f = 0.5 if pw == "half" else 1
    tx = fd[FV.TXYH].copy()
    pts, wts = p.get_wake_points(al, md, fd)
    pts0 = pts.copy()
    tdp = TData.from_tpoints(pts, wts)
    wd = g.new_farm_wake_deltas(al, md, fd, tdp, wm, p)
    exp = lib.filled(ctx, wd[FV.WS].shape, ctx.const(0))
    for o in range(W - 1):
        s_ = np.s_[:, o + 1:]
        td = tdp.get_slice([FC.STATE, FC.TARGET], s_)
        part = {v: d[s_] for v, d in wd.items()}
        g.contribute_to_farm_wakes(al, md, fd, td, o, part, wm, p)
        for s in range(S):
            for t in range(o + 1, W):
                for i in range(pts.shape[2]):
                    for h in [None] + hs:
                        exp[s, t, i] = exp[s, t, i] + f * wm.f(*_coos(fd, s, o, pts0[s, t, i], h))
    ctx.eq_arr("wakes", wd[FV.WS], exp)
    ctx.eq_arr("turbines unchanged", fd[FV.TXYH], tx)
    ctx.eq_arr("points unchanged", tdp[FC.TARGETS], pts0)


@case("P11", bounds=B)
def ground_symmetry(ctx, S=1, W=2):
    """with the ground as mirror, the wake field is symmetric about the ground, wherever the hub is"""
    al, md, fd = _setup(ctx, S, W)
    wm = Poly(ctx.reals("c", (4,), -1.0, 1.0))
    g = GroundMirror()
    p = lib.points(ctx, "p", S, 2, 1)
    p[:, 1] = p[:, 0]
    p[:, 1, :, 2] = -p[:, 0, :, 2]

    def even(coos):
        x, y, z = coos
        return wm.c[0] * x + wm.c[1] * y + wm.c[2] * z**2

    wm.f = lambda x, y, z: even((x, y, z))
    td = lib.tdata(p)
    wd = g.new_point_wake_deltas(al, md, fd, td, wm)
    for w in range(W):
        g.contribute_to_point_wakes(al, md, fd, td, w, wd, wm)
    ctx.eq("symmetric", wd[FV.WS][0, 0, 0], wd[FV.WS][0, 1, 0])
