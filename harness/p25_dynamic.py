"""wake frames with streamlines and with moving wakes"""
import numpy as np
import pandas as pd
import foxes
import foxes.variables as FV
import foxes.constants as FC
from symx.runner import case
from . import lib

WF = foxes.models.wake_frames
DIR = {270: (1, 0), 90: (-1, 0), 0: (0, -1), 180: (0, 1)}
CT0, CT1 = 0.9, 0.4


class Probe(foxes.core.WakeModel):
    """records the wake coordinates and the thrust of the causing turbine; no wake effects"""

    def __init__(self):
        super().__init__()
        self.log = {}

    def new_wake_deltas(self, algo, mdata, fdata, tdata):
        return {FV.WS: np.zeros_like(tdata[FC.TARGETS][..., 0])}

    def contribute(self, algo, mdata, fdata, tdata, downwind_index, wake_coos, wake_deltas):
        ct = self.get_data(FV.CT, FC.STATE_TARGET, lookup="w", upcast=False, algo=algo, fdata=fdata, tdata=tdata, downwind_index=downwind_index)
        i0 = mdata.states_i0(counter=True)
        n, m = wake_coos.shape[:2]
        for s in range(n):
            s0 = algo.counter if isinstance(algo, foxes.algorithms.Sequential) else i0 + s
            key = int(float(fdata[FV.D][s, downwind_index])) - 100, s0, m
            self.log[key] = wake_coos[s].copy(), np.broadcast_to(ct, (n, m))[s]

    def finalize_wake_deltas(self, algo, mdata, fdata, amb_results, wake_deltas):
        pass


class Gradient(foxes.input.states.StatesTable):
    """wind speed that varies linearly with x or z; wind direction that changes at a line"""
    g, gz, turn = 0, 0, None

    def calculate(self, algo, mdata, fdata, tdata):
        r = super().calculate(algo, mdata, fdata, tdata)
        p = tdata[FC.TARGETS]
        if self.g:
            r[FV.WS] = r[FV.WS] * (1 + self.g * p[..., 0])
        if self.gz:
            r[FV.WS] = r[FV.WS] * (1 + self.gz * (p[..., 2] - 100))
        if self.turn is not None:
            k, x0, wd = self.turn
            r[FV.WD] = np.where(p[..., k] > x0, wd, r[FV.WD])
        return r


def make(ctx, frame, cls, wd, ws, xy, g=0, gz=0, turn=None, H=None, index=None, **kw):
    mb = foxes.ModelBook()
    mb.turbine_types["T"] = lib.turbine_type(ctx, ws=(0.0, 50.0), P=[ctx.const(0.0), ctx.const(5000.0)], ct=[ctx.const(CT0), ctx.const(CT1)])
    mb.wake_models["probe"] = probe = Probe()
    mb.wake_frames["frame"] = frame
    farm = lib.farm_of(ctx, xy, H=H, D=[ctx.const(100.0 + i) for i in range(len(xy))])
    S = len(wd)
    d, w = ctx.empty((S,)), ctx.empty((S,))
    for s in range(S):
        d[s] = ctx.const(float(wd[s]))
        w[s] = ws[s] if not isinstance(ws[s], (int, float)) or hasattr(ws[s], "e") else ctx.const(float(ws[s]))
    df = pd.DataFrame(index=np.arange(S) * 3 + 2 if index is None else index, data={FV.WS: w, FV.WD: d})
    st = Gradient(df, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], fixed_vars={FV.RHO: ctx.const(1.1), FV.TI: ctx.const(0.08)})
    st.g, st.gz, st.turn = g, gz, turn
    if cls != "Downwind":
        kw = {**dict(max_it=6, conv_crit=None, mod_cutin=dict(modify_ct=False)), **kw}
    al = getattr(foxes.algorithms, cls)(farm, st, wake_models=["probe"], wake_frame="frame", partial_wakes="centre", mbook=mb, verbosity=0, **kw)
    return al, probe


ENG = {None: ("SingleChunkEngine", {}), 1: ("NumpyEngine", dict(chunk_size_states=1)), 2: ("NumpyEngine", dict(chunk_size_states=2)), 3: ("NumpyEngine", dict(chunk_size_states=3))}


def run(ctx, frame, cls, wd, ws, xy, pts, chunk=None, **kw):
    """the wake coordinates that the models have seen: causing turbine, state, number of targets"""
    S = len(wd)
    p = ctx.empty((S, len(pts), 3))
    for i, q in enumerate(pts):
        for k in range(3):
            p[:, i, k] = q[k] if not isinstance(q[k], (int, float)) or hasattr(q[k], "e") else ctx.const(float(q[k]))
    e, ekw = ENG[chunk]
    with lib.engine(e, **ekw):
        if cls == "Sequential":
            al, probe = make(ctx, frame, cls, wd, ws, xy, points=p, **kw)
            for _ in al:
                pass
            r = al.farm_results
        else:
            al, probe = make(ctx, frame, cls, wd, ws, xy, **kw)
            r = al.calc_farm()
            flog, probe.log = probe.log, {}
            al.calc_points(r, p)
            probe.log = {**flog, **probe.log}
    return probe.log, r


def vec(wd, ws, dt):
    n = DIR[wd]
    return n[0] * ws * dt, n[1] * ws * dt


class Traces:
    """wake trace points of a turbine at state t: positions and travelled distances by age"""

    def __init__(self, R, wd, ws, dt, t, ages, g=0):
        self.wd, self.ws, self.dt, self.t, self.R, self.ages = wd, ws, dt, t, R, ages
        self.p, self.l = [], []
        for k in range(min(t + 1, ages)):
            x, y, l = R[0], R[1], 0
            for s in range(t - k, t):
                f = ws[s] * (1 + g * x)
                dx, dy = vec(wd[s], f, dt[s])
                x, y, l = x + dx, y + dy, l + f * dt[s]
            self.p.append((x, y))
            self.l.append(l)

    def dist2(self, k, q):
        return (q[0] - self.p[k][0]) ** 2 + (q[1] - self.p[k][1]) ** 2

    def nearest(self, ctx, q):
        d = [self.dist2(k, q) for k in range(len(self.p))]
        j = 0
        for k in range(1, len(d)):
            ctx.assume((d[k] - d[j] > 1e-3) | (d[k] - d[j] < -1e-3))
            if d[k] < d[j]:
                j = k
        return j

    def coos(self, ctx, q, tangent, g=0, j=None):
        """x, y, z or None; the age of the wake"""
        j = self.nearest(ctx, q) if j is None else j
        k = tangent(self, j)
        n = DIR[self.wd[k]]
        d = q[0] - self.p[j][0], q[1] - self.p[j][1]
        pr = d[0] * n[0] + d[1] * n[1]
        L = self.ws[k] * (1 + g * self.p[j if k == self.t else j - 1][0]) * self.dt[k]
        ctx.assume((pr - L > 1e-3) | (pr - L < -1e-3))
        ctx.assume((pr + L > 1e-3) | (pr + L < -1e-3))
        if not (pr < L and pr > -L):
            return None, j
        return (self.l[j] + pr, d[1] * n[0] - d[0] * n[1], q[2] - self.R[2]), j


def _tangent(tr, j):
    """the step of the trace point that is still to come, or the last step of the oldest one"""
    return tr.t if j < tr.ages - 1 else tr.t - 1


TANGENT = dict(Timelines=lambda tr, j: tr.t - j, DynamicWakes=_tangent, SeqDynamicWakes=lambda tr, j: tr.t)
ALGO = dict(Timelines="Iterative", DynamicWakes="Iterative", SeqDynamicWakes="Sequential")


def nowake(x):
    return (isinstance(x, float) and (np.isnan(x))) or x > 1e15


def compare(ctx, log, key, i, exp):
    got = log[key][0][i, 0]
    if exp is None:
        ctx.true("no wake here", nowake(got[0]), f"{got}")
    else:
        for k, v in enumerate("xyz"):
            ctx.eq(v, got[k], exp[k], tol=1e-6)


ENDW = {"T": [270, 270, 180, 270], "S": [270, 270, 270, 270], "U": [180, 180, 90, 90], "E": [90, 180, 90, 90]}
WSP = [9, 11, 7, 10]
BOX = {"a": ((-300, 1700), (-800, 300)), "b": ((-1500, 300), (-100, 1500)), "x": ((-300, 1700), (40, 40)), "m": ((200, 900), (100, 900)), "l": ((-200, 2500), (-30, -30))}
TIMES = {0: (None, [60] * 4), 1: (pd.DatetimeIndex(np.array(["2024-01-01T00:00", "2024-01-01T00:01:30", "2024-01-01T00:02:00", "2024-01-01T00:03:10"], dtype="datetime64[ns]")), [90, 30, 70, 70])}
B = "4 time steps (times: {times}) with winds from {w} and given wind speeds, one {kind} in {box}; 2 turbines, the other one far away"


def _point(ctx, box):
    (a, b), (c, d) = BOX[box]
    x = ctx.real("x", a, b)
    y = ctx.real("y", c, d) if c < d else float(c)
    return x, y, ctx.real("z", 50, 150)


def frame_of(name, times, **kw):
    return getattr(WF, name)(**({} if times else dict(dt_min=1)), **kw)


def check(ctx, frame, fr, wd, ws, q, kind, times, chunk, ages=99, limit=None, g=0, gz=0, H=100.0, H2=None):
    S = len(wd)
    index, dt = TIMES[times]
    R = (0.0, 0.0, H)
    wh = [w * (1 + gz * (H - 100)) for w in ws]
    exp = []
    for t in range(S):
        tr = Traces(R, wd, wh, dt, t, ages, g)
        if limit is not None:
            # wakes beyond the maximal length are not relevant
            ctx.assume(q[0] < limit)
        exp.append(tr.coos(ctx, q, TANGENT[frame], g))
    xy = [(0.0, 0.0), (-20000.0, 20000.0) if kind == "point" else q[:2]]
    pts = [q, (0, 0, 100), (5, 5, 90)] if kind == "point" else [(0, 0, 100), (5, 5, 90)]
    kw = {} if kind == "point" and H2 is None else dict(H=[ctx.const(H), q[2] if kind == "turbine" else ctx.const(H2)])
    log, r = run(ctx, fr, ALGO[frame], wd, ws, xy, pts, chunk=chunk, index=index, g=g, gz=gz, **kw)
    m = 3 if kind == "point" else 1
    for t in range(S):
        e, j = exp[t]
        if frame == "Timelines" and e is None and j > 0:
            # not at the side of the nearest trace point: previous ones may apply
            continue
        compare(ctx, log, (0, t, m), 0, e)
        if e is not None:
            ctx.eq("thrust at the time of the emission", log[0, t, m][1][0], CT0 + (CT1 - CT0) * wh[t - j] / 50, tol=1e-9)


ALL = [(f, c) for f in TANGENT for c in ((None,) if f == "SeqDynamicWakes" else (None, 1, 2, 3))]


@case("P25", quick=[dict(frame=f, w=w, box=b, chunk=c, kind=k, times=i) for f, w, b, c, k, i in (
    ("Timelines", "T", "x", None, "turbine", 1), ("Timelines", "S", "a", 2, "point", 0), ("Timelines", "U", "b", 1, "point", 1),
    ("DynamicWakes", "T", "x", None, "turbine", 1), ("DynamicWakes", "S", "a", 2, "point", 1), ("DynamicWakes", "U", "b", 3, "point", 0), ("DynamicWakes", "T", "m", 1, "turbine", 0),
    ("SeqDynamicWakes", "T", "x", None, "point", 0), ("SeqDynamicWakes", "U", "b", None, "point", 1), ("SeqDynamicWakes", "S", "l", None, "turbine", 1))],
      thorough=[dict(frame=f, w=w, box=b, chunk=c, kind=k, times=i) for f, c in ALL for w in ENDW for b in BOX for k in ("point", "turbine") for i in (0, 1)], bounds=B, budget_s=250)
def moving(ctx, frame, w, box, chunk, kind, times):
    """the wake at a point is the one of the nearest wake trace point; it was emitted that many time steps ago and has travelled the sum of the steps"""
    check(ctx, frame, frame_of(frame, times), ENDW[w], WSP, _point(ctx, box), kind, times, chunk)


@case("P25", quick=[dict(frame=f, i=i, box=b, chunk=c, kind=k) for f, i, b, c, k in (("Timelines", 1, "l", None, "point"), ("DynamicWakes", 0, "l", 1, "point"), ("DynamicWakes", 1, "l", 2, "point"), ("SeqDynamicWakes", 0, "l", None, "point"))],
      thorough=[dict(frame=f, i=i, box="l", chunk=c, kind=k) for f, c in ALL for i in range(4) for k in ("point", "turbine")], bounds="4 time steps with wind from the west, any wind speed in step {i}; one {kind} in {box}", budget_s=250)
def wind_speed(ctx, frame, i, box, chunk, kind):
    """... for any wind speed"""
    ws = list(WSP)
    ws[i] = ctx.real("ws", 4, 12)
    check(ctx, frame, frame_of(frame, 0), ENDW["S"], ws, _point(ctx, box), kind, 0, chunk)


@case("P25", quick=[dict(frame=f, w=w, box=b, chunk=c, kind="point") for f, w, b, c in (("DynamicWakes", "S", "l", None), ("DynamicWakes", "T", "x", 1), ("SeqDynamicWakes", "S", "l", None), ("SeqDynamicWakes", "T", "x", None))],
      thorough=[dict(frame=f, w=w, box=b, chunk=c, kind=k) for f, c in ALL if f != "Timelines" for w in ENDW for b in BOX for k in ("point", "turbine")], bounds="4 time steps, wind speed increasing with x; one {kind} in {box}", budget_s=250)
def inhomogeneous(ctx, frame, w, box, chunk, kind):
    """wakes move with the wind at their current position"""
    check(ctx, frame, frame_of(frame, 0), ENDW[w], WSP, _point(ctx, box), kind, 0, chunk, g=1 / 4096)


@case("P25", quick=[dict(w=w, box=b, chunk=c, kind="point", age=a) for w, b, c, a in (("S", "l", None, 2), ("S", "l", 1, 3), ("T", "x", 2, 3), ("S", "l", 2, 4), ("T", "l", 2, 4), ("S", "x", 2, 4))],
      thorough=[dict(w=w, box=b, chunk=c, kind=k, age=a) for w in ENDW for b in BOX for c in (None, 1, 2, 3) for k in ("point", "turbine") for a in (2, 3)], bounds="4 time steps; wakes of at most {age} states; one {kind} in {box}", budget_s=250)
def max_age(ctx, w, box, chunk, kind, age):
    """a maximal number of steps of each wake"""
    check(ctx, "DynamicWakes", frame_of("DynamicWakes", 0, max_age=age), ENDW[w], WSP, _point(ctx, box), kind, 0, chunk, ages=age)


@case("P25", quick=[dict(w="S", box="l", chunk=c, H=h) for c, h in ((None, 80.0), (2, 120.0))], thorough=[dict(w=w, box=b, chunk=c, H=h) for w in ENDW for b in ("x", "l") for c in (None, 1, 2) for h in (80.0, 120.0)],
      bounds="4 time steps, wind speed increasing with height; turbines of {H} and 100 m height; one point in {box}", budget_s=250)
def heights(ctx, w, box, chunk, H):
    """timelines of the hub height of the causing turbine"""
    check(ctx, "Timelines", frame_of("Timelines", 0), ENDW[w], WSP, _point(ctx, box), "point", 0, chunk, gz=1 / 512, H=H, H2=100.0)


class Line:
    """streamline points and their directions"""

    def __init__(self, R, wd, turn, step, N):
        self.R, self.step = R, step
        self.p, self.n = [], []
        x, y = R[0], R[1]
        for i in range(N):
            d = wd
            if turn is not None and (x, y)[turn[0]] > turn[1]:
                d = turn[2]
            self.p.append((x, y))
            self.n.append(DIR[d])
            x, y = x + step * self.n[-1][0], y + step * self.n[-1][1]

    def coos(self, ctx, q):
        d = [(q[0] - a) ** 2 + (q[1] - b) ** 2 for a, b in self.p]
        j = 0
        for k in range(1, len(d)):
            if self.p[k] != self.p[j]:
                ctx.assume((d[k] - d[j] > 1e-3) | (d[k] - d[j] < -1e-3))
            if d[k] < d[j]:
                j = k
        n = self.n[j]
        dx, dy = q[0] - self.p[j][0], q[1] - self.p[j][1]
        pr = dx * n[0] + dy * n[1]
        for b in (self.step, -self.step):
            ctx.assume((pr - b > 1e-3) | (pr - b < -1e-3))
        if not (pr < self.step and pr > -self.step):
            return None
        return self.step * j + pr, dy * n[0] - dx * n[1], q[2] - self.R[2]

    def side(self, ctx, q):
        """downstream coordinate of a point, or None"""
        c = self.coos(ctx, q)
        return None if c is None else c[0]


SB = "2 states with winds from {wd}, the wind direction changes at a line: {turn}; 3 turbines, streamlines of 4 points with 300 m distance; one {kind} in {box}"
SXY = [(0.0, 0.0), (487.0, 103.0), (-393.0, -161.0)]
SQ = [dict(wd=(270,), turn=None, kind="point", box="x", chunk=None), dict(wd=(270, 90), turn=None, kind="turbine", box="m", chunk=1), dict(wd=(180,), turn=(1, 250.0, 270), kind="point", box="a", chunk=None),
      dict(wd=(270,), turn=(0, 250.0, 180), kind="turbine", box="x", chunk=None), dict(wd=(270, 180), turn=(0, 400.0, 0), kind="point", box="l", chunk=None)]


@case("P25", quick=SQ, thorough=[dict(wd=w, turn=t, kind=k, box=b, chunk=None) for w in ((270,), (90,), (180, 0), (270, 180)) for t in (None, (0, 250.0, 180), (1, 250.0, 270), (0, 400.0, 0)) for k in ("point", "turbine") for b in ("x", "l", "m")], bounds=SB, budget_s=250)
def streamlines(ctx, wd, turn, kind, box, chunk):
    """coordinates along streamlines of the ambient wind, starting at the rotor; turbines are evaluated after those that they are downstream of"""
    q = _point(ctx, box)
    S = len(wd)
    xy = list(SXY[:2]) + [q[:2]] if kind == "turbine" else SXY
    T = len(xy)
    z = [100.0, 100.0, q[2] if kind == "turbine" else 100.0]
    pts = [q, (5, 5, 90), (7, 7, 90), (9, 9, 90)] if kind == "point" else [(5, 5, 90)]
    xyh = [(a, b, c) for (a, b), c in zip(xy, z)]
    exp, side = {}, {}
    for s in range(S):
        L = [Line(p, wd[s], turn, 300, 4) for p in (xyh[:2] if kind == "turbine" else xyh)]
        for i in range(len(L)):
            for j in range(T):
                if j != i:
                    exp[s, i, j] = L[i].coos(ctx, xyh[j])
            if kind == "point":
                exp[s, i, "p"] = L[i].coos(ctx, q)
    log, r = run(ctx, WF.Streamlines2D(step=300, max_length_km=1.2), "Downwind", wd, [9, 8], xy, pts, chunk=chunk, turn=turn, H=None if kind == "point" else [ctx.const(100.0), ctx.const(100.0), q[2]])
    order = r[FV.ORDER].to_numpy()
    for s in range(S):
        o = [int(i) for i in order[s]]
        ctx.true("order is a permutation", sorted(o) == list(range(T)), f"{o}")
        for (s1, i, j), e in exp.items():
            if s1 != s:
                continue
            if j == "p":
                compare(ctx, log, (i, s, 4), 0, e)
            else:
                if e is not None and e[0] > 1e-3:
                    back = exp.get((s, j, i))
                    if not (back is not None and back[0] > 0):
                        ctx.true("order", o.index(i) < o.index(j), f"{i} upstream of {j}: {o}")


@case("P25", quick=[dict(w="S", i0=0, t=3), dict(w="T", i0=0, t=2), dict(w="E", i0=1, t=2)], thorough=[dict(w=w, i0=i, t=t) for w in ENDW for i in (0, 1, 2) for t in range(i, 4)],
      bounds="4 time steps with winds from {w} and given wind speeds; the chunk starts at state {i0}; any distance up to 2000 m at state {t}")
def centreline(ctx, w, i0, t):
    """centreline points of a timeline have the coordinates (x, 0, 0) in it"""
    wd, ws = ENDW[w], WSP
    x = ctx.real("x", 0, 2000)
    al, probe = make(ctx, frame_of("Timelines", 0), "Iterative", wd, ws, XY2)
    with lib.engine("SingleChunkEngine"):
        al.initialize()
        n = 4 - i0
        m = foxes.core.MData({FC.STATE: np.arange(i0, 4)}, {FC.STATE: (FC.STATE,)}, loop_dims=[FC.STATE], states_i0=i0)
        T = ctx.empty((n, 2, 3))
        for i, p in enumerate(XY2):
            for k in range(3):
                T[:, i, k] = ctx.const((*p, 100.0)[k])
        f = foxes.core.FData({FV.TXYH: T, FV.H: T[..., 2], FV.X: T[..., 0]}, {FV.TXYH: (FC.STATE, FC.TURBINE, FC.XYH), FV.H: (FC.STATE, FC.TURBINE), FV.X: (FC.STATE, FC.TURBINE)}, loop_dims=[FC.STATE], states_i0=i0)
        xs = ctx.empty((n, 1))
        xs[:] = ctx.const(10.0)
        xs[t - i0] = x
        p = al.wake_frame.get_centreline_points(al, m, f, 0, xs)
    tr = Traces((0.0, 0.0, 100.0), wd, ws, [60] * 4, t, 99)
    j = 0
    for k in range(1, len(tr.l)):
        mid = (tr.l[k] + tr.l[k - 1]) / 2
        ctx.assume((x - mid > 1e-3) | (x - mid < -1e-3))
        if x > mid:
            j = k
    L = ws[t - j] * 60
    ctx.assume((x - tr.l[j] - 2 * L > 1e-3) | (x - tr.l[j] - 2 * L < -1e-3))
    if x - tr.l[j] < 2 * L:
        n = DIR[wd[t - j]]
        d = x - tr.l[j]
        for k, v in enumerate((tr.p[j][0] + d * n[0], tr.p[j][1] + d * n[1], 100)):
            ctx.eq("xyz"[k], p[t - i0, 0, k], v, tol=1e-6)
    else:
        ctx.true("outside", nowake(p[t - i0, 0, 0]))


XY2 = [(0.0, 0.0), (-20000.0, 20000.0)]


@case("P25", quick=[dict(chunk=None), dict(chunk=1)], bounds="single turbine; 4 time steps, states in chunks of {chunk}; one point")
def single_turbine(ctx, chunk):
    """point results behind a single turbine with moving wakes"""
    q = (ctx.real("x", 300, 1700), -30.0, 90.0)
    exp = []
    for t in range(4):
        tr = Traces((0.0, 0.0, 100.0), ENDW["S"], WSP, [60] * 4, t, 99)
        exp.append(tr.coos(ctx, q, TANGENT["DynamicWakes"])[0])
    log, r = run(ctx, frame_of("DynamicWakes", 0), "Iterative", ENDW["S"], WSP, [(0.0, 0.0)], [q], chunk=chunk)
    for t in range(4):
        compare(ctx, log, (0, t, 1), 0, exp[t])
