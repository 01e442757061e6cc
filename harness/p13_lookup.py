"""Data lookup of models, slices and means of data"""
import itertools
import numpy as np
import xarray as xr
import foxes
import foxes.variables as FV
import foxes.constants as FC
from foxes.core import Model
from foxes.core.data import MData, FData, TData
from symx.runner import case
from . import lib

S, W, T, P = 2, 3, 2, 2
STU, STA, STP = FC.STATE_TURBINE, FC.STATE_TARGET, FC.STATE_TARGET_TPOINT
DIMS = {STU: (FC.STATE, FC.TURBINE), STA: (FC.STATE, FC.TARGET), STP: (FC.STATE, FC.TARGET, FC.TPOINT)}
SIZE = {FC.STATE: S, FC.TURBINE: W, FC.TARGET: T, FC.TPOINT: P}
LOOKUPS = ["smfp", "smfpt", "fms", "w", "ws", "t", "tfms", "mf", "msf", "sw", "fs"]
B = "2 states, 3 turbines, 2 targets with 2 points each, all values symbolic, every combination of places where the variable is found"


class M(Model):
    """a model with an attribute"""

    def __init__(self, a=None):
        super().__init__()
        self.v = a


class Frame:
    def get_wake_modelling_data(self, algo, variable, downwind_index, fdata, tdata, target, **kw):
        a = algo.wmd[variable][:, downwind_index]
        return a[:, None] if target == STA else a[:, None, None]


def _shape(dims):
    return tuple(SIZE[d] for d in dims)


def _sources(ctx, tg, lookup):
    """data with the variable in symbolically many places; returns model, arguments, and spec functions per source"""
    di = None if tg == STU else ctx.choice("downwind", [None, 1, 2])
    has = {c: ctx.choice(f"in_{c}", [False, True]) for c in lookup if c in "smftw"}
    spec = {}
    m = M()
    if has.get("s"):
        dims = ctx.choice("sdims", [(), (FC.STATE,), DIMS[tg][:2]])
        a = ctx.reals("s", _shape(dims), -10, 10) if dims else ctx.real("s", -10, 10)
        m.v = a
        spec["s"] = lambda i, a=a, n=len(dims): a[i[:n]] if n else a
    md = lib.mdata(S)
    if has.get("m"):
        dims = ctx.choice("mdims", [(FC.STATE,), (FC.STATE, FC.TURBINE), (FC.TURBINE,)])
        a = ctx.reals("m", _shape(dims), -10, 10)
        md = lib.mdata(S, data={"v": a}, dims={"v": dims})
        if dims == (FC.STATE,) or (dims == (FC.STATE, FC.TURBINE) and tg == STU):
            spec["m"] = lambda i, a=a, n=len(dims): a[i[:n]]
        elif dims == (FC.STATE, FC.TURBINE) and di is not None:
            spec["m"] = lambda i, a=a: a[i[0], di]
        elif dims == (FC.TURBINE,) and di is not None:
            spec["m"] = lambda i, a=a: a[di]
    fa = {"x": ctx.reals("x", (S, W), -10, 10)}
    if has.get("f"):
        fa["v"] = ctx.reals("f", (S, W), -10, 10)
        if tg == STU:
            spec["f"] = lambda i: fa["v"][i]
        elif di is not None:
            spec["f"] = lambda i: fa["v"][i[0], di]
    al = lib.StubAlgo(S, W)
    if has.get("w"):
        fa.setdefault("v", ctx.reals("f2", (S, W), -10, 10))
        al.wmd = {"v": ctx.reals("w", (S, W), -10, 10)}
        al.wake_frame = Frame()
        if tg != STU and di is not None:
            spec["w"] = lambda i: al.wmd["v"][i[0], di]
    fd = lib.fdata(fa)
    td = lib.tdata(lib.filled(ctx, (S, T, P, 3), ctx.const(1)))
    if has.get("t"):
        a = ctx.reals("t", (S, T, P), -10, 10)
        td.add("v", a, DIMS[STP])
        if tg == STP:
            spec["t"] = lambda i, a=a: a[i]
    return m, dict(mdata=md, fdata=fd, tdata=td, algo=al, downwind_index=di), spec, has


@case("P13", quick=[dict(tg=t, lookup=k) for t in (STU, STA, STP) for k in LOOKUPS if not (t == STU and set(k) & set("wt"))], bounds=B)
def lookup(ctx, tg, lookup):
    """the first of the listed sources that has the variable decides, with the data of the causing turbine"""
    m, kw, spec, has = _sources(ctx, tg, lookup)
    if has.get("w") and not has.get("f") and "f" in lookup:
        return
    up = ctx.choice("upcast", [False, True])
    r = m.get_data("v", tg, lookup=lookup, accept_none=True, upcast=up, **kw)
    src = [c for c in lookup if c in spec]
    if not src:
        ctx.true("not found", r is None, f"{r}")
        with ctx.raises("error if not found", ValueError):
            m.get_data("v", tg, lookup=lookup, **kw)
        return
    ctx.true("found", r is not None)
    shp = _shape(DIMS[tg])
    ctx.true("shape", r.ndim == len(shp) and (r.shape == shp or not up) and all(a in (1, b) for a, b in zip(r.shape, shp)), f"{r.shape}")
    for i in np.ndindex(*shp):
        ctx.eq("value", r[tuple(j if n > 1 else 0 for j, n in zip(i, r.shape))], spec[src[0]](i))


def _most(ctx, shp):
    """selection of points: one target symbolic"""
    m = np.zeros(shp, dtype=bool)
    m[0, 1, 0] = m[1, 0, :] = True
    m[1, 1] = lib.boolmask(ctx, "sel", (shp[2],))
    m[0, 0] = m[1, 1, ::-1]
    return m


@case("P13", quick=[dict(tg=t, k=k) for t in (STU, STA, STP) for k in ("mask", "mask2", "slices")], bounds=B + "; every selection of targets", budget_s=120)
def selection(ctx, tg, k):
    """a selection picks the same entries as from the full array, whatever the shape of the found data"""
    lk = "sf" if tg == STU else "sw"
    if tg != STU and ctx.choice("t", [False, True]):
        lk = "st"
        if tg == STA:
            return
    m, kw, spec, has = _sources(ctx, tg, lk)
    src = [c for c in lk if c in spec]
    if not src:
        return
    shp = _shape(DIMS[tg])
    up = ctx.choice("upcast", [False, True])
    full = ctx.empty(shp)
    for i in np.ndindex(*shp):
        full[i] = spec[src[0]](i)
    if k == "slices":
        sel = ctx.choice("sel", [(np.s_[0:1], np.s_[1:2]), (np.s_[:], np.s_[0:2]), (np.s_[1:], np.s_[:])])
    elif k == "mask2" and tg == STP:
        sel = _most(ctx, shp)
    else:
        sel = lib.boolmask(ctx, "sel", shp[:2] if k == "mask" else shp[:1])
    r = m.get_data("v", tg, lookup=lk, upcast=up, selection=sel, **kw)
    w = full[sel]
    ctx.true("shape", r.shape[0] == w.shape[0] and all(a in (1, b) for a, b in zip(r.shape, w.shape)) and (not up or r.shape == w.shape), f"{r.shape} {w.shape}")
    ctx.eq_arr("selected", np.broadcast_to(r, w.shape), w)


@case("P13", quick=[dict(tg=t, lk=k, prev=p) for t in (STA, STP) for k in "fw" for p in (True, False)],
      bounds="2 states of a chunk that starts at state 2 of 4, 3 turbines, 2 targets with 2 points, all values symbolic, every index of source states for one target")
def other_states(ctx, tg, lk, prev):
    """data of wakes from other states: same chunk from the current, earlier chunks from the previous iteration"""
    i0, dw = 2, ctx.choice("downwind", [0, 2])
    S4 = 4
    a = ctx.reals("a", (S4, W), -10, 10)   # previous iteration, all states
    c = ctx.reals("c", (S, W), -10, 10)    # this chunk
    al = lib.StubAlgo(S4, W)
    al.farm_results_downwind = xr.Dataset(coords={FC.STATE: np.arange(S4)}, data_vars={"v": (lib.ST, a)}) if prev else None
    md = MData(data={FC.STATE: np.arange(i0, i0 + S)}, dims={FC.STATE: (FC.STATE,)}, loop_dims=[FC.STATE], states_i0=i0)
    fd = FData(data={"v": c, FC.STATE: np.arange(i0, i0 + S)}, dims={"v": lib.ST, FC.STATE: (FC.STATE,)}, loop_dims=[FC.STATE], states_i0=i0)
    td = lib.tdata(lib.filled(ctx, (S, T, P, 3), ctx.const(1)), weights=ctx.arr([0.5, 0.5]))
    ss = np.zeros((S, T, P), dtype=int)
    ss[...] = np.array([[[0, 0], [2, 2]], [[3, 3], [1, 1]]])
    t0 = ctx.choice("t", [0, 1])
    ss[1, t0, 0] = ctx.choice("s1", [0, 1, 2, 3])
    ss[1, t0, 1] = ctx.choice("s2", [0, 1, 2, 3])
    ss[0, t0, :] = ctx.choice("s0", [0, 1, 2])
    td.add(FC.STATES_SEL, ss, DIMS[STP])
    td[FC.STATE_SOURCE_ORDERI] = dw
    r = M().get_data("v", tg, lookup=lk, mdata=md, fdata=fd, tdata=td, algo=al, downwind_index=dw)
    for i in np.ndindex(*_shape(DIMS[tg])):
        s = int(np.floor(ss[i].mean() + 0.5)) if tg == STA else ss[i]
        if s >= i0:
            ctx.eq("this chunk", r[i], c[s - i0, dw])
        elif prev:
            ctx.eq("previous iteration", r[i], a[s, dw])
        else:
            ctx.eq("no previous iteration", r[i], c[i[0], dw])
    ctx.eq_arr("data unchanged", fd["v"], c.copy())
    with ctx.raises("other turbine", ValueError):
        M().get_data("v", tg, lookup=lk, mdata=md, fdata=fd, tdata=td, algo=al, downwind_index=1)


@case("P13", quick=[{}], bounds="3 states, 3 turbines, 2 targets with 3 points each, all slices of length 1-3 of states or of targets")
def slices(ctx):
    """slices of states and targets keep the data, the dimensions and the offset of the states; means use the weights of the points"""
    S = 3
    i0 = ctx.choice("i0", [0, 4])
    a, g = ctx.reals("a", (S, W), -10, 10), ctx.reals("g", (S,), -10, 10)
    v = ctx.reals("v", (S, T, 3), -10, 10)
    u = ctx.reals("u", (S, T, 3, 2), -10, 10)
    w = ctx.reals("w", (3,), 0, 1)
    sts = np.arange(i0, i0 + S)
    fd = FData(data={"a": a, FC.STATE: sts}, dims={"a": lib.ST, FC.STATE: (FC.STATE,)}, loop_dims=[FC.STATE], states_i0=i0)
    md = MData(data={"g": g, FC.STATE: sts}, dims={"g": (FC.STATE,), FC.STATE: (FC.STATE,)}, loop_dims=[FC.STATE], states_i0=i0)
    td = lib.tdata(ctx.reals("p", (S, T, 3, 3), -9, 9), weights=w, tvars={"v": v})
    td.add("u", u, DIMS[STP] + ("uv",))
    ctx.eq_arr("mean", td.tpoint_mean("v"), v[..., 0] * w[0] + v[..., 1] * w[1] + v[..., 2] * w[2])
    ctx.eq_arr("mean of vectors", td.tpoint_mean("u"), u[..., 0, :] * w[0] + u[..., 1, :] * w[1] + u[..., 2, :] * w[2])
    ctx.true("sizes", (td.n_states, td.n_targets, td.n_tpoints, fd.n_turbines, fd.n_states, md.n_states) == (S, T, 3, W, S, S))
    b, n = ctx.choice("b", [0, 1, 2]), ctx.choice("n", [1, 2, 3])
    if b + n <= S:
        q = np.s_[b:b + n]
        f, m, t = fd.get_slice(FC.STATE, q), md.get_slice(FC.STATE, q), td.get_slice(FC.STATE, q)
        ctx.true("types", (type(f), type(m), type(t)) == (FData, MData, TData))
        ctx.eq_arr("farm data", f["a"], a[q])
        ctx.eq_arr("model data", m["g"], g[q])
        ctx.eq_arr("target data", t["v"], v[q])
        ctx.eq_arr("targets", t[FC.TARGETS], td[FC.TARGETS][q])
        ctx.eq_arr("weights", t[FC.TWEIGHTS], w)
        ctx.true("state offset", f.states_i0(counter=True) == m.states_i0(counter=True) == i0 + b and m.states_i0() == i0 + b)
        ctx.true("dims", f.dims["a"] == lib.ST and t.dims["v"] == DIMS[STP] and f.n_states == m.n_states == t.n_states == n)
    if b + n <= T:
        q = np.s_[b:b + n]
        h = ctx.choice("h", [0, 1])
        t = td.get_slice([FC.TARGET, FC.STATE], [q, np.s_[h:h + 2]])
        ctx.eq_arr("targets of states", t["v"], v[h:h + 2, q])
        ctx.true("sizes of both", (t.n_states, t.n_targets, t.n_tpoints) == (2, n, 3))
        m = lib.boolmask(ctx, "m", (T,))
        if np.any(m):
            t = td.get_slice([FC.TARGET], [m])
            ctx.eq_arr("selected targets", t["v"], v[:, m])


@case("P13", quick=[{}], bounds="3 states, 2 turbines, all values symbolic")
def positions(ctx):
    """positions and hub heights share their data with the stack of both, whichever is changed"""
    x, y, h = (ctx.reals(n, (S, W), -10, 10) for n in "xyh")
    fd = lib.fdata({FV.X: x, FV.Y: y, FV.H: h})
    ctx.eq_arr("stack", fd[FV.TXYH], np.stack([x, y, h], axis=-1))
    n = ctx.reals("n", (S, W), -10, 10)
    v, k = ctx.choice("v", [(FV.X, 0), (FV.Y, 1), (FV.H, 2)])
    if ctx.choice("how", [False, True]):
        fd[v][:] = n
    else:
        fd[FV.TXYH][..., k] = n
    ctx.eq_arr("stack after change", fd[FV.TXYH][..., k], n)
    ctx.eq_arr("variable after change", fd[v], n)
    ctx.true("dims", tuple(fd.dims[FV.TXYH]) == lib.ST + (FC.XYH,))


@case("P13", quick=[dict(St=s, Ta=t) for s, t in (((2, 1, 3), (0,)), ((1, 2, 2), (2, 1, 3)), ((3, 1), (1, 2)))], bounds="2-3 chunks of 1-3 states, 1-3 chunks of 1-3 targets, any values, any chunk that asks for the data of any earlier or later one")
def chunk_data(ctx, St, Ta):
    """data that a chunk leaves for other chunks and iterations is found for the right states and targets"""
    al = lib.StubAlgo(sum(St), W)
    al.chunk_store = {}
    al.name = "algo"
    call = lambda f: getattr(foxes.core.Algorithm, f)
    al.find_chunk_in_store = lambda *a, **k: call("find_chunk_in_store")(al, *a, **k)
    ch = {}

    def chunk(i, j):
        i0, t0 = sum(St[:i]), sum(Ta[:j])
        md = MData(data={FC.STATE: np.arange(i0, i0 + St[i])}, dims={FC.STATE: (FC.STATE,)}, loop_dims=[FC.STATE], states_i0=i0)
        if not Ta[j]:
            return md, None
        td = TData(data={FC.TARGETS: lib.filled(ctx, (St[i], Ta[j], 1, 3), ctx.const(1)), FC.TWEIGHTS: ctx.arr([1.0]), FC.TARGET: np.arange(t0, t0 + Ta[j])},
                   dims={FC.TARGETS: (FC.STATE, FC.TARGET, FC.TPOINT, FC.XYH), FC.TWEIGHTS: (FC.TPOINT,), FC.TARGET: (FC.TARGET,)}, loop_dims=[FC.STATE, FC.TARGET], states_i0=i0)
        return md, td

    cp = ctx.choice("copy", [True, False])
    for i in range(len(St)):
        for j in range(len(Ta)):
            a = ctx.reals(f"a{i}{j}", (St[i], 2), -10, 10)
            md, td = chunk(i, j)
            call("add_to_chunk_store")(al, "v", a, md, td, copy=cp)
            ch[i, j] = a.copy()
            if cp:
                a[...] = ctx.const(77)
    i, j = ctx.choice("i", range(len(St))), ctx.choice("j", range(len(Ta)))
    ps, pt = ctx.choice("prev_s", range(len(St) + 1)), ctx.choice("prev_t", range(len(Ta) + 1 if Ta[0] else 1))
    md, td = chunk(i, j)
    if ps > i or pt > j:
        r, inds = call("get_from_chunk_store")(al, "v", md, td, prev_s=ps, prev_t=pt, ret_inds=True, error=False)
        ctx.true("nothing", r is None)
        with ctx.raises("nothing there", KeyError):
            call("get_from_chunk_store")(al, "v", md, td, prev_s=ps, prev_t=pt)
        return
    r, inds = call("get_from_chunk_store")(al, "v", md, td, prev_s=ps, prev_t=pt, ret_inds=True)
    i, j = i - ps, j - pt
    ctx.eq_arr("stored data", r, ch[i, j])
    ctx.true("indices", tuple(int(x) for x in inds) == (sum(St[:i]), St[i], sum(Ta[:j]), Ta[j]), str(inds))
    r = call("get_from_chunk_store")(al, "w", md, td, error=False)
    ctx.true("unknown name", r is None)
