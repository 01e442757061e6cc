"""Chunks and engines"""
import builtins
import numpy as np
import pandas as pd
import xarray as xr
import foxes
import foxes.core.engine as E
import foxes.variables as FV
import foxes.constants as FC
from foxes.core import Engine
from foxes.engines import NumpyEngine, SingleChunkEngine, ThreadsEngine
from foxes.engines.pool import PoolEngine
from symx.runner import case
from symx.sym import Sym
from symx import funcs
from . import lib


class Run:
    """numpy.full(n, c) with a symbolic length, after [-k:] += 1"""

    def __init__(self, n, c, tail=0, sl=None):
        self.n, self.c, self.tail, self.sl = n, c, tail, sl

    def __getitem__(self, s):
        assert isinstance(s, slice) and s.stop is None and s.step is None
        return Run(self.n, self.c, self.tail, s.start)

    def __iadd__(self, k):
        assert k == 1 and self.sl is not None
        return self

    def __setitem__(self, s, v):
        k = 0 - s.start
        self.tail = self.n if k > self.n else k


class NpRun:
    """the part of numpy that calc_chunk_sizes uses, on run lengths"""

    def full(self, n, c, **kw):
        return Run(n, c)

    def sum(self, a):
        return a.n * a.c + a.tail if isinstance(a, Run) else builtins.sum(a)


def _int(x):
    return funcs.floor(x) if isinstance(x, Sym) else builtins.int(x)


class E0(Engine):
    def run_calculation(self, *a, **k):
        raise NotImplementedError


def _sizes(ctx, eng, ns, nt):
    if not ctx.symbolic:
        a, b = eng.calc_chunk_sizes(int(ns), int(nt))
        out = []
        for x in (a, b):
            x = np.asarray(x)
            out.append((len(x), int(np.sum(x)), int(np.min(x)), int(np.max(x))))
        return out
    old = E.np
    E.np, E.int = NpRun(), _int
    try:
        r = eng.calc_chunk_sizes(ns, nt)
    finally:
        E.np = old
        del E.int
    out = []
    for a in r:
        if isinstance(a, Run):
            full = a.tail > 0
            out.append((a.n, a.n * a.c + a.tail, a.c + 1 if bool(a.tail == a.n) else a.c, a.c + 1 if full else a.c))
        else:
            out.append((len(a), builtins.sum(a), a[0], a[0]))
    return out


def _check(ctx, out, ns, nt):
    for k, (n, s, lo, hi), tot in (("states", out[0], ns), ("targets", out[1], nt)):
        ctx.eq(f"{k}: every item in exactly one chunk", s, tot)
        ctx.true(f"{k}: at least one chunk", n >= 1)
        if k == "states" or nt > 0:
            ctx.true(f"{k}: no empty chunk", lo >= 1)
        ctx.true(f"{k}: chunks of similar size", hi <= lo + 1)


@case("P01", quick=[dict(cs=a, cp=b) for a in (False, True) for b in (False, True) if a or b],
      thorough=[dict(cs=a, cp=b, N=100000) for a in (False, True) for b in (False, True) if a or b],
      bounds="numbers of states and targets, chunk sizes and processes are symbolic integers: 1..5000 (thorough 100000), 0..5000, 1..64", budget_s=120)
def sizes(ctx, cs, cp, N=5000):
    """the chunks partition the states and the targets, for every symbolic size"""
    ns = ctx.int("n_states", 1, N)
    nt = ctx.int("n_targets", 0, N)
    npr = ctx.int("n_procs", 1, 64)
    eng = E0(chunk_size_states=ctx.int("chunk_size_states", 1, N) if cs else None,
             chunk_size_points=ctx.int("chunk_size_points", 1, N) if cp else None, n_procs=npr, verbosity=0)
    _check(ctx, _sizes(ctx, eng, ns, nt), ns, nt)


@case("P01", quick=[dict(procs=p) for p in (1, 2, 3, 8)], thorough=[dict(procs=p, NS=120) for p in (1, 2, 3, 5, 8, 16)],
      bounds="default chunk sizes: up to 40 (thorough 120) states and 3000 targets, the given number of processes", budget_s=240)
def sizes_default(ctx, procs, NS=40):
    """default chunking (no sizes given) partitions the states and the targets"""
    ns = ctx.int("n_states", 1, NS)
    nt = ctx.int("n_targets", 0, 3000)
    eng = E0(n_procs=procs, verbosity=0)
    _check(ctx, _sizes(ctx, eng, ns, nt), ns, nt)


# ---------------------------------------------------------------- engines, stub model


class Pool(PoolEngine):
    """pool engine whose jobs run in this process, in a given order"""

    order = None

    def _create_pool(self):
        self.jobs, self.done = [], {}

    def _shutdown_pool(self):
        pass

    def _submit(self, f, *args, **kwargs):
        self.jobs.append((f, args, kwargs))
        return len(self.jobs) - 1

    def _result(self, future):
        if len(self.jobs) and len(self.done) < len(self.jobs):
            for i in self.order(len(self.jobs)):
                f, a, k = self.jobs[i]
                self.done[i] = f(*a, **k)
        return self.done[future]


class Threads(ThreadsEngine):
    """threads engine where one thread is preempted by another one at a chosen point"""

    class P:
        def __init__(self):
            self.jobs = []

        def submit(self, f, *a, **k):
            self.jobs.append([lambda: f(*a, **k), None, False])
            return len(self.jobs) - 1

        def run(self, i):
            j = self.jobs[i]
            if not j[2]:
                j[2] = True
                j[1] = (j[0](),)
            return j[1]

        def shutdown(self):
            pass

    def _create_pool(self):
        self._pool = self.P()

    def _result(self, i):
        return self._pool.run(i)[0]

    def preempt(self):
        for i in range(len(self._pool.jobs)):
            if not self._pool.jobs[i][2]:
                self._pool.run(i)
                return


class Algo(lib.StubAlgo):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.chunk_store = {}

    def reset_chunk_store(self, new=None):
        old = self.chunk_store
        self.chunk_store = {} if new is None else new
        return old

    def __deepcopy__(self, memo):
        a = Algo(self.n_states, self.n_turbines)
        a.chunk_store = dict(self.chunk_store)
        memo[id(self)] = a
        return a


class Model:
    name = "model"
    initialized = True

    def __init__(self, coords, hook=None):
        self.coords = coords
        self.hook = hook

    def output_coords(self):
        return self.coords

    def calculate(self, algo, mdata, fdata, tdata=None, fac=2):
        algo.current = mdata["q"]
        if self.hook is not None:
            self.hook()
        q = algo.current
        key = (int(mdata.states_i0(counter=True)), 0 if tdata is None else int(tdata.targets_i0()))
        algo.chunk_store[key] = {"n": mdata.n_states}
        if tdata is None:
            return {"a": q[:, None] * fdata["b"] + fac, "w": q[:, None]}
        p = tdata[FC.TARGETS]
        return {"a": p[..., 0] * q[:, None, None] + fdata["b"][:, 0, None, None] * p[..., 2] + fac, "w": q[:, None, None]}


def _engine(ctx, kind, cs, cp, perm=4):
    if kind == "single":
        return SingleChunkEngine(verbosity=0)
    kw = dict(chunk_size_states=cs, chunk_size_points=cp, n_procs=2, verbosity=0)
    if kind == "numpy":
        return NumpyEngine(**kw)
    if kind == "pool":
        e = Pool(**kw)
        calls = []

        def order(n):
            calls.append(n)
            return ctx.permutation(f"order{len(calls)}", n) if n <= perm else list(range(n))[::-1]

        e.order = order
        return e
    return Threads(**kw)


def _run(ctx, kind, cs, cp, S, T, P, data, it=False):
    md, fd, pd_ = data
    algo = Algo(S, T)
    e = _engine(ctx, kind, cs, cp)
    model = Model((FC.STATE, FC.TURBINE) if not P else (FC.STATE, FC.TARGET, FC.TPOINT),
                  (lambda: e.preempt()) if kind == "threads" else None)
    e.initialize()
    try:
        r = e.run_calculation(algo, model, md, fd, pd_, out_vars=["a", "w", "b"] if not P else ["a", "w"], fac=3,
                              iterative=it, chunk_store={})
    finally:
        e.finalize()
    return r, algo


SHAPES = [(1, 0), (2, 0), (3, 0), (1, 2), (2, 3), (3, 3)]
BIG = [(4, 0), (5, 0), (6, 0), (1, 4), (4, 1), (2, 5), (3, 4), (5, 2), (6, 6)]


@case("P01", quick=[dict(kind=k, S=s, P=p) for k in ("numpy", "pool", "threads") for s, p in SHAPES] + [dict(kind=k, S=s, P=0, T=1) for k in ("numpy", "pool") for s in (1, 3, 4)] + [dict(kind="pool", S=4, P=2, T=1)],
      thorough=[dict(kind=k, S=s, P=p, T=t) for k in ("numpy", "pool", "threads") for s, p in BIG for t in (1, 2)],
      bounds="1-4 (thorough 6) states, 1-2 turbines, 0-3 (6) points, every chunk size, every execution order of up to 4 chunks, two-thread preemption in every chunk; symbolic data", budget_s=200, max_paths=6000)
def engines(ctx, kind, S, P, T=2):
    """run_calculation of a model with symbolic data gives the one-chunk results, whatever the engine"""
    q, b = ctx.reals("q", S, -10, 10), ctx.reals("b", (S, T), -10, 10)
    md = xr.Dataset(coords={FC.STATE: np.arange(S) + 10}, data_vars={"q": ((FC.STATE,), q)})
    fd = xr.Dataset(coords={FC.STATE: np.arange(S) + 10}, data_vars={"b": ((FC.STATE, FC.TURBINE), b)})
    pd_ = None
    if P:
        pts = ctx.reals("p", (S, P, 1, 3), -10, 10)
        w = ctx.empty((1,))
        w[:] = ctx.const(1)
        pd_ = xr.Dataset(coords={FC.STATE: np.arange(S) + 10}, data_vars={
            FC.TARGETS: ((FC.STATE, FC.TARGET, FC.TPOINT, FC.XYH), pts), FC.TWEIGHTS: ((FC.TPOINT,), w)})
    cs = ctx.choice("cs", [None] + list(range(1, S + 2)))
    cp = ctx.choice("cp", [None] + list(range(1, P + 2))) if P > 1 else None
    it = ctx.choice("iterative", [False, True]) if kind != "threads" else False
    r1, a1 = _run(ctx, "single", None, None, S, T, P, (md, fd, pd_), it=it)
    r2, a2 = _run(ctx, kind, cs, cp, S, T, P, (md, fd, pd_), it=it)
    ctx.true("same variables", set(r1.data_vars) == set(r2.data_vars))
    ctx.true("states", list(r2[FC.STATE].to_numpy()) == [10 + i for i in range(S)])
    if not P:
        ctx.true("dims of turbine results", r2["a"].dims == (FC.STATE, FC.TURBINE), str(r2["a"].dims))
    a = r2["a"].to_numpy()
    for s in range(S):
        if P:
            for p in range(P):
                ctx.eq("points", a[s, p, 0], pts[s, p, 0, 0] * q[s] + b[s, 0] * pts[s, p, 0, 2] + 3)
        else:
            for t in range(T):
                ctx.eq("turbines", a[s, t], q[s] * b[s, t] + 3)
    for v in r1.data_vars:
        x, y = r1[v].to_numpy(), r2[v].to_numpy()
        if x.ndim == y.ndim:
            ctx.true("dims of " + v, r1[v].dims == r2[v].dims)
            ctx.eq_arr("single vs chunks, " + v, y, x)
        else:
            ctx.eq_arr("single vs chunks, " + v, np.broadcast_to(y.T, x.T.shape).T if y.ndim < x.ndim else y[:, 0, 0], x if y.ndim < x.ndim else x.reshape(S))
    if it:
        n = {}
        for (i, j), c in a2.chunk_store.items():
            n.setdefault(j, []).append((i, c["n"]))
        ctx.true("chunk data of all targets", len(n) >= 1)
        for j, l in n.items():
            l = sorted(l)
            ctx.true("store keys", [i for i, _ in l] == [sum(m for _, m in l[:k]) for k in range(len(l))] and sum(m for _, m in l) == S)


# ---------------------------------------------------------------- whole calculation


def _algo(ctx, states, farm, mb, wake, rotor, pw, cls="Downwind", **kw):
    algo = getattr(foxes.algorithms, cls)(
        farm, states, wake_models=wake, rotor_model=rotor, partial_wakes=pw, mbook=mb, verbosity=0, **kw)
    return algo


FULL = [
    (["Jensen_linear_k007"], "centre", "top_hat", True),
    (["Bastankhah2014_quadratic_ka02", "CrespoHernandez_quadratic"], "centre", "centre", False),
    (["Bastankhah2014_linear_ka02"], "g4", "rotor_points", False),
    (["Jensen_linear_ka02", "IECTI2005_quadratic"], "g4", "grid4", False),
]


@case("P01", quick=[dict(kind="numpy", wake=w, S=2, P=2) for w in FULL] + [dict(kind="threads", wake=FULL[0], S=2, P=2), dict(kind="pool", wake=FULL[2], S=2, P=2)],
      thorough=[dict(kind=k, wake=w, S=3, P=3) for k in ("numpy", "threads", "pool") for w in FULL],
      bounds="Downwind farm and points calculation: 2-3 states, 2 turbines in a row, 2-3 points, every chunk size; symbolic wind speed and turbulence intensity per state, symbolic thrust coefficient", budget_s=300)
def downwind(ctx, kind, wake, S, P):
    """farm and point results of a chunked Downwind calculation equal those of a single chunk"""
    *wake, sym = wake
    ct = ctx.real("ct", 0.1, 0.8) if sym else ctx.const(0.7)
    ws = ctx.reals("ws", S, 6.0, 10.0)
    ti = ctx.reals("ti", S, 0.05, 0.2) if sym else ctx.arr([0.06, 0.1, 0.14][:S])
    pts = ctx.empty((P, 3))
    for i in range(P):
        pts[i, 0], pts[i, 1], pts[i, 2] = ctx.const(200.0 + 450 * i), ctx.const(15.0 * (-1) ** i), ctx.const(90.0)
    cs = ctx.choice("cs", list(range(1, S)) + [None])
    cp = ctx.choice("cp", list(range(1, P + 1)))
    res = []
    for k in ("single", kind):
        mb = foxes.ModelBook()
        mb.turbine_types["T"] = lib.turbine_type(ctx, ct=[ct, ct, ct])
        mb.rotor_models["g4"] = foxes.models.rotor_models.GridRotor(n=2, nint=4)
        mb.partial_wakes["grid4"] = foxes.models.partial_wakes.PartialGrid(n=2, nint=4)
        farm = lib.farm_of(ctx, [(0.0, 0.0), (600.0, 20.0)], models=[["T", "kTI_02"]] * 2)
        df = pd.DataFrame(index=np.arange(S), data={FV.WS: ws, FV.TI: ti})
        st = foxes.input.states.StatesTable(df, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO],
                                            fixed_vars={FV.WD: ctx.const(270), FV.RHO: ctx.const(1.225)})
        e = _engine(ctx, k, cs, cp, perm=3)
        e.initialize()
        try:
            algo = _algo(ctx, st, farm, mb, *wake)
            if k == "threads":
                for wn, w in algo.wake_models.items():
                    _hook(w, e)
            fr = algo.calc_farm()
            pr = algo.calc_points(fr, pts)
        finally:
            e.finalize()
        res.append((fr, pr))
    (f1, p1), (f2, p2) = res
    for lab, a, b in (("farm", f1, f2), ("points", p1, p2)):
        ctx.true(lab + " variables", set(a.data_vars) == set(b.data_vars))
        for v in a.data_vars:
            if v in (FC.TNAME, FV.ORDER_SSEL):  # state index within the chunk
                continue
            x, y = a[v].to_numpy(), b[v].to_numpy()
            if v == FV.WEIGHT:
                # one weight per state, kept per chunk if every target has its own chunk
                d = b[v].dims
                x = np.broadcast_to(np.expand_dims(x, tuple(range(x.ndim, y.ndim))), y.shape)
            else:
                d = a[v].dims
            ctx.true(f"{lab} dims of {v}", d == b[v].dims)
            ctx.eq_arr(f"{lab} {v}", y, x)


def _hook(w, e):
    """the other threads run whenever this wake model has computed its wake"""
    cls = type(w)
    if getattr(cls, "_hooked", False):
        return
    base = cls

    class H(base):
        _hooked = True

        def new_wake_deltas(self, algo, *a, **k):
            r = base.new_wake_deltas(self, algo, *a, **k)
            eng = foxes.core.get_engine()
            eng.preempt()
            return r

        def finalize_wake_deltas(self, algo, *a, **k):
            r = base.finalize_wake_deltas(self, algo, *a, **k)
            eng = foxes.core.get_engine()
            eng.preempt()
            return r

    H.__name__ = base.__name__
    w.__class__ = H
