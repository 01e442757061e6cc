"""Builders shared by the harnesses. `np` is the symbolic numpy during symbolic runs."""
import numpy as np
import pandas as pd

import foxes
import foxes.variables as FV
import foxes.constants as FC
from foxes.core.data import MData, FData, TData

ST = (FC.STATE, FC.TURBINE)
STP = (FC.STATE, FC.TARGET, FC.TPOINT)


class StubFrame:
    """wake frame for model-level harnesses: rotor data of the causing turbine"""

    def get_wake_modelling_data(self, algo, variable, downwind_index, fdata, tdata,
                                target, states0=None, upcast=False):
        d = fdata[variable][:, downwind_index]
        return d[:, None] if target == FC.STATE_TARGET else d[:, None, None]


class StubAlgo:
    """what model-level code asks an algorithm for"""

    name = "stub"
    verbosity = 0

    def __init__(self, n_states=1, n_turbines=1, **kw):
        self.n_states = n_states
        self.n_turbines = n_turbines
        self.wake_frame = StubFrame()
        self.__dict__.update(kw)

    def print(self, *a, **k):
        pass

    def get_from_chunk_store(self, name, mdata=None, tdata=None, **kw):
        return self._store[name]

    def add_to_chunk_store(self, name, data, **kw):
        self.__dict__.setdefault("_store", {})[name] = data

    def store_model_data(self, *a, **k):
        pass

    def block_convergence(self, **kw):
        pass


def mdata(n_states=1, data=None, dims=None, **kw):
    d = {FC.STATE: np.arange(n_states)}
    m = {FC.STATE: (FC.STATE,)}
    d.update(data or {})
    m.update(dims or {})
    return MData(data=d, dims=m, loop_dims=[FC.STATE], states_i0=0, **kw)


def fdata(farm_vars, n_states=None, n_turbines=None):
    """farm data from arrays of shape (n_states, n_turbines)"""
    d, m = {}, {}
    for v, a in farm_vars.items():
        d[v] = a
        m[v] = ST if a.ndim == 2 else ST + (FC.XYH,)
    S, T = next(iter(d.values())).shape[:2]
    d[FC.STATE] = np.arange(S)
    m[FC.STATE] = (FC.STATE,)
    return FData(data=d, dims=m, loop_dims=[FC.STATE], states_i0=0)


def tdata(points, weights=None, tvars=None):
    """target data from points (n_states, n_targets, n_tpoints, 3)"""
    if weights is None:
        n = points.shape[2]
        weights = np.zeros(n, dtype=np.float64)
        weights[:] = 1 / n
    t = TData.from_tpoints(points, weights)
    for v, a in (tvars or {}).items():
        t.add(v, a, STP)
    return t


def points(ctx, name, S, T, P=1, lo=-2000.0, hi=2000.0, z=(5.0, 300.0)):
    p = ctx.empty((S, T, P, 3))
    p[..., :2] = ctx.reals(name, (S, T, P, 2), lo, hi)
    p[..., 2] = ctx.reals(name + "_z", (S, T, P), *z)
    return p


def filled(ctx, shape, v):
    a = ctx.empty(shape)
    a[...] = v
    return a


def boolmask(ctx, name, shape):
    m = np.zeros(shape, dtype=bool)
    for i in np.ndindex(*shape):
        m[i] = ctx.bool(name + "".join(f"_{k}" for k in i))
    return m


def turbine_type(ctx, name="T", ct=None, P=None, ws=(2.0, 10.0, 30.0), D=100.0, H=100.0, **kw):
    n = len(ws)
    ct = [ctx.const(0.5)] * n if ct is None else ct
    P = [ctx.const(0.0)] + [ctx.const(2000.0)] * (n - 1) if P is None else P
    df = pd.DataFrame({"ws": list(ws), "P": list(P), "ct": list(ct)})
    kw.setdefault("P_nominal", ctx.const(2000.0))
    t = foxes.models.turbine_types.PCtFile(
        df, D=ctx.const(D) if isinstance(D, (int, float)) else D,
        H=ctx.const(H) if isinstance(H, (int, float)) else H, **kw)
    return t


class engine:
    """a fresh in-process engine for one calculation"""

    def __init__(self, kind="SingleChunkEngine", **kw):
        self.e = getattr(foxes.engines, kind)(verbosity=0, **kw)

    def __enter__(self):
        self.e.initialize()
        return self.e

    def __exit__(self, *a):
        self.e.finalize(*a)
        return False


def farm_of(ctx, xy, models=None, D=None, H=None, names=None):
    f = foxes.WindFarm()
    for i, p in enumerate(xy):
        f.add_turbine(
            foxes.Turbine(
                xy=ctx.arr(list(p)),
                turbine_models=["T"] if models is None else list(models[i]),
                D=None if D is None else D[i], H=None if H is None else H[i],
                name=None if names is None else names[i],
            ),
            verbosity=0,
        )
    return f


class Tokens:
    """numbers in a file that stand for symbolic values: written as ids, replaced after the real parser has read them"""

    BASE = 70001

    def __init__(self, ctx):
        self.ctx = ctx
        self.vals = []

    def ids(self, a):
        a = np.asarray(a)
        out = np.arange(a.size, dtype=float).reshape(a.shape) + self.BASE + len(self.vals)
        self.vals += list(a.reshape(-1))
        return out

    def array(self, x):
        """values for ids, everything else as read"""
        x = np.asarray(x)
        if x.dtype.kind not in "fi":
            return x
        hit = (x >= self.BASE) & (x < self.BASE + len(self.vals))
        if not hit.any():
            return x
        out = self.ctx.empty(x.shape)
        for i in np.ndindex(*x.shape):
            out[i] = self.vals[int(x[i]) - self.BASE] if hit[i] else self.ctx.const(x[i].item())
        return out

    def frame(self, df):
        return pd.DataFrame({c: self.array(df[c].to_numpy()) for c in df.columns}, index=df.index)

    def dataset(self, ds):
        out = ds.load().copy()
        for v in list(out.data_vars):
            out[v] = (out[v].dims, self.array(out[v].to_numpy()))
        return out


class patch_attr:
    """replaces attributes of a module by a proxy with some functions exchanged"""

    class Proxy:
        def __init__(self, base, over):
            self.__dict__.update(_b=base, _o=over)

        def __getattr__(self, k):
            return self._o[k] if k in self._o else getattr(self._b, k)

    def __init__(self, module, name, **over):
        self.m, self.n, self.over = module, name, over

    def __enter__(self):
        self.old = getattr(self.m, self.n)
        setattr(self.m, self.n, self.Proxy(self.old, self.over))

    def __exit__(self, *a):
        setattr(self.m, self.n, self.old)
        return False
