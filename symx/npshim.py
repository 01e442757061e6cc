"""
Replacement of the numpy/scipy/math names that foxes modules see, so that the
unmodified foxes functions run on object arrays holding symbolic reals.
Everything that does not involve symbolic data is passed on to numpy.
"""

import builtins
import math
import operator
import sys
import types

import numpy as np
import scipy.interpolate
import scipy.spatial.distance

from . import funcs
from .sym import Sym, SymBool, Unsupported, explorer, NAN, INF, _isnum


def zero():
    return Sym.const(0)


def has_obj(*xs):
    for x in xs:
        if isinstance(x, (Sym, SymBool)):
            return True
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                return True
        elif isinstance(x, (list, tuple)):
            if has_obj(*x):
                return True
        elif hasattr(x, "dtype") and getattr(x, "dtype", None) == object:
            return True
    return False


def is_float_dtype(dt):
    if dt is None:
        return False
    if dt is symfloat or dt is builtins.float:
        return True
    if dt is symint:
        return False
    try:
        return np.dtype(dt).kind in "fO"
    except TypeError:
        return True


def _shape(s):
    if isinstance(s, (list, tuple, np.ndarray)):
        return tuple(operator.index(i) for i in s)
    return operator.index(s)


def _dt(dt):
    if dt is symint:
        return builtins.int
    return dt


def objarray(x, shape=None):
    a = np.empty(x.shape if shape is None else shape, dtype=object)
    if a.size:
        flat = a.reshape(-1)
        src = np.asarray(x).reshape(-1)
        for i in range(a.size):
            v = src[i]
            flat[i] = v if isinstance(v, (Sym, SymBool)) else num(v)
    return a


def num(v):
    """python/numpy number -> Sym constant, nan/inf stay floats"""
    if isinstance(v, Sym) or v is None or isinstance(v, (str, bytes)):
        return v
    if isinstance(v, (bool, np.bool_)):
        return v
    if isinstance(v, np.ndarray) and v.shape == ():
        v = v.item()
    s = Sym.coerce(v)
    return v if s is None else s


def lift(a):
    """float array -> object array of Sym; others unchanged"""
    if isinstance(a, np.ndarray) and a.dtype.kind in "fiu":
        return objarray(a)
    return a


def elementwise(f, npf, outbool=False):
    def fun(x, *args, **kwargs):
        out = kwargs.pop("out", None)
        where = kwargs.pop("where", None)
        if not has_obj(x, *args):
            if out is not None:
                kwargs["out"] = out
            if where is not None:
                kwargs["where"] = where
            try:
                return npf(x, *args, **kwargs)
            except TypeError:
                raise
        kwargs.pop("dtype", None)
        arrs = [np.asarray(x, dtype=object)] + [np.asarray(a, dtype=object) for a in args]
        b = np.broadcast(*arrs) if len(arrs) > 1 else None
        shp = arrs[0].shape if b is None else b.shape
        if shp == () and out is None:
            r = f(*[num(a[()]) for a in arrs])
            return r
        if b is not None:
            arrs = [np.broadcast_to(a, shp) for a in arrs]
        res = np.empty(shp, dtype=bool if outbool else object)
        if where is None:
            w = None
        else:
            w = np.broadcast_to(np.asarray(where), shp)
            if out is not None:
                res[...] = out
        for i in np.ndindex(*shp):
            if w is None or w[i]:
                res[i] = f(*[num(a[i]) for a in arrs])
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            o[...] = res
            return o
        return res

    fun.__name__ = getattr(npf, "__name__", "fun")
    return fun


def _lt(a, b):
    return bool(a < b)


def smax(a, b):
    if funcs.isnan(a) or funcs.isnan(b):
        return NAN
    return a if a >= b else b


def smin(a, b):
    if funcs.isnan(a) or funcs.isnan(b):
        return NAN
    return a if a <= b else b


def _fmod(a, b):
    r = abs(a) % abs(b)
    return r if a >= 0 else -r


def _reducer(f, npf, skipnan=False):
    def fun(a, axis=None, out=None, keepdims=False, initial=None, where=None, **kw):
        if not has_obj(a):
            kws = {}
            if initial is not None:
                kws["initial"] = initial
            if where is not None:
                kws["where"] = where
            if out is not None:
                kws["out"] = out
            return npf(a, axis=axis, keepdims=keepdims, **kws, **kw)
        a = np.asarray(a, dtype=object)
        if axis is None:
            axes = tuple(range(a.ndim))
        elif isinstance(axis, (tuple, list)):
            axes = tuple(x % a.ndim for x in axis)
        else:
            axes = (axis % a.ndim,)
        rest = [i for i in range(a.ndim) if i not in axes]
        t = np.transpose(a, rest + list(axes))
        shp = tuple(a.shape[i] for i in rest)
        t = t.reshape(shp + (-1,))
        res = np.empty(shp, dtype=object)
        for i in np.ndindex(*shp):
            vals = [num(v) for v in t[i]]
            if skipnan:
                vals = [v for v in vals if not funcs.isnan(v)]
            r = num(initial) if initial is not None else None
            for v in vals:
                r = v if r is None else f(r, v)
            if r is None:
                raise ValueError("zero-size array to reduction operation")
            res[i] = r
        if keepdims:
            res = res.reshape(tuple(1 if i in axes else n for i, n in enumerate(a.shape)))
        if out is not None:
            out[...] = res
            return out
        return res[()] if res.ndim == 0 else res

    return fun


# ------------------------------------------------------------------ interpolation


def interp1(x, xp, fp, left, right):
    """numpy.interp for one (symbolic) value"""
    n = len(xp)
    x = num(x)
    if funcs.isnan(x):
        return NAN
    if x < xp[0]:
        return left
    if x > xp[n - 1]:
        return right
    lo, hi = 0, n - 1
    if n == 1:
        return fp[0]
    # binary search, forks on symbolic comparisons
    while hi - lo > 1:
        m = (lo + hi) // 2
        if x < xp[m]:
            hi = m
        else:
            lo = m
    if x == xp[hi]:
        return fp[hi]
    if x == xp[lo]:
        return fp[lo]
    return fp[lo] + (fp[hi] - fp[lo]) / (xp[hi] - xp[lo]) * (x - xp[lo])


def np_interp(x, xp, fp, left=None, right=None, period=None):
    if not has_obj(x, xp, fp, left, right):
        return np.interp(x, xp, fp, left=left, right=right, period=period)
    if period is not None:
        raise Unsupported("interp with period")
    xp = [num(v) for v in np.asarray(xp, dtype=object)]
    fp = [num(v) for v in np.asarray(fp, dtype=object)]
    left = fp[0] if left is None else num(left)
    right = fp[-1] if right is None else num(right)
    a = np.asarray(x, dtype=object)
    if a.shape == ():
        return interp1(a[()], xp, fp, left, right)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = interp1(a[i], xp, fp, left, right)
    return out


def _locate(x, grid):
    """interval index on ascending grid, linear/extrapolating; forks"""
    lo, hi = 0, len(grid) - 1
    while hi - lo > 1:
        m = (lo + hi) // 2
        if x < grid[m]:
            hi = m
        else:
            lo = m
    return lo


def sym_interpn(points, values, xi, method="linear", bounds_error=True, fill_value=np.nan, **kw):
    if not has_obj(points, values, xi):
        return scipy.interpolate.interpn(
            points, values, xi, method=method, bounds_error=bounds_error,
            fill_value=fill_value, **kw)
    if method not in ("linear", "nearest"):
        raise Unsupported(f"interpn method {method}")
    if kw:
        raise Unsupported(f"interpn arguments {list(kw)}")
    pts = [[num(v) for v in np.asarray(p, dtype=object)] for p in points]
    for p in pts:
        for a, b in zip(p[:-1], p[1:]):
            if not (a < b):
                raise ValueError("The points in dimension must be strictly ascending")
    vals = np.asarray(values, dtype=object)
    nd = len(pts)
    if isinstance(xi, tuple):
        xi = np.stack(np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in xi]), axis=-1)
    xi = np.asarray(xi, dtype=object)
    if xi.shape[-1] != nd:
        raise ValueError(
            "The requested sample points xi have dimension "
            f"{xi.shape[-1]} but this RegularGridInterpolator has dimension {nd}")
    if vals.shape[:nd] != tuple(len(p) for p in pts):
        raise ValueError("There are mismatching point and value dimensions in interpn")
    oshp = xi.shape[:-1]
    tail = vals.shape[nd:]
    out = np.empty(oshp + tail, dtype=object)
    for i in np.ndindex(*oshp):
        q = [num(v) for v in xi[i]]
        oob = False
        isn = any(funcs.isnan(v) for v in q)
        if not isn:
            for d, v in enumerate(q):
                if v < pts[d][0] or v > pts[d][-1]:
                    oob = True
                    if bounds_error:
                        raise ValueError(
                            "One of the requested xi is out of bounds in dimension %d" % d)
        if isn:
            r = np.full(tail, NAN, dtype=object) if tail else NAN
        elif oob and fill_value is not None:
            r = np.empty(tail, dtype=object)
            r[...] = num(fill_value)
            r = r if tail else num(fill_value)
        else:
            acc = vals
            lw = []
            for d, v in enumerate(q):
                g = pts[d]
                if len(g) == 1:
                    lw.append((0, None))
                    continue
                k = _locate(v, g)
                t = (v - g[k]) / (g[k + 1] - g[k])
                if method == "nearest":
                    if t <= Sym.const(1) / 2:
                        lw.append((k, None))
                    else:
                        lw.append((k + 1, None))
                else:
                    lw.append((k, t))
            r = _multilin(acc, lw)
        out[i] = r
    return out


def _multilin(vals, lw):
    if not lw:
        return vals if isinstance(vals, np.ndarray) else num(vals)
    k, t = lw[0]
    a = _multilin(vals[k], lw[1:])
    if t is None:
        return a
    b = _multilin(vals[k + 1], lw[1:])
    return a * (1 - t) + b * t


class SymInterp1d:
    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None,
                 fill_value=np.nan, assume_sorted=False):
        self.x = [num(v) for v in np.asarray(x, dtype=object)]
        y = np.asarray(y, dtype=object)
        self.y = np.moveaxis(y, axis, 0)
        self.axis = axis % y.ndim
        if kind not in ("linear", "nearest"):
            raise Unsupported(f"interp1d kind {kind}")
        self.kind = kind
        self.extra = isinstance(fill_value, str) and fill_value == "extrapolate"
        self.be = (not self.extra and fill_value is np.nan) if bounds_error is None else bounds_error
        self.fv = fill_value
        if not assume_sorted:
            order = sorted(range(len(self.x)), key=_keyfun(self.x))
            self.x = [self.x[i] for i in order]
            self.y = self.y[order]

    def __call__(self, q):
        q = np.asarray(q, dtype=object)
        tail = self.y.shape[1:]
        out = np.empty(q.shape + tail, dtype=object)
        for i in np.ndindex(*q.shape):
            v = num(q[i])
            if funcs.isnan(v):
                out[i] = np.full(tail, NAN, dtype=object) if tail else NAN
                continue
            lo, hi = v < self.x[0], v > self.x[-1]
            if (lo or hi) and not self.extra:
                if self.be:
                    raise ValueError("A value in x_new is out of the interpolation range.")
                fv = self.fv
                if isinstance(fv, tuple):
                    fv = fv[0] if lo else fv[1]
                if not tail:
                    out[i] = num(fv)
                else:
                    out[i][...] = np.broadcast_to(lift(np.asarray(fv)), tail)
                continue
            k = _locate(v, self.x)
            t = (v - self.x[k]) / (self.x[k + 1] - self.x[k])
            if self.kind == "nearest":
                out[i] = self.y[k] if t <= Sym.const(1) / 2 else self.y[k + 1]
            else:
                out[i] = self.y[k] + (self.y[k + 1] - self.y[k]) * t
        # put result axes in place of the interpolation axis
        nq = q.ndim
        r = out
        if self.axis > 0 and tail:
            r = np.moveaxis(r, list(range(nq)), list(range(self.axis, self.axis + nq)))
        return r


def _keyfun(xs):
    import functools

    def cmp(i, j):
        return -1 if xs[i] < xs[j] else (1 if xs[j] < xs[i] else 0)

    return functools.cmp_to_key(cmp)


def sym_interp1d(x, y, *args, **kwargs):
    return SymInterp1d(x, y, *args, **kwargs)


def sym_cdist(a, b, metric="euclidean", **kw):
    if not has_obj(a, b):
        return scipy.spatial.distance.cdist(a, b, metric, **kw)
    if metric != "euclidean":
        raise Unsupported("cdist metric")
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    out = np.empty((len(a), len(b)), dtype=object)
    for i in range(len(a)):
        for j in range(len(b)):
            out[i, j] = funcs.sqrt(np.sum((a[i] - b[j]) ** 2))
    return out


# ------------------------------------------------------------------ numpy proxy


def _np_zeros(shape, dtype=None, *a, **k):
    if dtype is None or is_float_dtype(dtype):
        out = np.empty(_shape(shape), dtype=object)
        out.fill(zero())
        return out
    return np.zeros(_shape(shape), dtype=_dt(dtype), *a, **k)


def _np_ones(shape, dtype=None, *a, **k):
    if dtype is None or is_float_dtype(dtype):
        out = np.empty(_shape(shape), dtype=object)
        out.fill(Sym.const(1))
        return out
    return np.ones(_shape(shape), dtype=_dt(dtype), *a, **k)


def _np_empty(shape, dtype=None, *a, **k):
    if dtype is None or is_float_dtype(dtype):
        out = np.empty(_shape(shape), dtype=object)
        out.fill(NAN)
        return out
    return np.empty(_shape(shape), dtype=_dt(dtype), *a, **k)


def _np_full(shape, fill_value, dtype=None, *a, **k):
    if dtype is None:
        if isinstance(fill_value, (Sym,)) or has_obj(fill_value):
            pass
        elif np.asarray(fill_value).dtype.kind != "f":
            return np.full(_shape(shape), fill_value, *a, **k)
    elif not is_float_dtype(dtype):
        if isinstance(fill_value, Sym):
            out = np.empty(_shape(shape), dtype=object)
            out.fill(fill_value)
            return out
        return np.full(_shape(shape), fill_value, dtype=_dt(dtype), *a, **k)
    out = np.empty(_shape(shape), dtype=object)
    if isinstance(fill_value, np.ndarray) or isinstance(fill_value, (list, tuple)):
        out[...] = lift(np.asarray(fill_value))
    else:
        out.fill(num(fill_value))
    return out


def _likefloat(a, dtype):
    if dtype is not None:
        return is_float_dtype(dtype)
    if isinstance(a, Sym):
        return True
    return np.asarray(a).dtype.kind in "fO"


def _np_zeros_like(a, dtype=None, *x, **k):
    if _likefloat(a, dtype):
        return _np_zeros(np.shape(a))
    return np.zeros_like(a, *x, dtype=_dt(dtype), **k)


def _np_ones_like(a, dtype=None, *x, **k):
    if _likefloat(a, dtype):
        return _np_ones(np.shape(a))
    return np.ones_like(a, *x, dtype=_dt(dtype), **k)


def _np_empty_like(a, dtype=None, *x, **k):
    if _likefloat(a, dtype):
        return _np_empty(np.shape(a))
    return np.empty_like(a, *x, dtype=_dt(dtype), **k)


def _np_full_like(a, fill_value, dtype=None, *x, **k):
    if _likefloat(a, dtype) or isinstance(fill_value, Sym):
        return _np_full(np.shape(a), fill_value, dtype=np.float64)
    return np.full_like(a, fill_value, *x, dtype=_dt(dtype), **k)


def _np_array(x, dtype=None, *a, **k):
    k.pop("copy", None)
    if dtype is not None and not is_float_dtype(dtype):
        dt = np.dtype(_dt(dtype))
        if has_obj(x):
            arr = np.array(x, dtype=object, *a, **k)
            if dt.kind in "iu":
                return elementwise(_toint, np.trunc)(arr)
            return arr.astype(dt)
        return np.array(x, dtype=dt, *a, **k)
    arr = np.array(x, *a, **k) if not has_obj(x) else np.array(x, dtype=object, *a, **k)
    if arr.dtype.kind == "f" or (dtype is not None and arr.dtype.kind in "iubO"):
        return objarray(arr)
    if arr.dtype == object and has_obj(x):
        return objarray(arr)
    return arr


def _np_asarray(x, dtype=None, *a, **k):
    if isinstance(x, np.ndarray):
        if dtype is None or (x.dtype == object and is_float_dtype(dtype)):
            return x
    if isinstance(x, Sym) and dtype is None:
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    return _np_array(x, dtype, *a, **k)


def _toint(x):
    if isinstance(x, float):
        raise ValueError("cannot convert float NaN to integer")
    if not isinstance(x, Sym):
        return int(x)
    r = funcs.trunc(x)
    if isinstance(r, Sym) and r.c is not None:
        return int(r.c)
    return r


def _np_norm(x, ord=None, axis=None, keepdims=False):
    if not has_obj(x):
        return np.linalg.norm(x, ord=ord, axis=axis, keepdims=keepdims)
    if ord not in (None, 2):
        raise Unsupported("norm order")
    x = np.asarray(x, dtype=object)
    s = np.sum(x * x, axis=axis, keepdims=keepdims)
    return elementwise(funcs.sqrt, np.sqrt)(s)


def _np_where(c, *args):
    if not args:
        return np.where(_boolarr(c))
    a, b = args
    if has_obj(c):
        c = _boolarr(c)
    return np.where(c, a, b)


def _boolarr(c):
    c = np.asarray(c)
    if c.dtype == object:
        return np.array([bool(v) for v in c.reshape(-1)], dtype=bool).reshape(c.shape)
    return c


def _np_any(a, *x, **k):
    return np.any(_boolarr(a), *x, **k)


def _np_all(a, *x, **k):
    return np.all(_boolarr(a), *x, **k)


def _np_linspace(start, stop, num_=50, endpoint=True, retstep=False, dtype=None, axis=0, num=None):
    n = operator.index(num_ if num is None else num)
    if not has_obj(start, stop):
        dt = None if dtype is None or is_float_dtype(dtype) else _dt(dtype)
        r = np.linspace(start, stop, n, endpoint=endpoint, retstep=retstep, dtype=dt, axis=axis)
        return r
    start, stop = _n(start), _n(stop)
    div = n - 1 if endpoint else n
    step = (stop - start) / div if div > 0 else NAN
    out = np.empty((n,), dtype=object)
    for i in range(n):
        out[i] = start + i * step if div > 0 else start
    if endpoint and n > 1:
        out[-1] = stop
    return (out, step) if retstep else out


def _n(x):
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise Unsupported("array limits")
        x = x.reshape(-1)[0]
    return num(x)


def _np_arange(*args, dtype=None, **k):
    if not has_obj(*args):
        dt = None if dtype is None or is_float_dtype(dtype) else _dt(dtype)
        return np.arange(*args, dtype=dt, **k)
    if len(args) == 1:
        start, stop, step = Sym.const(0), _n(args[0]), Sym.const(1)
    elif len(args) == 2:
        start, stop, step = _n(args[0]), _n(args[1]), Sym.const(1)
    else:
        start, stop, step = [_n(a) for a in args]
    n = operator.index(_toint(funcs.ceil((stop - start) / step)))
    n = max(n, 0)
    out = np.empty((n,), dtype=object)
    for i in range(n):
        out[i] = start + i * step
    return out


def _np_clip(a, a_min=None, a_max=None, out=None, **k):
    if "min" in k:
        a_min = k["min"]
    if "max" in k:
        a_max = k["max"]
    if not has_obj(a, a_min, a_max):
        return np.clip(a, a_min, a_max, out=out)
    r = a
    if a_min is not None:
        r = elementwise(smax, np.maximum)(r, a_min)
    if a_max is not None:
        r = elementwise(smin, np.minimum)(r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


def _np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if not has_obj(a):
        return np.mean(a, axis=axis, keepdims=keepdims, **k)
    a = np.asarray(a, dtype=object)
    s = np.sum(a, axis=axis, keepdims=keepdims)
    n = a.size // max(1, np.size(s))
    return s / n


def _np_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    if not has_obj(a):
        return np.var(a, axis=axis, ddof=ddof, keepdims=keepdims, **k)
    m = _np_mean(a, axis=axis, keepdims=True)
    d = np.asarray(a, dtype=object) - m
    s = np.sum(d * d, axis=axis, keepdims=keepdims)
    n = a.size // max(1, np.size(s))
    return s / (n - ddof)


def _np_std(a, *x, **k):
    if not has_obj(a):
        return np.std(a, *x, **k)
    return elementwise(funcs.sqrt, np.sqrt)(_np_var(a, *x, **k))


def _np_average(a, axis=None, weights=None, returned=False, **k):
    if not has_obj(a, weights):
        return np.average(a, axis=axis, weights=weights, returned=returned, **k)
    if weights is None:
        return _np_mean(a, axis=axis)
    w = np.asarray(weights, dtype=object)
    a = np.asarray(a, dtype=object)
    if w.ndim == 1 and a.ndim > 1:
        shp = [1] * a.ndim
        shp[axis] = len(w)
        w = w.reshape(shp)
    w = np.broadcast_to(w, a.shape)
    return np.sum(a * w, axis=axis) / np.sum(w, axis=axis)


def _np_sum_nan(a, axis=None, **k):
    if not has_obj(a):
        return np.nansum(a, axis=axis, **k)
    b = np.asarray(a, dtype=object).copy()
    for i in np.ndindex(*b.shape):
        if funcs.isnan(b[i]):
            b[i] = zero()
    return np.sum(b, axis=axis, **k)


def _np_einsum(expr, *ops, **k):
    if not has_obj(*ops):
        return np.einsum(expr, *ops, **k)
    k.pop("optimize", None)
    ops = [lift(np.asarray(o)) if not isinstance(o, Sym) else o for o in ops]
    return sym_einsum(expr, *ops)


def sym_einsum(expr, *ops):
    expr = expr.replace(" ", "")
    ins, _, out = expr.partition("->")
    ins = ins.split(",")
    if "->" not in expr:
        alll = "".join(ins).replace(".", "")
        out = "".join(sorted(c for c in set(alll) if alll.count(c) == 1))
        if "..." in expr:
            out = "..." + out
    ops = [np.asarray(o, dtype=object) for o in ops]
    # expand ellipsis
    pool = [c for c in "ABCDEFGHIJ"]
    nell = 0
    for t, o in zip(ins, ops):
        if "..." in t:
            nell = max(nell, o.ndim - len(t.replace("...", "")))
    ell = "".join(pool[:nell])
    ins2 = []
    for t, o in zip(ins, ops):
        if "..." in t:
            m = o.ndim - len(t.replace("...", ""))
            t = t.replace("...", ell[nell - m:])
        if len(t) != o.ndim:
            raise ValueError("einstein sum subscripts string contains wrong number of subscripts")
        ins2.append(t)
    out = out.replace("...", ell)
    sizes = {}
    for t, o in zip(ins2, ops):
        for c, n in zip(t, o.shape):
            if c in sizes and sizes[c] != n and 1 not in (sizes[c], n):
                raise ValueError(
                    f"operands could not be broadcast together in einsum {expr}: "
                    f"{[x.shape for x in ops]}")
            sizes[c] = max(sizes.get(c, 1), n) if sizes.get(c, 1) != 0 and n != 0 else 0
    for c in out:
        if c not in sizes:
            raise ValueError("einstein sum: output subscript not in inputs")
    summed = [c for c in sizes if c not in out]
    res = np.empty(tuple(sizes[c] for c in out), dtype=object)
    for oi in np.ndindex(*res.shape):
        env = dict(zip(out, oi))
        acc = zero()
        for si in np.ndindex(*[sizes[c] for c in summed]):
            env.update(zip(summed, si))
            p = None
            for t, o in zip(ins2, ops):
                v = num(o[tuple(env[c] if n > 1 else 0 for c, n in zip(t, o.shape))])
                p = v if p is None else p * v
            acc = acc + p
        res[oi] = acc
    return res[()] if res.ndim == 0 else res


def _np_argsort(a, axis=-1, kind=None, **k):
    if not has_obj(a):
        return np.argsort(a, axis=axis, kind=kind, **k)
    a = np.asarray(a, dtype=object)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape, dtype=int)
    for i in np.ndindex(*m.shape[:-1]):
        row = [num(v) for v in m[i]]
        out[i] = _isort(row)
    return np.moveaxis(out, -1, axis)


def _isort(row):
    """stable insertion sort of symbolic values (forks on comparisons)"""
    idx = []
    for j, v in enumerate(row):
        p = len(idx)
        while p > 0 and _lt_nanlast(v, row[idx[p - 1]]):
            p -= 1
        idx.insert(p, j)
    return idx


def _lt_nanlast(a, b):
    if funcs.isnan(a):
        return False
    if funcs.isnan(b):
        return True
    return bool(a < b)


def _np_sort(a, axis=-1, **k):
    if not has_obj(a):
        return np.sort(a, axis=axis, **k)
    a = np.asarray(a, dtype=object)
    return np.take_along_axis(a, _np_argsort(a, axis=axis), axis=axis)


def _np_lexsort(keys, axis=-1):
    if not has_obj(keys):
        return np.lexsort(keys, axis=axis)
    raise Unsupported("lexsort")


def _np_argbest(better):
    def fun(a, axis=None, **k):
        if not has_obj(a):
            return (np.argmax if better == "max" else np.argmin)(a, axis=axis, **k)
        a = np.asarray(a, dtype=object)
        if axis is None:
            m = a.reshape(-1)
        else:
            m = np.moveaxis(a, axis, -1)
        out = np.empty(m.shape[:-1], dtype=int)
        for i in np.ndindex(*m.shape[:-1]):
            row = [num(v) for v in m[i]]
            b = 0
            for j in range(1, len(row)):
                if (row[j] > row[b]) if better == "max" else (row[j] < row[b]):
                    b = j
            out[i] = b
        return out[()] if out.ndim == 0 else out

    return fun


def _np_unique(a, **k):
    if not has_obj(a):
        return np.unique(a, **k)
    if any(k.get(n) for n in ("return_index", "return_inverse", "return_counts")) or k.get("axis") is not None:
        raise Unsupported("unique with extra outputs")
    row = [num(v) for v in np.asarray(a, dtype=object).reshape(-1)]
    o = _isort(row)
    out = []
    for i in o:
        if not out or not bool(out[-1] == row[i]):
            out.append(row[i])
    return np.array(out, dtype=object)


def _np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not has_obj(a, b):
        return np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    f = lambda x, y: bool(abs(x - y) <= atol + rtol * abs(y))
    return elementwise(f, None, outbool=True)(a, b)


def _np_allclose(*a, **k):
    return bool(np.all(_np_isclose(*a, **k)))


def _np_nan_to_num(x, copy=True, nan=0.0, **k):
    if not has_obj(x):
        return np.nan_to_num(x, copy=copy, nan=nan, **k)
    return elementwise(lambda v: num(nan) if funcs.isnan(v) else v, np.nan_to_num)(x)


def _np_searchsorted(a, v, side="left", sorter=None):
    if not has_obj(a, v):
        return np.searchsorted(a, v, side=side, sorter=sorter)
    row = [num(x) for x in np.asarray(a, dtype=object)]

    def one(x):
        lo, hi = 0, len(row)
        while lo < hi:
            m = (lo + hi) // 2
            if (row[m] < x) if side == "left" else (row[m] <= x):
                lo = m + 1
            else:
                hi = m
        return lo

    q = np.asarray(v, dtype=object)
    if q.shape == ():
        return one(num(q[()]))
    out = np.empty(q.shape, dtype=int)
    for i in np.ndindex(*q.shape):
        out[i] = one(num(q[i]))
    return out


def _np_digitize(x, bins, right=False):
    if not has_obj(x, bins):
        return np.digitize(x, bins, right)
    return _np_searchsorted(bins, x, side="left" if right else "right")


def _np_histogram2d(x, y, bins=10, range=None, density=None, weights=None):
    if not has_obj(x, y, weights) and not has_obj(bins):
        return np.histogram2d(x, y, bins, range, density, weights)
    bx, by = [[num(v) for v in np.asarray(b, dtype=object)] for b in bins]
    H = _np_zeros((len(bx) - 1, len(by) - 1))

    def find(v, b):
        # numpy: half-open bins, the last one closed
        n = len(b)
        if v < b[0] or v > b[n - 1]:
            return None
        if v == b[n - 1]:
            return n - 2
        lo, hi = 0, n - 1
        while hi - lo > 1:
            m = (lo + hi) // 2
            if v < b[m]:
                hi = m
            else:
                lo = m
        return lo

    for i, (a, b) in enumerate(zip(x, y)):
        p = find(num(a), bx)
        if p is None:
            continue
        q = find(num(b), by)
        if q is None:
            continue
        w = Sym.const(1) if weights is None else num(weights[i])
        H[p, q] = H[p, q] + w
    return H, np.asarray(bins[0]), np.asarray(bins[1])


def _np_histogram(a, bins=10, range=None, density=None, weights=None):
    if not has_obj(a, weights) and not has_obj(bins):
        return np.histogram(a, bins, range, density, weights)
    raise Unsupported("histogram")


def _np_concat(arrs, axis=0, **k):
    return np.concatenate(list(arrs), axis=axis, **k)


def _np_meth(npf):
    def fun(*a, **k):
        k.pop("dtype", None)
        return npf(*a, **k)

    return fun


def _np_squarelike(x):
    return x * x


def _np_prod(a, axis=None, **k):
    k.pop("dtype", None)
    return np.prod(a, axis=axis, **k)


def _np_cumsum(a, axis=None, **k):
    k.pop("dtype", None)
    return np.cumsum(a, axis=axis, **k)


def _np_sum(a, axis=None, **k):
    k.pop("dtype", None)
    if not has_obj(a):
        return np.sum(a, axis=axis, **k)
    a = np.asarray(a, dtype=object)
    r = np.sum(a, axis=axis, **k)
    if a.size == 0 and not isinstance(r, np.ndarray):
        return zero()
    return r


def _np_matmul(a, b):
    if not has_obj(a, b):
        return np.matmul(a, b)
    return np.matmul(lift(np.asarray(a)), lift(np.asarray(b)))


def _np_float(x=0.0):
    return symfloat(x)


def _np_round(a, decimals=0, out=None):
    if not has_obj(a):
        return np.round(a, decimals, out=out)
    r = elementwise(lambda v: funcs.round_(v, decimals), None)(a)
    return r


def _np_trapz(y, x=None, dx=1.0, axis=-1):
    raise Unsupported("trapz")


def _np_diff(a, n=1, axis=-1, **k):
    return np.diff(a, n=n, axis=axis, **k)


def _np_isfinite(x):
    return not (funcs.isnan(x) or funcs.isinf(x))


def _np_logical(f):
    def fun(*a):
        return f(*[_boolarr(x) for x in a])

    return fun


class _LinalgProxy:
    norm = staticmethod(_np_norm)

    def __getattr__(self, n):
        return getattr(np.linalg, n)


_E = elementwise


class NPProxy(types.ModuleType):
    """The `np` that foxes modules see during symbolic execution"""

    linalg = _LinalgProxy()

    def __init__(self):
        super().__init__("numpy_symbolic")

    def __getattr__(self, n):
        return getattr(np, n)


NP_OVERRIDES = dict(
    zeros=_np_zeros, ones=_np_ones, empty=_np_empty, full=_np_full,
    zeros_like=_np_zeros_like, ones_like=_np_ones_like, empty_like=_np_empty_like,
    full_like=_np_full_like, array=_np_array, asarray=_np_asarray,
    asanyarray=_np_asarray, ascontiguousarray=_np_asarray,
    sqrt=_E(funcs.sqrt, np.sqrt), exp=_E(funcs.exp, np.exp), log=_E(funcs.log, np.log),
    cbrt=_E(funcs.cbrt, np.cbrt),
    log10=_E(lambda v: funcs.log(v) / Sym.const(math.log(10)), np.log10),
    log1p=_E(lambda v: funcs.log(1 + v), np.log1p),
    log2=_E(lambda v: funcs.log(v) / Sym.const(math.log(2)), np.log2),
    expm1=_E(lambda v: funcs.exp(v) - 1, np.expm1),
    sin=_E(funcs.sin, np.sin), cos=_E(funcs.cos, np.cos), tan=_E(funcs.tan, np.tan),
    arcsin=_E(funcs.arcsin, np.arcsin), arccos=_E(funcs.arccos, np.arccos),
    arctan=_E(funcs.arctan, np.arctan), arctan2=_E(funcs.arctan2, np.arctan2),
    tanh=_E(funcs.tanh, np.tanh), cosh=_E(funcs.cosh, np.cosh), sinh=_E(funcs.sinh, np.sinh),
    hypot=_E(lambda a, b: funcs.sqrt(a * a + b * b), np.hypot),
    power=_E(funcs.power, np.power), pow=_E(funcs.power, np.power),
    float_power=_E(funcs.power, np.float_power),
    square=_E(_np_squarelike, np.square),
    reciprocal=_E(lambda v: Sym.const(1) / v, np.reciprocal),
    deg2rad=_E(lambda v: v * Sym.const(math.pi / 180), np.deg2rad),
    radians=_E(lambda v: v * Sym.const(math.pi / 180), np.radians),
    rad2deg=_E(lambda v: v * Sym.const(180 / math.pi), np.rad2deg),
    degrees=_E(lambda v: v * Sym.const(180 / math.pi), np.degrees),
    mod=_E(lambda a, b: a % b, np.mod), remainder=_E(lambda a, b: a % b, np.remainder),
    fmod=_E(_fmod, np.fmod), floor_divide=_E(lambda a, b: a // b, np.floor_divide),
    divide=_E(lambda a, b: a / b, np.divide), true_divide=_E(lambda a, b: a / b, np.divide),
    multiply=_E(lambda a, b: a * b, np.multiply), add=_E(lambda a, b: a + b, np.add),
    subtract=_E(lambda a, b: a - b, np.subtract), negative=_E(lambda a: -a, np.negative),
    maximum=_E(smax, np.maximum), minimum=_E(smin, np.minimum),
    fmax=_E(lambda a, b: b if funcs.isnan(a) else a if funcs.isnan(b) else smax(a, b), np.fmax),
    fmin=_E(lambda a, b: b if funcs.isnan(a) else a if funcs.isnan(b) else smin(a, b), np.fmin),
    abs=_E(abs, np.abs), absolute=_E(abs, np.abs), fabs=_E(abs, np.fabs),
    sign=_E(funcs.sign, np.sign), floor=_E(funcs.floor, np.floor), ceil=_E(funcs.ceil, np.ceil),
    trunc=_E(funcs.trunc, np.trunc), rint=_E(lambda v: funcs.round_(v, 0), np.rint),
    round=_np_round, around=_np_round,
    isnan=_E(funcs.isnan, np.isnan, outbool=True), isinf=_E(funcs.isinf, np.isinf, outbool=True),
    isfinite=_E(_np_isfinite, np.isfinite, outbool=True),
    less=_E(lambda a, b: bool(a < b), np.less, outbool=True),
    less_equal=_E(lambda a, b: bool(a <= b), np.less_equal, outbool=True),
    greater=_E(lambda a, b: bool(a > b), np.greater, outbool=True),
    greater_equal=_E(lambda a, b: bool(a >= b), np.greater_equal, outbool=True),
    equal=_E(lambda a, b: bool(a == b), np.equal, outbool=True),
    not_equal=_E(lambda a, b: bool(a != b), np.not_equal, outbool=True),
    logical_and=_np_logical(np.logical_and), logical_or=_np_logical(np.logical_or),
    logical_not=_np_logical(np.logical_not), logical_xor=_np_logical(np.logical_xor),
    max=_reducer(smax, np.max), amax=_reducer(smax, np.max),
    min=_reducer(smin, np.min), amin=_reducer(smin, np.min),
    nanmax=_reducer(smax, np.nanmax, True), nanmin=_reducer(smin, np.nanmin, True),
    nansum=_np_sum_nan, mean=_np_mean, var=_np_var, std=_np_std, average=_np_average,
    sum=_np_sum, prod=_np_prod, cumsum=_np_cumsum, clip=_np_clip,
    where=_np_where, any=_np_any, all=_np_all, linspace=_np_linspace, arange=_np_arange,
    einsum=_np_einsum, argsort=_np_argsort, sort=_np_sort, lexsort=_np_lexsort,
    argmin=_np_argbest("min"), argmax=_np_argbest("max"), unique=_np_unique,
    isclose=_np_isclose, allclose=_np_allclose, nan_to_num=_np_nan_to_num,
    searchsorted=_np_searchsorted, digitize=_np_digitize, histogram2d=_np_histogram2d,
    histogram=_np_histogram, interp=np_interp, matmul=_np_matmul, trapz=_np_trapz,
)

NPP = NPProxy()
for _k, _v in NP_OVERRIDES.items():
    NPP.__dict__[_k] = _v


class MathProxy(types.ModuleType):
    def __getattr__(self, n):
        return getattr(math, n)


MATHP = MathProxy("math_symbolic")
for _k in ("sqrt", "exp", "log", "sin", "cos", "tan", "floor", "ceil", "tanh", "cosh", "sinh", "erf"):
    def _mk(k):
        f, o = getattr(funcs, k), getattr(math, k)
        return lambda x, *a: f(x) if isinstance(x, Sym) else o(x, *a)
    MATHP.__dict__[_k] = _mk(_k)
for _k, _f in (("acos", "arccos"), ("asin", "arcsin"), ("atan", "arctan")):
    def _mk2(k, f):
        g, o = getattr(funcs, f), getattr(math, k)
        return lambda x: g(x) if isinstance(x, Sym) else o(x)
    MATHP.__dict__[_k] = _mk2(_k, _f)
MATHP.__dict__["atan2"] = lambda y, x: funcs.arctan2(y, x) if has_obj(y, x) else math.atan2(y, x)
MATHP.__dict__["isnan"] = lambda x: funcs.isnan(x)
MATHP.__dict__["radians"] = lambda x: x * Sym.const(math.pi / 180) if isinstance(x, Sym) else math.radians(x)
MATHP.__dict__["degrees"] = lambda x: x * Sym.const(180 / math.pi) if isinstance(x, Sym) else math.degrees(x)
MATHP.__dict__["pow"] = lambda x, y: funcs.power(x, y) if has_obj(x, y) else math.pow(x, y)
MATHP.__dict__["hypot"] = lambda x, y: funcs.sqrt(x * x + y * y) if has_obj(x, y) else math.hypot(x, y)


# ------------------------------------------------------------------ int/float


class _MF(type):
    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            v = x.reshape(-1)[0]
            if isinstance(v, Sym):
                return v
        return builtins.float(x)

    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float) or c is symfloat


class symfloat(metaclass=_MF):
    pass


class _MI(type):
    def __call__(cls, x=0, *a):
        if isinstance(x, Sym):
            r = funcs.trunc(x)
            if r.c is not None:
                return builtins.int(r.c)
            return r
        return builtins.int(x, *a)

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, Sym) and x.is_integer())

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int) or c is symint


class symint(metaclass=_MI):
    pass


def symmax(*a, **k):
    return builtins.max(*a, **k)


# ------------------------------------------------------------------ patching

_FUNMAP = {
    id(scipy.interpolate.interpn): sym_interpn,
    id(scipy.interpolate.interp1d): sym_interp1d,
    id(scipy.spatial.distance.cdist): sym_cdist,
}
for _k, _v in NP_OVERRIDES.items():
    _o = getattr(np, _k, None)
    if _o is not None:
        _FUNMAP[id(_o)] = _v
for _k in ("sqrt", "exp", "log", "sin", "cos", "tan", "acos", "asin", "atan", "atan2", "floor", "ceil"):
    _FUNMAP[id(getattr(math, _k))] = MATHP.__dict__[_k]


class _SciProxy(types.ModuleType):
    def __init__(self, mod, **over):
        super().__init__(mod.__name__)
        self.__dict__["_mod"] = mod
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__["_mod"], n)


_MODMAP = {
    id(np): NPP,
    id(math): MATHP,
    id(np.linalg): NPProxy.linalg,
    id(scipy.interpolate): _SciProxy(scipy.interpolate, interpn=sym_interpn, interp1d=sym_interp1d),
    id(scipy.spatial.distance): _SciProxy(scipy.spatial.distance, cdist=sym_cdist),
}


class patched:
    """Context: foxes modules (and the given extra modules) see symbolic numpy"""

    def __init__(self, prefixes=("foxes",), exclude=(), ints=True):
        self.prefixes = prefixes
        self.exclude = exclude
        self.ints = ints

    def __enter__(self):
        self.undo = []
        for name, mod in list(sys.modules.items()):
            if mod is None or not any(name == p or name.startswith(p + ".") for p in self.prefixes):
                continue
            if any(name.startswith(x) for x in self.exclude):
                continue
            d = getattr(mod, "__dict__", None)
            if d is None:
                continue
            for k, v in list(d.items()):
                if k.startswith("__"):
                    continue
                r = _MODMAP.get(id(v)) or _FUNMAP.get(id(v))
                if r is not None:
                    self.undo.append((d, k, v, True))
                    d[k] = r
            if self.ints:
                for k, v in (("int", symint), ("float", symfloat)):
                    if k not in d:
                        self.undo.append((d, k, None, False))
                        d[k] = v
        return self

    def __exit__(self, *a):
        for d, k, v, had in reversed(self.undo):
            if had:
                d[k] = v
            else:
                d.pop(k, None)
        return False
