"""
Harness contexts. A harness is a function of a context `ctx`; with a `SymCtx` it
is executed symbolically (over all paths), with a `ConcCtx` it runs on ordinary
floats on the unpatched foxes code (counterexample replay, path validation).
"""

import math
import operator
import sys
import traceback
from fractions import Fraction

import numpy as np

from . import z3
from . import funcs, npshim
from .sym import (
    Sym, SymBool, Unsupported, PathAbort, BudgetExceeded, Inconclusive, Explorer,
    set_explorer, to_frac, QQ, NAN, rv,
)


class AssumeFailed(Exception):
    """Concrete values violate an assumption of the harness"""


class CheckFailed(Exception):
    """Concrete run: the property does not hold"""

    def __init__(self, label, msg):
        super().__init__(f"{label}: {msg}")
        self.label = label


class _EngineScope:
    """a run that sees no global foxes engine, and leaves the outer one in place"""

    def __enter__(self):
        import foxes.core.engine as m

        self.g = m.__dict__.get("__global_engine_data__")
        self.old = dict(self.g) if self.g is not None else None
        if self.g is not None:
            self.g["engine"] = None

    def __exit__(self, *a):
        if self.g is not None:
            self.g.update(self.old)
        return False


class Found(BaseException):
    """A confirmed violation, ends the exploration of a case"""

    def __init__(self, label, msg, values):
        super().__init__(msg)
        self.label = label
        self.msg = msg
        self.values = values


class _Raises:
    def __init__(self, ctx, label, types):
        self.ctx, self.label, self.types = ctx, label, types

    def __enter__(self):
        return self

    def __exit__(self, typ, val, tb):
        if typ is None:
            self.ctx.true(self.label, False, "no error")
        return typ is not None and issubclass(typ, self.types)


def _isnan(x):
    if isinstance(x, (Sym, SymBool)):
        return False
    try:
        return bool(np.isnan(x))
    except TypeError:
        return False


class Ctx:
    tol = 1e-7

    def reals(self, name, shape, lo=None, hi=None, **kw):
        if isinstance(shape, int):
            shape = (shape,)
        out = self.empty(shape)
        for i in np.ndindex(*shape):
            out[i] = self.real(name + "".join(f"_{k}" for k in i), lo, hi, **kw)
        return out

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[operator.index(self.int(name, 0, len(options) - 1))]

    def raises(self, label, *types):
        """context in which one of the given errors is expected"""
        return _Raises(self, label, types)

    def permutation(self, name, n):
        """all permutations of range(n)"""
        rest = list(range(n))
        out = []
        for i in range(n - 1):
            out.append(rest.pop(operator.index(self.int(f"{name}_{i}", 0, len(rest) - 1))))
        return out + rest

    def eq_arr(self, label, a, b, tol=None):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            self.true(label + " shape", False, f"{a.shape} != {b.shape}")
            return
        for i in np.ndindex(*a.shape):
            self.eq(label + (str(list(i)) if i else ""), a[i], b[i], tol=tol)

    def le_arr(self, label, a, b, tol=None):
        a = np.asarray(a)
        b = np.broadcast_to(np.asarray(b), a.shape)
        for i in np.ndindex(*a.shape):
            self.le(label + (str(list(i)) if i else ""), a[i], b[i], tol=tol)

    def ge(self, label, a, b, tol=None):
        self.le(label, b, a, tol=tol)

    def between(self, label, a, lo, hi, tol=None):
        self.le(label + " lower", lo, a, tol=tol)
        self.le(label + " upper", a, hi, tol=tol)

    def angle_eq_arr(self, label, a, b, tol=None):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            self.true(label + " shape", False, f"{a.shape} != {b.shape}")
            return
        for i in np.ndindex(*a.shape):
            self.angle_eq(label + (str(list(i)) if i else ""), a[i], b[i], tol=tol)


class ConcCtx(Ctx):
    """Runs a harness on floats"""

    symbolic = False

    def __init__(self, values, collect=False, fill=None):
        self.values = values
        self.rng = None if fill is None else np.random.default_rng(fill)
        self.checks = 0
        self.obs = []
        self.collect = collect

    def _get(self, name, lo=0, hi=1, draw="uniform"):
        if name not in self.values:
            if self.rng is None:
                raise AssumeFailed(f"no value for input '{name}'")
            # inputs that the symbolic run did not get to
            lo, hi = -1000.0 if lo is None else lo, 1000.0 if hi is None else hi
            self.values[name] = (float(self.rng.uniform(float(lo), float(hi))) if draw == "uniform"
                                 else int(self.rng.integers(lo, hi + 1)))
        return self.values[name]

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = np.float64(self._get(name, lo, hi))
        if (lo is not None and (v < lo or (lo_open and v == lo))) or (
            hi is not None and (v > hi or (hi_open and v == hi))
        ):
            raise AssumeFailed(f"{name} = {v} out of range")
        return v

    def int(self, name, lo, hi):
        v = int(self._get(name, lo, hi, "int"))
        if v < lo or v > hi:
            raise AssumeFailed(f"{name} = {v} out of range")
        return v

    def bool(self, name):
        return bool(self._get(name, 0, 1, "int"))

    def angle(self, name, lo=0, hi=360, link=True):
        return np.float64(self._get(name, lo, hi))

    def empty(self, shape):
        return np.full(shape, np.nan, dtype=np.float64)

    def arr(self, x):
        return np.array(x, dtype=np.float64)

    def const(self, x):
        return np.float64(x)

    def assume(self, cond, slack=True):
        if not np.all(cond):
            raise AssumeFailed("assumption")

    def observe(self, label, val):
        self.obs.append((label, val))

    def fail(self, label, msg):
        raise CheckFailed(label, msg)

    def eq(self, label, a, b, tol=None):
        self.checks += 1
        tol = self.tol if tol is None else tol
        na, nb = _isnan(a), _isnan(b)
        if na or nb:
            if na and nb:
                return
            self.fail(label, f"got {a}, expected {b}")
        a, b = float(a), float(b)
        if a == b:
            return
        if not abs(a - b) <= tol * (1 + abs(b)):
            self.fail(label, f"got {a}, expected {b}")

    def le(self, label, a, b, tol=None):
        self.checks += 1
        tol = self.tol if tol is None else tol
        if _isnan(a) or _isnan(b):
            self.fail(label, f"not comparable: {a} <= {b}")
        a, b = float(a), float(b)
        if not a <= b + tol * (1 + min(abs(b), 1e12)):
            self.fail(label, f"{a} <= {b} does not hold")

    def true(self, label, cond, msg=""):
        self.checks += 1
        if not bool(cond):
            self.fail(label, msg or "does not hold")

    def angle_eq(self, label, a, b, tol=None):
        self.checks += 1
        tol = 1e-6 if tol is None else tol
        if _isnan(a) or _isnan(b):
            if _isnan(a) and _isnan(b):
                return
            self.fail(label, f"got {a} deg, expected {b} deg")
        d = abs((float(a) - float(b) + 180.0) % 360.0 - 180.0)
        if not d <= tol * 360:
            self.fail(label, f"got {a} deg, expected {b} deg")

    def lt_strict(self, label, a, b, tol=None):
        self.checks += 1
        if not float(a) < float(b):
            self.fail(label, f"{a} < {b} does not hold")


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, ex, replay):
        self.ex = ex
        self.replay = replay  # function(values) -> (status, label, msg)
        self.labels = {}
        self.nchecks = 0
        self.observed = []
        self.identities = []

    def confirm(self, limit=200):
        """hands equalities that the normal form settled to the solver as well"""
        ex = self.ex
        ne = []
        for a, b in self.identities:
            if a.c is None and len(ne) < limit and len(a.p) <= 300:
                ne.append(a.e != b.e)
        if ne:
            ex.stats.confirmed += len(ne) if ex.solve(list(ex.pc) + [z3.Or(ne)], 500)[0] == z3.unsat else 0

    # -- inputs
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        ex = self.ex
        if name in ex.inputs:
            raise RuntimeError(f"duplicate input {name}")
        if lo is not None and hi is not None and lo == hi:
            ex.inputs[name] = ("const", to_frac(lo))
            return Sym.const(lo)
        flo = None if lo is None else to_frac(lo)
        fhi = None if hi is None else to_frac(hi)
        x = ex.var(name, lo=flo, hi=fhi, lo_open=lo_open, hi_open=hi_open,
                   num=ex.add_input(name, "real", flo, fhi))
        v = x.e
        ex.inputs[name] = ("real", v, lo, hi)
        if lo is not None:
            ex.axiom(v > rv(flo) if lo_open else v >= rv(flo))
        if hi is not None:
            ex.axiom(v < rv(fhi) if hi_open else v <= rv(fhi))
        return x

    def int(self, name, lo, hi):
        ex = self.ex
        if name in ex.inputs:
            raise RuntimeError(f"duplicate input {name}")
        v = z3.Int(name)
        ex.inputs[name] = ("int", v)
        ex.intvars.add(name)
        ex.axiom(z3.And(v >= lo, v <= hi))
        return ex.var(name, z3.ToReal(v), True, lo=QQ(lo), hi=QQ(hi),
                      num=ex.add_input(name, "int", lo, hi))

    def bool(self, name):
        """symbolic truth value; used where the code branches on it (forks)"""
        ex = self.ex
        v = z3.Bool(name)
        ex.inputs[name] = ("bool", v)
        ex.add_input(name, "bool")
        return bool(SymBool(v))

    def angle(self, name, lo=0, hi=360, link=True):
        """direction in degrees, [lo, hi) within [0, 360)"""
        ex = self.ex
        num = ex.add_input(name, "real", to_frac(lo), to_frac(hi))
        S = ex.var(name + ".s", lo=QQ(-1), hi=QQ(1), num=lambda: np.sin(np.deg2rad(num())))
        C = ex.var(name + ".c", lo=QQ(-1), hi=QQ(1), num=lambda: np.cos(np.deg2rad(num())))
        x = ex.var(name, lo=to_frac(lo), hi=to_frac(hi), hi_open=True, num=num)
        d, s, c = x.e, S.e, C.e
        ex.inputs[name] = ("angle", d, s, c)
        ex.axiom(z3.And(d >= lo, d < hi))
        ex.axiom(z3.And(s * s + c * c == 1, s >= -1, s <= 1, c >= -1, c <= 1))
        if link:
            ex.axiom(z3.And(
                (s > 0) == z3.And(d > 0, d < 180),
                (s < 0) == z3.And(d > 180, d < 360),
                (c > 0) == z3.Or(d < 90, d > 270),
                (c < 0) == z3.And(d > 90, d < 270),
                (d == 0) == z3.And(s == 0, c == 1),
                (d == 90) == z3.And(s == 1, c == 0),
                (d == 180) == z3.And(s == 0, c == -1),
                (d == 270) == z3.And(s == -1, c == 0),
            ))
        ex.add_rule(((ex.vidx[name + ".c"], 2),), (1 - S * S).p)
        funcs.register_angle(x, "deg", S, C)
        return x

    def empty(self, shape):
        out = np.empty(shape, dtype=object)
        out.fill(NAN)
        return out

    def arr(self, x):
        return npshim.objarray(np.array(x, dtype=object))

    def const(self, x):
        return Sym.const(x)

    def assume(self, cond, slack=True):
        if isinstance(cond, np.ndarray):
            for c in cond.reshape(-1):
                self.ex.assume(c)
            return
        self.ex.assume(cond)

    def observe(self, label, val):
        self.observed.append((label, val))

    # -- checks
    def _count(self, label):
        self.nchecks += 1
        k = label.split("[")[0]
        self.labels[k] = self.labels.get(k, 0) + 1

    def fail(self, label, msg):
        self._refute(label, False)

    def _refute(self, label, *conds):
        """conds: increasingly weaker violated conditions to look for (z3 Bool or False)

        Returns if the last condition is shown impossible."""
        ex = self.ex
        self.witness_violation()
        unknown = False
        tried = []
        for e in conds:
            for attempt in range(4):
                extra = [] if e is False else [e]
                res, m = ex.check(extra + tried, full=True, model=True, ms=ex.prove_ms)
                if res == z3.unsat:
                    break
                if res == z3.unknown:
                    unknown = True
                    break
                values = self.values(m)
                st, lab, msg = self.replay(values)
                if st == "violation":
                    raise Found(lab, msg, values)
                # not reproduced: look for another point
                ex.stats_refine = getattr(ex, "stats_refine", 0) + 1
                ex.last_unrepro = (label, values, st, msg)
                if self.refine(m):
                    raise Refined()
                tried = tried + self._elsewhere(m, attempt)
            else:
                unknown = True
        if res == z3.unsat and not tried:
            return
        raise Inconclusive(f"{label}: counterexample not reproduced or not found "
                           f"{getattr(ex, 'last_unrepro', None)}")

    def _elsewhere(self, m, k):
        """exclude a neighbourhood of a spurious model"""
        out = []
        for n, t in self.ex.inputs.items():
            if t[0] == "real":
                v = _val(m, t[1])
                eps = 10.0 ** (-3 + k) * (1 + abs(float(v)))
                out.append(z3.Or(t[1] > rv(v + to_frac(eps)), t[1] < rv(v - to_frac(eps))))
        return [z3.Or(*out)] if out else []

    def refine(self, m):
        """point lemmas for function atoms whose model value is off"""
        ex = self.ex
        new = False
        for fname, x, v in ex.atoms:
            if fname == "sc" or fname.startswith("root"):
                continue
            a = _val(m, x.e)
            w = _val(m, v.e)
            try:
                t = funcs.exp_values(fname, float(a))
            except (ValueError, OverflowError):
                continue
            if t is None:
                continue
            if abs(float(w) - t) > 1e-6 * (1 + abs(t)):
                pts = ex.points.setdefault(fname, [])
                a = to_frac(float(f"{float(a):.9g}"))
                if a not in pts and len(pts) < 24:
                    pts.append(a)
                    new = True
        return new

    def values(self, m, partial=False):
        """concrete inputs of a model"""
        out = {}
        names = {d.name() for d in m.decls()} if partial else ()
        for n, t in self.ex.inputs.items():
            k = t[0]
            if partial and k != "const" and n not in names and not (
                    k == "angle" and n + ".s" in names and n + ".c" in names):
                continue
            if k == "const":
                out[n] = float(t[1])
            elif k == "real":
                x = float(_val(m, t[1]))
                # rational to float may leave the closed range by one ulp
                if t[2] is not None:
                    x = max(x, float(t[2]))
                if t[3] is not None:
                    x = min(x, float(t[3]))
                out[n] = x
            elif k == "int":
                out[n] = m.eval(t[1], model_completion=True).as_long()
            elif k == "bool":
                out[n] = z3.is_true(m.eval(t[1], model_completion=True))
            elif k == "angle":
                s, c = float(_val(m, t[2])), float(_val(m, t[3]))
                out[n] = math.degrees(math.atan2(s, c)) % 360.0
        return out

    def complete(self, row):
        """input values of a witness point"""
        out = {}
        for n, t in self.ex.inputs.items():
            if t[0] == "const":
                out[n] = float(t[1])
            elif n not in row:
                return None
            elif t[0] == "int":
                out[n] = int(row[n])
            elif t[0] == "bool":
                out[n] = bool(row[n])
            else:
                out[n] = float(row[n])
        return out

    def witness_violation(self, a=None, b=None, kind=None):
        """replay witness points of the path where the check fails; raises Found"""
        ex = self.ex
        ex.sync()
        idx = np.flatnonzero(ex.alive)
        if a is not None and len(idx):
            with np.errstate(all="ignore"):
                d = ex.num(a) - ex.num(b)
                s = 1 + np.abs(ex.num(b))
            r = np.abs(d) / s if kind == "eq" else d / s
            idx = idx[r[idx] > 1e-6]
            idx = idx[np.argsort(-r[idx])]
        for i in idx[:3]:
            values = self.complete(ex._row(int(i)))
            if values is None:
                return
            st, lab, msg = self.replay(values)
            if st == "violation":
                raise Found(lab, msg, values)

    def true(self, label, cond, msg=""):
        self._count(label)
        if isinstance(cond, np.ndarray):
            for i, c in enumerate(cond.reshape(-1)):
                self.true(f"{label}[{i}]", c, msg)
            return
        if isinstance(cond, SymBool):
            r = self._prove(cond.e)
            if r is not None:
                self._refute(label, z3.Not(cond.e))
        elif not cond:
            self._refute(label, False)
        else:
            self.ex.stats.trivial += 1

    def _prove(self, e, on_open=None):
        """None if proved, else 'sat' or 'unknown'"""
        ex = self.ex
        s = z3.simplify(e)
        if z3.is_true(s):
            ex.stats.trivial += 1
            return None
        ne = z3.simplify(z3.Not(s))
        for lv in (1, 2, 4):
            cons = ex._slice([ne], level=lv)
            if len(cons) == len(ex.pc):
                break
            r, _ = ex.solve(cons + [ne], ex.prove_ms // 12)
            if r == z3.unsat:
                return None
        if on_open is not None:
            on_open()
        r = ex.check([ne], ms=ex.prove_ms)
        if r == z3.unsat:
            return None
        if r == z3.unknown:
            r = ex.check_alt([ne])
            if r == z3.unsat:
                return None
            if r == z3.unknown:
                return "unknown"
        return "sat"

    def eq(self, label, a, b, tol=None):
        self._count(label)
        tol = self.tol if tol is None else tol
        a, b = _co(a), _co(b)
        if isinstance(a, float) or isinstance(b, float):
            fa, fb = isinstance(a, float), isinstance(b, float)
            if fa and fb and (a == b or (a != a and b != b)):
                self.ex.stats.trivial += 1
                return
            self._refute(label, False)
            raise Inconclusive(f"{label}: non-finite value on a path without model")
        r = a._cmp(b, "eq")
        if r is True:
            self.ex.stats.trivial += 1
            self.identities.append((a, b))
            return
        if isinstance(r, SymBool) and self._prove(
                r.e, lambda: self.witness_violation(a, b, "eq")) is None:
            return
        t = rv(to_frac(tol))
        d = (a - b).e
        sc = z3.If(b.e >= 0, b.e, -b.e) + 1
        inside = z3.And(d <= t * sc, -d <= t * sc)
        if self._prove(inside) is None:
            return
        big = rv(to_frac(max(0.05, tol * 100)))
        mid = rv(to_frac(tol * 1000))
        self._refute(
            label,
            z3.Or(d > big * sc, -d > big * sc),
            z3.Or(d > mid * sc, -d > mid * sc),
            z3.Not(inside),
        )

    def le(self, label, a, b, tol=None):
        self._count(label)
        tol = self.tol if tol is None else tol
        a, b = _co(a), _co(b)
        if isinstance(a, float) or isinstance(b, float):
            fa = float("nan") if isinstance(a, float) and a != a else a
            if (isinstance(a, float) and a == float("-inf") and not (isinstance(b, float) and b != b)) or (
                isinstance(b, float) and b == float("inf") and not (isinstance(a, float) and a != a)
            ):
                self.ex.stats.trivial += 1
                return
            self._refute(label, False)
            raise Inconclusive(f"{label}: non-finite value on a path without model")
        r = a._cmp(b, "le")
        if r is True:
            self.ex.stats.trivial += 1
            return
        if isinstance(r, SymBool) and self._prove(
                r.e, lambda: self.witness_violation(a, b, "le")) is None:
            return
        t = rv(to_frac(tol))
        d = (a - b).e
        sc = z3.If(b.e >= 0, b.e, -b.e) + 1
        inside = d <= t * sc
        if self._prove(inside) is None:
            return
        big = rv(to_frac(max(0.05, tol * 100)))
        self._refute(label, d > big * sc, d > rv(to_frac(tol * 1000)) * sc, z3.Not(inside))

    def lt_strict(self, label, a, b, tol=None):
        self._count(label)
        r = _co(a) < _co(b)
        self.true(label, r)

    def angle_eq(self, label, a, b, tol=None):
        """equal modulo 360 degrees"""
        self._count(label)
        a, b = _co(a), _co(b)
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
                return
            self._refute(label, False)
            raise Inconclusive(f"{label}: non-finite angle on a path without model")
        d = a - b
        if d.c is not None and d.c % 360 == 0:
            self.ex.stats.trivial += 1
            return
        s, c = funcs.sincos(d * Sym.const(math.pi / 180))
        if self._prove((c == 1).e if isinstance(c == 1, SymBool) else z3.BoolVal(bool(c == 1))) is None:
            return
        self._refute(label, c.e < rv(to_frac(0.9)), c.e < rv(to_frac(0.9999)),
                     c.e < rv(to_frac(1 - 1e-9)))


class Refined(BaseException):
    """the path has to be executed again with more lemmas"""


def _co(x):
    if isinstance(x, np.ndarray) and x.size == 1:
        x = x.reshape(-1)[0]
    s = Sym.coerce(x)
    if s is None:
        raise Unsupported(f"not a number: {type(x)}")
    return s


def _val(m, e):
    """rational value of a term in a model"""
    v = m.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(18)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    v = z3.simplify(v)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(18)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    raise Inconclusive(f"no value for {e}")


# ------------------------------------------------------------------ running


class Monitor:
    """names of the foxes functions that were executed symbolically"""

    TOOL = 3

    def __init__(self, root):
        self.root = root
        self.codes = set()

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "symx")

        def start(code, off):
            if code.co_filename.startswith(self.root):
                self.codes.add((code.co_filename[len(self.root):].lstrip("/"), code.co_qualname))
            return mon.DISABLE

        mon.register_callback(self.TOOL, mon.events.PY_START, start)
        mon.restart_events()
        mon.set_events(self.TOOL, mon.events.PY_START)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.PY_START, None)
        mon.free_tool_id(self.TOOL)
        return False

    def names(self):
        return sorted(f"{f}:{q}" for f, q in self.codes if "<" not in q or "<locals>" in q)


def run_conc(fn, params, values, fill=None):
    """(status, label, msg); status: ok, assume, violation"""
    import warnings

    ctx = ConcCtx(values, fill=fill)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"), _EngineScope():
            warnings.simplefilter("ignore")
            fn(ctx, **params)
    except AssumeFailed as exc:
        return "assume", None, str(exc)
    except CheckFailed as exc:
        return "violation", exc.label, str(exc)
    except Exception as exc:
        tb = traceback.extract_tb(exc.__traceback__)
        loc = " <- ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in reversed(tb[-3:]))
        return "violation", "exception", f"{type(exc).__name__}: {exc} at {loc}"
    return "ok", None, f"{ctx.checks} checks"


def explore(fn, params, root="/repo/foxes", budget_s=300.0, max_paths=4000, branch_ms=1500,
            prove_ms=15000, seed=1, validate=6, skip_unknown=False, prefixes=("foxes", "harness"), verbose=False):
    """Explore all paths of a harness; returns a result dict"""
    from foxes.config import config
    import foxes.constants as FC
    import warnings

    ex = Explorer(max_paths=max_paths, budget_s=budget_s, branch_ms=branch_ms,
                  prove_ms=prove_ms, seed=seed, skip_unknown=skip_unknown)
    ex.points = {}
    ex.extra.append(_point_lemmas)
    state = {}

    def replay(values, fill=None):
        p = state.get("patch")
        if p is not None:
            p.__exit__(None, None, None)
        config[FC.DTYPE] = np.float64
        set_explorer(None)
        try:
            return run_conc(fn, params, values, fill)
        finally:
            set_explorer(ex)
            config[FC.DTYPE] = object
            if p is not None:
                p.__enter__()

    res = dict(status="ok", msg="", label=None, values=None, labels={}, checks=0,
               completed=0, aborted=0, open=0, open_msg="", validated=0, unmodelled=0, samples=[], refinements=0)
    import time

    t0 = time.time()
    mon = Monitor(root)
    set_explorer(ex)
    try:
        with mon:
            while ex.stack:
                prefix = ex.stack.pop()
                if res["completed"] + res["aborted"] >= max_paths:
                    raise BudgetExceeded(f"more than {max_paths} paths")
                for attempt in range(40):
                    ex._begin(prefix)
                    nstack = len(ex.stack)
                    ctx = SymCtx(ex, replay)
                    ex.modeller = lambda m, c=ctx: c.values(m, partial=True)
                    state["patch"] = npshim.patched(prefixes=prefixes)
                    state["patch"].__enter__()
                    config[FC.DTYPE] = object
                    err = None
                    again = False
                    try:
                        with warnings.catch_warnings(), np.errstate(all="ignore"), _EngineScope():
                            warnings.simplefilter("ignore")
                            fn(ctx, **params)
                        done = True
                    except PathAbort:
                        done = False
                    except Refined:
                        del ex.stack[nstack:]
                        res["refinements"] += 1
                        again = True
                    except Unsupported:
                        # no symbolic verdict from here on: still try the inputs known to lead here
                        if state["patch"] is not None:
                            state["patch"].__exit__(None, None, None)
                            state["patch"] = None
                        config[FC.DTYPE] = np.float64
                        _try_witnesses(ex, ctx)
                        raise
                    except Inconclusive as exc:
                        # keep looking for a violation on the other paths
                        res["open"] += 1
                        res["open_msg"] = str(exc)
                        done = False
                    except (Found, BudgetExceeded):
                        raise
                    except Exception as exc:
                        done = True
                        err = exc
                    finally:
                        for k, v in ctx.labels.items():
                            res["labels"][k] = res["labels"].get(k, 0) + v
                        res["checks"] += ctx.nchecks
                        if state["patch"] is not None:
                            state["patch"].__exit__(None, None, None)
                        state["patch"] = None
                        config[FC.DTYPE] = np.float64
                    if not again:
                        break
                else:
                    raise Inconclusive("too many refinements")
                if err is not None:
                    _on_exception(ex, ctx, err)
                    continue
                if not done:
                    res["aborted"] += 1
                    continue
                res["completed"] += 1
                if res["completed"] <= 3:
                    ctx.confirm()
                if verbose:
                    print(f"  path {res['completed']}: {len(ex.trace)} decisions, "
                          f"{len(ex.pc)} constraints, {time.time()-t0:.1f}s, open {len(ex.stack)}",
                          flush=True)
                n = res["completed"]
                if res["validated"] < validate and (n <= 2 * validate or n % 5 == 0):
                    _validate(ex, ctx, res)
    except Found as f:
        res.update(status="violation", label=f.label, msg=f.msg, values=f.values)
    except BudgetExceeded as exc:
        res.update(status="budget", msg=str(exc))
    except Inconclusive as exc:
        res.update(status="inconclusive", msg=str(exc))
    except Unsupported as exc:
        tb = traceback.extract_tb(exc.__traceback__)
        loc = " <- ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in reversed(tb[-10:]))
        res.update(status="unsupported", msg=f"{exc} at {loc}")
    finally:
        set_explorer(None)
        config[FC.DTYPE] = np.float64
    if res["status"] == "ok" and res["open"]:
        res.update(status="inconclusive", msg=f"{res['open']} paths undecided: {res['open_msg']}")
    if res["status"] == "ok" and (res["completed"] == 0 or res["checks"] == 0):
        res.update(status="vacuous", msg="no completed path reached a check")
    if res["status"] == "ok" and res["validated"] == 0:
        res.update(status="vacuous", msg="no path model could be replayed on the real code")
    res["decisions"] = ex.decisions_total
    res["stats"] = ex.stats.as_dict()
    res["functions"] = mon.names()
    res["wall"] = time.time() - t0
    return res


def _try_witnesses(ex, ctx, limit=10):
    """replays known inputs of an unfinished path on the real code"""
    ex.sync()
    rows = [ctx.complete(ex._row(int(i))) for i in np.flatnonzero(ex.alive)[:limit]]
    if not any(r is not None for r in rows):
        r, m = ex.check([], full=True, model=True, ms=4000)
        rows = [ctx.values(m)] if r == z3.sat else []
    for i, values in enumerate(rows):
        if values is not None:
            st, lab, msg = ctx.replay(values, fill=i)
            if st == "violation":
                raise Found(lab, msg, values)


def _on_exception(ex, ctx, err):
    tb = traceback.extract_tb(err.__traceback__)
    loc = " <- ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in reversed(tb[-6:]))
    what = f"{type(err).__name__}: {err} at {loc}"
    ctx.witness_violation()
    res, m = ex.check([], full=True, model=True, ms=ex.prove_ms)
    if res == z3.unsat:
        return
    if res == z3.unknown:
        raise Inconclusive(f"exception on a path of unknown feasibility: {what}")
    values = ctx.values(m)
    st, lab, msg = ctx.replay(values)
    if st == "violation":
        raise Found(lab, msg, values)
    _try_witnesses(ex, ctx)
    raise Unsupported(f"exception only in symbolic execution: {what} (replay {st}: {msg}, {values})")


def _validate(ex, ctx, res):
    """replay a model of a completed path on the real code"""
    ex.sync()
    idx = np.flatnonzero(ex.alive)
    for i in idx[:1]:
        values = ctx.complete(ex._row(int(i)))
        if values is None:
            break
        st, lab, msg = ctx.replay(values)
        if st == "violation":
            raise Found(lab, msg, values)
        if st == "ok":
            res["validated"] += 1
            if len(res["samples"]) < 3:
                res["samples"].append(dict(inputs={k: values[k] for k in list(values)[:40]},
                                           decisions=len(ex.trace)))
            return
    r, m = ex.check([], full=True, model=True, ms=4000)
    if r != z3.sat:
        res["unmodelled"] += 1
        return
    values = ctx.values(m)
    st, lab, msg = ctx.replay(values)
    if st == "violation":
        raise Found(lab, msg, values)
    if st == "ok":
        res["validated"] += 1
        if len(res["samples"]) < 3:
            res["samples"].append(dict(inputs={k: values[k] for k in list(values)[:40]},
                                       decisions=len(ex.trace)))
    else:
        res["unmodelled"] += 1


def _point_lemmas(ex, fname, x, v):
    """lemmas for an atom at the refinement points of its function"""
    for a in ex.points.get(fname, ()):
        t = funcs.exp_values(fname, float(a))
        eps = 1e-9 * (1 + abs(t))
        lo, hi, ae = rv(to_frac(t - eps)), rv(to_frac(t + eps)), rv(a)
        dec = fname == "arccos" or (fname.startswith("pow[") and float(fname[4:-1]) < 0)
        if dec:
            ex.axiom(z3.And(z3.Implies(x.e <= ae, v.e >= lo), z3.Implies(x.e >= ae, v.e <= hi)))
        else:
            ex.axiom(z3.And(z3.Implies(x.e <= ae, v.e <= hi), z3.Implies(x.e >= ae, v.e >= lo)))
