"""
Symbolic reals and the path explorer.

A `Sym` is an exact rational constant or a z3 real term. Python comparisons of
symbolic values return a `SymBool`, and taking its truth value asks the
explorer for a decision: both outcomes that the solver cannot exclude are
explored, each in its own run of the harness.
"""

import math
import operator
import os
import time
from fractions import Fraction

import numpy as np

from . import z3

QQ = Fraction
NAN = float("nan")
INF = float("inf")


class Unsupported(Exception):
    """The symbolic executor cannot represent what the code does."""


class PathAbort(BaseException):
    """The current path is infeasible, or ended early on purpose."""


class BudgetExceeded(BaseException):
    """Path or time budget exhausted: inconclusive."""


class Inconclusive(BaseException):
    """The solver answered unknown on a deciding query."""


NPOINTS = 128
NANS = np.full(NPOINTS, np.nan)
NOT = np.zeros(NPOINTS, dtype=bool)
_DEBUG = bool(os.environ.get("SYMX_DEBUG"))
_EX = None  # the current explorer


def explorer():
    if _EX is None:
        raise Unsupported("symbolic operation outside of an exploration")
    return _EX


def set_explorer(ex):
    global _EX
    _EX = ex


def to_frac(x):
    """Exact rational for a finite python/numpy number, decimal reading of floats"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x == int(x) and abs(x) < 1e15:
            return Fraction(int(x))
        t = repr(float(x))
        f = Fraction(t)
        if len(t) > 14:
            # a rounded simple fraction, like 1/3
            g = f.limit_denominator(64)
            if float(g) == x:
                return g
        return f
    # numpy scalars
    if hasattr(x, "item") and not hasattr(x, "e"):
        return to_frac(x.item())
    raise TypeError(f"not a number: {type(x)}")


def _isnum(x):
    return isinstance(x, (int, float, Fraction)) or (
        hasattr(x, "dtype") and getattr(x, "shape", None) == () and x.dtype.kind in "biuf"
    )


def rv(fr):
    """z3 real value"""
    if fr.denominator == 1:
        return z3.RealVal(fr.numerator)
    return z3.Q(fr.numerator, fr.denominator)


class Sym:
    """
    Symbolic real number: a polynomial over the variables of the current path,
    kept in normal form modulo the defining equations of roots, inverses and
    cosines (see `Explorer.rules`).
    """

    __slots__ = ("p", "_e")
    __array_priority__ = 1000

    def __init__(self, c=None, p=None):
        if p is None:
            p = {(): c} if c else {}
        self.p = p
        self._e = None

    @staticmethod
    def const(x):
        return Sym(c=to_frac(x))

    @property
    def c(self):
        """the Fraction, if constant"""
        p = self.p
        if not p:
            return QQ(0)
        if len(p) == 1 and () in p:
            return p[()]
        return None

    @property
    def e(self):
        """z3 term"""
        if self._e is None:
            self._e = poly_expr(self.p)
        return self._e

    @property
    def key(self):
        return tuple(sorted(self.p.items()))

    @property
    def isint(self):
        ex = _EX
        for m, k in self.p.items():
            if k.denominator != 1:
                return False
            for i, _ in m:
                if not ex.vars[i][2]:
                    return False
        return True

    def linform(self):
        """({variable name: factor}, const) if linear, else None"""
        d = {}
        c = QQ(0)
        for m, k in self.p.items():
            if m == ():
                c = k
            elif len(m) == 1 and m[0][1] == 1:
                d[_EX.vars[m[0][0]][0]] = k
            else:
                return None
        return d, c

    def __repr__(self):
        c = self.c
        if c is not None:
            return f"Sym({float(c)})"
        return f"Sym({str(self.e)[:80]})"

    def __hash__(self):
        c = self.c
        return hash(c) if c is not None else hash(self.key)

    # numpy calls these on object elements
    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym.const(0)

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    @property
    def dtype(self):
        raise AttributeError("dtype")

    # -- arithmetic
    @staticmethod
    def coerce(x):
        """-> Sym, or python float for nan/inf, or None if not a number"""
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return x.as_num()
        if _isnum(x):
            f = x if isinstance(x, (int, Fraction)) else float(x)
            if isinstance(f, float) and (math.isnan(f) or math.isinf(f)):
                return f
            return Sym(c=to_frac(f))
        return None

    def __add__(self, o):
        o = Sym.coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o
        return sym_add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        o = Sym.coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return -o
        return sym_add(self, o, -1)

    def __rsub__(self, o):
        o = Sym.coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o
        return sym_add(o, self, -1)

    def __mul__(self, o):
        o = Sym.coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            if math.isnan(o):
                return NAN
            if self == 0:
                return NAN
            return o if self > 0 else -o
        return sym_mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Sym.coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return NAN if math.isnan(o) else Sym.const(0)
        return sym_div(self, o)

    def __rtruediv__(self, o):
        o = Sym.coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            if math.isnan(o):
                return NAN
            return o if self >= 0 else -o
        return sym_div(o, self)

    def __neg__(self):
        return Sym(p={m: -k for m, k in self.p.items()})

    def __pos__(self):
        return self

    def __abs__(self):
        c = self.c
        if c is not None:
            return Sym(c=abs(c))
        return explorer().absval(self)

    def __pow__(self, o, mod=None):
        from . import funcs

        return funcs.power(self, o)

    def __rpow__(self, o):
        from . import funcs

        return funcs.power(o, self)

    def __floordiv__(self, o):
        o = Sym.coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            raise Unsupported("floordiv by non-finite")
        return sym_divmod(self, o)[0]

    def __rfloordiv__(self, o):
        o = Sym.coerce(o)
        if o is None or isinstance(o, float):
            return NotImplemented
        return sym_divmod(o, self)[0]

    def __mod__(self, o):
        o = Sym.coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            raise Unsupported("mod by non-finite")
        return sym_divmod(self, o)[1]

    def __rmod__(self, o):
        o = Sym.coerce(o)
        if o is None or isinstance(o, float):
            return NotImplemented
        return sym_divmod(o, self)[1]

    def __divmod__(self, o):
        return self // o, self % o

    # -- comparisons
    def _cmp(self, o, op):
        o = Sym.coerce(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            if math.isnan(o):
                return op == "ne"
            if o > 0:
                return op in ("lt", "le", "ne")
            return op in ("gt", "ge", "ne")
        d = sym_add(self, o, -1)
        if len(d.p) > 1:
            d = Sym(p=poly_reduce(d.p))
        c = d.c
        if c is not None:
            return {
                "lt": c < 0, "le": c <= 0, "gt": c > 0,
                "ge": c >= 0, "eq": c == 0, "ne": c != 0,
            }[op]
        if op in ("gt", "ge"):
            d = -d
            op = "lt" if op == "gt" else "le"
        # normalise the scale, to share terms
        lead = d.p[max(d.p)]
        f = abs(lead)
        if op in ("eq", "ne"):
            f = lead
        if f != 1:
            d = Sym(p={m: k / f for m, k in d.p.items()})
        lo, lop, hi, hop = explorer().interval(d)
        if op == "lt":
            if hi is not None and (hi < 0 or (hi == 0 and hop)):
                return True
            if lo is not None and lo >= 0:
                return False
        elif op == "le":
            if hi is not None and hi <= 0:
                return True
            if lo is not None and (lo > 0 or (lo == 0 and lop)):
                return False
        else:
            if (lo is not None and (lo > 0 or (lo == 0 and lop))) or (
                hi is not None and (hi < 0 or (hi == 0 and hop))
            ):
                return op == "ne"
        if op in ("eq", "ne"):
            ff = explorer().factors.get(mono_key(d.p)[0])
            if ff is not None:
                # a product is zero iff a factor is
                z = bool(ff[0] == 0) or (ff[1] is not ff[0] and bool(ff[1] == 0))
                return z == (op == "eq")
        # move the constant to the right hand side
        k = d.p.get((), QQ(0))
        a = d.e if not k else poly_expr({m: v for m, v in d.p.items() if m != ()})
        b = rv(-k)
        if op == "lt":
            return SymBool(a < b, d)
        if op == "le":
            return SymBool(a <= b, d)
        if op == "eq":
            return SymBool(a == b, d)
        return SymBool(z3.Not(a == b), d)

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        c = self.c
        if c is not None:
            return float(c)
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        return explorer().concretize_int(self, trunc=True)

    def __trunc__(self):
        return self.__int__()

    def __index__(self):
        return explorer().concretize_int(self, trunc=False)

    def __round__(self, nd=None):
        from . import funcs

        return funcs.round_(self, 0 if nd is None else nd)

    def __floor__(self):
        return sym_divmod(self, Sym.const(1))[0]

    def __ceil__(self):
        return -sym_divmod(-self, Sym.const(1))[0]

    def __format__(self, spec):
        c = self.c
        if c is not None:
            return format(float(c), spec)
        return repr(self)

    def is_integer(self):
        c = self.c
        if c is not None:
            return c.denominator == 1
        return self.isint

    # numpy object-ufunc protocol (np.sqrt(obj_array) calls x.sqrt() etc.)
    def __getattr__(self, name):
        if name in _UFUNCS:
            from . import funcs

            return lambda *a: getattr(funcs, name)(self, *a)
        raise AttributeError(name)

    def rint(self):
        from . import funcs

        return funcs.round_(self, 0)


_UFUNCS = ("sqrt", "exp", "log", "sin", "cos", "tan", "floor", "ceil", "trunc",
           "arcsin", "arccos", "arctan", "tanh", "cosh", "sinh", "cbrt",
           "deg2rad", "rad2deg", "radians", "degrees", "log10", "log2", "log1p",
           "expm1", "square", "fabs", "arctan2", "hypot")

MAXTERMS = 260


def poly_expr(p):
    if not p:
        return z3.RealVal(0)
    ts = []
    vs = _EX.vars
    for m in sorted(p):
        k = p[m]
        fs = []
        for i, n in m:
            fs.extend([vs[i][1]] * n)
        if k != 1 or not fs:
            fs.insert(0, rv(k))
        ts.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
    return ts[0] if len(ts) == 1 else z3.Sum(*ts)


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] > y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def mono_div(a, b):
    """a / b, or None"""
    d = dict(a)
    for i, n in b:
        k = d.get(i, 0) - n
        if k < 0:
            return None
        if k == 0:
            del d[i]
        else:
            d[i] = k
    return tuple(sorted(d.items(), reverse=True))


def poly_add(a, b, f=1):
    d = dict(a)
    for m, k in b.items():
        w = d.get(m, 0) + f * k
        if w == 0:
            d.pop(m, None)
        else:
            d[m] = w
    return d


def poly_mul_raw(a, b):
    d = {}
    for m, k in a.items():
        for n, l in b.items():
            q = mono_mul(m, n)
            w = d.get(q, 0) + k * l
            if w == 0:
                d.pop(q, None)
            else:
                d[q] = w
    return d


def poly_reduce(p):
    """normal form modulo the rewrite rules of the current path"""
    rules = _EX.rules
    if not rules:
        return p
    out = {}
    work = p
    steps = 0
    while True:
        nxt = {}
        for m, k in work.items():
            r = None
            for i, n in m:
                for lm, repl in rules.get(i, ()):
                    q = mono_div(m, lm)
                    if q is not None:
                        r = (q, repl)
                        break
                if r:
                    break
            if r is None or steps > 3000:
                w = out.get(m, 0) + k
                if w == 0:
                    out.pop(m, None)
                else:
                    out[m] = w
            else:
                steps += len(r[1])
                for n2, l in r[1].items():
                    q = mono_mul(r[0], n2)
                    w = nxt.get(q, 0) + k * l
                    if w == 0:
                        nxt.pop(q, None)
                    else:
                        nxt[q] = w
        if not nxt:
            return out
        work = nxt


def poly_divexact(a, b):
    """a / b if b divides a exactly (plain polynomial division), else None"""
    lb = max(b)
    cb = b[lb]
    rem = dict(a)
    q = {}
    n = 0
    while rem:
        lm = max(rem)
        t = mono_div(lm, lb)
        if t is None:
            return None
        k = rem[lm] / cb
        q[t] = k
        for m, c in b.items():
            x = mono_mul(t, m)
            w = rem.get(x, 0) - k * c
            if w == 0:
                rem.pop(x, None)
            else:
                rem[x] = w
        n += 1
        if n > 200 or len(rem) > 400:
            return None
    return q


def poly_sqrt(p):
    """polynomial s with s*s = p, or None"""
    if not p:
        return {}
    lm = max(p)
    if any(n % 2 for _, n in lm):
        return None
    c = frac_root(p[lm], 2)
    if c is None:
        return None
    s = {tuple((i, n // 2) for i, n in lm): c}
    rem = poly_add(p, poly_mul_raw(s, s), -1)
    l0 = max(s)
    for _ in range(40):
        if not rem:
            return s
        m = max(rem)
        t = mono_div(m, l0)
        if t is None or t >= l0:
            return None
        k = rem[m] / (2 * s[l0])
        if t in s:
            return None
        # (s + kt)^2 = s^2 + 2 k t s + k^2 t^2
        rem = poly_add(rem, poly_mul_raw({t: 2 * k}, s), -1)
        rem = poly_add(rem, {mono_mul(t, t): k * k}, -1)
        s[t] = k
    return None


def frac_root(f, q):
    if f < 0:
        return None

    def ir(n):
        r = int(round(n ** (1.0 / q))) if n < 10**300 else 0
        for k in (r - 1, r, r + 1):
            if k >= 0 and k**q == n:
                return k
        return None

    n, d = ir(f.numerator), ir(f.denominator)
    return None if n is None or d is None else QQ(n, d)


def _iv_pow(b, n):
    if n == 1:
        return b
    lo, lop, hi, hop = b
    if n % 2 == 0:
        if lo is not None and lo >= 0:
            return (lo**n, lop, None if hi is None else hi**n, hop)
        if hi is not None and hi <= 0:
            return (hi**n, hop, None if lo is None else lo**n, lop)
        mx = None
        mo = False
        if lo is not None and hi is not None:
            mx = max(-lo, hi)
            mo = (lop or -lo < mx) and (hop or hi < mx)
            mx = mx**n
        return (QQ(0), False, mx, mo)
    return (None if lo is None else lo**n, lop, None if hi is None else hi**n, hop)


def _iv_mul(a, b):
    if a == (1, False, 1, False):
        return b
    l1, o1, h1, p1 = a
    l2, o2, h2, p2 = b
    if (l1 == 0 and h1 == 0) or (l2 == 0 and h2 == 0):
        return (QQ(0), False, QQ(0), False)
    if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
        lo = l1 * l2
        if lo > 0:
            lop = o1 or o2
        else:
            lop = (l1 > 0 or o1) and (l2 > 0 or o2)
        hi = None if h1 is None or h2 is None else h1 * h2
        return (lo, lop, hi, p1 or p2)
    if h1 is not None and h1 <= 0:
        r = _iv_mul((-h1, p1, None if l1 is None else -l1, o1), b)
        return _iv_neg(r)
    if h2 is not None and h2 <= 0:
        r = _iv_mul(a, (-h2, p2, None if l2 is None else -l2, o2))
        return _iv_neg(r)
    if None in (l1, h1, l2, h2):
        return (None, False, None, False)
    c = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
    return (min(c), False, max(c), False)


def _iv_neg(r):
    return (None if r[2] is None else -r[2], r[3], None if r[0] is None else -r[0], r[1])


def sym_add(a, b, f=1):
    if not b.p:
        return a
    if not a.p:
        return b if f == 1 else -b
    p = poly_add(a.p, b.p, f)
    if len(p) > MAXTERMS:
        return _EX.define(a.e + b.e if f == 1 else a.e - b.e, ("add", f, a.key, b.key),
                          num=lambda: _EX.num(a) + f * _EX.num(b))
    return Sym(p=p)


def sym_mul(a, b):
    if not a.p or not b.p:
        return Sym(p={})
    ca, cb = a.c, b.c
    if ca is not None and cb is not None:
        return Sym(c=ca * cb)
    if ca is not None or cb is not None:
        k, o = (ca, b) if ca is not None else (cb, a)
        if k == 1:
            return o
        return Sym(p={m: v * k for m, v in o.p.items()})
    if len(a.p) * len(b.p) > 4000:
        ka, kb = sorted((a.key, b.key))
        return explorer().define(a.e * b.e, ("mul", ka, kb),
                                 num=lambda: _EX.num(a) * _EX.num(b))
    p = poly_reduce(poly_mul_raw(a.p, b.p))
    if len(p) > MAXTERMS:
        ka, kb = sorted((a.key, b.key))
        return explorer().define(a.e * b.e, ("mul", ka, kb),
                                 num=lambda: _EX.num(a) * _EX.num(b))
    if 1 < len(p) <= 200:
        ex = _EX
        if (len(a.p) > 1 and len(b.p) > 1) or (ex.factors and (
                mono_key(a.p if len(a.p) > 1 else b.p)[0] in ex.factors)):
            k, l = mono_key(p)
            if k not in ex.factors and k not in ex.fused:
                ex.factors[k] = (a, b, l)
                for o in (a, b):
                    if len(o.p) > 1:
                        ex.fused.add(mono_key(o.p)[0])
    return Sym(p=p)


def mono_key(p):
    """key of the polynomial scaled to leading coefficient 1, and the leading coefficient"""
    l = p[max(p)]
    return tuple(sorted(p.items() if l == 1 else ((m, k / l) for m, k in p.items()))), l


def sym_div(a, b):
    cb = b.c
    if cb is not None:
        if cb == 0:
            if a == 0:
                return NAN
            return INF if a > 0 else -INF
        return sym_mul(Sym(c=1 / cb), a)
    if b == 0:
        # IEEE division by an exact zero
        if a == 0:
            return NAN
        return INF if a > 0 else -INF
    if not a.p:
        return a
    q = poly_divexact(a.p, b.p)
    if q is not None:
        return Sym(p=poly_reduce(q))
    return sym_mul(a, explorer().inverse(b))


def sym_divmod(a, b):
    """floor division and modulo, python semantics"""
    ca, cb = a.c, b.c
    if ca is not None and cb is not None:
        if cb == 0:
            return NAN, NAN
        q = math.floor(ca / cb)
        return Sym(c=QQ(q)), Sym(c=ca - q * cb)
    if cb is None:
        if b == 0:
            return NAN, NAN
        pos = bool(b > 0)
    else:
        if cb == 0:
            return NAN, NAN
        pos = cb > 0
    ex = explorer()
    if cb == 1 and a.isint:
        return a, Sym(c=QQ(0))
    key = ("divmod", a.key, b.key)
    if key in ex.memo:
        return ex.memo[key]
    k = ex.fresh_int("k", num=lambda: np.floor(ex.num(a) / ex.num(b)))
    r = a - k * b
    d = (ex.vname(k),)
    if pos:
        ex.axiom(z3.And(r.e >= 0, r.e < b.e), defs=d)
    else:
        ex.axiom(z3.And(r.e <= 0, r.e > b.e), defs=d)
    # bounds of the quotient
    if cb is not None:
        lo, _, hi, _ = ex.interval(a)
        if cb < 0:
            lo, hi = hi, lo
        ex.set_bounds(k, math.floor(lo / cb) if lo is not None else None,
                      math.floor(hi / cb) if hi is not None else None)
    ex.memo[key] = (k, r)
    return k, r


class SymBool:
    __slots__ = ("e", "d")
    __array_priority__ = 1000

    def __init__(self, e, d=None):
        self.e = e
        self.d = d  # the polynomial compared with zero

    def __bool__(self):
        return explorer().decide_sb(self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    __hash__ = None

    def as_num(self):
        return Sym.const(1 if bool(self) else 0)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.e, o.e))
        return self if o else False

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.Or(self.e, o.e))
        return True if o else self

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __repr__(self):
        return f"SymBool({self.e})"


def _lift(name, op, swap):
    """binary operators with an array on the other side work element by element"""
    f = getattr(Sym, name)

    def g(self, o, *a):
        if isinstance(o, np.ndarray):
            me = np.empty((), dtype=object)
            me[()] = self
            return op(o, me) if swap else op(me, o)
        return f(self, o, *a)

    g.__name__ = name
    setattr(Sym, name, g)


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow"):
    _lift(f"__{_n}__", getattr(operator, _n), False)
    _lift(f"__r{_n}__", getattr(operator, _n), True)
for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    _lift(f"__{_n}__", getattr(operator, _n), False)


# ---------------------------------------------------------------- solver layer


class Prefix(list):
    """decisions to repeat, and inputs that lead there, if known"""

    point = None


def _prior(rng, kind, lo, hi):
    n = NPOINTS
    if kind == "bool":
        return rng.integers(0, 2, n).astype(bool)
    if kind == "int":
        return rng.integers(lo, hi + 1, n).astype(float)
    a = -1000.0 if lo is None and hi is None else (float(hi) - 2000 if lo is None else float(lo))
    b = a + 2000.0 if hi is None else float(hi)
    x = rng.uniform(a, b, n)
    # towards the lower end or towards zero, on a logarithmic scale
    q = rng.random(n)
    x = np.where(q < 0.25, a + (b - a) * 10 ** rng.uniform(-4, 0, n), x)
    if a < 0 < b:
        x = np.where(q > 0.75, x * 10 ** rng.uniform(-4, 0, n), x)
    return x


class Stats:
    def __init__(self):
        self.queries = 0
        self.witnessed = 0
        self.solver_s = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.skipped = 0
        self.trivial = 0
        self.confirmed = 0

    def as_dict(self):
        return dict(
            queries=self.queries, solver_s=round(self.solver_s, 3), unsat=self.unsat,
            sat=self.sat, unknown=self.unknown, trivially_discharged=self.trivial, confirmed_identities=self.confirmed,
            branches_witnessed=self.witnessed, coincidences_assumed_away=self.skipped,
        )

    def add(self, d):
        self.queries += d["queries"]
        self.solver_s += d["solver_s"]
        self.unsat += d["unsat"]
        self.sat += d["sat"]
        self.unknown += d["unknown"]
        self.trivial += d["trivially_discharged"]
        self.confirmed += d["confirmed_identities"]
        self.witnessed += d["branches_witnessed"]
        self.skipped += d["coincidences_assumed_away"]


_vars_cache = {}


def expr_vars(e):
    """Names of the uninterpreted constants of a z3 expression (cached on ast id)"""
    i = e.get_id()
    r = _vars_cache.get(i)
    if r is not None and r[0].eq(e):
        return r[1]
    out = set()
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        n = x.num_args()
        if n == 0:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            stack.extend(x.children())
    out = frozenset(out)
    _vars_cache[i] = (e, out)
    return out


class Explorer:
    """Depth-first exploration by re-execution of a harness"""

    def __init__(self, max_paths=4000, budget_s=600.0, branch_ms=2000, prove_ms=20000,
                 seed=1, skip_unknown=False):
        self.skip_unknown = skip_unknown
        self.max_paths = max_paths
        self.deadline = time.time() + budget_s
        self.branch_ms = branch_ms
        self.prove_ms = prove_ms
        self.seed = seed
        self.stats = Stats()
        self.stack = [[]]  # decision prefixes to run
        self.paths = 0
        self.decisions_total = 0
        self.cache = {}
        self.extra = []  # refinement lemmas, persistent over paths (list of callables)
        self.extra2 = []
        self.modeller = None  # model -> input values
        self._begin([])

    # -- per path state
    def _begin(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.in_domain = False
        self.invdepth = 0
        self.trace = []  # decisions taken: (value, forced)
        self.pc = []  # path condition and axioms
        self.npc = 0
        self.counter = 0
        self.memo = {}
        self.keep = []
        self.inputs = {}  # name -> dict(kind, var, ...)
        self.atoms = []  # (fname, arg Sym, val Sym)
        self.atoms2 = []
        self.angles = {}  # var name -> (s Sym, c Sym)
        self.intvars = set()
        self.pcset = set()
        self.pcinfo = {}
        self.vars = []  # (name, z3 term, is integer)
        self.vidx = {}
        self.bounds = []  # per variable (lo, lo_open, hi, hi_open)
        self.rules = {}  # variable index -> [(leading monomial, replacement)]
        self.rootof = {}  # index of a root variable -> (q, radicand)
        self.invof = {}  # index of an inverse variable -> polynomial
        self.fused = set()
        # witness points: float samples of the inputs that satisfy the path condition so far
        self.numfn = {}  # variable index -> function giving its values at the points
        self.numcache = {}
        self.numexpr = {}
        self.alive = np.ones(NPOINTS, dtype=bool)
        self.conds = []  # (z3 term, polynomial or None, truth)
        self.inp = {}  # name -> [kind, lo, hi, values]
        self.stale = len(prefix) > 0
        self.spreads = 0
        self.last = getattr(prefix, "point", None)
        self.factors = {}  # key of a monic polynomial -> (factor, factor, scale)
        self.defs = {}  # constraint id -> names of the defined variables
        self.ivcache = {}

    def fresh_name(self, base):
        self.counter += 1
        return f"{base}!{self.counter}"

    def var(self, name, term=None, isint=False, lo=None, hi=None, lo_open=False, hi_open=False,
            num=None):
        """new variable"""
        i = len(self.vars)
        if num is not None:
            self.numfn[i] = num
        if term is None:
            term = z3.Real(name)
        self.vars.append((name, term, isint))
        self.vidx[name] = i
        self.bounds.append((lo, lo_open, hi, hi_open))
        return Sym(p={((i, 1),): QQ(1)})

    def vname(self, s):
        (m,) = s.p
        return self.vars[m[0][0]][0]

    def fresh_real(self, base="r", **kw):
        return self.var(self.fresh_name(base), **kw)

    def fresh_int(self, base="k", **kw):
        """integer-valued symbol, represented as real term ToReal(Int)"""
        n = self.fresh_name(base)
        self.intvars.add(n)
        return self.var(n, z3.ToReal(z3.Int(n)), True, **kw)

    # -- witness points
    def nvar(self, i):
        r = self.numcache.get(i)
        if r is None:
            f = self.numfn.get(i)
            r = NANS if f is None else f()
            self.numcache[i] = r
        return r

    def num(self, s):
        """values of a polynomial at the witness points"""
        if not isinstance(s, Sym):
            return np.full(NPOINTS, float(s))
        out = np.zeros(NPOINTS)
        for m, k in s.p.items():
            t = float(k)
            for i, n in m:
                v = self.nvar(i)
                t = t * (v if n == 1 else v**n)
            out = out + t
        return out

    def numscale(self, s):
        out = np.zeros(NPOINTS)
        for m, k in s.p.items():
            t = abs(float(k))
            for i, n in m:
                t = t * np.abs(self.nvar(i)) ** n
            out = out + t
        return out

    def _truth(self, e, d=None):
        """(surely true, surely false) at the witness points"""
        if d is not None and len(d.p) <= 400:
            v = self.num(d)
            eps = 1e-10 * self.numscale(d)
            k = e.decl().kind()
            if k == z3.Z3_OP_LT or k == z3.Z3_OP_LE:
                return v < -eps, v > eps
            if k == z3.Z3_OP_EQ:
                return np.abs(v) <= eps * 1e-3, np.abs(v) > eps
            if k == z3.Z3_OP_NOT:
                return np.abs(v) > eps, np.abs(v) <= eps * 1e-3
        return self._texpr(e)

    def _texpr(self, e):
        key = e.get_id()
        r = self.numexpr.get(key)
        if r is not None:
            return r[0]
        k = e.decl().kind()
        if k == z3.Z3_OP_TRUE:
            r = (~NOT, NOT)
        elif k == z3.Z3_OP_FALSE:
            r = (NOT, ~NOT)
        elif k == z3.Z3_OP_NOT:
            t, f = self._texpr(e.arg(0))
            r = (f, t)
        elif k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            ts = [self._texpr(c) for c in e.children()]
            a = np.array([t[0] for t in ts])
            b = np.array([t[1] for t in ts])
            if k == z3.Z3_OP_AND:
                r = (a.all(axis=0), b.any(axis=0))
            else:
                r = (a.any(axis=0), b.all(axis=0))
        elif k == z3.Z3_OP_UNINTERPRETED and z3.is_bool(e):
            t = self.inp.get(e.decl().name())
            r = (NOT, NOT) if t is None else (t[3], ~t[3])
        elif k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or (
                k == z3.Z3_OP_EQ and not z3.is_bool(e.arg(0))):
            (a, sa), (b, sb) = self._nexpr(e.arg(0)), self._nexpr(e.arg(1))
            d = a - b
            eps = 1e-10 * (sa + sb)
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
                r = (d < -eps, d > eps)
            elif k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                r = (d > eps, d < -eps)
            else:
                r = (np.abs(d) <= eps * 1e-3, np.abs(d) > eps)
        elif k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            (a, na), (b, nb) = self._texpr(e.arg(0)), self._texpr(e.arg(1))
            r = ((a & b) | (na & nb), (a & nb) | (na & b))
        elif k == z3.Z3_OP_IMPLIES:
            (a, na), (b, nb) = self._texpr(e.arg(0)), self._texpr(e.arg(1))
            r = (na | b, a & nb)
        else:
            r = (NOT, NOT)
        self.numexpr[key] = (r, e)
        return r

    def _nexpr(self, e):
        """(value, magnitude) of a real term at the witness points"""
        key = e.get_id()
        r = self.numexpr.get(key)
        if r is not None:
            return r[0]
        k = e.decl().kind()
        if z3.is_rational_value(e) or z3.is_int_value(e):
            v = np.full(NPOINTS, float(Fraction(str(e))))
            r = (v, np.abs(v))
        elif k == z3.Z3_OP_TO_REAL:
            r = self._nexpr(e.arg(0))
        elif k == z3.Z3_OP_UNINTERPRETED:
            i = self.vidx.get(e.decl().name())
            v = NANS if i is None else self.nvar(i)
            r = (v, np.abs(v))
        elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            cs = [self._nexpr(c) for c in e.children()]
            v, m = cs[0]
            for a, b in cs[1:]:
                v = v + a if k == z3.Z3_OP_ADD else v - a
                m = m + b
            r = (v, m)
        elif k == z3.Z3_OP_MUL:
            v, m = 1.0, 1.0
            for c in e.children():
                a, b = self._nexpr(c)
                v, m = v * a, m * b
            r = (v, m)
        elif k == z3.Z3_OP_UMINUS:
            a, m = self._nexpr(e.arg(0))
            r = (-a, m)
        elif k == z3.Z3_OP_DIV:
            (a, m), (b, _) = self._nexpr(e.arg(0)), self._nexpr(e.arg(1))
            r = (a / b, np.abs(m / b))
        elif k == z3.Z3_OP_POWER:
            (a, m), (b, _) = self._nexpr(e.arg(0)), self._nexpr(e.arg(1))
            r = (a**b, m**b)
        elif k == z3.Z3_OP_ITE:
            t, f = self._texpr(e.arg(0))
            (a, m), (b, n) = self._nexpr(e.arg(1)), self._nexpr(e.arg(2))
            r = (np.where(t, a, np.where(f, b, np.nan)), np.where(t, m, n))
        else:
            r = (NANS, NANS)
        self.numexpr[key] = (r, e)
        return r

    def add_input(self, name, kind, lo=None, hi=None):
        """declare an input; returns the function that gives its witness values"""
        import zlib

        rng = np.random.default_rng([self.seed, zlib.crc32(name.encode())])
        self.inp[name] = [kind, lo, hi, _prior(rng, kind, lo, hi)]
        return lambda: self.inp[name][3]

    def _row(self, i):
        return {n: t[3][i] for n, t in self.inp.items()}

    def _set_row(self, row):
        for n, t in self.inp.items():
            if n in row:
                t[3] = np.full(NPOINTS, row[n], dtype=t[3].dtype)
        self._eval_conds()

    def _near(self, row, e, d):
        """does the condition hold at a solver model, evaluated with the real functions"""
        if row is None:
            return True
        keep = ({n: t[3] for n, t in self.inp.items()}, self.numcache, self.numexpr)
        self.numcache, self.numexpr = {}, {}
        try:
            for n, t in self.inp.items():
                if n in row:
                    t[3] = np.full(NPOINTS, row[n], dtype=t[3].dtype)
            with np.errstate(all="ignore"):
                if d is not None and len(d.p) <= 400:
                    v, sc = self.num(d)[0], self.numscale(d)[0]
                    if e.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_NOT):
                        return not abs(v) > 1e-6 * sc
                    return not v > 1e-6 * sc
                return not self._texpr(e)[1][0]
        finally:
            for n, t in self.inp.items():
                t[3] = keep[0][n]
            self.numcache, self.numexpr = keep[1], keep[2]

    def _eval_conds(self):
        self.numcache = {}
        self.numexpr = {}
        self.alive = np.ones(NPOINTS, dtype=bool)
        with np.errstate(all="ignore"):
            for e, d, v in self.conds:
                t, f = self._truth(e, d)
                self.alive &= t if v else f
                if not self.alive.any():
                    return

    def sync(self):
        """bring the witness points up to date with the path condition"""
        if self.stale:
            self.stale = False
            pt = getattr(self.prefix, "point", None)
            if pt is not None:
                self._set_row(pt)
            else:
                self._eval_conds()
            self._spread()

    def _spread(self):
        """more witness points from the few that are left"""
        for k in range(2):
            idx = np.flatnonzero(self.alive)
            if len(idx) == 0 or len(idx) >= NPOINTS // 4 or not self.inp:
                return
            self.spreads += 1
            rng = np.random.default_rng([self.seed, self.spreads, len(self.conds)])
            n = NPOINTS - len(idx)
            rows = np.concatenate([idx, rng.choice(idx, n)])
            m = len(self.inp)
            pr = max(0.1, 1.5 / m)
            for t in self.inp.values():
                kind, lo, hi, x = t
                x = x[rows]
                new = _prior(rng, kind, lo, hi)
                if kind in ("bool", "int"):
                    take = rng.random(NPOINTS) < pr
                else:
                    q = rng.random(NPOINTS)
                    w = (1.0 if lo is None or hi is None else 0.1 * (float(hi) - float(lo)))
                    loc = x + rng.normal(size=NPOINTS) * 10 ** rng.uniform(-6, 0, NPOINTS) * (np.abs(x) + w)
                    if lo is not None:
                        loc = np.maximum(loc, float(lo))
                    if hi is not None:
                        loc = np.minimum(loc, float(hi))
                    new = np.where(q < 0.5, new, loc)
                    take = rng.random(NPOINTS) < pr
                take[: len(idx)] = False
                t[3] = np.where(take, new, x)
            self._eval_conds()

    def narrow(self, e, d, v):
        """the points that do not satisfy a new condition are dropped"""
        self.conds.append((e, d, v))
        if self.pos < len(self.prefix):
            self.stale = True
            return
        if self.stale:
            self.sync()
            return
        if not self.alive.any():
            return
        with np.errstate(all="ignore"):
            t, f = self._truth(e, d)
        new = self.alive & (t if v else f)
        if not new.any():
            self.last = self._row(int(np.flatnonzero(self.alive)[0]))
        self.alive = new
        self._spread()

    def _model_row(self, m):
        """inputs of a (partial) model, completed by the last witness"""
        row = dict(self.last or {})
        row.update(self.modeller(m))
        return row

    def witnesses(self):
        """input values that satisfy the path condition, as far as known"""
        self.sync()
        return [self._row(int(i)) for i in np.flatnonzero(self.alive)]

    def set_bounds(self, s, lo, hi, lo_open=False, hi_open=False):
        """tighten the interval of a variable (the facts must hold on the path)"""
        (m,) = s.p
        self._tighten(m[0][0], lo, lo_open, hi, hi_open)

    def _tighten(self, i, lo, lop, hi, hop):
        a, ao, b, bo = self.bounds[i]
        if lo is not None and (a is None or lo > a or (lo == a and lop)):
            a, ao = to_frac(lo), lop
        if hi is not None and (b is None or hi < b or (hi == b and hop)):
            b, bo = to_frac(hi), hop
        self.bounds[i] = (a, ao, b, bo)
        self.ivcache.clear()

    def interval(self, s):
        """(lo, lo_open, hi, hi_open) of a polynomial, from the variable bounds"""
        p = s.p
        if len(p) > 1 and self.factors:
            k, l = mono_key(p)
            f = self.factors.get(k)
            if f is not None:
                # s = l/f2 f0 f1
                r = self._interval(p)
                a = self.interval(f[0])
                q = _iv_pow(a, 2) if f[0].p == f[1].p else _iv_mul(a, self.interval(f[1]))
                q = _iv_mul(q, (l / f[2], False, l / f[2], False))
                lo, lop, hi, hop = r
                if q[0] is not None and (lo is None or q[0] > lo):
                    lo, lop = q[:2]
                if q[2] is not None and (hi is None or q[2] < hi):
                    hi, hop = q[2:]
                return lo, lop, hi, hop
        return self._interval(p)

    def _interval(self, p):
        if len(p) > 60:
            return None, False, None, False
        lo, lop, hi, hop = QQ(0), False, QQ(0), False
        for m, k in p.items():
            a, ao, b, bo = self._mono_iv(m)
            if k < 0:
                a, ao, b, bo = b, bo, a, ao
            if a is None:
                lo = None
            elif lo is not None:
                lo += k * a
                lop = lop or ao
            if b is None:
                hi = None
            elif hi is not None:
                hi += k * b
                hop = hop or bo
            if lo is None and hi is None:
                return None, False, None, False
        return lo, lop, hi, hop

    def _mono_iv(self, m):
        r = self.ivcache.get(m)
        if r is not None:
            return r
        cur = (QQ(1), False, QQ(1), False)
        for i, n in m:
            cur = _iv_mul(cur, _iv_pow(self.bounds[i], n))
        self.ivcache[m] = cur
        return cur

    def axiom(self, e, defs=()):
        """add a constraint; `defs`: variables it defines (dropped if not needed)"""
        if isinstance(e, SymBool):
            self._learn(e)
            e = e.e
        if isinstance(e, bool):
            if not e:
                raise PathAbort()
            return
        i = e.get_id()
        if i in self.pcset:
            return
        self.pcset.add(i)
        self.pc.append(e)
        if defs:
            self.defs[i] = defs

    def _learn(self, sb, neg=False):
        """variable bounds from a linear constraint in one variable"""
        d = sb.d
        if d is None or len(d.p) > 2:
            return
        ms = [m for m in d.p if m != ()]
        if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1:
            return
        i = ms[0][0][0]
        k = d.p[ms[0]]
        v = -d.p.get((), QQ(0)) / k
        kind = sb.e.decl().kind()
        if kind == z3.Z3_OP_LT:
            strict = True
        elif kind == z3.Z3_OP_LE:
            strict = False
        elif kind == z3.Z3_OP_EQ and not neg:
            self._tighten(i, v, False, v, False)
            return
        else:
            return
        up = k > 0
        if neg:
            up, strict = not up, not strict
        if up:
            self._tighten(i, None, False, v, strict)
        else:
            self._tighten(i, v, strict, None, False)

    def assume(self, cond):
        if isinstance(cond, SymBool):
            s = z3.simplify(cond.e)
            if z3.is_true(s):
                return
            if z3.is_false(s):
                raise PathAbort()
            self.axiom(cond)
            self.narrow(cond.e, cond.d, True)
            if self.pos >= len(self.prefix):
                self.sync()
                if not self.alive.any():
                    r, pt = self.feasible([])
                    if r == z3.unsat:
                        raise PathAbort()
                    if pt is not None:
                        self._set_row(pt)
                        self._spread()
        elif not cond:
            raise PathAbort()

    # -- derived values
    def define(self, term, key, num=None):
        """name for a value whose polynomial is too large"""
        if key in self.memo:
            return self.memo[key]
        t = self.fresh_real("t", num=num)
        self.axiom(t.e == term, defs=(self.vname(t),))
        self.memo[key] = t
        return t

    def add_rule(self, lm, repl):
        self.rules.setdefault(lm[0][0], []).append((lm, repl))

    def absval(self, x):
        """|x| without a case split"""
        lo, _, hi, _ = self.interval(x)
        if lo is not None and lo >= 0:
            return x
        if hi is not None and hi <= 0:
            return -x
        lead = x.p[max(x.p)]
        if lead < 0:
            x = -x
            lead = -lead
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        if lead != 1:
            return Sym(c=lead) * self.absval(Sym(p={m: k / lead for m, k in x.p.items()}))
        key = ("abs", x.key)
        if key in self.memo:
            return self.memo[key]
        mx = None
        if lo is not None and hi is not None:
            mx = max(abs(lo), abs(hi))
        t = self.fresh_real("abs", lo=QQ(0), hi=mx, num=lambda: np.abs(self.num(x)))
        n = self.vname(t)
        self.axiom(z3.And(t.e >= 0, z3.Or(z3.And(t.e == x.e, x.e >= 0), z3.And(t.e == -x.e, x.e <= 0))),
                   defs=(n,))
        sq = poly_reduce(poly_mul_raw(x.p, x.p)) if len(x.p) <= 8 else None
        if sq is not None and len(sq) <= 40:
            self.add_rule(((self.vidx[n], 2),), sq)
        self.memo[key] = t
        return t

    def inverse(self, b):
        """1 / b, for b != 0 on this path"""
        c = b.c
        if c is not None:
            return Sym(c=1 / c)
        lead = b.p[max(b.p)]
        if lead != 1:
            return Sym(c=1 / lead) * self.inverse(Sym(p={m: k / lead for m, k in b.p.items()}))
        key = ("inv", b.key)
        if key in self.memo:
            return self.memo[key]
        f = self.factors.get(key[1])
        if f is not None:
            # b = f0 f1 / l
            r = Sym(c=f[2]) * (self.inverse(f[0]) * self.inverse(f[1]))
        else:
            self.invdepth += 1
            try:
                r = self._inverse(b)
            finally:
                self.invdepth -= 1
        self.memo[key] = r
        return r

    def _inverse(self, b):
        ms = list(b.p)
        # common monomial factor
        com = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            com = {i: min(n, d[i]) for i, n in com.items() if i in d}
        if com and not (len(ms) == 1 and len(com) == 1 and list(com.values()) == [1]):
            r = Sym(c=QQ(1))
            for i, n in com.items():
                f = self.inverse(Sym(p={((i, 1),): QQ(1)}))
                for _ in range(n):
                    r = r * f
            mm = tuple(sorted(com.items(), reverse=True))
            rest = {mono_div(m, mm): k for m, k in b.p.items()}
            return r * self.inverse(Sym(p=rest))
        if len(ms) == 1:
            i = ms[0][0][0]
            if i in self.invof:
                return self.invof[i]
            if i in self.rootof:
                q, y = self.rootof[i]
                return Sym(p={((i, q - 1),): QQ(1)}) * self.inverse(y)
        else:
            # clear inverses
            ivs = {}
            for m in ms:
                for i, n in m:
                    if i in self.invof:
                        ivs[i] = max(n, ivs.get(i, 0))
            if ivs and len(b.p) <= 30 and self.invdepth < 12:
                i = max(ivs)
                f = self.invof[i]
                num = Sym(c=QQ(1))
                for _ in range(ivs[i]):
                    num = num * f
                if len(num.p) * len(b.p) <= 300:
                    den = sym_mul(b, num)
                    if not any(x == i for m in den.p for x, _ in m):
                        return num * self.inverse(den)
            # known factors
            for i, f in list(self.invof.items()):
                if 1 < len(f.p) <= 12 and f.p != b.p:
                    q = poly_divexact(b.p, f.p)
                    if q is not None:
                        return Sym(p={((i, 1),): QQ(1)}) * self.inverse(Sym(p=q))
        lo, lop, hi, hop = self.interval(b)
        kw = {}
        if lo is not None and (lo > 0 or (lo == 0 and lop)):
            kw = dict(lo=QQ(0) if hi is None else 1 / hi, lo_open=hi is None or hop)
            if lo > 0:
                kw.update(hi=1 / lo, hi_open=lop)
        elif hi is not None and (hi < 0 or (hi == 0 and hop)):
            kw = dict(hi=QQ(0) if lo is None else 1 / lo, hi_open=lo is None or lop)
            if hi < 0:
                kw.update(lo=1 / hi, lo_open=hop)
        q = self.fresh_real("q", num=lambda: 1 / self.num(b), **kw)
        n = self.vname(q)
        i = self.vidx[n]
        self.axiom(q.e * b.e == 1, defs=(n,))
        if kw:
            self.axiom(q.e > 0 if kw.get("lo", -1) >= 0 and "lo" in kw else q.e < 0, defs=(n,))
        self.invof[i] = b
        lm = max(b.p)
        if len(b.p) <= 12:
            repl = {(): QQ(1)}
            qm = ((i, 1),)
            for m, k in b.p.items():
                if m != lm:
                    repl[mono_mul(qm, m)] = -k
            self.add_rule(mono_mul(qm, lm), repl)
        return q

    # -- solving
    def _slice(self, es, level=None):
        """constraints that matter for the given ones; with a level, definitions
        are unfolded only that deep (a relaxation, enough if already unsat)"""
        want = set()
        for e in es:
            want |= expr_vars(e)
        # definitions are conservative extensions: only needed for wanted variables
        items = []
        for p in self.pc:
            r = self.pcinfo.get(p.get_id())
            if r is None:
                r = self.pcinfo[p.get_id()] = (expr_vars(p), self.defs.get(p.get_id()))
            items.append((p, r[0], r[1]))
        used = [False] * len(items)
        changed = True
        n = 0
        while changed and (level is None or n < level):
            changed = False
            n += 1
            new = set()
            for i, (p, vs, df) in enumerate(items):
                if used[i]:
                    continue
                if (all(v in want for v in df) if df else (vs & want or not vs)):
                    used[i] = True
                    if not vs <= want:
                        new |= vs
                        changed = True
            want |= new
        if level is not None:
            # single-variable facts about what has been reached
            for i, (p, vs, df) in enumerate(items):
                if not used[i] and vs <= want:
                    used[i] = True
        return [t[0] for u, t in zip(used, items) if u]

    def check(self, extra, full=False, ms=None, model=False):
        """sat check of the path condition plus extra"""
        cons = list(self.pc) if full or not extra else self._slice(extra)
        key = None
        if not model:
            key = (frozenset(c.get_id() for c in cons), tuple(e.get_id() for e in extra))
            r = self.cache.get(key)
            if r is not None:
                return r[0]
        res, m = self.solve(cons + list(extra), ms or self.branch_ms)
        if key is not None:
            self.cache[key] = (res, cons, list(extra))
        if model:
            return res, m
        return res

    def solve(self, cons, ms):
        t0 = time.time()
        self.stats.queries += 1
        res, m = z3.unknown, None
        hasint = any(self._has_int(c) for c in cons)
        left = max(int((self.deadline - t0) * 1000), 1)
        ms = min(ms, left)
        try:
            if not hasint:
                s = z3.SolverFor("QF_NRA")
                s.set("timeout", ms)
                s.add(*cons)
                res = s.check()
                if res == z3.sat:
                    m = s.model()
            if res == z3.unknown:
                s = z3.Solver()
                s.set("timeout", ms)
                s.set("random_seed", self.seed)
                s.add(*cons)
                res = s.check()
                if res == z3.sat:
                    m = s.model()
        except z3.Z3Exception as exc:
            raise Unsupported(f"z3: {exc}")
        dt = time.time() - t0
        self.stats.solver_s += dt
        if _DEBUG and dt > 1:
            import sys
            import traceback

            print(f"--- slow query {dt:.1f}s {res}, {len(cons)} constraints", file=sys.stderr)
            for c in cons:
                print("    ", str(c).replace("\n", " ")[:400], file=sys.stderr)
            fr = traceback.extract_stack(limit=14)[:-2]
            print("   at", " <- ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in reversed(fr)), file=sys.stderr)
        if res == z3.unsat:
            self.stats.unsat += 1
        elif res == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unknown += 1
        return res, m

    def check_alt(self, extra):
        """second opinion with the general solver on the sliced query"""
        cons = self._slice(extra)
        t0 = time.time()
        ms = min(self.prove_ms, max(int((self.deadline - t0) * 1000), 1))
        self.stats.queries += 1
        s = z3.Solver()
        s.set("timeout", ms)
        s.set("random_seed", self.seed + 7)
        s.add(*cons)
        s.add(*extra)
        r = s.check()
        self.stats.solver_s += time.time() - t0
        if r == z3.unsat:
            self.stats.unsat += 1
        elif r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unknown += 1
        return r

    def _has_int(self, e):
        return bool(expr_vars(e) & self.intvars)

    # -- decisions
    def feasible(self, extra):
        """(result, input values if a model was found) for a branch"""
        cons = self._slice(extra) if extra else list(self.pc)
        key = (frozenset(c.get_id() for c in cons), tuple(e.get_id() for e in extra))
        r = self.cache.get(key)
        if r is not None:
            return r[0], r[3] if len(r) > 3 else None
        res, m = self.solve(cons + list(extra), self.branch_ms)
        pt = None
        if res == z3.sat and self.modeller is not None:
            pt = self._model_row(m)
        self.cache[key] = (res, cons, list(extra), pt)
        return res, pt

    def decide(self, e, d=None):
        if time.time() > self.deadline:
            raise BudgetExceeded("time budget")
        e0 = e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = ("dec", e.get_id())
        if key in self.memo:
            return self.memo[key]
        self.keep.append(e)
        if self.pos < len(self.prefix):
            v, forced = self.prefix[self.pos]
            self.pos += 1
        else:
            ne = z3.Not(e)
            self.sync()
            with np.errstate(all="ignore"):
                t, f = self._truth(e0, d)
            wt, wf = np.flatnonzero(self.alive & t), np.flatnonzero(self.alive & f)
            self.stats.witnessed += (len(wt) > 0) + (len(wf) > 0)
            ft, ff = len(wt) > 0, len(wf) > 0
            pt = None
            kind = e0.decl().kind()
            skip_t = self.skip_unknown or self.in_domain or kind == z3.Z3_OP_EQ
            skip_f = self.skip_unknown or kind == z3.Z3_OP_NOT and e0.arg(0).decl().kind() == z3.Z3_OP_EQ
            skipped = False
            if not ft:
                r, pt = self.feasible([e])
                ft = r != z3.unsat
                if r == z3.sat and skip_t and self.atoms and not self._near(pt, e0, d):
                    r = z3.unknown
                if r == z3.unknown and skip_t and (ff or self.in_domain or kind == z3.Z3_OP_EQ):
                    # a coincidence (or a value outside of the domain of a function)
                    # that was neither found nor excluded
                    ft, skipped = False, True
            if not ft:
                v, forced = False, not skipped
            else:
                pf = None
                if not ff:
                    r, pf = self.feasible([ne])
                    ff = r != z3.unsat
                    if r == z3.unknown and skip_f and len(wt):
                        ff, skipped = False, True
                if not ff:
                    v, forced = True, not skipped
                else:
                    v, forced = True, False
                    alt = Prefix(self.trace + [(False, False)])
                    alt.point = self._row(int(wf[0])) if len(wf) else pf
                    self.stack.append(alt)
            self.stats.skipped += skipped
            if v and pt is not None and not len(wt):
                self._set_row(pt)
            self.pos += 1
        self.trace.append((v, forced))
        self.decisions_total += 1
        self.memo[key] = v
        ne = z3.simplify(z3.Not(e))
        self.keep.append(ne)
        self.memo[("dec", ne.get_id())] = not v
        if not forced:
            self.axiom(e if v else z3.Not(e))
            self.narrow(e0, d, v)
        return v

    def domain(self, cond):
        """truth of a condition that says an argument is outside of a function's domain"""
        if not isinstance(cond, SymBool):
            return bool(cond)
        self.in_domain = True
        try:
            return bool(cond)
        finally:
            self.in_domain = False

    def decide_sb(self, sb):
        v = self.decide(sb.e, sb.d)
        self._learn(sb, neg=not v)
        return v

    def concretize_int(self, s, trunc):
        """python int for a symbolic value, by forking over its feasible values"""
        if s.c is not None:
            v = s.c
            if v.denominator != 1:
                if not trunc:
                    raise TypeError("non-integer index")
                return math.trunc(v)
            return int(v)
        if not s.isint:
            # truncation towards zero
            fl = sym_divmod(s, Sym.const(1))[0]
            if bool(s >= 0):
                return self.concretize_int(fl, trunc)
            return self.concretize_int(-sym_divmod(-s, Sym.const(1))[0], trunc)
        for _ in range(64):
            # candidate value: smallest untested feasible one found by the solver;
            # its choice only affects the order of exploration, but it must be
            # deterministic on re-execution, hence it is stored in the trace
            if self.pos < len(self.prefix):
                tag = self.prefix[self.pos]
                v = tag[2]
                take = tag[0]
                self.pos += 1
                self.trace.append(tag)
            else:
                res, m = self.check([], full=True, model=True)
                if res != z3.sat:
                    raise Inconclusive("cannot concretize an integer")
                v = m.eval(s.e, model_completion=True)
                v = int(str(z3.simplify(v)).split("/")[0])
                other = self.check([s.e != v]) != z3.unsat
                if other:
                    alt = Prefix(self.trace + [(False, False, v)])
                    self.sync()
                    w = np.flatnonzero(self.alive & self._truth(s.e == v)[1])
                    alt.point = self._row(int(w[0])) if len(w) else None
                    self.stack.append(alt)
                take = True
                self.pos += 1
                self.trace.append((True, False, v))
            self.decisions_total += 1
            if take:
                self.axiom(s.e == v)
                self.narrow(s.e == v, None, True)
                return v
            self.axiom(s.e != v)
            self.narrow(s.e == v, None, False)
            if self.pos >= len(self.prefix) and self.check([]) == z3.unsat:
                raise PathAbort()
        raise BudgetExceeded("integer with too many values")

    # -- proving
    def prove(self, e):
        """(True, None) if e holds on this path; (False, model) with a full model"""
        if isinstance(e, SymBool):
            e = e.e
        if isinstance(e, bool):
            if e:
                self.stats.trivial += 1
                return True, None
            res, m = self.check([], full=True, model=True, ms=self.prove_ms)
            if res == z3.unsat:
                return True, None
            if res == z3.unknown:
                raise Inconclusive("no model for a failing path")
            return False, m
        s = z3.simplify(e)
        if z3.is_true(s):
            self.stats.trivial += 1
            return True, None
        ne = z3.simplify(z3.Not(s))
        r = self.check([ne], ms=self.prove_ms)
        if r == z3.unsat:
            return True, None
        res, m = self.check([ne], full=True, model=True, ms=self.prove_ms)
        if res == z3.unsat:
            return True, None
        if res == z3.sat:
            return False, m
        raise Inconclusive("solver answered unknown on an obligation")
