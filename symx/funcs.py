"""Elementary functions on symbolic reals: fresh value plus defining/bounding axioms."""

import math

import numpy as np
from fractions import Fraction

from . import z3
from .sym import (
    mono_key,
    Sym, SymBool, Unsupported, explorer, to_frac, QQ, NAN, INF, sym_divmod, _isnum,
    frac_root, poly_sqrt, mono_div,
)

PI = to_frac(math.pi)
MAXPAIR = 14


def _co(x):
    s = Sym.coerce(x)
    if s is None:
        raise Unsupported(f"not a number: {type(x).__name__}")
    return s


def _key(s):
    return s.key


def _atom(fname, x, mono=None, **kw):
    """fresh value of f(x), with congruence/monotonicity axioms against earlier atoms"""
    ex = explorer()
    key = ("atom", fname, _key(x))
    if key in ex.memo:
        return ex.memo[key], False
    v = ex.fresh_real(fname, num=lambda: numfunc(fname, ex.num(x)), **kw)
    n = ex.vname(v)
    prev = [(a, w) for f, a, w in ex.atoms if f == fname]
    for a, w in prev[-MAXPAIR:]:
        d = (n, ex.vname(w))
        if mono is None:
            ex.axiom(z3.Implies(a.e == x.e, w.e == v.e), defs=d)
        elif mono > 0:
            ex.axiom(z3.And(
                z3.Implies(a.e < x.e, w.e < v.e), z3.Implies(a.e == x.e, w.e == v.e),
                z3.Implies(a.e > x.e, w.e > v.e)), defs=d)
        else:
            ex.axiom(z3.And(
                z3.Implies(a.e < x.e, w.e > v.e), z3.Implies(a.e == x.e, w.e == v.e),
                z3.Implies(a.e > x.e, w.e < v.e)), defs=d)
    ex.atoms.append((fname, x, v))
    for f in ex.extra:
        f(ex, fname, x, v)
    ex.memo[key] = v
    return v, True


def _ax(v, e):
    ex = explorer()
    ex.axiom(e, defs=(ex.vname(v),))


# ------------------------------------------------------------------ roots, powers


def root(x, q):
    """non-negative q-th root, x >= 0 required on this path"""
    c = x.c
    if c is not None:
        if c == 0 or c == 1:
            return x
        f = frac_root(c, q)
        if f is not None:
            return Sym(c=f)
        # other constants: rounded, so that they stay numbers
        return Sym.const(float(c) ** (1.0 / q))
    ex = explorer()
    key = ("root", q, x.key)
    if key in ex.memo:
        return ex.memo[key]
    r = None
    if q == 2:
        s = poly_sqrt(x.p)
        if s is not None:
            r = abs(Sym(p=s))
        elif ex.factors:
            k, l = mono_key(x.p)
            f = ex.factors.get(k)
            if f is not None and f[0].p == f[1].p:
                g = frac_root(l / f[2], 2)
                if g is not None:
                    r = Sym(c=g) * abs(f[0])
    if r is None:
        r = _root(x, q)
    ex.memo[key] = r
    return r


def _root(x, q):
    ex = explorer()
    # pull out q-th powers of non-negative variables, and positive numbers
    ms = list(x.p)
    com = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        com = {i: min(n, d[i]) for i, n in com.items() if i in d}
    out = {}
    for i, n in com.items():
        lo = ex.bounds[i][0]
        if n >= q and lo is not None and lo >= 0:
            out[i] = n // q
    lead = x.p[max(x.p)]
    f = frac_root(abs(lead), q)
    if f is None or f == 1:
        f = None
    if out or f is not None:
        mm = tuple(sorted(((i, n * q) for i, n in out.items()), reverse=True))
        k = QQ(1) if f is None else abs(lead)
        y = Sym(p={mono_div(m, mm): v / k for m, v in x.p.items()})
        r = root(y, q)
        r = r * Sym(p={tuple(sorted(out.items(), reverse=True)): QQ(1) if f is None else f})
        return r
    lo, lop, hi, hop = ex.interval(x)
    kw = dict(lo=QQ(0))
    if lo is not None and (lo > 0 or (lo == 0 and lop)):
        b = to_frac(float(lo) ** (1.0 / q) * (1 - 1e-9)) if lo > 0 else QQ(0)
        kw = dict(lo=b, lo_open=True)
    if hi is not None and hi >= 0:
        kw.update(hi=to_frac(float(hi) ** (1.0 / q) * (1 + 1e-9) + 1e-12))
    v, new = _atom(f"root{q}", x, **kw)
    n = ex.vname(v)
    pw = v.e
    for _ in range(q - 1):
        pw = pw * v.e
    ex.axiom(z3.And(v.e >= 0, pw == x.e), defs=(n,))
    if len(x.p) <= 16:
        i = ex.vidx[n]
        ex.add_rule(((i, q),), x.p)
        ex.rootof[i] = (q, x)
    return v


def sqrt(x):
    x = _co(x)
    if isinstance(x, float):
        return INF if x == INF else NAN
    if explorer().domain(x < 0):
        return NAN
    return root(x, 2)


def cbrt(x):
    x = _co(x)
    if isinstance(x, float):
        return x
    if x < 0:
        return -root(-x, 3)
    return root(x, 3)


def intpow(x, n):
    if n == 0:
        return Sym.const(1)
    r = x
    for _ in range(n - 1):
        r = r * x
    return r


def power(x, y):
    x, y = _co(x), _co(y)
    if isinstance(y, float):
        if math.isnan(y):
            return NAN
        raise Unsupported("power with infinite exponent")
    if isinstance(x, float):
        if y.c is not None and y.c == 0:
            return Sym.const(1)
        if math.isnan(x):
            return NAN
        if y.c is None:
            raise Unsupported("inf to a symbolic power")
        if y.c < 0:
            return Sym.const(0)
        if x < 0:
            raise Unsupported("power of -inf")
        return x
    if y.c is None:
        return pow2(x, y)
    c = y.c
    if x.c is not None and c.denominator == 1:
        if c < 0 and x.c == 0:
            return INF
        return Sym(c=x.c ** int(c))
    if c.denominator == 1:
        n = int(c)
        if abs(n) <= 12:
            if n >= 0:
                return intpow(x, n)
            return Sym.const(1) / intpow(x, -n)
    # fractional exponents
    if explorer().domain(x < 0):
        return NAN
    f = Fraction(float(c)).limit_denominator(6)
    if abs(float(f) - float(c)) < 1e-12 and f.denominator <= 6 and abs(f.numerator) <= 6:
        r = root(x, f.denominator)
        if f.numerator < 0:
            if x == 0:
                return INF
            return Sym.const(1) / intpow(r, -f.numerator)
        return intpow(r, f.numerator)
    if x == 0:
        return Sym.const(0) if c > 0 else INF
    if x.c is not None:
        return Sym.const(float(x.c) ** float(c))
    v, new = _atom(f"pow[{float(c)!r}]", x, mono=1 if c > 0 else -1, lo=QQ(0), lo_open=True)
    if new:
        if c > 0:
            ax = [v.e > 0, (x.e >= 1) == (v.e >= 1), (x.e <= 1) == (v.e <= 1)]
            if c > 1:
                # convexity: above the tangent at 1
                ax.append(v.e >= 1 + z3.Q(c.numerator, c.denominator) * (x.e - 1))
            else:
                ax.append(v.e <= 1 + z3.Q(c.numerator, c.denominator) * (x.e - 1))
        else:
            ax = [v.e > 0, (x.e >= 1) == (v.e <= 1), (x.e <= 1) == (v.e >= 1)]
        _ax(v, z3.And(*ax))
    return v


def pow2(x, y):
    """x ** y with symbolic exponent, x > 0 (else case split)"""
    ex = explorer()
    if y == 0:
        return Sym.const(1)
    if x < 0:
        return NAN
    if x == 0:
        return Sym.const(0) if y > 0 else INF
    if x.c is not None and x.c == 1:
        return Sym.const(1)
    key = ("pow2", _key(x), _key(y))
    if key in ex.memo:
        return ex.memo[key]
    v = ex.fresh_real("powxy", lo=QQ(0), lo_open=True, num=lambda: ex.num(x) ** ex.num(y))
    _ax(v, v.e > 0)
    _ax(v, z3.And(
        z3.Implies(z3.And(x.e >= 1, y.e >= 0), v.e >= 1),
        z3.Implies(z3.And(x.e <= 1, y.e >= 0), v.e <= 1),
        z3.Implies(z3.And(x.e >= 1, y.e <= 0), v.e <= 1),
        z3.Implies(z3.And(x.e <= 1, y.e <= 0), v.e >= 1),
        z3.Implies(x.e == 1, v.e == 1),
        z3.Implies(y.e == 1, v.e == x.e),
    ))
    for (x2, y2, v2) in [t[1:] for t in ex.atoms2]:
        # congruence, and monotonicity in the base for equal exponents
        d = (ex.vname(v), ex.vname(v2))
        ex.axiom(z3.Implies(z3.And(x.e == x2.e, y.e == y2.e), v.e == v2.e), defs=d)
        ex.axiom(z3.Implies(z3.And(y.e == y2.e, y.e > 0, x.e < x2.e), v.e < v2.e), defs=d)
        ex.axiom(z3.Implies(z3.And(y.e == y2.e, y.e > 0, x.e > x2.e), v.e > v2.e), defs=d)
    ex.atoms2.append(("pow2", x, y, v))
    for f in ex.extra2:
        f(ex, x, y, v)
    ex.memo[key] = v
    return v


# ------------------------------------------------------------------ exp, log


def exp(x):
    x = _co(x)
    if isinstance(x, float):
        return x if not x == -INF else Sym.const(0)
    if x.c is not None:
        if x.c == 0:
            return Sym.const(1)
        return Sym.const(math.exp(float(x.c)))
    lo, _, hi, _ = explorer().interval(x)
    kw = dict(lo=QQ(0), lo_open=True)
    if lo is not None and -600 < lo < 600:
        kw["lo"] = to_frac(math.exp(float(lo)) * (1 - 1e-9))
    if hi is not None and -600 < hi < 600:
        kw["hi"] = to_frac(math.exp(float(hi)) * (1 + 1e-9) + 1e-300) if hi != 0 else QQ(1)
    v, new = _atom("exp", x, mono=1, **kw)
    if new:
        _ax(v, z3.And(
            v.e > 0, v.e >= 1 + x.e, (x.e > 0) == (v.e > 1), (x.e < 0) == (v.e < 1),
            z3.Implies(x.e < 1, v.e * (1 - x.e) <= 1)))
    return v


def log(x):
    x = _co(x)
    if isinstance(x, float):
        return x if x == INF else NAN
    if explorer().domain(x <= 0):
        if x == 0:
            return -INF
        return NAN
    if x.c is not None:
        if x.c == 1:
            return Sym.const(0)
        return Sym.const(math.log(float(x.c)))
    v, new = _atom("log", x, mono=1)
    if new:
        _ax(v, z3.And(
            v.e <= x.e - 1, (x.e > 1) == (v.e > 0), (x.e < 1) == (v.e < 0),
            v.e * x.e >= x.e - 1))
    return v


# ------------------------------------------------------------------ trigonometry


def register_angle(sym, unit, s, c):
    """declare sin and cos (Sym) of an angle variable; unit: 'deg' or 'rad'"""
    ex = explorer()
    name = ex.vname(sym)
    ex.angles[name] = (unit, s, c)


def _mul_angle(s, c, n):
    """(sin, cos) of n * angle"""
    if n < 0:
        s, c = _mul_angle(s, c, -n)
        return -s, c
    rs, rc = Sym.const(0), Sym.const(1)
    for _ in range(n):
        rs, rc = rs * c + rc * s, rc * c - rs * s
    return rs, rc


def _const_sc(b):
    """(sin, cos) of a constant, exact at multiples of pi/2"""
    b = float(b)
    q = b / (math.pi / 2)
    k = round(q)
    if abs(q - k) < 1e-11:
        k %= 4
        return ((QQ(0), QQ(1)), (QQ(1), QQ(0)), (QQ(0), QQ(-1)), (QQ(-1), QQ(0)))[k]
    return to_frac(math.sin(b)), to_frac(math.cos(b))


def sincos(x):
    x = _co(x)
    if isinstance(x, float):
        return NAN, NAN
    ex = explorer()
    l = x.linform()
    rs, rc = Sym.const(0), Sym.const(1)
    rest = {}
    const = QQ(0)
    restsym = None
    if l is None:
        restsym = x
    else:
        const = l[1]
        for name, k in l[0].items():
            if name in ex.angles:
                unit, s, c = ex.angles[name]
                f = float(k) * (180 / math.pi if unit == "deg" else 1.0)
                n = round(f)
                if abs(f - n) < 1e-9 and 0 < abs(n) <= 4:
                    s, c = _mul_angle(s, c, n)
                    rs, rc = rs * c + rc * s, rc * c - rs * s
                    continue
            if name in ex.intvars:
                f = float(k) / (2 * math.pi)
                if abs(f - round(f)) < 1e-9:
                    continue
            rest[name] = k
        if rest:
            restsym = Sym(p={((ex.vidx[n], 1),): k for n, k in rest.items()})
    if restsym is not None:
        s, c = _generic_sc(restsym)
        rs, rc = rs * c + rc * s, rc * c - rs * s
    if restsym is not None and const != 0:
        q = float(const) / (math.pi / 3)
        if abs(q - round(q)) < 1e-11 and round(q) % 3 and _third(restsym):
            bs, bc = _rot60(round(q) % 6)
            return rs * bc + rc * bs, rc * bc - rs * bs
    bs, bc = _const_sc(const)
    if (bs, bc) != (0, 1):
        bs, bc = Sym(c=bs), Sym(c=bc)
        rs, rc = rs * bc + rc * bs, rc * bc - rs * bs
    return rs, rc


def _third(x):
    """the angle of which x is a third, if known"""
    ex = explorer()
    l = x.linform()
    if l is not None and l[1] == 0 and len(l[0]) == 1:
        (name, k), = l[0].items()
        if name in ex.angles and name.startswith("arccos") and abs(3 * k - 1) < QQ(1, 10**12):
            return ex.angles[name]
    return None


def _sqrt3():
    ex = explorer()
    r3 = ex.memo.get("sqrt3")
    if r3 is None:
        r3 = ex.fresh_real("sqrt3", lo=to_frac(1.7320508), hi=to_frac(1.7320509), num=lambda: math.sqrt(3))
        ex.axiom(z3.And(r3.e > 0, r3.e * r3.e == 3), defs=(ex.vname(r3),))
        ex.add_rule(((ex.vidx[ex.vname(r3)], 2),), Sym(c=QQ(3)).p)
        ex.memo["sqrt3"] = r3
    return r3


def _rot60(n):
    """exact (sin, cos) of n * 60 deg"""
    r3 = _sqrt3()
    h = Sym(c=QQ(1, 2))
    return (Sym(c=QQ(0)), r3 * h, r3 * h, Sym(c=QQ(0)), -r3 * h, -r3 * h)[n], (Sym(c=QQ(1)), h, -h, Sym(c=QQ(-1)), -h, h)[n]


def _generic_sc(x):
    ex = explorer()
    key = ("sc", _key(x))
    if key in ex.memo:
        return ex.memo[key]
    nkey = ("sc", _key(-x))
    if nkey in ex.memo:
        s, c = ex.memo[nkey]
        return -s, c
    s = ex.fresh_real("sin", lo=QQ(-1), hi=QQ(1), num=lambda: np.sin(ex.num(x)))
    c = ex.fresh_real("cos", lo=QQ(-1), hi=QQ(1), num=lambda: np.cos(ex.num(x)))
    sn, cn = ex.vname(s), ex.vname(c)
    pi = z3.Q(PI.numerator, PI.denominator)
    ex.axiom(z3.And(s.e * s.e + c.e * c.e == 1, s.e >= -1, s.e <= 1, c.e >= -1, c.e <= 1),
             defs=(cn, sn))
    ex.axiom(z3.And(
        z3.Implies(x.e == 0, z3.And(s.e == 0, c.e == 1)),
        z3.Implies(z3.And(x.e > 0, x.e < pi), s.e > 0),
        z3.Implies(z3.And(x.e < 0, x.e > -pi), s.e < 0),
        z3.Implies(x.e >= 0, s.e <= x.e), z3.Implies(x.e <= 0, s.e >= x.e),
    ), defs=(sn,))
    ex.axiom(z3.Implies(z3.And(x.e > -pi / 2, x.e < pi / 2), c.e > 0), defs=(cn,))
    t3 = _third(x)
    if t3 is not None:
        # a third of an angle in [0, pi]
        S3, C3 = t3[1], t3[2]
        ex.axiom(z3.And(c.e >= z3.Q(1, 2), s.e >= 0, 4 * c.e * s.e * s.e <= 3 * c.e, 4 * c.e * c.e * c.e - 3 * c.e == C3.e), defs=(cn, sn))
        # the other two roots: cos(x + 120 deg) in [-1, -1/2], cos(x + 240 deg) in [-1/2, 1/2]
        r3 = _sqrt3()
        w = r3 * s
        ex.axiom(z3.And(c.e + w.e >= 1, c.e + w.e <= 2, w.e - c.e <= 1, w.e - c.e >= -1), defs=(cn, sn))
        ex.add_rule(((ex.vidx[sn], 2),), (1 - c * c).p)
        ex.add_rule(((ex.vidx[cn], 3),), ((3 * c + C3) / 4).p)
    else:
        ex.add_rule(((ex.vidx[cn], 2),), (1 - s * s).p)
    prev = [t for t in ex.atoms if t[0] == "sc"]
    for _, a, (s2, c2) in prev[-MAXPAIR:]:
        ex.axiom(z3.Implies(a.e == x.e, z3.And(s2.e == s.e, c2.e == c.e)),
                 defs=(sn, ex.vname(s2)))
        ex.axiom(z3.Implies(a.e == x.e, c2.e == c.e), defs=(cn, ex.vname(c2)))
    ex.atoms.append(("sc", x, (s, c)))
    for f in ex.extra:
        f(ex, "sc", x, (s, c))
    ex.memo[key] = (s, c)
    return s, c


def sin(x):
    return sincos(x)[0]


def cos(x):
    return sincos(x)[1]


def tan(x):
    s, c = sincos(x)
    return s / c


def arctan2(y, x):
    y, x = _co(y), _co(x)
    if isinstance(y, float) or isinstance(x, float):
        return NAN
    if y.c is not None and x.c is not None:
        return Sym.const(math.atan2(float(y.c), float(x.c)))
    ex = explorer()
    key = ("atan2", _key(y), _key(x))
    if key in ex.memo:
        return ex.memo[key]
    r2 = x * x + y * y
    if r2 == 0:
        t = Sym.const(0)
        ex.memo[key] = t
        return t
    r = root(r2, 2)
    s, c = y / r, x / r
    t = _inv_angle("atan2", s, c)
    ex.memo[key] = t
    return t


def _inv_angle(base, s, c):
    """angle t in (-pi, pi] with the given sin and cos"""
    ex = explorer()
    t = ex.fresh_real(base, lo=-PI, hi=PI, num=lambda: np.arctan2(ex.num(s), ex.num(c)))
    pi = z3.Q(PI.numerator, PI.denominator)
    _ax(t, z3.And(
        t.e > -pi, t.e <= pi,
        (s.e > 0) == z3.And(t.e > 0, t.e < pi),
        (s.e < 0) == (t.e < 0),
        (c.e > 0) == z3.And(t.e > -pi / 2, t.e < pi / 2),
        z3.Implies(z3.And(s.e == 0, c.e > 0), t.e == 0),
        z3.Implies(z3.And(s.e == 0, c.e < 0), t.e == pi),
        z3.Implies(z3.And(c.e == 0, s.e > 0), t.e == pi / 2),
        z3.Implies(z3.And(c.e == 0, s.e < 0), t.e == -pi / 2),
    ))
    register_angle(t, "rad", s, c)
    return t


def arccos(x):
    x = _co(x)
    if isinstance(x, float):
        return NAN
    if x.c is not None:
        return Sym.const(math.acos(float(x.c))) if abs(x.c) <= 1 else NAN
    if x > 1:
        return NAN
    if x < -1:
        return NAN
    v, new = _atom("arccos", x, mono=-1, lo=QQ(0), hi=PI)
    if new:
        pi = z3.Q(PI.numerator, PI.denominator)
        _ax(v, z3.And(
            v.e >= 0, v.e <= pi, (x.e == 1) == (v.e == 0), (x.e == -1) == (v.e == pi),
            (x.e > 0) == (v.e < pi / 2), (x.e == 0) == (v.e == pi / 2)))
        register_angle(v, "rad", root(1 - x * x, 2), x)
    return v


def arcsin(x):
    r = arccos(x)
    if isinstance(r, float):
        return r
    return Sym(c=PI / 2) - r


def arctan(x):
    x = _co(x)
    if isinstance(x, float):
        return NAN if math.isnan(x) else Sym.const(math.copysign(math.pi / 2, x))
    if x.c is not None:
        return Sym.const(math.atan(float(x.c)))
    v, new = _atom("arctan", x, mono=1, lo=-PI / 2, hi=PI / 2)
    if new:
        pi = z3.Q(PI.numerator, PI.denominator)
        _ax(v, z3.And(
            v.e > -pi / 2, v.e < pi / 2, (x.e > 0) == (v.e > 0), (x.e < 0) == (v.e < 0),
            z3.Implies(x.e >= 0, v.e <= x.e), z3.Implies(x.e <= 0, v.e >= x.e)))
        r = root(1 + x * x, 2)
        register_angle(v, "rad", x / r, 1 / r)
    return v


def tanh(x):
    x = _co(x)
    if isinstance(x, float):
        return NAN if math.isnan(x) else Sym.const(math.copysign(1, x))
    e2 = exp(2 * x)
    return (e2 - 1) / (e2 + 1)


def cosh(x):
    return (exp(x) + exp(-_co(x))) / 2


def sinh(x):
    return (exp(x) - exp(-_co(x))) / 2


def erf(x):
    x = _co(x)
    if isinstance(x, float):
        return NAN if math.isnan(x) else Sym.const(math.copysign(1, x))
    if x.c is not None:
        return Sym.const(math.erf(float(x.c)))
    v, new = _atom("erf", x, mono=1, lo=QQ(-1), hi=QQ(1))
    if new:
        _ax(v, z3.And(v.e < 1, v.e > -1, (x.e > 0) == (v.e > 0), (x.e < 0) == (v.e < 0)))
    return v


def deg2rad(x):
    return _co(x) * Sym.const(math.pi / 180)


def rad2deg(x):
    return _co(x) * Sym.const(180 / math.pi)


radians, degrees = deg2rad, rad2deg


def log10(x):
    return log(x) / Sym.const(math.log(10))


def log2(x):
    return log(x) / Sym.const(math.log(2))


def log1p(x):
    return log(1 + x)


def expm1(x):
    return exp(x) - 1


def square(x):
    return x * x


def fabs(x):
    return abs(_co(x))


def hypot(x, y):
    return sqrt(x * x + y * y)


# ------------------------------------------------------------------ misc


def sign(x):
    x = _co(x)
    if isinstance(x, float):
        return x if math.isnan(x) else Sym.const(math.copysign(1, x))
    if x > 0:
        return Sym.const(1)
    if x < 0:
        return Sym.const(-1)
    return Sym.const(0)


def round_(x, nd=0):
    x = _co(x)
    if isinstance(x, float):
        return x
    if x.c is not None:
        return Sym(c=Fraction(round(x.c, nd)))
    if nd >= 9:
        # removes rounding noise only, no effect on exact numbers of the sizes in use
        return x
    ex = explorer()
    key = ("round", nd, _key(x))
    if key in ex.memo:
        return ex.memo[key]
    f = QQ(10) ** nd
    k = ex.fresh_int("rnd", num=lambda: np.rint(ex.num(x) * 10.0**nd))
    r = k / Sym(c=f)
    d = QQ(1, 2) / f
    d = z3.Q(d.numerator, d.denominator)
    _ax(k, z3.And(r.e - x.e <= d, x.e - r.e <= d))
    ex.memo[key] = r
    return r


def floor(x):
    x = _co(x)
    if isinstance(x, float):
        return x
    return sym_divmod(x, Sym.const(1))[0]


def ceil(x):
    x = _co(x)
    if isinstance(x, float):
        return x
    return -sym_divmod(-x, Sym.const(1))[0]


def trunc(x):
    x = _co(x)
    if isinstance(x, float):
        return x
    return floor(x) if x >= 0 else ceil(x)


def isnan(x):
    if isinstance(x, (Sym, SymBool)):
        return False
    try:
        return math.isnan(x)
    except TypeError:
        raise TypeError("ufunc 'isnan' not supported for the input types")


def isinf(x):
    if isinstance(x, (Sym, SymBool)):
        return False
    return math.isinf(x)


def numfunc(fname, a):
    """float values of an atom function"""
    if fname.startswith("root"):
        return np.power(a, 1.0 / int(fname[4:]))
    if fname.startswith("pow["):
        return np.power(a, float(fname[4:-1]))
    if fname == "erf":
        return np.array([math.erf(t) for t in a])
    f = {"exp": np.exp, "log": np.log, "arccos": np.arccos, "arctan": np.arctan}.get(fname)
    return np.full(len(a), np.nan) if f is None else f(a)


def exp_values(fname, a):
    """true float value of an atom function, for refinement"""
    if fname == "exp":
        return math.exp(a)
    if fname == "log":
        return math.log(a)
    if fname == "arccos":
        return math.acos(a)
    if fname == "arctan":
        return math.atan(a)
    if fname == "erf":
        return math.erf(a)
    if fname.startswith("pow["):
        return a ** float(fname[4:-1])
    return None
