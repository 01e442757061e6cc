"""areas: circles, half-planes, polygons, unions, intersections, differences, inverses"""
import numpy as np
import foxes.utils.geom2d.polygon as gp
from foxes.utils.geom2d import Circle, HalfPlane, ClosedPolygon, AreaUnion, AreaIntersection
from symx.runner import case

DIRS = {"x": (1, 0), "-x": (-1, 0), "y": (0, 1), "-y": (0, -1), "d": (3, 4), "o": (-4, 3)}


def pts(ctx, n=1, lo=-20, hi=20):
    return ctx.reals("p", (n, 2), lo, hi)


def sq(a, b):
    return (a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2


class Shape:
    """an area, and an independent membership and bounds oracle"""

    def __init__(self, ctx, name, spec):
        self.k = spec[0]
        if self.k == "c":
            self.c = [ctx.real(name + "cx", -8, 8), ctx.const(spec[1])] if spec[2] == "x" else [ctx.const(spec[1]), ctx.const(spec[2])]
            self.r = ctx.real(name + "r", 0.5, 6) if spec[3] == "r" else ctx.const(spec[3])
            self.g = Circle(self._arr(ctx, self.c), self.r)
        else:
            self.c = [ctx.const(spec[1]), ctx.real(name + "cy", -6, 6) if spec[2] == "y" else ctx.const(spec[2])]
            self.n = DIRS[spec[3]]
            self.g = HalfPlane(self._arr(ctx, self.c), list(self.n))

    def boundary(self, p):
        """zero on the boundary"""
        if self.k == "c":
            return sq(p, self.c) - self.r**2
        return (p[0] - self.c[0]) * self.n[0] + (p[1] - self.c[1]) * self.n[1]

    def inside(self, p, ctx=None):
        x = self.boundary(p)
        if ctx is not None:
            ctx.assume(x < 0 if x < 0 else x > 0, slack=False)
        return x <= 0 if self.k == "c" else x >= 0

    @staticmethod
    def _arr(ctx, c):
        a = ctx.empty((2,))
        a[0], a[1] = c
        return a



@case("P20", quick=[dict(centre=False), dict(centre=True)], thorough=[dict(centre=False, n=3), dict(centre=True, n=3)], bounds="any circle; {centre}: the first point is its centre")
def circle(ctx, centre, n=2):
    """distance to and nearest point of a circle, inside, inverse"""
    c = ctx.reals("c", (2,), -8, 8)
    r = ctx.real("r", 0.5, 6)
    p = pts(ctx, n)
    if centre:
        p[0, :] = c
    p0, c0 = p.copy(), c.copy()
    g = Circle(c, r)
    d, q = g.points_distance(p, return_nearest=True)
    ins = g.points_inside(p)
    ctx.true("shapes", d.shape == (n,) and q.shape == (n, 2) and ins.shape == (n,))
    d1 = g.points_distance(p)
    di, qi = g.inverse().points_distance(p, True)
    out = g.inverse().points_inside(p)
    for i in range(n):
        m = sq(p[i], c) ** 0.5 if not (centre and i == 0) else ctx.const(0)
        e = m - r if m >= r else r - m
        ctx.eq("distance", d[i], e)
        ctx.eq("same", d1[i], d[i])
        ctx.eq("inverse", di[i], d[i])
        ctx.eq("nearest point on the circle", sq(q[i], c), r**2)
        ctx.eq("nearest point", sq(q[i], p[i]), d[i] ** 2)
        ctx.true("inside", bool(ins[i]) == bool(m <= r))
        ctx.true("outside", bool(out[i]) != bool(ins[i]))
    a, b = g.p_min(), g.p_max()
    for k in range(2):
        ctx.eq("p_min", a[k], c[k] - r)
        ctx.eq("p_max", b[k], c[k] + r)
    ctx.eq_arr("points unchanged", p, p0)
    ctx.eq_arr("centre unchanged", c, c0)


@case("P20", quick=[dict(n=k) for k in DIRS] + [dict(n="any")], bounds="half-plane with normal {n}, any base point")
def half_plane(ctx, n):
    """distance to and nearest point of a line, the side into which the normal points"""
    c = ctx.reals("c", (2,), -8, 8)
    if n == "any":
        nv = ctx.reals("n", (2,), 0.25, 2)
    else:
        nv = ctx.arr([float(x) for x in DIRS[n]])
    p = pts(ctx, 2)
    n0 = nv.copy()
    g = HalfPlane(c, nv)
    d, q = g.points_distance(p, return_nearest=True)
    ins, out = g.points_inside(p), g.inverse().points_inside(p)
    N = n0[0] ** 2 + n0[1] ** 2
    for i in range(2):
        x = (p[i, 0] - c[0]) * n0[0] + (p[i, 1] - c[1]) * n0[1]
        ctx.eq("distance", d[i] ** 2 * N, x**2)
        ctx.le("sign", -d[i], 0)
        ctx.eq("nearest point on the line", (q[i, 0] - c[0]) * n0[0] + (q[i, 1] - c[1]) * n0[1], 0)
        ctx.eq("nearest point", (q[i, 0] - p[i, 0]) * n0[1] - (q[i, 1] - p[i, 1]) * n0[0], 0)
        if x > 0:
            ctx.true("inside", bool(ins[i]) and not bool(out[i]))
        elif x < 0:
            ctx.true("outside", bool(out[i]) and not bool(ins[i]))
    ctx.eq_arr("normal unchanged", nv, n0)
    for h, s in ((g, 1), (g.inverse(), -1)):
        a, b = h.p_min(), h.p_max()
        for k in range(2):
            w = s * DIRS[n][k] if n != "any" else 1
            other = DIRS[n][1 - k] if n != "any" else 1
            ctx.true("p_min unbounded", (w > 0 and other == 0) or bool(np.isinf(a[k])), f"{a}")
            ctx.true("p_max unbounded", (w < 0 and other == 0) or bool(np.isinf(b[k])), f"{b}")
            if w > 0 and other == 0:
                ctx.eq("p_min", a[k], c[k])
            if w < 0 and other == 0:
                ctx.eq("p_max", b[k], c[k])


SETS = {
    "cc": [("c", 0, "x", 4), ("c", 3, 1, 4)],
    "ccr": [("c", 0, 0, "r"), ("c", 3, 4, 3)],
    "ch": [("c", 0, "x", 4), ("h", 1, 0, "d")],
    "hc": [("h", 0, "y", "y"), ("c", 1, 1, 4)],
    "hh": [("h", 0, "y", "d"), ("h", 3, 0, "o")],
    "xy": [("h", 0, 0, "x"), ("h", 0, "y", "-y")],
    "xx": [("h", 0, 0, "x"), ("h", 2, 0, "x")],
    "chh": [("c", 0, "x", 4), ("h", 1, 1, "y"), ("h", 2, 0, "-x")],
}
OPS = {
    "union": (lambda g: AreaUnion(list(g)), any),
    "plus": (lambda g: sum(g[1:], g[0]), any),
    "plus_list": (lambda g: g[0] + list(g[1:]), any),
    "plus_union": (lambda g: g[0] + AreaUnion(list(g[1:])), any),
    "union_plus": (lambda g: AreaUnion([g[0]]) + AreaUnion(list(g[1:])), any),
    "intersection": (lambda g: AreaIntersection(list(g)), all),
    "minus": (lambda g: minus(g), lambda b: b[0] and not any(b[1:])),
    "minus_list": (lambda g: g[0] - list(g[1:]), lambda b: b[0] and not any(b[1:])),
    "inverse": (lambda g: AreaUnion(list(g)).inverse(), lambda b: not any(b)),
    "inverse2": (lambda g: AreaUnion(list(g)).inverse().inverse(), any),
    "not_and": (lambda g: AreaIntersection(list(g)).inverse(), lambda b: not all(b)),
    "single": (lambda g: AreaUnion([g[0]]), lambda b: b[0]),
    "not_single": (lambda g: AreaUnion([g[0]]).inverse(), lambda b: not b[0]),
    "only": (lambda g: AreaIntersection([g[0]]), lambda b: b[0]),
}


def minus(g):
    a = g[0]
    for b in g[1:]:
        a = a - b
    return a


@case("P20", quick=[dict(op=o, s=s) for o in OPS for s in ("ch", "chh")] + [dict(op=o, s=s) for o in ("union", "intersection", "minus", "inverse") for s in ("cc", "hh", "hc")],
      thorough=[dict(op=o, s=s) for o in OPS for s in SETS], bounds="{op} of {s}; any point, one coordinate of one area any")
def membership(ctx, op, s):
    """points are inside combinations of areas iff the set operation says so"""
    sh = [Shape(ctx, f"s{i}", x) for i, x in enumerate(SETS[s])]
    p = pts(ctx, 2 if s == "cc" else 1)
    b = [[bool(a.inside(x, ctx)) for a in sh] for x in p]
    make, spec = OPS[op]
    g = make([a.g for a in sh])
    ins = g.points_inside(p)
    for i in range(len(p)):
        ctx.true("inside", bool(ins[i]) == bool(spec(b[i])), f"{ins} {b}")


BQ = [dict(op=o, s=s) for o in ("union", "intersection", "minus", "inverse", "not_and") for s in SETS if not (o == "minus" and s == "chh")]


@case("P20", quick=BQ + [dict(op="minus", s="chh"), dict(op="single", s="ch"), dict(op="not_single", s="hc"), dict(op="only", s="hh")],
      bounds="{op} of {s}; any point, one coordinate of one area any")
def bounds(ctx, op, s):
    """an area lies between its p_min and p_max"""
    sh = [Shape(ctx, f"s{i}", x) for i, x in enumerate(SETS[s])]
    p = pts(ctx, 1)[0]
    make, spec = OPS[op]
    ctx.assume(spec([bool(a.inside(p, ctx)) for a in sh]), slack=False)
    g = make([a.g for a in sh])
    a, b = g.p_min(), g.p_max()
    for k in range(2):
        if not np.isinf(a[k]):
            ctx.le("p_min", a[k], p[k])
        else:
            ctx.true("p_min", bool(a[k] < 0), f"{a}")
        if not np.isinf(b[k]):
            ctx.le("p_max", p[k], b[k])
        else:
            ctx.true("p_max", bool(b[k] > 0), f"{b}")


@case("P20", quick=[dict(op=o, s=s) for o in ("union", "intersection", "minus", "not_and") for s in ("xy", "xx", "hh")],
      thorough=[dict(op=o, s=s) for o in OPS for s in ("xy", "xx", "hh")], bounds="{op} of {s}; any two points", skip_unknown=True)
def free_space(ctx, op, s):
    """no point nearer than the distance to the boundary is on the other side of it"""
    sh = [Shape(ctx, f"s{i}", x) for i, x in enumerate(SETS[s])]
    p = pts(ctx, 1)
    q = ctx.reals("q", (2,), -20, 20)
    make, spec = OPS[op]
    g = make([a.g for a in sh])
    bp, bq = (bool(spec([bool(a.inside(x, ctx)) for a in sh])) for x in (p[0], q))
    ctx.assume(bp != bq, slack=False)
    d = g.points_distance(p)
    ctx.le("distance", d[0] ** 2, sq(p[0], q))


@case("P20", quick=[dict(op=o, s=s) for o in ("union", "intersection", "minus", "inverse") for s in ("xy", "ch", "chh")],
      thorough=[dict(op=o, s=s) for o in OPS for s in SETS], bounds="{op} of {s}; any point")
def nearest(ctx, op, s):
    """distance and nearest point belong together; outside a union (inside an intersection) it is the distance to the nearest area"""
    sh = [Shape(ctx, f"s{i}", x) for i, x in enumerate(SETS[s])]
    p = pts(ctx, 1)
    for a in sh:
        if a.k == "c":
            ctx.assume(sq(p[0], a.c) >= 0.01)
    make, spec = OPS[op]
    g = make([a.g for a in sh])
    d, q = g.points_distance(p, return_nearest=True)
    ctx.eq("without nearest", g.points_distance(p)[0], d[0])
    ctx.eq("nearest point", sq(q[0], p[0]), d[0] ** 2)
    e = [a.g.points_distance(p)[0] for a in sh]
    b = [bool(a.inside(p[0])) for a in sh]
    if op == "minus":
        b = [b[0]] + [not x for x in b[1:]]
    if op in ("intersection", "minus"):
        b = [not x for x in b]
    if any(b):
        x = None
        for i in range(len(sh)):
            if b[i] and (x is None or e[i] > x):
                x = e[i]
    else:
        x = e[0]
        for y in e[1:]:
            x = y if y < x else x
    ctx.eq("distance", d[0], x)


POLY = {"triangle": [(0, 0), (8, 0), (0, 6)], "L": [(0, 0), (6, 0), (6, 2), (2, 2), (2, 6), (0, 6)], "square": [(1, 1), (1, 5), (5, 5), (5, 1)]}


def segment2(p, a, b):
    """squared distance to a segment, nearest point"""
    ab = [b[0] - a[0], b[1] - a[1]]
    l2 = ab[0] ** 2 + ab[1] ** 2
    t = (p[0] - a[0]) * ab[0] + (p[1] - a[1]) * ab[1]
    if t <= 0:
        return sq(p, a)
    if t >= l2:
        return sq(p, b)
    w = (p[0] - a[0]) * ab[1] - (p[1] - a[1]) * ab[0]
    return w**2 / l2


@case("P20", quick=[dict(k=k, box=b) for k in POLY for b in range(2)], thorough=[dict(k=k, box=b, closed=c) for k in POLY for b in range(9) for c in (False, True)],
      bounds="polygon {k}, any point in part {box} of the plane", max_paths=6000, budget_s=200)
def polygon(ctx, k, box, closed=False):
    """distance to a polygon is that of its nearest edge"""
    P = POLY[k] + ([POLY[k][0]] if closed else [])
    x0, y0 = [(3.1, 1.1), (-2.9, 5.1), (6.2, 6.1), (-3, -3), (1.3, -2.9), (7.1, 2.3), (2.1, 2.3), (0.2, 0.3), (5.5, 4.1)][box]
    p = ctx.empty((1, 2))
    p[0, 0], p[0, 1] = ctx.real("x", x0, x0 + 2.4), ctx.real("y", y0, y0 + 2.2)
    g = ClosedPolygon(np.array(P) if closed else ctx.arr([list(map(float, v)) for v in P]))
    d, q = g.points_distance(p, return_nearest=True)
    ctx.eq("without nearest", g.points_distance(p)[0], d[0])
    P = POLY[k]
    best = None
    for i in range(len(P)):
        e = segment2(p[0], P[i], P[(i + 1) % len(P)])
        best = e if best is None or e < best else best
    ctx.eq("distance", d[0] ** 2, best)
    ctx.le("sign", -d[0], 0)
    ctx.eq("nearest point", sq(q[0], p[0]), d[0] ** 2)
    on = None
    for i in range(len(P)):
        e = segment2(q[0], P[i], P[(i + 1) % len(P)])
        on = e if on is None or e < on else on
    ctx.eq("nearest point is on the boundary", on, 0)


class no_path:
    """matplotlib's path, which takes only numbers, is not needed for bounds and distances"""

    def __enter__(self):
        self.old = getattr(gp, "Path", None)
        gp.Path = lambda *a, **k: None

    def __exit__(self, *a):
        gp.Path = self.old


@case("P20", bounds="triangle with one vertex any, point any in a box")
def polygon_vertex(ctx):
    """bounds and distance of a polygon with any vertex"""
    v = ctx.reals("v", (2,), 3, 9)
    P = [[0, 0], [6, 0], [v[0], v[1]]]
    a = ctx.empty((3, 2))
    for i in range(3):
        a[i, 0], a[i, 1] = P[i]
    with no_path():
        g = ClosedPolygon(a)
    lo, hi = g.p_min(), g.p_max()
    ctx.eq("p_min", lo[0], 0)
    ctx.eq("p_min", lo[1], 0)
    ctx.eq("p_max", hi[0], v[0] if v[0] >= 6 else 6)
    ctx.eq("p_max", hi[1], v[1])
    i = g.inverse()
    ctx.true("inverse", all(np.isinf(x) for x in list(i.p_min()) + list(i.p_max())))
    ctx.eq("points unchanged", a[2, 0], v[0])


@case("P20", quick=[dict(k="c"), dict(k="u"), dict(k="p")], bounds="any centre, radius and extra space")
def farm_boundary(ctx, k):
    """the bounds of a wind farm with a boundary are those of the boundary, repeatedly"""
    import foxes
    c = ctx.reals("c", (2,), -8, 8)
    r = ctx.real("r", 0.5, 6)
    e = ctx.real("e", 0, 3)
    if k == "p":
        b = ClosedPolygon(np.array([[0, 0], [7, 0], [0, 5]]))
    else:
        b = Circle(c, r)
        if k == "u":
            b = AreaUnion([b, Circle([20, 30], 4.0)])
    f = foxes.WindFarm(boundary=b)
    for t in range(2):
        f.add_turbine(foxes.Turbine(xy=[100.0 * t, 5.0]), verbosity=0)
    for rep in range(2):
        x = e if rep == 0 else None
        lo, hi = f.get_xy_bounds(extra_space=x)
        d = e if rep == 0 else 0
        L, H = ([c[0] - r, c[1] - r], [c[0] + r, c[1] + r]) if k == "c" else ([c[0] - r, c[1] - r], [24, 34]) if k == "u" else ([0, 0], [7, 5])
        for i in range(2):
            ctx.eq("minimum", lo[i], L[i] - d)
            ctx.eq("maximum", hi[i], H[i] + d)
