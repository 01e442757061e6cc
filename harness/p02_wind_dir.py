"""Wind direction and wind vector conversions"""
import numpy as np
import foxes.utils as U
from symx.runner import case


B = "every direction in [0,360) deg, wind speeds in [0,100] m/s, 1 or 2 entries, any vector axis"


@case("P02", bounds=B)
def roundtrip(ctx):
    """direction -> vector -> direction is the identity, results lie in [0,360]"""
    wd = ctx.angle("wd")
    ws = ctx.real("ws", 0.01, 100)
    uv = U.wd2uv(ctx.arr([wd]), ctx.arr([ws]))
    back = U.uv2wd(uv)
    ctx.angle_eq("uv2wd(wd2uv)", back[0], wd)
    ctx.between("range", back[0], 0, 360)
    vec = U.wd2wdvec(ctx.arr([wd]), ctx.arr([ws]))
    ctx.angle_eq("wdvec2wd(wd2wdvec)", U.wdvec2wd(vec)[0], wd)
    ctx.eq_arr("uv=-wdvec", uv, -vec)


@case("P02", bounds=B)
def norm_and_cardinals(ctx):
    """|uv| is the wind speed; 0 is from north, 90 from east, 180 from south, 270 from west"""
    wd = ctx.angle("wd")
    ws = ctx.real("ws", 0, 100)
    uv = U.wd2uv(ctx.arr([wd]), ctx.arr([ws]))[0]
    ctx.eq("norm", uv[0] ** 2 + uv[1] ** 2, ws**2)
    n = U.wd2uv(ctx.arr([wd]))[0]
    ctx.eq("unit", n[0] ** 2 + n[1] ** 2, 1)
    ctx.eq("scaled u", uv[0], ws * n[0])
    ctx.eq("scaled v", uv[1], ws * n[1])
    # signs fix orientation and handedness
    if (wd > 0) & (wd < 180):
        ctx.lt_strict("from the east blows west", n[0], 0)
    elif (wd > 180):
        ctx.lt_strict("from the west blows east", 0, n[0])
    if (wd < 90) | (wd > 270):
        ctx.lt_strict("from the north blows south", n[1], 0)
    elif (wd > 90) & (wd < 270):
        ctx.lt_strict("from the south blows north", 0, n[1])
    for d, (u, v) in {0: (0, -1), 90: (-1, 0), 180: (0, 1), 270: (1, 0)}.items():
        w = U.wd2uv(ctx.arr([ctx.const(d)]), ctx.arr([ws]))[0]
        ctx.eq(f"u({d})", w[0], u * ws)
        ctx.eq(f"v({d})", w[1], v * ws)


@case("P02", bounds=B + "; wind components in [-100,100]")
def vector_roundtrip(ctx):
    """vector -> direction: it is the direction the vector comes from"""
    u = ctx.real("u", -100, 100)
    v = ctx.real("v", -100, 100)
    ctx.assume(u**2 + v**2 >= ctx.const(0.0001))
    wd = U.uv2wd(ctx.arr([[u, v]]))[0]
    ctx.between("range", wd, 0, 360)
    n = U.wd2uv(ctx.arr([wd]))[0]
    # parallel and same orientation
    ctx.eq("parallel", n[0] * v - n[1] * u, 0, tol=1e-6)
    ctx.ge("orientation", n[0] * u + n[1] * v, 0)
    ctx.angle_eq("wdvec2wd", U.wdvec2wd(-ctx.arr([[u, v]]))[0], wd)


@case("P02", quick=[dict(axis=a, dim=d) for d in (1, 2) for a in (-1, 0, 1, 2)[: d + 2]],
      bounds=B)
def axes(ctx, axis, dim):
    """the vector axis only decides where the two components are stored"""
    shape = (2,) if dim == 1 else (2, 1)
    wd = ctx.empty(shape)
    for k, i in enumerate(np.ndindex(*shape)):
        wd[i] = ctx.angle(f"wd{k}", link=k == 0)
    ws = ctx.reals("ws", shape, 0.1, 100)
    ref = U.wd2uv(wd, ws)
    if axis > dim:
        return
    got = U.wd2uv(wd, ws, axis=axis)
    ctx.eq_arr("components", np.moveaxis(got, axis, -1), ref)
    ctx.eq_arr("wdvec", np.moveaxis(U.wd2wdvec(wd, ws, axis=axis), axis, -1), -ref)
    ctx.angle_eq_arr("uv2wd", U.uv2wd(got, axis=axis), U.uv2wd(ref))
    ctx.angle_eq_arr("wdvec2wd", U.wdvec2wd(-got, axis=axis), U.uv2wd(ref))


@case("P02", bounds="both directions in [0,360]")
def difference(ctx):
    """direction difference: equals b - a modulo 360, in [-180,180], antisymmetric"""
    a = ctx.real("a", 0, 360)
    b = ctx.real("b", 0, 360)
    d = U.delta_wd(ctx.arr([a]), ctx.arr([b]))[0]
    ctx.between("range", d, -180, 180)
    k = d - (b - a)
    ctx.eq("multiple of 360", k * (k - 360) * (k + 360), 0)
    e = U.delta_wd(ctx.arr([b]), ctx.arr([a]))[0]
    if abs(d) < 180:
        ctx.eq("antisymmetric", e, -d)
    ctx.eq("zero", U.delta_wd(ctx.arr([a]), ctx.arr([a]))[0], 0)
