"""Overlap area of two circles"""
import numpy as np
import foxes.utils.two_circles as tc
from symx.runner import case

B = "radii in [0.1,1000], distance in [0,5000], 1 or 2 circle pairs"


def _in(ctx, n=1):
    r1 = ctx.reals("r1", (n,), 0.1, 1000)
    r2 = ctx.reals("r2", (n,), 0.1, 1000)
    d = ctx.reals("d", (n,), 0, 5000)
    return r1, r2, d


def _lens(r1, r2, d):
    """the area that both circles share, if their boundaries cross"""
    a1 = np.arccos((d**2 + r1**2 - r2**2) / (2 * d * r1))
    a2 = np.arccos((d**2 + r2**2 - r1**2) / (2 * d * r2))
    x = (d**2 + r1**2 - r2**2) / (2 * d)
    return r1**2 * a1 + r2**2 * a2 - d * np.sqrt(r1**2 - x**2)


@case("P03", bounds=B, budget_s=300)
def formula(ctx):
    """zero if apart, smaller circle if inside, lens otherwise"""
    r1, r2, d = _in(ctx)
    A = tc.calc_area(r1, r2, d)[0]
    r1, r2, d = r1[0], r2[0], d[0]
    if d >= r1 + r2:
        ctx.eq("apart", A, 0)
    elif d <= abs(r1 - r2):
        ctx.eq("inside", A, np.pi * np.minimum(r1, r2) ** 2, tol=1e-6)
    else:
        ctx.eq("lens", A, _lens(r1, r2, d), tol=1e-5)


@case("P03", bounds=B, budget_s=300)
def symmetric(ctx):
    """which circle comes first does not matter"""
    r1, r2, d = _in(ctx)
    A = tc.calc_area(r1, r2, d)[0]
    ctx.eq("swap", tc.calc_area(r2, r1, d)[0], A, tol=1e-6)


@case("P03", quick=[dict(n=2)], thorough=[dict(n=3)], bounds=B, budget_s=300, max_paths=4000)
def elementwise(ctx, n):
    """each pair is treated on its own"""
    r1, r2, d = _in(ctx, n)
    r1_, r2_, d_ = r1.copy(), r2.copy(), d.copy()
    A = tc.calc_area(r1, r2, d)
    ctx.eq_arr("r1 unchanged", r1, r1_)
    ctx.eq_arr("r2 unchanged", r2, r2_)
    ctx.eq_arr("d unchanged", d, d_)
    for i in range(n):
        ctx.eq("alone", A[i], tc.calc_area(r1[i:i + 1], r2[i:i + 1], d[i:i + 1])[0])


@case("P03", bounds=B, budget_s=300)
def bounds(ctx):
    """not negative and not above the area of the smaller circle"""
    r1, r2, d = _in(ctx)
    A = tc.calc_area(r1, r2, d)[0]
    r1, r2, d = r1[0], r2[0], d[0]
    if (d > abs(r1 - r2)) & (d < r1 + r2):
        return  # the lens case is settled by its formula
    ctx.between("area", A, 0, np.pi * np.minimum(r1, r2) ** 2, tol=1e-6)
