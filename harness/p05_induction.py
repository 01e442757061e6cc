"""Axial induction"""
import numpy as np
import foxes
import foxes.models.axial_induction as ai
from symx.runner import case

B = "ct in [0,1.5], clipping limits in (0,1)"


@case("P05", bounds=B)
def betz(ctx):
    """a solves ct = 4a(1-a) on the branch a <= 1/2, up to the clipping limit"""
    ct = ctx.reals("ct", (2,), 0, 1.5)
    lim = ctx.real("lim", 0.01, 0.99999)
    c0 = ct.copy()
    m = ai.BetzAxialInduction(ct_max=lim)
    a = m.ct2a(ct)
    for i in range(2):
        c = ct[i] if ct[i] <= lim else lim
        ctx.eq("momentum", 4 * a[i] * (1 - a[i]), c)
        ctx.between("branch", a[i], 0, 0.5)
    ctx.eq_arr("input unchanged", ct, c0)
    if ct[0] <= ct[1]:
        ctx.le("monotone", a[0], a[1])


@case("P05", bounds=B)
def betz_default(ctx):
    """default limit keeps the root real and below 1/2"""
    ct = ctx.reals("ct", (1,), 0, 1.5)
    a = ai.BetzAxialInduction().ct2a(ct)[0]
    ctx.between("branch", a, 0, 0.5)
    if ct[0] <= 0.9999:
        ctx.eq("momentum", 4 * a * (1 - a), ct[0])


@case("P05", bounds=B)
def madsen(ctx):
    """documented cubic, zero at zero, increasing, and close to the momentum theory for moderate ct"""
    ct = ctx.reals("ct", (2,), 0, 1.5)
    c0 = ct.copy()
    a = ai.MadsenAxialInduction().ct2a(ct)
    ctx.eq_arr("input unchanged", ct, c0)
    for i in range(2):
        c = ct[i]
        ctx.eq("cubic", a[i], 0.246 * c + 0.0586 * c**2 + 0.0883 * c**3)
        if c <= 0.8:
            # within 2 per cent of ct of 4a(1-a)
            ctx.between("momentum", 4 * a[i] * (1 - a[i]) - c, -0.03, 0.03)
    if ct[0] < ct[1]:
        ctx.lt_strict("increasing", a[0], a[1])
    k = ctx.reals("k", (3,), 0, 1)
    b = ai.MadsenAxialInduction(k1=k[0], k2=k[1], k3=k[2]).ct2a(ct)
    ctx.eq("coefficients", b[0], k[0] * ct[0] + k[1] * ct[0] ** 2 + k[2] * ct[0] ** 3)
