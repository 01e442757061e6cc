"""Wake superpositions"""
import numpy as np
import foxes.variables as FV
import foxes.models.wake_superpositions as ws
from symx.runner import case
from . import lib

WSB = "1 state, 2 targets, 1 target point, up to 3 wakes, symbolic wake strengths in [-1,1], rotor speeds in [0,40], symbolic selection masks"


def _fold(ctx, sup, var, order, masks, deltas, fd, td, al, md, S=1, T=2, P=1):
    wd = lib.filled(ctx, (S, T, P), ctx.const(0))
    for w in order:
        m = masks[w]
        wd = sup.add_wake(al, md, fd, td, w, m, var, wd, deltas[w][m])
    return wd


def _setup(ctx, W, T=2, P=1, lo=-1.0, hi=1.0, mask=True, S=1):
    fd = lib.fdata({
        FV.REWS: ctx.reals("rews", (S, W), 0.0, 40.0),
        FV.AMB_REWS: ctx.reals("arews", (S, W), 0.0, 40.0),
    })
    td = lib.tdata(lib.filled(ctx, (S, T, P, 3), ctx.const(0)))
    md = lib.mdata(S)
    al = lib.StubAlgo(S, W)
    masks = [lib.boolmask(ctx, f"m{w}", (S, T)) if mask else np.ones((S, T), dtype=bool)
             for w in range(W)]
    deltas = [ctx.reals(f"d{w}", (S, T, P), lo, hi) for w in range(W)]
    return fd, td, md, al, masks, deltas


def _clip(w, low, high, amb):
    if low is not None:
        v = low - amb
        w = v if w < v else w
    if high is not None:
        v = high - amb
        w = v if w > v else w
    return w


KINDS = ["WSLinear", "WSQuadratic", "WSMax", "WSPow", "WSLinearLocal", "WSQuadraticLocal",
         "WSMaxLocal", "WSPowLocal", "WSProduct"]


def _make(ctx, kind, scale_amb, low, high, pw):
    kw = dict(lim_low=low, lim_high=high)
    if "Pow" in kind:
        kw["pow"] = pw
    if "Local" not in kind and kind != "WSProduct":
        kw["scale_amb"] = scale_amb
    return getattr(ws, kind)(**kw)


def _spec(kind, amb, ds, scales, pw):
    """ds: wake strengths that act on this point, scales: the speeds of their causing rotors"""
    local = "Local" in kind
    v = [d if local else s * d for d, s in zip(ds, scales)]
    f = amb if local else 1
    if kind.startswith("WSLinear"):
        return sum(v, start=v[0] * 0) * f if v else amb * 0
    if kind == "WSProduct":
        r = amb * 0 + 1
        for d in ds:
            r = r * (1 + d)
        return amb * (r - 1)
    if not v:
        return amb * 0
    if kind.startswith("WSMax"):
        return -np.max(np.abs(np.array(v))) * f
    if kind.startswith("WSQuadratic"):
        return -np.sqrt(sum(x**2 for x in v)) * f
    return -(sum(np.abs(x)**pw for x in v) ** (1 / pw)) * f


def _sets(tier):
    out = []
    for k in KINDS:
        for sa in ((False, True) if "Local" not in k and k != "WSProduct" else (False,)):
            pws = (2, 3, 1) if "Pow" in k else (0,)
            for p in pws[: 1 if tier == "quick" and sa else 3]:
                out.append(dict(kind=k, scale_amb=sa, pw=p))
    return out


@case("P04", quick=_sets("quick"), thorough=[dict(p, W=3) for p in _sets("t")],
      bounds=WSB, budget_s=200, thorough_budget_s=1500)
def ws_formula(ctx, kind, scale_amb, pw, W=2):
    """final wind speed deficit equals the documented combination of the wakes that hit the point"""
    fd, td, md, al, masks, deltas = _setup(ctx, W)
    sup = _make(ctx, kind, scale_amb, None, None, pw)
    wd = _fold(ctx, sup, FV.WS, range(W), masks, deltas, fd, td, al, md)
    amb = ctx.reals("amb", (1, 2, 1), 0.0, 40.0)
    res = sup.calc_final_wake_delta(al, md, fd, FV.WS, amb, wd)
    scl = fd[FV.AMB_REWS if scale_amb else FV.REWS]
    for t in range(2):
        act = [w for w in range(W) if masks[w][0, t]]
        spec = _spec(kind, amb[0, t, 0], [deltas[w][0, t, 0] for w in act], [scl[0, w] for w in act], pw)
        ctx.eq("deficit", res[0, t, 0], spec)


@case("P04", quick=[dict(kind=k, pw=2) for k in KINDS],
      thorough=[dict(kind=k, pw=2, W=3) for k in KINDS], bounds=WSB)
def ws_order_and_limits(ctx, kind, pw, W=2):
    """the order of accumulation is irrelevant, and the limits bound the waked wind speed"""
    fd, td, md, al, masks, deltas = _setup(ctx, W, T=1)
    low = ctx.real("low", 0.0, 5.0)
    high = ctx.real("high", 6.0, 50.0)
    sup = _make(ctx, kind, False, low, high, pw)
    amb = ctx.reals("amb", (1, 1, 1), 0.0, 40.0)
    perm = ctx.permutation("perm", W)
    a = _fold(ctx, sup, FV.REWS, range(W), masks, deltas, fd, td, al, md, T=1)
    b = _fold(ctx, sup, FV.REWS, perm, masks, deltas, fd, td, al, md, T=1)
    ctx.eq_arr("order", b, a)
    res = sup.calc_final_wake_delta(al, md, fd, FV.REWS, amb, a)
    ctx.between("limits", amb[0, 0, 0] + res[0, 0, 0], low, high)
    free = _make(ctx, kind, False, None, None, pw)
    w0 = free.calc_final_wake_delta(al, md, fd, FV.REWS, amb, a)[0, 0, 0]
    ctx.eq("clipping", res[0, 0, 0], _clip(w0, low, high, amb[0, 0, 0]))


TIK = [("TILinear", 1), ("TIQuadratic", 2), ("TIPow", 3), ("TIPow", 2), ("TIMax", 0)]


@case("P04", quick=[dict(kind=k, pw=p, to_amb=a) for k, p in TIK for a in ("linear", "quadratic")],
      thorough=[dict(kind=k, pw=p, to_amb=a, W=3) for k, p in TIK for a in ("linear", "quadratic")],
      bounds="1 state, 2 targets, up to 3 wakes, added TI in [0,1], ambient TI in [0,1]",
      budget_s=200, thorough_budget_s=1500)
def ti_formula(ctx, kind, pw, to_amb, W=2):
    """added turbulence: documented combination, never below ambient, none where no wake acts"""
    fd, td, md, al, masks, deltas = _setup(ctx, W, lo=0.0, hi=1.0)
    kw = dict(pow=pw) if kind == "TIPow" else {}
    sup = getattr(ws, kind)(superp_to_amb=to_amb, **kw)
    wd = _fold(ctx, sup, FV.TI, range(W), masks, deltas, fd, td, al, md)
    perm = ctx.permutation("perm", W)
    wd2 = _fold(ctx, sup, FV.TI, perm, masks, deltas, fd, td, al, md)
    ctx.eq_arr("order", wd2, wd)
    amb = ctx.reals("amb", (1, 2, 1), 0.0, 1.0)
    res = sup.calc_final_wake_delta(al, md, fd, FV.TI, amb, wd)
    for t in range(2):
        v = [deltas[w][0, t, 0] for w in range(W) if masks[w][0, t]]
        a = amb[0, t, 0]
        if not v:
            ctx.eq("untouched", res[0, t, 0], 0)
            continue
        if kind == "TIMax":
            d = np.max(np.array(v))
        elif kind == "TILinear":
            d = sum(v, start=a * 0)
        else:
            d = sum(x**pw for x in v) ** (1 / pw)
        spec = d if to_amb == "linear" else np.sqrt(d**2 + a**2) - a
        ctx.eq("added", res[0, t, 0], spec)
        ctx.ge("not below ambient", res[0, t, 0], 0)


@case("P04", quick=[dict(kind=k) for k in KINDS if k not in ("WSProduct",)] ,
      bounds="1 state, 1 target, 2 wakes; deficits in [-1,0], rotor speeds not above ambient")
def ws_bounds(ctx, kind):
    """deficits never create a speed-up, and a single wake acts with its own strength"""
    fd, td, md, al, masks, deltas = _setup(ctx, 2, T=1, lo=-1.0, hi=0.0)
    sup = _make(ctx, kind, False, None, None, 2)
    amb = ctx.reals("amb", (1, 1, 1), 0.0, 40.0)
    wd = _fold(ctx, sup, FV.WS, range(2), masks, deltas, fd, td, al, md, T=1)
    res = sup.calc_final_wake_delta(al, md, fd, FV.WS, amb, wd)[0, 0, 0]
    ctx.le("no speed-up", res, 0)
    act = [w for w in range(2) if masks[w][0, 0]]
    if len(act) == 1:
        w = act[0]
        s = amb[0, 0, 0] if "Local" in kind else fd[FV.REWS][0, w]
        ctx.eq("single wake", res, s * deltas[w][0, 0, 0])


@case("P04", quick=[dict(kind=k, scale_amb=a) for k in KINDS for a in ((False, True) if "Local" not in k and k != "WSProduct" else (False,))],
      thorough=[dict(kind=k, scale_amb=a, W=2) for k in KINDS for a in ((False, True) if "Local" not in k and k != "WSProduct" else (False,))],
      bounds="2 states, 2 targets with 2 points, 1 or 2 wakes with any strengths, rotor and ambient speeds, every selection of targets and states", budget_s=200)
def ws_states(ctx, kind, scale_amb, W=1):
    """each state, target and point gets the wakes that hit it, relative to the rotor speed of its own state"""
    S, T, P = 2, 2, 2
    fd, td, md, al, masks, deltas = _setup(ctx, W, T=T, P=P, S=S)
    sup = _make(ctx, kind, scale_amb, None, None, 2)
    wd = _fold(ctx, sup, FV.WS, range(W), masks, deltas, fd, td, al, md, S=S, T=T, P=P)
    amb = ctx.reals("amb", (S, T, P), 0.0, 40.0)
    res = sup.calc_final_wake_delta(al, md, fd, FV.WS, amb, wd)
    scl = fd[FV.AMB_REWS if scale_amb else FV.REWS]
    for i in np.ndindex(S, T, P):
        act = [w for w in range(W) if masks[w][i[:2]]]
        ctx.eq("deficit", res[i], _spec(kind, amb[i], [deltas[w][i] for w in act], [scl[i[0], w] for w in act], 2))


@case("P04", quick=[dict(kind=k, pw=p, to_amb=a) for k, p in TIK for a in ("linear", "quadratic")],
      bounds="2 states, 2 targets with 2 points, 1 wake, added and ambient TI in [0,1], every selection of targets and states", budget_s=200)
def ti_states(ctx, kind, pw, to_amb):
    """added turbulence of each state, target and point"""
    S, T, P = 2, 2, 2
    fd, td, md, al, masks, deltas = _setup(ctx, 1, T=T, P=P, S=S, lo=0.0)
    sup = getattr(ws, kind)(superp_to_amb=to_amb, **(dict(pow=pw) if kind == "TIPow" else {}))
    wd = _fold(ctx, sup, FV.TI, range(1), masks, deltas, fd, td, al, md, S=S, T=T, P=P)
    amb = ctx.reals("amb", (S, T, P), 0.0, 1.0)
    res = sup.calc_final_wake_delta(al, md, fd, FV.TI, amb, wd)
    for i in np.ndindex(S, T, P):
        d = deltas[0][i] if masks[0][i[:2]] else 0
        spec = d if to_amb == "linear" else np.sqrt(d**2 + amb[i]**2) - amb[i]
        ctx.eq("added", res[i], spec)
