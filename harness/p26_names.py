"""model book: names of models, with numbers in dot-skipping notation"""
import builtins
import sys
from fractions import Fraction
import numpy as np
import pandas as pd
import foxes
import foxes.variables as FV
import foxes.constants as FC
import foxes.models.wake_models as wm
import foxes.models.wake_superpositions as wsp
from symx.runner import case
from . import lib

# characters that stand for unknown decimal digits: isdigit(), but not one of 0..9
HOLD = [chr(0x1D7CE + i) for i in range(50)]
DIGITS = {}


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float)

    def __call__(cls, x=0.0):
        if isinstance(x, str) and any(c in DIGITS for c in x):
            a, dot, b = x.partition(".")
            if not a + b or not all(c in DIGITS or c in "0123456789" for c in a + b):
                raise ValueError(f"could not convert string to float: {x!r}")
            v = 0
            for i, c in enumerate(a + b):
                v = v + (DIGITS[c] if c in DIGITS else int(c)) * Fraction(10) ** (len(a) - 1 - i)
            return v
        return x if hasattr(x, "e") else builtins.float(x)


class FloatOfText(metaclass=_Meta):
    """float() of text with symbolic digits"""


class reading:
    """during the construction of models, float() understands symbolic digits"""

    def __init__(self, ctx):
        self.on = ctx.symbolic

    def __enter__(self):
        self.mods = []
        if self.on:
            for n, m in list(sys.modules.items()):
                if n.split(".")[0] == "foxes" and m is not None:
                    self.mods.append((m, m.__dict__.get("float")))
                    m.float = FloatOfText

    def __exit__(self, *a):
        for m, f in self.mods:
            if f is None:
                del m.float
            else:
                m.float = f
        return False


def number(ctx, name, form):
    """text and value; form: d for any digit, other characters as they are"""
    text, dig = "", []
    for i, c in enumerate(form):
        if c == "d":
            # a number without point that starts with 0 has the point skipped
            d = ctx.int(f"{name}{i}", 1 if i == 0 and "." not in form else 0, 9)
            if ctx.symbolic:
                h = HOLD[len(DIGITS)]
                DIGITS[h] = d
                text += h
            else:
                text += str(d)
            dig.append(d)
        else:
            text += c
            if c != ".":
                dig.append(int(c))
    if "." in form:
        n = form.index(".")
    else:
        n = 1 if form[0] == "0" else len(form)
    v = ctx.const(0)
    for i, d in enumerate(dig):
        w = Fraction(10) ** (n - 1 - i)
        v = v + d * (w if ctx.symbolic else float(w))
    return text, v


def get(ctx, book, kind, name):
    with reading(ctx):
        m = book.sources[kind][name]
    ctx.true("stored", book.sources[kind][name] is m)
    ctx.true("known", name in book.sources[kind])
    return m


KFORMS = ["k", "ka", "ambka", "ka_kb", "ambka_kb", ""]


def growth(ctx, kf, nf, kb="0.00d"):
    """text of a wake growth and the corresponding parameters"""
    DIGITS.clear()
    if not kf:
        return "", {}
    parts = kf.split("_")
    text, kw = "", {}
    for p in parts:
        s, v = number(ctx, p, nf if p != "kb" else kb)
        text += f"_{p}{s}"
        if p != "kb":
            ctx.assume(v > 0)
        kw[p.replace("ambka", "ka")] = v
    if parts[0] == "ambka":
        kw["ti_var"] = FV.AMB_TI
    return text, kw


# name: (class, parameters, prefix of the superposition)
WAKES = {
    "Jensen": (wm.wind.JensenWake, dict(induction="Betz"), "ws_"),
    "Bastankhah2014": (wm.wind.Bastankhah2014, dict(sbeta_factor=0.2, induction="Madsen"), "ws_"),
    "Bastankhah2014B": (wm.wind.Bastankhah2014, dict(sbeta_factor=0.2, induction="Betz"), "ws_"),
    "Bastankhah025": (wm.wind.Bastankhah2014, dict(sbeta_factor=0.25, induction="Madsen"), "ws_"),
    "Bastankhah025B": (wm.wind.Bastankhah2014, dict(sbeta_factor=0.25, induction="Betz"), "ws_"),
    "Bastankhah2016": (wm.wind.Bastankhah2016, dict(induction="Madsen"), "ws_"),
    "Bastankhah2016B": (wm.wind.Bastankhah2016, dict(induction="Betz"), "ws_"),
    "TurbOPark": (wm.wind.TurbOParkWake, dict(induction="Madsen"), "ws_"),
    "TurbOParkB": (wm.wind.TurbOParkWake, dict(induction="Betz"), "ws_"),
    "TurbOParkIX": (wm.wind.TurbOParkWakeIX, dict(), "ws_"),
    "CrespoHernandez": (wm.ti.CrespoHernandezTIWake, dict(use_ambti=False), "ti_"),
    "IECTI2019k": (wm.ti.IECTIWake, dict(iec_type="2019", opening_angle=None), "ti_"),
    "IECTI2005k": (wm.ti.IECTIWake, dict(iec_type="2005", opening_angle=None), "ti_"),
    "IECTI2019": (wm.ti.IECTIWake, dict(iec_type="2019"), "ti_"),
    "IECTI2005": (wm.ti.IECTIWake, dict(iec_type="2005"), "ti_"),
}


class AddTI(wm.dist_sliced.DistSlicedWakeModel):
    """turbulence behind a turbine"""

    def __init__(self, v):
        super().__init__({FV.TI: "ti_linear_lin"})
        self.v = v

    def new_wake_deltas(self, algo, mdata, fdata, tdata):
        return {FV.TI: np.zeros_like(tdata[FC.TARGETS][..., 0])}

    def calc_wakes_x_yz(self, algo, mdata, fdata, tdata, downwind_index, x, yz):
        sel = x > 1e-6
        out = lib.filled(self.ctx, yz.shape[:3], self.v)
        return {FV.TI: out[sel]}, sel


# name, digits
CONC = dict(k="k004", ka="ka03", ambka="ambka04", ka_kb="ka02_kb0012", ambka_kb="ambka0.3_kb0.004")
CPAR = dict(k=dict(k=0.04), ka=dict(ka=0.3), ambka=dict(ka=0.4, ti_var=FV.AMB_TI), ka_kb=dict(ka=0.2, kb=0.012), ambka_kb=dict(ka=0.3, kb=0.004, ti_var=FV.AMB_TI))
CPAR[""] = {}


def calc(ctx, book, model, frame="rotor_wd", yaw=None, ws=None, nT=3):
    """results of turbines in a row, with turbulence that is not the ambient one"""
    book.turbine_types["T"] = lib.turbine_type(ctx, ct=[ctx.const(0.64)] * 3)
    book.wake_superpositions["ti_linear_lin"] = wsp.TILinear(superp_to_amb="linear")
    models = [model]
    if FV.TI not in model.superpositions:
        add = AddTI(ctx.const(0.05))
        add.ctx = ctx
        book.wake_models["addti"] = add
        models.append("addti")
    book.wake_models["m"] = model
    models[0] = "m"
    sv = foxes.models.turbine_models.SetFarmVars()
    sv.add_var(FV.K, lib.filled(ctx, (1, nT), ctx.const(0.025)))
    if yaw is not None:
        sv.add_var(FV.YAWM, lib.filled(ctx, (1, nT), ctx.const(yaw)))
    book.turbine_models["set"] = sv
    farm = lib.farm_of(ctx, [(0.0, 0.0), (500.0, 20.0), (1200.0, -20.0)][:nT], models=[["set", "T"]] * nT)
    st = foxes.input.states.SingleStateStates(ws=ws, wd=ctx.const(270.0), ti=ctx.const(0.08), rho=ctx.const(1.225))
    with lib.engine():
        algo = foxes.algorithms.Downwind(farm, st, wake_models=models, mbook=book, rotor_model="centre",
                                         partial_wakes="centre", wake_frame=frame, verbosity=0)
        r = algo.calc_farm()
    return {v: r[v].to_numpy() for v in (FV.REWS, FV.TI, FV.K)}


def same(ctx, a, b):
    for v in a:
        ctx.eq_arr(v, a[v], b[v])


def _sets(tier):
    out = []
    sup = ["linear", "quadratic_lim", "linear_amb_lim", "max_loc", "product"]
    tsup = ["linear", "max", "quadratic"]
    i = 0
    for w, (c, kw, pre) in WAKES.items():
        s = sup if pre == "ws_" else tsup
        if w in ("IECTI2019", "IECTI2005"):
            out += [dict(w=w, kf="", sup=x) for x in (tsup if tier else tsup[1:2])]
            continue
        for kf in ["k", ""] if w == "TurbOParkIX" else KFORMS if tier else (KFORMS[i % 3], KFORMS[3 + i % 3]):
            i += 1
            out += [dict(w=w, kf=kf, sup=x) for x in (s if tier else s[i % len(s):][:1])]
    return out


@case("P26", quick=_sets(0), thorough=_sets(1), bounds="three turbines; {w} with growth {kf}, superposition {sup}, ambient wind speed in [8, 8.5]", max_paths=60, budget_s=120)
def results(ctx, w, kf, sup):
    """results with a named wake model are those of the model with the parameters that the name states"""
    cls, pars, pre = WAKES[w]
    suffix = ""
    if w == "TurbOParkIX":
        suffix, pars = "_dx50", dict(dx=50.0)
    ws = ctx.real("ws", 8, 8.5)
    name = f"{w}_{sup}" + (f"_{CONC[kf]}" if kf else "") + suffix
    book = foxes.models.ModelBook()
    a = calc(ctx, book, book.wake_models[name], ws=ws)
    b = calc(ctx, foxes.models.ModelBook(), cls(superposition=pre + sup, **pars, **CPAR[kf]), ws=ws)
    same(ctx, a, b)


@case("P26", quick=[dict(kf=k) for k in ("k", "ambka_kb", "")], thorough=[dict(kf=k) for k in KFORMS],
      bounds="three yawed turbines in a row, growth {kf}, ambient wind speed in [8, 8.5]", max_paths=60, budget_s=120)
def yawed(ctx, kf):
    """yawed wakes with named wake growth"""
    ws = ctx.real("ws", 8, 8.5)
    res = []
    for i in range(2):
        book = foxes.models.ModelBook()
        name = "yawed" + (f"_{CONC[kf]}" if kf else "")
        if i:
            book.wake_frames["ref"] = foxes.models.wake_frames.YawedWakes(**CPAR[kf])
            name = "ref"
        res.append(calc(ctx, book, wm.wind.Bastankhah2014(superposition="ws_linear"), frame=name, yaw=20.0, ws=ws))
    same(ctx, *res)


def _kq():
    nf = ["0.0dd", "00dd", "0d", "0ddd", "0.d", "d", "d.dd", "dd"]
    out, i = [], 0
    for w, (c, kw, pre) in list(WAKES.items()) + [("yawed", (None, {}, ""))]:
        if w in ("IECTI2019", "IECTI2005"):
            continue
        for kf in ["k", ""] if w == "TurbOParkIX" else KFORMS:
            out.append(dict(w=w, kf=kf, nf=nf[i % len(nf)] if kf else ""))
            i += 1
    return out


@case("P26", quick=_kq(), thorough=[dict(w=d["w"], kf=d["kf"], nf=nf) for d in _kq() for nf in (["0.0dd", "00dd", "0d", "0.d", "d", "d.dd", "00d", "0dddd", "dd"] if d["kf"] else [""])],
      bounds="{w} with growth {kf} of the form {nf}, any digits d, turbulence intensities and farm data")
def growths(ctx, w, kf, nf):
    """wake growth k, ka * TI + kb or ka * AMB_TI + kb of a named model, or the one of the farm data"""
    text, kw = growth(ctx, kf, nf)
    pre = WAKES[w][2] if w in WAKES else ""
    sup = ctx.choice("sup", ["linear", "max_loc", "quadratic_amb_lim"] if pre == "ws_" else ["linear", "max"])
    name = w + (f"_{sup}" if pre else "") + text + ("_dx50" if w == "TurbOParkIX" else "")
    book = foxes.models.ModelBook()
    kind = "wake_models" if pre else "wake_frames"
    m = get(ctx, book, kind, name)
    if pre:
        ctx.true("class", type(m) is WAKES[w][0], type(m).__name__)
        ctx.true("superposition", set(m.superpositions.values()) == {pre + sup}, f"{m.superpositions}")
    v = {x: ctx.reals(x, (1, 2), 0, 1) for x in (FV.TI, FV.AMB_TI, FV.K)}
    # the model's growth may be missing in farm data
    fd = lib.fdata({x: y for x, y in v.items() if x != FV.K or not kf or ctx.bool("kfarm")})
    td = lib.tdata(lib.filled(ctx, (1, 1, 1, 3), ctx.const(0)))
    al = lib.StubAlgo(1, 2, mbook=book, wake_models={})
    if not pre:
        j = wm.wind.JensenWake("ws_linear", k=None if not kf else ctx.const(7))
        al.wake_models["j"] = j
        m.initialize(al, verbosity=0)
    for i in range(2):
        k = m.wake_k(FC.STATE_TARGET, algo=al, fdata=fd, tdata=td, downwind_index=i, upcast=True)
        exp = kw["k"] if "k" in kw else v[FV.K][0, i] if not kf else kw["ka"] * v[kw.get("ti_var", FV.TI)][0, i] + kw.get("kb", 0)
        ctx.eq("k", np.asarray(k).reshape(-1)[0], exp)


@case("P26", quick=[dict(kf=k, nf=n) for k, n in (("k", "0d"), ("k", "0.dd"), ("amb_k", "0dd"), ("k_kb", "0dd"), ("amb_k_kb", "0d"), ("amb_k_kb", "0.d"), ("k_kb", "d.d"), ("", ""), ("amb", ""))],
      thorough=[dict(kf=k, nf=n) for k in ("k", "amb_k", "k_kb", "amb_k_kb") for n in ("0d", "00dd", "0.dd", "d", "dd", "d.dd")], bounds="one wake in a row of two turbines, growth {kf} of the form {nf}, any digits d")
def kti(ctx, kf, nf):
    """wake growth k = kTI * TI + kb, with the rotor's or the ambient TI"""
    DIGITS.clear()
    kT = kb = None
    name = "kTI" + ("_amb" if kf.startswith("amb") else "")
    if "k" in kf.split("_"):
        s, kT = number(ctx, "k", nf)
        name += "_" + s
    if kf.endswith("kb"):
        s, kb = number(ctx, "b", "00d" if "." not in nf else "0.00d")
        name += "_" + s
    for pre in ("",):
        book = foxes.models.ModelBook()
        if not pre:
            get(ctx, book, "turbine_models", name)
        book.turbine_types["T"] = lib.turbine_type(ctx)
        sv = foxes.models.turbine_models.SetFarmVars()
        kt = ctx.real("kti" + pre, 0, 1) if kT is None else kT
        sv.add_var(FV.KTI, lib.filled(ctx, (1, 2), kt if kT is None else ctx.const(7)))
        sv.add_var(FV.KB, lib.filled(ctx, (1, 2), ctx.const(0)))
        book.turbine_models["set"] = sv
        add = AddTI(ctx.real("dti" + pre, 0, 1))
        add.ctx = ctx
        book.wake_models["addti"] = add
        book.wake_superpositions["ti_linear_lin"] = wsp.TILinear(superp_to_amb="linear")
        ti = ctx.real("ti" + pre, 0.01, 1)
        farm = lib.farm_of(ctx, [(0.0, 0.0), (500.0, 0.0)], models=[["T"] + (["set"] if kT is None else []) + ([name] if not pre else [])] * 2)
        st = foxes.input.states.SingleStateStates(ws=ctx.const(8.0), wd=ctx.const(270.0), ti=ti, rho=ctx.const(1.225))
        with lib.engine():
            algo = foxes.algorithms.Downwind(farm, st, wake_models=["addti"], mbook=book, rotor_model="centre", partial_wakes="centre", wake_frame="rotor_wd", verbosity=0)
            r = algo.calc_farm()
        for i in range(2):
            t = ti if i == 0 or kf.startswith("amb") else ti + add.v
            ctx.eq("TI", r[FV.TI].to_numpy()[0, i], ti if i == 0 else ti + add.v)
            ctx.eq("k", r[FV.K].to_numpy()[0, i], kt * t + (0 if kb is None else kb))


SUPS = ["linear", "quadratic", "max", "cubic", "quartic"]
SUPN = [f"ws_{s}{o}" for s in SUPS for o in ("", "_amb", "_loc", "_loc_lim")] + ["ws_linear_lim", "ws_linear_amb_lim", "ws_quadratic_lim", "ws_quadratic_amb_lim", "ws_product", "ws_product_lim"]


@case("P26", quick=[dict(name=n, ids=i) for i, n in enumerate(SUPN)], bounds="two wakes of any strength, any ambient and rotor wind speeds", budget_s=60)
def superpositions(ctx, name, ids):
    """the named wind superpositions do what their names say"""
    from .p04_superposition import _spec
    book = foxes.models.ModelBook()
    s = book.wake_superpositions[name]
    kind = next(k for k in SUPS + ["product"] if f"_{k}" in name)
    low = 1e-4 if name.endswith("_lim") else None
    amb, rews, delta = ctx.real("amb", 1, 30), ctx.reals("rews", (1, 2), 0, 30), ctx.reals("d", (2,), -1, 0, hi_open=True)
    fd = lib.fdata({FV.REWS: rews, FV.AMB_REWS: lib.filled(ctx, (1, 2), amb)})
    td = lib.tdata(lib.filled(ctx, (1, 1, 1, 3), ctx.const(0)))
    md, al = lib.mdata(1), lib.StubAlgo(1, 2)
    wd = lib.filled(ctx, (1, 1, 1), ctx.const(0))
    sel = np.ones((1, 1), dtype=bool)
    s.initialize(al, verbosity=0)
    for w in range(2):
        wd = s.add_wake(al, md, fd, td, w, sel, FV.WS, wd, lib.filled(ctx, (1, 1), delta[w]))
    a = lib.filled(ctx, (1, 1, 1), amb)
    got = s.calc_final_wake_delta(al, md, fd, FV.WS, a, wd)
    K = {"linear": "WSLinear", "quadratic": "WSQuadratic", "max": "WSMax", "cubic": "WSPow", "quartic": "WSPow", "product": "WSProduct"}[kind] + ("Local" if "_loc" in name else "")
    sc = [amb] * 2 if "_amb" in name else list(rews[0])
    exp = _spec(K, amb, list(delta), sc, 4 if kind == "quartic" else 3)
    if low is not None:
        v = ctx.const(Fraction(1, 10000) if ctx.symbolic else 1e-4) - amb
        exp = v if exp < v else exp
    ctx.eq("wake delta", got[0, 0, 0] if got.ndim == 3 else got[0, 0], exp)


TIP = {"linear": 1, "quadratic": 2, "cubic": 3, "quartic": 4, "max": 0}


@case("P26", quick=[dict(kind=k) for k in TIP], bounds="two wakes of any strength, any ambient turbulence", budget_s=60)
def ti_superpositions(ctx, kind):
    """the named TI superpositions: combination of the wakes, then quadratic combination with the ambient turbulence"""
    book = foxes.models.ModelBook()
    s = book.wake_superpositions["ti_" + kind]
    amb, d = ctx.real("amb", 0, 1), ctx.reals("d", (2,), 0, 1)
    fd = lib.fdata({FV.TI: lib.filled(ctx, (1, 2), amb), FV.AMB_TI: lib.filled(ctx, (1, 2), amb)})
    td = lib.tdata(lib.filled(ctx, (1, 1, 1, 3), ctx.const(0)))
    md, al = lib.mdata(1), lib.StubAlgo(1, 2)
    wd = lib.filled(ctx, (1, 1, 1), ctx.const(0))
    sel = np.ones((1, 1), dtype=bool)
    s.initialize(al, verbosity=0)
    for w in range(2):
        wd = s.add_wake(al, md, fd, td, w, sel, FV.TI, wd, lib.filled(ctx, (1, 1), d[w]))
    got = s.calc_final_wake_delta(al, md, fd, FV.TI, lib.filled(ctx, (1, 1, 1), amb), wd)[0, 0, 0] + amb
    p = TIP[kind]
    # squares and higher powers of the expected total wake, without roots where possible
    if p == 0:
        m = d[0] if d[0] > d[1] else d[1]
        ctx.eq("TI", got**2, amb**2 + m**2)
    elif p in (1, 2):
        ctx.eq("TI", got**2, amb**2 + (sum(d) ** 2 if p == 1 else sum(x**2 for x in d)))
    else:
        w = (d[0] ** p + d[1] ** p) ** (1 / p)
        ctx.eq("TI", got**2, amb**2 + w**2)
    ctx.le("positive", 0, got)


FRAMES = [("streamlines_", "", "d", 1, "step"), ("streamlines_", "", "dd.d", 1, "step"), ("timelines_", "s", "dd", 60, "dt_min"), ("timelines_", "min", "d", 1, "dt_min"), ("timelines_", "s", "d.d", 60, "dt_min"),
          ("seq_dyn_wakes_", "s", "d", 60, "dt_min"), ("seq_dyn_wakes_", "min", "d.d", 1, "dt_min"), ("dyn_wakes_", "km", "d.d", 1, "max_length_km"), ("dyn_wakes_", "m", "dddd", 1000, "max_length_km"), ("dyn_wakes_", "km", "dd", 1, "max_length_km")]
FCLS = dict(streamlines_="Streamlines2D", timelines_="Timelines", seq_dyn_wakes_="SeqDynamicWakes", dyn_wakes_="DynamicWakes")


@case("P26", quick=[dict(i=i) for i in range(len(FRAMES))], bounds="any digits")
def frames(ctx, i):
    """step sizes, time steps and lengths of named wake frames, in their units"""
    pre, unit, nf, div, attr = FRAMES[i]
    DIGITS.clear()
    s, v = number(ctx, "x", nf)
    book = foxes.models.ModelBook()
    f = get(ctx, book, "wake_frames", pre + s + unit)
    ctx.true("class", type(f).__name__ == FCLS[pre], type(f).__name__)
    ctx.eq(attr, getattr(f, attr) * div, v)


@case("P26", quick=[dict(nf=n) for n in ("ddd", "ddd.d")], bounds="mirror at any height below 1000 m of the form {nf}; any distance, one point")
def mirror(ctx, nf):
    """boundary layer mirrors reflect wakes at the ground and at the height in the name"""
    DIGITS.clear()
    s, v = number(ctx, "x", nf)
    book = foxes.models.ModelBook()
    g = get(ctx, book, "ground_models", "blh_mirror_h" + s)
    hs = list(g.heights)
    ctx.true("number of heights", len(hs) == 2)
    ctx.eq("ground", hs[0], 0)
    ctx.eq("height", hs[1], v)


@case("P26", quick=[dict(k=k, n=n, raw=r) for k, n, r in (("grid", 1, False), ("grid", 4, True), ("grid", 9, False), ("level", 1, True), ("level", 5, False), ("level", 4, True))], bounds="{k} rotor with n^2 or n = {n} points; any wind speeds at the rotor points")
def rotors(ctx, k, n, raw):
    """number of points of named rotor models, and whether results are means over the points"""
    book = foxes.models.ModelBook()
    name = f"{k}{n}" + ("_raw" if raw else "")
    m = book.rotor_models[name]
    st = foxes.input.states.SingleStateStates(ws=ctx.const(8.0), wd=ctx.const(270.0), ti=ctx.const(Fraction(1, 10)), rho=ctx.const(1.225))
    m.initialize(lib.StubAlgo(1, 1, states=st), verbosity=0)
    ctx.true("number of points", m.n_rotor_points() == n, f"{m.n_rotor_points()}")
    dp = m.design_points()
    ctx.true("design points", dp.shape == (n, 3), f"{dp.shape}")
    ctx.true("average", m.reduce is not raw)
    if k == "grid":
        with ctx.raises("not a square", Exception):
            book.rotor_models["grid7"]


@case("P26", quick=[dict(k=k) for k in ("unknown", "class", "other", "mixed", "partial")], bounds="single lookups, any digits")
def lookup(ctx, k):
    """lookups: unknown names are errors, models are created once, with their own parameters"""
    DIGITS.clear()
    book = foxes.models.ModelBook()
    if k == "unknown":
        for kind, name in (("wake_models", "Nothing_linear_k004"), ("turbine_models", "kTI_abc"), ("wake_frames", "timelines_5x"), ("rotor_models", "grid"), ("wake_frames", "streamlines_"), ("turbine_types", "x")):
            try:
                book.sources[kind][name]
                ctx.fail("unknown name", name)
            except (KeyError, NotImplementedError, IndexError):
                ctx.true("unknown name", True)
    elif k == "class":
        v = ctx.real("v", 0, 1)
        m = book.get("wake_models", "mine", "JensenWake", superposition="ws_linear", k=v)
        ctx.true("stored", book.wake_models["mine"] is m and book.get("wake_models", "mine") is m)
        with ctx.raises("unknown", KeyError):
            book.get("wake_models", "yours")
    elif k == "other":
        # two names with different values are two models
        (s, v), (t, w) = number(ctx, "a", "0d"), number(ctx, "b", "0dd")
        tm = [get(ctx, book, "turbine_models", "kTI_" + x) for x in (s, t)]
        ctx.true("two models", tm[0] is not tm[1])
        for m, x in zip(tm, (v, w)):
            ctx.eq("kTI", getattr(m, FV.KTI), x)
        # other books are not concerned
        ctx.true("other book", ("kTI_" + s) not in dict.keys(foxes.models.ModelBook().turbine_models))
    elif k == "mixed":
        # the same template with and without ambient turbulence
        s, v = number(ctx, "a", "0d")
        names = ["Jensen_linear_ambka" + s, "Jensen_linear_ka" + s, "Jensen_linear_k" + s, "Jensen_linear"]
        order = ctx.permutation("p", 3)
        ms = {}
        for i in order:
            ms[i] = get(ctx, book, "wake_models", names[i])
        fd = lib.fdata({FV.TI: lib.filled(ctx, (1, 1), ctx.const(Fraction(1, 5))), FV.AMB_TI: lib.filled(ctx, (1, 1), ctx.const(Fraction(1, 10))), FV.K: lib.filled(ctx, (1, 1), ctx.const(9))})
        td = lib.tdata(lib.filled(ctx, (1, 1, 1, 3), ctx.const(0)))
        for i, f in zip(range(3), (Fraction(1, 10), Fraction(1, 5), 1)):
            got = ms[i].wake_k(FC.STATE_TARGET, algo=lib.StubAlgo(1, 1), fdata=fd, tdata=td, downwind_index=0, upcast=True)
            ctx.eq("k", np.asarray(got).reshape(-1)[0], v * (f if ctx.symbolic else float(f)))
    else:
        for n in (1, 5, 6):
            m = book.partial_wakes[f"axiwake{n}"]
            ctx.true("axiwake", m.n == n)
        for n in (1, 9):
            m = book.partial_wakes[f"grid{n}"]
            st = foxes.input.states.SingleStateStates(ws=ctx.const(8.0), wd=ctx.const(270.0), ti=ctx.const(0.1), rho=ctx.const(1.2))
            al = lib.StubAlgo(1, 1, mbook=book, states=st)
            m.initialize(al, verbosity=0)
            xyh = lib.filled(ctx, (1, 1, 3), ctx.real(f"x{n}", 0, 100))
            fd = lib.fdata({FV.TXYH: xyh, FV.D: lib.filled(ctx, (1, 1), ctx.const(100.0)), FV.WD: lib.filled(ctx, (1, 1), ctx.const(270.0)), FV.AMB_WD: lib.filled(ctx, (1, 1), ctx.const(270.0)),
                            FV.YAW: lib.filled(ctx, (1, 1), ctx.const(270.0))})
            p, w = m.get_wake_points(al, lib.mdata(1), fd)
            ctx.true("number of points", p.shape == (1, 1, n, 3) and w.shape == (n,), f"{p.shape}")
            if n == 1:
                ctx.eq_arr("centre", p[0, 0, 0], xyh[0, 0])
