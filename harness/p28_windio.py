"""calculations that are described by windIO documents"""
import contextlib
import io
import math
import numbers
import sys
import numpy as np
import pandas as pd
import foxes
import foxes.variables as FV
import foxes.constants as FC
from foxes.input.yaml import run_dict
from foxes.input.yaml.windio import read_windio
from foxes.utils import Dict
from symx.runner import case
from . import lib
from .p27_dict import same, snapshot, unchanged

# functions of the packages have the names of these modules
mod_fields, mod_site = (sys.modules[f"foxes.input.yaml.windio.{m}"] for m in ("read_fields", "read_site"))
mod_slice, mod_table = (sys.modules[f"foxes.output.{m}"] for m in ("slice_data", "state_turbine_table"))
W = foxes.models.wake_models


class _N(type):
    def __instancecheck__(cls, x):
        return isinstance(x, numbers.Number) or hasattr(x, "e")


class AnyNumber(metaclass=_N):
    """numbers, including the symbolic ones"""


class reading:
    def __enter__(self):
        self.old = [(m, m.Number) for m in (mod_fields, mod_site)]
        for m, o in self.old:
            m.Number = AnyNumber
        self.out = contextlib.redirect_stdout(io.StringIO())
        self.out.__enter__()

    def __exit__(self, *a):
        for m, o in self.old:
            m.Number = o
        self.out.__exit__(*a)
        return False


XY = [(0.0, 0.0), (700.0, 20.0), (1500.0, -30.0)]
H, D = 100.0, 100.0


def field(d, *dims):
    return dict(data=list(d), dims=list(dims))


def resource(ctx, S, ws, wd=270.0, ti=0.08, raw=False):
    """a time series, the first wind speed as given"""
    k = (lambda x: x) if raw or hasattr(ti, "e") else ctx.const
    return dict(time=[10 * s for s in range(S)], wind_speed=field([ws] + [(float if raw else ctx.const)(9.5 + s) for s in range(1, S)], "time"),
                wind_direction=field([ctx.const(wd)] * S, "time"), turbulence_intensity=field([k(ti)] * S, "time"))


def turbine(ctx, P=(0.0, 5000.0), ct=(0.75, 0.75), name="T", raw=False, **kw):
    c = lambda l: [ctx.const(x) if isinstance(x, (int, float)) and not hasattr(x, "e") and not raw else x for x in l]
    return dict(dict(name=name, hub_height=H, rotor_diameter=D, performance=dict(power_curve=dict(power_values=c(P), power_wind_speeds=[0.0, 50.0]), Ct_curve=dict(Ct_values=c(ct), Ct_wind_speeds=[0.0, 50.0]))), **kw)


def document(res, xy=XY, turbines=None, analysis=None, **kw):
    ana = dict(wind_deficit_model=dict(name="Jensen", wake_expansion_coefficient=dict(k_a=0.0, k_b=0.05)), superposition_model=dict(ws_superposition="Linear", ti_superposition="Squared"))
    ana.update(analysis or {})
    farm = dict(name="farm", layouts=[dict(coordinates=dict(x=[p[0] for p in xy], y=[p[1] for p in xy]))])
    farm.update(turbines)
    return dict(name="doc", site=dict(name="site", boundaries=dict(polygons=[]), energy_resource=dict(name="res", wind_resource=res)), wind_farm=farm, attributes=dict(flow_model=dict(name="foxes"), analysis=ana, **kw))


def read(ctx, doc, **kw):
    """reading leaves the document as it is, and works again"""
    s = snapshot(doc)
    with reading():
        idict, al, od = read_windio(doc, verbosity=ctx_verb(kw))
    unchanged(ctx, doc, s)
    return idict, al, od


class few:
    """grid rotors integrate their weights with 10 instead of 200 steps per element, in both calculations"""

    def __enter__(self):
        f = foxes.models.rotor_models.GridRotor.__init__
        self.f, self.d = f, f.__defaults__
        f.__defaults__ = tuple(10 if x == 200 else x for x in self.d)

    def __exit__(self, *a):
        self.f.__defaults__ = self.d


def coarse(f):
    def g(*a, **k):
        with few():
            return f(*a, **k)
    g.__name__, g.__doc__ = f.__name__, f.__doc__
    return g


def ctx_verb(kw):
    return kw.get("verbosity", 0)


def run(ctx, doc, **kw):
    idict, al, od = read(ctx, doc, **kw)
    idict["engine"] = dict(engine_type="SingleChunkEngine")
    with reading():
        out = run_dict(idict, algo=al, verbosity=0)
    return out, al, od


def direct(ctx, S, ws, wakes, states=None, xy=XY, mb=None, cls="Downwind", ct=(0.75, 0.75), wd=270.0, ti=0.08, raw=False, **kw):
    """the calculation with the classes"""
    mb = foxes.ModelBook() if mb is None else mb
    k = (lambda x: x) if raw else ctx.const
    if "T" not in mb.turbine_types:
        mb.turbine_types["T"] = lib.turbine_type(ctx, ws=(0.0, 50.0), P=[k(0.0), k(5000.0)], ct=[k(x) for x in ct], P_nominal=k(5000.0), D=D, H=H, var_ws_ct=FV.REWS, var_ws_P=FV.REWS)
    for i, w in enumerate(wakes):
        mb.wake_models[f"w{i}"] = w
    farm = lib.farm_of(ctx, xy, models=[["T"]] * len(xy))
    if states is None:
        df = pd.DataFrame(index=[10 * s for s in range(S)], data={FV.WS: [ws] + [k(9.5 + s) for s in range(1, S)], FV.WD: [ctx.const(wd)] * S, FV.TI: [ti if hasattr(ti, "e") else k(ti)] * S})
        states = foxes.input.states.StatesTable(df, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], fixed_vars={FV.RHO: 1.225})
    a = getattr(foxes.algorithms, cls)(farm, states, wake_models=[f"w{i}" for i in range(len(wakes))], mbook=mb, verbosity=0, **kw)
    with lib.engine():
        return a.calc_farm()


def compare(ctx, r, e):
    same(ctx, r.drop_vars([v for v in (FC.TNAME,) if v in r]), e.drop_vars([v for v in (FC.TNAME,) if v in e]), (FV.X, FV.Y, FV.H, FV.D, FV.REWS, FV.AMB_REWS, FV.WD, FV.TI, FV.CT, FV.P, FV.RHO, FV.ORDER, FV.WEIGHT))


SITES = ("series", "numbers", "default ti", "z0", "z0 per time", "LMO", "heights", "heights first", "heights and ti per time", "probability", "single", "single z0", "verbose")


@case("P28", quick=[dict(kind=k) for k in SITES], bounds="two states and turbines without wakes, any wind speed and turbulence of a state; wind resource: {kind}")
def site(ctx, kind):
    """the inflow is the wind resource of the document"""
    S, wd = 2, (270.0, 180.0)
    w, t = ctx.real("ws", 5, 20), ctx.real("ti", 0.02, 0.2)
    ws, ti, h = [w, ctx.const(9.0)], [t, ctx.const(0.06)], [100.0, 140.0]
    res = dict(time=[0, 30], wind_speed=field(ws, "time"), wind_direction=field([ctx.const(x) for x in wd], "time"), turbulence_intensity=field(ti, "time"))
    exp = lambda s, i: (ws[s], ti[s])
    wgt = [ctx.const(0.5)] * 2
    fac = lambda z, z0, h0: math.log(z / z0) / math.log(h0 / z0)
    kw = dict(verbosity=0)
    if kind == "numbers":
        res["turbulence_intensity"] = t
        exp = lambda s, i: (ws[s], t)
    elif kind == "default ti":
        del res["turbulence_intensity"]
        exp = lambda s, i: (ws[s], 0.05)
    elif kind == "z0":
        res.update(z0=0.05, reference_height=80.0)
        exp = lambda s, i: (ws[s] * fac(h[i], 0.05, 80.0), ti[s])
    elif kind == "z0 per time":
        res.update(z0=field([0.05, 0.2], "time"), reference_height=80.0)
        exp = lambda s, i: (ws[s] * fac(h[i], (0.05, 0.2)[s], 80.0), ti[s])
    elif kind == "LMO":
        res.update(z0=0.05, reference_height=80.0, LMO=field([200.0, 0.0], "time"))
        st = [math.log(z / 0.05) + 5 * z / 200.0 for z in (h[0], h[1], 80.0)]
        exp = lambda s, i: (ws[s] * (st[i] / st[2] if s == 0 else fac(h[i], 0.05, 80.0)), ti[s])
    elif kind.startswith("heights"):
        hs = [80.0, 120.0, 160.0]
        tab = [[w, w * 1.25, w * 1.5], [ctx.const(9.0), ctx.const(10.0), ctx.const(10.5)]]
        tt = [[t, t, t], [ctx.const(0.06)] * 3]
        ww = [[ctx.const(x)] * 3 for x in wd]
        res["height"] = hs
        if kind == "heights first":
            T = lambda a: [list(x) for x in zip(*a)]
            res.update(wind_speed=field(T(tab), "height", "time"), wind_direction=field(T(ww), "height", "time"), turbulence_intensity=field(T(tt), "height", "time"))
        else:
            res.update(wind_speed=field(tab, "time", "height"))
            if kind == "heights":
                res.update(wind_direction=field(ww, "time", "height"), turbulence_intensity=field(tt, "time", "height"))
        exp = lambda s, i: ((tab[s][0] + tab[s][1]) / 2 if i == 0 else (tab[s][1] + tab[s][2]) / 2, ti[s])
    elif kind == "probability":
        wgt = [ctx.real("p", 0, 1), ctx.const(0.25)]
        res["probability"] = field(wgt, "time")
    elif kind.startswith("single"):
        S, wd, wgt = 1, (180.0,), [1.0]
        res = dict(wind_speed=w, wind_direction=ctx.const(180.0), turbulence_intensity=t)
        if kind == "single z0":
            res.update(z0=0.05, reference_height=80.0)
            exp = lambda s, i: (w * fac(h[i], 0.05, 80.0), t)
        else:
            exp = lambda s, i: (w, t)
    elif kind == "verbose":
        kw = dict(verbosity=5)
    ty = {k: turbine(ctx, name=k, hub_height=z) for k, z in zip("AB", h)}
    doc = document(res, [(0.0, 0.0), (500.0, 9000.0)], dict(turbine_types=ty))
    doc["wind_farm"]["layouts"][0]["turbine_types"] = ["A", "B"]
    doc["attributes"]["analysis"]["wind_deficit_model"]["wake_expansion_coefficient"]["k_b"] = 0.01
    (r, o), al, od = run(ctx, doc, **kw)
    ctx.true("states", r.sizes[FC.STATE] == S and (S == 1 or [int(x) for x in r[FC.STATE].to_numpy()] == [0, 30]), f"{r[FC.STATE]}")
    for s in range(S):
        ctx.eq("weight", r[FV.WEIGHT].to_numpy()[s], wgt[s])
        for i in range(2):
            a, b = exp(s, i)
            for v, x in ((FV.AMB_REWS, a), (FV.REWS, a), (FV.AMB_TI, b), (FV.TI, b), (FV.WD, wd[s]), (FV.RHO, 1.225), (FV.H, h[i]), (FV.P, 100 * a)):
                ctx.eq(v, r[v].to_numpy()[s, i], x, tol=1e-8)


@case("P28", quick=[dict(cp=c, many=m) for c in (False, True) for m in (False, True)] + [dict(cp=c, many="layouts") for c in (False,)], bounds="two states; any wind speed, curve values, hub height and turbine position; Cp curve: {cp}, several types: {many}")
def turbines(ctx, cp, many):
    """the turbines are those of the document, with its power and thrust curves"""
    # the curve of a Cp type is refined in steps of 0.1 mm/s
    lo, hi = (8.0, 8.01) if cp else (0.0, 20.0)
    w = ctx.const(8.004) if cp else ctx.real("ws", 6, 14)
    y, hh = ctx.real("y", 5000, 6000), ctx.real("h", 80, 120)
    c0, p0 = ctx.real("ct", 0.2, 0.7), ctx.real("p", 0.2, 0.5)
    def ttype(name, f, **kw):
        c, p = [c0 * f, ctx.const(0.5)], [p0 * f, ctx.const(0.4)]
        curve = dict(Ct_curve=dict(Ct_values=c, Ct_wind_speeds=[lo, hi]))
        if cp:
            curve["Cp_curve"] = dict(Cp_values=p, Cp_wind_speeds=[lo, hi])
        else:
            curve["power_curve"] = dict(power_values=p, power_wind_speeds=[0.0, 20.0])
        return dict(name=name, performance=curve, **kw)

    def curve(a, b, u):
        return a + (b - a) * (u - lo) / (hi - lo)

    spec = {"first": (1, 100.0, hh), "second": (0.5, 80.0, 110.0)}
    types = {n: ttype(n, f, rotor_diameter=d, hub_height=z) for n, (f, d, z) in spec.items()}
    doc = document(resource(ctx, 2, w), [(0.0, 0.0), (100.0, y), (200.0, 12000.0)], dict(turbines=types["first"]) if not many else dict(turbine_types={7: types["second"], 0: types["first"]}))
    lay = doc["wind_farm"]["layouts"]
    names = ["first"] * 3
    if many:
        lay[0]["turbine_types"] = [7, 0, 7]
        names = ["second", "first", "second"]
    if many == "layouts":
        doc["wind_farm"]["layouts"] = dict(a=lay[0], b=dict(coordinates=dict(x=[300.0], y=[-9000.0]), turbine_types=[0]))
        names.append("first")
    (r, o), al, od = run(ctx, doc)
    xy = [(0.0, 0.0), (100.0, y), (200.0, 12000.0), (300.0, -9000.0)]
    ctx.true("number of turbines", r.sizes[FC.TURBINE] == len(names))
    for s in range(1 if cp else 2):
        u = (w, 10.5)[s]
        for i, n in enumerate(names):
            f, d, z = spec[n]
            for v, x in ((FV.X, xy[i][0]), (FV.Y, xy[i][1]), (FV.D, d), (FV.H, z), (FV.REWS, u), (FV.CT, curve(c0 * f, 0.5, u))):
                ctx.eq(v, r[v].to_numpy()[s, i], x, tol=1e-8)
            p = r[FV.P].to_numpy()[s, i]
            if not cp:
                ctx.eq("power", p, curve(p0 * f, 0.4, u), tol=1e-8)
            else:
                e = 0.5 * 1.225 * math.pi * d * d / 4 * curve(p0 * f, 0.4, u) * u**3 / 1000
                ctx.true("power", abs(p - e) <= 1e-4 * e, f"{p}, expected about {e}")


EXPS = [(False, 1, 1), (False, 3, 2), (False, 2, 3), (True, 3, 1), (True, 1, 2)]


@case("P28", quick=[dict(cp=c, P=p, ct=q) for c, p, q in EXPS], bounds="one state of any wind speed with a log profile, 3 x 3 rotor points; Cp curve: {cp}; exponents {P} for power, {ct} for thrust")
@coarse
def exponents(ctx, cp, P, ct):
    """power and thrust follow the rotor average with the exponent of the document"""
    w = ctx.choice("ws", (7.0, 11.0))
    a = ctx.real("a", 0.2, 0.5)
    res = dict(resource(ctx, 1, ctx.const(w)), z0=0.3, reference_height=100.0)
    t = turbine(ctx, ct=(0.8, a))
    w = float(w)
    if cp:
        t["performance"]["Cp_curve"] = dict(Cp_values=[a, a], Cp_wind_speeds=[w - 0.5, w + 0.5])
        del t["performance"]["power_curve"]
    else:
        t["performance"]["power_curve"]["power_values"] = [ctx.const(0.0), 5000 * a]
    doc = document(res, [(0.0, 0.0)], dict(turbines=t), dict(rotor_averaging=dict(grid="grid", n_x_grid_points=3, n_y_grid_points=3, background_averaging="grid", wake_averaging="centre", wind_speed_exponent_for_power=P, wind_speed_exponent_for_ct=ct)))
    (r, o), al, od = run(ctx, doc)
    g = lambda v: r[v].to_numpy()[0, 0]
    rm = al.rotor_model
    zs, ww = [float(x) * D / 2 + H for x in rm.design_points()[:, 2]], [float(x) for x in rm.rotor_point_weights()]
    us = [w * math.log(z / 0.3) / math.log(H / 0.3) for z in zs]
    u = {n: sum(q * x**n for q, x in zip(ww, us)) ** (1 / n) for n in (1, 2, 3)}
    ctx.true("averages differ", abs(u[1] - u[2]) > 1e-3 and abs(u[2] - u[3]) > 1e-3, f"{u}")
    ctx.eq("thrust", g(FV.CT), 0.8 + (a - 0.8) * u[ct] / 50, tol=1e-9)
    if cp:
        e = 0.5 * 1.225 * math.pi * D * D / 4 * a * u[P]**3 / 1000
        ctx.true("power", abs(g(FV.P) - e) <= 1e-3 * e, f"{g(FV.P)}, expected about {e}")
    else:
        ctx.eq("power", g(FV.P), 100 * a * u[P], tol=1e-9)


# deficit model, effective wind speed, superposition, k, other parameters
ANA = dict(
    jensen=dict(w="Jensen", sup="Linear", k=("kb",)),
    jensen_amb=dict(w="Jensen", eff=False, sup="Squared", k=("ka", "kb", "amb"), ind="Madsen"),
    jensen_ti=dict(w="Jensen", eff=True, sup="Squared", k=("ka", "kb"), ti="CrespoHernandez", tsup="Squared"),
    jensen_product=dict(w="Jensen", sup="Product", k=("kb",), key="wake_model"),
    jensen_linamb=dict(w="Jensen", eff=False, sup="Linear", k=("ka",), ti="IEC-TI-2019", tsup="Linear"),
    gauss=dict(w="Bastankhah2014", sup="Linear", k=("kb",), ceps=0.22, ind="Madsen"),
    gauss_amb=dict(w="Bastankhah2014", eff=False, sup="Squared", k=("ka", "kb", "amb"), ti="CrespoHernandez", tsup="Linear", tik=("kb",)),
    gauss16=dict(w="Bastankhah2016", sup="Linear", k=("kb",), ind="Madsen"),
    own_ti=dict(w="Jensen", sup="Linear", k=("ka", "kb", "amb"), ti="CrespoHernandez", tsup="Linear", tik=("ka",)),
    own_amb=dict(w="Jensen", sup="Linear", k=("ka", "kb"), ti="CrespoHernandez", tsup="Squared", tik=("ka", "kb", "amb")),
    turbopark=dict(w="TurbOPark", sup="Squared", eff=False, k=("kb",)),
    rankine=dict(w="Jensen", sup="Linear", k=("kb",), block="RankineHalfBody"),
    similar=dict(w="Jensen", sup="Linear", k=("kb",), block="SelfSimilarityDeficit", ti="None"),
    similar20=dict(w="Jensen", sup="Linear", k=("kb",), block="SelfSimilarityDeficit2020", ind="Madsen"),
    rathmann=dict(w="Jensen", sup="Linear", k=("kb",), block="Rathmann"),
    straight=dict(w="Jensen", sup="Linear", k=("kb",), defl="None", block="None"),
    deflect=dict(w="Bastankhah2014", sup="Linear", k=("kb",), defl="Bastankhah2016", ind="Madsen"),
)
CLS = dict(Jensen=W.wind.JensenWake, Bastankhah2014=W.wind.Bastankhah2014, Bastankhah2016=W.wind.Bastankhah2016, TurbOPark=W.wind.TurbOParkWake)
SUP = dict(Linear="ws_linear", Squared="ws_quadratic", Product="ws_product")
TSUP = dict(Linear="ti_linear", Squared="ti_quadratic")
BLOCK = dict(RankineHalfBody="RankineHalfBody", SelfSimilarityDeficit="SelfSimilar", SelfSimilarityDeficit2020="SelfSimilar2020", Rathmann="Rathmann")


@case("P28", quick=[dict(name=n) for n in ANA], bounds="two or three turbines in a row, constant thrust, two states; any wind speed of the first state, any expansion of the wakes (jensen, jensen_amb), or any turbulence (blockage models); analysis {name}")
@coarse
def analysis(ctx, name):
    """the wake calculation is the one the analysis section describes"""
    a = dict(eff=True, ind=None, ti=None, tsup="Squared", block=None, defl=None, ceps=None, key="wind_deficit_model", tik=None)
    a.update(ANA[name])
    jens = a["w"] == "Jensen"
    # what is arbitrary: the wake expansion, the turbulence, or the wind speed
    mode = "k" if name in ("jensen", "jensen_amb") else "ti" if name in ("rankine", "similar", "similar20", "rathmann") else "ws"
    w = ctx.real("ws", 8, 14) if mode == "ws" else 9.25
    kb, ka = (ctx.real("kb", 0.03, 0.06), ctx.real("ka", 0.3, 0.5)) if mode == "k" else (0.04, 0.4)
    ti = ctx.real("ti", 0.05, 0.1) if mode == "ti" else 0.08
    raw = mode == "ti" or name == "gauss16"
    xy = XY[:2] if mode == "k" or name == "gauss16" else [(0.0, 0.0), (600.0, 5.0), (1300.0, 100.0)] if name[:4] == "own_" else XY

    def coef(m):
        d = dict(k_a=ka if "ka" in m else ctx.choice("no", (None, 0.0)) if name == "jensen" else 0.0)
        if "kb" in m:
            d["k_b"] = kb
        if "amb" in m:
            d["free_stream_ti"] = True
        return d

    def kargs(m):
        if "ka" not in m:
            return dict(k=kb)
        return dict(ka=ka, kb=kb if "kb" in m else 0.0, ti_var=FV.AMB_TI if "amb" in m else FV.TI)

    ana = {a["key"]: dict(name=a["w"], wake_expansion_coefficient=coef(a["k"])), "superposition_model": dict(ws_superposition=a["sup"], ti_superposition=a["tsup"])}
    if not a["eff"]:
        ana[a["key"]]["use_effective_ws"] = False
    if a["ceps"] is not None:
        ana[a["key"]]["ceps"] = a["ceps"]
    for k, q in (("ti", "turbulence_model"), ("block", "blockage_model"), ("defl", "deflection_model")):
        if a[k] is not None:
            ana[q] = dict(name=a[k])
    if a["tik"]:
        ana["turbulence_model"]["wake_expansion_coefficient"] = coef(a["tik"])
    ind = "Madsen" if a["ind"] == "Madsen" else "Betz"
    if a["ind"]:
        ana["axial_induction_model"] = a["ind"]
    doc = document(resource(ctx, 2, w, ti=ti, raw=raw), xy, turbines=dict(turbines=turbine(ctx, raw=raw)))
    doc["attributes"]["analysis"] = ana
    if name == "jensen":
        doc["attributes"]["flow_model"]["name"] = "pywake"
    sup = SUP[a["sup"]] + ("" if a["eff"] or a["sup"] == "Product" else "_amb")
    kw = dict(sbeta_factor=a["ceps"]) if a["ceps"] is not None else {}
    wakes = [CLS[a["w"]](superposition=sup, induction=ind, **kw, **kargs(a["k"]))]
    kk = kargs(a["tik"] or a["k"])
    if a["ti"] == "CrespoHernandez":
        wakes.append(W.ti.CrespoHernandezTIWake(superposition=TSUP[a["tsup"]], induction=ind, **kk))
    elif a["ti"] == "IEC-TI-2019":
        wakes.append(W.ti.IECTIWake(superposition=TSUP[a["tsup"]], induction=ind, opening_angle=None, iec_type="2019", **kk))
    d = {}
    if a["block"] not in (None, "None"):
        wakes.append(getattr(W.induction, BLOCK[a["block"]])(induction=ind))
        d["cls"] = "Iterative"
    mb = foxes.ModelBook()
    if a["defl"] == "Bastankhah2016":
        mb.wake_frames["yw"] = foxes.models.wake_frames.YawedWakes(induction=ind)
        d["wake_frame"] = "yw"
    (r, o), al, od = run(ctx, doc)
    compare(ctx, r, direct(ctx, 2, w, wakes, xy=xy, ti=ti, raw=raw, mb=mb, **d))


ROT = [("centre", "centre", "grid", "centre", "centre"), ("center", "center", "grid", "centre", "centre"), ("grid", "grid", "grid", "grid4", "rotor_points"), ("centre", "grid", "grid", "centre", "grid4"), ("centre", "grid", "axiwake12", "centre", "axiwake12"),
       ("grid", "none", "grid", "grid4", None), ("level4", "top_hat", "grid", "level4", "top_hat"), ("none", "auto", "grid", "centre", None), ("grid", "centre", "grid", "grid4", "centre")]


@case("P28", quick=[dict(i=i) for i in range(len(ROT))], bounds="two turbines with partly overlapping wake in a log profile, any wind speed; averaging {i}")
@coarse
def averaging(ctx, i):
    """rotor and wake averaging are those of the analysis section"""
    bg, wk, grid, rotor, partial = ROT[i]
    w = ctx.real("ws", 8, 14)
    res = dict(resource(ctx, 1, w), z0=0.3, reference_height=100.0)
    xy = [(0.0, 0.0), (700.0, 70.0)]
    doc = document(res, xy, dict(turbines=turbine(ctx)), dict(rotor_averaging=dict(grid=grid, n_x_grid_points=2, n_y_grid_points=2, background_averaging=bg, wake_averaging=wk, wind_speed_exponent_for_power=1, wind_speed_exponent_for_ct=1)))
    (r, o), al, od = run(ctx, doc)
    df = pd.DataFrame(index=[0], data={FV.WS: [w], FV.WD: [ctx.const(270.0)], FV.TI: [ctx.const(0.08)]})
    st = foxes.input.states.StatesTable(df, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], fixed_vars={FV.RHO: 1.225, FV.Z0: 0.3, FV.H: 100.0}, profiles={FV.WS: "ABLLogNeutralWsProfile"})
    e = direct(ctx, 1, w, [W.wind.JensenWake(k=0.05, superposition="ws_linear", induction="Betz")], states=st, xy=xy, rotor_model=rotor, partial_wakes=partial)
    ctx.true("wake", e[FV.REWS].to_numpy()[0, 1] < e[FV.AMB_REWS].to_numpy()[0, 1])
    compare(ctx, r, e)


OUT = ("all", "subset", "planes", "grid", "number", "no report", "default")


@case("P28", quick=[dict(kind=k) for k in OUT], bounds="two turbines, three states, any wind speed; outputs {kind}")
def outputs(ctx, kind):
    """the written files have the requested variables, states and points"""
    w = ctx.real("ws", 8, 14)
    spec = dict(output_folder="res", cases_run=dict(all_occurences=True), turbine_outputs=dict(turbine_nc_filename="t.nc", output_variables=["power", "rotor_effective_velocity"]))
    zp = dict(z_sampling="plane_list", z_list=[90.0, 130.0], xy_sampling="grid", x_bounds=[100, 1100], y_bounds=[-50, 50], dx=500, dy=60)
    ff = dict(report=True, flow_nc_filename="f.nc", output_variables=["wind_speed", "wind_direction"], z_planes=zp)
    sts, zs = [0, 1, 2], [90.0, 130.0]
    if kind != "all":
        spec["flow_field"] = ff
    if kind == "subset":
        spec["cases_run"] = dict(all_occurences=False, subset=[2, 0])
        sts = [2, 0]
        zp["z_sampling"] = "hub_heights"
        zs = [H]
    elif kind == "grid":
        zp.update(z_sampling="grid", z_bounds=[50, 150], z_number=3)
        zs = [50.0, 100.0, 150.0]
    elif kind == "number":
        zp["z_sampling"] = 75
        zs = [75.0]
    elif kind == "no report":
        ff["report"] = spec["turbine_outputs"]["report"] = False
    elif kind == "default":
        del spec["cases_run"], spec["output_folder"], spec["turbine_outputs"]["turbine_nc_filename"], ff["flow_nc_filename"]
    xy = XY[:2]
    doc = document(resource(ctx, 3, w), xy, dict(turbines=turbine(ctx)), model_outputs_specification=spec)
    files = []

    def write(ds, fpath, **kw):
        files.append((str(fpath).split("/")[-1], ds.copy(deep=True), kw))

    old = [(m, m.write_nc) for m in (mod_slice, mod_table)]
    for m, _ in old:
        m.write_nc = write
    try:
        (r, o), al, od = run(ctx, doc)
    finally:
        for m, f in old:
            m.write_nc = f
    ctx.true("folder", od == ("." if kind == "default" else "res"), f"{od}")
    names = [] if kind == "no report" else ["t.nc"] if kind == "all" else ["turbine_outputs.nc", "flow_field.nc"] if kind == "default" else ["t.nc", "f.nc"]
    last = {n: d for n, d, _ in files}
    ctx.true("files", [n for n, *_ in files] == names, f"{[n for n, *_ in files]}")
    if not names:
        return
    t = last[names[0]]
    ctx.true("variables", set(t.data_vars) == {"power", "rotor_effective_velocity"} and t["power"].dims == ("time", "turbine"), f"{t}")
    ctx.true("states", [int(x) for x in t["time"].to_numpy()] == [10 * s for s in sts], f"{t['time'].to_numpy()}")
    for n, s in enumerate(sts):
        for i in range(2):
            ctx.eq("power", t["power"].to_numpy()[n, i], r[FV.P].to_numpy()[s, i])
            ctx.eq("wind speed", t["rotor_effective_velocity"].to_numpy()[n, i], r[FV.REWS].to_numpy()[s, i])
    if len(names) == 1:
        return
    f = last[names[1]]
    ctx.true("variables", set(f.data_vars) == {"wind_speed", "wind_direction"}, f"{f}")
    px, py = [100.0, 600.0, 1100.0], [-50.0, 0.0, 50.0]
    ctx.eq_arr("x", f["x"].to_numpy(), ctx.arr(px))
    ctx.eq_arr("y", f["y"].to_numpy(), ctx.arr(py))
    ctx.eq_arr("z", f["z"].to_numpy(), ctx.arr(zs))
    pts = ctx.empty((3, len(zs) * 9, 3))
    ind = [(a, b, c) for a in range(len(zs)) for b in range(3) for c in range(3)]
    for n, (a, b, c) in enumerate(ind):
        for q, x in enumerate((px[c], py[b], zs[a])):
            pts[:, n, q] = ctx.const(x)
    with lib.engine():
        p = al.calc_points(r, pts)
    sd = FC.STATE if FC.STATE in f.dims else "time"
    ctx.true("states of the flow", [int(x) for x in f[sd].to_numpy()] == [10 * s for s in sts])
    for v, n in ((FV.WS, "wind_speed"), (FV.WD, "wind_direction")):
        g = f[n].transpose(sd, "z", "y", "x").to_numpy()
        for k, s in enumerate(sts):
            for j, i in enumerate(ind):
                ctx.eq(n, g[(k,) + i], p[v].to_numpy()[s, j], tol=1e-6)
