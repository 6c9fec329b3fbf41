"""The function of the window that starts a calculation is evaluated abstractly for every button, with equal and different
bases, with and without an interaction angle, for several patterns of fields and limits; the widgets and drawing are
opaque, the settings are given by name. The dictionary written to the configuration file and the one handed to the
Python backend must be the same and must hold for every key the entered value in the units of the window, limits that are
switched off as such, the limits of the pair basis off when the pair basis is the product of the one-atom bases, both
ends of both fields turned into the frame of the interatomic axis by the same rotation by the angle in radians, and
the flags that follow from the order and the angle; complex arithmetic is asked for exactly if a field the calculation
uses has a y component. A calculation with tabulated wave functions beyond their range is refused for either atom."""
from core import *
from facts import *
import pyfacts as P
from pyfacts import Sym, SStr, show, PyExc, Ext, Arr
import math, itertools
import C42
from C25 import keys_of_gui
FLOORS = {"calculations": 40, "values": 1500}
BUTTONS = {"field1": "pushbutton_field1_calc", "field2": "pushbutton_field2_calc", "potential": "pushbutton_potential_calc"}

class Val(Ext):
    """an entry of the settings; angles have two units"""
    def __init__(s, v, au=None): s.v, s.au = v, v if au is None else au
    def x_attr(s, ip, n):
        if n in ("magnitude", "_magnitude"): return s.v
        if n == "toUU": return lambda ip, a, kw: s
        if n == "toAU": return lambda ip, a, kw: Val(s.au)
        raise AnalysisError(f"attribute {n} of a setting")
class Wid(Ext):
    def __init__(s, on, n): s.on, s.n = on, n
    def __eq__(s, o): return isinstance(o, Wid) and o.n == s.n
    def __hash__(s): return hash(("Wid", s.n))
    def __repr__(s): return s.n
    def x_attr(s, ip, n):
        if n == "isChecked": return lambda ip, a, kw: s.n in s.on
        if n == "checkState": return lambda ip, a, kw: "state:Checked" if s.n in s.on else "state:Unchecked"
        return lambda ip, a, kw: Sym("ui", s.n, n)
class Ui(Ext):
    def __init__(s, on): s.on = on
    def x_attr(s, ip, n): return Wid(s.on, n)

FIELDS = [m + f + x for f in "EB" for m in ("min", "max") for x in "xyz"]
def evaluate(button, samebasis, theta, values, pairsame, python):
    on = {"radiobutton_plot_overlapUnperturbed", "radiobutton_system_missingCalc", "radiobutton_system_pairbasisSame" if pairsame else "radiobutton_system_pairbasisDefined"}
    if values.get("missingWhittaker"): on = on - {"radiobutton_system_missingCalc"} | {"radiobutton_system_missingWhittaker"}
    if samebasis: on.add("checkbox_system_samebasis")
    if python: on.add("checkbox_use_python_api")
    ip = C42.interp()
    dumped, handed, started, refused = [], [], [], []
    base, battr = ip.external, ip.attr
    def external(f, a, kw, e, mod):
        n = show(f)
        if n == "json.dump": dumped.append(dict(a[0])); return None
        if n.endswith("pipy_thread.setParams"): handed.append(a[0]); return None
        if n.endswith("subprocess.Popen"): started.append(list(a[0])); return Sym("obj", "process")
        if n.endswith("QMessageBox.critical"): refused.append(1); return None
        if n in ("time.time", "io.StringIO"): return Sym("obj", n)
        if n.endswith(".sender"): return Wid(on, BUTTONS[button])
        return base(f, a, kw, e, mod)
    ip.external = external
    mod = ip.module("pairinteraction_gui.app")
    win = mod.d.get("MainWindow")
    c, f = win.find("startCalc") if win is not None else (None, None)
    if f is None: raise AnalysisError("the function that starts a calculation is gone")
    keys = [n.split("keys_for_cprogram_")[1] for n in dir_of(mod.d["SystemDict"]) if n.startswith("keys_for_cprogram_")]
    def attr(o, n):
        if isinstance(o, Dict):
            if n in o.keys_: return o.keys_[n]
        if isinstance(o, Sym) and n in ("Checked", "Unchecked") and show(o).endswith(("QtCore.Qt", "QtCore.Qt.CheckState")): return "state:" + n
        return battr(o, n)
    ip.attr = attr
    bd = ip.decide
    def decide(key):
        if key not in ip.known:
            ip.known[key] = False
        return bd(key)
    ip.decide = decide
    def go(ip):
        dumped.clear(); handed.clear(); started.clear(); refused.clear()
        o = P.Obj(win)
        d = Dict({k: Val(v) for k, v in values.items()})
        d.keys_ = {"keys_for_cprogram_" + k: v for k, v in keys_of_gui().items()}
        d["theta"] = Val(theta, math.radians(theta))
        plot = {k: Val(Sym("in", "plot" + k)) for k in ("minE_field1", "minE_field2", "minE_potential", "maxE_field1", "maxE_field2", "maxE_potential", *[q + i for q in "nljm" for i in "12"])}
        L = lambda v=None: [v] * 3
        o.a.update(ui=Ui(on), systemdict=d, plotdict=plot, invalidQuantumnumbers={}, path_cache=Sym("in", "cache"), path_conf=Sym("in", "conf"), path_cpp=Sym("in", "cpp"),
                   stateidx_field=L(), storage_states=L(), storage_data=L(), storage_configuration=L(), empty_data=L(), unperturbedstate=L(), overlapstate=L(), linesSelected=L(),
                   linesData=L(), linesX=L(), linesY=L(), linesO=L(), linesSender=L(), manualRangeX=L(True), manualRangeY=L(True), samebasis=False,
                   graphicviews_plot=[Wid(on, f"view{i}") for i in range(3)], timer=Wid(on, "timer"))
        o.a["timer"] = Timer()
        for m in ("createThread", "saveSettingsSystem", "saveSettingsPlotter", "saveSettingsView", "abortCalculation"): o.a[m] = (lambda ip, a, kw: None)
        for m in ("getConstDistance", "getConstEField", "getConstBField"): o.a[m] = (lambda ip, a, kw: False)
        o.a["get1DPosition"] = lambda ip, a, kw: 1.0
        o.a["sender"] = lambda ip, a, kw: Wid(on, BUTTONS[button])
        o.a["pipy_thread"] = Pipy(handed); o.a["read_thread"] = Wid(on, "read_thread")
        ip.call(f, [o], {}, None, mod)
        return None
    out = ip.paths(go, 4)
    if len(out) != 1: raise AnalysisError("the start of a calculation is not determined by the settings")
    return out[0][0], dumped, handed, started, refused
class Timer(Ext):
    def x_attr(s, ip, n):
        if n == "isActive": return lambda ip, a, kw: False
        return lambda ip, a, kw: None
class Pipy(Ext):
    def __init__(s, h): s.h = h
    def x_attr(s, ip, n):
        if n == "setParams": return lambda ip, a, kw: s.h.append(a[0])
        return lambda ip, a, kw: None
class Dict(dict): pass
def dir_of(cls): return getattr(cls, "d", {})

def run(rep):
    K = keys_of_gui()
    name = lambda b, s: "potential" if b == "potential" else "field12" if s else b
    base = dict(minEx=0.3, minEy=0.0, minEz=1.1, maxEx=0.7, maxEy=0.0, maxEz=-0.4, minBx=2.0, minBy=0.0, minBz=3.0, maxBx=-1.5, maxBy=0.0, maxBz=5.0,
                n1=60, l1=0, j1=0.5, m1=0.5, n2=61, l2=1, j2=1.5, m2=-0.5, deltaNSingle=3, deltaLSingle=2, deltaJSingle=-1.0, deltaMSingle=-2.0, deltaNPair=2, deltaLPair=1, deltaJPair=-1, deltaMPair=4,
                deltaESingle=100.0, deltaEPair=20.0, steps=5, exponent=3, missingWhittaker=False, missingCalc=True, cores=4)
    for k in sorted({x for v in K.values() for x in v}): base.setdefault(k, Sym("in", k))
    cases = []
    for b, s in itertools.product(BUTTONS, (False, True)):
        if b == "field2" and s: continue
        for th in (0, 35.0, -90.0):
            cases.append((b, s, th, {}, False, True)); cases.append((b, s, th, {}, True, False))
        for e in (2, 4): cases.append((b, s, 0, {"exponent": e}, True, True))
        for y in ("minEy", "maxEy", "minBy", "maxBy"): cases.append((b, s, 0, {y: 0.2}, True, False))
        cases.append((b, s, 20.0, {"maxEy": 0.2, "minBy": 0.1}, False, False))
        cases.append((b, s, 0, {"deltaNSingle": -3, "deltaLSingle": -1}, False, False))
    for b, s, th, over, pairsame, python in cases:
        v = dict(base); v.update(over)
        text = f"{name(b, s)}, angle {th}, " + (", ".join(f"{k}={x}" for k, x in over.items()) or "default") + (", product basis" if pairsame else "") + (", Python" if python else ", C++")
        (st, r), dumped, handed, started, refused = evaluate(b, s, th, v, pairsame, python)
        rep.count("calculations")
        if st == "exc": rep.bad("raises", f"{text}: raises {r}"); continue
        if refused: rep.bad("refused", f"{text}: the calculation is refused"); continue
        if len(dumped) != 1 or len(handed) + len(started) != 1:
            rep.bad("started", f"{text}: {len(dumped)} configurations written, {len(handed)} + {len(started)} calculations started"); continue
        rep.check(bool(handed) == python, "backend", "the chosen backend is started", f"{text}: the other backend is started")
        got = dumped[0]
        if handed: rep.check({k: repr(x) for k, x in handed[0].items()} == {k: repr(x) for k, x in got.items()}, "same", "file and backend get the same values", f"{text}: file and backend get different values")
        want = {k: v[k] for k in K[name(b, s)]}
        for q in "NLJM":
            if v[f"delta{q}Single"] < 0: want[f"delta{q}Single"] = -1
            if b == "potential" and pairsame: want[f"delta{q}Pair"] = -1
        t = math.radians(th)
        for f in "EB":
            for m in ("min", "max"):
                x, y, z = (v[m + f + c] for c in "xyz")
                want.update({m + f + "x": math.cos(t) * x - math.sin(t) * z, m + f + "y": y, m + f + "z": math.sin(t) * x + math.cos(t) * z})
        want["button_id"] = {"field1": 0, "field2": 1, "potential": 2, "field12": 3}[name(b, s)]
        want["NUM_PROCESSES"] = v["cores"]
        if b == "potential": want["zerotheta"] = th == 0
        o = v["exponent"] if b == "potential" else 4
        want.update(dd=o >= 3, dq=o > 3, qq=o > 3, pathCache=Sym("in", "cache"), pathConf=Sym("in", "conf"))
        for k, w in want.items():
            rep.count("values")
            if k not in got: rep.bad(f"missing:{k}", f"{text}: {k} is not handed over"); continue
            g = got[k]
            if k.startswith("delta") and isinstance(w, (int, float)) and w < 0: ok = isinstance(g, (int, float)) and g < 0
            elif isinstance(w, bool) or isinstance(w, Sym): ok = g == w
            elif isinstance(w, (int, float)): ok = isinstance(g, (int, float)) and abs(g - w) < 1e-9
            else: ok = g == w
            rep.check(ok, f"value:{k}", f"{k} is handed over as entered", f"{text}: {k} is handed over as {show(g)[:80]}, entered is {show(w)[:80]}")
        if started:
            c = started[0]
            i = [n for n, x in enumerate(c) if x == "-t"]
            kind = c[i[0] + 1] if i else None
            cplx = any(v[m + f + "y"] != 0 for m in ("min", "max") for f in "EB")
            rep.check(kind == ("complex" if cplx else "real"), "arithmetic", "arithmetic of the calculation", f"{text}: the calculation is started as {kind}")
            for opt, w in (("-c", "conf"), ("-o", "cache")):
                i = [n for n, x in enumerate(c) if x == opt]
                rep.check(bool(i) and c[i[0] + 1] == Sym("in", w), "option " + opt, "options of the calculation", f"{text}: option {opt} is {show(c[i[0] + 1])[:80] if i else 'missing'}")
    # range of the tabulated wave functions
    for n1, n2, d in ((97, 50, 0), (50, 97, 0), (90, 90, 7), (98, 50, 0), (50, 98, 0), (90, 50, 8), (50, 90, 8)):
        v = dict(base, n1=n1, n2=n2, deltaNSingle=d, deltaNPair=0, missingWhittaker=True, missingCalc=False)
        (st, r), dumped, handed, started, refused = evaluate("potential", False, 0, v, False, True)
        rep.count("calculations")
        w = max(n1, n2) + d > 97
        rep.check(st == "ok" and bool(refused) == w, "range", f"n = {n1}, {n2} +- {d}: {'refused' if w else 'accepted'}",
                  f"app.py: with Whittaker functions n = {n1}, {n2} +- {d} is {'accepted although the principal quantum number exceeds 97' if w else 'refused'}")
    rep.rules.append("abstract evaluation of the start of a calculation against the meaning of the entries")
