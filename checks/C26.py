"""The class that converts between the units of the window and atomic units is evaluated abstractly with a symbolic
magnitude; the unit library is modelled by quantities with a linear magnitude, a factor and physical dimensions, the table
of constants by the CODATA values. For every kind of quantity and for several units of each kind the value in atomic
units and in units of the window must be the magnitude times the factor the definitions of the units give, in any order
of conversions, also when there is no value. The factors must agree with the constants of the C++ library, found by
constant evaluation of their initialisers. The fields of the window are compared with what they mean: their unit must be
the one the library takes. Writing a quantity to a field of each kind and reading it back, also through the settings
files, must give the same value in the units of the window."""
from core import *
from facts import *
import pyfacts as P
from pyfacts import Sym, SStr, show, PyExc, Ext
import ast, math, re
from fractions import Fraction
FLOORS = {"conversions": 100, "fields": 25, "constants of the library": 4, "widgets": 14}

#            value,             unit
CODATA = {"atomic unit of length": (5.29177210544e-11, "m"), "atomic unit of energy": (4.359744722206e-18, "J"), "Planck constant": (6.62607015e-34, "J Hz^-1"),
    "atomic unit of electric field": (514220675112.0, "V m^-1"), "atomic unit of mag. flux density": (235051.757077, "T"), "Hartree energy": (4.359744722206e-18, "J"),
    "Bohr radius": (5.29177210544e-11, "m"), "hartree-hertz relationship": (6579683920499900.0, "Hz"), "atomic unit of time": (2.4188843265864e-17, "s"),
    "atomic unit of electric potential": (27.211386245981, "V"), "atomic unit of electric field gradient": (9.7173624424e+21, "V m^-2"),
    "Planck constant over 2 pi": (1.0545718e-34, "J s"), "reduced Planck constant": (1.0545718176461565e-34, "J s"), "atomic unit of charge": (1.602176634e-19, "C"),
    "elementary charge": (1.602176634e-19, "C"), "atomic unit of mag. dipole mom.": (1.85480201315e-23, "J T^-1"), "Bohr magneton": (9.2740100657e-24, "J T^-1"),
    "speed of light in vacuum": (299792458.0, "m s^-1"), "electron mass": (9.1093837139e-31, "kg"), "atomic unit of mass": (9.1093837139e-31, "kg"),
    "Rydberg constant times c in Hz": (3289841960250000.0, "Hz"), "Rydberg constant times hc in J": (2.179872361103e-18, "J"), "vacuum electric permittivity": (8.8541878188e-12, "F m^-1"),
    "fine-structure constant": (0.0072973525643, ""), "Rydberg constant": (10973731.568157, "m^-1"), "atomic unit of velocity": (2187691.26216, "m s^-1"),
    "atomic unit of force": (8.2387235038e-08, "N"), "atomic unit of action": (1.0545718176461565e-34, "J s"), "Bohr magneton in Hz/T": (13996244917.1, "Hz T^-1")}
# dimensions: length, mass, time, current
BASE = {"meter": (1.0, (1, 0, 0, 0)), "gram": (1e-3, (0, 1, 0, 0)), "second": (1.0, (0, 0, 1, 0)), "ampere": (1.0, (0, 0, 0, 1)), "joule": (1.0, (2, 1, -2, 0)),
    "hertz": (1.0, (0, 0, -1, 0)), "volt": (1.0, (2, 1, -3, -1)), "tesla": (1.0, (0, 1, -2, -1)), "gauss": (1e-4, (0, 1, -2, -1)), "radian": (1.0, (0, 0, 0, 0)),
    "degree": (math.pi / 180, (0, 0, 0, 0)), "dimensionless": (1.0, (0, 0, 0, 0)), "coulomb": (1.0, (0, 0, 1, 1)), "newton": (1.0, (1, 1, -2, 0)),
    "farad": (1.0, (-2, -1, 4, 2)), "electron_volt": (1.602176634e-19, (2, 1, -2, 0)), "minute": (60.0, (0, 0, 1, 0))}
SHORT = {"m": "meter", "g": "gram", "s": "second", "A": "ampere", "J": "joule", "Hz": "hertz", "V": "volt", "T": "tesla", "G": "gauss", "rad": "radian", "deg": "degree",
         "C": "coulomb", "N": "newton", "F": "farad", "eV": "electron_volt", "min": "minute"}
PRE = {"femto": 1e-15, "pico": 1e-12, "nano": 1e-9, "micro": 1e-6, "milli": 1e-3, "centi": 1e-2, "deci": 1e-1, "kilo": 1e3, "mega": 1e6, "giga": 1e9, "tera": 1e12}
SPRE = {"f": 1e-15, "p": 1e-12, "n": 1e-9, "u": 1e-6, "µ": 1e-6, "m": 1e-3, "c": 1e-2, "d": 1e-1, "k": 1e3, "M": 1e6, "G": 1e9, "T": 1e12}

def unit(name):
    if name in BASE: return BASE[name]
    if name in SHORT: return BASE[SHORT[name]]
    if name.endswith("s") and name[:-1] in BASE: return BASE[name[:-1]]
    for p, x in PRE.items():
        if name.startswith(p) and name[len(p):] in BASE: return (x * BASE[name[len(p):]][0], BASE[name[len(p):]][1])
    if name[:1] in SPRE and name[1:] in SHORT:
        b = BASE[SHORT[name[1:]]]; return (SPRE[name[:1]] * b[0], b[1])
    if name.startswith("au_"): raise PyExc("UndefinedUnitError", name)          # the names of the GUI are no names of pint
    raise AnalysisError(f"unit not known to the model: {name!r}")
def parse(text):
    """factor and dimensions of a unit expression"""
    f, d, sign = 1.0, (0, 0, 0, 0), 1
    for tok in re.findall(r"\*\*|[*/]|[^\W\d]\w*(?:(?:\^|\*\*) ?-?\d+)?|[-+]?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?|\S", text):
        if tok == "/": sign = -1; continue
        if tok == "*": sign = 1; continue
        m = re.fullmatch(r"([^\W\d]\w*)(?:(?:\^|\*\*) ?(-?\d+))?", tok)
        if m:
            x, dd = unit(m.group(1)); n = sign * int(m.group(2) or 1)
            f *= x ** n; d = tuple(a + n * b for a, b in zip(d, dd))
        else:
            try: f *= float(tok) ** sign
            except ValueError: raise AnalysisError(f"unit expression not understood: {text!r}")
        sign = 1
    return f, d

class Mag(Ext):
    """factor times a symbol (None: a number)"""
    def __init__(s, f, x): s.f, s.x = f, x
    def __eq__(s, o): return isinstance(o, Mag) and (s.f, s.x) == (o.f, o.x)
    def __hash__(s): return hash((s.f, s.x))
    def __repr__(s): return f"{s.f:.9g}" + (f"*{s.x}" if s.x else "")
    def x_attr(s, ip, n): raise AnalysisError(f"attribute {n} of a number")
    def x_is(s, t): return t.split(".")[-1] in ("float", "Number", "Real")
    def x_bin(s, ip, op, o, refl):
        if isinstance(o, Quant): return NotImplemented
        if isinstance(o, (int, float)): o = Mag(float(o), None)
        if not isinstance(o, Mag): return NotImplemented
        a, b = (o, s) if refl else (s, o)
        if op == "*" and not (a.x and b.x): return Mag(a.f * b.f, a.x or b.x)
        if op == "/" and not b.x: return Mag(a.f / b.f, a.x)
        if op in ("+", "-") and a.x == b.x: return Mag(a.f + b.f if op == "+" else a.f - b.f, a.x)
        raise AnalysisError(f"operation {op} of {a} and {b}")
def mag(v):
    if isinstance(v, Mag): return v
    if isinstance(v, (int, float)): return Mag(float(v), None)
    raise AnalysisError(f"magnitude {v!r}")

class Dim(Ext):
    def __init__(s, d): s.d = d
    def __eq__(s, o): return isinstance(o, Dim) and s.d == o.d
    def __hash__(s): return hash(("Dim", s.d))
    def x_str(s): return "dimensionless" if not any(s.d) else " ".join(f"[{n}]**{e}" for n, e in zip(("length", "mass", "time", "current"), s.d) if e)
    def x_attr(s, ip, n): raise AnalysisError(f"attribute {n} of a dimensionality")
class Quant(Ext):
    """m (in units of factor f and dimensions d)"""
    def __init__(s, m, f, d, text=None): s.m, s.f, s.d, s.text = m, f, d, text
    def key(s): return (s.m, s.f, s.d)
    def __eq__(s, o): return isinstance(o, Quant) and s.key() == o.key()
    def __hash__(s): return hash(s.key())
    def __repr__(s): return f"<{s.m} [{s.f:.6g} {s.d}]>"
    def x_attr(s, ip, n):
        if n in ("magnitude", "m"): return s.m
        if n == "dimensionality": return Dim(s.d)
        if n in ("units", "u"): return Quant(Mag(1.0, None), s.f, s.d, s.text)
        if n == "dimensionless": return not any(s.d)
        if n == "to": return lambda ip, a, kw: s.to(a[0])
        if n in ("m_as",): return lambda ip, a, kw: s.to(a[0]).m
        if n in ("to_base_units",): return lambda ip, a, kw: Quant(s.m.x_bin(ip, "*", s.f, False), 1.0, s.d)
        raise AnalysisError(f"attribute {n} of a quantity")
    def x_str(s):
        if s.text and s.m == Mag(1.0, None): return s.text
        return NotImplemented
    def to(s, u):
        f, d = (u.f, u.d) if isinstance(u, Quant) else parse(u) if isinstance(u, str) else (None, None)
        if d is None: raise AnalysisError(f"conversion to {u!r}")
        if d != s.d: raise PyExc("DimensionalityError", f"{s} to {u!r}")
        return Quant(Mag(s.m.f * (s.f / f), s.m.x), f, d, u if isinstance(u, str) else u.text)
    def x_bin(s, ip, op, o, refl):
        if op not in ("*", "/"): raise AnalysisError(f"operation {op} of a quantity")
        if not isinstance(o, Quant): o = Quant(mag(o), 1.0, (0, 0, 0, 0))
        a, b = (o, s) if refl else (s, o)
        m = a.m.x_bin(ip, op, b.m, False)
        n = 1 if op == "*" else -1
        return Quant(m, a.f * b.f ** n, tuple(x + n * y for x, y in zip(a.d, b.d)))
class QClass(Ext):
    def x_attr(s, ip, n): raise AnalysisError(f"attribute {n} of the quantity class")
    def x_call(s, ip, a, kw):
        v = a[0]; u = a[1] if len(a) > 1 else kw.get("units")
        if v is None: raise PyExc("TypeError", "no value")
        if isinstance(v, str):
            if u is not None: raise AnalysisError("quantity from text and unit")
            f, d = parse(v) if not v.replace(".", "").isdigit() else (None, None)
            return Quant(Mag(float(v), None), 1.0, (0, 0, 0, 0)) if d is None else Quant(Mag(1.0, None), f, d, v)
        if u is None: return Quant(mag(v), 1.0, (0, 0, 0, 0))
        if isinstance(u, str): f, d = parse(u); return Quant(mag(v), f, d, u)
        if isinstance(u, Quant):
            return Quant(mag(v), u.f, u.d, u.text)              # only the unit of the second quantity counts
        raise AnalysisError(f"unit {u!r}")
class Registry(Ext):
    def x_attr(s, ip, n):
        if n in ("Quantity", "Q_"): return QClass()
        if n == "parse_units" or n == "parse_expression" or n == "Unit": return lambda ip, a, kw: Quant(Mag(1.0, None), *parse(a[0]), a[0])
        f, d = parse(n)
        return Quant(Mag(1.0, None), f, d, n)
    def x_call(s, ip, a, kw): return QClass().x_call(ip, a, kw)

class Widget(Ext):
    """a field of the window: its kind and what it shows"""
    def __init__(s, kind, items=()): s.kind, s.v, s.items = kind, None, items
    def x_is(s, t): return t.split(".")[-1] == s.kind or (t.split(".")[-1] == "QAbstractSpinBox" and "SpinBox" in s.kind)
    def x_attr(s, ip, n):
        k = s.kind
        def put(ip, a, kw): s.v = a[0]; return None
        get = lambda ip, a, kw: s.v
        ok = {"QComboBox": {"currentText": get, "findText": lambda ip, a, kw: s.items.index(a[0]) if a[0] in s.items else -1,
                            "setCurrentIndex": lambda ip, a, kw: setattr(s, "v", s.items[a[0]]), "setCurrentText": put},
              "QSpinBox": {"value": get, "setValue": put}, "QDoubleSpinBox": {"value": get, "setValue": put}, "QLineEdit": {"text": get, "setText": put},
              "QCheckBox": {"checkState": lambda ip, a, kw: s.v, "setCheckState": put, "isChecked": lambda ip, a, kw: s.v == CHECKED,
                            "setChecked": lambda ip, a, kw: setattr(s, "v", CHECKED if a[0] else UNCHECKED)},
              "QRadioButton": {"isChecked": get, "setChecked": put}, "QGroupBox": {"isChecked": get, "setChecked": put}}[k]
        if n not in ok: raise AnalysisError(f"{n} of a {k}")
        return ok[n]
CHECKED, UNCHECKED = "state:checked", "state:unchecked"

def interp():
    ip = P.Interp(externals={"PyQt5.QtCore.Qt.Checked": CHECKED, "PyQt5.QtCore.Qt.Unchecked": UNCHECKED, "numpy.pi": math.pi, "math.pi": math.pi})
    base, battr = ip.external, ip.attr
    def attr(o, n):
        if isinstance(o, Sym) and show(o).endswith("QtCore.Qt") and n in ("Checked", "Unchecked"): return {"Checked": CHECKED, "Unchecked": UNCHECKED}[n]
        if isinstance(o, Sym) and show(o).endswith("QtCore.Qt.CheckState") and n in ("Checked", "Unchecked"): return {"Checked": CHECKED, "Unchecked": UNCHECKED}[n]
        return battr(o, n)
    ip.attr = attr
    def external(f, a, kw, e, mod):
        n = show(f)
        if n.startswith("pint.") and n.split(".")[-1] in ("UnitRegistry", "get_application_registry"): return Registry()
        if n in ("scipy.constants.value", "scipy.constants.unit"):
            if a[0] not in CODATA: raise AnalysisError(f"{mod.path}:{getattr(e, 'lineno', '?')}: constant {a[0]!r} is not in the table of the check")
            return CODATA[a[0]][n.endswith("unit")]
        if n == "locale.setlocale": return None
        if n in ("locale.str", "locale.format_string", "locale.atof"):
            v = a[0]
            if n == "locale.str" and isinstance(v, Sym): return P.mkstr([("v", Sym("number", v), "")])
            if n == "locale.str" and isinstance(v, (Mag, int, float)) and not isinstance(v, bool): return P.mkstr([("v", Sym("number", mag(v)), "")])
            if n == "locale.atof" and isinstance(v, SStr) and len(v.c) == 1 and v.c[0][0] == "v" and isinstance(v.c[0][1], Sym) and v.c[0][1].k[0] == "str": v = v.c[0][1].k[1]
            if n == "locale.atof" and isinstance(v, Sym) and v.k[0] == "str" and isinstance(v.k[1], SStr): v = v.k[1]
            if n == "locale.atof" and isinstance(v, SStr) and len(v.c) == 1 and v.c[0][0] == "v" and isinstance(v.c[0][1], Sym) and v.c[0][1].k[0] == "number": return v.c[0][1].k[1]
            if n == "locale.atof" and isinstance(v, str): 
                try: return float(v)
                except ValueError: raise PyExc("ValueError", v)
            raise AnalysisError(f"{mod.path}:{getattr(e, 'lineno', '?')}: {n} of {v!r}"[:200])
        return base(f, a, kw, e, mod)
    ip.external = external
    bb = ip.builtin
    def builtin(n, a, kw, e, mod):
        if n in ("float", "int") and len(a) == 1 and isinstance(a[0], Mag): return a[0]
        if n == "str" and len(a) == 1 and isinstance(a[0], SStr): return a[0]
        return bb(n, a, kw, e, mod)
    ip.builtin = builtin
    return ip

#  what the library takes
KINDS = {"length": ("micrometer", "au_length", ["meter", "nanometer", "centimeter"], "au2um"),
         "energy": ("gigahertz", "au_energy", ["hertz", "megahertz"], "au2GHz"),
         "efield": ("volt/centimeter", "au_efield", ["volt/meter", "kilovolt/centimeter", "volt/micrometer"], "au2Vcm"),
         "bfield": ("gauss", "au_bfield", ["tesla", "milligauss"], "au2G"),
         "angle": ("degree", "au_angle", ["radian", "milliradian"], None)}
AU = {"length": 5.29177210544e-11, "energy": 6579683920499900.0, "efield": 514220675112.0, "bfield": 235051.757077, "angle": 1.0}
FIELDS = [(r"(min|max)E_\w+", "energy"), (r"deltaE(Single|Pair)", "energy"), (r"(min|max)E[xyz]", "efield"), (r"(min|max)B[xyz]", "bfield"), (r"(min|max)R", "length"), (r"theta", "angle")]

def near(a, b): return abs(a - b) <= 1e-8 * abs(b)

def run(rep):
    ip = interp()
    mod = ip.module("pairinteraction_gui.unitmanagement")
    Qc, Uc = mod.d.get("Quantity"), mod.d.get("Units")
    if not isinstance(Qc, P.Cls) or not isinstance(Uc, P.Cls): raise AnalysisError("anchor vanished: Quantity, Units")
    wh = "unitmanagement.py: "
    def conv(v, u, chain):
        def f(ip):
            q = ip.call(Qc, [v, u], {}, None, mod)
            for m in chain: q = ip.call(ip.attr(q, m), [], {}, None, mod)
            return ip.attr(q, "magnitude"), ip.attr(q, "units")
        outs = ip.paths(f)
        if len(outs) != 1: raise AnalysisError(f"conversion of {u}: {len(outs)} cases")
        return outs[0][0]
    CH = [("toAU",), ("toUU",), ("toAU", "toUU"), ("toUU", "toAU"), ("toAU", "toAU"), ("toUU", "toUU"), ("toAU", "toUU", "toAU"), ("toUU", "toAU", "toUU")]
    X = Mag(1.0, "x")
    for kind, (uu, au, others, cname) in KINDS.items():
        for who, val in (("", uu), ("au_", au)):
            got = Uc.find(who + kind)[1]
            if not isinstance(got, str): raise AnalysisError(f"anchor vanished: Units.{who}{kind}")
            if who == "": rep.check(parse(got)[1] == parse(uu)[1] and near(parse(got)[0], parse(uu)[0]), "unit", f"{wh}unit of {kind} is {uu}", f"{wh}the unit of {kind} in the window is {got}, the library takes {uu}")
        uname, aname = Uc.find(kind)[1], Uc.find("au_" + kind)[1]
        for u in [uname, aname] + others:
            fac = AU[kind] if u == aname else parse(u)[0]
            for v in (X, None):
                for chain in CH:
                    rep.count("conversions")
                    st, r = conv(v, u, chain)
                    what = f"{wh}{'no value' if v is None else 'x'} in {u}, {', '.join(chain)}"
                    if st == "exc": rep.bad("raises", f"{what}: raises {r}"); continue
                    to = aname if chain[-1] == "toAU" else uname
                    want = fac / (AU[kind] if to == aname else parse(uname)[0])
                    m, un = r
                    rep.check(un == to, "units", f"{what}: unit {to}", f"{what}: the result is labelled {un!r}, not {to!r}")
                    if v is None: rep.check(m is None, "novalue", f"{what}: no value", f"{what}: gives {m!r}")
                    else: rep.check(isinstance(m, Mag) and m.x == "x" and near(m.f, want), "factor", f"{what}: {want:.6g} x", f"{what}: gives {m!r} {to}, the definition of the units gives {want:.9g}*x")
    for chain in CH:
        for v in (X, None, "Rb", True, 5):
            rep.count("conversions")
            st, r = conv(v, None, chain)
            rep.check(st == "ok" and r[1] is None and (r[0] is v or r[0] == v), "unitless", f"{wh}{v!r} without unit", f"{wh}{v!r} without unit becomes {r!r} by {', '.join(chain)}")
    constants(rep)
    fields(rep, ip, mod)
    widgets(rep, ip, mod)
    rep.rules.append("conversions multiply by the ratio of the definitions of the units; the units of the window are the units of the library")

def library_constants():
    """value by name of the constants of the library, by evaluation of their initialisers"""
    prog = Program(all_tus())
    table = {}
    for v in prog.vars.values(): table.setdefault(v["q"], v)
    val = {}
    def ev(n):
        k = n.get("k")
        if k in ("Flt", "Int"): return float(n["v"])
        if k == "Bin" and n["op"] in "*/+-":
            a, b = ev(n["x"]), ev(n["y"])
            return {"*": lambda: a * b, "/": lambda: a / b, "+": lambda: a + b, "-": lambda: a - b}[n["op"]]()
        if k == "Ref": return get(n["n"])
        if k == "Un" and n["op"] == "-": return -ev(n["x"])
        c = list(kids(n))
        if len(c) == 1: return ev(c[0])
        raise AnalysisError(f"constant expression {k}")
    def get(name):
        if name not in val:
            if name not in table: raise AnalysisError(f"anchor vanished: constant {name}")
            if not table[name].get("init"): raise AnalysisError(f"constant {name} has no initialiser")
            val[name] = ev(table[name]["init"])
        return val[name]
    return get

def constants(rep):
    """the constants of the library used for the units of the window"""
    get = library_constants()
    for kind, (uu, au, others, cname) in KINDS.items():
        if cname is None: continue
        rep.count("constants of the library")
        want = AU[kind] / parse(uu)[0]
        got = get(cname)
        rep.check(abs(got - want) < 1e-7 * want, "library", f"Constants.hpp: {cname} = {got:.10g}", f"Constants.hpp: {cname} is {got:.10g}, the window converts with {want:.10g}")

def fields(rep, ip, mod):
    """the unit of every field of the window"""
    path = P.ROOT + "/pairinteraction_gui/app.py"
    tree = ast.parse(open(path).read())
    gui = ip.module("pairinteraction_gui.guiadditions")
    m = P.Mod("pairinteraction_gui.app", path)
    m.d.update(Units=mod.d["Units"], Quantity=mod.d["Quantity"], GuiDict=gui.d["GuiDict"])
    ip.trail, ip.pos, ip.events, ip.known, ip.steps, ip.depth = [], 0, [], {}, 0, 0
    for c in ("SystemDict", "PlotDict"):
        n = next((x for x in tree.body if isinstance(x, ast.ClassDef) and x.name == c), None)
        if n is None: raise AnalysisError(f"anchor vanished: {c}")
        ip.block([n], [m.d], m, None)
        o = ip.call(m.d[c], [Sym("in", "ui")], {}, None, m)
        store = o.a["store"]
        for k, e in store.items():
            kind = next((q for r, q in FIELDS if re.fullmatch(r, k)), None)
            want = m.d["Units"].find(kind)[1] if kind else None
            rep.count("fields")
            if kind: rep.check(e.get("unit") == want, f"field:{k}", f"app.py: {c}: {k} is in {want}", f"app.py: {c}: {k} is read in {e.get('unit')!r}, it is {kind} in {want}")
            else: rep.check(e.get("unit") is None, f"field:{k}", f"app.py: {c}: {k} has no unit", f"app.py: {c}: {k} is read in {e.get('unit')!r} but is no physical quantity of the model")
        shown = {}
        for k, e in store.items():
            w = show(e["widget"]) if isinstance(e.get("widget"), Sym) else None
            rep.check(w is not None and w not in shown, f"widget:{k}", f"app.py: {c}: {k} has a field of its own", f"app.py: {c}: {k} and {shown.get(w)} share the field {w}")
            shown[w] = k

def widgets(rep, ip, mod):
    gui = ip.module("pairinteraction_gui.guiadditions")
    G = gui.d.get("GuiDict")
    if not isinstance(G, P.Cls): raise AnalysisError("anchor vanished: GuiDict")
    Qc, Uc = mod.d["Quantity"], mod.d["Units"]
    X = Mag(1.0, "x")
    cases = [("QComboBox", None, ["Rb", "Cs"]), ("QSpinBox", None, [X, 5]), ("QDoubleSpinBox", None, [X, 0.5]), ("QCheckBox", None, [True, False]), ("QRadioButton", None, [True, False]), ("QGroupBox", None, [True, False])]
    cases += [("QLineEdit", u, [X, None]) for u in [None] + [Uc.find(k)[1] for k in KINDS]]
    for kind, u, vals in cases:
        us = [u] + ([] if u is None else KINDS[next(k for k in KINDS if Uc.find(k)[1] == u)][2][:1] + [Uc.find("au_" + next(k for k in KINDS if Uc.find(k)[1] == u))[1]])
        for v in vals:
            for given in us:
                rep.count("widgets")
                def f(ip):
                    o = P.Obj(G)
                    w = Widget(kind, ["K", "Cs", "Rb"])
                    o.a["store"] = {"key": {"widget": w, "unit": u}}
                    q = ip.call(Qc, [v, given], {}, None, mod)
                    ip.call(ip.attr(o, "__setitem__"), ["key", q], {}, None, gui)
                    r = ip.call(ip.attr(o, "__getitem__"), ["key"], {}, None, gui)
                    m1 = (ip.attr(r, "magnitude"), ip.attr(r, "units"))
                    # through a settings file: value and unit
                    ip.call(ip.attr(o, "__setitem__"), ["key", ip.call(Qc, list(m1), {}, None, mod)], {}, None, gui)
                    r = ip.call(ip.attr(o, "__getitem__"), ["key"], {}, None, gui)
                    return m1, (ip.attr(r, "magnitude"), ip.attr(r, "units"))
                outs = ip.paths(f)
                for (st, r), ev, known in outs:
                    what = f"guiadditions.py: {v!r}{' ' + given if given else ''} in a {kind}"
                    if st == "exc": rep.bad("widget", f"{what}: raises {r}"); continue
                    want = v
                    if isinstance(v, Mag) and given: want = Mag((AU[next(k for k in KINDS if Uc.find('au_' + k)[1] == given)] if given.startswith("au_") else parse(given)[0]) / parse(u)[0], "x")
                    for x, un in r:
                        good = un == u and (x is want or (isinstance(want, Mag) and isinstance(x, Mag) and x.x == want.x and near(x.f, want.f)) or (not isinstance(want, Mag) and type(x) is type(want) and x == want))
                        rep.check(good, "widget", f"{what}: read back", f"{what}: is read back as {x!r} {un or ''}, not {want!r} {u or ''}")
