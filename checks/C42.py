"""The function of the window that selects symmetries automatically is evaluated in the domain zero / not zero (with the
inputs a value depends on; different inputs do not cancel), for patterns of zero and non-zero field components at both
ends of the scan (none, one, any two), with and without an interaction angle, both orders of the multipole expansion, equal
and different bases and zero or non-zero total momentum. A symmetry that is selected must be one of the Hamiltonian:
inversion needs equal bases and no electric field, permutation equal bases and only the dipole-dipole interaction,
reflection no field that changes its sign under it, rotation fields along the axis only, with fields in the rotated frame. Both parities
must be selected together, every box has to be set in every case, and manually selected symmetries must stay."""
from core import *
from facts import *
import pyfacts as P
from pyfacts import Sym, show, PyExc, Ext, Arr
import math, itertools
FLOORS = {"patterns": 500, "selected symmetries": 500}

class NZ(Ext):
    """a number that is not zero and depends on the given inputs"""
    def __init__(s, d=()): s.d = frozenset(d)
    def __eq__(s, o): return isinstance(o, NZ) and o.d == s.d
    def __hash__(s): return hash(("NZ", s.d))
    def __repr__(s): return "nonzero(" + ",".join(sorted(s.d)) + ")"
    def x_attr(s, ip, n):
        if n == "magnitude": return s
        if n in ("toAU", "toUU"): return lambda ip, a, kw: s
        raise AnalysisError(f"attribute {n} of a number")
    def x_is(s, t): return t.split(".")[-1] in ("float", "Number", "Real")
    def x_bin(s, ip, op, o, refl):
        if not isinstance(o, (int, float, NZ)) or isinstance(o, bool): return NotImplemented
        z = not isinstance(o, NZ) and o == 0
        d = s.d | (o.d if isinstance(o, NZ) else frozenset())
        if op in ("+", "-"): return NZ(d)
        if op == "*": return 0.0 if z else NZ(d)
        if op == "/":
            if refl: return 0.0 if z else NZ(d)
            if z: raise PyExc("ZeroDivisionError", "division by zero")
            return NZ(d)
        if op == "**": return NZ(d)
        raise AnalysisError(f"operation {op} of a number that is not zero")
class Num(Ext):
    """an entry of the settings"""
    def __init__(s, v): s.v = v
    def x_attr(s, ip, n):
        if n == "magnitude": return s.v
        if n in ("toAU", "toUU"): return lambda ip, a, kw: s
        raise AnalysisError(f"attribute {n} of a setting")
class Box(Ext):
    def __init__(s, ui, n): s.ui, s.n = ui, n
    def x_attr(s, ip, n):
        if n in ("isChecked",): return lambda ip, a, kw: s.ui.manual if s.n == "radiobutton_symManual" else (not s.ui.manual if s.n == "radiobutton_symAuto" else s.ask())
        if n == "setChecked": return lambda ip, a, kw: s.put(a[0])
        if n == "setCheckState": return lambda ip, a, kw: s.put("Unchecked" not in show(a[0]))
        if n in ("setEnabled", "blockSignals", "setVisible", "update"): return lambda ip, a, kw: None
        raise AnalysisError(f"{n} of the field {s.n}")
    def ask(s):
        if s.n in s.ui.set: return s.ui.set[s.n]
        raise AnalysisError(f"the state of {s.n} is asked for")
    def put(s, v):
        if not isinstance(v, bool): raise AnalysisError(f"{s.n} is set to {v!r}")
        s.ui.set[s.n] = v
class Ui(Ext):
    def __init__(s, manual): s.manual, s.set = manual, {}
    def x_attr(s, ip, n): return Box(s, n)
class Win(Ext):
    def __init__(s, ui, d, cls): s.ui, s.d, s.cls = ui, d, cls
    def x_attr(s, ip, n):
        if n == "ui": return s.ui
        if n == "systemdict": return s.d
        c, f = s.cls.find(n)
        if f is not None: return lambda ip, a, kw: ip.call(f, [s] + list(a), kw, None, s.cls.mod)
        raise AnalysisError(f"attribute {n} of the window")

def dot(a, b, ip):
    add = lambda x, y: ip.bin("+", x, y, None, None) if not (num(x) and x == 0) else y
    mul = lambda x, y: 0.0 if (num(x) and x == 0) or (num(y) and y == 0) else ip.bin("*", x, y, None, None)
    if a and not isinstance(a[0], list):                       # vector
        r = 0.0
        for x, y in zip(a, b): 
            t = mul(x, y)
            r = r if num(t) and t == 0 else add(r, t)
        return r
    if b and isinstance(b[0], list): return Arr([Arr([dot(row, [r[k] for r in b], ip) for k in range(len(b[0]))]) for row in a])
    return Arr([dot(row, b, ip) for row in a])
def num(x): return isinstance(x, (int, float)) and not isinstance(x, bool)
def flat(a):
    return Arr([y for x in a for y in (flat(x) if isinstance(x, list) else [x])])
def nonzero(x): return isinstance(x, NZ) or (num(x) and x != 0)

def interp():
    ip = P.Interp(externals={"numpy.pi": NZ(), "math.pi": NZ()})
    base, battr, btruth, bb = ip.external, ip.attr, ip.truth, ip.builtin
    def external(f, a, kw, e, mod):
        n = show(f)
        m = n.split(".")[-1]
        if n.startswith(("numpy.", "math.")):
            if m in ("cos", "sin", "tan") and len(a) == 1:
                if num(a[0]): return getattr(math, m)(a[0])
                if isinstance(a[0], NZ): return NZ(a[0].d)
            if m in ("deg2rad", "radians", "abs", "absolute", "fabs", "rad2deg"): return a[0]
            if m in ("array", "asarray"): return conv(a[0])
            if m in ("dot", "matmul"): return dot(a[0], a[1], ip)
            if m in ("any", "count_nonzero") and isinstance(a[0], list):
                k = sum(nonzero(x) for x in flat(a[0])); return k > 0 if m == "any" else k
            if m == "all" and isinstance(a[0], list): return all(nonzero(x) if not isinstance(x, bool) else x for x in flat(a[0]))
            if m == "isclose" and num(a[1]) and a[1] == 0: return not nonzero(a[0])
        return base(f, a, kw, e, mod)
    def conv(x): return Arr([conv(y) for y in x]) if isinstance(x, (list, tuple)) else x
    def attr(o, n):
        if isinstance(o, Arr):
            if n in ("flatten", "ravel"): return lambda ip, a, kw: flat(o)
            if n in ("dot", "__matmul__"): return lambda ip, a, kw: dot(o, a[0], ip)
            if n == "any": return lambda ip, a, kw: any(nonzero(x) for x in flat(o))
            if n == "tolist": return lambda ip, a, kw: list(o)
            if n == "T": return Arr([Arr(c) for c in zip(*o)]) if o and isinstance(o[0], list) else o
        return battr(o, n)
    ip.external, ip.attr = external, attr
    ip.truth = lambda v: True if isinstance(v, NZ) else btruth(v)
    bcmp = ip.cmp
    def cmp(op, a, b, e, mod):
        for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op))):
            if isinstance(x, NZ) and num(y):
                if op in ("Eq", "NotEq"):
                    if y == 0: return op == "NotEq"
                elif 0 < y < 1e-3: return o in ("Gt", "GtE")          # sizes compared with a tolerance
        return bcmp(op, a, b, e, mod)
    ip.cmp = cmp
    def builtin(n, a, kw, e, mod):
        if n in ("abs", "float") and len(a) == 1 and isinstance(a[0], NZ): return a[0]
        if n in ("max", "min"):
            x = list(a[0]) if len(a) == 1 and isinstance(a[0], (list, tuple)) else list(a)
            if any(isinstance(y, NZ) for y in x):
                y = [y for y in x if isinstance(y, NZ)]
                return NZ(frozenset().union(*[z.d for z in y])) if n == "max" or len(y) == len(x) else 0.0
        if n == "bool" and len(a) == 1 and isinstance(a[0], NZ): return True
        if n in ("any", "all") and len(a) == 1 and isinstance(a[0], (list, tuple, set)) and any(isinstance(x, NZ) for x in a[0]):
            return (any if n == "any" else all)(nonzero(x) or x is True for x in a[0])
        if n == "abs" and len(a) == 1 and num(a[0]): return abs(a[0])
        return bb(n, a, kw, e, mod)
    ip.builtin = builtin
    bbin = ip.bin
    def bin(op, a, b, e, mod):
        if op == "@" and isinstance(a, Arr): return dot(a, b, ip)
        return bbin(op, a, b, e, mod)
    ip.bin = bin
    return ip

COMP = [m + f + x for f in "EB" for m in ("min", "max") for x in "xyz"]
BOXES = {"inversion": "inv", "permutation": "per", "reflection": "ref"}

def run(rep):
    ip = interp()
    mod = ip.module("pairinteraction_gui.app")
    win = mod.d.get("MainWindow")
    c, f = win.find("autosetSymmetrization") if win is not None else (None, None)
    if f is None: raise AnalysisError("the function that selects the symmetries is gone")
    patterns = [()] + [(a,) for a in COMP] + list(itertools.combinations(COMP, 2)) + [("minBx", "maxBx", "minEy", "maxEy"), tuple(COMP)]
    ever = set()
    for pat in patterns:
        for theta, expo, same, M in itertools.product((0, 1), (3, 4), (True, False), (0, 1)):
            fields = {k: (NZ([k]) if k in pat else 0) for k in COMP}
            d = {k: Num(v) for k, v in fields.items()}
            d.update(theta=Num(NZ(["theta"]) if theta else 0), exponent=Num(expo), samebasis=Num(same), m1=Num(0.5), m2=Num(0.5 if M else -0.5))
            for q, v in (("species", Sym("in", "species")), ("n", 60), ("l", 0), ("j", 0.5)): d[q + "1"] = d[q + "2"] = Num(v)
            text = f"fields {', '.join(pat) or 'none'}; {'angle' if theta else 'no angle'}, order {expo}, {'same' if same else 'different'} bases, {'non-zero' if M else 'zero'} momentum"
            ui = Ui(False)
            rep.count("patterns")
            out = ip.paths(lambda ip: (ui.set.clear(), ip.call(f, [Win(ui, d, win)], {}, None, mod), dict(ui.set))[2], 8)
            on = lambda *c: any(m + x in pat for x in c for m in ("min", "max"))
            # components in the frame of the interatomic axis
            rx = lambda F: on(F + "x", F + "z") if theta else on(F + "x")
            rz = lambda F: on(F + "x", F + "z") if theta else on(F + "z")
            E, B = on("Ex", "Ey", "Ez"), on("Bx", "By", "Bz")
            allowed = {"inversion": same and not E, "permutation": same and expo == 3,
                       "reflection": not on("Ey") and not rx("B") and not rz("B"),
                       "rotation": not rx("E") and not on("Ey") and not rx("B") and not on("By")}
            for (st, r), ev, known in out:
                if st == "exc": rep.bad("raises", f"{text}: {r}"); continue
                for s, ok in allowed.items():
                    boxes = [f"checkbox_system_{BOXES[s]}{e}" for e in "EO"] if s in BOXES else ["checkbox_system_conserveM"]
                    v = [r.get(b) for b in boxes]
                    if None in v:
                        rep.bad(f"set:{s}", f"{text}: {boxes[v.index(None)]} keeps what was selected before"); continue
                    rep.check(len(set(v)) == 1, f"both:{s}", f"{s}: both parities", f"{text}: only one parity of {s} is selected, the states of the other are lost")
                    rep.check(not any(v) or ok, f"symmetry:{s}", f"{s}: selected only where it is a symmetry", f"{text}: {s} is selected although it is no symmetry")
                    if any(v): rep.count("selected symmetries"); ever.add(s)
    # manual selection
    ui = Ui(True)
    for (st, r), ev, known in ip.paths(lambda ip: (ui.set.clear(), ip.call(f, [Win(ui, {k: Num(0) for k in COMP + ['theta', 'exponent', 'samebasis', 'm1', 'm2']}, win)], {}, None, mod), dict(ui.set))[2], 8):
        rep.check(st == "ok" and not r, "manual", "a manual selection stays", f"a manual selection is overwritten: {r}")
    for s in allowed: rep.check(s in ever, f"used:{s}", f"{s} is used", f"{s} is never selected")
    rep.rules.append("evaluation in the domain zero / not zero")
