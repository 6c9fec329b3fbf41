"""The method that gives a Wigner d-matrix element to the graphical interface and the formula it uses are evaluated
abstractly for every angular momentum up to 5/2 (some larger) and every pair of projections, with the angle symbolic: each
result is a formula in the angle, taken under a condition, and is compared with Wigner's closed form at generic and
special angles of both signs. The memory of earlier results is followed through: all elements are asked for twice from
one object, for two angles, then the object is saved and a second object answers from the files the first one wrote
(files modelled as a map from name to content); each answer must be Wigner's for the element and angle asked for."""
from core import *
from facts import *
import pyfacts as P
from pyfacts import Sym, SStr, show, PyExc
import cmath, math
from C35 import d, H
FLOORS = {"matrix elements": 100, "comparisons": 1500}
BETAS = [0.7, -1.3, 2.9, 0.0, math.pi, H, -H, H + 1e-3, 4.4, -3.0]
FUN = {"cos": cmath.cos, "sin": cmath.sin, "exp": cmath.exp, "sqrt": cmath.sqrt, "real": lambda x: complex(x).real, "imag": lambda x: complex(x).imag,
       "abs": abs, "absolute": abs, "round": lambda x: float(round(complex(x).real)), "rint": lambda x: float(round(complex(x).real)), "tan": cmath.tan, "power": lambda a, b: a ** b,
       "conj": lambda x: complex(x).conjugate(), "isclose": lambda a, b, rtol=1e-5, atol=1e-8: abs(a - b) <= atol + rtol * abs(b), "arccos": cmath.acos, "floor": lambda x: float(math.floor(complex(x).real)), "deg2rad": math.radians, "mod": lambda a, b: complex(a).real % complex(b).real}

def numeric(t, env):
    if isinstance(t, (int, float, complex, bool)): return t
    if isinstance(t, Sym):
        k = t.k
        if k[0] == "in": return env[k[1]]
        if k[0] == "bin":
            a, b = numeric(k[2], env), numeric(k[3], env)
            op = k[1]
            if op in ("%", "//"): a, b = complex(a).real, complex(b).real
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "**": lambda: a ** b, "%": lambda: a % b, "//": lambda: a // b}[op]()
        if k[0] == "un": return {"USub": lambda x: -x, "UAdd": lambda x: x}[k[1]](numeric(k[2], env))
        if k[0] == "cmp":
            a, b = numeric(k[2], env), numeric(k[3], env)
            if isinstance(a, complex) and a.imag == 0: a = a.real
            if isinstance(b, complex) and b.imag == 0: b = b.real
            return {"Eq": lambda: a == b, "NotEq": lambda: a != b, "Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b}[k[1]]()
        if k[0] == "call":
            f = show(k[1]).split(".")[-1]
            if f in FUN: return FUN[f](*[numeric(x, env) for x in k[2]], **({n: numeric(v, env) for n, v in k[3]} if len(k) > 3 else {}))
            if show(k[1]).endswith(".item") and not k[2]: return numeric(k[1].k[1], env)
        if k[0] == "attr" and k[2] == "real": return complex(numeric(k[1], env)).real
        if k[0] in ("float", "abs", "int", "round"):
            v = complex(numeric(k[1], env)).real
            return {"float": float, "abs": abs, "int": int, "round": round}[k[0]](v)
    raise AnalysisError(f"result not understood: {show(t)[:80]}")

def fact(ip, a, kw):
    x = a[0]
    if not isinstance(x, (int, float)): return NotImplemented
    return 0.0 if x < 0 else float(math.factorial(int(round(x))))
def binom(ip, a, kw):
    n, k = a
    if not isinstance(n, (int, float)) or not isinstance(k, (int, float)): return NotImplemented
    if k < 0 or k > n: return 0.0
    return float(math.comb(int(round(n)), int(round(k))))
def conc(f):
    def h(ip, a, kw):
        if all(isinstance(x, (int, float, complex)) for x in a): 
            v = f(*a, **kw)
            return v.real if isinstance(v, complex) and v.imag == 0 else v
        return NotImplemented
    return h

def interp():
    ip = P.Interp(externals={"numpy.pi": math.pi, "math.pi": math.pi})
    files = {}
    base_ext, base_dec = ip.external, P.Interp.decide
    def external(f, args, kw, e, mod):
        n = show(f)
        if n in ("scipy.misc.factorial", "scipy.special.factorial", "math.factorial"): h = fact
        elif n in ("scipy.special.binom", "scipy.special.comb", "math.comb"): h = binom
        elif n.split(".")[0] in ("numpy", "math", "cmath") and n.split(".")[-1] in FUN: h = conc(FUN[n.split(".")[-1]])
        elif n in ("pickle.dump", "pickle.load"):
            fo = args[1] if n == "pickle.dump" else args[0]
            if not (isinstance(fo, Sym) and fo.k[0] == "file"): raise AnalysisError(f"{mod.path}:{e.lineno}: file not understood")
            if n == "pickle.dump":
                files[fo.k[1]] = {k: v for k, v in args[0].items()} if isinstance(args[0], dict) else args[0]
                return None
            if fo.k[1] not in files: raise PyExc("FileNotFoundError")
            v = files[fo.k[1]]
            return dict(v) if isinstance(v, dict) else v
        elif n in ("os.path.exists", "os.path.isfile"):
            return P.freeze(args[0]) in files
        else: h = None
        if h:
            r = h(ip, args, kw)
            if r is not NotImplemented: return r
        return base_ext(f, args, kw, e, mod)
    ip.external = external
    ip.files = files
    return ip

def applies(known, env):
    for k, v in known.items():
        if (same_text(k, env) if has_text(k) else bool(numeric(k, env))) != v: return False
    return True

def values(ip, fn, limit=64):
    return ip.paths(fn, limit=limit)

def run(rep):
    ip = interp()
    mod = ip.module("pairinteraction_gui.utils")
    W = mod.d.get("Wignerd")
    if not isinstance(W, P.Cls) or not W.find("calc")[1]: raise AnalysisError("anchor vanished: Wignerd.calc")
    wh = f"{mod.path.split('/')[-1]}:{W.find('calc')[1].node.lineno}: Wignerd.calc"
    B = Sym("in", "beta")
    cases = [(j2 / 2, [m2 / 2 for m2 in range(-j2, j2 + 1, 2)]) for j2 in range(6)]
    cases += [(4.5, [-4.5, -0.5, 0.5, 3.5]), (7.0, [-6.0, 0.0, 2.0])]
    def ask(o, B, down=False):
        out = []
        order = (lambda x: x[::-1]) if down else (lambda x: x)
        for j, ms in order(cases):
            for m2 in order(ms):
                for m1 in order(ms):
                    r = ip.call(ip.attr(o, "calc"), [j, m2, m1, B], {}, None, mod)
                    out.append((j, m2, m1, B, r))
        return out
    def history(ip):
        ip.files.clear()
        o = ip.call(W, ["dir"], {}, None, mod)
        out = [("first", *x) for x in ask(o, B)] + [("again", *x) for x in ask(o, B)]
        ip.call(ip.attr(o, "save"), [], {}, None, mod)
        p = ip.call(W, ["dir"], {}, None, mod)
        out += [("from the file", *x) for x in ask(p, B)]
        return out
    judge(rep, wh, ip.paths(history, limit=64), ("beta",))
    def descending(ip):
        ip.files.clear()
        o = ip.call(W, ["dir"], {}, None, mod)
        return [("in descending order", *x) for x in ask(o, B, down=True)]
    judge(rep, wh, ip.paths(descending, limit=64), ("beta",))
    C = Sym("in", "beta2")
    cases = cases[:4]
    def two(ip):
        ip.files.clear()
        o = ip.call(W, ["dir"], {}, None, mod)
        out = [("first angle", *x) for x in ask(o, B)] + [("second angle", *x) for x in ask(o, C)] + [("first angle again", *x) for x in ask(o, B)]
        ip.call(ip.attr(o, "save"), [], {}, None, mod)
        p = ip.call(W, ["dir"], {}, None, mod)
        out += [("second angle, from the file", *x) for x in ask(p, C)] + [("first angle, from the file", *x) for x in ask(p, B)]
        ip.call(ip.attr(p, "save"), [], {}, None, mod)
        q = ip.call(W, ["dir"], {}, None, mod)
        return out + [("first angle, saved twice", *x) for x in ask(q, B)]
    judge(rep, wh, ip.paths(two, limit=64), ("beta", "beta2"))
    # a file written in two sessions, the second of which adds elements
    allc = cases
    def add(ip):
        nonlocal cases
        ip.files.clear()
        o = ip.call(W, ["dir"], {}, None, mod)
        cases = allc[:2]; ask(o, B)
        ip.call(ip.attr(o, "save"), [], {}, None, mod)
        cases = allc; ask(o, B)
        ip.call(ip.attr(o, "save"), [], {}, None, mod)
        p = ip.call(W, ["dir"], {}, None, mod)
        return [("added later, from the file", *x) for x in ask(p, B)]
    judge(rep, wh, ip.paths(add, limit=64), ("beta",))
    rep.rules.append("every answer, remembered or not, is the formula of the element and angle asked for")

def same_text(k, env):
    """are the two texts of a comparison the same at these angles"""
    ts = [x for x in (k.k if isinstance(k, Sym) else k) if isinstance(x, (str, SStr))]
    if isinstance(k, Sym) and k.k[:2] in (("cmp", "Eq"),): ts = list(k.k[2:])
    elif isinstance(k, Sym) and k.k[:1] == ("eq",): ts = list(k.k[1:])
    else: raise AnalysisError(f"condition not understood: {k!r}"[:200])
    a, b = (P.cells(t) for t in ts)
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if isinstance(x, str) and isinstance(y, str):
            if x != y: return False
        elif isinstance(x, str) or isinstance(y, str): return False
        else:
            # the same format of different numbers
            if x[0] != y[0] or x[2:] != y[2:]: return False
            u, w = (val(c, env) for c in (x, y))
            if u != w: return False
    return True
def val(c, env):
    if c[0] == "f": return numeric(c[1], env)
    v = numeric(c[1], env)
    return format(v.real if isinstance(v, complex) else v, c[2])

def has_text(t):
    if isinstance(t, SStr): return True
    if isinstance(t, Sym): return any(has_text(x) for x in t.k)
    return isinstance(t, tuple) and any(has_text(x) for x in t)

def judge(rep, wh, outs, names):
    grid = [dict(zip(names, (b, -0.4 * b + 1.9))) for b in BETAS]
    if len(names) > 1: grid += [dict(zip(names, (b, c))) for b in (0.7, -1.3, H) for c in (-b, b + 2 * math.pi, math.pi - b, b + 1e-3, 2 * b)]
    vals = {}
    for (st, r), ev, known in outs:
        envs = [e for e in grid if applies(known, e)]
        if st == "exc":
            if envs: rep.bad("raises", f"{wh}: raises {r} (beta={envs[0]['beta']:.6g})")
            continue
        for when, j, m2, m1, B, t in r:
            rep.count("matrix elements")
            for env in envs:
                rep.count("comparisons")
                key = (t, B.k[1], tuple(env.values()))
                if key not in vals:
                    try: vals[key] = complex(numeric(t, env))
                    except (ValueError, ZeroDivisionError, OverflowError, TypeError): vals[key] = None
                b = env[B.k[1]]
                want = d(j, m2, m1, b)
                got = vals[key]
                rep.check(got is not None and abs(got - want) < 1e-7, "calc", f"{wh}: ({j}, {m2}, {m1}) is Wigner's",
                          f"{wh}: {when}: d(j={j}, m2={m2}, m1={m1}) at beta={b:.6g} is {got}, Wigner's formula gives {want:.9g}")
