"""The grids, the model potential, the scaling function, Numerov's recurrence with its start values and its
normalisation, the Whittaker function and the radial integral are evaluated abstractly to one formula per grid
point (sizes 3 to 7 stand for all: the loops treat every point alike) over symbolic potential parameters,
energies and amplitudes, and compared at generic points with the documented equations."""
from core import *
from facts import *
from smallmat import *
FLOORS = {"potentials": 20, "grids": 10, "amplitudes": 100, "integrals": 20}
QD = "QuantumDefect::"
PAR = {"ac": 9.07, "Z": 37.0, "a1": 3.69, "a2": 1.64, "a3": -9.86, "a4": 0.195, "rc": 1.66, "j": 2.5, "energy": -61234.5, "nstar": 6.87}
POINTS = [PAR, {"ac": 5.3, "Z": 19.0, "a1": 2.1, "a2": 1.9, "a3": 1.12, "a4": -1.4, "rc": 1.1, "j": 1.5, "energy": -222222.0, "nstar": 5.13}]
AU = 6579683.920757349
ALPHA = 7.2973525664e-3
qs = lambda n: ("sym", ("qd", n))

def spin(sp): return (int(sp[-1]) - 1) / 2 if sp[-1].isdigit() else 0.5
def V(p, sp, l, x):
    zl = 1 + (p["Z"] - 1) * math.exp(-p["a1"] * x) - x * (p["a3"] + p["a4"] * x) * math.exp(-p["a2"] * x)
    v = -zl / x - p["ac"] / (2 * x**4) * (1 - math.exp(-(x / p["rc"]) ** 6))
    if l < 4:
        s = spin(sp)
        v += ALPHA**2 / (4 * x**3) * (p["j"] * (p["j"] + 1) - l * (l + 1) - s * (s + 1))
    return v
def g(p, sp, l, x): return (2 * l + .5) * (2 * l + 1.5) / x + 8 * x * (V(p, sp, l, x) - p["energy"] / AU)

class Ev(SmallMat):
    opaque = ("gsl_sf_hyperg_U",)
    size = None
    def __init__(self, prog):
        super().__init__(prog); self.ceils = []; self.states = {}
    def lv(self, n, st, fr, outs):
        return super().lv(n, st, fr, outs)
    def numeric(self, n, name, sh, ol, ov, vs, args, st):
        if name in ("std::ceil", "ceil") and self.size and vs and type(vs[0]) in NUM and vs[0] > 20:
            self.ceils.append(vs[0]); return [(float(self.size), st)]
        return super().numeric(n, name, sh, ol, ov, vs, args, st)

def qdstate(sp, n, l):
    L = ("qd",)
    st = {L + (QD + k,): qs(k) for k in PAR}
    st.update({L + (QD + "species",): ("str", sp), L + (QD + "n",): n, L + (QD + "l",): l})
    return L, st

def value(o, env, what):
    try: return cval(o, env)
    except KeyError as e: raise AnalysisError(f"{what} not understood: {e}")
    except (ValueError, ZeroDivisionError, OverflowError, TypeError): return float("nan")

def run(rep):
    prog = Program(all_tus())
    one = lambda q, k=None: next((f for f in prog.need(q) if f.get("body") is not None and not f.get("dep") and (k is None or len(f["p"]) == k)), None)
    potentials(rep, prog, one)
    for cls in ("Numerov", "Whittaker"): waves(rep, prog, one, cls)
    integrals(rep, prog)

def potentials(rep, prog, one):
    for name, oracle in (("V", V), ("g", g)):
        f = one("model_potential::" + name)
        for sp in ("Rb", "Sr1", "Sr3", "Yb2"):
            for l in range(6):
                L, st = qdstate(sp, 9, l)
                ev = Ev(prog)
                outs = ev.run(f, st, None, [("l", L), ("v", ("sym", ("r",)))])
                if not outs: raise AnalysisError(f"{loc(f)}: not understood")
                for p in POINTS:
                    for x in (0.83, 3.7, 11.0):
                        env = lambda t: x if t == ("sym", ("r",)) else p.get(t[1][1]) if type(t) is tuple and t[:1] == ("sym",) and t[1][:1] == ("qd",) else None
                        for o in outs:
                            if applies(o[2], env) is False: continue
                            rep.count("potentials")
                            got = value(o[1], env, f"{loc(f)}: result")
                            want = oracle(p, sp, l, x)
                            rep.check(cclose(got, want, 1e-9), f"potential:{name}", f"{loc(f)}: {name} for {sp}, l={l} at r={x}, j={p['j']} is the documented one", f"{loc(f)}: {name} for {sp}, l={l}, j={p['j']} at r={x} is {got:.9g}, the documented formula gives {want:.9g}")

def waves(rep, prog, one, cls):
    ctor, integ = one(f"{cls}::{cls}", 1), one(f"{cls}::integrate")
    for size, sp, n, l in [(6, "Rb", 20, 15), (3, "Rb", 9, 0), (4, "Sr3", 12, 3), (5, "Cs", 8, 1), (7, "Rb", 11, 7), (6, "Sr1", 31, 2), (5, "Rb", 6, 5), (4, "Rb", 5, 2)]:
        ev = Ev(prog); ev.size = size
        L, st = qdstate(sp, n, l)
        xmax = math.sqrt(2 * n * (n + 15))
        xmin = 1.0
        if cls == "Numerov": xmin = float(math.floor(math.sqrt(max(2.08, n * n - n * math.sqrt(n * n - (l - 1) ** 2)))))
        outs = [o for o in ev.run(ctor, st, ("this",), [("l", L)])]
        if len(outs) != 1 or outs[0][0] != "ret": raise AnalysisError(f"{loc(ctor)}: not understood")
        rep.count("grids")
        want = (xmax - xmin) / 0.01
        rep.check(len(ev.ceils) == 1 and abs(ev.ceils[0] - want) < 1e-6, f"grid:{cls}", f"{loc(ctor)}: {cls} for n={n} l={l}: steps of 0.01 from {xmin:g} to sqrt(2n(n+15))", f"{loc(ctor)}: {cls} for n={n} l={l} covers {ev.ceils[0] if ev.ceils else '?'} steps, from {xmin:g} to {xmax:.6g} there are {want:.6g}")
        m = ev.value_of(outs[0][2], ("this", cls + "::xy"))
        if not ismat(m) or m[1] != (size, 2):
            rep.bad(f"grid:{cls}", f"{loc(ctor)}: {cls} does not prepare a two-column grid with one row per step ({show(m)[:80]})"); continue
        for i in range(size):
            x = m[2][2 * i]
            rep.check(type(x) in NUM and abs(x - (xmin + i * 0.01)) < 1e-9, f"grid:{cls}", f"{loc(ctor)}: {cls} n={n} l={l}: point {i} is {xmin:g} + {i}*0.01", f"{loc(ctor)}: {cls} for n={n} l={l}: grid point {i} is {show(x)[:80]}, not {xmin + i * 0.01:g}")
        xs = [xmin + i * 0.01 for i in range(size)]
        res = ev.run(integ, {k: v for k, v in outs[0][2].items()}, ("this",), [])
        if not res: raise AnalysisError(f"{loc(integ)}: not understood")
        for k, p in enumerate(POINTS):
            p = dict(p, nstar=n - (2.13 if l <= 2 else 0.13) + 0.21 * k)
            env = lambda t, p=p: p.get(t[1][1]) if type(t) is tuple and t[:1] == ("sym",) and t[1][:1] == ("qd",) else None
            if cls == "Numerov": want = numerov(p, sp, n, l, xs)
            else: want = whittaker(p, n, l, xs)
            for o in res:
                if applies(o[2], env) is False: continue
                r = o[1]
                if o[0] != "ret" or not ismat(r) or r[1] != (size, 2):
                    rep.bad(f"wave:{cls}", f"{loc(integ)}: {cls} does not deliver the grid and the amplitudes"); continue
                for i in range(size):
                    rep.count("amplitudes")
                    xg, y = (value(r[2][2 * i + c], env, f"{loc(integ)}: amplitude") for c in (0, 1))
                    rep.check(abs(xg - xs[i]) < 1e-9 and cclose(y, want[i], 1e-7, 1e-12), f"wave:{cls}", f"{loc(integ)}: {cls} {sp} n={n} l={l}, point {i} of {size} follows the scheme", f"{loc(integ)}: {cls} for {sp} n={n} l={l}: amplitude {i} of {size} is {y:.9g} at {xg:g}, expected {want[i]:.9g} at {xs[i]:g}")

def numerov(p, sp, n, l, xs):
    N, h = len(xs), 0.01
    y = [0.0] * N
    y[N - 2] = -1e-10 if (n - l) % 2 == 0 else 1e-10
    G = [g(p, sp, l, x * x) for x in xs]
    for i in range(N - 3, -1, -1):
        y[i] = ((2 + 5 / 6 * h * h * G[i + 1]) * y[i + 1] - (1 - h * h / 12 * G[i + 2]) * y[i + 2]) / (1 - h * h / 12 * G[i])
    nrm = math.sqrt(2 * sum(a * a * x * x * h for a, x in zip(y, xs)))
    return [a / nrm for a in y]

def whittaker(p, n, l, xs):
    nu = p["nstar"]; out = []
    for x in xs:
        r = x * x; z = 2 * r / nu; k, m = nu, l + .5
        U = cval(("app", "opaque:gsl_sf_hyperg_U", m - k + .5, 1 + 2 * m, z), lambda t: None)
        w = math.exp(-.5 * z) * z ** (m + .5) * U
        try: out.append((-1 if (n - l) % 2 == 0 else 1) * w / math.sqrt(nu * nu * math.gamma(nu + l + 1) * math.gamma(nu - l)))
        except ValueError: out.append(float("nan"))
    return out

class IntEv(Ev):
    grids = {}
    def prim(self, n, name, ol, args, st, fr):
        for cls in ("Numerov", "Whittaker"):
            if name == f"{cls}::{cls}" and n["k"] == "Ctor" and len(args) == 1 and args[0][0] == "l" and not (n.get("copy") or n.get("move")):
                return [(("obj", ol), self.put(st, ol + ("#wave",), ("of", args[0][1])))]
            if name == f"{cls}::integrate":
                w = self.value_of(st, ol + ("#wave",))
                if type(w) is tuple and w[:1] == ("of",) and w[1] in self.grids: return [(self.grids[w[1]], st)]
        return super().prim(n, name, ol, args, st, fr)

def integrals(rep, prog):
    fs = [f for f in prog.need("IntegrateRadialElement") if f.get("body") and not f.get("dep")]
    if len(fs) < 2: raise AnalysisError("anchor vanished: instances of IntegrateRadialElement")
    cases = [(1, 6, 1, 6), (1, 3, 1, 9), (1, 105, 2, 9), (2, 7, 1, 104), (3, 5, 1, 420), (1, 20, 2, 5), (1, 101, 2, 4), (4, 12, 4, 9)]
    for f in fs:
        cls = "Numerov" if "Numerov" in f["u"] else "Whittaker"
        for x1, n1, x2, n2 in cases:
            for power in (1, 2, 3):
                if power != 1 and n1 + n2 > 30: continue
                ev = IntEv(prog); ev.max_iter = 500
                a, b = ("qd", 1), ("qd", 2)
                amp = lambda q, i: ("sym", ("amp", q, i))
                ev.grids = {q: ("mat", (k, 2), tuple(y for i in range(k) for y in (x + i * 0.01, amp(q, i)))) for q, x, k in ((a, x1, n1), (b, x2, n2))}
                val = lambda t: math.sin(1.7 * t[1][2] + (0.3 if t[1][1] == a else 1.1)) + 1.5 if type(t) is tuple and t[:1] == ("sym",) and t[1][:1] == ("amp",) else None
                outs = ev.run(f, {}, None, [("l", a), ("v", power), ("l", b)])
                if not outs: raise AnalysisError(f"{loc(f)}: not understood")
                kern = 2 * power + (2 if cls == "Numerov" else 1)
                lo, hi = max(round(x1 * 100), round(x2 * 100)), min(round(x1 * 100) + n1 - 1, round(x2 * 100) + n2 - 1)
                terms = [2 * val(amp(a, i - round(x1 * 100))) * val(amp(b, i - round(x2 * 100))) * (i / 100) ** kern * 0.01 for i in range(lo, hi + 1)]
                for o in outs:
                    if applies(o[2], val) is False: continue
                    rep.count("integrals")
                    got = value(o[1], val, f"{loc(f)}: result") if o[0] == "ret" else float("nan")
                    ok = cclose(got, sum(terms), 1e-8, 1e-9) or cclose(got, sum(terms[:-1]), 1e-8, 1e-9)
                    rep.check(ok, f"integral:{cls}", f"{loc(f)}: {cls}, power {power}, grids from {x1} ({n1} points) and {x2} ({n2} points): the sum over the common points", f"{loc(f)}: {cls}, power {power}: for grids from {x1} ({n1} points) and from {x2} ({n2} points) the radial integral is {got:.9g}, the sum over the common points is {sum(terms[:-1]):.9g}")
