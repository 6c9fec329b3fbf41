"""The interaction in the Hamiltonian. For one- and two-atom systems, real and complex: (1) the function that adds the interaction
is evaluated with the settings at sample points and the operators left symbolic, giving a linear form in the operators that is
compared with the definition (Stark, Zeeman and diamagnetic terms by spherical component, charge and power of the distance for an
ion, power of the distance for multipoles, angular factors, elements of the Green tensor), also with each setting zero; (2) the
choice made before the operators of a pair are built is evaluated: what needs a Green tensor is refused without one, what no
Green tensor can do is refused, the terms are those of the Green tensor by index or the angular factors, too short distances
are checked; (3) a transformation of the basis turns every operator O into T^+ O T, none left out."""
from core import *
from facts import *
from interact import *
from smallmat import cclose
from C16 import instance, reads, THIS, MAX, spherical, diamagnetic
from C18 import ms, decided
import math
FLOORS = {"samples": 32, "choices": 20, "transformed": 18}

def settings(P, cls):
    """values of the settings at a sample point"""
    def env(t):
        if type(t) is not tuple: return None
        k = None
        if t[:1] == ("sym",): k, i = t[1], None
        elif is_app(t, "elem") and type(t[2]) is tuple and t[2][:1] == ("sym",): k, i = t[2][1], t[3]
        if k is not None:
            if len(k) == 2 and k[0] == "#": return None
            if k[:1] == ("#count",): return env.order
            if len(k) == 3 and type(k[2]) is tuple and k[2][:1] == ("idx",): k, i = k[:2], k[2][1]
            if len(k) == 2 and type(k[1]) is str and k[1].startswith(cls + "::"):
                v = P.get(k[1].split("::")[-1])
                if type(v) is dict: return v.get(key(i, env), 0.0) if i is not None else None
                if v is not None and i is None: return v
            if len(k) == 4 and k[2] == ("elem",) and k[3] == "std::pair::second": return env.second
        if is_app(t, "complex"): return complex(cval(t[2], env), cval(t[3], env) if len(t) > 3 else 0)
        if t[:1] == ("not",): return not cval(t[1], env)
        return None
    env.order, env.second = 2, 0.7
    return env
def key(i, env):
    if type(i) is tuple and i[:1] == ("tuple",): return ("tuple",) + tuple(key(x, env) for x in i[1:])
    if type(i) is tuple and i[:1] == ("sym",) and len(i[1]) == 4 and i[1][3] == "std::pair::first": return ("each", i[1][1].split("::")[-1])
    v = cval(i, env)
    return int(v) if v == int(v) else v
def operator(cls, env):
    def f(t):
        if t == ("sym", THIS + ("SystemBase::hamiltonian",)): return ("H",)
        k = i = None
        if type(t) is tuple and t[:1] == ("sym",) and len(t[1]) == 3 and type(t[1][2]) is tuple and t[1][2][:1] == ("idx",): k, i = t[1][:2], t[1][2][1]
        elif is_app(t, "elem") and type(t[2]) is tuple and t[2][:1] == ("sym",): k, i = t[2][1], t[3]
        if k and len(k) == 2 and type(k[1]) is str and k[1].startswith(cls + "::interaction_"):
            try: return (k[1].split("::")[-1][12:], key(i, env))
            except (KeyError, ValueError, TypeError): raise AnalysisError(f"the operator {ms(t)} is not understood")
        return None
    return f

def one(P):
    r = {}
    for x in ("efield", "bfield"):
        s = P[x + "_spherical"]
        for q, o, c in ((0, 0, -1), (-1, 1, 1), (1, -1, 1)):
            if s[q] != 0: r[(x, o)] = c * s[q]
    if P["diamagnetism"]:
        for (a, q), c in {(0, 0): 1, (2, 0): -1, (2, 1): math.sqrt(3), (2, -1): math.sqrt(3), (2, 2): -math.sqrt(1.5), (2, -2): -math.sqrt(1.5)}.items():
            v = P["diamagnetism_terms"][("tuple", a, q)]
            if v != 0: r[("diamagnetism", ("tuple", a, q))] = c * v
    if P["charge"] != 0 and P["distance"] != MAX: r.update({("multipole", k): P["charge"] / P["distance"] ** (k + 1) for k in range(1, P["ordermax"] + 1)})
    return r
def two(P):
    if P["distance"] == MAX: return {}
    if P["GTbool"]: return {("greentensor_" + x, ("each", "greentensor_terms_" + x)): 0.7 for x in ("dd", "dq", "qd")}
    if P["distance_x"] != 0: return {("angulardipole", ("each", "angle_terms")): 0.7 / P["distance"] ** 3}
    return {("multipole", k): 1 / P["distance"] ** k for k in range(3, P["ordermax"] + 1)}
def fields(e, b, diam, charge, distance):
    s = spherical(b)
    return {"efield_spherical": spherical(e), "bfield_spherical": s, "diamagnetism_terms": diamagnetic(s), "diamagnetism": diam, "charge": charge, "distance": distance, "ordermax": 3}
Z = (0.0, 0.0, 0.0)
ONE = [fields(e, b, d, c, r) for e, b, d, c, r in (((.3, -.7, 1.7), (.4, .2, -.9), True, 2, 5.), ((.3, 0., 1.7), Z, True, 0, 5.), (Z, (.4, 0., .9), False, 0, 7.), (Z, (.4, 0., .9), True, -1, MAX),
       ((0., 0., 1.), (0., 0., 2.), True, 1, 3.), ((.5, 0., 0.), (.6, 0., 0.), True, 0, MAX), (Z, Z, False, -1, 4.), (Z, Z, True, 0, MAX))]
def pair(r, gt, sd=MAX, order=3): return {"distance": math.sqrt(sum(x * x for x in r)) if r else MAX, "distance_x": r[0] if r else 0., "distance_y": r[1] if r else 0., "distance_z": r[2] if r else MAX, "GTbool": gt, "surface_distance": sd, "ordermax": order}
TWO = [pair((0., 0., 5.), False), pair((0., 0., -3.), False, order=5), pair((3., 0., 4.), False), pair((-3., 0., 4.), False), pair((3., 4., 12.), True), pair((0., 0., 5.), True), pair(None, False), pair(None, True), pair((3., 0., 4.), True, 2.)]

def added(rep, prog, cls, fs, real):
    f = [f for f in fs if short(f["fn"]) == "addInteraction"]
    if len(f) != 1: raise AnalysisError(f"{cls}::addInteraction not found")
    f = f[0]; w = loc(f, f)
    H = THIS + ("SystemBase::hamiltonian",)
    for P in ONE if cls == "SystemOne" else TWO:
        env = settings(P, cls)
        e = InterEval(prog, ()); e.point = env
        outs = call(e, f)
        if len(outs) != 1 or outs[0][0] != "ret":
            und = {repr(ms(t)) for o in outs for t in decided(o) if not known(t, env)}
            raise AnalysisError(f"{w}: {len(outs)} ways through the function for one choice of settings; {sorted(und)[:3]}")
        o = outs[0]
        ch = [k for k, v in o[2].items() if k[:1] == THIS and v != ("sym", k) and k != H and len(k) > 1 and type(k[1]) is str and not k[1].split("::")[-1].startswith(("interaction_", "efield_sph", "bfield_sph", "diamagnetism_terms"))]
        rep.check(not ch, f"{cls}:only", "adding the interaction changes the Hamiltonian only", f"{w}: adding the interaction changes {ch}")
        try: got = linear(o[2].get(H, ("sym", H)), env, operator(cls, env))
        except (KeyError, ValueError, TypeError, ZeroDivisionError): raise AnalysisError(f"{w}: the Hamiltonian becomes {ms(o[2].get(H))[:300]}, which is not understood")
        want = dict(one(P) if cls == "SystemOne" else two(P)); want[("H",)] = 1.0
        got = {k: v for k, v in got.items() if v != 0}
        rep.count("samples")
        show = ", ".join(f"{k}={v}" for k, v in P.items() if v not in (False, 0, MAX) and type(v) is not dict) or "no interaction"
        for k in sorted(set(got) | set(want), key=repr):
            nm = "the Hamiltonian without interaction" if k == ("H",) else f"operator {k[0]}[{k[1]}]" if k else "a number"
            rep.check(k in got and k in want and cclose(complex(got[k]), complex(want[k])), f"{cls}:{k}", f"{nm} has the right factor", f"{w}: with {show}: {nm} is added with factor {got.get(k, 0)} instead of {want.get(k, 0)}")
        for m in o[2].get(("#loops",), ()):
            if m[0] == "cut": rep.check(False, f"{cls}:cut", "", f"{w}: a loop over the terms ends early")
def known(t, env):
    try: cval(t, env); return True
    except (KeyError, ValueError, TypeError, ZeroDivisionError): return False

TENSORS = ("getDDTensor", "getDQTensor", "getQDTensor")
class Choice(InterEval):
    stop = ("precalculateMultipole", "getStatesFirst", "getStatesSecond")
    def prim(self, n, name, ol, args, st, fr):
        if short(name) in TENSORS:
            l = self.newloc()
            return [(("ref", l), self.put(st, l, app("green", short(name))))]
        if n["k"] == "OpCall" and n["op"] == "()" and ol is not None and is_app(self.value_of(st, ol), "green"):
            return [(app("element", self.value_of(st, ol), *[hashable(self.val(a, st)) for a in args]), st)]
        return super().prim(n, name, ol, args, st, fr)
    def inline(self, f, n): return not f.get("fn", "").startswith("GreenTensor") and super().inline(f, n)

CHOICES = [(pair((0., 0., 5.), False), "poles"), (pair((0., 0., 5.), False, order=5), "poles"), (pair((3., 0., 4.), False), "angle"), (pair((-4., 0., 3.), False), "angle"), (pair((3., 0., -4.), False), "angle"), (pair((5., 0., 0.), False), "angle"),
           (pair((3., 4., 12.), False), "refused"), (pair((0., 4., 3.), False), "refused"), (pair((3., -4., 12.), False), "refused"), (pair((3., -4., 12.), True, 2.), "refused"), (pair((0., 0., 5.), False, 2.), "refused"), (pair((3., 0., 4.), False, order=4), "refused"), (pair((3., 0., 4.), False, order=5), "refused"),
           (pair((3., 4., 12.), True), "dd"), (pair((3., 0., 4.), True, 2.), "dd"), (pair((0., 0., 5.), True), "dd"), (pair((3., 4., 12.), True, order=4), "dq"), (pair((3., 0., 4.), True, 2., 4), "dq"),
           (pair((3., 4., 12.), True, 2.), "refused"), (pair((0., 0., 5.), True, order=5), "refused"), (pair((3., 0., 4.), True, order=6), "refused"), (pair(None, False), "none"), (pair(None, True), "none")]
def angles(P):
    c, s = P["distance_z"] / P["distance"], P["distance_x"] / P["distance"]
    q = math.sqrt(2)
    r = {4: 1 - 3 * c * c, 2: -1 + 1.5 * s * s, 5: 3 / q * s * c, 1: -3 / q * s * c, 8: -1.5 * s * s, 0: -1.5 * s * s}
    return {k: v for k, v in r.items() if abs(v) > 1e-15}
def choice(rep, prog, fs, real):
    cls = "SystemTwo"
    f = [f for f in fs if short(f["fn"]) == "initializeInteraction"]
    if len(f) != 1: raise AnalysisError(f"{cls}::initializeInteraction not found")
    f = f[0]; w = loc(f, f)
    for P, kind in CHOICES:
        base = settings(P, cls)
        def env(t):
            if is_app(t, "std::abs") and "green" in repr(t): return 1.0
            return base(t)
        e = Choice(prog, ("checkDistance",)); e.point = env
        outs = call(e, f)
        if not outs: raise AnalysisError(f"{w}: not understood")
        show = ", ".join(f"{k}={v}" for k, v in P.items() if v not in (False, MAX))
        rep.count("choices")
        for o in outs:
            refused = o[0] == "throw" and not o[2].get(("#stopped",)) 
            if kind == "none":
                rep.check(o[0] == "ret" and not o[2].get(LOG), "none", "no interaction is built for infinite distance", f"{w}: at infinite distance an interaction is prepared"); continue
            if kind == "refused":
                rep.check(refused, "refused", "what cannot be calculated is refused", f"{w}: {show} is accepted although it cannot be calculated"); continue
            if not rep.check(not refused, "accepted", "valid settings are accepted", f"{w}: {show} is refused"): continue
            lg = o[2].get(LOG, ())
            rep.check([x[0] for x in lg] == ["checkDistance"] and lg[0][-1] == ("sym", THIS + ("SystemTwo::distance",)), "distance", "the distance is compared with the size of the atoms", f"{w}: {show}: the distance is not compared with the Le Roy radius")
            T = {}
            for k, v in o[2].items():
                if k[:1] == THIS and len(k) == 3 and type(k[2]) is tuple and k[2][:1] == ("idx",) and type(k[1]) is str: T.setdefault(k[1].split("::")[-1], {})[k[2][1]] = v
            T = {k: v for k, v in T.items() if not k.startswith("interaction_")}
            for t in ("greentensor_terms_dd", "greentensor_terms_dq", "greentensor_terms_qd", "angle_terms"):
                rep.check(o[2].get(THIS + (f"{cls}::{t}",)) == EMPTY, f"cleared:{t}", "terms of earlier settings are removed", f"{w}: {show}: {t} keeps terms of earlier settings")
            want = {"poles": set(), "angle": {"angle_terms"}, "dd": {"greentensor_terms_dd"}, "dq": {"greentensor_terms_dd", "greentensor_terms_dq", "greentensor_terms_qd"}}[kind]
            rep.check(set(T) == want, f"kind:{kind}", "the terms are those of the approach chosen", f"{w}: {show}: sets {sorted(T)} instead of {sorted(want)}")
            if kind == "angle" and "angle_terms" in T:
                try: got = {int(k): cval(v, env) for k, v in T["angle_terms"].items()}
                except ZeroDivisionError: continue
                except (KeyError, ValueError, TypeError): raise AnalysisError(f"{w}: the angular factors are not understood")
                got = {k: v for k, v in got.items() if abs(v) > 1e-15}
                exp = angles(P)
                if set(got) != set(exp) and len(got) == len(exp): raise AnalysisError(f"{w}: the numbering of the angular factors is not the expected one")
                for k in sorted(set(got) | set(exp)): rep.check(cclose(complex(got.get(k, 0)), complex(exp.get(k, 0))), f"angle:{k}", "angular factors", f"{w}: {show}: the angular factor {k} is {got.get(k, 0)} instead of {exp.get(k, 0)}")
            for t in sorted(want & set(T)):
                if t == "angle_terms": continue
                x = t[-2:]; n = 2 if x == "dd" else 3
                fn = f"get{x.upper()}Tensor"
                rep.check(len(T[t]) == 3 ** n, f"{t}:all", "all elements of the Green tensor are used", f"{w}: {show}: {len(T[t])} of {3 ** n} elements of the Green tensor ({x}) are used")
                for k, v in T[t].items():
                    i = indices(v, fn)
                    rep.check(i is not None and len(i) == n and type(k) is int and k == sum(a * 3 ** p for p, a in enumerate(i)), f"{t}:element", "each term is the element of the Green tensor with its index", f"{w}: {show}: the term {k} of {t} is {ms(v)}")
def indices(v, fn):
    return v[3:] if is_app(v, "element") and v[2] == ("app", "green", fn) else None

def transformed(rep, prog, cls, fs, real):
    f = [f for f in fs if short(f["fn"]) == "transformInteraction"]
    if len(f) != 1: raise AnalysisError(f"{cls}::transformInteraction not found")
    f = f[0]; w = loc(f, f)
    maps = {g for g in reads(prog, cls, fs, ("initializeInteraction", "addInteraction")) if g.startswith("interaction_")}
    if len(maps) < 4: raise AnalysisError(f"{cls}: operators of the interaction not found")
    T = ("sym", ("arg", 0))
    outs = call(InterEval(prog, ()), f)
    if not outs: raise AnalysisError(f"{w}: not understood")
    for o in outs:
        rep.check(o[0] == "ret", f"{cls}:transform:always", "every transformation of the basis is followed", f"{w}: a transformation is refused")
        for m in maps:
            k = THIS + (f"{cls}::{m}",)
            v = o[2].get(k + (("elem",), "std::pair::second"))
            rep.count("transformed")
            M = ("sym", k + (("elem",), "std::pair::second"))
            ok = v in (("app", "@", ("app", "@", ("app", "adj", T), M), T), ("app", "@", ("app", "adj", T), ("app", "@", M, T)))
            rep.check(ok and ("cut", k) not in o[2].get(("#loops",), ()), f"{cls}:{m}:transform", f"{m} is transformed along with the basis", f"{w}: {m} becomes {ms(v) if v is not None else 'nothing new'} under a transformation of the basis")

def run(rep):
    prog = Program(all_tus())
    for cls in ("SystemOne", "SystemTwo"):
        for real in (True, False):
            fs = instance(prog, cls, real)
            if not fs: raise AnalysisError(f"{cls}: no instantiation found")
            added(rep, prog, cls, fs, real)
            transformed(rep, prog, cls, fs, real)
            if cls == "SystemTwo": choice(rep, prog, fs, real)
