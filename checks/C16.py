"""Settings of quantum systems. Every public operation of a one- or two-atom system that writes one of its settings is
evaluated symbolically, for real and complex systems. Which settings feed the interaction and which the basis is read
off the code that builds them. Rules: an operation that changes a setting of the interaction (basis) announces a change
of parameters (symmetry); that announcement marks the Hamiltonian as outdated, or refuses if the interaction can no
longer be taken out (refuses once states exist); an operation that is refused, also by its announcement, leaves every
setting as it was; each setting becomes what was asked for: the formulas stored are compared with the definition
(spherical components of a rotated field, diamagnetic terms, components of the distance) at sample points."""
from core import *
from facts import *
from syseval import *
from smallmat import cval, cclose, applies as applies_
import smallmat, itertools, random, math
from C18 import ms, decided
FLOORS = {"setters": 40, "values": 150, "announcements": 2}
THIS = ("this",)
ANN = ("onParameterChange", "onSymmetryChange")

class SetEval(SysEval):
    """announcements may also refuse"""
    def record(self, n, sh, ol, args, st, fr):
        r = super().record(n, sh, ol, args, st, fr)
        if sh not in ANN or any(x[0] == sh for x in st.get(LOG, ())): return r    # the same answer as before on this path
        return r + [("throw", s) for _, s in r]
    def inline(self, f, n):
        return short(f.get("fn", "")) not in self.logged and super().inline(f, n)

def instance(prog, cls, real):
    pre = f"c:@S@{cls}>#d@" if real else f"c:@S@{cls}>#$@N@std@S@complex>#d@"
    return [f for f in prog.fns.values() if f["u"].startswith(pre) and f.get("body") and not f.get("dep")]

def closure(prog, cls, fs, names):
    """functions of the class reached from the named ones"""
    todo, seen = [f for f in fs if short(f["fn"]) in names], {}
    missing = set(names) - {short(f["fn"]) for f in todo}
    if missing: raise AnalysisError(f"{cls}: {sorted(missing)} not found")
    while todo:
        f = todo.pop()
        if f["u"] in seen: continue
        seen[f["u"]] = f
        for n in fn_nodes(f):
            if n.get("k") in ("Call", "MCall") and n.get("u") in prog.fns and prog.fns[n["u"]].get("cls") == cls: todo.append(prog.fns[n["u"]])
    return list(seen.values())

def own(n, cls): return n.get("k") == "Mem" and n.get("w") == "field" and (n.get("q") or "").startswith(cls + "::") and strip_casts(n["b"]).get("k") == "This"
def reads(prog, cls, fs, names):
    return {n["n"] for f in closure(prog, cls, fs, names) for n in fn_nodes(f) if own(n, cls)}

def same_as_before(k, v):
    return v == ("sym", k)
def written(o, cls):
    """settings with their new values; parts of a setting (elements) are listed by index"""
    r = {}
    for k, v in o[2].items():
        if k[:1] == THIS and len(k) > 1 and type(k[1]) is str and k[1].startswith(cls + "::") and not same_as_before(k, v):
            r.setdefault(k[1].split("::")[-1], {})[k[2:]] = v
    return r
def log(o): return [x[0] for x in o[2].get(LOG, ())]

# ---------------------------------------------------------------- announcements
def announcements(rep, prog):
    M = methods(prog, ["onParameterChange", "onSymmetryChange"])
    for f in M["onParameterChange"]:
        rep.count("announcements")
        w = loc(f, f)
        for cache in (True, False):
            e = SysEval(prog, (), cache)
            outs = call(e, f)
            for o in outs:
                d = decided(o)
                contained = [v for t, v in d.items() if "is_interaction_already_contained" in repr(t)]
                ch = {k: v for k, v in o[2].items() if k[:1] == THIS and not same_as_before(k, v)}
                if o[0] == "ret":
                    rep.check(set(k[1].split("::")[-1] for k in ch) <= {"is_new_hamiltonian_required"} and list(ch.values()) == [True], "parameter:mark", "a change of parameters marks the Hamiltonian as outdated", f"{w}: a change of parameters does not mark the Hamiltonian as outdated")
                    rep.check(cache or contained == [False], "parameter:refuse", "a change of parameters is refused if the interaction cannot be taken out again", f"{w}: parameters can be changed although the interaction is contained in the Hamiltonian and there is no copy without it")
                else:
                    rep.check(not ch, "parameter:clean", "a refused change of parameters changes nothing", f"{w}: a refused change of parameters changes the system")
                    rep.check(not cache and contained == [True], "parameter:allowed", "parameters can be changed whenever a copy without interaction exists or none was added yet", f"{w}: a change of parameters is refused although it is possible")
    for f in M["onSymmetryChange"]:
        rep.count("announcements")
        w = loc(f, f)
        for o in call(SysEval(prog, ()), f):
            d = decided(o)
            ch = {k: v for k, v in o[2].items() if k[:1] == THIS and not same_as_before(k, v)}
            some = [v for t, v in d.items()]
            t = [t for t in d]
            if len(t) != 1 or "states" not in repr(t[0]): raise AnalysisError(f"{w}: when a change of symmetry is refused is not understood")
            at = lambda n: bool(cval(t[0], lambda x: (n == 0 if "empty" in x[1] else n) if is_app(x, "std::vector::empty") or type(x) is tuple and x[:1] == ("app",) and short(x[1]) in ("size", "empty", "len", "rows", "nstates") else None))
            try: allowed = [at(n) == d[t[0]] for n in (0, 1, 2, 100)]
            except (KeyError, ValueError, TypeError): raise AnalysisError(f"{w}: {ms(t[0])}: when a change of symmetry is refused is not understood")
            if len(set(allowed[1:])) > 1:
                rep.check(False, "symmetry", "", f"{w}: whether symmetries can be changed depends on how many states there are"); continue
            empty = allowed[0]
            if empty and allowed[1]: rep.check(False, "symmetry", "", f"{w}: symmetries are treated alike with and without states"); continue
            rep.check(not ch and (o[0] == "ret") == empty, "symmetry", "symmetries can be changed exactly as long as there are no states", f"{w}: symmetries can be {'changed' if o[0] == 'ret' else 'not changed'} while there are {'no ' if empty else ''}states")

# ---------------------------------------------------------------- values
R3 = [[0.36, 0.48, -0.8], [-0.8, 0.6, 0.0], [0.48, 0.64, 0.6]]
MAX = 1.7976931348623157e308
def mat(t, env):
    """3-vectors and rotations"""
    if type(t) is tuple:
        if t[:1] == ("sym",) and t[1] in env: return env[t[1]]
        if is_app(t, "buildRotator"): return R3 if t[2:] in env["rotations"] else None
        if t[:2] in (("app", "adj"), ("app", "tr")):
            m = mat(t[2], env)
            return [list(x) for x in zip(*m)] if m and type(m[0]) is list else None
        if t[:2] == ("app", "@") or t[:2] == ("app", "*"):
            a, b = mat(t[2], env), mat(t[3], env)
            if a and b and type(a[0]) is list: return tuple(sum(x * y for x, y in zip(r, b)) for r in a) if type(b) is tuple else None
    return None
def point(env):
    def f(t):
        if type(t) is tuple and t[:1] == ("sym",):
            if t[1] in env: return env[t[1]] if type(env[t[1]]) is not tuple else None
            if t[1][-1:] and type(t[1][-1]) is tuple and t[1][-1][:1] == ("idx",) and t[1][:-1] in env: return env[t[1][:-1]][t[1][-1][1]]
        if is_app(t, "elem") and type(t[3]) is int:
            v = mat(t[2], env)
            if v is not None: return v[t[3]]
        if type(t) is tuple and t[:1] == ("app",) and short(t[1]) in ("norm", "squaredNorm") and len(t) == 3:
            v = mat(t[2], env)
            if v is not None: return math.sqrt(sum(x * x for x in v)) if short(t[1]) == "norm" else sum(x * x for x in v)
        if is_app(t, "complex"): return complex(cval(t[2], f), cval(t[3], f) if len(t) > 3 else 0)
        if type(t) is tuple and t[:1] == ("not",): return not cval(t[1], f)
        return None
    return f
def applicable(o, env):
    for k, b in o[2].items():
        if k[0] == "D":
            try:
                if bool(cval(k[1], env)) != b: return False
            except (KeyError, ValueError, ZeroDivisionError, OverflowError, TypeError, IndexError): return None
    return True
def num(v, env, f, what):
    try: return cval(v, point(env)) if mat(v, env) is None else mat(v, env)
    except (KeyError, ValueError, ZeroDivisionError, OverflowError, TypeError, IndexError) as x:
        raise AnalysisError(f"{loc(f, f)}: {what} is set to {ms(v)}, which is not understood")
def near(a, b):
    if type(a) is tuple or type(b) is tuple: return type(a) is type(b) and len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if type(a) is bool or type(b) is bool: return bool(a) == bool(b)
    return a == b or cclose(complex(a), complex(b))

def spherical(v): x, y, z = v; return {1: complex(-x, -y) / math.sqrt(2), -1: complex(x, -y) / math.sqrt(2), 0: z}
def diamagnetic(s): return {("tuple", 0, 0): s[0] ** 2 - 2 * s[1] * s[-1], ("tuple", 2, 0): s[0] ** 2 + s[1] * s[-1], ("tuple", 2, 1): s[0] * s[-1], ("tuple", 2, -1): s[0] * s[1], ("tuple", 2, 2): s[-1] ** 2, ("tuple", 2, -2): s[1] ** 2}
def rotated(v, back=True): return tuple(sum(R3[j][i] * v[j] for j in range(3)) for i in range(3))
VECS = [(0.3, 0.0, 1.7), (-1.1, 0.0, 0.4), (0.0, 0.0, 0.0), (0.3, -0.7, 1.7), (2.1, 0.9, -0.3), (0.0, 1.3, 0.0)]

def field(x, diam):
    def spec(args, st, real, rot):
        v = rotated(args[0]) if rot and any(args[0]) else args[0]
        if real and v[1] != 0: return None
        s = spherical(v)
        r = {x: {(): v}, x + "_spherical": {(("idx", q),): c for q, c in s.items()}}
        if diam: r["diamagnetism_terms"] = {(("idx", k),): c for k, c in diamagnetic(s).items()}
        return r
    return spec
def simple(x): return lambda args, st, real, rot: {x: {(): args[0]}}
def vec(args, st, real, rot):
    x, y, z = args[0]
    r = {"distance_x": {(): x}, "distance_y": {(): y}, "distance_z": {(): z}, "distance": {(): math.sqrt(x * x + y * y + z * z)}}
    if y != 0: r["GTbool"] = {(): True}
    return r
def dist(args, st, real, rot): return dict({"distance": {(): args[0]}}, **{f"distance_{c}": {(): st[f"distance_{c}"] / st["distance"] * args[0]} for c in "xyz"})
def angle(args, st, real, rot): return {"distance_x": {(): st["distance"] * math.sin(args[0])}, "distance_y": {(): 0.0}, "distance_z": {(): st["distance"] * math.cos(args[0])}}
def surface(args, st, real, rot): return dict({"surface_distance": {(): args[0]}}, **({"GTbool": {(): True}} if args[0] != MAX else {}))
def green(args, st, real, rot): return None if not args[0] and st["surface_distance"] != MAX else {"GTbool": {(): args[0]}}
D = [0.7, 3.0, 12.5]
ONE = {"setEfield": (field("efield", False), VECS), "setBfield": (field("bfield", True), VECS), "enableDiamagnetism": (simple("diamagnetism"), [True, False]),
       "setIonCharge": (simple("charge"), [1, -1, 2]), "setRydIonOrder": (simple("ordermax"), [1, 3]), "setRydIonDistance": (simple("distance"), D)}
TWO = {"enableGreenTensor": (green, [True, False]), "setSurfaceDistance": (surface, D + [MAX]), "setDistance": (dist, D), "setDistanceVector": (vec, [v for v in VECS if any(v)]),
       "setAngle": (angle, [0.0, 0.4, 1.9, -2.5]), "setOrder": (simple("ordermax"), [3, 4, 5])}
STATE1 = [{"efield": (0.2, 0.0, 0.1), "bfield": (0.1, 0.0, 0.9), "diamagnetism": False, "charge": 0, "ordermax": 0, "distance": 9.0}]
STATE2 = [{"distance": 5.0, "distance_x": 3.0, "distance_y": 0.0, "distance_z": 4.0, "GTbool": False, "surface_distance": MAX, "ordermax": 3},
          {"distance": 13.0, "distance_x": 3.0, "distance_y": -4.0, "distance_z": 12.0, "GTbool": True, "surface_distance": 2.5, "ordermax": 4}]

def values(rep, e, f, outs, cls, nm, real):
    spec, samples = (ONE if cls == "SystemOne" else TWO)[nm]
    w = loc(f, f)
    n = len(f["p"])
    rot = nm in ("setEfield", "setBfield") and n > 1
    rets = [o for o in outs if o[0] == "ret" or not set(log(o)[-1:]) & set(ANN) or True]
    kind = "real" if real else "complex"
    for a in samples:
        for st in (STATE1 if cls == "SystemOne" else STATE2):
            env = {THIS + (f"{cls}::{k}",): v for k, v in st.items()}
            env[("arg", 0)] = a
            env["rotations"] = [tuple(("sym", ("arg", i)) for i in range(1, n))]
            ps = [(o, applicable(o, point(env))) for o in rets]
            hit = [o for o, x in ps if x and o[0] == "ret"]
            ref = [o for o, x in ps if x and o[0] == "throw" and o[1] != "announced"]
            if any(x is None for _, x in ps): raise AnalysisError(f"{w}: {nm}: a condition is not understood: {[ms(k[1]) for o, x in ps if x is None for k in o[2] if k[0] == 'D'][:2]}")
            want = spec((a,), st, real, rot)
            rep.count("values")
            show = f"{nm}({', '.join([str(a)] + ['rotation'] * rot)}) of a {kind} system"
            if want is None:
                rep.check(not hit, f"{cls}:{nm}:refused", f"{nm}: what cannot be represented is refused ({kind})", f"{w}: {show} is accepted although it must be refused")
                continue
            if not rep.check(bool(hit), f"{cls}:{nm}:accepted:{kind}", f"{nm} accepts valid settings ({kind})", f"{w}: {show} is refused"): continue
            for o in hit:
                got = written(o, cls)
                for x, parts in want.items():
                    full = got.get(x, {})
                    for p, v in parts.items():
                        old = st.get(x) if p == () else None
                        if p in full: g = num(full[p], env, f, x)
                        elif p and p[:1] and () in full:
                            g = None
                        elif p == () and all((("idx", i),) in full for i in range(3)) and type(v) is tuple: g = tuple(num(full[(("idx", i),)], env, f, x) for i in range(3))
                        else: g = old
                        rep.check(g is not None and near(g, v), f"{cls}:{nm}:{x}", f"{nm}: {x} becomes what was asked for ({kind})", f"{w}: {show} sets {x}{'' if p == () else str(p[0][1])} to {g} instead of {v}")
                for x in got:
                    if x in want: continue
                    if x not in st: raise AnalysisError(f"{w}: {nm} writes {x}, whose meaning is not known")
                    g = num(got[x].get((), None), env, f, x)
                    rep.check(near(g, st[x]), f"{cls}:{nm}:also:{x}", f"{nm} leaves {x} alone", f"{w}: {show} also changes {x} to {g}")

def symmetry(rep, e, f, outs, cls, nm, x):
    """symmetries become what was asked for, unless they contradict each other"""
    w = loc(f, f)
    A = ("sym", ("arg", 0))
    for o in outs:
        d = decided(o)
        comp = [v for t, v in d.items() if is_app(t, "isRefelectionAndRotationCompatible")]
        if o[0] == "ret":
            got = written(o, cls)
            rep.count("values")
            rep.check(list(got) == [x] and got[x] == {(): A}, f"{cls}:{nm}", f"{nm} sets the symmetry asked for", f"{w}: {nm} sets {({a: {p: ms(v) for p, v in b.items()} for a, b in got.items()})}")
            if nm in ("setConservedParityUnderReflection", "setConservedMomentaUnderRotation"):
                rep.check(comp == [True], f"{cls}:{nm}:compatible", f"{nm}: contradicting symmetries are refused", f"{w}: {nm} accepts symmetries that contradict each other")
SYM = {"setConservedParityUnderReflection": "sym_reflection", "setConservedMomentaUnderRotation": "sym_rotation", "setConservedParityUnderPermutation": "sym_permutation", "setConservedParityUnderInversion": "sym_inversion", "setOneAtomBasisvectors": "one_atom_basisvectors_indices"}

def run(rep):
    prog = Program(all_tus())
    announcements(rep, prog)
    for cls in ("SystemOne", "SystemTwo"):
        seen = set()
        for real in (True, False):
            fs = instance(prog, cls, real)
            if not fs: raise AnalysisError(f"{cls}: no instantiation found")
            inter = reads(prog, cls, fs, ("initializeInteraction", "addInteraction"))
            basis = reads(prog, cls, fs, ("initializeBasis",))
            for f in fs:
                nm = short(f["fn"])
                if f.get("acc") != "public" or f.get("kind") in ("ctor", "dtor") or nm in (cls, "serialize") or f["fn"].split("::")[-1].startswith("operator"): continue
                writes = any(own(n, cls) for g in closure(prog, cls, fs + [f], {nm}) for n in fn_nodes(g)) and f["t"] == "void"
                if not writes: continue
                e = SetEval(prog, ANN + ("isRefelectionAndRotationCompatible", "buildRotator", "buildBasis"))
                outs = call(e, f)
                w = loc(f, f)
                changed = any(written(o, cls) for o in outs if o[0] == "ret")
                if not changed: continue
                rep.count("setters"); seen.add(nm)
                for o in outs:
                    ch = written(o, cls)
                    if o[0] == "throw":
                        rep.check(not ch, f"{cls}:{nm}:refused-clean", f"{nm}: a refused setting leaves the system as it was", f"{w}: {nm} changes {sorted(ch)} even if it is refused" + (f" by {log(o)[-1]}" if log(o) else ""))
                        continue
                    lg = log(o)
                    for x in ch:
                        if x in inter: rep.check("onParameterChange" in lg, f"{cls}:{nm}:{x}:parameter", f"{nm}: the change of {x} is announced", f"{w}: {nm} changes {x}, which the interaction depends on, without announcing a change of parameters: a Hamiltonian that was built before is kept")
                        if x in basis and x not in inter: rep.check("onSymmetryChange" in lg, f"{cls}:{nm}:{x}:symmetry", f"{nm}: the change of {x} is announced", f"{w}: {nm} changes {x}, which the basis depends on, without checking that the basis was not built yet: the change is ignored")
                if nm in (ONE if cls == "SystemOne" else TWO): values(rep, e, f, outs, cls, nm, real)
                elif nm in SYM: symmetry(rep, e, f, outs, cls, nm, SYM[nm])
                else: rep.note(f"{cls}::{nm}: what it is meant to set is not known here")
        missing = set(ONE if cls == "SystemOne" else TWO) - seen
        if missing: raise AnalysisError(f"{cls}: {sorted(missing)} not found or without effect")
