"""Combining systems. The function that takes over another system of the same kind is evaluated symbolically for one- and
two-atom systems, real and complex. Which settings the interaction is built from and which maps hold
interaction operators is read off the code. Rules: the combination is accepted only on paths on which every setting
(or those it is determined by) and every species was found equal; a refused combination has changed nothing; a
symmetry in which the systems differ is dropped or widened to cover both, one in which they agree stays; the interaction
operators kept for the old basis are discarded."""
from core import *
from facts import *
from interact import *
from C16 import instance, reads, closure, own, written, SetEval, ANN, THIS
from C18 import ms, decided
FLOORS = {"settings": 20, "paths": 40, "maps": 18, "momenta": 100}

# what is determined by other settings (that it always is what they say is C16)
FROM = {"SystemOne": {"efield_spherical": {"efield"}, "bfield_spherical": {"bfield"}, "diamagnetism_terms": {"bfield"}}, "SystemTwo": {"distance": {"distance_x", "distance_y", "distance_z"}}}
def equalities(o):
    """fields (with parts) of this and the other system found equal / different on a path"""
    eq, ne = set(), set()
    def part(t):
        if type(t) is not tuple: return None
        if t[:1] == ("sym",): return t[1]
        if is_app(t, "elem") and type(t[3]) is int:
            p = part(t[2]); return p and p + (("idx", t[3]),)
        return None
    for t, v in decided(o).items():
        while type(t) is tuple and t[:1] == ("not",): t, v = t[1], not v
        if not (type(t) is tuple and t[:1] == ("app",) and t[1] in ("==", "!=") and len(t) == 4): continue
        a, b = part(t[2]), part(t[3])
        if not a or not b: continue
        if a[0] != "this": a, b = b, a
        if a[:1] != ("this",) or b[:2] != ("arg", 0) or a[1:] != b[2:]: continue
        (eq if v == (t[1] == "==") else ne).add(a[1:])
    return eq, ne
def nm(x): return x.split("::")[-1]

def setters(prog, cls, fs):
    """what each public operation writes"""
    r = []
    for f in fs:
        if f.get("acc") != "public" or f.get("kind") in ("ctor", "dtor") or short(f["fn"]) in (cls, "serialize") or f["t"] != "void" or f["fn"].split("::")[-1].startswith("operator"): continue
        w = set()
        e = SetEval(prog, ANN + ("isRefelectionAndRotationCompatible", "buildRotator", "buildBasis"))
        if not any(own(n, cls) for g in closure(prog, cls, fs + [f], {short(f["fn"])}) for n in fn_nodes(g)): continue
        for o in call(e, f):
            if o[0] == "ret":
                ch = set(written(o, cls))
                if ch: r.append((short(f["fn"]), frozenset(ch)))
    return r

def run(rep):
    prog = Program(all_tus())
    for cls in ("SystemOne", "SystemTwo"):
        for real in (True, False):
            fs = instance(prog, cls, real)
            if not fs: raise AnalysisError(f"{cls}: no instantiation found")
            inter = reads(prog, cls, fs, ("initializeInteraction", "addInteraction"))
            basis = reads(prog, cls, fs, ("initializeBasis",))
            sets = setters(prog, cls, fs)
            settable = set().union(*[w for _, w in sets])
            inc = [f for f in fs if short(f["fn"]) == "incorporate"]
            if len(inc) != 1: raise AnalysisError(f"{cls}::incorporate not found")
            f = inc[0]; w = loc(f, f)
            outs = call(InterEval(prog, ()), f)
            if not outs: raise AnalysisError(f"{w}: not understood")
            syms = sorted(x for x in settable if x.startswith("sym_"))
            need = sorted(x for x in settable & (inter | basis) if not x.startswith("sym_") and x != "one_atom_basisvectors_indices")
            maps = {g for g in inter if g.startswith("interaction_")}
            kind = f"{cls} ({'real' if real else 'complex'})"
            rets = [o for o in outs if o[0] == "ret"]
            rep.count("paths", len(outs)); rep.count("settings", len(need) + len(syms)); rep.count("maps", len(maps))
            rep.check(bool(rets), f"{cls}:some", "systems can be combined", f"{w}: systems are never combined")
            for o in outs:
                if o[0] == "throw":
                    ch = {nm(k[1]) for k, v in o[2].items() if k[:1] == THIS and len(k) > 1 and type(k[1]) is str and v != ("sym", k)}
                    rep.check(not ch, f"{cls}:refused", f"{kind}: a refused combination changes nothing", f"{w}: a refused combination has already changed {sorted(ch)}")
                    continue
                eq, ne = equalities(o)
                whole = {nm(x[0]) for x in eq if len(x) == 1}
                parts = {}
                for x in eq:
                    if len(x) == 2: parts.setdefault(nm(x[0]), set()).add(x[1])
                same = whole | {k for k, v in parts.items() if {("idx", 0), ("idx", 1)} <= v}
                rep.check("species" in same, f"{cls}:species", f"{kind}: only systems of the same species are combined", f"{w}: systems are combined without regard to their species")
                for x in need:
                    ok = x in same or bool(FROM[cls].get(x)) and FROM[cls][x] <= same
                    by = sorted({n for n, ws in sets if x in ws})
                    rep.check(ok, f"{cls}:{x}", f"{kind}: only systems with the same {x} are combined", f"{w}: systems that differ in {x} ({', '.join(by)}) are combined, the difference is lost")
                got = {nm(k[1]): v for k, v in o[2].items() if k[:1] == THIS and len(k) == 2 and type(k[1]) is str and v != ("sym", k)}
                diff = {nm(x[0]) for x in ne if len(x) == 1}
                for x in syms:
                    if x == "sym_rotation": continue
                    if x in diff: rep.check(x in got and type(got[x]) in (int, float, tuple) and got[x] == NOT, f"{cls}:{x}:different", f"{kind}: a symmetry only one of the systems has is dropped", f"{w}: {x} becomes {ms(got.get(x, 'unchanged'))} although the systems differ in it")
                    elif x in whole: rep.check(x not in got or got[x] == ("sym", ("arg", 0, f"{cls}::{x}")), f"{cls}:{x}:same", f"{kind}: a common symmetry stays", f"{w}: {x} is changed although the systems agree in it")
                    else: rep.check(False, f"{cls}:{x}:compared", "", f"{w}: {x} is taken from one system whatever it is in the other")
                for m in sorted(maps):
                    rep.check(got.get(m) == EMPTY, f"{cls}:{m}", f"{kind}: the operators for the old basis are discarded ({m})", f"{w}: {m} keeps the operators for the old basis")
            rotation(rep, cls, kind, w, outs)

NOT = 2147483647    # parity_t::NA
ARB = 32767
SETS = [frozenset(x) for x in ((ARB,), (0,), (1,), (0, 1), (-1, 0, 1), (2, 3))]
def rotation(rep, cls, kind, w, outs):
    """the momenta allowed are those of both systems, or arbitrary"""
    x = f"{cls}::sym_rotation"
    mine, other = ("this", x), ("arg", 0, x)
    def setof(v, S):
        if v in S: return S[v]
        if type(v) is tuple and v[:1] in (("sym",), ("copyof",)) and v[1] in S: return S[v[1]]
        if type(v) is tuple and v[:1] == ("tuple",): return frozenset(v[1:])
        if type(v) in (int, float): return frozenset((v,))
        if type(v) is tuple and v[:1] == ("list",):
            r = frozenset() if len(v) == 2 else setof(v[2], S)
            for b, g, p in v[1]:
                if b or g: raise AnalysisError(f"{w}: the momenta allowed become {ms(v)}, which is not understood")
                r |= setof(p[1], S) if type(p) is tuple and p[:1] == ("all",) else frozenset((p,))
            return r
        raise AnalysisError(f"{w}: the momenta allowed become {ms(v)}, which is not understood")
    for a in SETS:
        for b in SETS:
            S = {mine: a, other: b}
            def env(t):
                if type(t) is tuple and t[:1] == ("has",) and t[1] in S: return int(t[2] in S[t[1]])
                if type(t) is tuple and t[:1] == ("not",): return not cval(t[1], env)
                if type(t) is tuple and t[:1] == ("app",):
                    if short(t[1]) in ("size", "empty") and len(t) == 3 and t[2][:1] == ("sym",) and t[2][1] in S: return len(S[t[2][1]]) if short(t[1]) == "size" else not S[t[2][1]]
                    if t[1] == "std::equal": 
                        ls = [v[1] for v in t[2:] if type(v) is tuple and v[:1] in (("iter",), ("enditer",))]
                        if set(ls) == set(S) and ls[0] == ls[1]: return sorted(S[ls[0]]) == sorted(S[ls[2]])[:len(S[ls[0]])]
                    if t[1] in ("==", "!=") and len(t) == 4 and all(v[:1] == ("sym",) and v[1] in S for v in t[2:] if type(v) is tuple) and all(type(v) is tuple for v in t[2:]): return (S[t[2][1]] == S[t[3][1]]) == (t[1] == "==")
                return None
            hit = []
            for o in outs:
                if o[0] != "ret": continue
                ok = True
                for t, v in decided(o).items():
                    if "sym_rotation" not in repr(t): continue
                    try: ok &= bool(cval(t, env)) == v
                    except (KeyError, ValueError, TypeError, IndexError): raise AnalysisError(f"{w}: the condition {ms(t)} on the momenta is not understood")
                if ok: hit.append(o)
            want = a if a == b else frozenset((ARB,)) if ARB in a | b else a | b
            for o in hit:
                got = setof(o[2].get(mine, ("sym", mine)), S)
                rep.check(got == want or ARB in want and ARB in got, f"{cls}:sym_rotation", f"{kind}: the momenta allowed are those of both systems", f"{w}: systems with the momenta {sorted(a)} and {sorted(b)} are combined to one with {sorted(got)}")
            rep.count("momenta", len(hit))
