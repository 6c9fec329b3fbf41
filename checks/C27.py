"""The Python calculation backend is evaluated abstractly, from the settings the window hands over to the systems whose
results are written, with numbers as symbols. For every scenario (kind of calculation, limits given or switched off, same
basis, method, symmetries, conserved momentum) all settings of the systems are compared with what the settings of the
window mean: species and start states of each atom, ranges of the quantum numbers and of the energy around the start
state (around both for a common basis), window of the pair energy around the sum of the energies of the two start
states, diamagnetism, real or complex arithmetic, method, order, symmetries and momenta of every block. A setting that
is missing, additional or taken from the other atom is a violation."""
from core import *
from facts import *
import pyfacts as P
from pyfacts import Sym, SStr, show, PyExc
import C25
from C25 import keys_of_gui, evaluate, results, hashed, transparent, objs, state_of, isexists
FLOORS = {"calculations": 30, "systems": 60, "settings": 500, "blocks": 40}

def strip(t):
    """numbers without conversions and containers"""
    if isinstance(t, Sym):
        if t.k[0] in ("int", "float") and len(t.k) == 2: return strip(t.k[1])
        if t.k[0] == "call" and show(t.k[1]) in ("int", "float", "numpy.float64", "numpy.array", "numpy.asarray", "list", "tuple") and len(t.k[2]) == 1: return strip(t.k[2][0])
        if t.k[0] in ("min", "max") and len(t.k) == 2 and isinstance(t.k[1], tuple) and len(t.k[1]) == 2: return strip(t.k[1][1])
        if t.k[0] in ("min", "max"):
            x = t.k[1][1:] if len(t.k) == 2 and isinstance(t.k[1], tuple) else t.k[1:]
            x = [strip(y) for y in x]; u = sorted(set(x), key=repr)
            return u[0] if len(u) == 1 else Sym(t.k[0], tuple(["set"] + u))
        if t.k[0] == "bin" and t.k[1] in ("+", "Add"):
            return Sym("sum", tuple(sorted(summands(t), key=repr)))
        return Sym(*[strip(x) for x in t.k])
    if isinstance(t, tuple):
        if t[:1] and t[0] in ("list", "tuple", "arr", "set"): return ("seq",) + tuple(strip(x) for x in t[1:])
        return tuple(strip(x) for x in t)
    if isinstance(t, float) and t == int(t) if isinstance(t, float) and abs(t) < 1e9 else False: return int(t)
    return t
def summands(t):
    while isinstance(t, Sym) and t.k[0] in ("int", "float") and len(t.k) == 2: t = t.k[1]
    if isinstance(t, Sym) and t.k[0] == "bin" and t.k[1] in ("+", "Add"): return summands(t.k[2]) + summands(t.k[3])
    return [strip(t)]

def plus(a, b): return strip(Sym("bin", "+", a, b)) if not num(a, b) else strip(a + b)
def minus(a, b): return strip(Sym("bin", "-", a, b)) if not num(a, b) else strip(a - b)
def num(*x): return all(isinstance(v, (int, float)) for v in x)
def least(xs): return strip(Sym("min", tuple(["list"] + xs))) if not num(*xs) else strip(min(xs))
def most(xs): return strip(Sym("max", tuple(["list"] + xs))) if not num(*xs) else strip(max(xs))

def state(params, i):
    return [params[q + str(i)] for q in ("species", "n", "l", "j", "m")]
def energy(params, i, species):
    s = state(params, i)
    return strip(Sym("call", Sym("attr", Sym("call", Sym("attr", Sym("mod", "pairinteraction.pireal"), "StateOne"), tuple([species] + s[1:])), "getEnergy"), ()))

def contains(t, pred):
    return C25.contains(t, pred)
def inputs(t):
    acc = set()
    def go(x):
        if isinstance(x, Sym):
            if x.k[0] == "in": acc.add(x.k[1])
            for y in x.k: go(y)
        elif isinstance(x, (tuple, list)):
            for y in x: go(y)
    go(t); return acc

def largest(t):
    """index of the largest overlap: last of argsort, first of the reversed one, or argmax; returns the overlap"""
    if not isinstance(t, Sym): return None
    if t.k[0] == "call" and show(t.k[1]) == "numpy.argmax": return t.k[2][0]
    if t.k[0] == "sub":
        x, i = t.k[1], t.k[2]
        if isinstance(x, Sym) and x.k[0] == "sub" and x.k[2] == ("slice", None, None, -1) and i == 0: x = x.k[1]
        elif i != -1: return None
        if isinstance(x, Sym) and x.k[0] == "call" and show(x.k[1]) == "numpy.argsort": return x.k[2][0]
    return None
def pairpart(t, sysname, st):
    """energy of the eigenstate with the largest overlap with the state of one atom"""
    if not (isinstance(t, Sym) and t.k[0] == "sub"): return f"{show(t)[:80]} is no energy of a state"
    ov = largest(t.k[2])
    if ov is None: return f"{show(t.k[2])[:80]} is not the eigenstate of largest overlap"
    if not contains(ov, lambda x: isinstance(x, Sym) and x.k[0] == "attr" and x.k[2] == "getOverlap"): return "there is no overlap"
    if not contains(t.k[1], lambda x: isinstance(x, Sym) and x.k[0] == "attr" and x.k[2] == "getHamiltonian"): return "the energy is none of the Hamiltonian"
    want = [strip(x) for x in st]
    if not contains(strip(ov), lambda x: isinstance(x, Sym) and x.k[0] == "call" and show(x.k[1]).endswith(".StateOne") and list(x.k[2]) == want): return f"the overlap is not that with the state {want}"
    return None

def expected_one(params, atoms, species):
    T = {}
    for q in "NLJM":
        d = params[f"delta{q}Single"]
        if num(d) and d < 0: continue
        v = [params[q.lower() + str(i)] for i in atoms]
        T["restrict" + q] = (minus(least(v), d), plus(most(v), d))
    d = params["deltaESingle"]
    if not (num(d) and d < 0):
        e = [energy(params, i, species) for i in atoms]
        T["restrictEnergy"] = (minus(least(e), d), plus(most(e), d))
    T["enableDiamagnetism"] = (bool(params["diamagnetism"]),)
    return T

IGNORED = {"diagonalize", "setEfield", "setBfield", "setDistance", "constructor", "cache.setMethod", "setMinimalNorm", "setAngle", "canonicalize", "buildInteraction", "buildHamiltonian", "buildBasis"}
def blocks_of(params):
    """the symmetries of every block"""
    if params["button_id"] != 2: return [{}]
    s = []
    names = {"inv": "Inversion", "per": "Permutation", "ref": "Reflection"}
    opts = [[e for e in "OE" if params.get(k + e)] or [None] for k in names]
    if not params.get("conserveM"): M = [None]
    elif params.get("sametrafo"):
        if params.get("zerotheta"): M = [plus(params["m1"], params["m2"])]
        else:
            J = params["j1"] + params["j2"]; M = [-J + k for k in range(int(2 * J) + 1)]
    else:
        d = params["deltaMSingle"]; m = params["m1"] + params["m2"]
        if d >= 0: M = [m - 2 * d + k for k in range(int(4 * d) + 1)]
        else:
            dj, dl = params["deltaJSingle"], params["deltaLSingle"]
            J = params["j1"] + params["j2"] + 2 * dj if dj >= 0 else params["l1"] + params["l2"] + 2 * dl + 2 * 0.5   # spin of rubidium
            M = [-J + k for k in range(int(2 * J) + 1)]
    for i in opts[0]:
        for p in opts[1]:
            for r in opts[2]:
                if params.get("sametrafo"):
                    same = all(params[q + "1"] == params[q + "2"] for q in ("species", "n", "l", "j", "m"))
                    if same and "E" in (i, p): continue                        # the start state is not in this block
                    if i and p and (1 if i == p else -1) != (-1) ** (params["l1"] + params["l2"]): continue   # nor in these
                ms = M
                if r and M != [None]: ms = sorted({abs(m) for m in M})
                for m in ms:
                    b = {}
                    for v, n in zip((i, p, r), names.values()):
                        if v: b["setConservedParityUnder" + n] = {"O": "ODD", "E": "EVEN"}[v]
                    if m is not None: b["setConservedMomentaUnderRotation"] = ("seq", strip(m))
                    s.append(b)
    return s

def scenarios(K):
    S = [(n, p) for n, p in C25.scenarios(K) if "swept" not in n and not re.search("no limit of [NLJ]$", n) or n.startswith("potential, no limit")]
    base = dict(next(p for n, p in S if n == "potential, default"))
    num = dict(n1=60, l1=0, j1=0.5, m1=0.5, n2=61, l2=1, j2=1.5, m2=-0.5)
    one = dict(deltaESingle=-1, deltaNSingle=-1, deltaLSingle=-1)
    def add(name, **kw): S.append(("potential, " + name, {**base, **kw}))
    add("all momenta of the limits of m", **num, conserveM=True, deltaMSingle=1, deltaJSingle=1)
    add("all momenta of the limits of j", **num, conserveM=True, deltaMSingle=-1, deltaJSingle=1)
    add("all momenta of the limits of l", **num, conserveM=True, deltaMSingle=-1, deltaJSingle=-1, deltaLSingle=1, species1="Rb", species2="Rb")
    add("momenta with an angle", **num, conserveM=True, sametrafo=True, zerotheta=False)
    add("momenta and reflection", **num, conserveM=True, deltaMSingle=1, refE=True)
    add("momenta and odd reflection", **num, conserveM=True, deltaMSingle=1, refO=True)
    add("momenta and both reflections", **num, conserveM=True, deltaMSingle=1, refE=True, refO=True)
    add("symmetries of the sector of the start state", **num, sametrafo=True, invE=True, invO=True, perE=True, perO=True)
    same = dict(num, n2=60, l2=0, j2=0.5, m2=0.5, species2=base["species1"])
    add("symmetries of the sector of two equal states", **same, sametrafo=True, invE=True, invO=True, perE=True, perO=True)
    add("permutation of two equal states", **same, sametrafo=True, perE=True, perO=True)
    add("all symmetries", **num, invE=True, invO=True, perE=True, perO=True, refE=True, refO=True)
    return S

def run(rep):
    K = keys_of_gui()
    for name, params in scenarios(K):
        ip, go, mod, exists = evaluate(params)
        out = ip.paths(go, limit=400)
        rep.count("calculations")
        want_blocks = blocks_of(params)
        for (st, r), ev, known in out:
            if st == "exc": rep.bad(f"raises:{name}", f"{name}: the calculation raises {r}"); continue
            got_blocks = []
            res = results(ev)
            for i, path, stored in res:
                H = set(); transparent(hashed(path), H)
                roots = set(); objs(stored, roots, H)
                T = state_of(ev, i, roots)
                systems = {k[0] for k in T}
                main = [o for o in roots if show(o.k[1]).endswith("SystemTwo")] or list(roots)
                if len(main) != 1: raise AnalysisError(f"{name}: the result comes from {len(main)} systems")
                main = main[0]
                of = lambda o: {k[1]: v for k, v in T.items() if k[0] == o}
                if params["button_id"] == 2:
                    rep.check(show(main.k[1]).endswith("SystemTwo"), f"kind:{name}", f"{name}: a pair is calculated", f"{name}: no pair is calculated but {show(main.k[1])}")
                    if not show(main.k[1]).endswith("SystemTwo"): continue
                    a = main.k[2][:2]
                    one = [(x, ([1, 2] if params["samebasis"] else [n + 1])) for n, x in enumerate(a)]
                    if params["samebasis"]:
                        rep.check(a[0] == a[1], f"same:{name}", f"{name}: both atoms have the same basis", f"{name}: the atoms have different bases")
                else:
                    one = [(main, {0: [1], 1: [2], 3: [1, 2]}[params["button_id"]])]
                # complex arithmetic only if a field has a y component
                real = all(params.get(m + f, 0) == 0 for m in ("min", "max") for f in ("Ey", "By"))
                for o in systems:
                    c = show(o.k[1])
                    rep.check(("pireal" in c) == real, f"arithmetic:{name}", f"{name}: {c}", f"{name}: {c} is used although the fields {'have no' if real else 'may have a'} y component")
                    m = [v for k, v in of(o).items() if k == "cache.setMethod"]
                    wm = "NUMEROV" if params["missingCalc"] else "WHITTAKER"
                    rep.check(bool(m) and show(m[0][0]).split(".")[-1] == wm, f"method:{name}", f"{name}: method {wm}", f"{name}: the method is {show(m[0][0]) if m else 'not set'}, requested is {wm}")
                for x, atoms in one:
                    rep.count("systems")
                    sp = params["species" + str(atoms[0])]
                    compare(rep, name, f"atom {'/'.join(map(str, atoms))}", of(x), expected_one(params, atoms, sp))
                    rep.check(x.k[2][0] == sp, f"species:{name}", f"{name}: species", f"{name}: atom {atoms[0]} is calculated with species {show(x.k[2][0])[:80]}, not {show(sp)}")
                if params["button_id"] == 2:
                    rep.count("systems")
                    t = of(main)
                    b = {k: v for k, v in t.items() if k.startswith("setConserved")}
                    got_blocks.append((stem_step(res, i), norm_block(b)))
                    want = {"setOrder": (strip(params["exponent"]),)}
                    d = params["deltaEPair"]
                    e = t.pop("restrictEnergy", None)
                    rest = {k: v for k, v in t.items() if k not in b}
                    compare(rep, name, "pair", rest, want)
                    rep.count("settings")
                    if num(d) and d < 0:
                        rep.check(e is None, "pair energy", f"{name}: pair energy not restricted", f"{name}: the pair energy is restricted although it should not be")
                    elif e is None:
                        rep.bad("pair energy", f"{name}: the pair energy is not restricted")
                    else:
                        for v, op in zip(e, ("-", "+")):
                            x = v
                            while isinstance(x, Sym) and x.k[0] in ("int", "float") and len(x.k) == 2: x = x.k[1]
                            bad = None
                            if not (isinstance(x, Sym) and x.k[0] == "bin" and x.k[1] in (op, {"-": "Sub", "+": "Add"}[op]) and strip(x.k[3]) == strip(d)):
                                bad = f"the {'lower' if op == '-' else 'upper'} limit of the pair energy is {show(x)[-80:]}"
                            else:
                                y = x.k[2]
                                while isinstance(y, Sym) and (y.k[0] in ("int", "float") and len(y.k) == 2 or y.k[0] in ("min", "max") and isinstance(y.k[1], tuple) and len(y.k[1]) == 2):
                                    y = y.k[1] if not isinstance(y.k[1], tuple) else y.k[1][1]
                                if not (isinstance(y, Sym) and y.k[0] == "bin" and y.k[1] in ("+", "Add")): bad = "the pair energy is not a sum"
                                else:
                                    parts = [y.k[2], y.k[3]]
                                    sts = [[params["species1"] if params["samebasis"] else params[f"species{k}"]] + state(params, k)[1:] for k in (1, 2)]
                                    errs = [[pairpart(p, None, s) for s in sts] for p in parts]
                                    if not (not errs[0][0] and not errs[1][1] or not errs[0][1] and not errs[1][0]): bad = next(z for r_ in errs for z in r_ if z)
                            rep.check(bad is None, "pair energy", f"{name}: limit of the pair energy", f"{name}: {bad}")
            if params["button_id"] == 2:
                # every step of every block
                steps = {}
                for s, b in got_blocks: steps.setdefault(repr(b), []).append(s)
                w = sorted(repr(norm_block(b)) for b in want_blocks)
                rep.count("blocks", len(w))
                rep.check(sorted(steps) == w, f"blocks:{name}", f"{name}: {len(w)} blocks",
                          f"{name}: the blocks calculated are {'; '.join(sorted(steps))[:300]}, requested are {'; '.join(w)[:300]}")
                n = {len(v) for v in steps.values()}
                rep.check(len(n) == 1, f"steps:{name}", f"{name}: every block has the same steps", f"{name}: blocks have {sorted(n)} results")
    rep.rules.append("equality of the settings of every system with what the settings of the window mean")

def stem_step(res, i): return next(k for k, x in enumerate(res) if x[0] == i)
def norm_block(b):
    out = []
    for k, v in sorted(b.items()):
        if isinstance(v, tuple) and v[:1] == ("seq",): v = v[1:]
        elif isinstance(v, str): pass
        else:
            v = v[0]
            if k.startswith("setConservedParity"): v = show(v).split(".")[-1]
            else:
                v = strip(v)
                v = v[1:] if isinstance(v, tuple) and v[:1] == ("seq",) else (v,)
        out.append((k, v))
    return tuple(out)
def compare(rep, name, what, got, want):
    got = {k: tuple(strip(x) for x in v) for k, v in got.items() if k not in IGNORED and not k.startswith(("cache.", "setMinimalNorm"))}
    got = {k: tuple(bool(x) if k.startswith("enable") and isinstance(x, int) else x for x in v) for k, v in got.items()}
    if got.get("enableDiamagnetism") is None and want.get("enableDiamagnetism") == (False,): got["enableDiamagnetism"] = (False,)
    for k in sorted(set(got) | set(want)):
        rep.count("settings")
        g, w = got.get(k), want.get(k)
        rep.check(g == w, f"{k}", f"{name}: {what}: {k}",
                  f"{name}: {what}: {k}{'(' + ', '.join(show(x)[:100] for x in g) + ')' if g else ' is not called'}, " + (f"the settings of the window mean ({', '.join(show(x)[:100] for x in w)})" if w else "the settings of the window do not ask for it"))
