"""The Python backend is evaluated abstractly from the parameters of the window to the files it writes, with all numbers
symbolic and the physics library opaque: for each button, every option on and off, every restriction given or not, two
steps of the swept field or distance. At each point where a result is written, the value that is hashed into the file
name is compared with everything the result was made from: the constructor arguments and the last value of every
setting of the systems the stored energies come from, and the stored values themselves. Each must be a hashed value, a
constant or a function of such, and the fields of each atom and the distance must be the requested ones of the step. Across all evaluated calculations, equal hashed values under equal conditions must come
with equal settings; a later step must have the same name, settings and stored values when the earlier one was found in
a file instead of calculated, and the file that is announced must be the file that was written or, when everything
exists already, the same file without calculating."""
from core import *
from facts import *
import pyfacts as P
from pyfacts import Sym, SStr, show, PyExc
import ast
FLOORS = {"calculations": 25, "results written": 40, "settings traced": 800, "results after an existing one": 30, "requested values": 200}

def keys_of_gui():
    p = P.ROOT + "/pairinteraction_gui/app.py"
    out = {}
    for n in ast.walk(ast.parse(open(p).read())):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id.startswith("keys_for_cprogram"):
            try: out[n.targets[0].id.split("_")[-1]] = ast.literal_eval(n.value)
            except ValueError: raise AnalysisError("keys of the calculation are not a literal list")
    if set(out) != {"field1", "field2", "potential", "field12"}: raise AnalysisError(f"keys of the calculations: {sorted(out)}")
    return out

FLAGS = {"samebasis": False, "diamagnetism": False, "missingCalc": True, "missingWhittaker": False, "conserveM": False,
         "sametrafo": False, "steps": 2, "exponent": 3, **{m + f: 0 for m in ("min", "max") for f in ("Ey", "By", "Ez", "Bx")},
         **{s + e: False for s in ("inv", "per", "ref") for e in "EO"}}

def scenarios(K):
    S = []
    def add(b, name, **kw):
        d = {k: FLAGS.get(k, Sym("in", k)) for k in K[["field1", "field2", "potential", "field12"][b]]}
        d.update(button_id=b, NUM_PROCESSES=1, pathCache=Sym("in", "cache"), pathConf=Sym("in", "conf"))
        if b == 2: d.update(zerotheta=True, **{f"delta{q}Pair": -1 for q in "NLJM"})
        if b == 3: d["samebasis"] = True
        d.update(kw)
        S.append((f"{['field map 1', 'field map 2', 'potential', 'field maps'][b]}, {name}", d))
    for b in (0, 1, 2, 3):
        add(b, "default")
        if b == 1: continue
        add(b, "diamagnetism", diamagnetism=True)
        add(b, "other method", missingCalc=False)
        add(b, "complex", minEy=Sym("in", "minEy"), maxEy=Sym("in", "maxEy"))
        if b == 3: continue
        for q in "NLJME": add(b, f"no limit of {q}", **{f"delta{q}Single": -1})
        add(b, "only limit of N", **{f"delta{q}Single": -1 for q in "LJME"})
        add(b, "only limits of N, L", **{f"delta{q}Single": -1 for q in "JME"})
    for b in (0, 2):
        for swept in ("Ex", "Ey", "Ez", "Bx", "By", "Bz"):
            z = {m + f: 0 for m in ("min", "max") for f in ("Ex", "Ey", "Ez", "Bx", "By", "Bz") if f != swept}
            add(b, f"only {swept} swept", **z, **{m + swept: Sym("in", m + swept) for m in ("min", "max")})
        l0 = {"l1": 0, "l2": 0} if b == 2 else {"l1": 0}
        add(b, "s states without limit", **l0, **{f"delta{q}Single": -1 for q in "NLJME"})
        add(b, "s states, only l = 0", **l0, **{f"delta{q}Single": -1 for q in "NJME"}, deltaLSingle=0)
    add(2, "only the distance swept", **{m + f: 0 for m in ("min", "max") for f in ("Ex", "Ey", "Ez", "Bx", "By", "Bz")})
    add(2, "same basis", samebasis=True)
    add(2, "no limit of the pair energy", deltaEPair=-1)
    add(2, "higher order", exponent=Sym("in", "exponent"))
    for s in ("inv", "per", "ref"):
        for e in "EO": add(2, s + e, **{s + e: True})
    add(2, "conserved momentum", conserveM=True, sametrafo=True)
    add(2, "inversion and reflection", invE=True, refO=True)
    return S

def contains(t, pred):
    if pred(t): return True
    if isinstance(t, Sym): return any(contains(x, pred) for x in t.k)
    if isinstance(t, (tuple, list)): return any(contains(x, pred) for x in t)
    if isinstance(t, SStr): return any(contains(c[1], pred) for c in t.c if not isinstance(c, str))
    return False

def objs(t, acc, H=frozenset()):
    """the systems t is made from, except through values that are hashed themselves"""
    if isinstance(t, (Sym, tuple)) and t in H: return
    if isinstance(t, Sym):
        if t.k[0] == "new": acc.add(t)
        for x in t.k: objs(x, acc, H)
    elif isinstance(t, (tuple, list)):
        for x in t: objs(x, acc, H)
    elif isinstance(t, SStr):
        for c in t.c:
            if not isinstance(c, str): objs(c[1], acc, H)

DIGEST, CONTENT, HASHES = {}, [], []
def digest(content):
    """equal digests for equal hashed values"""
    k = norm(content, {})
    if k not in DIGEST:
        DIGEST[k] = len(CONTENT); CONTENT.append(content)
    return Sym("digest", DIGEST[k])
def hashed(path):
    """the values fed to the hash whose digest is part of the file name"""
    d = set()
    def find(t):
        if isinstance(t, Sym):
            if t.k[0] == "digest": d.add(t.k[1])
            for x in t.k: find(x)
        elif isinstance(t, (tuple, list)):
            for x in t: find(x)
        elif isinstance(t, SStr):
            for c in t.c:
                if not isinstance(c, str): find(c[1])
    find(path)
    if len(d) != 1: raise AnalysisError(f"a result is written to {path!r}, which has no single hash in its name")
    return CONTENT[d.pop()]

def transparent(t, acc):
    """values recoverable from the hashed text"""
    if isinstance(t, Sym):
        if t.k[0] in ("str", "repr", "sorted"):
            for x in t.k[1:]: transparent(x, acc)
            return
        if t.k[0] == "call" and isinstance(t.k[1], Sym) and t.k[1].k[0] == "attr" and t.k[1].k[2] in ("encode",):
            transparent(t.k[1].k[1], acc); return
        if t.k[0] == "call" and show(t.k[1]) in ("json.dumps", "pickle.dumps", "repr", "tuple", "list"):
            for x in t.k[2]: transparent(x, acc)
            return
        acc.add(t); return
    if isinstance(t, tuple) and t[:1] and t[0] in ("list", "tuple", "dict", "set", "arr"):
        acc.add(t)
        for x in t[1:]: transparent(x, acc)
        return
    if isinstance(t, tuple):
        for x in t: transparent(x, acc)
        return
    if isinstance(t, SStr):
        for c in t.c:
            if not isinstance(c, str): transparent(c[1], acc)
        return
    acc.add(t)

def det(t, H, systems):
    if not isinstance(t, (Sym, tuple, list, SStr)): return True
    if isinstance(t, (Sym, tuple)) and t in H: return True
    if isinstance(t, Sym):
        k = t.k
        if k[0] in ("mod", "name"): return True
        if k[0] == "in": return False
        if k[0] == "new":
            return True                       # examined with its own arguments
        return all(det(x, H, systems) for x in k[1:])
    if isinstance(t, SStr): return all(isinstance(c, str) or det(c[1], H, systems) for c in t.c)
    return all(det(x, H, systems) for x in t)

def culprit(t, H, out):
    if not isinstance(t, (Sym, tuple, list, SStr)): return
    if isinstance(t, (Sym, tuple)) and t in H: return
    if isinstance(t, Sym):
        if t.k[0] == "in": out.add(t.k[1]); return
        if t.k[0] in ("mod", "name", "new"): return
        for x in t.k[1:]: culprit(x, H, out)
    elif isinstance(t, SStr):
        for c in t.c:
            if not isinstance(c, str): culprit(c[1], H, out)
    else:
        for x in t: culprit(x, H, out)

def norm(t, names):
    """system objects by order of first appearance instead of identity"""
    if isinstance(t, Sym):
        if t.k[0] == "new":
            return ("new", show(t.k[1]), norm(t.k[2], names))
        return Sym(*[norm(x, names) for x in t.k])
    if isinstance(t, SStr): return t
    if isinstance(t, tuple): return tuple(norm(x, names) for x in t)
    return t

def numeric(t):
    """a generic number: an input or the result of a calculation with inputs"""
    k = t.k[0]
    if k in ("in", "lin"): return True
    if k in ("bin", "un", "abs", "int", "float", "max", "min", "round", "sub"): return True
    if k == "call": return show(t.k[1]).split(".")[-1] in ("getEnergy", "int", "float", "max", "min", "abs")
    return False

def evaluate(params):
    ip = P.Interp()
    n = [0]
    base_external = ip.external
    def external(f, args, kw, e, mod):
        nm = show(f)
        if nm.startswith("pairinteraction.") and nm.split(".")[-1][:1].isupper() and nm.split(".")[-1].startswith("System"):
            n[0] += 1
            r = Sym("new", f, tuple(P.freeze(a) for a in args), n[0])
            ip.events.append(("new", r))
            return r
        if isinstance(f, Sym) and f.k[0] in ("attr", "mod") and nm.startswith("hashlib."):
            HASHES.append(list(args))
            return Sym("hash", len(HASHES) - 1)
        if isinstance(f, Sym) and f.k[0] == "attr" and isinstance(f.k[1], Sym) and f.k[1].k[0] == "hash":
            c = HASHES[f.k[1].k[1]]
            if f.k[2] == "update": c.extend(args); return None
            if f.k[2] in ("hexdigest", "digest"): return digest(P.freeze(tuple(c)))
            raise AnalysisError(f"{mod.path}:{e.lineno}: {f.k[2]} of a hash")
        if nm in ("pairinteraction.picomplex.StateOne", "pairinteraction.picomplex.StateTwo"):
            # one class of the library under two names
            return base_external(Sym("attr", Sym("mod", "pairinteraction.pireal"), nm.split(".")[-1]), args, kw, e, mod)
        return base_external(f, args, kw, e, mod)
    ip.external = external
    mod = ip.module("pairinteraction_gui.pipy_thread")
    base = P.Interp.decide
    def decide(key):
        if key not in ip.known:
            if isexists(key): ip.known[key] = exists[0](key[1]) if callable(exists[0]) else exists[0]
            elif isinstance(key, Sym) and key.k[0] == "cmp":
                if key.k[1] == "Lt": ip.known[key] = False                 # given restrictions are not negative
                elif key.k[1] == "Eq":
                    a, b = key.k[2], key.k[3]
                    # generic values: different inputs differ, distances are finite
                    ip.known[key] = False
            elif isinstance(key, tuple) and key[0] == "isinstance": ip.known[key] = key[2] in ("int", "float")
            elif isinstance(key, Sym) and key.k[0] == "call" and show(key.k[1]) in ("numpy.isinf", "math.isinf"): ip.known[key] = False
            elif isinstance(key, tuple) and key[0] == "in": ip.known[key] = False
            elif isinstance(key, Sym) and numeric(key): ip.known[key] = True      # given numbers are not zero
        return base(ip, key)
    ip.decide = decide
    exists = [False]
    def run(ip):
        n[0] = 0
        th = ip.call(mod.d["PipyThread"], [Sym("obj", "queues")], {}, None, mod)
        th.a["num_pr"] = 1
        ip.call(ip.attr(th, "start_pipy"), [{"pool": "SEQUENTIAL", "params": dict(params), "printFunction": lambda ip, a, kw: ip.events.append(("line", a[0]))}], {}, None, mod)
        return None
    return ip, run, mod, exists

def results(ev):
    """(position, file, stored value) of every result written"""
    out = []
    for i, e in enumerate(ev):
        if e[0] == "call" and show(e[1]) == "pickle.dump" and len(e[2]) >= 2:
            f = e[2][1]
            if isinstance(f, Sym) and f.k[0] == "file": out.append((i, f.k[1], e[2][0]))
    return out

READS = re.compile(r"^(get|diagonal|build|diagonalize|copy|__)")
def state_of(ev, upto, roots):
    """last value of every setting of the systems the stored values come from"""
    todo, seen = set(roots), set()
    out, limit = {}, {}
    while todo:
        o = todo.pop()
        if o in seen: continue
        seen.add(o)
        # a system copies the systems it is made from
        made = next((i for i, e in enumerate(ev) if e[0] == "new" and e[1] == o), 0)
        a = set(); objs(o.k[2], a)
        until = min(upto, limit.get(o, upto))
        for x in a - seen:
            todo.add(x); limit[x] = min(made, limit.get(x, made))
        out[(o, "constructor", 0)] = o.k[2]
        for e in ev[:until]:
            if e[0] == "call" and isinstance(e[1], Sym) and e[1].k[0] == "attr" and e[1].k[1] == o:
                m = e[1].k[2]
                if READS.match(m) and not e[2]: continue
                if m.startswith("get"): continue
                out[(o, m)] = e[2]
        # matrix element cache and its settings
        for c in caches(o.k[2]):
            for e in ev[:until]:
                if e[0] == "call" and isinstance(e[1], Sym) and e[1].k[0] == "attr" and e[1].k[1] == c:
                    out[(o, "cache." + e[1].k[2])] = e[2]
    return out
def caches(args):
    return [a for a in args if isinstance(a, Sym) and a.k[0] == "call" and "MatrixElementCache" in show(a.k[1])]

def run(rep):
    K = keys_of_gui()
    table = {}
    for name, params in scenarios(K):
        ip, go, mod, exists = evaluate(params)
        try: out = ip.paths(go, limit=400)
        except PyExc as e: raise AnalysisError(str(e))
        rep.count("calculations")
        for (st, r), ev, known in out:
            if st == "exc":
                rep.bad(f"raises:{name}", f"{name}: the calculation raises {r}")
                continue
            res = results(ev)
            rep.check(bool(res), "written:" + name, f"{name}: {len(res)} results written", f"{name}: no result is written")
            for i, path, stored in res: requested(rep, name, params, ev, i, stored, path, (res.index((i, path, stored))) % 2)
            lines = [e[1] for e in ev if e[0] == "line" and isinstance(e[1], SStr) and "".join(c for c in e[1].c[:5] if isinstance(c, str)) == ">>OUT"]
            announced = [P.mkstr(x.c) for x in lines]
            for i, path, stored in res:
                rep.count("results written")
                h = hashed(path)
                H = set(); transparent(h, H)
                roots = set(); objs(stored, roots, H)
                if not roots: raise AnalysisError(f"{name}: the stored value comes from no system")
                T = state_of(ev, i, roots)
                for k, v in sorted(T.items(), key=repr):
                    what = f"{show(k[0].k[1]).split('.')[-1]}.{k[1]}"
                    rep.count("settings traced")
                    bad = [a for a in v if not det(a, H, roots)]
                    c = set()
                    for a in bad: culprit(a, H, c)
                    rep.check(not bad, f"name:{what}", f"{name}: {what} is determined by the name of the file",
                              f"{name}: the result depends on {what}({', '.join(show(a)[:80] for a in v)}), which the name of the file does not determine (input {', '.join(sorted(c))})")
                c = set()
                if not det(stored, H, roots): culprit(stored, H, c)
                rep.check(det(stored, H, roots), "name:stored", f"{name}: stored values determined by the name of the file",
                          f"{name}: the values stored in the file depend on input {', '.join(sorted(c))}, which the name of the file does not determine")
                hn = norm(h, {})
                tn = tuple(sorted(((show(k[0].k[1]).split(".")[-1], k[1], norm(v, {})) for k, v in T.items() if not (k[1].startswith("set") and k[1].endswith("field") and zero(v))), key=repr))
                cn = frozenset((repr(norm(k, {})), v) for k, v in known.items() if "exists" not in repr(k)[:12])
                old = table.get((hn, cn))
                if old is None: table[(hn, cn)] = (tn, name)
                elif old[0] != tn:
                    d = [x for x in tn if x not in old[0]] + [x for x in old[0] if x not in tn]
                    rep.bad("collision", f"'{name}' and '{old[1]}' write the same file although they differ in {show(d[0])[:200]}")
                # announced under the name it was written
                fc = P.cells(path)
                rep.check(any(tuple_in(fc, a.c) for a in announced), "announced", f"{name}: the written file is announced", f"{name}: the result is written to {path!r} but not announced under that name")
        # everything exists already: the same files are announced
        exists[0] = True
        out2 = ip.paths(go, limit=400)
        f = lambda o: [sorted({repr(e[1]) for e in ev if e[0] == "line" and isinstance(e[1], SStr) and repr(e[1]).startswith("s'>>OUT")}) for (st, r), ev, known in o if st == "ok"]
        a, b = f(out), f(out2)
        rep.check(bool(a) and sorted(map(repr, a)) == sorted(map(repr, b)), "reuse", f"{name}: the same files are announced when they exist already",
                  f"{name}: existing results are announced as other files than new ones")
        # the first step exists already: the later one is the same
        for (st, r), ev, known in out:
            if st != "ok": continue
            res = results(ev)
            if len(res) < 2: continue
            first = stem(res[0][1])
            exists[0] = lambda path: stem(path) == first
            for (st3, r3), ev3, known3 in ip.paths(go, limit=400):
                if st3 != "ok": rep.bad(f"raises:{name}", f"{name}: with existing results the calculation raises {r3}"); continue
                # only the same case of the same calculation
                if any(known.get(k, v) != v for k, v in known3.items() if not isexists(k)): continue
                for i, path, stored in results(ev3):
                    rep.count("results after an existing one")
                    if stem(path) == first: rep.bad("again", f"{name}: an existing result is calculated again")
                    o = [(j, p, s) for j, p, s in res if p == path]
                    if not o: rep.bad("history", f"{name}: after an existing step a later step has another name"); continue
                    rep.check(what_is(ev3, i, path, stored) == what_is(ev, *o[0]), "history", f"{name}: step the same after an existing one",
                              f"{name}: the result written as {path!r} depends on whether an earlier step was calculated or existed already")
    rep.ok("comparison of all calculations with equal names")
    rep.rules.append("determinacy: settings and stored values are functions of the hashed values")

def requested(rep, name, params, ev, i, stored, path, step):
    """the fields and the distance of the systems are the requested ones of this step"""
    H = set(); transparent(hashed(path), H)
    roots = set(); objs(stored, roots, H)
    T = state_of(ev, i, roots)
    at = lambda c: P._linspace(None, [params.get("min" + c, 0), params.get("max" + c, 0), 2], {})[step]
    want = {"Efield": [at("E" + x) for x in "xyz"], "Bfield": [at("B" + x) for x in "xyz"], "distance": at("R") if "minR" in params else None}
    for o in {k[0] for k in T}:
        one = show(o.k[1]).endswith("SystemOne")
        for q, default in (("Efield", [0, 0, 0]), ("Bfield", [0, 0, 0])) if one else (("distance", None),):
            if want[q] is None: continue
            rep.count("requested values")
            got = T.get((o, "set" + q[0].upper() + q[1:]))
            got = got[0] if got else P.freeze(default)
            w = P.freeze(want[q])
            rep.check(same_value(got, w), f"requested:{q}", f"{name}: step {step}: {q} as requested", f"{name}: step {step} is calculated with {q} {show(got)[:120]}, requested is {show(w)[:120]}")
def same_value(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        # containers of numbers: list, tuple or array
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a[1:], b[1:]))
    if isinstance(a, Sym) and a.k[0] == "float": a = a.k[1]
    if isinstance(b, Sym) and b.k[0] == "float": b = b.k[1]
    return a == b

def stem(path):
    c = list(P.cells(path))
    while c and c[-1] != ".": c.pop()
    return tuple(c)
def isexists(k): return isinstance(k, tuple) and k[:1] == ("exists",)
def what_is(ev, i, path, stored):
    """the stored value and the settings of the systems it comes from, without the identity of systems"""
    h = hashed(path); H = set(); transparent(h, H)
    roots = set(); objs(stored, roots, H)
    T = state_of(ev, i, roots)
    return (norm(stored, {}), norm(h, {}), tuple(sorted(((show(k[0].k[1]).split(".")[-1], k[1], norm(v, {})) for k, v in T.items()), key=repr)))
def zero(v):
    return all(x in (0, 0.0, ("list", 0, 0, 0)) for x in v if not isinstance(x, Sym))  and not any(isinstance(x, Sym) for x in v)
def tuple_in(a, b):
    return any(b[i:i + len(a)] == a for i in range(len(b) - len(a) + 1))
