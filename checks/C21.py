"""States are values. Every comparison operator of the four state classes is evaluated on an abstract pair of
states in which each member of one is related to the same member of the other as smaller, equal or
greater; the tree of outcomes is then compared with the specification (equality: all members equal;
order: lexicographic over species where the class keeps it apart, n, l, j, m, and for pairs the first
atom before the second; subset: every number of the right-hand side is the wildcard or equal), for
all relations at once. Hashes may depend only on members equality compares, and where the hash is
stored it must be the same function of the members in every constructor. Constructors, accessors,
exchange, ordering and reflection are evaluated with symbolic members: what they return has to be
exactly the member, of the atom, that their name says."""
from core import *
from facts import *
from smallmat import *
import keys

FLOORS = {"operators": 14, "comparison outcomes": 60, "hash functions": 4, "accessors": 40, "constructors": 9, "species parsed": 12}
QN = ("n", "l", "j", "m")
CLASSES = {
    "StateOneOld": [("StateOneOld::" + q,) for q in QN],
    "StateTwoOld": [("StateTwoOld::" + q, ("idx", i)) for i in (0, 1) for q in QN],
    "StateOne": [("StateOne::species",)] + [("StateOne::" + q,) for q in QN],
    "StateTwo": [("StateTwo::state_array", ("idx", i), "StateOne::" + q) for i in (0, 1) for q in ("species",) + QN],
}

class Cmp(keys.CmpEval):
    """also: comparison of one side with the wildcard"""
    arb = None
    def decide(self, op, a, b, st):
        for u, v in ((a, b), (b, a)):
            s = self.side(u)
            if s is not None and (type(v) in (int, float) and v == self.arb or type(v) is tuple and v[:1] == ("sym",) and v[1] == ("G", "ARB")) and op in ("==", "!="):
                k = ("W", s)
                out = []
                for w in ([st[k]] if k in st else [True, False]):
                    s2 = dict(st); s2[k] = w
                    out.append((w == (op == "=="), s2))
                return out
        return super().decide(op, a, b, st)

def outcomes(prog, f, arb, ev=None, this=("A",)):
    ev = ev or Cmp(prog)
    ev.arb = arb
    two = len(f["p"]) == 2
    res = []
    for o in ev.run(f, {}, None if two else this, [("l", ("A",)), ("l", ("B",))] if two else [("l", ("B",))]):
        if o[0] != "ret": continue
        t = ev.asbool(o[1])
        v = o[1]
        alts = [(t, o[2])]
        if t is None and type(v) is tuple and v[:1] == ("app",) and len(v) == 4:
            alts = ev.decide(v[1], v[2], v[3], o[2]) or alts
        for t, s in alts:
            res.append((t, {k[1]: x for k, x in s.items() if type(k) is tuple and k[0] == "R"}, {k[1]: x for k, x in s.items() if type(k) is tuple and k[0] == "W"}))
    return res, ev

def name(p): return ".".join(short(x) if type(x) is str else f"[{x[1]}]" for x in p)

def operators(rep, prog, arb):
    for c, flds in CLASSES.items():
        for op in ("==", "!=", "<", "<=", "^"):
            fs = [f for f in prog.fns.values() if f.get("body") and short(f["fn"]) == "operator" + op and (f.get("cls") == c or len(f["p"]) == 2 and all(c == p["t"].replace("const ", "").strip("& ") for p in f["p"]))]
            if not fs:
                if op in ("==", "<"): raise AnalysisError(f"anchor vanished: {c}::operator{op}")
                continue
            for f in fs:
                outs, ev = outcomes(prog, f, arb)
                rep.count("operators")
                if not outs: raise AnalysisError(f"{c}::operator{op}: no outcome")
                at = loc(f)
                for l, r in getattr(ev, "crossed", set()):
                    rep.bad(f"crossed:{c}:{op}", f"{at}: {c}::operator{op} compares {name(l)} of one state with {name(r)} of the other")
                for t, rel, wild in outs:
                    rep.count("comparison outcomes")
                    if t not in (True, False):
                        rep.bad(f"opaque:{c}:{op}", f"{at}: the answer of {c}::operator{op} does not follow from comparing members (depends on {show(t) if t else 'something else'})"[:300]); continue
                    extra = [p for p in rel if p not in flds]
                    rep.check(not extra, f"foreign:{c}:{op}", "only the documented members are compared", f"{at}: {c}::operator{op} also looks at {', '.join(map(name, extra))}")
                    ww = [p for p in wild if p[0] not in ("B", ("B",))]
                    if ww: rep.bad(f"wild:{c}:{op}", f"{at}: {c}::operator{op} looks for the wildcard in the left-hand state")
                    if op in ("==", "!="):
                        eq = t == (op == "==")
                        diff = [p for p in flds if rel.get(p, "=") != "="]
                        free = [p for p in flds if p not in rel]
                        if eq: rep.check(not diff and not free, f"eq:{c}:{op}", f"{at}: equal when all {len(flds)} members are", f"{at}: {c}::operator{op} takes two states for equal that differ in {', '.join(map(name, diff or free))}")
                        else: rep.check(bool(diff), f"ne:{c}:{op}", f"{at}: different when {name(diff[0]) if diff else ''} differs", f"{at}: {c}::operator{op} takes states for different although all members compared are equal")
                    elif op in ("<", "<="):
                        want = None; why = None
                        for p in flds:
                            r = rel.get(p)
                            if r == "=": continue
                            why = p
                            want = None if r is None else (r == "<")
                            break
                        else:
                            want = op == "<="; why = None
                        rep.check(want is not None and t == want, f"order:{c}:{op}", f"{at}: decided by {name(why) if why else 'all being equal'}",
                                  f"{at}: {c}::operator{op} answers {str(t).lower()}" + (f" without looking at {name(why)}" if want is None else f" although {name(why)} is {'smaller' if rel[why] == '<' else 'greater'} and decides" if why else " for equal states"))
                    else:
                        W = {p[1:] if p[0] in ("B", ("B",)) else p: v for p, v in wild.items()}
                        W = {k[0] if len(k) == 1 and type(k[0]) is tuple else k: v for k, v in W.items()}
                        if t:
                            bad = [p for p in flds if rel.get(p) != "=" and not (W.get(p) is True and not short(str(p[-1])).startswith("species"))]
                            rep.check(not bad, f"subset:{c}", f"{at}: every number is equal or the wildcard", f"{at}: {c}::operator^ accepts a state although {', '.join(map(name, bad))} need not match")
                        else:
                            ok = any(rel.get(p, "=") != "=" and (W.get(p) is False or "species" in str(p[-1])) for p in flds)
                            rep.check(ok, f"subset-no:{c}", f"{at}: refused because one number differs", f"{at}: {c}::operator^ refuses a state that matches")

# --------------------------------------------------------------------------------------------
class StEval(SmallMat):
    opq = ("energy_level", "nstar", "MatrixElementCache::getDefectDB", "MatrixElementCache::getRadial")
    def inline(self, f, n):
        return f["fn"] not in self.opq and super().inline(f, n)
    def prim(self, n, name, ol, args, st, fr):
        if name in self.opq:
            vs = [self.val(a, st) if a[0] == "v" else ("at", a[1]) if a[1] and a[1][0] == "cache" else self.val(a, st) for a in args]
            return [(("app", name) + tuple(hashable(v) for v in vs), st)]
        if name == "utils::hash_combine" and len(args) == 2 and args[0][0] == "l":
            a, b = self.val(args[0], st), self.val(args[1], st)
            return [(None, self.put(st, args[0][1], ("app", "hash_combine", hashable(a), hashable(b))))]
        if short(name) == "operator()" and "hash" in name and len(args) == 1 or name.startswith("utils::hash_range"):
            return [(("app", "hash") + tuple(hashable(self.val(a, st)) for a in args), st)]
        if n["k"] == "Ctor" and "basic_string" in n.get("t", "") and len(args) == 1:
            v = self.val(args[0], st)
            if v != UNK: return [(v, st)]
        if ol is not None and short(name) == "back" and "basic_string" in name and type(self.value_of(st, ol)) is tuple and self.value_of(st, ol)[:1] != ("str",):
            return [(("app", "back", hashable(self.value_of(st, ol))), st)]
        if ol is not None and short(name) == "substr" and "basic_string" in name:
            v = self.value_of(st, ol); a = [self.val(x, st) for x in args]
            if type(v) is tuple and v[:1] == ("str",) and all(type(x) is int for x in a):
                return [(("str", v[1][a[0]:a[0] + a[1]] if len(a) > 1 else v[1][a[0]:]), st)]
        return super().prim(n, name, ol, args, st, fr)
    def load_default(self, l, st, n):
        if l and type(l[-1]) is tuple and l[-1][:1] == ("idx",):
            b = l[:-1]
            e = st.get(b + ("std::array::_M_elems",), st.get(b))
            if type(e) is tuple and e and e[0] == "tuple" and type(l[-1][1]) is int and l[-1][1] < len(e) - 1:
                return e[1 + l[-1][1]]
            if type(e) is tuple and e and e[0] in ("sym", "copyof"): return ("sym", e[1] + (l[-1],))
        for k in range(len(l) - 1, 0, -1):
            e = st.get(l[:k])
            if e is None and k > 1 and type(l[k - 1]) is tuple and l[k - 1][:1] == ("idx",): e = self.load_default(l[:k], st, n)
            if type(e) is tuple and e and e[0] in ("obj",):
                return self.value_of(st, e[1] + l[k:], n)
            if type(e) is tuple and e and e[0] in ("sym", "copyof") and e[1] != l[:k]:
                return ("sym", e[1] + l[k:])
        return super().load_default(l, st, n)
    def nofork(self): pass

def member(ev, st, v, path=()):
    """value of a member (path) of the value v in the store"""
    for _ in range(20):
        if type(v) is tuple and v and v[0] == "ref":
            l = v[1]
            v = ev.value_of(st, l)
            if v == ("sym", l) or type(v) is tuple and v[:1] in (("obj",), ("copyof",)) or not path:
                if not path and type(v) is tuple and v[:1] in (("obj",), ("copyof",)) and v[1] != l: continue
                if path: return member(ev, st, ev.value_of(st, l + path[:1]), path[1:])
                return v
            continue
        if not path: return v
        if type(v) is tuple and v and v[0] in ("obj", "copyof", "sym"):
            return member(ev, st, ev.value_of(st, v[1] + path[:1]) if v[0] != "sym" or any(type(k) is tuple and k[:len(v[1])] == v[1] for k in st) else ("sym", v[1] + path[:1]), path[1:])
        if type(v) is tuple and v and v[0] == "tuple" and path[0][0] == "idx":
            return member(ev, st, v[1 + path[0][1]], path[1:])
        return UNK
    return UNK

def norm(v):
    return ("sym",) + tuple(v[1:]) if type(v) is tuple and v[:1] == ("copyof",) else v

def returns(prog, f, this, args, st=None):
    ev = StEval(prog)
    outs = [o for o in ev.run(f, dict(st or {}), this, args)]
    return ev, [o for o in outs if o[0] == "ret"]

def expect(rep, prog, f, args, spec, what, this=("A",), key=None, when=None, st=None):
    """spec: {path of the result: term}"""
    ev, outs = returns(prog, f, this, args, st)
    if not outs: raise AnalysisError(f"{loc(f)}: {f['fn']} was not understood (no way to return)")
    for o in outs:
        for path, want in spec.items():
            if path[:1] == ("#this",): got = member(ev, o[2], ("ref", this), path[1:])
            else: got = member(ev, o[2], o[1], path)
            want = want(o) if callable(want) else want
            ok = norm(got) == norm(want) or (type(want) is tuple and want[:1] == ("app",) and same_expr(got, want))
            rep.check(ok, key or f"returns:{f['fn']}", f"{loc(f)}: {f['fn']} {what}", f"{loc(f)}: {f['fn']} {what} is expected, but {name(path) or 'the result'} is {show(norm(got))[:120]}")

def one(prog, q, n=None, pred=None):
    fs = [f for f in prog.named(q) if f.get("body") and not f.get("dep") and (n is None or len(f["p"]) == n) and (pred is None or pred(f))]
    if len(fs) != 1: raise AnalysisError(f"anchor vanished: {q}({n})" if not fs else f"{q} has {len(fs)} definitions")
    return fs[0]

def accessors(rep, prog):
    S = lambda *p: ("sym", ("A",) + p)
    cache = [("l", ("cache",))]
    db = ("app", "MatrixElementCache::getDefectDB")
    # one atom
    for c in ("StateOneOld", "StateOne"):
        en = lambda fn, *x: ("app", fn, S(c + "::species"), S(c + "::n"), S(c + "::l"), S(c + "::j")) + x
        for g, q in (("getN", "n"), ("getL", "l"), ("getJ", "j"), ("getM", "m"), ("getS", "s"), ("getSpecies", "species"), ("getElement", "element"), ("getHash", "hashvalue"), ("getLabel", "species")):
            fs = [f for f in prog.named(f"{c}::{g}") if f.get("body")]
            for f in fs:
                expect(rep, prog, f, [], {(): S(f"{c}::{q}")}, f"returns the state's own {q}"); rep.count("accessors")
            if not fs and g in ("getN", "getL", "getJ", "getM", "getSpecies"): raise AnalysisError(f"anchor vanished: {c}::{g}")
        for g, fn in (("getEnergy", "energy_level"), ("getNStar", "nstar")):
            for f in prog.named(f"{c}::{g}"):
                if not f.get("body"): continue
                ev, outs = returns(prog, f, ("A",), cache[:len(f["p"])])
                rep.count("accessors")
                if not outs: raise AnalysisError(f"{loc(f)} was not understood")
                for o in outs:
                    v = o[1]
                    ok = type(v) is tuple and v[:2] == ("app", fn) and v[2:6] == en(fn)[2:6] and (not f["p"] or "getDefectDB" in str(v[6:]))
                    rep.check(ok, f"returns:{f['fn']}", f"{loc(f)}: the {fn} of this state's own numbers", f"{loc(f)}: {f['fn']} does not evaluate {fn} for this state's own species, n, l, j{' with the database of the cache' if f['p'] else ''}: {show(v)[:160]}")
    # pairs
    A2 = lambda q, i: S("StateTwoOld::" + q, ("idx", i))
    N2 = lambda q, i: S("StateTwo::state_array", ("idx", i), "StateOne::" + q)
    for g, i in (("first", 0), ("getFirstState", 0), ("second", 1), ("getSecondState", 1)):
        fs = [f for f in prog.named("StateTwoOld::" + g) if f.get("body")]
        for f in fs:
            expect(rep, prog, f, [], {("StateOneOld::" + q,): A2(q, i) for q in ("species",) + QN}, f"returns atom {i + 1} of the pair"); rep.count("accessors")
    for g, i in (("setFirstState", 0), ("setSecondState", 1)):
        for f in prog.named("StateTwoOld::" + g):
            if f.get("body"):
                spec = {("#this", "StateTwoOld::" + q, ("idx", i)): ("sym", ("arg", 0, "StateOneOld::" + q)) for q in ("species",) + QN}
                spec.update({("#this", "StateTwoOld::" + q, ("idx", 1 - i)): A2(q, 1 - i) for q in ("species",) + QN})
                expect(rep, prog, f, [("l", ("arg", 0))], spec, f"replaces atom {i + 1} and nothing else"); rep.count("accessors")
    for g, i in (("getFirstState", 0), ("getSecondState", 1)):
        f = one(prog, "StateTwo::" + g)
        ev, outs = returns(prog, f, ("A",), [])
        rep.count("accessors")
        for o in outs:
            rep.check(o[1] == ("ref", ("A", "StateTwo::state_array", ("idx", i))) or norm(member(ev, o[2], o[1], ("StateOne::m",))) == N2("m", i), f"returns:{f['fn']}", f"{loc(f)}: atom {i + 1}", f"{loc(f)}: {f['fn']} does not return atom {i + 1}")
    for c in ("StateTwoOld", "StateTwo"):
        src = A2 if c == "StateTwoOld" else N2
        for g, q in (("getN", "n"), ("getL", "l"), ("getJ", "j"), ("getM", "m"), ("getS", "s"), ("getSpecies", "species"), ("getElement", "element"), ("getLabel", "species")):
            fs = [f for f in prog.named(f"{c}::{g}") if f.get("body")]
            if not fs and g in ("getN", "getM"): raise AnalysisError(f"anchor vanished: {c}::{g}")
            for f in fs:
                rep.count("accessors")
                if not f["p"]:
                    expect(rep, prog, f, [], {(("idx", i),): src(q, i) for i in (0, 1)}, f"returns the {q} of both atoms in order")
                else:
                    for i in (0, 1): expect(rep, prog, f, [("v", i)], {(): src(q, i)}, f"returns the {q} of the atom asked for")
    # energies of a pair are sums over its atoms
    for c in ("StateTwoOld", "StateTwo"):
        src = A2 if c == "StateTwoOld" else N2
        for g, fn in (("getEnergy", "energy_level"), ("getNStar", "nstar")):
            for f in prog.named(f"{c}::{g}"):
                if not f.get("body"): continue
                rep.count("accessors")
                idx = [p for p in f["p"] if p["t"] == "int"]
                for i in ((0, 1) if idx else (None,)):
                    args = [("v", i) if p["t"] == "int" else ("l", ("cache",)) for p in f["p"]]
                    ev, outs = returns(prog, f, ("A",), args)
                    if not outs: raise AnalysisError(f"{loc(f)} was not understood")
                    for o in outs:
                        calls = lambda v: [] if type(v) is not tuple else [v] if v[:2] == ("app", fn) else [y for x in v[2:] for y in calls(x)] if v[:1] == ("app",) else []
                        want = lambda j: tuple(src(q, j) for q in ("species", "n", "l", "j"))
                        if idx: vals = [o[1]]; exp = [want(i)]; okop = True
                        elif g == "getEnergy": vals = calls(o[1]); exp = [want(0), want(1)]; okop = type(o[1]) is tuple and o[1][:2] == ("app", "+") and len(vals) == 2
                        else: vals = [member(ev, o[2], o[1], (("idx", j),)) for j in (0, 1)]; exp = [want(0), want(1)]; okop = True
                        dbok = all("getDefectDB" in str(v) for v in vals) if any("Cache" in p["t"] for p in f["p"]) else True
                        got = [tuple(norm(x) for x in v[2:6]) if type(v) is tuple and v[:2] == ("app", fn) else None for v in vals]
                        if g == "getEnergy" and not idx: got = sorted(got, key=str); exp = sorted(exp, key=str)
                        rep.check(okop and got == exp and dbok, f"returns:{f['fn']}", f"{loc(f)}: {g} of both atoms", f"{loc(f)}: {f['fn']} is not made of {fn} of the atoms' own numbers{' and the database of the cache' if not dbok else ''}: {show(o[1])[:160]}")
    # reflection
    for c in ("StateOne", "StateTwo"):
        f = one(prog, c + "::getReflected")
        rep.count("accessors")
        spec = {}
        for i in ((None,) if c == "StateOne" else (0, 1)):
            pre = () if i is None else ("StateTwo::state_array", ("idx", i))
            for q in ("species",) + QN:
                own = S(*pre, "StateOne::" + q)
                spec[pre + ("StateOne::" + q,)] = own if q != "m" else ("app", "neg", own)
        expect(rep, prog, f, [], spec, "is the same state with the magnetic quantum number reversed")

class OrdEval(Cmp):
    """relations between the two atoms of one pair"""
    def side(self, v):
        s = super().side(v)
        if s and s[0] in ("A", ("A",)) and len(s[1]) >= 2 and s[1][1] in (("idx", 0), ("idx", 1)):
            return ("A" if s[1][1] == ("idx", 0) else "B", s[1][:1] + s[1][2:])
        return s

def order(rep, prog):
    f = one(prog, "StateTwoOld::order", 0)
    class E(OrdEval, StEval):
        opq = StEval.opq
        join_above = 10**9
        load_default = StEval.load_default
        def __init__(self, prog): OrdEval.__init__(self, prog); self.iterations = []
        def inline(self, f, n): return StEval.inline(self, f, n)
    ev = E(prog); ev.arb = 10**9
    outs = [o for o in ev.run(f, {}, ("A",), []) if o[0] == "ret"]
    if not outs: raise AnalysisError("StateTwoOld::order was not understood")
    flds = [("StateTwoOld::" + q,) for q in QN]
    for o in outs:
        rep.count("comparison outcomes")
        rel = {k[1]: x for k, x in o[2].items() if type(k) is tuple and k[0] == "R"}
        want = "either"
        for p in flds:
            r = rel.get(p)
            if r == "=": continue
            want = {"<": 0, ">": 1, None: "undecided"}[r]; break
        got = []
        for i in (0, 1):
            vs = [norm(member(ev, o[2], o[1], ("StateTwoOld::" + q, ("idx", i)))) for q in ("species",) + QN]
            ix = {v[1][2][1] if type(v) is tuple and v[:1] == ("sym",) and len(v[1]) == 3 and v[1][:2] == ("A", "StateTwoOld::" + q) and type(v[1][2]) is tuple else None for v, q in zip(vs, ("species",) + QN)}
            got.append(ix.pop() if len(ix) == 1 else None)
        if o[1] in (("ref", ("A",)), ("obj", ("A",)), ("sym", ("A",)), ("copyof", ("A",))): got = [0, 1]
        rep.check(got in ([0, 1], [1, 0]), "order-atoms", f"{loc(f)}: the same two atoms", f"{loc(f)}: the ordered pair mixes the numbers of the two atoms (takes {got})")
        if got in ([0, 1], [1, 0]):
            rep.check(want == "either" or want == got[0], "order-smaller", f"{loc(f)}: smaller atom first", f"{loc(f)}: StateTwoOld::order {'keeps' if got[0] == 0 else 'exchanges'} the atoms " + ("without having compared them completely" if want == "undecided" else "although the other one comes first"))

class HashEval(keys.CmpEval):
    def inline(self, f, n): return not f["fn"].startswith(("utils::hash", "std::hash")) and super().inline(f, n)
    def note(self, v):
        if type(v) is tuple:
            if v[:1] in (("sym",), ("copyof",), ("obj",)) and v[1][:1] == ("A",): self.reads.add(v[1])
            elif v[:1] == ("app",):
                for x in v[2:]: self.note(x)
    def prim(self, n, name, ol, args, st, fr):
        if name.startswith(("utils::hash", "std::hash", "utils::FNV64")):
            for k, a in args:
                if k == "l" and a[:1] == ("A",): self.reads.add(a)
                else: self.note(a if k == "v" else self.value_of(st, a))
            for k, a in args[:1]:
                if k == "l" and a[:1] != ("A",): st = self.put(st, a, UNK)
            return [(UNK, st)]
        return super().prim(n, name, ol, args, st, fr)

def hash_reads(prog, f):
    ev = HashEval(prog)
    for o in ev.run(f, {}, ("H",), [("l", ("A",))]):
        if o[0] == "ret": ev.note(o[1] if not (type(o[1]) is tuple and o[1][:1] == ("ref",)) else ("sym", o[1][1]))
    return {l[1:] for l in ev.reads if len(l) > 1}

def hashes(rep, prog):
    for c, flds in CLASSES.items():
        hs = [f for f in prog.fns.values() if short(f["fn"]) == "operator()" and f.get("body") and len(f["p"]) == 1 and f["p"][0]["t"].replace("const ", "").strip("& ") == c and "hash" in f["fn"]]
        if not hs: raise AnalysisError(f"anchor vanished: hash of {c}")
        for h in hs:
            rep.count("hash functions")
            reach = [h] + [prog.fns[n["u"]] for n in fn_nodes(h) if n.get("u") in prog.fns]
            for g in reach:
                for n in fn_nodes(g):
                    if n.get("k") == "Cast" and n.get("ck") in ("BitCast",) and g.get("f", "").startswith("/repo/") and "char" in n.get("t", ""):
                        rep.bad(f"hash-bytes:{c}", f"{loc(g, n)}: the hash of {c} is taken from the bytes of its members: -0 and 0 are equal, but their bytes differ")
            rd = hash_reads(prog, h)
            hv = {p for p in rd if short(str(p[0])) == "hashvalue"}
            rest = {p for p in rd if p not in hv}
            allowed = {p[:1] for p in flds} | set(flds)
            bad = [p for p in rest if not any(p[:len(a)] == a for a in allowed)]
            rep.check(not bad, f"hash:{c}", f"{loc(h)}: the hash depends on compared members", f"{loc(h)}: the hash of {c} depends on {', '.join(map(name, bad))}, which equality ignores: equal states may hash differently")
            rep.check(bool(rd), f"hash-none:{c}", f"{loc(h)}: the hash reads the state", f"{loc(h)}: the hash of {c} does not depend on the state")

def constructors(rep, prog):
    terms = {}
    for c in CLASSES:
        flds = CLASSES[c]
        for f in prog.fns.values():
            if not (f.get("kind") == "ctor" and f.get("cls") == c and f.get("body") and not f.get("impl") and not f.get("defaulted")): continue
            rep.count("constructors")
            args, st = [], {}
            ts = [p["t"] for p in f["p"]]
            for i, p in enumerate(f["p"]):
                args.append(("l", ("arg", i)) if isref(p["t"]) else ("v", ("sym", ("arg", i))))
            ev, outs = returns(prog, f, ("X",), args)
            if not outs: raise AnalysisError(f"{loc(f)}: constructor not understood")
            # what each member has to be, from the types of the parameters
            want = {}
            ix = [i for i, t in enumerate(ts) if t not in ("unsigned int",)]
            if len(ix) in (4, 5) and len(ts) - len(ix) in (0, 1) and c.endswith(("One", "OneOld")):
                qs = QN if len(ix) == 4 else ("species",) + QN
                want = {(f"{c}::{q}",): ("sym", ("arg", i)) for q, i in zip(qs, ix)}
            elif len(ix) in (4, 5):
                qs = QN if len(ix) == 4 else ("species",) + QN
                for k in (0, 1):
                    for q, i in zip(qs, ix):
                        p = ("StateTwoOld::" + q, ("idx", k)) if c == "StateTwoOld" else ("StateTwo::state_array", ("idx", k), "StateOne::" + q)
                        want[p] = ("sym", ("arg", i, ("idx", k)))
            elif len(ix) == 2:
                sub = "StateOneOld::" if c == "StateTwoOld" else "StateOne::"
                for k in (0, 1):
                    for q in (("species",) if len(ts) == 2 else ()) + QN:
                        p = ("StateTwoOld::" + q, ("idx", k)) if c == "StateTwoOld" else ("StateTwo::state_array", ("idx", k), "StateOne::" + q)
                        want[p] = ("sym", ("arg", ix[k], sub + q))
            elif len(ix) == 1 and c == "StateOne":
                want = {("StateOne::species",): ("sym", ("arg", 0)), ("StateOne::n",): 0}
            elif len(ix) == 1 and c == "StateTwo":
                for k in (0, 1):
                    want[("StateTwo::state_array", ("idx", k), "StateOne::species")] = ("sym", ("arg", 0, ("idx", k)))
                    want[("StateTwo::state_array", ("idx", k), "StateOne::n")] = 0
            if "unsigned int" in ts: want[("StateOld::idx",)] = ("sym", ("arg", ts.index("unsigned int")))
            for o in outs:
                for p, w in want.items():
                    got = norm(member(ev, o[2], ("ref", ("X",)), p))
                    rep.check(got == w, f"ctor:{c}:{name(p)}", f"{loc(f)}: {name(p)} is the one given", f"{loc(f)}: the constructor of {c} makes {name(p)} {show(got)[:80]} instead of {show(w)}")
                if c in ("StateOne", "StateTwo"):
                    hv = member(ev, o[2], ("ref", ("X",)), (c + "::hashvalue",))
                    lv = hv_leaves(hv)
                    vals = {norm(member(ev, o[2], ("ref", ("X",)), p)) for p in flds}
                    if c == "StateTwo":
                        # in terms of the hashes of the atoms
                        sub = {}
                        for k in (0, 1):
                            x = member(ev, o[2], ("ref", ("X",)), ("StateTwo::state_array", ("idx", k), "StateOne::hashvalue"))
                            sub[hashable(x)] = ("sym", ("H", k))
                        hv = subst(hv, sub)
                        lv = hv_leaves(hv)
                        rep.check(lv == {("sym", ("H", 0)), ("sym", ("H", 1))}, f"hash-ctor:{c}", f"{loc(f)}: the hash combines the hashes of both atoms", f"{loc(f)}: the hash stored by this constructor of StateTwo is {show(hv)[:160]}, not a function of the hashes of both atoms")
                        terms.setdefault(c, []).append((f, hv))
                    else:
                        rep.check(bool(lv) and lv <= vals | {norm(x) for x in vals}, f"hash-ctor:{c}", f"{loc(f)}: the hash is a function of the compared members", f"{loc(f)}: the hash stored by this constructor of {c} depends on {', '.join(show(x) for x in lv - vals) or 'nothing'}, not only on compared members")
    for c, ts in terms.items():
        for f, t in ts[1:]:
            rep.check(t == ts[0][1], f"hash-agree:{c}", f"{loc(f)}: the same hash as {loc(ts[0][0])}", f"{loc(f)}: this constructor of {c} stores another hash than the one at {loc(ts[0][0])} does for an equal state")

def hv_leaves(v):
    if type(v) is not tuple: return set()
    if v[:1] == ("app",): return set().union(*[hv_leaves(x) for x in v[2:]]) if len(v) > 2 else set()
    if v[:1] in (("sym",), ("copyof",)): return {norm(v)}
    if v == UNK: return {v}
    return set()

def subst(v, m):
    if v in m: return m[v]
    if type(v) is tuple and v[:1] == ("app",): return v[:2] + tuple(subst(x, m) for x in v[2:])
    return v

def species(rep, prog):
    """the spin and element read off a species label"""
    for c in ("StateOneOld", "StateTwoOld", "StateOne"):
        f = one(prog, c + "::analyzeSpecies", 0)
        for label, s, el in (("Rb", .5, "Rb"), ("Sr1", 0, "Sr"), ("Sr3", 1, "Sr"), ("Cs", .5, "Cs"), ("Yb2", .5, "Yb"), ("", .5, "")):
            if label == "" and c == "StateOne": continue
            rep.count("species parsed")
            for i in ((None,) if c != "StateTwoOld" else (0, 1)):
                pre = () if i is None else (("idx", i),)
                other = {("X", c + "::species", ("idx", 1 - i)): ("str", "Na")} if i is not None else {}
                ev, outs = returns(prog, f, ("X",), [], {("X", c + "::species") + pre: ("str", label), **other})
                if not outs: raise AnalysisError(f"{loc(f)} was not understood")
                for o in outs:
                    gs, ge = member(ev, o[2], ("ref", ("X", c + "::s")), pre), member(ev, o[2], ("ref", ("X", c + "::element")), pre)
                    rep.check(gs == s and ge == ("str", el), f"species:{c}", f"{loc(f)}: '{label}' is {el} with spin {s}", f"{loc(f)}: species '{label}' is taken for element {ge} with spin {show(gs)}, instead of {el} with spin {s}")

def run(rep):
    prog = Program(all_tus())
    arbs = {str((v.get("init") or {}).get("v")) for v in prog.vars.values() if v.get("q") == "ARB"}
    if len(arbs) != 1: raise AnalysisError("anchor vanished: the wildcard constant ARB")
    arb = int(arbs.pop())
    operators(rep, prog, arb)
    order(rep, prog)
    hashes(rep, prog)
    constructors(rep, prog)
    accessors(rep, prog)
    species(rep, prog)
