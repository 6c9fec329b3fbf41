"""Evaluation of the quantum systems (SystemBase and its subclasses): matrix algebra (mateval) plus the list of
states (a hashed container that is also numbered), predicates passed as functions, and operations that are not
looked into but recorded in the order they are called."""
from mateval import *
from fev import FEval, Frame, fr_this
import mateval

SB = "SystemBase::"
def S(*n): return ("sym", ("this",) + tuple(SB + x for x in n))
B, Hm, Bc, Hc, STATES = S("basisvectors"), S("hamiltonian"), S("basisvectors_unperturbed_cache"), S("hamiltonian_unperturbed_cache"), S("states")
LOG = ("#log",)
BUILD = ("buildBasis", "buildHamiltonian", "buildInteraction")
VIRTUAL = ("initializeBasis", "initializeInteraction", "addInteraction", "deleteInteraction", "transformInteraction", "rotateStates",
           "buildStaterotator", "incorporate", "onStatesChange")

_dim = mateval.dim
def dim(m, d):
    if is_app(m, "pad"): return m[3 + d]
    if is_app(m, "setRight"): return dim(m[2], d)
    if is_app(m, "rightCols") or is_app(m, "leftCols"): return m[3] if d == 1 else dim(m[2], 0)
    if is_app(m, "row"): return 1 if d == 0 else dim(m[2], 1)
    if is_app(m, "col"): return dim(m[2], 0) if d == 0 else 1
    if is_app(m, "upd"): return dim(m[2], d)
    if is_app(m, "abs2") or is_app(m, "pruned") or is_app(m, "sqrtm"): return dim(m[2], d)
    if is_app(m, "first"): return m[3]
    if is_app(m, "iota") or is_app(m, "best"): return m[2] if is_app(m, "iota") else dim(m[2], d)
    if is_app(m, "identity") or is_app(m, "ones"): return m[2 + d]
    return _dim(m, d)
mateval.dim = dim

METHODS_OF_THIS = ("checkIsQuantumstateValid", "checkIsEnergyValid", "checkIsDiagonal", "checkIsUnitary", "getStateIndex")
class SysEval(MatEval):
    pure_calls = ("isGeneralized", "is_true", "isArtificial", "createStateFromLabel", "getN", "getL", "getJ", "getM", "hash_range", "conjugate")
    """logged: short names of operations that are recorded instead of followed; cache: whether the copies of
    the unperturbed system exist (None: both)"""
    def __init__(self, prog, logged=BUILD + VIRTUAL, cache=None, given=None):
        super().__init__(prog)
        self.logged, self.cache, self.given = set(logged), cache, given or {}
    def inline(self, f, n):
        if short(f.get("fn", "")) == "isGeneralized" or short(f.get("fn", "")) == "isArtificial" or f.get("fn", "").startswith("utils::hash") or short(f.get("fn", "")) in ("createStateFromLabel", "is_true"): return False
        if f.get("fn", "").split("::")[0] in ("StateOne", "StateTwo", "State"): return False
        return short(f.get("fn", "")) not in self.logged and super().inline(f, n)
    # ---- what a scenario fixes
    def symbolic(self, op, a, b, st):
        if self.cache is not None and op in ("==", "!=", ">", "<", ">=", "<="):
            for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
                if y == 0 and type(y) is int and self.nonempty and is_app(x, "*") and all(is_app(z, ("rows", "cols")[i]) and z[2] in self.nonempty for i, z in enumerate(x[2:])):
                    return {"==": False, "!=": True, ">": True, "<": False, ">=": True, "<=": False}[o]
                if y in (0, 1) and type(y) is int and self.sized(x):
                    n = 9 if self.cache else 0
                    return {"==": n == y, "!=": n != y, ">": n > y, "<": n < y, ">=": n >= y, "<=": n <= y}[o]
        for x, y in ((a, b), (b, a)):
            g = self.given.get(x)
            if type(g) in (bool, int) and op in ("==", "!=", ">", "<") and type(y) is int and x == a:
                return {"==": g == y, "!=": g != y, ">": g > y, "<": g < y}[op]
        r = super().symbolic(op, a, b, st)
        if r in self.given: return self.given[r]
        return r
    nonempty = ()   # matrices that are known not to be empty
    def sized(self, x):
        if is_app(x, "rows") or is_app(x, "cols"): return x[2] in (Bc, Hc)
        if is_app(x, "*"): return any(self.sized(y) for y in x[2:])
        return False
    def val(self, a, st):
        v = super().val(a, st)
        return self.given.get(v, v) if type(v) is tuple else v
    def truth(self, n, st, fr, outs):
        r = super().truth(n, st, fr, outs)
        out = []
        for b, s in r:
            bad = False
            for k, v in s.items():
                if k[0] == "D" and k not in st and k[1] in self.given and bool(self.given[k[1]]) != v: bad = True
            if not bad: out.append((b, s))
        return out
    def value_of(self, st, loc, n=None):
        v = super().value_of(st, loc, n)
        if is_app(v, "zero") or is_app(v, "upd"):
            # elements set one by one
            own = frozenset(("set", (), frozenset(), k[-1][1], hashable(x)) for k, x in st.items() if len(k) == len(loc) + 1 and k[:-1] == loc and type(k[-1]) is tuple and k[-1][:1] == ("idx",))
            if own: v = app("upd", v, own) if is_app(v, "zero") else app("upd", v[2], v[3] | own)
        return v
    def load_default(self, loc, st, n):
        if loc and type(loc[-1]) is tuple and loc[-1][:1] in (("rightCols",), ("leftCols",), ("row",), ("col",)):
            return app(loc[-1][0], self.value_of(st, loc[:-1]), loc[-1][1])
        # part of an element of a container
        if loc and not (type(loc[-1]) is tuple and loc[-1][:1] == ("idx",)):
            for i in range(len(loc) - 1, 0, -1):
                v = st.get(loc[:i])
                if is_app(v, "elem") and type(v[2]) is tuple and v[2][:1] == ("sym",):
                    return ("sym", v[2][1] + (("idx", v[3]),) + loc[i:])
                if type(v) is tuple and v[:1] == ("app",):
                    return app("member", v, *loc[i:])
        return super().load_default(loc, st, n)
    def count_loop(self, n, ci, st, fr):
        # loops over the two atoms are unrolled
        i = n.get("init") or {}
        b = strip_casts(ci[1])
        if "cval" in b or b.get("k") == "Int":
            c = int(b.get("cval", b.get("v")))
            if c <= 4: return FEval.st(self, n, st, fr)
        return super().count_loop(n, ci, st, fr)
    def log(self, st, *e):
        s = dict(st); s[LOG] = st.get(LOG, ()) + (e,)
        return s
    def call_lambda(self, v, a, st, depth=0):
        f, lf = self._lams[v[1]]
        nf = Frame(f, fr_this(lf), self._u(), lf, depth + 1)
        return self.exec_fn(f, self.bindargs(f, a, st, nf), nf)
    def record(self, n, sh, ol, args, st, fr):
        vs = []
        for a in args:
            v = self.val(a, st)
            if type(v) is tuple and v[:1] == ("iter",): v = self.value_of(st, v[1])
            vs.append(hashable(v))
        s = self.log(st, sh, ol, *vs)
        return [(UNK if n.get("t") == "void" else app(sh, *vs), s)]
    def prim_(self, n, name, ol, args, st, fr):
        k, sh = n["k"], short(name)
        if sh in self.logged:
            return self.record(n, sh, ol, args, st, fr)
        val = lambda i: hashable(self.val(args[i], st))
        if sh in self.pure_calls or k == "OpCall" and n["op"] == "^" and len(n["a"]) == 2:
            vs = tuple(val(i) for i in range(len(args)))
            if ol is not None and (n["k"] == "OpCall" or short(n.get("fn", "")) not in METHODS_OF_THIS): vs = (hashable(self.value_of(st, ol)),) + vs
            return [(app(sh if k != "OpCall" else n["op"], *vs), st)]
        if name.startswith("boost::multi_index"):
            if sh == "get": return [(("ref", ol), st)]
            if sh in ("reserve", "shrink_to_fit"): return [(None, st)]
            me = hashable(self.value_of(st, ol)) if ol is not None else None
            if sh in ("push_back", "emplace_back"):
                pl = tuple(val(i) for i in range(len(args)))
                pl = pl[0] if len(pl) == 1 else ("tuple",) + pl
                if me == UNK: return [(None, st)]
                v = me if type(me) is tuple and me[:1] == ("list",) else ("list", frozenset(), ol)
                return [(("ref", ol), self.put(st, ol, v[:1] + (added(v[1], {((), frozenset(), pl)}),) + v[2:]))]
            if sh == "clear": return [(None, self.put(st, ol, EMPTY))]
            if sh == "find": return [(("found", ol, val(0)), st)]
            if sh in ("size", "empty") and ol is not None:
                if type(me) is tuple and me[:1] == ("list",) and (len(me) == 2 or me[1] or len(me) == 4):
                    c = self.length(me, ol)
                else:
                    c = self.size(me)
                if sh == "empty": c = app("std::vector::empty", me)
                return [(self.given.get(c, c), st)]
            if k == "OpCall" and n["op"] == "[]": return [(("ref", ol + (("idx", val(0)),)), st)]
            if k == "Ctor" and not args: return [(EMPTY, st)]
            if k == "Ctor" and len(args) == 1: return [(val(0), st)]
            if k == "OpCall" and n["op"] == "=" and ol is not None: return [(("ref", ol), self.put(st, ol, val(0)))]
        if sh == "operator->" and ol is not None and not args or k == "OpCall" and n["op"] in ("->", "*") and ol is not None and not args:
            me = self.value_of(st, ol)
            if type(me) is tuple and me[:1] == ("ptr",): return [(me if not name.endswith("*") else ("ref", me[1]), st)]
            if type(me) is tuple and me[:1] == ("found",):
                l = me[1] + (("pair", me[2]),)
                return [(("ptr" if not name.endswith("*") else "ref", l), st)]
        if k == "Ctor" and name in ("std::set::set", "std::unordered_set::unordered_set") and not [a for a in n["a"] if a.get("k") != "DefArg"]: return [(EMPTY, st)]
        if k == "OpCall" and n["op"] == "=" and name.startswith("std::set::") and ol is not None:
            x = strip_casts(n["a"][1])
            v = EMPTY if x.get("k") in ("InitList", "Ctor") and not [a for a in x.get("a", []) if a.get("k") != "DefArg"] else val(0)
            return [(("ref", ol), self.put(st, ol, EMPTY if v in (("tuple",), ()) else v))]
        if name == "std::iota" and len(args) == 3:
            a = self.val(args[0], st)
            if type(a) is tuple and a[:1] == ("iter",):
                v = self.value_of(st, a[1])
                return [(None, self.put(st, a[1], app("iota", v[2]) if is_app(v, "vec") and val(2) == 0 else UNK))]
        if k == "OpCall" and n["op"] in ("+", "-") and ol is not None and len(args) == 1 and type(self.value_of(st, ol)) is tuple and self.value_of(st, ol)[:1] == ("iter",):
            return [(("iter", self.value_of(st, ol)[1], val(0)) if n["op"] == "+" else UNK, st)]
        if name in ("std::nth_element", "std::partial_sort", "std::sort") and len(args) >= 3:
            a, b, c = (self.val(x, st) for x in (args[:3] if name != "std::sort" else [args[0], args[1], args[1]]))
            ok = type(a) is tuple and a[:1] == ("iter",) and len(a) == 2 and type(c) is tuple and c == ("enditer", a[1]) and (type(b) is tuple and b[:2] == ("iter", a[1]) and len(b) == 3 or b == c)
            f = self.val(args[-1], st)
            if ok and type(f) is tuple and f[:1] == ("lam",):
                v = self.value_of(st, a[1])
                res = [o for o in self.call_lambda(f, [("v", ("ix", "a")), ("v", ("ix", "b"))], st, fr.depth) if o[0] == "ret"]
                if len(res) == 1 and v != UNK: return [(None, self.put(st, a[1], app("best", v, b[2] if b != c else self.length(v, a[1]), hashable(res[0][1]))))]
            if type(a) is tuple and a[:1] == ("iter",): return [(None, self.put(st, a[1], UNK))]
        if name == "std::vector::resize" and ol is not None and len(args) == 1 and is_app(self.value_of(st, ol), "best"):
            b = self.value_of(st, ol)
            return [(None, self.put(st, ol, app("first", b, val(0)) if b[3] == val(0) else UNK))]
        if k == "OpCall" and name.startswith("std::complex") and n["op"] in ("+=", "-=", "*=", "/=") and ol is not None:
            a, b = hashable(self.value_of(st, ol)), val(0)
            return [(("ref", ol), self.put(st, ol, UNK if UNK in (a, b) else app(n["op"][0], a, b)))]
        m = re.match(r"LAPACKE_[sdcz](he|sy)ev([dr]?)$", sh)
        if m and m[2] != "r" and len(args) == 7:
            # layout, eigenvectors?, half, n, matrix, stride, eigenvalues
            lay, job, half, cnt = (val(i) for i in range(4))
            lda, mat, ev = val(5), self.val(args[4], st), self.val(args[6], st)
            if not (type(mat) is tuple and mat[:1] == ("ptr",) and type(ev) is tuple and ev[:1] == ("ptr",)): return None
            X = hashable(self.value_of(st, mat[1]))
            ch = lambda c: chr(c) if type(c) is int else str(c).strip("'")
            ok = X != UNK and lay in (101, 102) and ch(half) in ("U", "L") and cnt in (rows(X), cols(X)) and lda in (rows(X), cols(X))
            if lay == 101: X = app("tr", X)
            st = self.put(st, ev[1], app("evals", X) if ok else UNK)
            st = self.put(st, mat[1], app("evecs", X) if ok and ch(job) == "V" and lay == 102 else UNK)
            return [(app("info", X), st)]
        if k == "Ctor" and sh == "enumerated_state" and len(args) == 2: return [(("tuple", val(0), val(1)), st)]
        if name == "std::function::operator()" or k == "OpCall" and n["op"] == "()" and ol is not None and "function" in name:
            f = self.value_of(st, ol) if ol is not None else UNK
            if type(f) is tuple and f[:1] == ("lam",):
                return [(o[1], o[2]) if o[0] == "ret" else ("throw", o[2]) for o in self.call_lambda(f, args, st, fr.depth)]
            if type(f) is tuple and f[:1] == ("sym",):
                return [(app("call", f, *[hashable(self.val(a, st)) for a in args]), st)]
        m = re.match(r"std::array<(std::vector<.*>), (\d+)>$", n.get("t", "").replace("const ", "")) if k == "Ctor" and sh == "array" and not n["a"] else None
        if m:
            l = self.newloc()
            for i in range(int(m[2])): st = self.put(st, l + (("idx", i),), EMPTY)
            return [(("obj", l), st)]
        if k == "Ctor" and name == "std::function::function" and len(args) == 1: return [(val(0), st)]
        if name == "std::vector::vector" and k == "Ctor" and len(n["a"]) >= 1 and n["a"][0].get("k") == "InitList":
            return [(val(0), st)]
        if name.startswith(("std::set::", "std::unordered_set::")) and ol is not None and k == "MCall":
            me = hashable(self.value_of(st, ol))
            if sh == "clear": return [(None, self.put(st, ol, EMPTY))]
            if sh in ("insert", "emplace"):
                v = me if type(me) is tuple and me[:1] == ("list",) else ("list", frozenset(), ol)
                if len(args) == 1 or sh == "emplace": pl = val(0)
                else:
                    a, b = val(0), val(1)
                    pl = ("all", a[1]) if type(a) is tuple and a[:1] == ("iter",) and b == ("enditer", a[1]) else UNK
                return [(UNK, self.put(st, ol, v[:1] + (added(v[1], {((), frozenset(), pl)}),) + v[2:]))]
        return super().prim(n, name, ol, args, st, fr)
    def prim(self, n, name, ol, args, st, fr):
        # std::array constants as keys of maps
        if n["k"] in ("OpCall", "MCall") and ol is not None and args and name.split("::")[-1] in ("operator[]", "at", "find", "count", "erase"):
            t = arraykey(n["a"][-1])
            if t is not None: args = list(args[:-1]) + [("v", t)]
        if name == "std::array::data" and ol is not None: return [(("ptr", ol), st)]
        return self.prim_(n, name, ol, args, st, fr)
    def decl(self, v, st, fr, outs):
        # a map over an array is another name for the array
        if v.get("init") and not v.get("static") and "Eigen::Map<" in v["t"]:
            e = strip_casts(v["init"])
            if e["k"] == "Ctor" and "Map" in e["fn"] and len(e["a"]) >= 1:
                res = []
                for p, s in self.rv(e["a"][0], st, fr, outs):
                    if not (type(p) is tuple and p[:1] == ("ptr",)): break
                    fr.refs[v["i"]] = p[1][:-1] if p[1][-1:] == (("idx", 0),) else p[1]
                    res.append(s)
                else: return res
        # small local arrays are kept by element
        if v.get("init") and not v.get("static") and re.match(r"(const )?std::array<", v["t"]) and "&" not in v["t"]:
            e = strip_casts(v["init"])
            while e["k"] == "InitList" and len(e["a"]) == 1 and strip_casts(e["a"][0])["k"] == "InitList": e = strip_casts(e["a"][0])
            if e["k"] == "InitList" and e["a"] and all(x.get("k") != "InitList" for x in map(strip_casts, e["a"])):
                l, res = ("L", fr.uid, v["i"]), [st]
                for i, x in enumerate(e["a"]):
                    res = [self.put(s2, l + (("idx", i),), hashable(self.val(("v", val), s2))) for s in res for val, s2 in self.rv(x, s, fr, outs)]
                return res
        return super().decl(v, st, fr, outs)
    def eig(self, n, name, sh, ol, me, args, st, val):
        if n["k"] == "OpCall" and n["op"] == "=" and ol is not None and type(ol[-1]) is tuple and ol[-1][:1] == ("rightCols",):
            p = ol[:-1]
            return [(("ref", ol), self.put(st, p, app("setRight", self.value_of(st, p), ol[-1][1], val(0))))]
        if n["k"] == "Ctor" and name == "Eigen::Map::Map" and args:
            a = self.val(args[0], st)
            if type(a) is tuple and a[:1] == ("ptr",): return [(hashable(self.value_of(st, a[1][:-1] if a[1][-1:] == (("idx", 0),) else a[1])), st)]
            return [(UNK, st)]
        if n["k"] == "OpCall" and n["op"] in ("<<", ",") and ol is not None and len(args) == 1:
            return [(("ref", ol), self.put(st, ol, app("parts", *((me[2:] if n["op"] == "," and is_app(me, "parts") else ()) + (val(0),)))))]
        if n["k"] == "MCall" and ol is not None:
            if sh in ("rightCols", "leftCols", "row", "col") and len(args) == 1: return [(("ref", ol + ((sh, val(0)),)), st)]
            if sh == "conservativeResize":
                return [(None, self.put(st, ol, app("pad", me, val(0), val(1) if len(args) > 1 else 1)))]
            if sh == "cwiseAbs2": return [(app("abs2", me), st)]
            if sh == "pruned" : return [(app("pruned", me, *[val(i) for i in range(len(args))]), st)]
            if sh == "prune" and args and all(type(val(i)) in (int, float) for i in range(len(args))): return [(None, self.put(st, ol, app("pruned", me, *[val(i) for i in range(len(args))])))]
            if sh == "dot": return [(app("dot", me, val(0)), st)]
            if sh == "sqrt": return [(app("sqrtm", me), st)]
            if sh == "data": return [(("ptr", ol), st)]
            if sh == "outerStride": return [(rows(me), st)]
            if sh == "nonZeros": return [(app("nonZeros", me), st)]
        if sh in ("Identity", "Ones") and len(args) >= 1:
            return [(app({"Identity": "identity", "Ones": "ones"}[sh], val(0), val(1) if len(args) > 1 else 1), st)]
        if sh == "Zero" and len(args) >= 1: return [(app("zero", val(0), val(1) if len(args) > 1 else 1), st)]
        return super().eig(n, name, sh, ol, me, args, st, val)

def constant(n):
    n = strip_casts(n)
    if re.fullmatch(r"-?\d+", str(n.get("cval", ""))): return int(n["cval"])
    if n["k"] == "Int": return int(n["v"])
    if n["k"] == "Un" and n["op"] in ("-", "+"):
        c = constant(n["e"])
        return None if c is None else -c if n["op"] == "-" else c
    return None
def arraykey(n):
    n = strip_casts(n)
    while n["k"] == "Ctor" and len(n["a"]) == 1: n = strip_casts(n["a"][0])
    if n["k"] != "InitList" or not n.get("t", "").replace("const ", "").startswith("std::array<"): return None
    while len(n["a"]) == 1 and strip_casts(n["a"][0])["k"] == "InitList": n = strip_casts(n["a"][0])
    c = [constant(x) for x in n["a"]]
    return None if None in c else ("tuple",) + tuple(c)

def methods(prog, names, cls="SystemBase", which=("complex", "StateOne")):
    """instantiated methods of a class by short name"""
    r = {}
    for f in prog.fns.values():
        if f.get("cls") == cls and f.get("body") and not f.get("dep") and all(w in f["u"] for w in which) and short(f["fn"]) in names:
            r.setdefault(short(f["fn"]), []).append(f)
    for n in names:
        if n not in r: raise AnalysisError(f"{cls}::{n}: no body found")
        r[n].sort(key=lambda f: f["l"])
    return r

def call(e, f, this=("this",)):
    args = [("l", ("arg", i)) if isref(q["t"]) else ("v", ("sym", ("arg", i))) for i, q in enumerate(f["p"])]
    return e.run(f, {}, this, args)
