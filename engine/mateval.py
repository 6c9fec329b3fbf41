"""Symbolic evaluation of matrix code. Eigen matrices are terms (products, adjoints, sums, scalings);
a loop is one generic iteration whose effects are summarised: what a list gains, what is added to or
stored in the elements of a vector, how far a counter gets, each with the conditions it depends on.
A matrix built from a list of triplets is the matrix those generic triplets describe. Nothing is
unrolled, so the result holds for matrices of every size."""
from absev import *

LAZY = re.compile(r"Eigen::(Product|CwiseUnaryOp|CwiseBinaryOp|Transpose|CwiseUnaryView|Block|Diagonal|DiagonalWrapper|CwiseNullaryOp|SparseView|Reverse|MatrixWrapper|ArrayWrapper|SparseSelfAdjointView|TriangularView)\b")
def app(op, *a): return ("app", op) + tuple(hashable(x) for x in a)
def is_app(t, op): return type(t) is tuple and t[:1] == ("app",) and t[1] == op
EMPTY = ("list", frozenset())

def eigen(t):
    t = t.replace("const ", "")
    return t.startswith("Eigen::") and not t.startswith("Eigen::Triplet")

def rows(m): return dim(m, 0)
def cols(m): return dim(m, 1)
def dim(m, d):
    if is_app(m, "@"): return dim(m[2], 0) if d == 0 else dim(m[3], 1)
    if is_app(m, "adj") or is_app(m, "tr"): return dim(m[2], 1 - d)
    if is_app(m, "conj") or is_app(m, "abs") or is_app(m, "neg") or is_app(m, "+") or is_app(m, "-"): return dim(m[2], d)
    if is_app(m, "*"): return dim(m[3], d)
    if is_app(m, "tri") or is_app(m, "zero"): return m[2 + d]
    if is_app(m, "elements"): return dim(m[2], d)
    if is_app(m, "diag"): return dim(m[2], 0) if d == 0 else 1
    if is_app(m, "evecs"): return dim(m[2], 0)
    if is_app(m, "evals"): return dim(m[2], 0) if d == 0 else 1
    if is_app(m, "asdiag"): return dim(m[2], 0)
    return app("rows" if d == 0 else "cols", m)

class MatEval(AbsEval):
    max_states = 4000
    def prod(self, a, b): return app("@", a, b)
    def inline(self, f, n):
        return super().inline(f, n)
    # ---- values
    def truth(self, n, st, fr, outs):
        r = []
        for b, s in super().truth(n, st, fr, outs):
            r.append((b, s))
        if len(r) > 1 and not any(s != st for _, s in r):
            # a decision on something unknown still is a condition
            k = ("D", ("unk", self.here(n, fr)))
            r = [(b, {**s, k: b}) for b, s in r]
        return r
    def load_default(self, loc, st, n):
        if loc and type(loc[-1]) is tuple and loc[-1][:1] == ("idx",):
            c = st.get(loc[:-1])
            if c is not None:
                return self.elem(c, loc[-1][1])
            return app("elem", ("sym", loc[:-1]), loc[-1][1])
        # part of a copy
        for i in range(len(loc) - 1, 0, -1):
            v = st.get(loc[:i])
            if type(v) is tuple and v[:1] == ("copyof",):
                return ("sym", v[1] + loc[i:])
            if type(v) is tuple and v[:1] == ("sym",):
                return ("sym", v[1] + loc[i:])
        return ("sym", loc)
    def elem(self, c, i):
        if c == UNK or i == UNK: return UNK
        if is_app(c, "vec") and not c[4]:
            return c[3]
        if type(c) is tuple and c[:1] == ("list",) and len(c) >= 3:
            # a list as it was when the loop began
            return UNK if c[1] else self.elem(c[2] if c[2][:1] in (("sym",), ("list",), ("app",)) else ("sym", c[2]), i)
        if is_app(c, "vec") and c[3] == 0:
            # a sum per element
            full = [g for g in c[4] if g[0] == "acc" and type(g[3]) is tuple and g[3][:1] == ("ix",) and g[3][1] in g[1] and g[3][1][:3] == ("each", 0, c[2])]
            if len(full) == len(c[4]):
                r = set()
                for kind, bs, g, ix, d in full:
                    rest = tuple(b for b in bs if b != ix[1])
                    m = {ix: i}
                    r.add((subst(rest, m), subst(g, m), subst(d, m)))
                return app("sum", frozenset(r))
        if type(c) is tuple and c[:1] == ("copyof",):
            c = ("sym", c[1])
        return app("elem", c, i)
    def value_of(self, st, loc, n=None):
        v = super().value_of(st, loc, n)
        if type(v) is tuple and v[:1] == ("copyof",):
            if any(type(k) is tuple and len(k) > len(loc) and k[:len(loc)] == loc for k in st): return ("obj", loc)
        if v == UNK and any(type(k) is tuple and len(k) > len(loc) and k[:len(loc)] == loc and type(k[len(loc)]) is str for k in st):
            return ("obj", loc)
        if type(v) is tuple and v[:1] == ("copyof",):
            return ("sym", v[1])
        return v
    def decl(self, v, st, fr, outs):
        if v.get("init") and LAZY.match(v["t"].replace("const ", "")) and not isref(v["t"]):
            self.lazy[(fr.uid, v["i"])] = (v["init"], fr)
            return [st]
        return super().decl(v, st, fr, outs)
    def __init__(self, prog):
        super().__init__(prog)
        self.lazy = {}
        self.loops = []
        self.opaque = set()
    def rv(self, n, st, fr, outs):
        if n is not None and n.get("k") == "Ref" and n.get("w") == "local":
            z = self.lazy.get((self.frame_of(n["i"], fr).uid, n["i"]))
            if z:
                return self.rv(z[0], st, z[1], outs)
        if n is not None and n.get("k") == "Un" and n["op"] in ("++", "--") and not ("cval" in n):
            r = []
            for l, s in self.lv(n["e"], st, fr, outs):
                v = self.value_of(s, l, n)
                nv = (v + (1 if n["op"] == "++" else -1)) if type(v) in (int, float) else UNK if v == UNK else app("+" if n["op"] == "++" else "-", v, 1)
                r.append((v if n.get("post") else nv, self.put(s, l, nv)))
            return r
        return super().rv(n, st, fr, outs)
    def lv(self, n, st, fr, outs):
        if n.get("k") == "Ref" and n.get("w") == "local":
            z = self.lazy.get((self.frame_of(n["i"], fr).uid, n["i"]))
            if z:
                r = []
                for v, s in self.rv(z[0], st, z[1], outs):
                    l = self.newloc()
                    r.append((l, self.put(s, l, v)))
                return r
        return super().lv(n, st, fr, outs)
    # ---- loops
    def st(self, n, st, fr):
        if n is None:
            return super().st(n, st, fr)
        k = n["k"]
        if k in ("For", "While"):
            n = self.as_for(n)
            it = self.inner(n)
            if it:
                return self.inner_loop(n, it, st, fr)
            ci = self.counting2(n)
            if ci:
                return self.count_loop(n, ci, st, fr)
        return super().st(n, st, fr)
    def as_for(self, n):
        """a while loop that counts at the end of its body"""
        b = n["body"]
        if n["k"] == "For" and n.get("inc") or not b or b["k"] != "Block" or not b["s"]: return n
        i = strip_casts(b["s"][-1])
        def cont(x):
            if isinstance(x, dict):
                if x.get("k") == "Continue": return True
                if x.get("k") in ("For", "While", "DoWhile", "RFor", "Lambda"): return False
                return any(cont(v) for v in x.values() if isinstance(v, (dict, list)))
            return any(cont(v) for v in x) if isinstance(x, list) else False
        if not (i.get("k") == "Un" and i["op"] == "++" or i.get("k") == "Asg" and i["op"] == "+="or i.get("k") == "OpCall" and i.get("op") == "++") or cont(b): return n
        return {**n, "k": "For", "inc": b["s"][-1], "body": {**b, "s": b["s"][:-1]}}
    def counting2(self, n):
        if n["k"] != "For": return None
        c = strip_casts(n.get("c") or {})
        if c.get("k") == "Bin" and c["op"] in ("<", "!=", "<=") or c.get("k") == "Bin" and c["op"] == ">":
            m = dict(n)
            if c["op"] == ">":
                m["c"] = {**c, "op": "<", "x": c["y"], "y": c["x"]}
            elif c["op"] == "<=":
                m["c"] = {**c, "op": "<"}
            r = self.counting(m)
            if r:
                return r + (1 if c["op"] == "<=" else 0,)
        return None
    def inner(self, n):
        """the iterator variable over the stored elements of one column"""
        c = strip_casts(n.get("c") or {})
        if c.get("k") == "MCall" and short(c.get("fn", "")) == "operator bool" and "InnerIterator" in c["fn"]:
            o = strip_casts(c["o"])
            if o.get("k") == "Ref":
                return o["i"]
        return None
    def inner_loop(self, n, it, st, fr):
        outs, res = [], []
        starts = [("next", None, st)] if not n.get("init") else self.st(n["init"], st, fr)
        for o in starts:
            if o[0] != "next":
                outs.append(o); continue
            f = self.frame_of(it, fr)
            l = f.refs.get(it, ("L", f.uid, it))
            v = self.value_of(o[2], l)
            if not (type(v) is tuple and v[:1] == ("nz",)):
                v = ("nz", v, None)
            res += self.once(v, n["body"], n, o[2], fr, outs, lambda s, b: self.put(s, l, ("nzit", b)))
        return outs + res
    def count_loop(self, n, ci, st, fr):
        outs, res = [], []
        starts = [("next", None, st)] if not n.get("init") else self.st(n["init"], st, fr)
        for o in starts:
            if o[0] != "next":
                outs.append(o); continue
            f = self.frame_of(ci[0], fr)
            l = f.refs.get(ci[0], ("L", f.uid, ci[0]))
            first = self.value_of(o[2], l)
            for b, s in self.rv(ci[1], o[2], fr, outs):
                if ci[2]: b = b + 1 if type(b) is int else UNK if b == UNK else app("+", b, 1)
                if b == UNK: b = ("sym", ("#bound", self.here(n, fr)))
                res += self.once(("each", hashable(first), hashable(b)), n["body"], n, s, fr, outs, lambda s, b: self.put(s, l, ("ix", b)))
                res[-1] = ("next", None, self.put(res[-1][2], l, UNK))
        return outs + res
    def rfor(self, n, st, fr):
        outs, res = [], []
        v = n["v"]
        r = strip_casts(n["r"])
        if r.get("k") == "InitList" and len(r.get("a", ())) <= 6:
            cur = [st]
            for x in r["a"]:
                nxt = []
                for s in cur:
                    if isref(v["t"]) and x.get("k") != "Ctor":
                        objs = []
                        for ol, s2 in self.lv(x, s, fr, outs):
                            fr.refs[v["i"]] = ol
                            objs.append(s2)
                    else:
                        fr.refs.pop(v["i"], None)
                        objs = [self.put(s2, ("L", fr.uid, v["i"]), val) for val, s2 in self.rv(x, s, fr, outs)]
                    for s2 in objs:
                        for o in self.st(n["body"], s2, fr):
                            if o[0] in ("next", "cont"): nxt.append(o[2])
                            elif o[0] == "brk": res.append(("next", None, o[2]))
                            else: outs.append(o)
                cur = nxt
            return outs + res + [("next", None, s) for s in cur]
        for c, s in self.lv(n["r"], st, fr, outs):
            cont = self.value_of(s, c)
            if type(cont) is tuple and cont[:1] == ("obj",): cont = ("sym", c)
            def setup(s, b, c=c, cont=cont):
                e = self.elem(cont, ("ix", b))
                if isref(v["t"]) and "const" not in v["t"]:
                    fr.refs[v["i"]] = c + (("idx", ("ix", b)),)
                    return s
                fr.refs.pop(v["i"], None)
                return self.put(s, ("L", fr.uid, v["i"]), e)
            res += self.once(("each", 0, hashable(self.size(cont))), n["body"], n, s, fr, outs, setup)
        return outs + res
    def length(self, v, l):
        """how many elements a list has: those it had, those added in earlier iterations, those added since"""
        if not (type(v) is tuple and v[:1] == ("list",)):
            if is_app(v, "vec"): return v[2]
            return UNK if v == UNK else app("std::vector::size", v)
        n = ("count", frozenset((b, g) for b, g, p in v[1])) if v[1] or len(v) == 2 else 0
        if len(v) == 2: return n
        def plus(a, b): return b if a == 0 or type(a) is tuple and a == ("count", frozenset()) else a if b == 0 else app("+", a, b)
        base = self.length(v[2], l) if type(v[2]) is not tuple or v[2][:1] in (("list",), ("app",)) else app("std::vector::size", v[2] if v[2][:1] == ("sym",) else ("sym", v[2]))
        if len(v) == 4: base = plus(base, ("lctr", l, v[3]))
        if n != 0 and all(not b and not g for b, g in n[1]): n = len(v[1])
        return plus(base, n)
    def size(self, c):
        if type(c) is tuple and c[:1] == ("list",) and len(c) in (2, 3): return self.length(c, None)
        if is_app(c, "vec"): return c[2]
        if is_app(c, "tri"): return c[2]
        if is_app(c, "first"): return c[3]
        return app("std::vector::size", c)
    def assigned(self, n, st, fr):
        """locations of integer variables that are counted up"""
        r = []
        for x in walk(n):
            t = strip_casts(x["x"]) if x.get("k") == "Asg" and x["op"] == "+=" else strip_casts(x["e"]) if x.get("k") == "Un" and x["op"] == "++" else None
            if t is not None and t.get("k") in ("Ref", "Mem") and ("int" in t.get("t", "") or "long" in t.get("t", "") or "double" in t.get("t", "") or "float" in t.get("t", "")):
                if t["k"] == "Ref" and t["w"] in ("local", "param"):
                    f = self.frame_of(t["i"], fr)
                    l = f.refs.get(t["i"], ("L", f.uid, t["i"]))
                elif t["k"] == "Mem" and fr_this(fr) and strip_casts(t.get("b") or {"k": "This"}).get("k") == "This":
                    l = fr_this(fr) + (t["q"],)
                else:
                    continue
                if l in st and l not in r: r.append(l)
        return r
    def appended(self, n, st, fr):
        """containers that are appended to"""
        r = []
        for x in walk(n):
            if x.get("k") == "MCall" and short(x.get("fn", "")) in ("push_back", "emplace_back"):
                t = strip_casts(x.get("o") or {})
                if t.get("k") == "Ref" and t["w"] in ("local", "param"):
                    f = self.frame_of(t["i"], fr)
                    l = f.refs.get(t["i"], ("L", f.uid, t["i"]))
                elif t.get("k") == "Mem" and fr_this(fr) and strip_casts(t.get("b") or {"k": "This"}).get("k") == "This":
                    l = fr_this(fr) + (t["q"],)
                else: continue
                if l not in r: r.append(l)
        return r
    def once(self, binder, body, n, st, fr, outs, setup):
        depth = sum(1 for x in self.loops if x[0] == binder)
        bid = binder if not depth else binder + (depth,)
        at = self.here(n, fr)
        s0 = dict(st)
        ctrs = []
        for l in self.assigned(body, st, fr):
            v = st[l]
            ctrs.append(l)
            s0[l] = ("ctr", l, bid)
        start = {}
        curs = {}
        for l in self.overwritten(body, st, fr):
            v = st.get(l, UNK)
            if l in ctrs or type(v) is tuple and v != UNK and v[:1] not in (("app",), ("cur",)): continue
            curs[l] = v
            s0[l] = ("cur", l, bid)
        for k, v in st.items():
            if type(v) is tuple and v[:1] == ("list",):
                start[k] = v
                s0[k] = ("list", frozenset(), v, bid)
        for k in self.appended(body, st, fr):
            if k not in start:
                v = self.value_of(st, k)
                if type(v) is tuple and v[:1] in (("sym",), ("copyof",)):
                    v = ("sym", v[1])
                    start[k] = ("list", frozenset(), v)
                    s0[k] = ("list", frozenset(), v, bid)
        s1 = setup(s0, bid)
        self.loops.append((binder, at))
        try:
            paths = []
            for o in self.st(body, s1, fr):
                if o[0] in ("next", "cont"):
                    s2 = o[2]
                    paths.append(s2)
                elif o[0] == "brk":
                    paths.append({**o[2], ("#brk",): at})
                else:
                    outs.append((o[0], o[1], {**o[2], ("#left", bid): at}))
        finally:
            self.loops.pop()
        return [("next", None, self.merge_loop(st, s1, paths, bid, ctrs, start, at, curs))]
    def scan(self, l, paths, gs, bid, curs):
        """the largest of the values seen (and what was noted along with it), or None"""
        cur = ("cur", l, bid)
        flip = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}
        neg = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}
        others = [c for c in curs if c != l]
        groups, strict = [], set()
        for p, g in zip(paths, gs):
            mine = [(t, v) for t, v in g if mentions_term(t, cur)]
            up, X = False, None
            for t, v in mine:
                while type(t) is tuple and t[:1] == ("not",): t, v = t[1], not v
                if not (type(t) is tuple and t[:1] == ("app",) and t[1] in flip and len(t) == 4): return None
                op = t[1] if v else neg[t[1]]
                a, b = t[2], t[3]
                if a == cur: op, a, b = flip[op], b, a
                if b != cur or mentions_term(a, cur): return None
                if op in (">", ">="): up, X = True, a; strict.add(op == ">")
                else: strict.add(op == "<=")
            rest = g - frozenset(mine)
            if up:
                if p.get(l) != X or len(mine) != 1: return None
                groups.append(((bid,), rest, X, {c: p.get(c) for c in others if p.get(c) != ("cur", c, bid)}))
            elif is_app(p.get(l), "maxof") and p[l][2] == cur and not mine:
                strict.add(p[l][4])
                for b2, g2, x in p[l][3]:
                    groups.append(((bid,) + b2, rest | g2, x, {c: p[c] for c in others if p.get(c) != ("cur", c, bid)}))
            elif p.get(l) != cur or any(p.get(c) != ("cur", c, bid) for c in others if any(c in x[3] for x in groups)): return None
        if not groups or len(strict) != 1: return None
        noted = set().union(*[set(x[3]) for x in groups])
        if any(set(x[3]) != noted for x in groups): return None
        st = strict.pop()
        def start(c): return curs[c] if curs[c] != UNK else ("uninit",)
        out = {l: app("maxof", start(l), simplify3({x[:3] for x in groups}), st)}
        for c in noted:
            g = set()
            for b, gg, X, n in groups:
                y = n[c]
                if len(b) > 1:
                    if not (is_app(y, "argmax") and y[2] == ("cur", c, bid)): return None
                    g |= {((bid,) + b2, (gg - g2) | g2, X2, Y2) for b2, g2, X2, Y2 in y[3]}
                else: g.add((b, gg, X, y))
            out[c] = app("argmax", start(c), simplify3(g), st)
        return out
    def overwritten(self, n, st, fr):
        """simple variables that are assigned"""
        r = []
        inside = {v["i"] for x in walk(n) if x.get("k") == "Decl" for v in x["d"]}
        for x in walk(n):
            if x.get("k") == "Asg" and x["op"] == "=":
                t = strip_casts(x["x"])
                if t.get("k") != "Ref" or t["w"] not in ("local", "param") or t.get("t", "").replace("const ", "") not in ("double", "float", "int", "bool", "size_t", "unsigned long", "long", "unsigned int", "Eigen::Index", "std::size_t"): continue
                f = self.frame_of(t["i"], fr)
                l = f.refs.get(t["i"], ("L", f.uid, t["i"]))
                if l not in r and t["i"] not in inside: r.append(l)
        return r
    def merge_loop(self, st, s1, paths, bid, ctrs, start, at, curs=None):
        res = dict(st)
        dkeys = {k for k in s1 if k[0] == "D"}
        changed = {}
        broke = any(("#brk",) in p for p in paths)
        gs = []
        for p in paths:
            gs.append(frozenset((k[1], v) for k, v in p.items() if k[0] == "D" and k not in dkeys))
        if broke and all(("#brk",) in p or all(v == s1.get(k) for k, v in p.items() if k[0] not in ("D",)) for p in paths):
            # only the first element for which the loop ends has an effect
            G = simplify({(0, g) for p, g in zip(paths, gs) if ("#brk",) in p})
            G = frozenset(g for _, g in G)
            fb = bid + (("first", G),)
            if len(G) == 1 and len(next(iter(G))) == 1:
                (t, v), = next(iter(G))
                if is_app(t, "==" if v else "!=") and len(t) == 4 and bid[0] == "nz" and any(x == app("nzrow", bid) and not mentions_term(y, bid) for x, y in ((t[2], t[3]), (t[3], t[2]))): fb = bid
            m = {bid: fb}
            if fb != bid:
                paths = [{k: (subst(v, m) if k[0] != "D" else v) for k, v in p.items()} for p in paths]
                s1 = {k: (subst(v, m) if k[0] != "D" else v) for k, v in s1.items()}
                gs = [subst(g, m) for g in gs]
                bid = fb
            paths, gs = [{k: v for k, v in p.items() if k != ("#brk",)} for p in paths], gs
            broke = False
        scans = {}
        for l in curs or ():
            c = ("cur", l, bid)
            if any(mentions_term(g, c) for g in gs) or any(mentions_term(v, c) for p in paths for k, v in p.items() if k[0] != "D" and k != l and s1.get(k) != v) or any(v != c and mentions_term(v, c) for p in paths for v in (p.get(l),)):
                r = None if broke else self.scan(l, paths, gs, bid, curs)
                if r:
                    for k, v in r.items(): scans[k] = v
        for l in curs or ():
            c = ("cur", l, bid)
            def own(k, v): return k == l and is_app(v, "or") and v[2] == c and not mentions_term(v[3], c)
            used = any(mentions_term(g, c) for g in gs) or any(mentions_term(v, c) for p in paths for k, v in p.items() if k[0] != "D" and s1.get(k) != v and not own(k, v))
            if not used:
                s1 = {**s1, l: curs[l]}
                paths = [{**p, l: curs[l]} if p.get(l) == c else {**p, l: p[l][3] if curs[l] is False else app("or", curs[l], p[l][3])} if own(l, p.get(l)) else p for p in paths]
            elif l not in scans:
                scans[l] = UNK
        known = {k[0] for k in s1}
        for p in paths:
            for k, v in p.items():
                if k[0] in ("D", "#brk"): continue
                if s1.get(k) != v and (k in st or (len(k) > 1 and self.exists(k, st))):
                    changed.setdefault(k, None)
        counts = {}
        for l in ctrs:
            c = ("ctr", l, bid)
            ds = [self.delta(p.get(l), c) for p in paths]
            if not broke and None not in ds and any(type(d) is not int and not (type(d) is tuple and d[:1] == ("count",)) for d in ds):
                # a sum
                groups = set()
                for d, g in zip(ds, gs):
                    if d == 0: continue
                    if is_app(d, "sum"): groups |= {((bid,) + b2, g | g2, x) for b2, g2, x in d[2]}
                    else: groups.add(((bid,), g, d))
                b = st[l]
                v = app("sum", simplify3(groups))
                res = self.put(res, l, v if b == 0 else UNK if b == UNK else app("+", b, v))
                counts[c] = None
                changed.pop(l, None)
                continue
            groups, ok = set(), not broke
            for p, g in zip(paths, gs):
                d = self.delta(p.get(l), c)
                if d is None: ok = False
                elif d == 1: groups.add(((bid,), g))
                elif type(d) is tuple and d[:1] == ("count",):
                    groups |= {((bid,) + b2, g | g2) for b2, g2 in d[1]}
                elif d != 0: ok = False
            if not ok:
                res = self.put(res, l, UNK); counts[c] = None
                continue
            cnt = ("count", simplify(groups))
            b = st[l]
            counts[c] = app("+", b, ("run", cnt[1])) if type(b) is tuple and b[:1] == ("ctr",) else ("run", cnt[1])
            res = self.put(res, l, b if not cnt[1] else cnt if b == 0 else UNK if b == UNK else app("+", b, cnt))
            changed.pop(l, None)
        for k in start:
            # how far a list has grown when an iteration begins
            c = ("lctr", k, bid)
            vals = [p.get(k, s1.get(k)) for p in paths]
            if broke or not all(type(v) is tuple and v[:1] == ("list",) for v in vals): counts[c] = None; continue
            grp = simplify({((bid,) + b2, g | g2) for v, g in zip(vals, gs) for b2, g2, pl in v[1]})
            counts[c] = ("run", grp) if grp else 0
        for l, v in scans.items():
            counts[("cur", l, bid)] = None
            res = self.put(res, l, v)
            changed.pop(l, None)
        sub = lambda t: subst(t, counts)
        for k in changed:
            old = s1.get(k)
            vals = [p.get(k, old) for p in paths]
            if k[0] == "#evs":
                res[k] = frozenset().union(*[v for v in vals if v])
                continue
            if type(k[0]) is str and k[0].startswith("#") and k[0] not in ("#",):
                if not (type(old) is tuple and old[:1] == ("list",)):
                    res[k] = next(v for v in vals if v != old)
                    continue
            idx = k[-1] if type(k[-1]) is tuple and k[-1][:1] == ("idx",) else None
            if idx is not None:
                groups = set(); base = k[:-1]
                o = old if old is not None else self.load_default(k, st, None)
                for p, g in zip(paths, gs):
                    v = p.get(k)
                    if v is None or v == old: continue
                    if v == UNK:
                        groups.add(("set", (bid,), g, idx[1], UNK)); continue
                    d = plus(v, o)
                    groups.add(("acc", (bid,), g, sub(idx[1]), sub(d)) if d is not None else ("set", (bid,), g, sub(idx[1]), sub(v)))
                res.pop(k, None)
                b = res.get(base)
                if broke: res = self.put(res, base, UNK)
                else: res = self.put(res, base, self.update(b if b is not None else ("sym", base), simplify5(groups)))
                continue
            if type(old) is tuple and old[:1] == ("list",) or old is None and any(type(v) is tuple and v[:1] == ("list",) for v in vals):
                groups = set()
                bad = broke
                for v, g in zip(vals, gs):
                    if v is None: continue
                    if not (type(v) is tuple and v[:1] == ("list",)):
                        bad = True; continue
                    for b2, g2, pl in v[1]:
                        groups.add(((bid,) + b2, g | frozenset((sub(t), x) for t, x in g2), sub(pl)))
                prev = start.get(k, EMPTY)
                res = self.put(res, k, UNK if bad else ("list", added(prev[1], simplify3(groups))) + prev[2:])
                continue
            if is_app(old, "vec") or is_app(old, "upd") or any(is_app(v, "vec") or is_app(v, "upd") for v in vals):
                # updated by an inner loop
                groups, bad = set(), broke
                for v, g in zip(vals, gs):
                    if v == old: continue
                    extra = grown(old, v) if old is not None else (v[3] if is_app(v, "upd") and v[2] == ("sym", k) else None)
                    if extra is None: bad = True; continue
                    groups |= {(kind, (bid,) + b2, g | frozenset((sub(t), x) for t, x in g2), sub(i), sub(d)) for kind, b2, g2, i, d in extra}
                o = st.get(k, ("sym", k))
                res = self.put(res, k, UNK if bad else self.update(o, simplify5(groups)))
                continue
            consts = (int, float, bool)
            new = {hashable(v) for v in vals if v != old}
            if len(new) == 1 and not broke and type(old) in consts and type(next(iter(new))) in consts:
                v = next(iter(new))
                groups = simplify({((bid,), g) for w, g in zip(vals, gs) if w != old})
                t = app("any", groups)
                res = self.put(res, k, t if (old, v) == (False, True) else app("choose", t, v, old))
                continue
            if type(old) is tuple and old[:1] == ("cur",) and not broke and all(v is True or is_app(v, "or") and v[2] == old and is_app(v[3], "any") for v in new):
                # set somewhere in a nested loop
                groups = set()
                for w, g in zip(vals, gs):
                    if w is True: groups.add(((bid,), g))
                    elif w != old: groups |= {((bid,) + b2, g | g2) for b2, g2 in w[3][2]}
                res = self.put(res, k, app("or", old, app("any", simplify(groups))))
                continue
            if is_app(next(iter(new)), "any") and not broke and old is False and all(is_app(v, "any") for v in new):
                groups = set()
                for w, g in zip(vals, gs):
                    if w != old: groups |= {((bid,) + b2, g | g2) for b2, g2 in w[2]}
                res = self.put(res, k, app("any", simplify(groups)))
                continue
            res = self.put(res, k, UNK)
        return res
    def exists(self, k, st):
        """part of an object that outlives the iteration"""
        for i in range(1, len(k)):
            if k[:i] in st: return True
        return k[0] in ("this", "arg", "G") or (type(k[0]) is str and any(x[0] == k[0] for x in st if type(x) is tuple))
    def delta(self, v, c):
        if v == c: return 0
        if is_app(v, "+") and v[2] == c and not mentions_term(v[3], c): return v[3]
        if is_app(v, "+") and v[3] == c and not mentions_term(v[2], c): return v[2]
        if is_app(v, "+"):
            a, b = self.delta(v[2], c), v[3]
            if type(a) is int and type(b) is int: return a + b
            if a is not None and not mentions_term(b, c): return app("+", a, b)
        return None
    def update(self, c, groups):
        if is_app(c, "vec"): return app("vec", c[2], c[3], c[4] | groups)
        if is_app(c, "upd"): return app("upd", c[2], c[3] | groups)
        return app("upd", c, groups)
    # ---- calls
    def prim(self, n, name, ol, args, st, fr):
        k, sh = n["k"], short(name)
        val = lambda i: hashable(self.val(args[i], st))
        here = lambda: hashable(self.value_of(st, ol))
        me = here() if ol is not None else None
        if type(me) is tuple and me[:1] == ("nzit",):
            b = me[1]
            if sh in ("row", "col", "value", "index", "valueRef"):
                if sh == "col" and b[2] is not None: return [(b[2], st)]
                return [(app({"index": "nzrow", "valueRef": "nzvalue"}.get(sh, "nz" + sh), b), st)]
            return [(("ref", ol), st)] if k == "OpCall" else None
        if k == "Ctor" and "InnerIterator" in name and len(args) >= 2:
            return [(("nz", val(0), val(1)), st)]
        if name.startswith("Eigen::") or k == "OpCall" and name.split("::")[0] == "Eigen":
            r = self.eig(n, name, sh, ol, me, args, st, val)
            if r is not None: return r
        if k == "Ctor" and name == "std::vector::vector":
            real = [i for i, a in enumerate(n["a"]) if a.get("k") != "DefArg" and not a.get("t", "").startswith("std::allocator")]
            if not real: return [(EMPTY, st)]
            if len(real) <= 2 and ("int" in n["a"][0].get("t", "") or "long" in n["a"][0].get("t", "")):
                fill = val(1) if len(real) == 2 else 0
                return [(app("vec", val(0), fill, frozenset()), st)]
        if k == "MCall" and ol is not None and name.startswith("std::vector::"):
            if sh in ("reserve", "shrink_to_fit"): return [(None, st)]
            if sh in ("push_back", "emplace_back"):
                pl = tuple(val(i) for i in range(len(args)))
                pl = pl[0] if len(pl) == 1 else ("tuple",) + pl
                v = me
                if not (type(v) is tuple and v[:1] == ("list",)): v = ("list", frozenset()) + ((ol,) if v != UNK else ())
                if UNK == me: return [(None, st)]
                return [(("ref", ol), self.put(st, ol, v[:1] + (added(v[1], {((), frozenset(), pl)}),) + v[2:]))]
            if sh == "clear": return [(None, self.put(st, ol, EMPTY))]
            if sh == "size" and is_app(me, "vec"): return [(me[2], st)]
            if sh == "size" and type(me) is tuple and me[:1] == ("list",): return [(self.length(me, ol), st)]
            if sh == "at": return [(("ref", ol + (("idx", val(0)),)), st)]
            if sh == "resize" and len(args) <= 2:
                return [(None, self.put(st, ol, app("vec", val(0), val(1) if len(args) > 1 and n["a"][1].get("k") != "DefArg" else 0, frozenset())))]
        if ol is not None and not args and sh in ("operator->", "operator*", "get") and ("_ptr" in name):
            if type(me) is tuple and me[:1] in (("ptr",), ("ref",)): return [(me, st)]
            l = me[1] if type(me) is tuple and me[:1] == ("sym",) else ol
            return [(("ref" if sh == "operator*" else "ptr", l + ("*",)), st)]
        if k == "Ctor" and name == "std::complex::complex" and args:
            im = val(1) if len(args) > 1 else 0
            return [(val(0) if im == 0 else UNK if UNK in (val(0), im) else app("complex", val(0), im), st)]
        if k == "Ctor" and name == "Eigen::Triplet::Triplet" and len(args) == 3:
            return [(("tuple", val(0), val(1), val(2)), st)]
        return super().prim(n, name, ol, args, st, fr)
    def eig(self, n, name, sh, ol, me, args, st, val):
        k = n["k"]
        if k == "Ctor":
            t = n.get("t", "")
            if "SelfAdjointEigenSolver" in name:
                return [(("solver", val(0)), st)] if args else None
            if len(args) == 2 and not eigen(n["a"][0].get("t", "")): return [(app("zero", val(0), val(1)), st)]
            if len(args) == 1 and not eigen(n["a"][0].get("t", "")) and ("int" in n["a"][0]["t"] or "long" in n["a"][0]["t"]): return [(app("zero", val(0), 1), st)]
            if len(args) == 1: return [(val(0), st)]
            if not args: return [(app("zero", 0, 0), st)]
            return None
        if type(me) is tuple and me[:1] == ("solver",):
            if sh == "eigenvalues": return [(app("evals", me[1]), st)]
            if sh == "eigenvectors": return [(app("evecs", me[1]), st)]
            if sh == "compute": return [(("ref", ol), self.put(st, ol, ("solver", val(0))))]
            return None
        if k == "OpCall":
            op = n["op"]
            mem = ol is not None
            vs = ([me] if mem else []) + [val(i) for i in range(len(args))]
            ts = [a.get("t", "") for a in n["a"]]
            if op == "=": return [(("ref", ol), self.put(st, ol, vs[1]))]
            if UNK in vs:
                return [(("ref", ol), self.put(st, ol, UNK))] if op.endswith("=") and op not in ("==", "!=", "<=", ">=") else [(UNK, st)]
            both = len(vs) == 2 and eigen(ts[0]) and eigen(ts[1])
            if op in ("*", "*="):
                v = (self.prod(vs[0], vs[1]) if both else app("*", vs[1], vs[0]) if eigen(ts[0]) else app("*", vs[0], vs[1]))
            elif op in ("/", "/="):
                v = app("*", app("/", 1, vs[1]), vs[0])
            elif op in ("+", "-", "+=", "-="):
                v = app(op[0], vs[0], vs[1]) if len(vs) == 2 else app("neg", vs[0]) if op == "-" else vs[0]
            elif op in ("()", "[]") and mem:
                ix = vs[1] if len(vs) == 2 else ("tuple",) + tuple(vs[1:])
                return [(("ref", ol + (("idx", ix),)), st)]
            else:
                return None
            if op.endswith("="): return [(("ref", ol), self.put(st, ol, v))]
            return [(v, st)]
        if k == "MCall" and ol is not None:
            dims = {"rows": rows, "cols": cols, "outerSize": cols, "innerSize": rows}
            if sh in dims: return [(dims[sh](me), st)]
            if sh == "size": return [(rows(me) if cols(me) == 1 or "Matrix" in n.get("ot", "") and ", 1," in n.get("ot", "") else app("*", rows(me), cols(me)), st)]
            if sh in ("adjoint", "transpose", "conjugate"): return [(app({"adjoint": "adj", "transpose": "tr", "conjugate": "conj"}[sh], me), st)]
            if sh == "diagonal": return [(app("diag", me), st)]
            if sh == "asDiagonal": return [(app("asdiag", me), st)]
            if sh == "cwiseAbs": return [(app("abs", me), st)]
            if sh == "real": return [(app("real", me), st)]
            if sh in ("cast", "eval", "derived", "pruned", "sparseView", "noalias", "toDense", "nestedExpression"):
                return [(("ref", ol) if sh in ("noalias", "derived") else me, st)]
            if sh in ("reserve", "makeCompressed", "finalize", "prune", "data", "uncompress"): return [(None, st)]
            if sh == "setZero": return [(("ref", ol), self.put(st, ol, app("zero", rows(me), cols(me))))]
            if sh == "setIdentity": return [(("ref", ol), self.put(st, ol, app("identity", rows(me), cols(me))))]
            if sh in ("resize", "conservativeResize"): return [(None, self.put(st, ol, app("zero", val(0), val(1) if len(args) > 1 else 1)))]
            if sh == "setFromTriplets":
                l = val(0)
                if type(l) is tuple and l[:1] == ("iter",):
                    c = self.value_of(st, l[1])
                    return [(None, self.put(st, ol, UNK if c == UNK else app("tri", rows(me), cols(me), c)))]
                return [(None, self.put(st, ol, UNK))]
            if sh in ("insert", "coeffRef", "coeff"):
                ix = val(0) if len(args) == 1 else ("tuple", val(0), val(1))
                return [(("ref", ol + (("idx", ix),)), st)]
            if sh in ("swap",) and args and args[0][0] == "l":
                a, b = me, val(0)
                return [(None, self.put(self.put(st, ol, b), args[0][1], a))]
        return None

def mentions_term(t, c):
    if t == c: return True
    return type(t) in (tuple, frozenset) and any(mentions_term(x, c) for x in t)

def subst(t, m, memo=None):
    if type(t) is not tuple and type(t) is not frozenset: return t
    if not m: return t
    if memo is None: memo = {}
    r = memo.get(id(t))
    if r is not None: return r[1]
    if t in m: v = m[t] if m[t] is not None else UNK
    else:
        v = [subst(x, m, memo) for x in t]
        v = t if all(a is b for a, b in zip(v, t)) else type(t)(v)
    memo[id(t)] = (t, v)
    return v

def plus(v, o):
    """v - o when v is o plus something"""
    if is_app(v, "+"):
        if v[2] == o: return v[3]
        if v[3] == o: return v[2]
    if is_app(v, "-") and v[2] == o: return app("neg", v[3])
    return None

def grown(a, b):
    if is_app(a, "vec") and is_app(b, "vec") and a[2:4] == b[2:4] and a[4] <= b[4]: return b[4] - a[4]
    if is_app(a, "upd") and is_app(b, "upd") and a[2] == b[2] and a[3] <= b[3]: return b[3] - a[3]
    if is_app(b, "upd") and b[2] == a: return b[3]
    return None

def _simp(groups, gi):
    """conditions on which nothing depends are dropped"""
    groups = set(groups)
    again = True
    while again:
        again = False
        for a in list(groups):
            for t, x in a[gi]:
                o = a[:gi] + ((a[gi] - {(t, x)}) | {(t, not x)},) + a[gi + 1:]
                if o in groups:
                    groups -= {a, o}
                    groups.add(a[:gi] + (a[gi] - {(t, x)},) + a[gi + 1:])
                    again = True
                    break
            if again: break
        if not again:
            for a in list(groups):
                if any(b is not a and b != a and b[:gi] == a[:gi] and b[gi + 1:] == a[gi + 1:] and b[gi] < a[gi] for b in groups):
                    groups.discard(a); again = True
            # a or (not a and b) = a or b
            if not again:
                for a in list(groups):
                    for b in list(groups):
                        if a is b or b[:gi] != a[:gi] or b[gi + 1:] != a[gi + 1:]: continue
                        for t, x in b[gi]:
                            if len(a[gi]) and (t, not x) in a[gi] and (a[gi] - {(t, not x)}) <= (b[gi] - {(t, x)}):
                                groups.discard(b); groups.add(b[:gi] + (b[gi] - {(t, x)},) + b[gi + 1:])
                                again = True; break
                        if again: break
                    if again: break
    return frozenset(groups)
def added(old, new):
    """the elements of a list are kept as a set; one that is there already is marked"""
    out = set(old)
    for g in sorted(new, key=repr):
        while g in out: g = (g[0], g[1], ("twice", g[2]))
        out.add(g)
    return frozenset(out)
def simplify(groups): return _simp(groups, 1)
def simplify3(groups): return _simp(groups, 1)
def simplify5(groups): return _simp(groups, 2)

# ------------------------------------------------------------------ normal form of matrix terms
def cj(c):
    return c if type(c) in (int, float) else c[2] if is_app(c, "conj") else app("conj", c)

def nf(m, canon=lambda x: x):
    """set of (scalar factors, matrix factors) with integer multiplicity"""
    out = {}
    def add(d, k, c):
        d[k] = d.get(k, 0) + c
    def go(m, flags):
        # flags: subset of {'t','c'}: transposed / conjugated
        if is_app(m, "adj"): return go(m[2], flags ^ {"t", "c"})
        if is_app(m, "tr"): return go(m[2], flags ^ {"t"})
        if is_app(m, "conj"): return go(m[2], flags ^ {"c"})
        if is_app(m, "@"):
            a, b = go(m[2], flags), go(m[3], flags)
            if "t" in flags: a, b = b, a
            d = {}
            for (s1, f1), c1 in a.items():
                for (s2, f2), c2 in b.items():
                    add(d, (tuple(sorted(s1 + s2, key=repr)), f1 + f2), c1 * c2)
            return d
        if is_app(m, "+") or is_app(m, "-"):
            d = dict(go(m[2], flags))
            for k, c in go(m[3], flags).items(): add(d, k, c if m[1] == "+" else -c)
            return d
        if is_app(m, "neg"):
            return {k: -c for k, c in go(m[2], flags).items()}
        if is_app(m, "*"):
            s = m[2]
            if "c" in flags: s = cj(s)
            d = {}
            for (s1, f1), c1 in go(m[3], flags).items():
                if type(s) in (int, float): add(d, (s1, f1), c1 * s)
                else: add(d, (tuple(sorted(s1 + (s,), key=repr)), f1), c1)
            return d
        if is_app(m, "zero"): return {}
        return {((), ((canon(m), frozenset(flags)),)): 1}
    for k, c in go(m, frozenset()).items():
        if c: out[k] = c
    return frozenset(out.items())

def same_mat(a, b): return nf(a) == nf(b)
