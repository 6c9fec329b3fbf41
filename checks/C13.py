"""Typestate analysis of the serialised form a Hamiltonian matrix keeps. Its states: empty, current (describes
the two matrices), stale (the matrices changed since), foreign (bytes from outside that were not decoded
yet). Every function that can touch the matrices or the bytes is walked over all its paths with the helpers
it calls: on every normal and exceptional exit the kept bytes must be empty or current, and whatever hands
the bytes out (returned, hashed, written to a file) must see them current and present. Bytes from outside
become current only by decoding them into both matrices."""
from core import *
from facts import *
FLOORS = {"functions": 25, "changes of the matrices": 20, "uses of the bytes": 4}
CLS = "Hamiltonianmatrix"
QUERY = ("empty", "size", "capacity", "max_size", "begin", "end", "cbegin", "cend", "reserve", "shrink_to_fit")

class T(Client):
    max_depth = 12
    def __init__(self, rep, f, M, B):
        self.rep, self.f, self.M, self.B = rep, f, M, B
        self.uses = 0
        self.changes = set()
    def inline(self, fn, node, ctx):
        return bool(fn.get("body")) and not fn.get("impl") and fn["fn"] not in ("Serializer::save", "Serializer::load")
    # state: frozenset of (root, typestate); default clean
    def get(self, s, r):
        return dict(s).get(r, "empty" if r in self.fresh else "clean")
    fresh = ()
    def set(self, s, r, v):
        return frozenset(x for x in s if x[0] != r) | {(r, v)}
    def which(self, p):
        for i, x in enumerate(p):
            if x in self.M: return p[:i], "M", p[i:]
            if x == self.B: return p[:i], "B", p[i:]
        return None, None, None
    def on_write(self, s, n, p, rhs, ctx):
        r, w, rest = self.which(p)
        if w == "M":
            self.changes.add((loc(ctx.owner(), n), rest[0]))
            t = self.get(s, r)
            if t in ("clean", "full"):
                s = self.set(s, r, "stale")
            elif t.startswith("foreign:"):
                s = self.set(s, r, "foreign:" + "".join(sorted(set(t[8:]) | {str(self.M.index(rest[0]))})))
        elif w == "B":
            sh = short(n.get("fn", ""))
            if n.get("k") == "MCall" and len(rest) == 1 and (sh == "clear" or sh == "resize" and strip_casts(n["a"][0]).get("v") in (0, "0")):
                s = self.set(s, r, "empty")
            elif n.get("k") == "MCall" and sh in QUERY:
                pass
            elif self.encoder(n):
                self.uses += 1
                s = self.set(s, r, "full")
            elif rhs is not None and (n.get("k") == "OpCall" and n["op"] == "=" or not n.get("k")) and len(rest) == 1 and self.blank(rhs):
                s = self.set(s, r, "empty")
            else:
                s = self.set(s, r, "foreign")
        return (s,)
    def blank(self, n):
        n = strip_casts(n)
        return n.get("k") in ("Ctor", "InitList") and not n.get("a") and not n.get("flds")
    def encoder(self, n):
        return n.get("k") == "MCall" and n.get("fn") == "Serializer::save"
    def decoder(self, n):
        return n.get("k") == "MCall" and n.get("fn") == "Serializer::load"
    def before_call(self, s, n, ctx):
        # the two ends of the binary format are taken as a whole here (see the round trip property)
        if self.encoder(n) or self.decoder(n):
            for a in n["a"]:
                p = path(a, ctx)
                r, w, rest = self.which(p or ())
                if w == "B":
                    self.uses += 1
                    if self.encoder(n):
                        s = self.set(s, r, "full")
                    else:
                        t = self.get(s, r)
                        s = self.set(s, r, "foreign:" if t.startswith("foreign") else "own" if t != "stale" else t)
        elif n["k"] == "MCall" and short(n.get("fn")) in ("data", "front", "back", "at") or n["k"] == "OpCall" and n["op"] == "[]":
            pass
        return (s,)
    def on_read(self, s, n, p, ctx):
        r, w, rest = self.which(p)
        if w == "B":
            if n.get("k") == "MCall" and short(n.get("fn")) in QUERY:
                return (s,)
            if self.decoder(n) or self.encoder(n):
                return (s,)
            self.handed(s, r, n, ctx)
        return (s,)
    def handed(self, s, r, n, ctx):
        self.uses += 1
        t = self.get(s, r)
        if t.startswith("foreign") or t == "own":
            return
        self.rep.check(t == "full", f"outdated:{self.f['fn']}", f"{self.f['fn']}: the bytes handed out describe the matrices", f"{loc(ctx.owner(), n)}: {self.f['fn']} hands out bytes that {'may be empty' if t == 'empty' else 'may not describe the matrices any more' if t == 'stale' else 'may be missing'}")
    def on_return(self, s, n, ctx):
        e = n.get("e")
        if e is not None:
            p = path(e, ctx)
            r, w, rest = self.which(p or ())
            t = ctx.fn.get("t", "")
            if w == "M" and len(rest) == 1 and ctx.parent is None and t.endswith("&") and not t.startswith("const "):
                return self.on_write(s, n, p, None, ctx)    # the caller may change the matrix
            if w == "B" and len(rest) == 1 and ctx.parent is None:
                self.handed(s, r, n, ctx)
        return (s,)
    def on_node(self, s, n, ctx):
        # &bytes[0], bytes.data(): handed to somebody
        if n.get("k") in ("Un", "MCall") and (n["k"] == "Un" and n["op"] == "&" or short(n.get("fn", "")) == "data"):
            p = path(n["e"] if n["k"] == "Un" else n["o"], ctx)
            r, w, rest = self.which(p or ())
            if w == "B" and not self.written(n, ctx):
                self.handed(s, r, n, ctx)
        return (s,)
    def written(self, n, ctx):
        return id(n) in self.sinks
    sinks = ()
    def branch(self, s, cond, truth, ctx):
        c, t = strip_casts(cond), truth
        while c.get("k") == "Un" and c["op"] == "!":
            c, t = strip_casts(c["e"]), not t
        if c.get("k") == "Bin" and c["op"] in ("==", "!=", ">"):
            x, y = strip_casts(c["x"]), strip_casts(c["y"])
            z = lambda q: q.get("k") == "Int" and str(q.get("v")) == "0"
            m = x if z(y) else y if z(x) and c["op"] != ">" else None
            if m and m.get("k") == "MCall" and short(m.get("fn")) == "size":
                empty = t if c["op"] == "==" else not t
                return self.learn(s, m["o"], empty, ctx)
            return (s,)
        if c.get("k") == "MCall" and short(c.get("fn")) == "empty":
            return self.learn(s, c["o"], t, ctx)
        return (s,)
    def learn(self, s, o, empty, ctx):
        r, w, rest = self.which(path(o, ctx) or ())
        if w != "B":
            return (s,)
        t = self.get(s, r)
        if empty:
            return () if t == "full" else (self.set(s, r, "empty"),)
        if t == "empty": return ()
        return (self.set(s, r, "full" if t == "clean" else t),)

def run(rep):
    prog = Program(all_tus())
    cs = [c for c in prog.classes.values() if c["q"] == CLS and not c.get("dep")]
    if not cs:
        raise AnalysisError("class Hamiltonianmatrix not found")
    flds = {}
    for c in cs:
        for f in c.get("flds", []):
            flds[f["q"]] = f["t"]
    M = sorted(q for q, t in flds.items() if t.startswith("Eigen::SparseMatrix"))
    B = [q for q, t in flds.items() if t.startswith("std::vector<unsigned char")]
    if len(M) != 2 or len(B) != 1:
        raise AnalysisError(f"members of Hamiltonianmatrix: {flds}")
    names = set(M + B)
    fs = []
    for f in prog.fns.values():
        if f.get("dep") or not f.get("body") or f.get("impl") or f.get("kind") == "dtor":
            continue
        if f.get("cls") == CLS and f.get("acc", "public") == "public" or any(n.get("k") == "Mem" and n.get("q") in names for n in fn_nodes(f)):
            fs.append(f)
    for f in sorted(fs, key=lambda f: (f["f"], f["l"])):
        if f.get("acc") in ("private", "protected") and callers(prog, f):
            continue     # judged where it is called
        c = T(rep, f, M, B[0])
        c.sinks = sinks(f, prog)
        if f.get("kind") == "ctor":
            c.fresh = {("this",)}
        rep.count("functions")
        fl = Walker(prog, c).run(f, {frozenset()})
        rep.count("changes of the matrices", len(c.changes)); rep.count("uses of the bytes", c.uses)
        for how, S in (("returns", fl.n), ("throws", fl.t)):
            for s in S:
                for r, t in s:
                    if r and r[0].startswith("local:") and how == "throws":
                        continue
                    good = t in ("clean", "full", "empty", "own") or how == "returns" and t == "foreign:01"
                    rep.check(good, f"{'stale' if t == 'stale' else 'foreign'}:{f['fn']}", f"{loc(f)}: {f['fn']} {how} with bytes that are {('absent or current')}",
                              f"{loc(f)}: {f['fn']} {how} while the kept bytes " + ("still describe the matrices as they were before" if t == "stale" else "are not what the matrices contain"))

def callers(prog, f):
    for g in prog.fns.values():
        if g is not f:
            for n in fn_nodes(g):
                if n.get("u") == f["u"] and n.get("k") in ("Call", "MCall", "OpCall"):
                    return True
    return False

def sinks(f, prog):
    """&bytes[0] / bytes.data() given to something that writes there (fread, memcpy's target)"""
    r = set()
    for g in [f] + [x for x in prog.fns.values() if x.get("cls") == CLS]:
        for n in fn_nodes(g):
            if n.get("k") in ("Call", "MCall") and n.get("pt"):
                for a, t in zip(n["a"], n["pt"]):
                    if t.endswith("*") and not is_const_type(t) and not t.startswith("const "):
                        for x in walk(a):
                            r.add(id(x))
    return r
