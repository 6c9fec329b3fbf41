"""Static race detection over the parallel loops: every access made in the body of a parallel loop, at any call
depth, is recorded with the access path of the object, the critical sections that are certainly entered and,
for elements of an array, the index as a polynomial of the loop counters. What is written and shared between
iterations must be protected by one common critical section in all its uses, or be elements of an array whose
indices provably differ between any two iterations (i*K + r with 0 <= r < K by the bounds of the inner loops);
the bits of a vector<bool> share memory and never count as distinct. What is printed goes through one common
section, too. A typestate pass demands that an identifier is looked up in and registered with the database in
one and the same critical section."""
from core import *
from facts import *
import core, re

FLOORS = {"parallel loops": 8, "shared locations written": 8, "accesses": 500, "registrations": 4}
STRUCT = {"size", "empty", "begin", "end", "cbegin", "cend", "data", "capacity", "length"}

# ------------------------------------------------------------------ polynomials over ints: {monomial: coeff}
def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0: del r[m]
    return r
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for k, d in b.items():
            x = tuple(sorted(m + k)); r[x] = r.get(x, 0) + c * d
    return {m: c for m, c in r.items() if c}
def const(v): return {(): v} if v else {}

def poly(n, ctx, keep, depth=0):
    """the index as a polynomial; keep: ids of variables that stay symbols"""
    if n is None or depth > 30: return None
    n = strip_casts(n)
    k = n.get("k")
    if k == "Int": return const(int(n["v"]))
    if k == "Ref":
        if n["w"] == "enum" or n.get("cval") is not None and re.fullmatch(r"-?\d+", str(n.get("cval"))): return const(int(n["cval"])) if n.get("cval") is not None else None
        if n.get("i") in keep: return {(n["i"],): 1}
        b = find_binding(n.get("i"), ctx)
        if b and b[0] == "arg": return poly(b[1], b[2], keep, depth + 1)
        if b and b[0] == "defs" and len(b[1]) == 1 and b[1][0][0] == "init" and b[1][0][1] is not None:
            t = b[1][0][2].get("t", "")
            if not is_ref_type(t) or is_const_type(t):
                r = poly(b[1][0][1], b[2], keep, depth + 1)
                if r is not None: return r
        return {("v:" + str(n.get("i", n.get("q"))),): 1}
    if k == "Bin" and n["op"] in ("+", "-", "*"):
        a, b = poly(n["x"], ctx, keep, depth + 1), poly(n["y"], ctx, keep, depth + 1)
        if a is None or b is None: return None
        return pmul(a, b) if n["op"] == "*" else padd(a, b, 1 if n["op"] == "+" else -1)
    if k == "Un" and n["op"] in ("-", "+"):
        a = poly(n["e"], ctx, keep, depth + 1)
        return None if a is None else padd({}, a, -1 if n["op"] == "-" else 1)
    if k in ("Mem", "MCall", "Call", "OpCall"):
        if k == "MCall" and short(n.get("fn")) != "size": return None
        p = path(n["o"] if k == "MCall" else n, ctx)
        if p is None or any(isinstance(x, Elem) for x in p): return None
        return {(("size:" if k == "MCall" else "p:") + ".".join(p),): 1}
    if k == "Ctor" and len(n.get("a", [])) == 1: return poly(n["a"][0], ctx, keep, depth + 1)
    return None

class Region:
    def __init__(self, n, ctx, fn):
        self.n, self.fn = n, fn
        b = n.get("body") or {}
        while b.get("k") == "Block" and len(b.get("s", [])) == 1: b = b["s"][0]
        if b.get("k") != "For": raise AnalysisError(f"{loc(fn, n)}: the parallel loop is not a counting loop")
        self.var = counter(b)
        if not self.var: raise AnalysisError(f"{loc(fn, n)}: counter of the parallel loop not understood")
        self.inside = {v["i"] for v in walk(b) if v.get("k") == "Var"} | {x["i"] for v in walk(b) if v.get("k") == "Var" for x in v.get("bind", [])}
        self.private = set(); self.reduction = set()
        for c in n.get("cl", []):
            ids = {x.get("i") for x in walk(c) if isinstance(x, dict) and x.get("i")}
            if c["c"] in ("private", "firstprivate", "lastprivate", "linear"): self.private |= ids
            elif c["c"] == "reduction": self.reduction |= ids
            elif c["c"] in ("schedule", "shared", "default", "num_threads", "if", "collapse", "nowait", "ordered", "proc_bind"):
                if c["c"] == "collapse": raise AnalysisError(f"{loc(fn, n)}: collapsed loops are not understood")
        self.written = {t for x in walk(b) for t in targets(x)}
        self.acc = {}        # path -> list
    def symbols(self, ctx): return {self.var}
    def shared(self, p, ctx):
        r = p[0]
        if r == "this" or r.startswith("glob:"): return True
        if r.startswith("param:"): return True
        if r.startswith("local:"):
            i = r.rsplit("#", 2)[-2:]; i = "#".join(i)
            return i in self.outer and i not in self.private and i not in self.reduction
        return False

def targets(x):
    k = x.get("k")
    if k == "Asg": t = strip_casts(x["x"])
    elif k == "Un" and x["op"] in ("++", "--"): t = strip_casts(x["e"])
    else: return
    if t.get("k") == "Ref": yield t["i"]

def counter(f):
    """id of the counter of a loop `for (T i = a; i < b; ++i)`"""
    d = f.get("init") or {}
    v = d["d"][0] if d.get("k") == "Decl" and len(d.get("d", [])) == 1 else None
    inc = strip_casts(f.get("inc") or {})
    if v is None and d.get("k") == "Asg": i = strip_casts(d["x"]).get("i")
    else: i = v and v["i"]
    if inc.get("k") == "Un" and inc["op"] in ("++", "--"): t = strip_casts(inc["e"])
    elif inc.get("k") == "Asg" and inc["op"] in ("+=", "-="): t = strip_casts(inc["x"])
    else: return None
    return i if t.get("i") == i else None

class Races(Client):
    """state: (region number or None, critical sections, database lookup: None/'fresh'/'stale', statement texts)"""
    max_depth = 18
    def __init__(self, rep, fn):
        self.rep, self.fn = rep, fn
        self.regions = []
        self.loops = []
    def on_omp(self, s, n, enter, ctx):
        d = n["d"]
        if d in ("parallel for", "for", "parallel", "for simd", "parallel for simd"):
            if d != "parallel for": raise AnalysisError(f"{loc(ctx.owner(), n)}: 'omp {d}' is not understood")
            if not enter: return ((None, frozenset(), None, s[3]),)
            if s[0] is not None: raise AnalysisError(f"{loc(ctx.owner(), n)}: nested parallel loop")
            k = next((i for i, r in enumerate(self.regions) if r.n is n), None)
            if k is None:
                k = len(self.regions)
                r = Region(n, ctx, ctx.owner())
                r.outer = {v["i"] for v in walk(ctx.fn["body"]) if v.get("k") == "Var"} - r.inside
                r.outer |= {x["i"] for v in walk(ctx.fn["body"]) if v.get("k") == "Var" for x in v.get("bind", [])} - r.inside
                self.regions.append(r)
            return ((k, frozenset(), None, s[3]),)
        if d == "critical":
            name = ("critical", n.get("name") or "")
            if enter:
                if name in s[1]: self.rep.bad(f"deadlock:{self.fn['fn']}:{name[1]}", f"{loc(ctx.owner(), n)}: critical({name[1]}) is entered within itself: deadlock")
                return ((s[0], s[1] | {name}, s[2], s[3]),)
            return ((s[0], s[1] - {name}, "stale" if s[2] else None, s[3]),)
        if d in ("simd", "barrier", "flush"): return (s,)
        raise AnalysisError(f"{loc(ctx.owner(), n)}: 'omp {d}' is not understood")
    # -------------------------------------------------- accesses
    def rec(self, s, n, p, ctx, kind):
        if s[0] is None or not p: return
        r = self.regions[s[0]]
        self.rep.count("accesses")
        if not r.shared(p, ctx): return
        if kind == "r" and n.get("k") == "MCall" and short(n.get("fn")) in STRUCT: kind = "s"
        key = (pstr(p), tuple(p))
        form = self.form(r, p, ctx)
        r.acc.setdefault(tuple(map(str, p)), {})[(kind, s[1], form, loc(ctx.owner(), n), n.get("ct") if 0 else "")] = ctx.owner().get("fn")
    def form(self, r, p, ctx):
        """for the first element step: ('e', injective normal form) | ('bits',) | None"""
        for x in p:
            if x == "[]":
                if not isinstance(x, Elem): return None
                ct = x.ct
                if "vector<bool" in ct: return ("bits",)
                if re.search(r"(^|[ :])(unordered_)?(multi)?map<|(^|[ :])(unordered_)?(multi)?set<", ct.split("<")[0] + "<"): return ("keyed",)
                if x.ix is None or x.ix[0] is None: return None
                return self.normal(r, *x.ix)
        return None
    def normal(self, r, ix, ctx):
        bounds = {}
        c = ctx
        while c is not None:
            if c.fn.get("body"):
                for f in walk(c.fn["body"]):
                    if f.get("k") == "For" and counter(f): bounds[counter(f)] = (f, c)
            c = c.lex or c.parent
        keep = {r.var} | set(bounds)
        P = poly(ix, ctx, keep)
        if P is None: return None
        K = {tuple(x for j, x in enumerate(m) if j != m.index(r.var)): c for m, c in P.items() if m.count(r.var) == 1}
        if any(m.count(r.var) > 1 for m in P) or not K: return None
        rest = {m: c for m, c in P.items() if r.var not in m}
        names = {x for q in (K, rest) for m in q for x in m}
        inner = {x for m in rest for x in m if x in bounds and x in r.inside}
        if any(x in r.inside and x not in inner for x in names) or any(x[2:] in r.inside or x[2:] in r.written for x in names if x.startswith("v:")): return None
        if any(x in r.inside for m in K for x in m): return None
        if any(x.split(":", 1)[1].split(".")[0].rsplit("#", 2)[-2:] and "#".join(x.split(":", 1)[1].split(".")[0].rsplit("#", 2)[-2:]) in r.inside for x in names if x.startswith(("size:", "p:"))): return None
        fz = lambda q: frozenset(q.items())
        if not rest and set(K) == {()}: return ("e", fz(K), "in") if abs(K[()]) == 1 else ("e", fz(K), fz(rest))
        if not inner:
            if set(K) == {()}: return ("e", fz(K), fz(rest))
            if not rest: return ("e?", fz(K))
            return None
        # rest ranges over [0, K)?
        if len(inner) == 1 and rest == {(next(iter(inner)),): 1}:
            f, c = bounds[next(iter(inner))]
            d = (f.get("init") or {}).get("d")
            lo = poly(d[0].get("init"), c, keep) if d else None
            cond = strip_casts(f.get("c") or {})
            inc = strip_casts(f.get("inc") or {})
            if lo == {} and inc.get("op") == "++" and cond.get("k") == "Bin":
                x, y, op = cond["x"], cond["y"], cond["op"]
                if op in (">", ">="): x, y, op = y, x, {">": "<", ">=": "<="}[op]
                hi = poly(y, c, keep) if strip_casts(x).get("i") in inner else None
                if hi is not None and op in ("<", "<=", "!="):
                    if op == "<=": hi = padd(hi, const(1))
                    if hi == K: return ("e", fz(K), "in")
        return None
    def on_read(self, s, n, p, ctx):
        self.rec(s, n, p, ctx, "r"); return (s,)
    def on_write(self, s, n, p, rhs, ctx):
        self.rec(s, n, p, ctx, "w")
        return (self.text(s, n, p),)
    def after_call(self, s, n, ctx, inlined):
        # function objects may change when they are called
        if not inlined and n["k"] == "OpCall" and n["op"] == "()" and n.get("mem") and not n.get("const") and not n.get("lam"):
            p = path(n["a"][0], ctx)
            if p: self.rec(s, n, p, ctx, "w")
        return (s,)
    # -------------------------------------------------- lookup and registration
    def text(self, s, n, p):
        if n.get("k") == "OpCall" and n.get("op") == "<<" and len(n["a"]) == 2:
            v = strip_casts(n["a"][1])
            if v.get("k") == "Str" and str(p) not in dict(s[3]) and re.match(r"\s*[A-Z]{4,}", v["v"]):
                return (s[0], s[1], s[2], s[3] | {(str(p), v["v"].split()[0])})
        if n.get("k") == "MCall" and short(n.get("fn")) == "str" and n.get("a"):
            return (s[0], s[1], s[2], frozenset(x for x in s[3] if x[0] != str(p)))
        return s
    def on_decl(self, s, v, ctx):
        q = str((f"local:{v['n']}#{v['i']}",))
        return ((s[0], s[1], s[2], frozenset(x for x in s[3] if x[0] != q)),)
    def before_call(self, s, n, ctx):
        if n["k"] == "MCall" and n.get("fn") == "sqlite::statement::step" and s[0] is not None and any(v == "SELECT" for _, v in s[3]):
            s = (s[0], s[1], "fresh", s[3])
        if n["k"] == "MCall" and n.get("fn") in ("sqlite::statement::exec", "sqlite::statement::set", "sqlite::statement::prepare") and s[0] is not None and n.get("a"):
            for m in walk(n["a"][0]):
                verb = None
                if m.get("k") == "MCall" and short(m.get("fn")) == "str": verb = dict(s[3]).get(str(path(m["o"], ctx)))
                elif m.get("k") == "Str": verb = (m["v"].split() or [""])[0]
                if verb == "INSERT":
                    r = self.regions[s[0]]
                    self.rep.count("registrations")
                    self.rep.check(s[2] == "fresh" and bool(s[1]), f"register:{r.fn['fn']}", f"{loc(ctx.owner(), n)}: registered in the critical section of the lookup",
                        f"{loc(ctx.owner(), n)}: {r.fn['fn']} registers a new identifier outside the critical section in which the existing one was looked up: two threads may register the same settings")
        return (s,)

def overlap(a, b):
    k = min(len(a), len(b))
    return a[:k] == b[:k]

def disjoint(fa, fb, pa, pb):
    if "[]" not in pa or "[]" not in pb or pa.index("[]") != pb.index("[]"): return False
    return bool(fa) and fa == fb and fa[0] == "e"

def judge(rep, r):
    name = f"{r.fn['fn']} ({loc(r.fn, r.n)})"
    items = [(p, a, where) for p, d in r.acc.items() for a in d for where in (a[3],)]
    done = set()
    for p, (kind, locks, form, at, _), _ in items:
        if kind != "w": continue
        rep.count("shared locations written")
        for q, (k2, l2, f2, at2, _), _ in items:
            if not overlap(p, q): continue
            if k2 == "s" and len(p) > len(q): continue
            fine = bool(locks & l2) or disjoint(form, f2, p, q)
            if fine: continue
            key = (pstr(p), pstr(q))
            if key in done: continue
            done.add(key)
            why = " (the bits of a vector<bool> share memory)" if form == ("bits",) or f2 == ("bits",) else ""
            rep.bad(f"race:{r.fn['fn']}:{pstr(p)}", f"{at}: {pstr(p)} is written in the parallel loop at {loc(r.fn, r.n)} (" + (", ".join(sorted(x[1] for x in locks)) or "no critical section") + f") and {'written' if k2 == 'w' else 'read'} at {at2} (" + (", ".join(sorted(x[1] for x in l2)) or "no critical section") + f"){why}: iterations race")
        rep.ok(f"{at}: {pstr(p)}", None)

def run(rep):
    prog = Program(all_tus())
    core.GETTERS = prog
    try:
        where = {}
        for f in prog.fns.values():
            if f.get("dep") or not f.get("body"): continue
            for n in walk(f["body"]):
                if n.get("k") == "OMP" and n["d"].startswith(("parallel", "for", "task", "section")): where[f["u"]] = f
        if not where: raise AnalysisError("no parallel loop found")
        for f in where.values():
            c = Races(rep, f)
            Walker(prog, c).run(f, {(None, frozenset(), None, frozenset())})
            rep.note(f"{loc(f)} {f["fn"]}: {len(c.regions)} parallel loops")
            for r in c.regions:
                rep.count("parallel loops")
                judge(rep, r)
    finally:
        core.GETTERS = None
