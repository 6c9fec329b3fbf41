"""Archives (pickling, saving systems and states): each archive function of each class is interpreted over its syntax
tree, once for writing and once for reading and for every kind of archive, helper functions included. The sequence of
quantities that pass through the archive must be the same for both directions, and every data member, own or inherited,
must be among them on every path or be set up anew while reading. For matrices the number of rows, columns and entries
must be those of the matrix that is written, the matrix read must be given these sizes (in this order) before its
entries arrive, and every array must have the length its count says."""
from core import *
from facts import *
import re
FLOORS = {"classes": 12, "members": 60, "matrices": 12}
ARCH = re.compile(r"(Input|Output)Archive &$")

def direction(t):
    m = ARCH.search(t)
    return m and {"Input": "load", "Output": "save"}[m[1]]

class Path:
    def __init__(s): s.seq, s.sets, s.cond, s.env, s.ev, s.lost = [], set(), [], {}, [], set()
    def copy(s):
        p = Path(); p.seq, p.sets, p.cond, p.env, p.ev, p.lost = list(s.seq), set(s.sets), list(s.cond), dict(s.env), list(s.ev), set(s.lost)
        return p

class Arch:
    """interprets an archive function; quantities are terms ("f", member) | ("base", class) | ("loc", name, value) ..."""
    def __init__(s, prog, f):
        s.prog, s.f, s.depth = prog, f, 0
    def run(s):
        p = Path()
        ps = s.params(s.f)
        if not ps: raise AnalysisError(f"{loc(s.f, s.f)}: archive function without parameters")
        p.env[ps[0]["i"]] = ("archive",)
        for q in ps[1:]: p.env[q["i"]] = ("arg", q["n"])
        return [x for x, _ in s.stmt(p, s.f["body"])]
    def params(s, f): return f["p"]
    def und(s, n, why=""):
        raise AnalysisError(f"{s.f['f']}:{n.get('l', '?')}: {s.f['fn']}: {why or 'construct'} not understood ({n.get('k')} {n.get('fn', '')})")

    # ---- statements: list of (path, ended)
    def stmt(s, p, n):
        k = n["k"]
        if k == "Block":
            cur, done = [(p)], []
            for x in n["s"]:
                nxt = []
                for q in cur:
                    for r, end in s.stmt(q, x): (done if end else nxt).append(r)
                cur = nxt
            return [(q, False) for q in cur] + [(q, True) for q in done]
        if k == "Decl":
            for v in n["d"]:
                if v["k"] != "Var": continue
                p.env[v["i"]] = s.expr(p, v["init"]) if v.get("init") else ("undef", v["n"])
            return [(p, False)]
        if k == "If":
            c = s.expr(p, n["c"])
            if c[0] == "c": return s.stmt(p, n["x"] if c[1] else n["y"]) if c[1] or n.get("y") else [(p, False)]
            q = p.copy()
            p.cond.append((c, True)); q.cond.append((c, False))
            return s.stmt(p, n["x"]) + (s.stmt(q, n["y"]) if n.get("y") else [(q, False)])
        if k == "Return":
            if n.get("e"): s.expr(p, n["e"])
            return [(p, True)]
        if k == "RFor": return s.rangefor(p, n)
        if k in ("For", "While", "DoWhile"):
            if s.eachelement(p, n): return [(p, False)]
            s.und(n, "loop")
        if k in ("Null", "Static", "Using"): return [(p, False)]
        s.expr(p, n)
        return [(p, False)]

    def rangefor(s, p, n):
        v, rng = n.get("v"), n.get("r")
        t = s.expr(p, rng) if rng else ("?",)
        if t[0] != "f" or not v: s.und(n, "loop")
        q = p.copy()
        q.env[v["i"]] = ("each", t)
        for r, end in s.stmt(q, n["body"]):
            if end or r.cond != p.cond: s.und(n, "loop with conditions")
            if r.seq[:len(p.seq)] == p.seq and len(r.seq) == len(p.seq) + 1 and r.seq[-1][0] == ("each", t) and fixed(s.type(rng)):
                p.seq.append((t, "")); return [(p, False)]
        s.und(n, "loop")

    def eachelement(s, p, n):
        """loops over all elements: for (i = 0; i < size; ++i) ar(data[i]), with counters or pointers"""
        k, q = n["k"], p.copy()
        if k == "For":
            if n.get("init"):
                r = s.stmt(q, n["init"])
                if len(r) != 1: return False
        c = strip_casts(n["c"]) if n.get("c") else {"k": ""}
        if k == "DoWhile" or c["k"] not in ("Bin", "OpCall") or c.get("op") not in ("<", "!="): return False
        x, y = (c["x"], c["y"]) if c["k"] == "Bin" else c["a"]
        x = strip_casts(x)
        if x["k"] != "Ref" or x.get("i") not in q.env: return False
        v = x["i"]
        start, end = q.env[v], s.expr(q, y)
        q.env[v] = ("counter",)
        body = n["body"]["s"] if n["body"]["k"] == "Block" else [n["body"]]
        step = [m for m in body + ([n["inc"]] if n.get("inc") else []) if isinc(m, v)]
        if len(step) != 1: return False
        if not n.get("inc"):
            if step[0] is not body[-1]: return False
        elif step[0] is not n["inc"]: return False
        for m in body:
            if m is step[0]: continue
            rs = s.stmt(q, m)
            if len(rs) != 1 or rs[0][1]: return False
            q = rs[0][0]
        new = q.seq[len(p.seq):]
        if len(new) != 1 or q.env.get(v) != ("counter",): return False
        t = new[0][0]
        if t[0] == "at" and t[2] == ("counter",): t = ("elements", t[1], start, end)
        elif t == ("*", ("counter",)):
            if canon(end)[0] != "+" or start not in end[1:]: return False
            t = ("elements", start, ("c", 0), [z for z in end[1:] if z != start][0])
        else: return False
        p.seq.append((t, new[0][1]))
        return True

    def type(s, n): return n.get("t", "")

    # ---- expressions
    def expr(s, p, n):
        n0 = n
        n = strip_casts(n)
        k = n["k"]
        if "cval" in n: return ("c", int(n["cval"])) if re.fullmatch(r"-?\d+", str(n["cval"])) else ("c", n["cval"])
        if k in ("Int", "Bool"): return ("c", int(n["v"]))
        if k == "Str": return ("str", n["v"])
        if k == "SizeOf": return ("sizeof", n["ty"])
        if k == "This": return ("this",)
        if k == "Cast" and n.get("v") is not None: return ("c", n["v"])
        if n.get("n") == "IsRowMajor":
            o = re.search(r"SparseMatrix<.*, (\d+), \w+>", s.f["p"][1]["t"] if len(s.f["p"]) > 1 else "")
            if o: return ("c", int(o[1]) & 1)
        if k == "Ref": return p.env.get(n.get("i"), ("g", n["n"])) if n["w"] != "field" else ("f", n["n"])
        if k == "Mem":
            b = s.expr(p, n["b"])
            if b == ("this",): return ("f", n["n"])
            return ("mem", b, n["n"])
        if k == "Sub": return ("at", s.expr(p, n["b"]), s.expr(p, n["x"]))
        if k == "Un":
            v = s.expr(p, n["e"])
            if n["op"] == "*" and v == ("this",): return v
            if n["op"] == "*": return ("*", v) if v[0] != "f" else ("f", v[1], "*")
            if n["op"] == "!" and v[0] == "c": return ("c", int(not v[1]))
            return (n["op"], v)
        if k == "Bin":
            x = s.expr(p, n["x"])
            if n["op"] == "&&" and x[0] == "c": return s.expr(p, n["y"]) if x[1] else ("c", 0)
            if n["op"] == "||" and x[0] == "c": return ("c", 1) if x[1] else s.expr(p, n["y"])
            y = s.expr(p, n["y"])
            if n["op"] == "&&" and y == ("c", 0): return y
            if n["op"] == ",": return y
            if n["op"] in ("*", "+") and repr(y) < repr(x): x, y = y, x
            return (n["op"], x, y)
        if k == "Cond":
            c = s.expr(p, n["c"])
            if c[0] == "c": return s.expr(p, n["x"] if c[1] else n["y"])
            return ("?:", c, s.expr(p, n["x"]), s.expr(p, n["y"]))
        if k == "Asg":
            t, v = s.expr_lhs(p, n["x"]), s.expr(p, n["y"])
            s.assign(p, t, v, n["op"]); return v
        if k == "OpCall":
            if n["op"] in ("&", "()", "<<", ">>"):
                a = [s.expr(p, x) for x in n["a"]]
                if a[0] == ("archive",):
                    for x in a[1:]: s.archive(p, x, n)
                    return a[0]
                if ("archive",) in a[1:]: return s.inline(p, n, n["a"])
                return ("op", n["op"]) + tuple(a)
            if n["op"] == "=":
                t, v = s.expr_lhs(p, n["a"][0]), s.expr(p, n["a"][1])
                s.assign(p, t, v, "="); return v
            a = [s.expr(p, x) for x in n["a"]]
            if n["op"] == "[]": return ("at", a[0], a[1])
            if n["op"] == "*" and len(a) == 1: return ("f", a[0][1], "*") if a[0][0] == "f" else ("*", a[0])
            if n["op"] == "->": return a[0]
            return ("op", n["op"]) + tuple(a)
        if k == "Call":
            fn = n["fn"].split("<")[0]
            a = [s.expr(p, x) for x in n["a"]]
            if fn == "cereal::make_nvp": return ("nvp", a[0], a[1])
            if fn == "cereal::binary_data": return ("bytes", a[0], a[1])
            if fn in ("cereal::make_size_tag",): return ("size", a[0])
            if fn in ("cereal::defer", "std::move", "std::forward", "std::ref", "std::as_const") and len(a) == 1: return a[0]
            if ("archive",) in a: return s.inline(p, n, n["a"])
            return ("call", fn) + tuple(a)
        if k == "MCall":
            fn = n["fn"]
            o = s.expr(p, n["o"])
            a = [s.expr(p, x) for x in n["a"]]
            if ("archive",) in a: return s.inline(p, n, n["a"], o)
            if o == ("archive",):
                if fn.endswith("operator()") or fn.endswith("operator&"):
                    for x in a: s.archive(p, x, n)
                    return o
                s.und(n, "use of the archive")
            nm = fn.split("::")[-1]
            if o[0] == "arg": p.ev.append(("m", nm) + tuple(a))
            if o[0] == "f" and nm in ("clear", "erase", "resize", "reset", "swap", "setZero", "insert", "assign", "pop_back"):
                if any(x[:2] == o[:2] for x, _ in p.seq): p.lost.add(o[1])
            if o == ("this",) and not n.get("const"): return s.own(p, n, a)
            return ("m", o, nm) + tuple(a)
        if k == "Ctor":
            a = [s.expr(p, x) for x in n["a"]]
            fn = n["fn"]
            if fn.startswith("cereal::base_class") or fn.startswith("cereal::virtual_base_class"):
                return ("base", re.sub(r"<.*", "", (n.get("t") or "").split("<", 1)[1]))
            if len(a) == 1: return a[0]
            return ("new", fn) + tuple(a)
        if k == "InitList": return ("list", re.sub(r"<.*", "", n.get("t", ""))) + tuple(s.expr(p, x) for x in n["a"])
        if k == "Lambda": return ("lambda",)
        return ("?", k, n0.get("l"))
    def expr_lhs(s, p, n):
        n = strip_casts(n)
        if n["k"] == "Ref" and n["w"] != "field": return ("loc", n["i"])
        return s.expr(p, n)
    def assign(s, p, t, v, op):
        if t[0] == "loc": p.env[t[1]] = v if op == "=" else (op, p.env.get(t[1]), v)
        elif t[0] == "f":
            if any(x[:2] == t[:2] for x, _ in p.seq): p.lost.add(t[1])
            p.sets.add(t[1])
    def archive(s, p, x, n):
        name = ""
        if x[0] == "nvp": name, x = x[1][1] if x[1][0] == "str" else "", x[2]
        if x[0] in ("?", "lambda", "op"): s.und(n, "archived quantity")
        p.seq.append((x, name))
        # a local number read from an archive gets the value that was written at this place
        if x[0] == "undef":
            for i, v in list(p.env.items()):
                if v == x: p.env[i] = ("read", len(p.seq) - 1)
    def own(s, p, n, a):
        """a member function called for its effect on the object"""
        g = s.prog.fns.get(n.get("u")) if n.get("u") else None
        if g is None or not g.get("body") or s.depth > 6: return ("call", n["fn"])
        q = p.copy()
        for prm, v in zip(g["p"], a): q.env[prm["i"]] = v
        s.depth += 1
        rs = s.stmt(q, g["body"])
        s.depth -= 1
        for r, _ in rs:
            if r.seq != p.seq: s.und(n, "helper that archives")
            p.sets |= r.sets; p.lost |= r.lost
        return ("call", g["fn"])
    def inline(s, p, n, args, o=None):
        g = s.prog.fns.get(n.get("u")) if n.get("u") else None
        if g is None or not g.get("body") or s.depth > 6: s.und(n, "function that gets the archive")
        q = p.copy(); saved = dict(p.env)
        for prm, a in zip(g["p"], args): q.env[prm["i"]] = s.expr(p, a)
        s.depth += 1
        rs = s.stmt(q, g["body"])
        s.depth -= 1
        if len(rs) != 1: s.und(n, "helper with several paths")
        r = rs[0][0]
        p.seq, p.sets, p.cond, p.ev, p.lost = r.seq, r.sets, r.cond, r.ev, r.lost
        p.env.update({i: v for i, v in r.env.items() if i in saved and v != saved[i]})
        return ("call", g["fn"])

def isinc(n, v):
    n = strip_casts(n)
    e = n["e"] if n["k"] == "Un" and n["op"] == "++" else n["x"] if n["k"] == "Asg" and n["op"] == "+=" and strip_casts(n["y"]).get("v") in (1, "1") else None
    e = strip_casts(e) if e else None
    return bool(e) and e["k"] == "Ref" and e.get("i") == v
def fixed(t): return t.replace("const ", "").startswith("std::array<") or re.search(r"\[\d+\]$", t)

def show(t):
    if type(t) is not tuple: return str(t)
    if t[0] == "f": return t[1]
    if t[0] == "m": return f"{show(t[1])}.{t[2]}(" + ", ".join(map(show, t[3:])) + ")"
    if t[0] == "arg": return t[1]
    if t[0] == "read": return f"number {t[1] + 1} read"
    if t[0] == "c": return str(t[1])
    return f"{t[0]}(" + ", ".join(map(show, t[1:])) + ")"

ENTRY = ("serialize", "save", "load", "CEREAL_SERIALIZE_FUNCTION_NAME")

def run(rep):
    prog = Program(all_tus() + ["driver:instantiate"])
    fs = [f for f in prog.fns.values() if f["fn"].split("::")[-1] in ENTRY and not f.get("dep") and f.get("body") and f["p"] and direction(f["p"][0]["t"])]
    # ---------------- classes
    groups = {}
    for f in fs:
        if not f.get("cls") or f["cls"] == "ArrayData": continue
        c = re.sub(r"#.*", "", f["cls"])
        groups.setdefault(c, []).append(f)
    bycls = {}
    for c in prog.classes.values(): bycls.setdefault(c["q"], []).append(c)
    for cn, gs in sorted(groups.items()):
        rep.count("classes")
        cds = [c for c in bycls.get(cn, []) if c.get("flds") is not None]
        if not cds: raise AnalysisError(f"class {cn} not found")
        fields = {}
        for c in cds:
            for x in c["flds"]:
                if not x.get("static"): fields[x["n"]] = x
        bases = {re.sub(r"<.*", "", b.get("q") or b["t"]) for c in cds for b in c.get("bases", [])}
        inherited = {}
        for b in bases:
            for c in bycls.get(b, []):
                for x in c["flds"]: inherited.setdefault(b, {})[x["n"]] = x
        runs = {}
        for f in gs:
            rep.count("archive functions"); runs[f["u"]] = (f, Arch(prog, f).run())
        def covered(ps, name, where):
            inall = all(any(t[:2] == ("f", name) for t, _ in p.seq) for p in ps)
            if inall: return True
            return where == "load" and any(name in p.sets for p in ps)
        loads = [(f, ps) for f, ps in runs.values() if direction(f["p"][0]["t"]) == "load"]
        saves = [(f, ps) for f, ps in runs.values() if direction(f["p"][0]["t"]) == "save"]
        if not loads or not saves: raise AnalysisError(f"{cn}: writing or reading of archives is never used")
        for f, ps in loads:
            w = loc(f, f)
            for name in fields:
                rep.count("members")
                rep.check(covered(ps, name, "load"), f"{cn}:{name}", f"{cn}: {name} is restored from archives", f"{w}: {name} of a {cn} is not restored when it is read from an archive ({f['p'][0]['t']})")
            for b, fl in inherited.items():
                whole = all(any(t == ("base", b) for t, _ in p.seq) for p in ps)
                for name in fl:
                    rep.count("members")
                    rep.check(whole or covered(ps, name, "load"), f"{cn}:{b}:{name}", f"{cn}: {name} of the base {b} is restored", f"{w}: {name}, inherited by {cn} from {b}, is not restored when it is read from an archive")
        # both directions: same sequence
        for f, ps in loads:
            for g, qs in saves:
                if kindof(f) != kindof(g) or sameclass(f) != sameclass(g): continue
                a, b = {seqkey(p) for p in ps}, {seqkey(p) for p in qs}
                rep.check(a == b, f"{cn}:order:{kindof(f)}", f"{cn}: written and read in the same order ({kindof(f)})", f"{loc(f, f)}: {cn} is read in another order than it is written ({kindof(f)} archive): {diff(a, b)}")
        for f, ps in loads + saves:
            for p in ps:
                rep.check(not p.lost, f"{cn}:lost", f"{cn}: what was read is kept", f"{loc(f, f)}: {sorted(p.lost)} of a {cn} is changed after it was read")
                nm = [n for _, n in p.seq if n]
                rep.check(len(nm) == len(set(nm)), f"{cn}:names", f"{cn}: every entry has its own name", f"{loc(f, f)}: {cn} uses one name for several entries")
                rep.check(len({t for t, _ in p.seq}) == len(p.seq), f"{cn}:once", f"{cn}: nothing is archived twice", f"{loc(f, f)}: {cn} archives the same member twice")
    # ---------------- matrices
    free = [f for f in fs if not f.get("cls")]
    arr = [f for f in fs if f.get("cls") == "ArrayData"]
    for f in free: matrix(rep, prog, f, free)
    for f in arr: array(rep, prog, f)

def kindof(f): return re.search(r"(\w+?)(Input|Output)Archive", f["p"][0]["t"])[1]
def sameclass(f): return re.sub(r"@F@.*", "", f["u"])
def seqkey(p): return (tuple(p.seq), tuple(p.cond)) if any(c for c in p.cond if any(x in repr(c) for x in ())) else tuple(p.seq)
def diff(a, b):
    x, y = sorted(a - b or a)[:1], sorted(b - a or b)[:1]
    f = lambda z: ", ".join(show(t) for t, _ in z[0]) if z else "-"
    return f"{f(x)} / {f(y)}"[:400]

def matrix(rep, prog, f, free):
    t = f["p"][1]["t"]
    if "Eigen::" not in t: return
    if direction(f["p"][0]["t"]) != "load": return
    w = loc(f, f)
    g = [x for x in free if x["p"][1]["t"] == t and direction(x["p"][0]["t"]) == "save" and kindof(x) == kindof(f)]
    if not g: raise AnalysisError(f"{w}: no function writes {t}")
    L, S = Arch(prog, f).run(), Arch(prog, g[0]).run()
    if len(L) != 1 or len(S) != 1: raise AnalysisError(f"{w}: archiving of matrices depends on conditions")
    L, S = L[0], S[0]
    rep.count("matrices")
    m = ("arg", f["p"][1]["n"]); mS = ("arg", g[0]["p"][1]["n"])
    key = f"{'sparse' if 'Sparse' in t else 'dense'}:{kindof(f)}"
    written = [x for x, _ in S.seq]
    def ren(x): return m if x == mS else tuple(ren(y) for y in x) if type(x) is tuple else x
    written = [ren(x) for x in written]
    def subst(x):
        if type(x) is not tuple: return x
        if x[:1] == ("read",): return written[x[1]] if x[1] < len(written) else x
        return tuple(subst(y) for y in x)
    # the undefined local itself stands for the number read at this place
    read = [written[i] if x[0] == "undef" and i < len(written) else subst(x) for i, (x, _) in enumerate(L.seq)]
    read, written = [canon(x) for x in read], [canon(x) for x in written]
    rep.check(read == written and [n for _, n in L.seq] == [n for _, n in S.seq], f"{key}:sequence", f"{key} matrices are read as they are written", f"{w}: {t}: reading expects {[show(x) for x in read]}, written are {[show(x) for x in written]}")
    ev = [canon(subst(x)) for x in L.ev]
    M = lambda nm: ("m", m, nm)
    names = [x[1] for x in ev]
    def same(x, *alts): return x in alts
    if "Sparse" in t:
        rowmajor = re.search(r"SparseMatrix<.*, (\d+), \w+>", t)[1] == "1"
        rows, cols = (M("outerSize"), M("innerSize")) if rowmajor else (M("innerSize"), M("outerSize"))
        nnz = M("nonZeros")
        rs = [x for x in ev if x[1] == "resize"]
        rep.check(len(rs) == 1 and same(rs[0][2], rows, M("rows")) and same(rs[0][3], cols, M("cols")), f"{key}:size", f"{key}: the matrix read gets the rows and columns of the written one", f"{w}: {t}: the matrix read is resized to {[tuple(map(show, x[2:])) for x in rs]}, not to the rows and columns that were written")
        rn = [x for x in ev if x[1] in ("resizeNonZeros",)]
        rep.check(len(rn) == 1 and rn[0][2] == nnz and names.index("resizeNonZeros") > names.index("resize") if rs else False, f"{key}:entries", f"{key}: room for as many entries as were written", f"{w}: {t}: no room is made for the entries that are read")
        sw = {x[2][2]: x[3] for x in written if x[0] == "list" and x[1] == "ArrayData" and x[2][0] == "m" and x[2][1] == m}
        want = {"innerIndexPtr": [nnz], "valuePtr": [nnz], "outerIndexPtr": [bin_plus(M("outerSize"))] + ([bin_plus(M("cols"))] if not rowmajor else [bin_plus(M("rows"))])}
        for nm, lens in want.items():
            rep.check(sw.get(nm) in lens, f"{key}:{nm}", f"{key}: {nm} is archived completely", f"{w}: {t}: {nm} is archived with length {show(sw.get(nm, ('nothing',)))}")
        sev = [x[1] for x in S.ev]
        rep.check("makeCompressed" in sev and all(sev.index("makeCompressed") < sev.index(x) for x in ("nonZeros",) if x in sev), f"{key}:compressed", f"{key}: matrices are compressed before they are written", f"{loc(g[0], g[0])}: {t} is written without being compressed first")
        order(rep, w, key, L, ("resize", "resizeNonZeros"), ("innerIndexPtr", "valuePtr", "outerIndexPtr"))
        bad = [x for x in names if x in ("setZero", "data") or x.startswith("reserve") or x == "setIdentity"]
        rep.check(not bad, f"{key}:kept", f"{key}: nothing read is discarded", f"{w}: {t}: {bad} discards what was read")
    else:
        rs = [x for x in ev if x[1] in ("resize", "conservativeResize")]
        rep.check(len(rs) == 1 and rs[0][2:] == (M("rows"), M("cols")), f"{key}:size", f"{key}: the matrix read gets the rows and columns of the written one", f"{w}: {t}: the matrix read is resized to {[tuple(map(show, x[2:])) for x in rs]}")
        ok = [x for x in written if x[0] == "list" and x[2] == M("data") and x[3] in (("*",) + tuple(sorted((M("rows"), M("cols")), key=repr)), M("size"))]
        rep.check(len(ok) == 1, f"{key}:data", f"{key}: all entries are archived", f"{w}: {t}: not all entries are archived")
        order(rep, w, key, L, ("resize",), ("data",))

def canon(x):
    if type(x) is not tuple: return x
    x = tuple(canon(y) for y in x)
    return (x[0],) + tuple(sorted(x[1:], key=repr)) if x[:1] in (("*",), ("+",)) else x
def bin_plus(x):
    a, b = sorted((x, ("c", 1)), key=repr)
    return ("+", a, b)
def order(rep, w, key, L, before, after):
    nm = [x[1] for x in L.ev]
    ok = all(b in nm and a in nm and max(i for i, x in enumerate(nm) if x == b) < min(i for i, x in enumerate(nm) if x == a) for b in before for a in after)
    rep.check(ok, f"{key}:ready", f"{key}: the storage is laid out before it is filled", f"{w}: the storage of the matrix is handed to the archive before it has its size")

def array(rep, prog, f):
    w = loc(f, f)
    ps = Arch(prog, f).run()
    rep.count("matrices")
    sz, data = ("f", "size"), ("f", "data")
    el = re.search(r"ArrayData<(.*), \w+>", f.get("u", "")) 
    for p in ps:
        seq = [x for x, _ in p.seq]
        ok = len(seq) == 2 and seq[0] == ("size", sz)
        if ok:
            x = seq[1]
            if x[0] == "elements": ok = x[1:] == (data, ("c", 0), sz)
            elif x[0] == "bytes": ok = x[1] == data and x[2][0] == "*" and sz in x[2][1:] and any(y[0] == "sizeof" for y in x[2][1:])
            else: ok = False
        rep.check(ok and not p.cond, f"array:{kindof(f)}", "arrays: all elements are archived, after their number", f"{w}: arrays are archived as {[show(x) for x in seq]}")
