"""Static lockset and typestate analysis of the shared element cache: on every path of every public
member function, each access to the stored elements happens while one common mutex that outlives the
call is held; no reference, pointer or iterator to stored elements leaves the class; an insertion
under an occupied key never replaces the element and never returns normally; stored elements are
removed by clear() only; no path locks a held mutex again or exits with a manually taken lock."""
from core import *
from locks import *

FLOORS = {"public methods": 3, "guarded accesses": 5}

INSERTERS = {"emplace", "insert", "try_emplace", "emplace_hint"}
FREE = {"reserve", "rehash", "max_load_factor"}

class C(LockClient):
    def __init__(self, rep, f, data, tag):
        super().__init__(rep)
        self.f, self.data, self.tag = f, data, tag
        self.accesses = {}     # node id -> [locksets]
        self.pendvar = {}
    # extra = (presence, insertion)   presence in {None,'absent','present'}; insertion in {'none','done','maybe','dup'}
    def on_release(self, s, m):
        return (s[0], (None, s[1][1]))
    def relock(self, s, n, m, ctx):
        if "recursive" in str(self.mtype(m)):
            return
        self.rep.bad(f"relock:{self.tag}", f"{loc(ctx.owner(), n)}: {self.f['fn']} locks {pstr(m)} while it already holds it (deadlock)")
    def mtype(self, m):
        return ""
    def isdata(self, p):
        return len(p) >= 2 and p[0] == "this" and p[1] in self.data
    def access(self, s, n, p, ctx, kind):
        if not self.isdata(p):
            return
        self.rep.count("guarded accesses")
        usable = frozenset(m for m in self.held(s) if not m[0].startswith(("local:", "tmp", "param:")))
        key = (loc(ctx.owner(), n), kind, pstr(p))
        self.accesses.setdefault(key, []).append(usable)
    def on_read(self, s, n, p, ctx):
        self.access(s, n, p, ctx, "read"); return (s,)
    def on_write(self, s, n, p, rhs, ctx):
        self.access(s, n, p, ctx, "write")
        if self.isdata(p):
            sh = short(n.get("fn", "")) if n.get("k") == "MCall" else ""
            op = n.get("op")
            pres, ins = s[1]
            where = loc(ctx.owner(), n)
            if n.get("k") == "MCall" and sh in INSERTERS:
                s = (s[0], ("present", "done" if pres == "absent" else ("maybe" if ins != "done" else ins)))
            elif n.get("k") == "MCall" and sh == "clear" or sh in FREE:
                pass
            elif n.get("k") == "MCall" and sh == "swap" or (n.get("k") == "OpCall" and op == "=" and len(p) == 2):
                # replacing the whole map: what clear() may do
                if short(self.f["fn"]) != "clear":
                    self.rep.bad(f"overwrite:{self.tag}", f"{where}: {self.f['fn']} replaces the whole store")
            elif n.get("k") == "OpCall" and op == "[]" and len(p) == 2:
                pass     # element access; the write through it is seen separately
            elif sh in ("erase", "extract", "merge"):
                if short(self.f["fn"]) != "clear":
                    self.rep.bad(f"remove:{self.tag}", f"{where}: {self.f['fn']} removes stored elements ({sh})")
            elif sh == "insert_or_assign" or len(p) > 2:
                if pres == "absent":
                    s = (s[0], ("present", "done"))
                else:
                    self.rep.bad(f"overwrite:{self.tag}", f"{where}: {self.f['fn']} may replace an element that is already stored ({sh or op or 'write'})")
            else:
                self.rep.note(f"{where}: unclassified mutation of the store by {n.get('fn') or op}")
        return (s,)
    def test(self, c, ctx):
        """(kind, polarity when true): presence/insertion facts a condition establishes."""
        c = strip_casts(c)
        if c["k"] in ("OpCall", "Bin") and c.get("op") in ("==", "!="):
            a, b = (c["a"] if c["k"] == "OpCall" else [c["x"], c["y"]])
            fns = []
            for x in (a, b):
                x = strip(self.chase(x, ctx))
                fns.append(short(x.get("fn", "")) if x.get("k") == "MCall" and self.isdata(path(x["o"], ctx) or ("",)) else "")
                if x.get("k") == "Int":
                    fns[-1] = "int" + x["v"]
            if set(fns) == {"find", "end"} or set(fns) == {"find", "cend"}:
                return ("presence", "absent" if c["op"] == "==" else "present")
            if "count" in fns and "int0" in fns:
                return ("presence", "absent" if c["op"] == "==" else "present")
            if "count" in fns and "int1" in fns:
                return ("presence", "present" if c["op"] == "==" else "absent")
            if c["op"] in ("==", "!="):
                for x, y in ((a, b), (b, a)):
                    y = strip_casts(y)
                    if y.get("k") == "Bool":
                        r = self.test(x, ctx)
                        if r:
                            flip = (c["op"] == "==") != bool(y["v"])
                            return (r[0], self.neg(r[1])) if flip else r
        if c["k"] == "Bin" and c.get("op") in (">", "<", ">=", "<="):
            for x, y, o in ((c["x"], c["y"], c["op"]), (c["y"], c["x"], {">": "<", "<": ">", ">=": "<=", "<=": ">="}[c["op"]])):
                x, y = strip(self.chase(x, ctx)), strip_casts(y)
                if x.get("k") == "MCall" and short(x.get("fn")) == "count" and y.get("k") == "Int":
                    if (o, y["v"]) in ((">", "0"), (">=", "1")):
                        return ("presence", "present")
                    if (o, y["v"]) in (("<", "1"), ("<=", "0")):
                        return ("presence", "absent")
        x = strip(self.chase(c, ctx))
        if x.get("k") == "MCall" and short(x.get("fn")) in ("count", "contains") and self.isdata(path(x["o"], ctx) or ("",)):
            return ("presence", "present")
        # emplace(...).second, or a local / structured binding of it
        if x.get("k") == "Mem" and x["n"] == "second":
            b = strip(self.chase(x["b"], ctx))
            if b.get("k") == "MCall" and short(b.get("fn")) in INSERTERS:
                return ("insert", "done")
        if c.get("k") == "Ref":
            b = find_binding(c["i"], ctx)
            if b and b[0] == "defs" and b[1][0][0] == "bind":
                init = strip(b[1][0][2].get("init") or {"k": "?"})
                if init.get("k") == "MCall" and short(init.get("fn")) in INSERTERS:
                    names = [y["n"] for y in b[1][0][2].get("bind", [])]
                    if len(names) == 2 and names[1] == c["n"]:
                        return ("insert", "done")
        return None
    def neg(self, v):
        return {"absent": "present", "present": "absent", "done": "dup", "dup": "done"}[v]
    def chase(self, n, ctx):
        for _ in range(12):
            n = strip(n)
            if n.get("k") == "Ref" and n["w"] in ("local", "param"):
                b = find_binding(n["i"], ctx)
                if b and b[0] == "arg":
                    n, ctx = b[1], b[2]; continue
                if b and b[0] == "defs" and len(b[1]) == 1 and b[1][0][0] == "init" and b[1][0][1]:
                    n = b[1][0][1]; continue
            if n.get("k") == "Un" and n["op"] == "!":
                return n
            return n
        return n
    def branch(self, s, c, truth, ctx):
        s = super().branch(s, c, truth, ctx)[0]
        neg = False
        x = self.chase(c, ctx)
        while x.get("k") == "Un" and x.get("op") == "!":
            neg = not neg
            x = self.chase(x["e"], ctx)
        r = self.test(x, ctx)
        if r:
            v = r[1] if truth != neg else self.neg(r[1])
            pres, ins = s[1]
            if r[0] == "presence":
                if pres and pres != v and ins != "done":
                    return ()
                s = (s[0], (v, ins))
            else:
                if ins == "maybe":
                    s = (s[0], ("present", v))
        return (s,)

def run(rep):
    prog = Program(["driver:instantiate", "QuantumDefect", "MatrixElementCache"])
    insts = prog.cls("Cache")
    allacc = []
    seen = set()
    for c in insts:
        muts = [f["q"] for f in c["flds"] if is_mutex_type(f["t"])]
        data = [f["q"] for f in c["flds"] if not is_mutex_type(f["t"]) and "atomic" not in f["t"] and "condition_variable" not in f["t"]]
        for f in c["flds"]:
            if f["q"] in data:
                rep.check(f["acc"] != "public", "exposed:" + f["q"], f"{f['q']} is not public", f"{c['f']}:{f['l']}: the store {f['q']} is public")
            if f.get("mut") and False:
                pass
        rep.count("instantiations")
        fns = [f for f in prog.fns.values() if f.get("clsu") == c["u"] and not f.get("impl") and f.get("kind") not in ("ctor", "dtor")]
        for f in fns:
            if f["acc"] != "public" or f.get("defaulted"):
                continue
            tag = f["fn"]
            rep.count("public methods")
            cl = C(rep, f, set(data), tag)
            w = Walker(prog, cl)
            out = w.run(f, [(frozenset(), (None, "none"))])
            t = f["t"]
            if is_ref_type(t) or t.endswith("*") or "iterator" in t or "reference_wrapper" in t:
                rep.bad("escape:" + tag, f"{loc(f)}: {tag} returns {t}: stored elements escape the lock")
            else:
                rep.ok(f"{tag} returns a value ({t[:60]})")
            for s in out.n | out.t:
                if any(h == "m" for _, h in s[0]):
                    rep.bad("leak:" + tag, f"{loc(f)}: a path leaves {tag} with a manually taken lock held")
            mutates = any(k[1] == "write" for k in cl.accesses)
            if any(s[1][1] != "none" for s in out.n | out.t):
                bad = [s for s in out.n if s[1][1] in ("maybe", "dup")]
                rep.check(not bad, "smash:" + tag, f"{tag}: every normal return after an insertion has stored the element",
                          f"{loc(f)}: {tag} can return normally although the key was already occupied (the element is silently dropped)")
                bad = [s for s in out.n if s[1][1] == "none"]
                if short(tag) == "save":
                    rep.check(not bad, "lost:" + tag, f"{tag}: every normal return has inserted", f"{loc(f)}: a path returns from {tag} without storing the element")
            elif short(tag) == "save":
                if not any(s[1][1] == "done" for s in out.n):
                    rep.note(f"{tag}: no insertion recognised")
            allacc.append((f, cl.accesses))
            if not cl.accesses:
                rep.note(f"{tag}: no access to the store")
    # one common mutex over all accesses of the class
    inter = None
    for f, acc in allacc:
        for k, sets in acc.items():
            for ls in sets:
                if ls:
                    inter = ls if inter is None else inter & ls
    for f, acc in allacc:
        for k, sets in acc.items():
            bad = [ls for ls in sets if not ls]
            if bad:
                rep.bad(f"unlocked:{f['fn']}", f"{k[0]}: {f['fn']} performs a {k[1]} of {k[2]} without holding the mutex")
            else:
                rep.ok(f"{k[0]}: {k[1]} of {k[2]} under {sorted(pstr(m) for m in sets[0])}")
    if inter is not None and not inter:
        rep.bad("nocommon", "the store is accessed under different mutexes; no single mutex protects every access: "
                + "; ".join(sorted({f"{f['fn']}: {sorted(pstr(m) for m in ls)}" for f, acc in allacc for sets in acc.values() for ls in sets if ls})))
    for m in inter or ():
        fl = [x for c in insts for x in c["flds"] if x["q"] == m[-1]]
        rep.check(m[0].startswith("glob:") or fl, "mutexlife", f"{pstr(m)} outlives the call", f"mutex {pstr(m)} is not a member or global")
