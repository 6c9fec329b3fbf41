"""Finite abstract evaluation: transfers sets of abstract stores through resolved function bodies.
Values are constants, symbolic names or UNK; a condition that is not decided by the abstract values
continues with both outcomes; loops run to a fixpoint of visited stores (bounded)."""
from core import *

UNK = ("unk",)
NULL = ("null",)

class Limit(Exception):
    pass

class Frame:
    __slots__ = ("fn", "this", "refs", "uid", "lex", "depth")
    def __init__(self, fn, this, uid, lex=None, depth=0):
        self.fn, self.this, self.uid, self.lex, self.depth = fn, this, uid, lex, depth
        self.refs = {}

def isref(t):
    return t.endswith("&")

class FEval:
    max_states = 20000
    max_iter = 60
    max_depth = 30
    def __init__(self, prog):
        self.prog = prog
        self.uid = 0
        self.steps = 0
        self.unknown_calls = {}

    # ---- hooks
    def prim(self, n, name, objloc, args, st, fr):
        """list of (value, store) | ('throw', store) or None when the call is not primitive. args: list of (kind, value/loc)."""
        return None
    def inline(self, fn, n):
        return True
    def symbolic(self, op, a, b, st):
        """Decides a comparison of symbolic values: True/False/None."""
        return None
    def load_default(self, loc, st, n):
        return UNK
    def on_decision(self, n, st):
        pass

    # ---- store
    def get(self, st, loc, n=None):
        v = st.get(loc)
        if v is None:
            return self.load_default(loc, st, n)
        return v
    def put(self, st, loc, v):
        s = dict(st)
        for k in list(s):
            if type(k) is tuple and len(k) > len(loc) and k[:len(loc)] == loc:
                del s[k]
        if type(v) is tuple and v and v[0] == "obj":
            src = v[1]
            for k, x in st.items():
                if type(k) is tuple and k[:len(src)] == src:
                    s[loc + k[len(src):]] = x
            if src not in st:
                # contents never stored: remember where the value came from
                s[loc] = ("copyof", src)
        else:
            s[loc] = v
        return s
    def gc(self, st, uid0, fr):
        """Temporaries of a finished full expression that nothing designates any more."""
        if self.uid == uid0:
            return st
        dead = {k[0] for k in st if type(k) is tuple and type(k[0]) is str and k[0][0] == "N" and k[0][1:].isdigit() and int(k[0][1:]) > uid0}
        if not dead:
            return st
        f = fr
        live = set()
        while f is not None:
            live |= {l[0] for l in f.refs.values() if l and type(l[0]) is str}
            f = f.lex
        def scan(v):
            if type(v) is tuple:
                if v and type(v[0]) is str and v[0] in dead:
                    live.add(v[0])
                for x in v:
                    if type(x) is tuple:
                        scan(x)
        for k, v in st.items():
            if type(v) is tuple and not (type(k) is tuple and k[0] in dead):
                scan(v)
        dead -= live
        if not dead:
            return st
        return {k: v for k, v in st.items() if not (type(k) is tuple and k[0] in dead)}
    def drop(self, st, gone):
        dead = [k for k in st if type(k) is tuple and (k[:3] in gone or (k[0] == "D" and mentions(k[1], gone)))]
        if not dead:
            return st
        s = dict(st)
        for k in dead:
            del s[k]
        return s
    def newloc(self):
        self.uid += 1
        return ("N%d" % self.uid,)

    # ---- entry
    def run(self, fn, st, this=None, args=()):
        """outcomes: list of ('ret', value, store) / ('throw', UNK, store). args: list of ('v', value) or ('l', loc)."""
        fr = Frame(fn, this, self._u())
        st = self.bindargs(fn, args, st, fr)
        return self.exec_fn(fn, st, fr)
    def _u(self):
        self.uid += 1
        return self.uid
    def bindargs(self, fn, args, st, fr):
        for i, p in enumerate(fn.get("p", [])):
            loc = ("L", fr.uid, p["i"])
            if i < len(args):
                kind, v = args[i]
                if isref(p["t"]):
                    if kind == "l":
                        fr.refs[p["i"]] = v
                    else:
                        fr.refs[p["i"]] = loc
                        st = self.put(st, loc, v)
                else:
                    if kind == "l":
                        v = self.value_of(st, v)
                    st = self.put(st, loc, v)
            elif p.get("def"):
                st = self.put(st, loc, self.rval(p["def"], st, fr)[0][0])
        return st
    def value_of(self, st, loc, n=None):
        if loc in st:
            return st[loc]
        if any(type(k) is tuple and len(k) > len(loc) and k[:len(loc)] == loc for k in st):
            return ("obj", loc)
        return self.load_default(loc, st, n)

    def exec_fn(self, fn, st, fr):
        outs = []
        sts = [st]
        for i in fn.get("ini", []) or []:
            nxt = []
            for s in sts:
                if i.get("q") and self.refmember(fn, i["q"]):
                    for l, s2 in self.lv(i.get("e"), s, fr, outs):
                        nxt.append(self.put(s2, fr.this + (i["q"],), ("alias", l)))
                elif i.get("q"):
                    for v, s2 in self.rv(i.get("e"), s, fr, outs):
                        nxt.append(self.put(s2, fr.this + (i["q"],), v))
                elif i.get("e"):
                    e = strip_casts(i["e"])
                    if e.get("k") == "Ctor" and e.get("u") in self.prog.fns:
                        for v, s2 in self.ctor_into(e, fr.this, s, fr, outs):
                            nxt.append(s2)
                    else:
                        for v, s2 in self.rv(i["e"], s, fr, outs):
                            nxt.append(s2)
                else:
                    nxt.append(s)
            sts = nxt
        for s in sts:
            for o in self.st(fn.get("body"), s, fr):
                if o[0] == "next":
                    outs.append(("ret", None, o[2]))
                elif o[0] in ("ret", "throw"):
                    outs.append(o)
        return outs

    def refmember(self, fn, q):
        c = self.prog.classes.get(fn.get("clsu")) or self.prog.classes.get(fn.get("cls"))
        for f in (c or {}).get("flds", []):
            if f.get("q", "") == q or f.get("n") == q.rsplit("::", 1)[-1]:
                return f["t"].endswith("&")
        return False
    # ---- statements: list of (kind, value, store), kind in next ret throw brk cont
    def st(self, n, st, fr):
        self.steps += 1
        if self.steps > 2000000:
            raise Limit()
        if n is None:
            return [("next", None, st)]
        k = n["k"]
        if k == "Block":
            cur = [st]; outs = []
            for x in n["s"]:
                nxt = []
                uid0 = self.uid
                for s in cur:
                    for o in self.st(x, s, fr):
                        if o[0] == "next":
                            nxt.append(o[2])
                        else:
                            outs.append(o)
                cur = self.dedup([self.gc(s, uid0, fr) for s in nxt])
                if not cur:
                    break
            # what the block declared is gone
            gone = {("L", fr.uid, v["i"]) for x in n["s"] if x["k"] == "Decl" for v in x["d"] if not v.get("static")}
            if gone:
                cur = self.dedup([self.drop(s, gone) for s in cur])
            return outs + [("next", None, s) for s in cur]
        if k == "Decl":
            cur = [st]; outs = []
            for v in n["d"]:
                nxt = []
                for s in cur:
                    nxt += self.decl(v, s, fr, outs)
                cur = nxt
            return outs + [("next", None, s) for s in cur]
        if k == "If":
            outs = []; cur = [st]
            if n.get("init"):
                nxt = []
                for o in self.st(n["init"], st, fr):
                    (nxt.append(o[2]) if o[0] == "next" else outs.append(o))
                cur = nxt
            if n.get("cv"):
                nxt = []
                for s in cur:
                    nxt += self.decl(n["cv"], s, fr, outs)
                cur = nxt
            for s in cur:
                for b, s2 in self.truth(n["c"], s, fr, outs):
                    outs += self.st(n.get("x") if b else n.get("y"), s2, fr)
            return outs
        if k in ("For", "While", "DoWhile"):
            outs = []; cur = [st]
            if n.get("init"):
                nxt = []
                for o in self.st(n["init"], st, fr):
                    (nxt.append(o[2]) if o[0] == "next" else outs.append(o))
                cur = nxt
            first = k == "DoWhile"
            seen = set(); rounds = 0
            while cur:
                rounds += 1
                if rounds > self.max_iter:
                    raise Limit()
                nxt = []
                uid0 = self.uid
                for s in cur:
                    key = frozenset(s.items())
                    if key in seen and not first:
                        continue
                    seen.add(key)
                    conds = [(True, s)] if first or not n.get("c") else self.truth(n["c"], s, fr, outs)
                    for b, s2 in conds:
                        if not b:
                            outs.append(("next", None, s2)); continue
                        for o in self.st(n["body"], s2, fr):
                            if o[0] in ("next", "cont"):
                                if n.get("inc"):
                                    for _, s3 in self.rv(n["inc"], o[2], fr, outs):
                                        nxt.append(s3)
                                else:
                                    nxt.append(o[2])
                            elif o[0] == "brk":
                                outs.append(("next", None, o[2]))
                            else:
                                outs.append(o)
                first = False
                cur = self.dedup([self.gc(s, uid0, fr) for s in nxt])
            return outs
        if k == "RFor":
            return self.rfor(n, st, fr)
        if k == "Return":
            outs = []
            if n.get("e"):
                if isref(fr.fn.get("t", "")):
                    for l, s in self.lv(n["e"], st, fr, outs):
                        outs.append(("ret", ("ref", l), s))
                else:
                    for v, s in self.rv(n["e"], st, fr, outs):
                        outs.append(("ret", v, s))
            else:
                outs.append(("ret", None, st))
            return outs
        if k == "Break":
            return [("brk", None, st)]
        if k == "Continue":
            return [("cont", None, st)]
        if k == "Throw":
            outs = []
            if n.get("e"):
                for v, s in self.rv(n["e"], st, fr, outs):
                    outs.append(("throw", n, s))
            else:
                outs.append(("throw", n, st))
            return outs
        if k == "Switch":
            outs = []
            for v, s in self.rv(n["c"], st, fr, outs):
                outs += self.switch(n, v, s, fr)
            return outs
        if k in ("Case", "Default"):
            return self.st(n.get("s"), st, fr)
        if k == "Try":
            outs = []
            for o in self.st(n["b"], st, fr):
                if o[0] == "throw":
                    for h in n["h"]:
                        outs += self.st(h["b"], o[2], fr)
                    if not any(not h.get("ct") or "std::exception" in h["ct"] for h in n["h"]):
                        outs.append(o)
                else:
                    outs.append(o)
            return outs
        if k == "OMP":
            return self.st(n.get("body"), st, fr)
        outs = []
        for v, s in self.rv(n, st, fr, outs):
            outs.append(("next", None, s))
        return outs

    def rfor(self, n, st, fr):
        outs = []
        # default: unknown number of iterations over unknown elements
        v = n["v"]
        cur = [s for _, s in self.rv(n["r"], st, fr, outs)]
        seen = set(); res = []
        while cur:
            nxt = []
            for s in cur:
                key = frozenset(s.items())
                if key in seen:
                    continue
                seen.add(key)
                res.append(("next", None, s))
                s2 = self.put(s, ("L", fr.uid, v["i"]), UNK)
                fr.refs.pop(v["i"], None)
                for o in self.st(n["body"], s2, fr):
                    if o[0] in ("next", "cont"):
                        nxt.append(o[2])
                    elif o[0] == "brk":
                        res.append(("next", None, o[2]))
                    else:
                        outs.append(o)
            cur = nxt
            if len(seen) > 200:
                raise Limit()
        return outs + res

    def switch(self, n, v, st, fr):
        body = n["body"]
        items = body["s"] if body and body["k"] == "Block" else [body]
        labels = []   # (value or 'default', index, stmt)
        flat = []
        for x in items:
            while x is not None and x["k"] in ("Case", "Default"):
                if x["k"] == "Case":
                    cv = self.const(x["v"])
                    labels.append((cv, len(flat)))
                else:
                    labels.append(("default", len(flat)))
                x = x.get("s")
            flat.append(x)
        starts = []
        if type(v) is int:
            t = [i for c, i in labels if c == v]
            if t:
                starts = [t[0]]
            else:
                d = [i for c, i in labels if c == "default"]
                starts = [d[0]] if d else [None]
        else:
            starts = [i for c, i in labels]
            if not any(c == "default" for c, i in labels):
                starts.append(None)
        outs = []
        for s0 in starts:
            if s0 is None:
                outs.append(("next", None, st)); continue
            cur = [st]
            for x in flat[s0:]:
                nxt = []
                for s in cur:
                    for o in self.st(x, s, fr):
                        if o[0] == "next":
                            nxt.append(o[2])
                        elif o[0] == "brk":
                            outs.append(("next", None, o[2]))
                        else:
                            outs.append(o)
                cur = nxt
            outs += [("next", None, s) for s in cur]
        return outs

    def const(self, n):
        n = strip_casts(n)
        if n["k"] == "Int":
            return int(n["v"])
        if n["k"] == "Ref" and n["w"] == "enum":
            return n["val"]
        if n["k"] == "Char":
            return n["v"]
        if n["k"] == "Un" and n["op"] == "-":
            c = self.const(n["e"])
            return -c if c is not None else None
        return None

    def dedup(self, sts):
        seen = {}
        for s in sts:
            seen[frozenset(s.items())] = s
        if len(seen) > self.max_states:
            raise Limit()
        return list(seen.values())

    def decl(self, v, st, fr, outs):
        if v.get("static"):
            return [st]
        loc = ("L", fr.uid, v["i"])
        if not v.get("init"):
            return [self.put(st, loc, UNK)]
        if v.get("bind"):
            res = []
            for l, s in self.lv(v["init"], st, fr, outs):
                for b in v["bind"]:
                    fr.refs[b["i"]] = l + ("#" + b["n"],)
                res.append(s)
            return res
        if isref(v["t"]):
            res = []
            for l, s in self.lv(v["init"], st, fr, outs):
                fr.refs[v["i"]] = l
                res.append(s)
            return res
        e = strip_casts(v["init"])
        if e["k"] == "Ctor" and e.get("u") in self.prog.fns and not e.get("copy") and not e.get("move"):
            return [s for _, s in self.ctor_into(e, loc, st, fr, outs)]
        return [self.put(s, loc, x) for x, s in self.rv(v["init"], st, fr, outs)]

    # ---- expressions
    def rval(self, n, st, fr):
        return self.rv(n, st, fr, [])

    def truth(self, n, st, fr, outs):
        res = []
        n0 = n
        for v, s in self.rv(n, st, fr, outs):
            t = self.asbool(v)
            if t is None:
                self.on_decision(n0, s)
                res.append((True, s)); res.append((False, s))
            else:
                res.append((t, s))
        return res
    def asbool(self, v):
        if type(v) in (bool, int, float):
            return bool(v)
        if v == NULL:
            return False
        if type(v) is tuple and v[0] in ("ptr", "lam"):
            return True
        return None

    def frame_of(self, i, fr):
        f = fr
        while f is not None:
            if i in f.refs or ("p" in f.fn and any(p["i"] == i for p in f.fn["p"])) or i in defs_of(f.fn):
                return f
            f = f.lex
        return fr

    def lv(self, n, st, fr, outs):
        """[(loc, store)]; values that are not objects get a temporary."""
        k = n["k"]
        if k in ("DefArg", "DefInit"):
            return self.lv(n["e"], st, fr, outs)
        if k == "Cast" and n.get("ck") in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived", "LValueToRValue", "BitCast", "Dynamic"):
            return self.lv(n["e"], st, fr, outs)
        if k == "This":
            return [(fr_this(fr) or ("this",), st)]
        if k == "Mem" and n["w"] == "field":
            def al(l, s):
                v = s.get(l)
                return (v[1], s) if type(v) is tuple and v and v[0] == "alias" else (l, s)
            if not n.get("b"):
                return [al((fr_this(fr) or ("this",)) + (n["q"],), st)]
            return [al(l + (n["q"],), s) for l, s in self.lv(n["b"], st, fr, outs)] if not n.get("arrow") else \
                   [al(self.deref(v) + (n["q"],), s) for v, s in self.rv(n["b"], st, fr, outs)]
        if k == "Mem":
            return [(("G", n.get("q", n["n"])), st)]
        if k == "Ref":
            if n["w"] in ("global", "static", "smember"):
                return [(("G", n.get("q", n["n"])), st)]
            f = self.frame_of(n["i"], fr)
            if n["i"] in f.refs:
                return [(f.refs[n["i"]], st)]
            return [(("L", f.uid, n["i"]), st)]
        if k == "Un" and n["op"] == "*":
            return [(self.deref(v), s) for v, s in self.rv(n["e"], st, fr, outs)]
        if k == "Un" and n["op"] in ("++", "--") and not n.get("post"):
            r = []
            for v, s in self.rv(n, st, fr, outs):
                r += self.lv(n["e"], s, fr, outs)
            return r
        if k == "Asg":
            r = []
            for v, s in self.rv(n, st, fr, outs):
                r += self.lv(n["x"], s, fr, outs)
            return r
        if k == "Sub":
            r = []
            for l, s in self.lv(n["b"], st, fr, outs):
                for i, s2 in self.rv(n["x"], s, fr, outs):
                    r.append((l + (("idx", i),), s2))
            return r
        if k == "Cond":
            r = []
            for b, s in self.truth(n["c"], st, fr, outs):
                r += self.lv(n["x"] if b else n["y"], s, fr, outs)
            return r
        if k == "Call" and n.get("fn") in ("std::move", "std::forward", "std::as_const") and n["a"]:
            return self.lv(n["a"][0], st, fr, outs)
        res = []
        for v, s in (self.call(n, st, fr, outs) if is_call(n) else self.rv(n, st, fr, outs)):
            if type(v) is tuple and v and v[0] == "ref":
                res.append((v[1], s))
            elif type(v) is tuple and v and v[0] == "obj":
                res.append((v[1], s))
            else:
                l = self.newloc()
                res.append((l, self.put(s, l, v)))
        return res
    def deref(self, v):
        if type(v) is tuple and v and v[0] in ("ptr", "ref", "obj"):
            return v[1]
        return ("*", v if type(v) is tuple else ("c", v))

    def rv(self, n, st, fr, outs):
        self.steps += 1
        if self.steps > 2000000:
            raise Limit()
        if n is None:
            return [(UNK, st)]
        k = n["k"]
        if k in ("DefArg", "DefInit"):
            return self.rv(n["e"], st, fr, outs)
        if k == "Cast":
            ck = n.get("ck")
            r = []
            for v, s in self.rv(n["e"], st, fr, outs):
                if ck in ("NullToPointer",):
                    v = NULL
                elif ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
                    b = self.asbool(v)
                    v = b if b is not None else (v if ck == "IntegralToBoolean" else UNK)
                elif ck in ("FloatingToIntegral",) and type(v) is float:
                    v = int(v)
                elif ck == "IntegralToFloating" and type(v) in (int, bool):
                    v = float(v)
                elif ck == "IntegralCast" and type(v) is bool:
                    v = int(v)
                elif ck == "ToVoid":
                    pass
                r.append((v, s))
            return r
        if k == "Int":
            return [(int(n["v"]), st)]
        if k == "Char":
            return [(n["v"], st)]
        if k == "Flt":
            return [(float(n["v"]), st)]
        if k == "Bool":
            return [(bool(n["v"]), st)]
        if k == "Str":
            return [(("str", n["v"]), st)]
        if k == "Null":
            return [(NULL, st)]
        if k == "SizeOf":
            return [(int(n["v"]) if n.get("v") else UNK, st)]
        if k == "Ref" and n["w"] == "enum":
            return [(n["val"], st)]
        if k == "Ref" and n["w"] == "fn":
            return [(("fn", n["q"]), st)]
        if k == "This":
            return [(("ptr", fr_this(fr) or ("this",)), st)]
        if k in ("Ref", "Mem", "Sub"):
            return [(self.load(s, l, n), s) for l, s in self.lv(n, st, fr, outs)]
        if k == "Un":
            op = n["op"]
            if op == "&":
                return [(("ptr", l), s) for l, s in self.lv(n["e"], st, fr, outs)]
            if op == "*":
                return [(self.load(s, l, n), s) for l, s in self.lv(n, st, fr, outs)]
            if op == "!":
                r = []
                for v, s in self.rv(n["e"], st, fr, outs):
                    b = self.asbool(v)
                    r.append((not b if b is not None else self.negate(v), s))
                return r
            if op in ("++", "--"):
                r = []
                for l, s in self.lv(n["e"], st, fr, outs):
                    v = self.get(s, l, n)
                    nv = (v + (1 if op == "++" else -1)) if type(v) in (int, float) else UNK
                    r.append((v if n.get("post") else nv, self.put(s, l, nv)))
                return r
            r = []
            for v, s in self.rv(n["e"], st, fr, outs):
                if type(v) in (int, float, bool):
                    v = {"-": lambda x: -x, "+": lambda x: x, "~": lambda x: ~x}.get(op, lambda x: UNK)(v)
                else:
                    v = UNK
                r.append((v, s))
            return r
        if k == "Asg":
            r = []
            for v, s in self.rv(n["y"], st, fr, outs):
                for l, s2 in self.lv(n["x"], s, fr, outs):
                    if n["op"] != "=":
                        o = self.get(s2, l, n)
                        v2 = self.binop(n["op"][:-1], o, v, s2)
                    else:
                        v2 = v
                    r.append((v2, self.put(s2, l, v2)))
            return r
        if k == "Bin":
            op = n["op"]
            if op in ("&&", "||"):
                r = []
                for b, s in self.truth(n["x"], st, fr, outs):
                    if (op == "&&") != b:
                        r.append((b, s))
                    else:
                        r += [(b2, s2) for b2, s2 in self.truth(n["y"], s, fr, outs)]
                return r
            r = []
            for a, s in self.rv(n["x"], st, fr, outs):
                for b, s2 in self.rv(n["y"], s, fr, outs):
                    if op == ",":
                        r.append((b, s2)); continue
                    r.append((self.binop(op, a, b, s2), s2))
            return r
        if k == "Cond":
            r = []
            for b, s in self.truth(n["c"], st, fr, outs):
                r += self.rv(n["x"] if b else n["y"], s, fr, outs)
            return r
        if k == "Lambda":
            return [(("lam", id(n)), self.keep(n, fr, st))]
        if k == "Call" and n.get("fn") in ("std::move", "std::forward", "std::as_const") and n["a"]:
            return self.rv(n["a"][0], st, fr, outs)
        if k in ("Call", "MCall", "OpCall", "Ctor"):
            return [(unref(self, v, s), s) for v, s in self.call(n, st, fr, outs)]
        if k == "Throw":
            for o in self.st(n, st, fr):
                outs.append(o)
            return []
        if k == "InitList":
            cur = [((), st)]
            for a in n["a"]:
                cur = [(vs + (v,), s2) for vs, s in cur for v, s2 in self.rv(a, s, fr, outs)]
            if n.get("flds"):
                r = []
                for vs, s in cur:
                    l = self.newloc()
                    for q, v in zip(n["flds"], vs):
                        s = self.put(s, l + (q,), v)
                    r.append((("obj", l), s))
                return r
            if len(n["a"]) == 1 and "[" not in n["t"] and "<" not in n["t"]:
                return [(vs[0], s) for vs, s in cur]
            if len(n["a"]) == 0:
                return [(0 if n["t"] in ("int", "bool", "unsigned int", "unsigned long") else UNK, st)]
            return [(("tuple",) + vs, s) for vs, s in cur]
        if k == "New":
            l = self.newloc()
            return [(("ptr", l), st)]
        cur = [st]
        for c in kids(n):
            if c.get("k"):
                cur = [s2 for s in cur for _, s2 in self.rv(c, s, fr, outs)]
        return [(UNK, s) for s in cur]

    _lams = {}
    def keep(self, n, fr, st):
        self._lams[id(n)] = (n, fr)
        return st
    def load(self, st, l, n):
        return self.value_of(st, l, n)
    def negate(self, v):
        return ("not", v) if v != UNK else UNK

    def binop(self, op, a, b, st):
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if a == NULL or b == NULL:
                o = b if a == NULL else a
                t = None
                if o == NULL:
                    t = True
                elif type(o) is tuple and o and o[0] in ("ptr", "str", "fn"):
                    t = False
                if t is not None and op in ("==", "!="):
                    return t == (op == "==")
            num = (int, float, bool)
            if type(a) in num and type(b) in num:
                return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
            t = self.symbolic(op, a, b, st)
            if t is not None:
                return t
            if type(a) is tuple and type(b) is tuple and a and b and a[0] == "ptr" and b[0] == "ptr" and op in ("==", "!="):
                return (a == b) == (op == "==")
            return UNK
        if type(a) in (int, float, bool) and type(b) in (int, float, bool):
            try:
                if op == "+": return a + b
                if op == "-": return a - b
                if op == "*": return a * b
                if op == "/":
                    return int(a / b) if type(a) is int and type(b) is int else a / b
                if op == "%": return int(math_fmod(a, b))
                if op == "&": return a & b
                if op == "|": return a | b
                if op == "^": return a ^ b
                if op == "<<": return a << b
                if op == ">>": return a >> b
            except Exception:
                return UNK
        t = self.symbolic(op, a, b, st)
        return t if t is not None else UNK

    def ctor_into(self, n, loc, st, fr, outs):
        f = self.prog.fns.get(n.get("u"))
        args = self.args(n, n["a"], st, fr, outs)
        r = []
        for a, s in args:
            p = self.prim(n, n.get("fn", ""), loc, a, s, fr)
            if p is not None:
                for o in p:
                    if o[0] == "throw":
                        outs.append(("throw", n, o[1]))
                    else:
                        r.append(o)
                continue
            if f is None or not f.get("body") or fr.depth > self.max_depth or not self.inline(f, n):
                r.append((("obj", loc), self.put(s, loc, UNK))); continue
            nf = Frame(f, loc, self._u(), None, fr.depth + 1)
            s = self.bindargs(f, a, s, nf)
            for o in self.exec_fn(f, s, nf):
                if o[0] == "throw":
                    outs.append(o)
                else:
                    r.append((("obj", loc), o[2]))
        return r

    def args(self, n, nodes, st, fr, outs):
        cur = [((), st)]
        pts = n.get("pt", [])
        for i, a in enumerate(nodes):
            byref = i < len(pts) and isref(pts[i])
            nxt = []
            for vs, s in cur:
                if byref:
                    nxt += [(vs + (("l", l),), s2) for l, s2 in self.lv(a, s, fr, outs)]
                else:
                    nxt += [(vs + (("v", v),), s2) for v, s2 in self.rv(a, s, fr, outs)]
            cur = nxt
        return cur

    def call(self, n, st, fr, outs):
        k = n["k"]; name = n.get("fn", "")
        if k == "Ctor":
            if (n.get("copy") or n.get("move")) and len(n["a"]) == 1:
                f = self.prog.fns.get(n.get("u"))
                if f is None or f.get("defaulted") or f.get("impl"):
                    return self.rv(n["a"][0], st, fr, outs)
            if n.get("u") in self.prog.fns:
                return self.ctor_into(n, self.newloc(), st, fr, outs)
        objs = [(None, st)]
        nodes = n["a"]
        if k == "MCall":
            o = n["o"]
            if o is not None:
                if self.isptr(o, n):
                    objs = [(self.deref(v), s) for v, s in self.rv(o, st, fr, outs)]
                else:
                    objs = self.lv(o, st, fr, outs)
        elif k == "OpCall" and n.get("mem"):
            if n.get("op") == "()":
                l = strip(nodes[0])
                objs = [(("lamval", v), s) for v, s in self.rv(l, st, fr, outs)] if n.get("lam") else self.lv(nodes[0], st, fr, outs)
            else:
                objs = self.lv(nodes[0], st, fr, outs)
            nodes = nodes[1:]
        res = []
        for ol, s0 in objs:
            lamt = None
            if ol is not None and ol and ol[0] == "lamval":
                v = ol[1]
                if type(v) is tuple and v[0] == "lam" and v[1] in self._lams:
                    lamt = self._lams[v[1]]
            for a, s in self.args(n, nodes, s0, fr, outs):
                p = self.prim(n, name, ol, a, s, fr)
                if p is not None:
                    for o in p:
                        if o[0] == "throw":
                            outs.append(("throw", n, o[1]))
                        else:
                            res.append(o)
                    continue
                f = self.prog.fns.get(n.get("u")) if n.get("u") else None
                if lamt and not (f is not None and f.get("body") and "operator()<" in n["u"]):
                    f = lamt[0]      # a generic lambda: the instantiation that is called
                if f is not None and f.get("body") and fr.depth < self.max_depth and self.inline(f, n):
                    nf = Frame(f, ol if not lamt else fr_this(lamt[1]), self._u(), lamt[1] if lamt else None, fr.depth + 1)
                    s = self.bindargs(f, a, s, nf)
                    for o in self.exec_fn(f, s, nf):
                        if o[0] == "throw":
                            outs.append(o)
                        else:
                            v = o[1]
                            if type(v) is tuple and v and v[0] == "ref":
                                pass
                            res.append((v, o[2]))
                    continue
                # foreign
                if k == "OpCall" and n.get("op") == "=" and ol is not None and a:
                    v = a[0][1] if a[0][0] == "v" else self.value_of(s, a[0][1])
                    res.append((("ref", ol), self.put(s, ol, v))); continue
                self.unknown_calls[name] = self.unknown_calls.get(name, 0) + 1
                pts = n.get("pt", [])
                for i, (kind, v) in enumerate(a):
                    if kind == "l" and i < len(pts) and not is_const_type(pts[i]) and not pts[i].endswith("&&") and i not in n.get("fw", ()):
                        s = self.put(s, v, UNK)
                if k == "Ctor" and len(a) == 1:
                    # conversions keep the value
                    v = a[0][1] if a[0][0] == "v" else self.value_of(s, a[0][1])
                    res.append((v, s)); continue
                res.append((UNK, s))
        # a reference result used as a value is loaded by the caller
        out = []
        for v, s in res:
            out.append((v, s))
        return out
    def isptr(self, o, n):
        return n.get("ot", "").endswith("*")

def math_fmod(a, b):
    import math
    return math.fmod(a, b)

def fr_this(fr):
    f = fr
    while f is not None:
        if f.this is not None:
            return f.this
        f = f.lex
    return None

def unref(ev, v, st):
    return ev.value_of(st, v[1]) if type(v) is tuple and v and v[0] == "ref" else v

def mentions(v, gone):
    """A symbolic value built from one of these locations."""
    if type(v) is tuple:
        if v[:3] in gone:
            return True
        return any(mentions(x, gone) for x in v if type(x) is tuple)
    return False
