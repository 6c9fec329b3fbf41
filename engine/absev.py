"""Abstract evaluation with symbolic values: what is not known is named by where it came from, calls
that cannot change anything become terms over their arguments, and a loop over a container is a loop
over one generic element (range-for and iterator loops alike) with events collected per iteration."""
from symexp import *

ITER_END = ("end", "cend", "rend")
ITER_BEG = ("begin", "cbegin", "rbegin")

class AbsEval(FEval):
    max_iter = 400
    iteration_only = ()       # events that are only collected per iteration
    val = SqlText.val
    here = SqlText.here
    fname = SqlText.fname
    truth = SqlText.truth
    def negate(self, v):
        if type(v) is tuple and v[:1] == ("not",):
            return v[1]
        if type(v) is tuple and v[:1] == ("app",) and v[1] in ("==", "!=") and len(v) == 4:
            return ("app", "!=" if v[1] == "==" else "==") + v[2:]
        return ("not", v) if v != UNK else UNK
    def __init__(self, prog):
        super().__init__(prog)
        self.iterations = []      # (container, events, how it ended, where)
    def inline(self, f, n):
        return bool(f.get("body")) and f.get("f", "/repo/").startswith("/repo/") and not f.get("impl") and not f.get("defaulted")
    def load_default(self, loc, st, n):
        return ("sym", loc)
    def symbolic(self, op, a, b, st):
        if a == UNK or b == UNK:
            return None
        if op in ("==", "!=", "<", ">", "<=", ">=") and a == b and not (type(a) is tuple and a and a[0] in ("iter", "enditer")):
            return op in ("==", "<=", ">=")
        return ("app", op, hashable(a), hashable(b))
    # ---- events
    def event(self, st, *e):
        s = dict(st)
        if e[0] not in self.iteration_only:
            s[("#evs",)] = st.get(("#evs",), frozenset()) | {e}
        for k, v in st.items():
            if k[0] == "#cur":
                s[k] = v | {e}
        return s
    def events(self, st):
        return st.get(("#evs",), frozenset())
    def iter_begin(self, st, c):
        s = dict(st); s[("#cur", c)] = frozenset(); return s
    def iter_end(self, st, c, how, at):
        k = ("#cur", c)
        if k in st:
            self.iterations.append((c, st[k], how, at))
            # what is known of this element does not hold for the next one
            el = c + ("[]",)
            s = {x: v for x, v in st.items() if x != k and not (type(x) is tuple and x[0] in ("D", "#exact") and part_of(x, el))}
            return s
        return st
    def finish(self, outs):
        """loops left half way by return, break or an exception"""
        for o in outs:
            for k in o[2]:
                if k[0] == "#cur":
                    self.iterations.append((k[1], o[2][k], "left" if o[0] != "throw" else "threw", None))
        return outs
    def run(self, fn, st, this=None, args=()):
        try:
            return self.finish(super().run(fn, st, this, args))
        except Limit:
            # what was collected so far is still true of some path
            AbsEval.limited.append(fn["fn"])
            return []
    limited = []
    # ---- loops that count through a container (or up to any value not known here): one generic index
    def counting(self, n):
        """(counter id, bound node) of `for (i = 0; i < bound; ++i)` whose body leaves i alone"""
        c, i = strip_casts(n.get("c") or {}), strip_casts(n.get("inc") or {})
        if c.get("k") != "Bin" or c["op"] not in ("<", "!="):
            return None
        v = strip_casts(c["x"])
        if v.get("k") != "Ref" or v["w"] != "local":
            return None
        one = lambda x: strip_casts(x).get("k") == "Int" and str(strip_casts(x)["v"]) == "1"
        if not (i.get("k") == "Un" and i["op"] == "++" and strip_casts(i["e"]).get("i") == v["i"] or i.get("k") == "Asg" and i["op"] == "+=" and strip_casts(i["x"]).get("i") == v["i"] and one(i["y"])):
            return None
        for x in walk(n["body"]):
            t = strip_casts(x["x"]) if x.get("k") == "Asg" else strip_casts(x["e"]) if x.get("k") == "Un" and x["op"] in ("++", "--") else None
            if t is not None and t.get("k") == "Ref" and t["i"] == v["i"]:
                return None
        return v["i"], c["y"]
    def bound_of(self, b, st):
        return None
    generic_index = True
    def st(self, n, st, fr):
        if n is not None and n["k"] == "For" and self.generic_index:
            ci = self.counting(n)
            if ci:
                return self.cfor(n, ci, st, fr)
        return super().st(n, st, fr)
    def cfor(self, n, ci, st, fr):
        outs, res, cur = [], [], []
        starts = [("next", None, st)] if not n.get("init") else self.st(n["init"], st, fr)
        m = dict(n); m.pop("init", None)
        for o in starts:
            if o[0] != "next":
                outs.append(o); continue
            f = self.frame_of(ci[0], fr)
            l = f.refs.get(ci[0], ("L", f.uid, ci[0]))
            first = self.value_of(o[2], l)
            for b, s in self.rv(ci[1], o[2], fr, outs):
                if type(b) in (int, float, bool) or b == UNK or first != 0:
                    outs += super().st(m, s, fr)
                    continue
                c = self.bound_of(b, s) or ("#range", hashable(b))
                if type(b) is tuple and b[:1] == ("app",) and b[1].rsplit("::", 1)[-1] in ("size", "length") and len(b) == 3 and type(b[2]) is tuple and b[2][0] in ("sym", "copyof", "obj"):
                    c = b[2][1]
                cur.append((c, l, s))
        seen = set()
        while cur:
            nxt = []
            for c, l, s in cur:
                key = (c, frozenset(s.items()))
                if key in seen:
                    continue
                seen.add(key)
                if len(seen) > 400:
                    raise Limit()
                res.append(("next", None, self.put(s, l, UNK)))
                s2 = self.put(self.iter_begin(s, c), l, ("ix", c))
                for o in self.st(n["body"], s2, fr):
                    if o[0] in ("next", "cont"):
                        nxt.append((c, l, self.put(self.iter_end(o[2], c, "done", loc(self.fname(fr), n)), l, UNK)))
                    elif o[0] == "brk":
                        res.append(("next", None, self.iter_end(o[2], c, "break", loc(self.fname(fr), n))))
                    else:
                        outs.append(o)
            cur = nxt
        return outs + res
    # ---- expressions
    def lv(self, n, st, fr, outs):
        r = super().lv(n, st, fr, outs)
        if n["k"] == "Sub":
            r = [(l[:-1] + ("[]",) if l[-1:] == (("idx", ("ix", l[:-1])),) else l, s) for l, s in r]
        if n["k"] == "Mem" and n["n"] in ("first", "second"):
            r = [(l[:-2] + (("idx", l[-2][1]),) if len(l) > 1 and type(l[-2]) is tuple and l[-2][0] == "pair" and n["n"] == "second" else l, s) for l, s in r]
        return r
    def rv(self, n, st, fr, outs):
        if n is not None:
            if "cval" in n:
                c = n["cval"]
                return [(int(c) if c.lstrip("-").isdigit() else float(c), st)]
            if n.get("k") == "Un" and n["op"] in ("-", "+"):
                r = []
                for v, s in self.rv(n["e"], st, fr, outs):
                    if type(v) in (int, float, bool):
                        r.append((-v if n["op"] == "-" else v, s))
                    else:
                        r.append((UNK if v == UNK else ("app", "neg", hashable(v)) if n["op"] == "-" else v, s))
                return r
        return super().rv(n, st, fr, outs)
    def cont(self, n, ol, args, st):
        return ol if ol is not None else args[0][1] if args and args[0][0] == "l" else None
    def prim(self, n, name, ol, args, st, fr):
        k, sh = n["k"], short(name)
        foreign = "u" not in n or n["u"] not in self.prog.fns
        if foreign:
            if k == "MCall" and sh in ITER_BEG + ITER_END or name in ("std::begin", "std::end", "std::cbegin", "std::cend"):
                c = self.cont(n, ol, args, st)
                if c is not None:
                    return [(("iter", c) if sh in ITER_BEG else ("enditer", c), st)]
            if k == "MCall" and sh == "find" and ol is not None and args and ("map" in name or "set" in name):
                return [(("found", ol, hashable(self.val(args[0], st))), st)]
            if k == "MCall" and sh in ("count", "contains") and ol is not None and args and ("map" in name or "set" in name):
                return [(("has", ol, hashable(self.val(args[0], st))), st)]
            if k == "OpCall":
                op = n["op"]
                xs = ([ol] if ol is not None else []) + [a[1] if a[0] == "l" else None for a in args]
                vs = ([self.value_of(st, ol)] if ol is not None else []) + [self.val(a, st) for a in args]
                it = [v for v in vs if type(v) is tuple and v and v[0] in ("iter", "enditer")]
                if op in ("==", "!=") and len(it) == 2 and it[0][1] == it[1][1] and {it[0][0], it[1][0]} == {"iter", "enditer"}:
                    c = it[0][1]
                    return [(op == "!=", self.iter_begin(st, c)), (op == "==", st)]
                fd = [v for v in vs if type(v) is tuple and v and v[0] == "found"]
                if op in ("==", "!=") and len(fd) == 1 and len(it) == 1 and it[0] == ("enditer", fd[0][1]):
                    h = ("D", ("has",) + fd[0][1:])
                    r = []
                    for b in ((st[h],) if h in st else (True, False)):
                        s2 = dict(st); s2[h] = b
                        r.append((b == (op == "!="), s2))
                    return r
                if op in ("*", "->") and fd and len(vs) == 1:
                    e = fd[0][1] + (("pair", fd[0][2]),)
                    return [((("ref", e) if op == "*" else ("ptr", e)), st)]
                if op in ("++",) and it and it[0][0] == "iter":
                    s = self.iter_end(st, it[0][1], "done", self.here(n, fr))
                    return [(("ref", ol) if ol is not None else it[0], s)]
                if op in ("*", "->") and it and len(vs) == 1:
                    return [((("ref", it[0][1] + ("[]",)) if op == "*" else ("ptr", it[0][1] + ("[]",))), st)]
                if op == "[]" and ol is not None:
                    x = hashable(self.val(args[0], st))
                    return [(("ref", ol + ("[]" if x == ("ix", ol) else ("idx", x),)), st)]
                if op in ("==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/") and len(vs) == 2:
                    return [(UNK if UNK in vs else self.binop(op, *vs, st), st)]
            if name in PURE and k == "Call":
                vs = [self.val(a, st) for a in args]
                nm = name if name.startswith("std::") else "std::" + name
                return [(UNK if UNK in vs else ("app", nm.replace("fabs", "abs")) + tuple(hashable(v) for v in vs), st)]
        if n["k"] == "OpCall" and n["op"] == "=" and ol is not None and args and (foreign or self.prog.fns[n["u"]].get("impl") or self.prog.fns[n["u"]].get("defaulted")):
            return [(("ref", ol), self.put(st, ol, self.val(args[0], st)))]
        if foreign and k in ("Call", "MCall") and self.pure(n):
            vs = tuple(hashable(self.val(a, st)) for a in args)
            o = (hashable(self.value_of(st, ol)),) if ol is not None else ()
            return [(("app", name) + o + vs, st)]
        return None
    def pure(self, n):
        if n["k"] == "MCall" and not n.get("const") or n.get("t") == "void":
            return False
        return all(is_const_type(p) for p in n.get("pt", []))
    def rfor(self, n, st, fr):
        outs = []; res = []
        v = n["v"]
        cur = self.lv(n["r"], st, fr, outs)
        t = n["r"].get("t", "").replace("const ", "").rstrip("& ").strip()
        own = [f for f in self.prog.named(t.split("<")[0] + "::begin") if f.get("body")]
        if own:
            # a class of the repository: what its begin() iterates over
            nc = []
            for c, s in cur:
                for o in self.exec_fn(own[0], s, Frame(own[0], c, self._u(), None, fr.depth + 1)):
                    if o[0] == "ret" and type(o[1]) is tuple and o[1] and o[1][0] == "iter":
                        nc.append((o[1][1], o[2]))
                    else:
                        nc.append((c, o[2]))
            cur = nc
        seen = set()
        while cur:
            nxt = []
            for c, s in cur:
                key = (c, frozenset(s.items()))
                if key in seen:
                    continue
                seen.add(key)
                if len(seen) > 400:
                    raise Limit()
                res.append(("next", None, s))
                l = ("L", fr.uid, v["i"])
                s2 = self.iter_begin(s, c)
                el = c + ("[]",)
                if v.get("bind"):
                    for b in v["bind"]:
                        fr.refs[b["i"]] = el + (self.bindname(v, b),)
                elif isref(v["t"]):
                    fr.refs[v["i"]] = el
                else:
                    fr.refs.pop(v["i"], None)
                    s2 = self.put(s2, l, ("sym", el))
                for o in self.st(n["body"], s2, fr):
                    if o[0] in ("next", "cont"):
                        nxt.append((c, self.iter_end(o[2], c, "done", loc(fr.fn if "f" in fr.fn else self.fname(fr), n))))
                    elif o[0] == "brk":
                        res.append(("next", None, self.iter_end(o[2], c, "break", loc(self.fname(fr), n))))
                    else:
                        outs.append(o)
            cur = nxt
        return outs + res
    def bindname(self, v, b):
        """the member a structured binding stands for"""
        i = [x["i"] for x in v["bind"]].index(b["i"])
        t = v["t"]
        if "pair<" in t:
            return ("std::pair::first", "std::pair::second")[i]
        e = b.get("e")
        if e and e.get("k") == "Mem":
            return e["q"]
        return "#" + b["n"]

def part_of(v, el):
    if type(v) is tuple:
        return v[:len(el)] == el or any(part_of(x, el) for x in v if type(x) is tuple)
    return False
