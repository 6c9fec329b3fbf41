"""Iteration domains: loops are not run but described. The loop variable becomes a symbol whose first
value, step and bound are kept as formulas; a variable changed in a loop becomes a counter whose
change per iteration is recorded; what is added to a container is an emission with the loops and
decisions around it. The set of elements a nest produces is then enumerated from that description
at chosen points and compared with the specification."""
from smallmat import *

def vset(v): return ("sym", v)
def mentions_var(v, var):
    return v == var or type(v) is tuple and any(mentions_var(x, var) for x in v)

PUSH = ("push_back", "emplace_back")
INS = ("insert", "emplace", "emplace_hint")

class Nest(SmallMat):
    opq = ()
    tmp = re.compile(r"^N\d+$")
    def __init__(self, prog):
        super().__init__(prog)
        self.emissions = {}      # container -> set of (payload, doms, decisions, where)
        self.steps_seen = {}     # counter -> set of (change, emissions in that iteration, where)
        self.inits = {}          # counter -> values it starts with
        self.assigned = {}       # location outside of the loop's control -> set of (value, doms, decisions, where)
        self.cleared = set()
    # ---- store: members of copies
    def load_default(self, l, st, n):
        for k in range(len(l) - 1, 0, -1):
            e = st.get(l[:k])
            if type(e) is tuple and e and e[0] == "tuple" and type(l[k]) is tuple and l[k][:1] == ("idx",) and type(l[k][1]) is int and l[k][1] < len(e) - 1:
                v = e[1 + l[k][1]]
                if k + 1 == len(l): return v
                e = v
                if type(e) is tuple and e and e[0] in ("sym", "copyof", "obj"): return self.value_of(st, e[1] + l[k + 1:], n)
            if type(e) is tuple and e and e[0] in ("obj", "copyof", "sym") and e[1] != l[:k]:
                return self.value_of(st, e[1] + l[k:], n)
        if len(l) > 1 and type(l[-1]) is tuple and l[-1][:1] == ("idx",):
            e = st.get(l[:-1] + ("std::array::_M_elems",))
            if type(e) is tuple and e and e[0] == "tuple" and type(l[-1][1]) is int: return e[1 + l[-1][1]]
        return super().load_default(l, st, n)
    def arg_value(self, a, st):
        v = self.val(a, st)
        return hashable(v)
    def freeze(self, v, st, depth=0):
        """an object's members, as a value that survives the object"""
        if type(v) is tuple and v and v[0] in ("obj", "copyof") and depth < 4:
            loc = v[1]
            d = {}
            for k in st:
                if type(k) is tuple and len(k) > len(loc) and k[:len(loc)] == loc and not (type(k[0]) is str and k[0] == "D"):
                    d[k[len(loc):]] = self.freeze(st[k], st, depth + 1)
            base = st.get(loc)
            if d and base is None and loc[0] not in ("L",) and not self.tmp.match(str(loc[0])): base = ("sym", loc)
            if d: return ("object", base if base is None or type(base) is tuple and base[:1] in (("copyof",), ("sym",)) else None, tuple(sorted(d.items(), key=str)))
            return ("object", ("sym", loc), ())
        return v
    def drop(self, st, gone):
        s = None
        for k, v in st.items():
            if type(v) is tuple and v[:1] == ("copyof",) and type(v[1]) is tuple and v[1][:3] in gone and k[:3] not in gone:
                s = s if s is not None else dict(st)
                n = len(v[1])
                for k2, v2 in st.items():
                    if type(k2) is tuple and len(k2) > n and k2[:n] == v[1]: s.setdefault(k + k2[n:], v2)
        return super().drop(s if s is not None else st, gone)
    def decisions(self, st): return frozenset((k[1], b) for k, b in st.items() if type(k) is tuple and k and k[0] == "D")
    def emit(self, st, c, payload, at, ins=False):
        payload = canon(payload)
        e = (payload, st.get(("#dom",), ()), frozenset((canon(t), b) for t, b in self.decisions(st)), at)
        self.emissions.setdefault(c, set()).add(e)
        s = dict(st); s[("#em",)] = st.get(("#em",), ()) + ((c, payload, ins),)
        s[("#last", c)] = payload
        return s
    # ---- loops
    def changed(self, body):
        ids = set()
        for x in walk(body):
            t = None
            if x.get("k") == "Un" and x["op"] in ("++", "--"): t = strip_casts(x["e"])
            elif x.get("k") == "Asg": t = strip_casts(x["x"])
            if t is not None and t.get("k") in ("Ref", "Mem"): ids.add(id(t)); yield t
    def generalise(self, n, st, fr, skip=()):
        declared = {v["i"] for x in walk(n["body"]) if x.get("k") == "Decl" for v in x["d"]}
        for t in self.changed(n["body"]):
            if t.get("k") == "Ref" and (t.get("i") in declared or t.get("i") in skip): continue
            if t.get("k") == "Mem":
                b = t
                while b.get("k") == "Mem" and b.get("b"): b = strip_casts(b["b"])
                if b.get("k") == "Ref" and (b.get("i") in declared or n["k"] == "RFor" and b.get("i") == n["v"]["i"]): continue
                if b.get("k") not in ("Ref", "This", "Mem"): continue
            for l, s in self.lv(t, st, fr, []):
                v = self.value_of(st, l)
                if type(v) is bool or "bool" == t.get("t"):
                    st = self.put(st, l, ("flag", l))
                    continue
                if v != ("ctr", l):
                    self.inits.setdefault(l, set()).add(hashable(v))
                    st = self.put(st, l, ("ctr", l))
                break
        return st
    def asbool(self, v):
        if type(v) is tuple and v[:1] == ("flag",): return None
        return super().asbool(v)
    def endbody(self, before, st, var, at, mark):
        em = st.get(("#em",), ())
        nh = 0
        for c, p, ins in em:
            if not ins: nh += 1
            else:
                b = st.get(("D", ("inserted", c, p)))
                nh = None if b is None or nh is None else nh + (1 if b else 0)
        for l, v in list(st.items()):
            if before.get(l) == ("ctr", l) and type(l) is tuple:
                d = 0 if v == ("ctr", l) else v[3] if type(v) is tuple and v[:3] == ("app", "+", ("ctr", l)) and len(v) == 4 else None
                self.steps_seen.setdefault(l, set()).add((d, nh, at))
        s = {k: v for k, v in st.items() if not (type(k) is tuple and k and k[0] == "D" and (mentions_var(k[1], var) or type(k[1]) is tuple and k[1][:1] == ("inserted",) or str(k[1])[:8] in ("('flag',", "('not', "))) and k not in (("#em",),)}
        for l in list(s):
            if before.get(l) == ("ctr", l): s[l] = ("ctr", l)
            if before.get(l) == ("flag", l): s[l] = ("flag", l)
        # temporaries of the iteration are gone
        s = {k: v for k, v in s.items() if not (type(k) is tuple and k and type(k[0]) is str and (self.tmp.match(k[0]) or k[0] == "L" and type(k[1]) is int and k[1] > mark) and k not in before)}
        s = {k: v for k, v in s.items() if not (type(v) is tuple and mentions_var(v, var) and not (type(k) is tuple and k and k[0] in ("D", "#dom")))}
        s = {k: v for k, v in s.items() if not (type(k) is tuple and k and k[0] not in ("D", "#dom") and mentions_var(k, var))}
        if before.get(("#em",)) is not None: s[("#em",)] = before[("#em",)]
        s[("#dom",)] = before.get(("#dom",), ())
        return s
    def nested(self, n, st, fr, entry, var, cond, bind):
        outs, res = [], []
        mark = self.uid
        seen = set(); cur = [st]
        rounds = 0
        while cur:
            rounds += 1
            if rounds > 12: raise Limit()
            nxt = []
            for s in cur:
                key = frozenset(s.items())
                if key in seen: continue
                seen.add(key)
                res.append(("next", None, s))
                s1 = dict(s); s1.pop(("#em",), None)
                s1[("#dom",)] = s.get(("#dom",), ()) + (entry,)
                s1 = bind(s1)
                starts = [s1]
                if cond is not None:
                    starts = []
                    for b, s2 in self.truth(cond, s1, fr, outs):
                        if b:
                            new = frozenset((k[1], v) for k, v in s2.items() if type(k) is tuple and k[0] == "D" and k not in s1)
                            s3 = dict(s2); s3[("#dom",)] = s.get(("#dom",), ()) + (entry + (new,),)
                            starts.append(s3)
                for s2 in starts:
                    for o in self.st(n["body"], s2, fr):
                        if o[0] in ("next", "cont", "brk"):
                            nxt.append(self.endbody(s, o[2], var, loc(self.fname(fr), n), mark))
                        else: outs.append(o)
            cur = self.dedup(nxt)
        return outs + [("next", None, s) for s in self.dedup([o[2] for o in res])]
    def fname(self, fr):
        f = fr.fn
        while f is not None and "f" not in f: fr = fr.lex; f = fr.fn if fr else None
        return f or {"f": "?", "fn": "?"}
    def st(self, n, st, fr):
        if n is not None and n["k"] == "For" and n.get("c"):
            r = self.forloop(n, st, fr)
            if r is not None: return r
        if n is not None and n["k"] == "While" and n.get("c") and (n.get("body") or {}).get("k") == "Block" and n["body"]["s"]:
            last = n["body"]["s"][-1]
            if strip_casts(last).get("k") in ("Un", "Asg", "OpCall") and not any(x.get("k") == "Continue" for x in walk(n["body"])):
                m = dict(n, k="For", inc=last, body=dict(n["body"], s=n["body"]["s"][:-1]))
                m.pop("init", None)
                r = self.forloop(m, st, fr)
                if r is not None: return r
        return super().st(n, st, fr)
    def forloop(self, n, st, fr):
        i = strip_casts(n.get("inc") or {})
        step = None; v = None
        if i.get("k") == "Un" and i["op"] in ("++", "--"): v = strip_casts(i["e"]); step = 1 if i["op"] == "++" else -1
        elif i.get("k") == "Asg" and i["op"] in ("+=", "-="):
            v = strip_casts(i["x"]); y = strip_casts(i["y"])
            if y.get("k") in ("Int", "Flt"): step = float(y["v"]) * (1 if i["op"] == "+=" else -1); step = int(step) if step == int(step) else step
        elif i.get("k") == "OpCall" and i.get("op") == "++" and i.get("a"):
            v = strip_casts(i["a"][0]); step = 1
        if v is None or step is None or v.get("k") != "Ref": return None
        for t in self.changed(n["body"]):
            if t.get("k") == "Ref" and t["i"] == v["i"]: return None
        outs, res = [], []
        starts = self.st(n["init"], st, fr) if n.get("init") else [("next", None, st)]
        for o in starts:
            if o[0] != "next": outs.append(o); continue
            f = self.frame_of(v["i"], fr)
            l = f.refs.get(v["i"], ("L", f.uid, v["i"]))
            lower = self.value_of(o[2], l)
            if lower == UNK: raise Limit()
            s = self.generalise(n, o[2], fr, skip=(v["i"],))
            c = self.whole(n["c"], v, lower, step, s, fr)
            if c is not None:
                var = ("each", v["i"])
                el = c + (("elem", var),)
                val = ("ptr", el) if type(lower) is tuple else ("pos", var, c)
                r = self.nested(n, s, fr, ("each", var, c), var, None, lambda x: self.put(x, l, val))
                for q in r: (res if q[0] == "next" else outs).append(q)
                continue
            if type(lower) is tuple and lower[:1] in (("iter",), ("obj",), ("ptr",)): return None
            var = ("var", v["i"])
            s0 = self.put(s, l, ("after", var))
            r = self.nested(n, s0, fr, ("for", var, hashable(lower), step), var, n["c"], lambda x: self.put(x, l, var))
            for q in r:
                (res if q[0] == "next" else outs).append(q)
        own = n.get("init") and n["init"].get("k") == "Decl"
        return outs + [("next", None, s) for s in self.dedup([self.merge(o[2], v["i"] if own else None) for o in res])]
    def whole(self, cond, v, lower, step, st, fr):
        """the container, if the loop goes through all of one from its beginning to its end"""
        c = strip_casts(cond)
        if step != 1: return None
        if c.get("k") == "Bin" and c["op"] in ("<", "!=", ">"): x, y = c["x"], c["y"]
        elif c.get("k") == "OpCall" and c["op"] in ("!=", "<") and len(c["a"]) == 2: x, y = c["a"]
        else: return None
        me = lambda e: strip_casts(e).get("k") == "Ref" and strip_casts(e)["i"] == v["i"]
        if c["op"] == ">": x, y = y, x
        if not me(x):
            if c["op"] != "!=" or not me(y): return None
            x, y = y, x
        r = self.rv(y, st, fr, [])
        if len(r) != 1: return None
        e = r[0][0]
        if type(lower) is tuple and lower[:1] == ("iter",) and e == ("enditer",) + lower[1:]: return self.source(lower[1], st)
        if lower == 0 and type(lower) is not bool and type(e) is tuple and e[:1] == ("size",): return self.source(e[1], st)
        return None
    def merge(self, s, i):
        return {k: x for k, x in s.items() if not (type(k) is tuple and (k[0] == "#last" or len(k) == 3 and k[0] == "L" and k[2] == i)) and not (k == ("#dom",) and not x)}
    def rfor(self, n, st, fr):
        outs, res = [], []
        v = n["v"]
        for c, s in self.lv(n["r"], st, fr, outs):
            x = s.get(c)
            # a copy of a container is iterated like the container
            if type(x) is tuple and x and x[0] in ("copyof", "sym", "elems") and type(x[1]) is tuple: c = x[1]
            if type(x) is tuple and x[:1] == ("tuple",) and v.get("bind") is None:
                cur = [s]
                for e in x[1:]:
                    nx = []
                    for s1 in cur:
                        fr.refs.pop(v["i"], None)
                        for o in self.st(n["body"], self.put(s1, ("L", fr.uid, v["i"]), e), fr):
                            if o[0] in ("next", "cont"): nx.append(o[2])
                            else: outs.append(o)
                    cur = self.dedup(nx)
                res += [("next", None, s1) for s1 in cur]
                continue
            if x == ("empty",):
                res.append(("next", None, s))
                continue
            var = ("each", v["i"])
            s = self.generalise(n, s, fr)
            el = c + (("elem", var),)
            l = ("L", fr.uid, v["i"])
            def bind(x):
                if isref(v["t"]) and not v.get("bind"):
                    fr.refs[v["i"]] = el
                    return x
                fr.refs.pop(v["i"], None)
                return self.put(x, l, ("sym", el))
            for q in self.nested(n, s, fr, ("each", var, c), var, None, bind):
                (res if q[0] == "next" else outs).append(q)
        return outs + res
    def decl(self, v, st, fr, outs):
        if v.get("bind") and v.get("init"):
            res = []
            for l, s in self.lv(v["init"], st, fr, outs):
                for b in v["bind"]: fr.refs[b["i"]] = l + (self.bindname(v, b),)
                res.append(s)
            return res
        return super().decl(v, st, fr, outs)
    # ---- expressions
    def rv(self, n, st, fr, outs):
        if n is not None and n.get("k") == "Un" and n["op"] in ("++", "--"):
            r = []
            for l, s in self.lv(n["e"], st, fr, outs):
                v = self.get(s, l, n)
                nv = A("+" if n["op"] == "++" else "-", v, 1) if v != UNK else UNK
                r.append((v if n.get("post") else nv, self.put(s, l, nv)))
            return r
        r = super().rv(n, st, fr, outs)
        if n is not None and n.get("k") == "Asg":
            for l, _ in self.lv(n["x"], r[0][1], fr, []) if r else []:
                for v, s in r:
                    if s.get(("#dom",)): self.assigned.setdefault(l, set()).add((hashable(v), s.get(("#dom",), ()), self.decisions(s), s.get(("#em",), ()), self.here(n, fr)))
        if n is not None and n.get("k") == "Cast" and n.get("ck") == "FloatingToIntegral":
            r = [(A("std::trunc", v) if type(v) is tuple and v != UNK and v[0] in ("app",) else v, s) for v, s in r]
        return r
    def prim(self, n, name, ol, args, st, fr):
        k, sh = n["k"], short(name)
        foreign = "u" not in n or n["u"] not in self.prog.fns
        if k == "Ctor" and not args and not foreign and ol is not None and (self.prog.fns[n["u"]].get("defaulted") or not self.prog.fns[n["u"]].get("body")):
            return [(("obj", ol), st)]
        if k == "MCall" and ol is not None and not args and sh in ("begin", "cbegin", "end", "cend"):
            return [(("iter" if "begin" in sh else "enditer", ol), st)]
        if name in self.opq:
            return [(("app", name) + ((hashable(self.value_of(st, ol)),) if ol is not None else ()) + tuple(self.arg_value(a, st) for a in args), st)]
        if name.startswith("Configuration"):
            if sh == "operator[]" and args and ol is not None:
                key = self.val(args[0], st)
                if type(key) is tuple and key[:1] == ("str",): return [(("ref", ol + (("key", key[1]),)), st)]
                return [(UNK, st)]
            if sh == "operator>>" and args and args[0][0] == "l":
                return [(("ref", ol), self.put(st, args[0][1], self.value_of(st, ol)))]
            if sh == "operator<<" and args:
                v = self.val(args[0], st)
                if type(v) is tuple and v[:1] == ("obj",): v = ("sym", v[1])
                return [(("ref", ol), self.put(st, ol, v))]
            if sh == "str": return [(self.value_of(st, ol), st)]
            if k == "Ctor" and not args and ol is not None: return [(("obj", ol), st)]
        if foreign:
            if k == "Ctor" and "basic_string" in n.get("t", "") and len(args) >= 1:
                return [(self.val(args[0], st), st)]
            cont = re.search(r"\b(vector|set|unordered_set|multiset|deque|list)<", n.get("ot", "") or n.get("t", "") or "")
            if k == "MCall" and ol is not None:
                if sh in PUSH:
                    p = self.payload(args, n, st)
                    return [(("ref", ol + (("last",),)) if sh == "emplace_back" else None, self.emit(st, ol, p, self.here(n, fr)))]
                if sh in INS and ("set" in name):
                    its = [self.val(a, st) for a in args]
                    if len(its) == 2 and all(type(x) is tuple and x and x[0] in ("iter", "enditer") for x in its):
                        return [(None, self.put(st, ol, ("elems", self.source(its[0][1], st))))]
                    p = self.payload(args if sh == "insert" else args, n, st)
                    s = self.emit(st, ol, p, self.here(n, fr), True)
                    l = self.newloc()
                    s = self.put(s, l + ("std::pair::second",), ("inserted", ol, p))
                    return [(("obj", l), s)]
                if sh in INS + ("assign",) and args:
                    its = [self.val(a, st) for a in args if type(self.val(a, st)) is tuple and self.val(a, st)[:1] in (("iter",), ("enditer",))]
                    src = [x[1] for x in its if x[1] != ol]
                    if src: return [(None, self.put(st, ol, ("elems", self.source(src[-1], st))))]
                    if len(args) == 2 and sh == "insert" and its:      # insert(end(), x)
                        return [(None, self.emit(st, ol, self.payload(args[1:], n, st), self.here(n, fr)))]
                if sh in ("count", "contains") and args:
                    return [(("app", "contains", hashable(("at", ol)), self.payload(args, n, st)), st)]
                if sh == "back" and not args: return [(("ref", ol + (("last",),)), st)]
                if sh in ("size",) and not args: return [(("size", ol), st)]
                if sh in ("reserve", "shrink_to_fit"): return [(None, st)]
                if sh == "clear":
                    self.cleared.add(ol)
                    s = {x: y for x, y in st.items() if not (type(x) is tuple and x[:len(ol)] == ol)}
                    s[ol] = ("empty",)
                    return [(None, s)]
                if sh == "at" and args: return [(("ref", ol + (("idx", self.arg_value(args[0], st)),)), st)]
            if k == "Ctor" and cont and len(args) >= 2:
                its = [self.val(a, st) for a in args[:2]]
                if all(type(x) is tuple and x and x[0] in ("iter", "enditer") for x in its):
                    return [(("elems", self.source(its[0][1], st)), st)]
            if k == "Ctor" and cont and not args: return [(("empty",), st)]
            if k == "Call" and name in ("std::sort", "std::stable_sort"): return [(None, st)]
            if k == "OpCall" and n["op"] == "*" and ol is not None and ("shared_ptr" in n.get("pt", [""])[0] if n.get("pt") else True) and not args:
                v = self.value_of(st, ol)
                return [(("ref", self.deref(v) if type(v) is tuple and v[:1] == ("ptr",) else ol), st)]
            if k == "OpCall" and n["op"] == "->" and ol is not None:
                v = st.get(ol)
                if type(v) is tuple and v[:1] == ("ptr",): return [(v, st)]
                return [(("ptr", ol), st)]
            if k == "OpCall" and n["op"] == "[]" and ol is not None and "bool" in n.get("t", "") + str(n.get("ot", "")) and "_Bit" not in n.get("t", ""):
                return [(("app", "[]", hashable(("at", ol)), self.arg_value(args[0], st)), st)]
        return super().prim(n, name, ol, args, st, fr)
    def source(self, l, st):
        v = st.get(l)
        return v[1] if type(v) is tuple and v[:1] in (("elems",), ("copyof",), ("sym",)) and type(v[1]) is tuple else l
    def payload(self, args, n, st):
        vs = tuple(self.freeze(("obj", a[1]), st) if a[0] == "l" and any(type(k) is tuple and len(k) > len(a[1]) and k[:len(a[1])] == a[1] for k in st) else self.freeze(self.arg_value(a, st), st) for a in args)
        return vs[0] if len(vs) == 1 else ("args",) + vs

def canon(t):
    """element number i of a container, with i running over all of it, is simply each element"""
    if type(t) is not tuple: return t
    if t[:1] == ("idx",) and len(t) == 2 and type(t[1]) is tuple and t[1][:1] == ("pos",): return ("elem", t[1][1])
    if t[:1] == ("app",) and len(t) == 4 and t[1] == "[]" and type(t[3]) is tuple and t[3][:1] == ("pos",) and t[2][:1] == ("at",): return ("sym", t[2][1] + (("elem", t[3][1]),))
    return tuple(canon(x) for x in t)

def field(p, q, i=None):
    """a member of an emitted object"""
    if type(p) is tuple and p[:1] == ("object",):
        for k, v in p[2]:
            if k == (q,) + (() if i is None else (("idx", i),)): return v
            if i is not None and k == (q,) and type(v) is tuple:
                if v[:1] == ("tuple",): return v[1 + i]
                if v[:1] in (("sym",), ("copyof",)): return ("sym", v[1] + (("idx", i),))
            if i is not None and k == (q, "std::array::_M_elems") and type(v) is tuple and v[:1] == ("tuple",): return v[1 + i]
        if p[1] is not None: return ("sym", p[1][1] + (q,) + (() if i is None else (("idx", i),)))
        return UNK
    if type(p) is tuple and p[:1] in (("sym",), ("copyof",)):
        return ("sym", p[1] + (q,) + (() if i is None else (("idx", i),)))
    return UNK

def enumerate_domain(em, env):
    """values of the loop variables for which an emission happens at a point; ValueError if not understood"""
    payload, doms, decs, at = em
    allv = [d[1] for d in doms]
    def holds(ds, e):
        for t, b in ds:
            if type(t) is tuple and t[:1] in (("inserted",), ("flag",)): continue
            if bool(cval(t, e)) != b: return False
        return True
    outer = [(t, b) for t, b in decs if not any(mentions_var(t, v) for v in allv)]
    if not holds(outer, env): return
    inner = [(t, b) for t, b in decs if any(mentions_var(t, v) for v in allv)]
    def rec(i, bound):
        e = lambda x: bound[x] if x in bound else env(x)
        if i == len(doms):
            if holds(inner, e): yield dict(bound)
            return
        d = doms[i]
        if d[0] == "each":
            yield from rec(i + 1, bound)
            return
        v = cval(d[2], e)
        for _ in range(200):
            b2 = dict(bound); b2[d[1]] = v
            e2 = lambda x: b2[x] if x in b2 else env(x)
            if not holds(d[4] if len(d) > 4 else (), e2): return
            yield from rec(i + 1, b2)
            v = v + d[3]
        raise ValueError("unbounded")
    yield from rec(0, {})
