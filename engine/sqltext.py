"""Abstract SQL: evaluates code that assembles SQL text (literals, streams, concatenation) and drives
sqlite::statement objects; text is kept as segments of literal characters and symbolic holes."""
from fev import *
import re

# ------------------------------------------------------------------ SQL text
TOK = re.compile(r"\s+|--[^\n]*\n?|(?P<str>'(?:[^']|'')*')|(?P<id>[A-Za-z_\x01][\w\x01\x02]*|`[^`]*`|\[[^\]]*\]|\"[^\"]*\")|(?P<num>-?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?|-?\.\d+)|(?P<par>\?\d*)|(?P<op><=|>=|!=|<>|==|\|\||[=<>(),;.*+\-/%])")

class SqlError(Exception):
    pass

class Tok(tuple):
    __slots__ = ()
def tokenize(text):
    pos, out = 0, []
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise SqlError(f"cannot read SQL near {text[pos:pos+30]!r}")
        pos = m.end()
        if m.lastgroup:
            v = m.group()
            if m.lastgroup == "id":
                if v[0] in "`[\"":
                    v = v[1:-1]
            out.append((m.lastgroup, v))
    return out

def split_statements(toks):
    cur, out = [], []
    for t in toks:
        if t == ("op", ";"):
            if cur: out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur: out.append(cur)
    return out

class P:
    def __init__(self, toks):
        self.t, self.i, self.par = toks, 0, 0
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end", "")
    def kw(self, *ws):
        for k, w in enumerate(ws):
            x = self.peek(k)
            if x[0] != "id" or x[1].lower() != w:
                return False
        self.i += len(ws)
        return True
    def op(self, o):
        if self.peek() == ("op", o):
            self.i += 1
            return True
        return False
    def need(self, o):
        if not self.op(o):
            raise SqlError(f"expected {o!r}, found {self.peek()[1]!r}")
    def ident(self):
        x = self.peek()
        if x[0] != "id":
            raise SqlError(f"expected a name, found {x[1]!r}")
        self.i += 1
        return x[1]
    def value(self):
        x = self.peek()
        self.i += 1
        if x[0] == "par":
            if x[1] == "?":
                self.par += 1
                return ("par", self.par)
            self.par = max(self.par, int(x[1][1:]))
            return ("par", int(x[1][1:]))
        if x[0] == "str":
            return ("str", x[1][1:-1])
        if x[0] == "num":
            return ("num", x[1])
        if x[0] == "id":
            if self.op("."):
                return ("col", x[1], self.ident())
            if self.op("("):
                a = []
                d = 1
                while d and self.i < len(self.t):
                    y = self.peek(); self.i += 1
                    if y == ("op", "("): d += 1
                    elif y == ("op", ")"): d -= 1
                    if d: a.append(y)
                for y in a:
                    if y[0] == "par":
                        self.par += 1
                return ("fun", x[1].lower(), tuple(a))
            return ("col", None, x[1])
        if x == ("op", "*"):
            return ("star",)
        if x == ("op", "("):
            v = self.value(); self.need(")")
            return v
        if x == ("op", "-"):
            return self.value()
        raise SqlError(f"expected a value, found {x[1]!r}")
    def conds(self):
        """conjunction of comparisons (parentheses allowed); OR is reported as such"""
        out = []
        def atom():
            if self.op("("):
                r = conj(); self.need(")"); return r
            if self.kw("not"):
                return [("complex",)] + atom()
            l = self.value()
            x = self.peek()
            if x[0] == "op" and x[1] in ("=", "==", "<", ">", "<=", ">=", "!=", "<>"):
                self.i += 1
                r = self.value()
                return [("cmp", "=" if x[1] == "==" else x[1], l, r)]
            if self.kw("is"):
                r = self.value()
                return [("cmp", "=", l, r)]
            raise SqlError(f"unsupported condition near {x[1]!r}")
        def conj():
            r = atom()
            while True:
                if self.kw("and"):
                    r += atom()
                elif self.kw("or"):
                    r += [("complex",)] + atom()
                else:
                    return r
        return conj()

def parse_sql(text):
    out = []
    for toks in split_statements(tokenize(text)):
        p = P(toks)
        s = {"params": 0}
        if p.kw("create"):
            s["kind"] = "create"; s["temp"] = p.kw("temporary") or p.kw("temp")
            if not p.kw("table"):
                s["kind"] = "other"; out.append(s); continue
            s["ifnot"] = p.kw("if", "not", "exists")
            s["table"] = p.ident().lower(); s["cols"] = []; s["keys"] = []
            if not p.op("("):
                s["kind"] = "other"; out.append(s); continue
            while True:
                if p.kw("unique") or p.kw("primary", "key"):
                    p.need("("); ks = []
                    while not p.op(")"):
                        ks.append(p.ident().lower()); p.op(",")
                    s["keys"].append(ks)
                else:
                    name = p.ident().lower(); rest = []
                    d = 0
                    while p.i < len(toks):
                        x = p.peek()
                        if d == 0 and x in (("op", ","), ("op", ")")):
                            break
                        d += (x == ("op", "(")) - (x == ("op", ")"))
                        rest.append(x[1].lower()); p.i += 1
                    s["cols"].append((name, rest[0] if rest else "", "default" in rest))
                    if "primary" in rest or "unique" in rest:
                        s["keys"].append([name])
                if p.op(","):
                    continue
                p.need(")")
                break
        elif p.kw("insert") or p.kw("replace"):
            s["kind"] = "insert"; s["mode"] = "replace" if toks[0][1].lower() == "replace" else "abort"
            if p.kw("or"):
                s["mode"] = p.ident().lower()
            if not p.kw("into"):
                raise SqlError("insert without into")
            s["table"] = p.ident().lower(); s["cols"] = None
            if p.op("("):
                s["cols"] = []
                while not p.op(")"):
                    s["cols"].append(p.ident().lower())
                    if not p.op(",") and p.peek() != ("op", ")"):
                        raise SqlError(f"column list: unexpected {p.peek()[1]!r}")
            if not p.kw("values"):
                raise SqlError("insert without values")
            s["rows"] = []
            while p.op("("):
                vs = []
                while not p.op(")"):
                    vs.append(p.value())
                    if not p.op(",") and p.peek() != ("op", ")"):
                        raise SqlError(f"value list: unexpected {p.peek()[1]!r}")
                s["rows"].append(vs)
                p.op(",")
            s["vals"] = s["rows"][0] if s["rows"] else []
        elif p.kw("select"):
            s["kind"] = "select"; p.kw("distinct"); s["items"] = []
            while True:
                s["items"].append(p.value())
                if p.kw("as"):
                    p.ident()
                if not p.op(","):
                    break
            s["tables"] = {}; s["conds"] = []
            if p.kw("from"):
                def table():
                    t = p.ident().lower(); a = t
                    x = p.peek()
                    if p.kw("as"):
                        a = p.ident()
                    elif x[0] == "id" and x[1].lower() not in ("inner", "join", "where", "on", "order", "group", "limit", "left", "cross"):
                        a = p.ident()
                    s["tables"][a] = t
                    s["tables"].setdefault(t, t)
                table()
                while True:
                    if p.op(","):
                        table()
                    elif p.kw("inner", "join") or p.kw("join") or p.kw("cross", "join"):
                        table()
                        if p.kw("on"):
                            s["conds"] += p.conds()
                    else:
                        break
                if p.kw("where"):
                    s["conds"] += p.conds()
                if p.i < len(toks):
                    s["tail"] = " ".join(x[1] for x in toks[p.i:])
        elif p.kw("update"):
            s["kind"] = "update"; s["table"] = p.ident().lower(); s["sets"] = []; s["conds"] = []
            if not p.kw("set"):
                raise SqlError("update without set")
            while True:
                c = p.ident().lower(); p.need("="); s["sets"].append((c, p.value()))
                if not p.op(","):
                    break
            if p.kw("where"):
                s["conds"] = p.conds()
        else:
            s["kind"] = "other"; s["words"] = [x[1].lower() for x in toks]
        s["params"] = p.par
        out.append(s)
    return out

# ------------------------------------------------------------------ evaluation
STREAMS = ("stringstream", "ostringstream", "basic_stringstream", "basic_ostringstream", "basic_ostream", "std::ostream")

def is_strtype(t):
    t = t.replace("const ", "").rstrip("& ").strip()
    return t in ("std::string", "std::basic_string<char>", "string") or t.startswith("std::basic_string<") or t.startswith("std::__cxx11::basic_string")

class SqlText(FEval):
    """store: <stmt loc>+('#sql',) text; '#prep' bool; '#bound' frozenset((index, value)); '#row' bool."""
    max_iter = 400
    repeat_cap = 1
    def __init__(self, prog, relevant=None):
        super().__init__(prog)
        self.ev = {}          # (kind, file:line) -> set of facts
        self.problems = {}    # key -> text
        self.relevant = relevant
        self.texts = {}
        self.sites = set()
    def inline(self, f, n):
        if getattr(self, "entry", None) is not None and f.get("cls") != self.entry.get("cls") and "p" in f and "f" in f \
           and not any("sqlite" in p["t"] or "stringstream" in p["t"] or ("std::string &" in p["t"] and "const" not in p["t"]) for p in f["p"]) \
           and not is_strtype(f.get("t", "")):
            return False
        return self.relevant is None or f["u"] in self.relevant or "#all" in self.relevant
    def load_default(self, loc, st, n):
        return ("sym", loc)
    def problem(self, key, text):
        self.problems.setdefault(key, text)

    # decisions on one symbolic value are remembered
    def truth(self, n, st, fr, outs):
        res = []
        for v, s in self.rv(n, st, fr, outs):
            t = self.asbool(v)
            neg = False
            while type(v) is tuple and len(v) == 2 and v[0] == "not":
                v, neg = v[1], not neg
            if t is None and type(v) is tuple and v and v[0] in ("sym", "app") and ("D", v) in s:
                t = s[("D", v)] != neg
            if t is None:
                for b in (True, False):
                    s2 = s
                    if type(v) is tuple and v and v[0] in ("sym", "app"):
                        s2 = dict(s); s2[("D", v)] = b != neg
                    res.append((b, s2))
            else:
                res.append((t, s))
        return res
    def negate(self, v):
        return ("not", v)

    def touches(self, n):
        """Whether a statement works on text or on statements (or leaves the construct it is in)."""
        c = self._touch.get(id(n))
        if c is not None:
            return c[1]
        r = False
        for x in walk(n):
            k = x.get("k")
            if k in ("Return", "Break", "Continue"):
                r = True; break
            if k == "Var" and (is_strtype(x["t"]) or "stringstream" in x["t"] or "sqlite" in x["t"]):
                r = True; break
            if k in ("Call", "MCall", "OpCall", "Ctor"):
                if (x.get("fn") or "").startswith("sqlite::") or "sqlite::" in x.get("t", "") or (x.get("u") in (self.relevant or ()) and "u" in x):
                    r = True; break
                if k == "OpCall" and x["op"] in ("<<", "=", "+=") and x["a"]:
                    t = strip_casts(x["a"][0])
                    while t.get("k") == "OpCall" and t["op"] == "<<" and t["a"]:
                        t = strip_casts(t["a"][0])
                    tt = t.get("t", "")
                    if t.get("k") in ("Ref", "Mem") and (is_strtype(tt) or "stringstream" in tt or "iostream" in tt):
                        r = True; break
                if k == "MCall" and x.get("o") and ("stringstream" in (x.get("fn") or "") or short(x.get("fn")) in ("append", "push_back", "clear") and is_strtype(x.get("ot", ""))):
                    r = True; break
        self._touch[id(n)] = (n, r)
        return r
    _touch = {}
    def st(self, n, st, fr):
        if n is not None and n["k"] in ("If", "For", "While", "DoWhile", "RFor", "Switch", "Try", "OMP", "Block") and self.relevant is not None and not self.touches(n):
            s = st
            for x in walk(n):
                t = None
                if x.get("k") == "Asg": t = strip_casts(x["x"])
                elif x.get("k") == "OpCall" and x["op"] in ("=", "+=", "-=", "++", "--") and x["a"]: t = strip_casts(x["a"][0])
                elif x.get("k") == "Un" and x["op"] in ("++", "--"): t = strip_casts(x["e"])
                if t is not None and t.get("k") == "Ref" and t["w"] in ("local", "param"):
                    f = self.frame_of(t["i"], fr)
                    l = f.refs.get(t["i"], ("L", f.uid, t["i"]))
                    if s.get(l) != UNK:
                        s = self.put(s, l, UNK)
            return [("next", None, s)]
        if n is not None and n["k"] in ("For", "While", "DoWhile") and not n.get("#h"):
            # what the loop counts or flags is unknown in a general iteration
            outs, cur = [], [st]
            if n.get("init"):
                cur = []
                for o in super().st(n["init"], st, fr):
                    (cur.append(o[2]) if o[0] == "next" else outs.append(o))
            m = dict(n); m.pop("init", None); m["#h"] = True
            mod = set()
            for x in walk(n):
                t = None
                if x.get("k") == "Asg": t = strip_casts(x["x"])
                elif x.get("k") == "Un" and x["op"] in ("++", "--"): t = strip_casts(x["e"])
                elif x.get("k") == "OpCall" and x["op"] in ("++", "--") and x["a"]: t = None
                if t is not None and t.get("k") == "Ref" and t["w"] in ("local", "param"):
                    mod.add(t["i"])
            for s in cur:
                for i in mod:
                    f = self.frame_of(i, fr)
                    l = f.refs.get(i, ("L", f.uid, i))
                    s = self.put(s, l, UNK)
                outs += super().st(m, s, fr)
            return outs
        if n is not None and n["k"] == "Decl" and self.relevant is not None and not self.touches(n):
            s = st
            rest = []
            for v in n["d"]:
                e = v.get("init")
                if e and any(x.get("k") in ("Cond", "Lambda") or (x.get("k") == "Bin" and x["op"] in ("&&", "||")) for x in walk(e)) and not isref(v["t"]) and not v.get("bind"):
                    l = ("L", fr.uid, v["i"])
                    s = self.put(s, l, UNK)
                else:
                    rest.append(v)
            if len(rest) != len(n["d"]):
                return super().st({"k": "Decl", "d": rest, "l": n.get("l")}, s, fr) if rest else [("next", None, s)]
        return super().st(n, st, fr)
    def rfor(self, n, st, fr):
        """Elements are symbolic members of the range; any number of iterations (texts stop growing on repetition)."""
        outs, res = [], []
        v = n["v"]
        self.rlv = getattr(self, "rlv", {})
        cur = []
        for l, s in self.lv(n["r"], st, fr, outs):
            cur.append((l, s))
        for l, s0 in cur:
            el = l + ("elem",)
            seen = set(); todo = [s0]
            while todo:
                s = todo.pop(); uid0 = self.uid
                key = frozenset(s.items())
                if key in seen:
                    continue
                seen.add(key); res.append(("next", None, s))
                if len(seen) > 300:
                    raise Limit()
                if v.get("bind"):
                    for b in v["bind"]:
                        fr.refs[b["i"]] = el + ("#" + b["n"],)
                else:
                    fr.refs[v["i"]] = el
                for o in self.st(n["body"], s, fr):
                    if o[0] in ("next", "cont"):
                        todo.append(self.collapse(s, self.fresh_elem(self.gc(o[2], uid0, fr), el)))
                    elif o[0] == "brk":
                        res.append(("next", None, o[2]))
                    else:
                        outs.append(o)
        return outs + res
    def fresh_elem(self, st, el):
        """what was decided about one element says nothing about the next"""
        def men(v):
            return type(v) is tuple and (v[:len(el)] == el or any(men(x) for x in v))
        dead = [k for k in st if type(k) is tuple and ((k[0] == "D" and men(k[1])) or k[:len(el)] == el)]
        return {k: v for k, v in st.items() if k not in dead} if dead else st
    join_above = 6
    def dedup(self, sts):
        sts = super().dedup(sts)
        if len(sts) <= self.join_above:
            return sts
        groups = {}
        for s in sts:
            key = frozenset((k, v) for k, v in s.items() if type(k) is tuple and type(k[-1]) is str and k[-1].startswith("#") and k[0] != "D" or type(v) is tuple and v and v[0] == "S")
            groups.setdefault(key, []).append(s)
        out = []
        for g in groups.values():
            m = dict(g[0])
            for s in g[1:]:
                for k in set(m) | set(s):
                    if k in m and k in s and m[k] == s[k] and type(m[k]) is type(s[k]):
                        continue
                    if type(k) is tuple and k[0] == "D":
                        m.pop(k, None)
                    else:
                        m[k] = UNK
            out.append(m)
        return out
    def collapse(self, before, after):
        """A text that grew by a repetition of what it already ends with stays as it was."""
        ch = None
        for k, v in after.items():
            if type(v) is tuple and v and v[0] == "S":
                b = before.get(k)
                if type(b) is tuple and b and b[0] == "S" and b != v and len(v[1]) > len(b[1]):
                    m = merge(v[1]); mb = merge(b[1])
                    add = suffix(mb, m)
                    if add is not None and ends(mb, add):
                        ch = ch or dict(after)
                        ch[k] = b
        return ch or after

    # ---- text helpers
    def text(self, v):
        """segments of a value used as text, or None"""
        if type(v) is tuple and v:
            if v[0] == "S":
                return v[1]
            if v[0] == "str":
                return (v[1],)
            if v == UNK:
                return (("h", UNK),)
            return (("h", v),)
        if v is None:
            return (("h", UNK),)
        if type(v) is bool:
            return (str(int(v)),)
        if type(v) is float:
            return (repr(v),)
        return (str(v),)
    def val(self, a, st):
        return a[1] if a[0] == "v" else self.value_of(st, a[1])

    def cat(self, a, b):
        return ("S", merge(self.text(a) + self.text(b)))

    def here(self, n, fr):
        f = fr
        while f is not None and "f" not in f.fn:
            f = f.lex
        return loc(f.fn if f else fr.fn, n)
    def fname(self, fr):
        f = fr
        while f is not None and "f" not in f.fn:
            f = f.lex
        return f.fn if f else fr.fn

    def prim(self, n, name, ol, args, st, fr):
        sh = short(name)
        k = n["k"]
        # ---- smart pointers, iterators
        if ol is not None and k in ("OpCall", "MCall") and sh in ("operator->", "operator*", "get") and "u" not in n and not args:
            if sh == "get" and "_ptr" not in name:
                return None
            if "_ptr" in name:
                v = self.value_of(st, ol)
                if type(v) is tuple and v and v[0] == "ptr":
                    return [((("ref", v[1]) if sh == "operator*" else v), st)]
            return [((("ptr", ol + ("*",)) if sh in ("get", "operator->") else ("ref", ol + ("*",))), st)]
        if name in ("std::make_unique", "std::make_shared"):
            l = ("H", self.here(n, fr))
            rt = n.get("t", "")
            if "sqlite::statement" in rt:
                return [(("ptr", l), self.mkstmt(l, args[1:], st))]
            return [(("ptr", l), st)]
        # ---- statement objects
        if k == "Ctor" and n.get("t", "").replace("const ", "").strip() in ("sqlite::statement", "statement"):
            return [(("obj", ol), self.mkstmt(ol, args[1:], st))]
        if name.startswith("sqlite::statement::") and ol is not None:
            return self.stmt_op(n, sh, ol, args, st, fr)
        if k == "Ctor" and n.get("t", "").startswith("sqlite::"):
            return [(("obj", ol), st)] if ol else [(UNK, st)]
        # ---- text
        if k == "OpCall" and n["op"] == "<<":
            if ol is not None:
                so, v = ol, self.val(args[0], st)
            else:
                so = args[0][1] if args[0][0] == "l" else None
                v = self.val(args[1], st)
            if so is None:
                return [(UNK, st)]
            if so[0] == "G":
                return [(("ref", so), st)]
            old = st.get(so)
            if type(old) is tuple and old and old[0] == "S":
                if type(v) is tuple and v and v[0] == "fn":
                    return [(("ref", so), st)]
                s2 = dict(st); s2[so] = self.cat(old, v)
                return [(("ref", so), s2)]
            if k == "OpCall" and n.get("u") is None:
                return [(("ref", so), st)]
            return None
        if k == "Ctor" and any(x in n.get("t", "") for x in ("stringstream", "ostringstream")):
            v = self.val(args[0], st) if args and args[0][0] == "v" else None
            init = ("S", ())
            if args:
                v = self.val(args[0], st)
                if type(v) is tuple and v and v[0] in ("S", "str"):
                    init = ("S", self.text(v))
            if ol is not None:
                return [(("obj", ol), self.put(st, ol, init))]
            return [(init, st)]
        if k == "MCall" and sh == "str" and ("stringstream" in name or "ostringstream" in name) and ol is not None:
            if args:
                return [(None, self.put(st, ol, ("S", self.text(self.val(args[0], st)))))]
            v = st.get(ol)
            return [(v if type(v) is tuple and v and v[0] == "S" else UNK, st)]
        if k == "Ctor" and is_strtype(n.get("t", "")):
            if not args:
                v = ("S", ())
            else:
                v = self.val(args[0], st)
                if type(v) is tuple and v and v[0] == "str":
                    v = ("S", (v[1],))
            if ol is not None and ol in ():
                pass
            return [(v, st)]
        if k == "OpCall" and n["op"] == "+" and is_strtype(n.get("t", "")):
            vs = [self.val(a, st) for a in args]
            if ol is not None:
                vs = [self.value_of(st, ol)] + vs
            if len(vs) == 2:
                return [(self.cat(*vs), st)]
        if k in ("OpCall", "MCall") and ol is not None and (n.get("op") in ("+=",) or sh in ("append", "push_back")) and "basic_string" in name or (ol is not None and name in ("std::string::append", "std::string::operator+=", "std::string::push_back")):
            if args:
                old = self.value_of(st, ol)
                return [(("ref", ol), self.put(st, ol, self.cat(old, self.val(args[0], st))))]
        if k == "OpCall" and n["op"] == "=" and ol is not None and args and "u" not in n:
            v = self.val(args[0], st)
            if type(v) is tuple and v and v[0] == "str":
                v = ("S", (v[1],))
            return [(("ref", ol), self.put(st, ol, v))]
        if name in ("std::to_string",) and args:
            return [(self.val(args[0], st), st)]
        if name in ("std::begin", "std::end") or (k == "MCall" and sh in ("begin", "end", "cbegin", "cend", "find") and "u" not in n and ol is not None):
            return [(("app", sh, ("sym", ol)), st)]
        if "u" not in n and ol is not None and k in ("MCall", "OpCall"):
            if k == "OpCall" and n["op"] == "[]":
                i = self.val(args[0], st) if args else UNK
                return [(("ref", ol + (("idx", hashable(i)),)), st)]
            if sh in ("at", "front", "back"):
                i = self.val(args[0], st) if args else sh
                return [(("ref", ol + (("idx", hashable(i)),)), st)]
            if n.get("const"):
                o = self.value_of(st, ol)
                if o == UNK:
                    return [(UNK, st)]
                return [(("app", sh, o) + tuple(hashable(self.val(a, st)) for a in args), st)]
            # a foreign member function that may change the object
            if n.get("op") in ("()", "->", "*", "++", "--") and k == "OpCall":
                return [(("ref", ol), st)] if n["op"] in ("++", "--") else None
            return [(UNK, self.put(st, ol, UNK))]
        f = self.prog.fns.get(n.get("u")) if n.get("u") else None
        if f is not None and k != "Ctor" and not self.inline(f, n):
            s = st
            pts = n.get("pt", [])
            for i, (kind, v) in enumerate(args):
                if kind == "l" and i < len(pts) and not is_const_type(pts[i]):
                    s = self.put(s, v, UNK)
            vs = tuple(hashable(self.val(a, st)) for a in args)
            o = self.value_of(st, ol) if ol is not None else None
            return [(("app", name, hashable(o)) + vs, s)]
        return None

    def mkstmt(self, l, args, st):
        s = dict(st)
        for k in list(s):
            if type(k) is tuple and len(k) > len(l) and k[:len(l)] == l:
                del s[k]
        sql = ("S", ())
        if args:
            v = self.val(args[0], st)
            if v is not None:
                sql = ("S", self.text(v))
        s[l + ("#sql",)] = sql
        s[l + ("#prep",)] = False
        return s

    def stmt_op(self, n, sh, ol, args, st, fr):
        at = self.here(n, fr)
        fn = self.fname(fr)["fn"]
        s = dict(st)
        q = lambda x: ol + (x,)
        self.sites.add((at, sh))
        if sh == "set":
            v = self.val(args[0], st)
            s[q("#sql")] = ("S", self.text(v)); s[q("#prep")] = False
            return [(None, s)]
        if sh == "exec":
            v = self.val(args[0], st)
            s[q("#sql")] = ("S", self.text(v)); s[q("#prep")] = False
            self.on_exec(at, fn, ("S", self.text(v)), s, fr)
            return [(None, s)]
        sql = st.get(q("#sql"))
        if sh == "prepare":
            for kk in ("#bound", "#row", "#done"):
                s.pop(q(kk), None)
            s[q("#prep")] = True
            s[q("#cur")] = sql
            self.on_prepare(at, fn, sql, s, fr)
            return [(None, s)]
        cur = st.get(q("#cur"))
        known = q("#prep") in st
        if sh == "reset":
            s.pop(q("#row"), None); s.pop(q("#done"), None); s.pop(q("#stepped"), None)
            return [(None, s)]
        if sh == "bind":
            i = self.val(args[0], st); v = self.val(args[1], st)
            if known and not st.get(q("#prep")):
                self.problem(f"bind-unprepared:{fn}", f"{at}: {fn} binds a value before the statement is prepared")
            if st.get(q("#stepped")):
                self.problem(f"bind-running:{fn}", f"{at}: {fn} rebinds a value on a statement that has been stepped and not reset")
            if type(i) is int:
                b = dict(st.get(q("#bound"), frozenset()))
                b[i] = hashable(v)
                s[q("#bound")] = frozenset(b.items())
                self.on_bind(at, fn, cur, i, v, n, s, fr)
            return [(None, s)]
        if sh == "step":
            if known and not st.get(q("#prep")):
                self.problem(f"step-unprepared:{fn}", f"{at}: {fn} steps a statement that has not been prepared since its text was set")
            if st.get(q("#done")):
                self.problem(f"step-done:{fn}", f"{at}: {fn} steps a statement again after it reported no further row, without reset")
            self.on_step(at, fn, cur, st.get(q("#bound"), frozenset()), s, fr)
            a = dict(s); a[q("#row")] = True; a[q("#stepped")] = True
            b = dict(s); b[q("#row")] = False; b[q("#stepped")] = True; b[q("#done")] = True
            return [(True, a), (False, b)]
        if sh == "get":
            i = self.val(args[0], st)
            if st.get(q("#row")) is not True:
                self.problem(f"get-norow:{fn}", f"{at}: {fn} reads a column although no row is current (the step's result was not checked, or there was none)")
            v = self.on_get(at, fn, cur, i, n.get("t", ""), st.get(q("#bound"), frozenset()), s, fr)
            return [(v, s)]
        if sh in ("begin", "end"):
            return [(("app", sh, ("sym", ol)), s)]
        return [(UNK, s)]

    # ---- to be refined by checks
    def on_exec(self, at, fn, sql, s, fr): pass
    def on_prepare(self, at, fn, sql, s, fr): pass
    def on_bind(self, at, fn, sql, i, v, n, s, fr): pass
    def on_step(self, at, fn, sql, bound, s, fr): pass
    def on_get(self, at, fn, sql, i, t, bound, s, fr): return UNK

def hashable(v):
    try:
        hash(v); return v
    except TypeError:
        return UNK

def merge(segs):
    out = []
    for x in segs:
        if out and type(x) is str and type(out[-1]) is str:
            out[-1] += x
        elif x != "":
            out.append(x)
    return tuple(out)

def chars(segs):
    """flat sequence of characters and holes"""
    r = []
    for x in segs:
        if type(x) is str: r.extend(x)
        else: r.append(x)
    return r

def suffix(b, a):
    cb, ca = chars(b), chars(a)
    return ca[len(cb):] if ca[:len(cb)] == cb and len(ca) > len(cb) else None

def ends(b, add):
    cb = chars(b)
    return len(cb) >= len(add) and cb[-len(add):] == add

def render(sql):
    """(text, holes): holes are written as names \\x01<i>\\x02 so that the SQL reader sees identifiers"""
    holes = []
    out = []
    for x in sql[1]:
        if type(x) is str:
            out.append(x)
        else:
            if x[1] not in holes:
                holes.append(x[1])
            out.append(f"\x01h{holes.index(x[1])}\x02")
    return "".join(out), holes

def holes_in(tokval, holes):
    return [holes[int(i)] for i in re.findall(r"\x01h(\d+)\x02", tokval)]

def relevant_fns(prog):
    """Functions that (transitively) assemble text for, or work on, statements."""
    rel = set()
    for f in prog.fns.values():
        if f.get("cls", "").startswith("sqlite::"):
            continue
        for n in fn_nodes(f):
            if n.get("k") in ("MCall", "Ctor", "Call") and ("sqlite::" in (n.get("fn") or "") or "sqlite::" in n.get("t", "")):
                rel.add(f["u"]); break
        else:
            if is_strtype(f.get("t", "")) and not f.get("kind") in ("ctor", "dtor") and not f["fn"].startswith(("fmt::", "boost::", "std::")):
                rel.add(f["u"])
            elif any("stringstream" in p["t"] or ("std::string &" in p["t"] and "const" not in p["t"]) for p in f.get("p", [])):
                rel.add(f["u"])
    ch = True
    while ch:
        ch = False
        for f in prog.fns.values():
            if f["u"] in rel or f.get("cls", "").startswith("sqlite::"):
                continue
            for n in fn_nodes(f):
                if n.get("u") in rel and prog.fns[n["u"]].get("t") != "" and any(("sqlite" in p["t"]) for p in prog.fns[n["u"]].get("p", [])):
                    rel.add(f["u"]); ch = True
                    break
    return rel
