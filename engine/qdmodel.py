"""Abstract evaluation of every way to construct a QuantumDefect: which cache operations happen under
which key, which database answers, and which expression ends up in every delivered quantity."""
from symexp import *

class QD(SymEval):
    join_above = 10**9
    def __init__(self, prog):
        super().__init__(prog, {"#all"})
        self.gets = []
    def touches(self, n): return True
    def inline(self, f, n):
        return f.get("f", "").startswith("/repo/") and not f.get("impl") and not f.get("defaulted") and not f.get("cls", "").startswith(("sqlite::", "Cache", "EmbeddedDatabase", "no_"))
    def ev_(self, st, *e):
        s = dict(st); s[("#ev",)] = st.get(("#ev",), ()) + (e,)
        return s
    def stmt_op(self, n, sh, ol, args, st, fr):
        if sh == "exec":
            st = self.ev_(st, "exec", st.get(ol + ("#db",)), self.text(self.val(args[0], st)), frozenset((k[1], v) for k, v in st.items() if k[0] == "D"), self.here(n, fr))
        if sh == "step":
            st = self.ev_(st, "step", st.get(ol + ("#db",)))
        return super().stmt_op(n, sh, ol, args, st, fr)
    def on_get(self, at, fn, sql, i, t, bound, s, fr):
        try:
            q = parse_sql(render(sql)[0])[0]
            it = q["items"][i]
            tab = sorted(set(q["tables"].values()))[0]
        except (SqlError, IndexError, TypeError, KeyError) as e:
            return UNK
        b = dict(bound)
        cs = []
        for c in q["conds"]:
            if c[0] == "cmp" and c[1] == "=" and c[2][0] == "col" and c[3][0] in ("par", "num", "str"):
                cs.append((c[2][2].lower(), hashable(b.get(c[3][1], UNK)) if c[3][0] == "par" else c[3][1]))
            elif c[0] == "cmp" and c[1] == "=" and c[3][0] == "col" and c[2][0] in ("par", "num", "str"):
                cs.append((c[3][2].lower(), hashable(b.get(c[2][1], UNK)) if c[2][0] == "par" else c[2][1]))
            else:
                cs.append(("?", repr(c)))
        if it[0] == "fun":
            item = it[1] + "(" + "".join(x[1].lower() for x in it[2]) + ")"
        else:
            item = it[2].lower()
        return ("col", tab, item, t, tuple(sorted(cs, key=repr)))
    def prim(self, n, name, ol, args, st, fr):
        sh = short(name); k = n["k"]
        if k == "Ctor" and n.get("t", "").replace("const ", "").strip() == "sqlite::statement":
            db = self.val(args[0], st) if args else None
            s = self.mkstmt(ol, args[1:], st); s[ol + ("#db",)] = db
            return [(("obj", ol), s)]
        if k == "Ctor" and n.get("t", "").endswith(("sqlite::handle", "EmbeddedDatabase")):
            return [(("obj", ol), st)] if ol else [(UNK, st)]
        if k == "MCall" and "operator sqlite3" in name:
            return [(("dbof", ol), st)]
        if name.startswith("Cache::") and k == "MCall":
            if sh == "restore":
                key = self.snap(args[0], st)
                return [(("sym", ("HIT",)), self.ev_(st, "restore", True, key, self.known(st))),
                        (NULL, self.ev_(st, "restore", False, key, self.known(st)))]
            if sh == "save":
                return [(None, self.ev_(st, "save", self.snap(args[0], st), self.snap(args[1], st)))]
            return [(None, self.ev_(st, sh))]
        if name.startswith("std::optional::"):
            v = self.value_of(st, ol)
            if sh in ("operator bool", "has_value"): return [(v != NULL if v != UNK else UNK, st)]
            if sh in ("value", "operator*", "operator->", "value_or"): return [(("ref", ol), st)]
        if k == "Ctor" and ("ifstream" in n.get("t", "")):
            v = self.val(args[0], st) if args else UNK
            return [(("obj", ol), self.put(st, ol, ("app", "file", hashable(v))))] if ol else [(("app", "file", hashable(v)), st)]
        if k == "MCall" and sh == "open" and "ifstream" in name:
            return [(None, self.put(st, ol, ("app", "file", hashable(self.val(args[0], st)))))]
        if k == "MCall" and sh == "rdbuf" and ol is not None:
            return [(("app", "contents", hashable(self.value_of(st, ol))), st)]
        if k == "Ctor" and any(g in n.get("t", "") for g in ("lock_guard", "unique_lock", "scoped_lock", "mutex", "istreambuf_iterator")):
            if "istreambuf_iterator" in n.get("t", "") and args:
                return [(("app", "contents", hashable(self.val(args[0], st))), st)]
            return [(UNK, st)]
        if k == "MCall" and sh in ("length", "size", "empty") and "basic_string" in name and ol is not None:
            return [(("app", sh, hashable(self.value_of(st, ol))), st)]
        return super().prim(n, name, ol, args, st, fr)
    def known(self, st):
        return tuple(sorted(((k[1], v) for k, v in st.items() if k[0] == "D"), key=repr)) + tuple(("G", k, v) for k, v in st.items() if k[0] == "G")
    def snap(self, a, st):
        if a[0] == "v":
            v = a[1]
            if type(v) is tuple and v and v[0] == "obj":
                return self.snap(("l", v[1]), st)
            return v
        l = a[1]
        sub = {k[len(l):]: v for k, v in st.items() if type(k) is tuple and len(k) > len(l) and k[:len(l)] == l}
        return tuple(sorted(sub.items(), key=repr)) if sub else ("whole", hashable(self.value_of(st, l)))

def public_ctors(prog):
    cs = [f for f in prog.fns.values() if f["fn"] == "QuantumDefect::QuantumDefect" and f.get("acc") == "public" and not f.get("impl")]
    if not cs:
        raise AnalysisErr("anchor vanished: QuantumDefect has no public constructor")
    return cs
from facts import AnalysisError as AnalysisErr

def is_copy(f):
    return len(f["p"]) == 1 and "QuantumDefect" in f["p"][0]["t"]

def runs(prog):
    """[(ctor, outcome)] of the constructors that look a state up"""
    res = []
    for f in public_ctors(prog):
        if is_copy(f):
            continue
        ev = QD(prog)
        args = [("l", ("P", p["n"])) if isref(p["t"]) else ("v", ("sym", ("P", p["n"]))) for p in f["p"]]
        for o in ev.run(f, {}, ("this",), args):
            res.append((f, o, ev))
    return res

def delivered(st):
    """{quantity name: value} of the public members, through the references into the element"""
    out = {}
    for k, v in st.items():
        if type(k) is tuple and len(k) == 2 and k[0] == "this" and k[1].startswith("QuantumDefect::") and not k[1].endswith("::e"):
            nm = short(k[1])
            if type(v) is tuple and v and v[0] == "alias":
                l = v[1]
                x = None
                for i in range(len(l), 0, -1):
                    if l[:i] in st:
                        x = st[l[:i]]
                        if i < len(l):
                            x = ("part", x, l[i:])
                        break
                out[nm] = x
            else:
                out[nm] = v
    return out
