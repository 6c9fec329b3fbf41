"""Equality, order and hash of value types, decided from the bodies of the operators: which members
take part, and under which combination of member comparisons the operator answers true."""
from symexp import *

class CmpEval(SymEval):
    """object A is compared with object B; member comparisons are decided by an assignment of
    relations ('<', '=', '>') to members, forked as they are first asked for."""
    join_above = 10**9
    def __init__(self, prog):
        super().__init__(prog, {"#all"})
        self.reads = set()
    def touches(self, n): return True
    def inline(self, f, n):
        return bool(f.get("body")) and f["f"].startswith("/repo/")
    def side(self, v):
        """(side, member path) of a symbolic member value"""
        if type(v) is tuple and v and v[0] in ("sym", "copyof") and v[1] and v[1][0] in (("A",), ("B",), "A", "B"):
            return v[1][0], v[1][1:]
        return None
    def load_default(self, loc, st, n):
        if loc and loc[0] in ("A", "B"):
            self.reads.add(loc)
        return ("sym", loc)
    def relation(self, p, st):
        return st.get(("R", p))
    def decide(self, op, a, b, st):
        """outcomes [(bool, store)] of comparing two symbolic members, or None"""
        if type(a) is tuple and a[:2] == ("app", "compare") and b == 0 and len(a) == 4:
            a, b = a[2], a[3]
        ta, tb = type(a) is tuple and a[:1] == ("tuple",), type(b) is tuple and b[:1] == ("tuple",)
        if ta and tb and len(a) == len(b):
            return self.lex(op, a[1:], b[1:], st)
        x, y = self.side(a), self.side(b)
        if x is None or y is None:
            return None
        if x[0] == y[0]:
            return [(op in ("==", "<=", ">="), st)] if x[1] == y[1] else None
        if x[1] != y[1]:
            self.crossed = getattr(self, "crossed", set()); self.crossed.add((x[1], y[1]))
            return None
        p = x[1]
        r = st.get(("R", p))
        rels = [r] if r else ["<", "=", ">"]
        out = []
        for r in rels:
            s = st
            if ("R", p) not in st:
                s = dict(st); s[("R", p)] = r
            e = r if x[0] == "A" else {"<": ">", ">": "<", "=": "="}[r]
            out.append(({"==": e == "=", "!=": e != "=", "<": e == "<", ">": e == ">", "<=": e in "<=", ">=": e in ">="}[op], s))
        return out
    def lex(self, op, xs, ys, st):
        """lexicographic comparison of two tuples (also of different components)"""
        if not xs:
            return [(op in ("==", "<=", ">="), st)]
        out = []
        eq = self.decide("==", xs[0], ys[0], st) if len(xs) > 1 or op in ("==", "!=") else None
        if len(xs) == 1 and eq is None:
            return self.decide(op, xs[0], ys[0], st)
        if eq is None:
            return None
        for e, s in eq:
            if e:
                r = self.lex(op, xs[1:], ys[1:], s)
            elif op in ("==", "!="):
                r = [(op == "!=", s)]
            else:
                r = self.decide(op, xs[0], ys[0], s)
            if r is None:
                return None
            out += r
        return out
    def array(self, v, n, i):
        """a whole array member as the tuple of its elements"""
        t = (n.get("pt") or [])
        a = ([n["o"]] if n.get("o") else []) + (n.get("a") or [])
        t = strip_casts(a[i]).get("t", "") if i < len(a) else ""
        m = re.match(r"(?:const )?(?:std::)?array<.*, (\d+)>$", t.strip("& "))
        if m and type(v) is tuple and v and v[0] in ("sym", "copyof", "obj") and self.side(("sym", v[1])):
            return ("tuple",) + tuple(("sym", v[1] + (("idx", j),)) for j in range(int(m[1])))
        return v
    def rv(self, n, st, fr, outs):
        if n is not None and n.get("k") == "Bin" and n["op"] in ("==", "!=", "<", ">", "<=", ">="):
            r = []
            for a, s in self.rv(n["x"], st, fr, outs):
                for b, s2 in self.rv(n["y"], s, fr, outs):
                    d = self.decide(n["op"], a, b, s2)
                    r += d if d is not None else [(self.binop(n["op"], a, b, s2), s2)]
            return r
        return super().rv(n, st, fr, outs)
    def prim(self, n, name, ol, args, st, fr):
        if n["k"] == "OpCall" and n["op"] in ("==", "!=", "<", ">", "<=", ">=") and "u" not in n:
            vs = ([self.value_of(st, ol)] if ol is not None else []) + [self.val(a, st) for a in args]
            if len(vs) == 2:
                vs = [self.array(v, n, i) for i, v in enumerate(vs)]
                d = self.decide(n["op"], vs[0], vs[1], st)
                if d is not None:
                    return d
        if name in ("std::tie", "std::make_tuple", "std::forward_as_tuple"):
            return [(("tuple",) + tuple(hashable(self.val(a, st)) for a in args), st)]
        if n["k"] == "OpCall" and n["op"] in ("==", "!=", "<", ">") and "u" not in n and False:
            pass
        return super().prim(n, name, ol, args, st, fr)
    def binop(self, op, a, b, st):
        return super().binop(op, a, b, st)

def outcomes(prog, f, nA="A", nB="B"):
    """[(answer, {member path: relation})] over all forks; f compares this/param (or two params)"""
    ev = CmpEval(prog)
    ps = f["p"]
    if len(ps) == 2 or f.get("kind") == "fn" and not f.get("cls"):
        this, args = None, [("l", ("A",)), ("l", ("B",))]
    else:
        this, args = ("A",), [("l", ("B",))]
    res = []
    for o in ev.run(f, {}, this, args):
        if o[0] != "ret":
            continue
        v = o[1]
        rel = {k[1]: x for k, x in o[2].items() if type(k) is tuple and k[0] == "R"}
        t = ev.asbool(v)
        if t is None and type(v) is tuple and v and v[0] == "app" and v[1] in ("==", "!=", "<", ">", "<=", ">="):
            d = ev.decide(v[1], v[2], v[3], o[2])
            if d is not None:
                for t, s in d:
                    res.append((t, {k[1]: x for k, x in s.items() if type(k) is tuple and k[0] == "R"}))
                continue
        res.append((t, rel) if t is not None else (v, rel))
    return res, ev

def fields_read(prog, f, n=1):
    """members of the first parameter (or of this) an operator reads: hash functions"""
    ev = CmpEval(prog)
    args = [("l", ("A",))] + [("v", UNK)] * (len(f["p"]) - 1)
    ev.run(f, {}, ("H",), args)
    return {l[1:] for l in ev.reads if l[0] == "A" and len(l) > 1}
