"""Evaluation of what the one- and two-atom systems do with their interaction operators: loops over the elements of a map
and over orders are evaluated once for a representative element; the Hamiltonian is a linear form in the operators."""
from syseval import *
from fev import FEval, Frame
from smallmat import cval

class InterEval(SysEval):
    point = None     # values of the settings; conditions that are decided by them are followed one way only
    stop = ()        # functions the evaluation ends at
    def truth(self, n, st, fr, outs):
        r = super().truth(n, st, fr, outs)
        if not self.point: return r
        out = []
        for b, s in r:
            bad = False
            for k, v in s.items():
                if k[0] == "D" and k not in st:
                    try: bad |= bool(cval(k[1], self.point)) != v
                    except (KeyError, ValueError, ZeroDivisionError, OverflowError, TypeError, IndexError): pass
            if not bad: out.append((b, s))
        return out
    def prim(self, n, name, ol, args, st, fr):
        if short(name) in self.stop: return [("throw", {**st, ("#stopped",): True})]
        if n["k"] == "MCall" and ol is not None and n["o"].get("t", "").rstrip().endswith("*"):
            p = self.value_of(st, ol)
            if type(p) is tuple and p[:1] == ("ptr",): ol = p[1]
        if n["k"] == "MCall" and ol is not None and re.match(r"std::(unordered_)?(map|set)::clear$", name):
            s = {k: v for k, v in st.items() if not (len(k) > len(ol) and k[:len(ol)] == ol)}
            return [(None, self.put(s, ol, EMPTY))]
        return super().prim(n, name, ol, args, st, fr)
    def rfor(self, n, st, fr):
        outs, res = [], []
        v = n["v"]
        if strip_casts(n["r"]).get("k") == "InitList": return super().rfor(n, st, fr)
        for c, s in self.lv(n["r"], st, fr, outs):
            t = strip_casts(n["r"]).get("t", "")
            if not re.match(r"(const )?std::(unordered_)?map<", t) or t.rstrip().endswith(("]", "*")):
                return super().rfor(n, st, fr)
            e = c + (("elem",),)
            if v.get("bind"):
                for b in v["bind"]: fr.refs[b["i"]] = e + (("std::pair::first", "std::pair::second")[v["bind"].index(b)],)
            elif isref(v["t"]): fr.refs[v["i"]] = e
            else:
                fr.refs.pop(v["i"], None)
                for x in ("std::pair::first", "std::pair::second"): s = self.put(s, ("L", fr.uid, v["i"], x), self.value_of(s, e + (x,)))
            for o in self.st(n["body"], s, fr):
                if o[0] in ("next", "cont"): res.append(("next", None, self.mark(o[2], ("loop", c))))
                elif o[0] == "brk": res.append(("next", None, self.mark(o[2], ("cut", c))))
                else: outs.append(o)
        return outs + res
    def st(self, n, st, fr):
        # an iterator that runs through a map
        if n is not None and n["k"] == "For" and n.get("init") and n.get("c") and n.get("inc"):
            d = n["init"].get("d") or n["init"].get("v") or []
            c = strip_casts(n["c"])
            if c["k"] == "OpCall" and c["op"] == "!=" and any(x.get("k") == "MCall" and short(x.get("fn", "")) in ("end", "cend") for x in walk(c)) and "map<" in str(n["init"])[:4000]:
                return self.iterate(n, st, fr)
        return super().st(n, st, fr)
    def iterate(self, n, st, fr):
        outs, res = [], []
        for o in super().st(n["init"], st, fr):
            if o[0] != "next": outs.append(o); continue
            its = [(k, v) for k, v in o[2].items() if type(v) is tuple and v[:1] == ("iter",) and st.get(k) != v]
            if len(its) != 1: raise AnalysisError(f"{self.here(n, fr)}: a loop over a map is not understood")
            k, v = its[0]
            for p in self.st(n["body"], self.put(o[2], k, ("ptr", v[1] + (("elem",),))), fr):
                if p[0] in ("next", "cont"): res.append(("next", None, self.mark(p[2], ("loop", v[1]))))
                elif p[0] == "brk": res.append(("next", None, self.mark(p[2], ("cut", v[1]))))
                else: outs.append(p)
        return outs + res
    def mark(self, st, m): return {**st, ("#loops",): st.get(("#loops",), ()) + (m,)}
    def count_loop(self, n, ci, st, fr):
        b = strip_casts(ci[1])
        if ("cval" in b or b.get("k") == "Int") and int(b.get("cval", b.get("v"))) <= 4: return FEval.st(self, n, st, fr)
        if self.point:
            try:
                for b, s in self.rv(ci[1], st, fr, []):
                    if cval(hashable(b), self.point) <= 8: return FEval.st(self, n, st, fr)
            except (KeyError, ValueError, ZeroDivisionError, OverflowError, TypeError, IndexError): pass
        outs, res = [], []
        for o in ([("next", None, st)] if not n.get("init") else FEval.st(self, n["init"], st, fr)):
            if o[0] != "next": outs.append(o); continue
            f = self.frame_of(ci[0], fr)
            l = f.refs.get(ci[0], ("L", f.uid, ci[0]))
            first = self.value_of(o[2], l)
            for b, s in self.rv(ci[1], o[2], fr, outs):
                last = hashable(b) if ci[2] else app("-", hashable(b), 1)
                k = ("sym", ("#count", hashable(first), last))
                for p in self.st(n["body"], self.put(s, l, k), fr):
                    if p[0] in ("next", "cont"): res.append(("next", None, self.mark(p[2], ("count", hashable(first), last))))
                    elif p[0] == "brk": res.append(("next", None, self.mark(p[2], ("cut", hashable(first)))))
                    else: outs.append(p)
        return outs + res

def terms(t, H, sign=1):
    """a sum as a list of (sign, term) besides the Hamiltonian it is added to"""
    if t == H: return [("H", sign)]
    if type(t) is tuple and t[:1] == ("app",) and t[1] in ("+", "-") and len(t) == 4:
        return terms(t[2], H, sign) + terms(t[3], H, sign if t[1] == "+" else -sign)
    if is_app(t, "neg") or type(t) is tuple and t[:2] == ("app", "-") and len(t) == 3: return terms(t[2], H, -sign)
    return [(t, sign)]

def linear(t, env, isop):
    """a formula as a linear form in the operators: operator -> number (the key None is the part without operator)"""
    o = isop(t)
    if o is not None: return {o: 1.0}
    if type(t) is tuple and t[:1] == ("app",):
        if t[1] in ("+", "-") and len(t) == 4 or is_app(t, "neg"):
            a = linear(t[2], env, isop)
            b = linear(t[3], env, isop) if len(t) == 4 else {}
            s = -1 if t[1] == "-" else 1
            if is_app(t, "neg"): return {k: -v for k, v in a.items()}
            r = dict(a)
            for k, v in b.items(): r[k] = r.get(k, 0) + s * v
            return r
        if t[1] in ("*", "/", "@") and len(t) == 4:
            a, b = linear(t[2], env, isop), linear(t[3], env, isop)
            if set(b) <= {None}:
                y = b.get(None, 0)
                return {k: v * y if t[1] != "/" else v / y for k, v in a.items()}
            if t[1] == "*" and set(a) <= {None}: return {k: v * a.get(None, 0) for k, v in b.items()}
            raise AnalysisError("a product of operators")
    return {None: cval(t, env)}
