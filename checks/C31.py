"""The routine that combines two single-atom Hamiltonians is evaluated abstractly, once for each combination of
symmetries, to its transfer relation: the generic triplets it adds to basis and energies, as
formulas of the generic matrix elements, with the conditions they are added under. The relation is
then compared, at sample points that cover every relation between the columns and every sort of pair state,
with what follows from the symmetry group: the orbit of the pair state under exchange and
reflection with its signs, normalised, dropped where two symmetries contradict each other. The
table that maps a pair state to its mirror image is extracted the same way. The routine that marks the needed
pair states is compared with the same energy criterion."""
from core import *
from facts import *
from mateval import *
import smallmat, itertools, math
FLOORS = {"symmetry combinations": 60, "coefficients": 3000, "triplet groups": 300, "pairs marked": 6}
NA, EVEN, ODD = 2147483647, 1, -1
H = "Hamiltonianmatrix::"
class Unknown(Exception): pass

class Comb(MatEval):
    max_states = 20000
    def freeze(self, a, st):
        """a state used as a key: where it comes from and which numbers were changed since"""
        if a[0] != "l": return hashable(self.val(a, st))
        l = a[1]
        ch = {k[len(l):]: hashable(v) for k, v in st.items() if type(k) is tuple and len(k) > len(l) and k[:len(l)] == l}
        if not ch:
            v = st.get(l)
            return ("state", hashable(v) if type(v) is tuple and v[:1] in (("state",),) else ("sym", l), frozenset())
        return ("state", ("sym", l), frozenset(ch.items()))
    def prim(self, n, name, ol, args, st, fr):
        k, sh = n["k"], short(name)
        m = re.match(r"^std::(unordered_)?map(::|$)", name)
        if m and k == "Ctor" and not args: return [(("sym", ("#map",)), st)]
        if m and ol is not None:
            if (k == "OpCall" and n["op"] == "[]" or sh in ("at", "operator[]")) and args:
                return [(("ref", ol + (("idx", self.freeze(args[0], st)),)), st)]
            if sh in ("emplace", "insert_or_assign", "try_emplace") and len(args) == 2:
                return [(None, self.put(st, ol + (("idx", self.freeze(args[0], st)),), hashable(self.val(args[1], st))))]
            if sh == "reserve": return [(None, st)]
        if name.startswith("std::complex::operator") and k in ("OpCall", "MCall") and ol is not None and sh[8:] in ("*=", "/=", "+=", "-="):
            v = app(sh[8], self.value_of(st, ol), self.val(args[0], st))
            return [(("ref", ol), self.put(st, ol, v))]
        return super().prim(n, name, ol, args, st, fr)
    def rv(self, n, st, fr, outs):
        if n is not None and n.get("k") == "Asg" and n["op"] in ("*=", "/=", "+=", "-="):
            r = []
            for v, s in self.rv(n["y"], st, fr, outs):
                for l, s2 in self.lv(n["x"], s, fr, outs):
                    o = self.value_of(s2, l, n)
                    if o == UNK or v == UNK: return super().rv(n, st, fr, outs)
                    c = (int, float, bool)
                    if type(o) in c and type(v) in c: return super().rv(n, st, fr, outs)
                    if n["op"] in ("+=", "-=") and type(o) is tuple and o[:1] == ("ctr",): return super().rv(n, st, fr, outs)
                    nv = app(n["op"][0], o, v)
                    r.append((nv, self.put(s2, l, nv)))
            return r
        return super().rv(n, st, fr, outs)

def mapterm(t): return is_app(t, "vec") or is_app(t, "upd")

class Model:
    """one sample: states of both atoms, the columns looked at, their generic elements"""
    def __init__(self, s1, s2, c, r1, r2, e, deltaE, salt=0, cplx=False):
        self.s = (s1, s2); self.c = c; self.r = (r1, r2); self.e = e; self.deltaE = deltaE
        self.pairs = [dict(n=(a[0], b[0]), l=(a[1], b[1]), j=(a[2], b[2]), m=(a[3], b[3]), idx=i) for i, (a, b) in enumerate(itertools.product(s1, s2))]
        # some of either sign, with an imaginary part where the elements are complex
        self.v = [{r: (0.3 + ((r * 7 + k * 13 + salt * 5) % 11) * 0.17 + r * 0.011) * ((-1) ** ((r + k + salt) % 3)) for r in range(len(self.s[k]))} for k in (0, 1)]
        if cplx: self.v = [{r: x * complex(1, 0.1 * r + 0.3 * k - 0.2) for r, x in d.items()} for k, d in enumerate(self.v)]
        self.memo = {}
    def mirror(self, i):
        p = self.pairs[i]
        for q in self.pairs:
            if all(p[x] == q[x] for x in "nlj") and p["m"] == tuple(-x for x in q["m"]): return q["idx"]
    def swap(self, i):
        d = len(self.s[1])
        return (i % d) * d + i // d

class Eval:
    def __init__(self, m): self.m = m; self.maps = {}
    def which(self, t):
        """the operand (0 or 1) a matrix belongs to"""
        if type(t) is tuple and t[:1] == ("sym",) and t[1][0] == "arg" and t[1][1] in (0, 1): return t[1][1]
        raise Unknown(str(t)[:80])
    def state(self, path, b):
        if len(path) == 3 and path[0] == "L" and "state" in b: return b["state"]
        if path[:2] == ("arg", 3) and path[-1][:1] == ("idx",):
            i = self.val(path[-1][1], b)
            if not 0 <= i < len(self.m.pairs): raise Unknown("pair state out of range")
            return self.m.pairs[i]
        if path[:2] == ("arg", 3) and type(path[-1]) is tuple and path[-1][:1] == ("ix",): return b["state"]
        raise Unknown(str(path)[:80])
    def key(self, k, b):
        if type(k) is tuple and k[:1] == ("state",):
            base = k[1]
            s = self.state(base[1], b) if base[:1] == ("sym",) else self.key(base, b)
            s = {x: list(y) if type(y) is tuple else y for x, y in s.items()}
            for p, v in k[2]:
                f = short(p[0])
                if len(p) == 1 and f == "idx": s["idx"] = self.val(v, b)
                elif len(p) == 2 and p[1][:1] == ("idx",): s[f][p[1][1]] = self.val(v, b)
                else: raise Unknown(str(p)[:80])
            return {x: tuple(y) if type(y) is list else y for x, y in s.items()}
        raise Unknown(str(k)[:80])
    def table(self, t):
        """contents of a table filled by loops over the pair states"""
        if t in self.maps: return self.maps[t]
        if is_app(t, "vec"): d, groups = {None: self.val(t[3], {})}, t[4]
        else: d, groups = {}, t[3]
        for kind, bs, g, ix, v in groups:
            if kind != "set" or len(bs) != 1: raise Unknown("table")
            for p in self.m.pairs:
                b = {"state": p, bs[0]: p["idx"]}
                if not all(bool(self.val(c, b)) == x for c, x in g): continue
                k = self.index(ix, b); w = self.val(v, b)
                if k is None or w is None: d["bad"] = f"an entry for {k} = {w}"; continue
                if k in d and d[k] != w: d["bad"] = f"two entries for {k}"
                d[k] = w
        self.maps[t] = d
        return d
    def index(self, ix, b):
        if type(ix) is tuple and ix[:1] == ("state",):
            s = self.key(ix, b)
            return tuple(s[x] for x in "nljm")
        return self.val(ix, b)
    def val(self, t, b):
        if type(t) in (int, float, bool, complex): return t
        if type(t) is tuple:
            if t[:1] == ("not",): return not self.val(t[1], b)
            if t[:1] == ("ix",):
                x = t[1]
                if x in b: return b[x]
                return self.m.c[self.which(x[2][2])] if is_app(x[2], "cols") else self.fail(t)
            if t[:1] == ("sym",):
                if t[1] == ("arg", 2): return self.m.deltaE
                if short(str(t[1][-1])) == "idx" and type(t[1][-1]) is str: return self.state(t[1][:-1], b)["idx"]
                return self.fail(t)
            if t[:1] == ("app",):
                op = t[1]
                if op == "elem":
                    c, i = t[2], t[3]
                    if is_app(c, "diag"):
                        k = self.which(c[2])
                        if not c[2][1][-1].endswith("entries_"): self.fail(t)
                        i = self.val(i, b)
                        return self.m.e[k] if i == self.m.c[k] else 1e3
                    if mapterm(c):
                        return self.table(c).get(self.index(i, b), self.table(c).get(None))
                    if type(c) is tuple and c[:1] == ("sym",) and type(c[1][-1]) is str and short(c[1][-1]) in "nljm":
                        return self.state(c[1][:-1], b)[short(c[1][-1])][self.val(i, b)]
                    self.fail(t)
                if op in ("rows", "cols"):
                    k = self.which(t[2])
                    return len(self.m.s[k])
                if op in ("nzrow", "nzvalue", "nzcol"):
                    k = self.which(t[2][1])
                    if op == "nzcol": return self.m.c[k]
                    # the element belongs to the column the loop is at
                    col = t[2][2]
                    if not (type(col) is tuple and col[:1] == ("ix",)) or self.val(col, b) != self.m.c[k]: return b["r"][k] if op == "nzrow" else 77.7
                    return b["r"][k] if op == "nzrow" else self.m.v[k][b["r"][k]]
                if op == "any":
                    return any(all(bool(self.val(c, {**b, "r": r})) == x for c, x in g) for r in itertools.product(*self.m.r) for bs, g in t[2])
                a = [self.val(x, b) for x in t[2:]]
                if None in a: return None
                if op in ("==", "!="): return (a[0] == a[1]) == (op == "==")
                if op in ("+", "-", "*", "/") and len(a) == 2 or op in ("neg", "<", ">", "<=", ">="): return smallmat.cval(("app", op) + tuple(a), lambda x: None)
                if op == "%" and a[1]: return int(math.fmod(a[0], a[1]))
                if op in ("&", "|", "^") and all(type(x) in (int, bool) for x in a): return a[0] & a[1] if op == "&" else a[0] | a[1] if op == "|" else a[0] ^ a[1]
                if op in smallmat.FOLD: return smallmat.FOLD[op](*a)
                if op in smallmat.CFOLD: return smallmat.CFOLD[op](*a)
        return self.fail(t)
    def fail(self, t): raise Unknown(str(t)[:120])

def bundle(groups):
    """groups that add the same thing differ only in their conditions: it is added where one of them holds"""
    d = {}
    for bs, g, pl in groups: d.setdefault((bs, pl), []).append(g)
    out = []
    for (bs, pl), gs in d.items():
        while type(pl) is tuple and pl[:1] == ("twice",): pl = pl[1]
        out.append((bs, gs, pl))
    return out

def column(m, ev, basis, entries):
    """the triplets added for this pair of columns: {row: coefficient}, [energies]"""
    out, en = {}, []
    def holds(gs, b): return any(all(bool(ev.val(c, b)) == x for c, x in g) for g in gs)
    for bs, gs, pl in basis:
        for r in itertools.product(*m.r):
            b = {"r": r}
            if holds(gs, b):
                row = ev.val(pl[1], b)
                v = ev.val(pl[3], b)
                out[row] = out.get(row, 0) + v
    for bs, gs, pl in entries:
        if holds(gs, {"r": None}): en.append((ev.val(pl[3], {"r": None})))
    return {r: v for r, v in out.items() if abs(v) > 1e-14}, en

def oracle(m, sym):
    inv, per, ref, rot = sym
    c1, c2 = m.c
    for s in (inv, per):
        if s == EVEN and c1 <= c2 or s == ODD and c1 < c2: return {}, []
    e = m.e[0] + m.e[1]
    if not (m.deltaE < 0 or abs(e) < m.deltaE + 1e-11): return {}, []
    out, kept = {}, False
    for r1, r2 in itertools.product(*m.r):
        row = r1 * len(m.s[1]) + r2
        p = m.pairs[row]
        v = m.v[0][r1] * m.v[1][r2]
        par = lambda x: (-1) ** round(sum(p[x]))
        M = sum(p["m"])
        if rot != NA and rot != M and not (ref != NA and rot == -M): continue
        sr = {NA: None, EVEN: par("l") * par("j") * par("m"), ODD: -par("l") * par("j") * par("m")}[ref]
        sw = set()
        if c1 != c2:
            if inv != NA: sw.add(-par("l") if inv == EVEN else par("l"))
            if per != NA: sw.add(-1 if per == EVEN else 1)
        if len(sw) > 1: continue                     # inversion and permutation contradict each other
        w = sw.pop() if sw else None
        img = {row: 1}
        same = w is not None and sr is not None and m.mirror(row) == m.swap(row)
        if same:
            if w != sr: continue                     # exchange and reflection contradict each other
        elif sr is not None and p["m"][0] < 0: continue   # reached from its mirror image
        x = 1 / math.sqrt((2 if w is not None else 1) * (2 if sr is not None and not same else 1))
        def add(i, s): out[i] = out.get(i, 0) + s * v * x
        add(row, 1)
        if w is not None: add(m.swap(row), w)
        if sr is not None and not same:
            add(m.mirror(row), sr)
            if w is not None: add(m.mirror(m.swap(row)), w * sr)
        kept = True
    return {r: v for r, v in out.items() if abs(v) > 1e-14}, [e] if kept else []

ONE = [(2, 0, .5, -.5), (2, 0, .5, .5), (2, 1, .5, -.5), (2, 1, .5, .5), (2, 1, 1.5, -1.5), (2, 1, 1.5, -.5), (2, 1, 1.5, .5), (2, 1, 1.5, 1.5)]
TWO = [(3, 0, .5, -.5), (3, 0, .5, .5), (3, 2, 1.5, -1.5), (3, 2, 1.5, -.5), (3, 2, 1.5, .5), (3, 2, 1.5, 1.5)]

def samples(sym, cplx):
    inv, per, ref, rot = sym
    both = inv != NA or per != NA
    sets = [(ONE, ONE)] + ([] if both else [(ONE, TWO)])
    k = 0
    for a, b in sets:
        al, bl = list(range(len(a))), list(range(len(b)))
        for c in ((1, 4), (4, 4), (5, 2)):
            yield Model(a, b, c, al, bl, (0.25, 0.5), 2.0, k, cplx); k += 1
            for r, s in ((1, 0), (0, 1), (3, 3), (6, 2), (5, 1), (1, 5)):
                if s < len(b): yield Model(a, b, c, [r], [s], (0.25, -1.5), -1.0, k, cplx)
                k += 1
        for e, d in (((1.5, 0.75), 2.0), ((-1.5, -0.75), 2.0), ((-1.5, -0.25), 2.0), ((3.0, -2.5), 0.5), ((3.0, -2.5), 0.25), ((1.0, 1.0), 0.0), ((1.0, -1.0), 0.0), ((2.0, 2.0), -1.0)):
            yield Model(a, b, (5, 2), [1, 3], [1, 2], e, d, k, cplx); k += 1

def name(sym): return ", ".join(f"{n} {'even' if v == EVEN and n != 'rotation' else 'odd' if v == ODD and n != 'rotation' else v}" for n, v in zip(("inversion", "permutation", "reflection", "rotation"), sym) if v != NA) or "no symmetry"

def triplets(o, m, what):
    t = o[2].get(o[1][1] + (H + m,))
    if not is_app(t, "tri") or not (type(t[4]) is tuple and t[4][:1] == ("list",)): raise AnalysisError(f"combine: {what} not understood: {str(t)[:100]}")
    return t

def combine(rep, prog, f, scalar):
    q = lambda n: ("arg", 4, "Symmetry::" + n)
    at = loc(f, f["body"])
    par = (NA, EVEN, ODD)
    for sym in itertools.product(par, par, par, (NA, 0, 1)):
        if scalar != "complex" and sym[3] == 1: continue
        ev = Comb(prog)
        outs = ev.run(f, dict(zip((q("inversion"), q("permutation"), q("reflection"), q("rotation")), sym)), None, [("l", ("arg", i)) for i in range(5)])
        rets = [o for o in outs if o[0] == "ret" and type(o[1]) is tuple]
        if not rets: raise AnalysisError("combine: not understood " + str(ev.unknown_calls)[:200])
        rep.count("symmetry combinations")
        nm = f"{scalar}, {name(sym)}"
        for o in rets:
            B, E = triplets(o, "basis_", "the basis"), triplets(o, "entries_", "the entries")
            basis, entries = bundle(B[4][1]), bundle(E[4][1])
            rep.count("triplet groups", len(basis) + len(entries))
            cols = {pl[2] for bs, g, pl in basis} | {pl[i] for bs, g, pl in entries for i in (1, 2)}
            rep.check(len(cols) == 1, f"columns ({scalar})", f"{nm}: coefficients and energy of a pair share one column", f"coefficients and energy are put into different columns: {[show(c)[:80] for c in cols][:3]} ({at})")
            n = B[3]
            okn = type(n) is tuple and n[:1] == ("count",) and E[2] == n and E[3] == n
            rep.check(okn, f"size ({scalar})", f"{nm}: as many columns as pairs kept", f"the number of basis vectors is {show(B[3])[:80]}, of energies {show(E[2])[:60]} x {show(E[3])[:60]} ({at})")
            if okn and len(cols) == 1:
                run = [x for x in leaves2(next(iter(cols))) if x[:1] == ("run",)]
                rep.check(bool(run) and all(x[1] == n[1] or {y[1] for y in x[1]} == {y[1] for y in n[1]} for x in run), f"numbering ({scalar})", f"{nm}: columns are numbered in turn", f"the column is not the number of the pair among those kept ({at})")
            try:
                for m in samples(sym, scalar == "complex"):
                    e = Eval(m)
                    got, en = column(m, e, basis, entries)
                    want, wen = oracle(m, sym)
                    nk = any(all(bool(e.val(k, {"r": None})) == x for k, x in g) for bs, g in n[1]) if okn else 0
                    rep.check(nk == len(wen), f"numbering ({scalar})", f"{nm}: a column is counted for a pair that is kept", f"a column is counted for a pair {'that is not kept' if nk else 'not at all though it is kept'} (with {name(sym)}, columns {m.c}, energies {m.e}, cutoff {m.deltaE}) ({at})")
                    bad = next((t["bad"] for t in e.maps.values() if "bad" in t), None)
                    rep.count("coefficients", len(want) + 1)
                    rows = e.val(B[2], {})
                    rep.check(rows == len(m.pairs), f"coordinates ({scalar})", f"{nm}: as many coordinates as pair states", f"{rows} coordinates instead of {len(m.pairs)} ({at})")
                    txt = f"columns {m.c}, {'all states' if len(m.r[0]) > 2 else 'states ' + str([m.s[0][i] for i in m.r[0]]) + ' and ' + str([m.s[1][i] for i in m.r[1]])}, energies {m.e}, cutoff {m.deltaE}"
                    diff = [(r, got.get(r, 0), want.get(r, 0)) for r in set(got) | set(want) if abs(got.get(r, 0) - want.get(r, 0)) > 1e-9]
                    rep.check(not diff, f"coefficients ({scalar}): {name(sym)}", f"{nm}: {len(want)} coefficients ({txt})", f"with {name(sym)} ({txt}) the pair state {describe(m, min(d[0] for d in diff)) if diff else ''} gets the coefficient {num(diff, 1)} instead of {num(diff, 2)} ({at})")
                    rep.check(len(en) == len(wen) and all(abs(x - y) < 1e-9 for x, y in zip(en, wen)), f"energy ({scalar}): {name(sym)}", f"{nm}: energy {wen} ({txt})", f"with {name(sym)} ({txt}) the energies are {en} instead of {wen} ({at})")
            except Unknown as x:
                raise AnalysisError(f"combine: {nm}: not understood: {x}")

def num(diff, i):
    if not diff: return ""
    x = complex(min(diff, key=lambda d: d[0])[i])
    return f"{x.real:.6g}" if x.imag == 0 else f"{x:.6g}"

def describe(m, r):
    if r is None or not 0 <= r < len(m.pairs): return f"number {r}"
    p = m.pairs[r]
    return f"(l={p['l']} j={p['j']} m={p['m']})"

def leaves2(t):
    if type(t) is tuple:
        if t[:1] in (("run",), ("ctr",)): yield t
        elif t[:1] == ("app",):
            for x in t[2:]: yield from leaves2(x)

def cutoff(rep, prog, f, scalar):
    ev = Comb(prog)
    outs = ev.run(f, {}, None, [("l", ("arg", i)) for i in range(4)])
    at = loc(f, f["body"])
    # the list of needed states is the fourth argument
    for o in outs:
        if o[0] != "ret": continue
        t = o[2].get(("arg", 3))
        if not is_app(t, "upd") or any(g[0] != "set" for g in t[3]): raise AnalysisError(f"energycutoff: not understood: {str(t)[:100]}")
        for a, b in ((ONE, TWO), (ONE, ONE)):
            for c in ((5, 2), (1, 4), (3, 3)):
                for e, d in (((1.5, 0.75), 2.0), ((-1.5, -0.75), 2.0), ((-1.5, -0.25), 2.0), ((3.0, -2.5), 0.5), ((3.0, -2.5), 0.25), ((1.0, -1.0), 0.0), ((2.0, 2.0), -1.0)):
                    m = Model(a, b, c, [1, 3], [0, 2], e, d)
                    x = Eval(m)
                    got = {}
                    try:
                        for kind, bs, g, ix, v in t[3]:
                            for r in itertools.product(*m.r):
                                if all(bool(x.val(k, {"r": r})) == w for k, w in g): got[x.val(ix, {"r": r})] = x.val(v, {"r": r})
                    except Unknown as y:
                        raise AnalysisError(f"energycutoff: not understood: {y}")
                    keep = d < 0 or abs(sum(e)) < d + 1e-11
                    want = {r1 * len(b) + r2: True for r1 in m.r[0] for r2 in m.r[1]} if keep else {}
                    rep.count("pairs marked")
                    rep.check(got == want, f"needed states ({scalar})", f"{scalar}: pair states of a combination with energies {e} and cutoff {d}", f"for energies {e} and cutoff {d}, the pair states {sorted(got)} are marked as needed instead of {sorted(want)} ({at})")

def run(rep):
    prog = Program(all_tus())
    for scalar in ("complex", "real"):
        pick = lambda n, k: next((f for f in prog.named(n) if f.get("body") and not f.get("dep") and ("complex" in f["u"]) == (scalar == "complex") and len(f["p"]) == k and "Hamiltonianmatrix" in f["p"][0]["t"]), None)
        f, g = pick("combine", 5), pick("energycutoff", 4)
        if not f or not g: raise AnalysisError("anchor vanished: combine / energycutoff")
        combine(rep, prog, f, scalar)
        cutoff(rep, prog, g, scalar)
    rep.analysed["rule"] = "generic triplets with their conditions = symmetrised, normalised products; one column per pair kept"
