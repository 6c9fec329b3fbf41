"""Typestate analysis of the row iterator: the cursor of the statement (before the first row, on a row,
past the end) is tracked through begin(), end(), comparison, dereference and increment as range-for uses
them, for every outcome of each step. At each point the iterator compares unequal to the end exactly when
the cursor is on a row, every increment advances the cursor exactly once, dereferencing a row does not
fail, and the cursor is never advanced again after the end."""
from sqlfev import *

FLOORS = {"iterator states": 2}

class It(FEval):
    """store: 'cur' in F,R,D ; 'n' steps since the last checkpoint (capped)."""
    def __init__(self, prog, stmtloc):
        super().__init__(prog)
        self.stmtloc = stmtloc
    def prim(self, n, name, ol, args, st, fr):
        if name == "sqlite::statement::step":
            s = dict(st); s["n"] = min(s.get("n", 0) + 1, 3)
            if s["cur"] == "D":
                s["over"] = 1
                return [("throw", s)]
            a = dict(s); a["cur"] = "R"
            b = dict(s); b["cur"] = "D"
            return [(True, a), (False, b)]
        if name == "sqlite::statement::reset":
            s = dict(st); s["cur"] = "F"; s["reset"] = 1
            return [(UNK, s)]
        return None
    def symbolic(self, op, a, b, st):
        return None

def run(rep):
    prog = Program(["driver:instantiate"])
    stm = prog.cls("sqlite::statement")[0]
    begin = prog.need("sqlite::statement::begin")[0]
    end = prog.need("sqlite::statement::end")[0]
    itt = begin["t"]
    S = ("STMT",)
    ev = It(prog, S)
    itcls = [c for c in prog.classes.values() if c["q"] == itt or c["t"] == itt]
    if not itcls:
        raise AnalysisError("iterator class not found: " + itt)
    itq = itcls[0]["q"]
    cmp_ne = prog.named(itq + "::operator!=")
    cmp_eq = prog.named(itq + "::operator==")
    free_ne = [f for f in prog.named("sqlite::operator!=") if any(itt in p["t"] for p in f["p"])]
    inc = [f for f in prog.need(itq + "::operator++") if not f["p"]]
    der = [f for f in prog.need(itq + "::operator*")]
    if not (cmp_ne or cmp_eq or free_ne) or not inc or not der:
        raise AnalysisError("iterator operations not found")
    B, E = ("IT",), ("END",)
    def place(st, v, loc):
        st = ev.put(st, loc, v)
        return st
    ends = [(o[1], o[2]) for o in ev.run(end, {"cur": "F", "n": 0}, S, []) if o[0] == "ret"]
    for v, s in ends:
        rep.check(s["n"] == 0, "end:steps", "end() does not advance the cursor", f"{loc(end)}: end() advances the cursor")
    start = []
    for o in ev.run(begin, {"cur": "F", "n": 0}, S, []):
        if o[0] == "throw":
            rep.bad("begin:throws", f"{loc(begin)}: begin() fails on a prepared statement without an SQLite error")
            continue
        s = place(o[2], o[1], B)
        # end() is evaluated after begin(), as range-for does
        for o2 in ev.run(end, s, S, []):
            s2 = place(o2[2], o2[1], E)
            start.append(clean(s2, (B, E)))
    def ne(st):
        if cmp_ne:
            r = ev.run(cmp_ne[0], st, B, [("l", E)])
            neg = False
        elif free_ne:
            r = ev.run(free_ne[0], st, None, [("l", B), ("l", E)])
            neg = False
        else:
            r = ev.run(cmp_eq[0], st, B, [("l", E)])
            neg = True
        return [(k, (not v if neg else v) if type(v) is bool else v, s) for k, v, s in r]
    seen, work = set(), [(s, "begin()") for s in start]
    while work:
        st, via = work.pop()
        key = frozenset(st.items())
        if key in seen:
            continue
        seen.add(key)
        rep.count("iterator states")
        if st["n"] != 1:
            rep.bad("advance:" + via, f"{loc(begin if via=='begin()' else inc[0])}: {via} advances the cursor {st['n']} times instead of once")
            continue
        for k, v, s in ne(st):
            want = st["cur"] == "R"
            if k != "ret" or type(v) is not bool:
                if v == UNK:
                    rep.note("comparison with end() not decided by the abstract state after " + via)
                    raise AnalysisError("iterator comparison depends on something that is not modelled")
                continue
            if v != want:
                rep.bad(f"end-test:{via}", f"{loc((cmp_ne or free_ne or cmp_eq)[0])}: after {via} the cursor is {'on a row' if want else 'past the last row'} but the iterator compares {'equal' if want else 'unequal'} to end(): " + ("the row is skipped" if want else "a row that does not exist is visited"))
            else:
                rep.ok(f"after {via}, cursor {'on a row' if want else 'past the end'}: != end() is {v}")
            if s["cur"] != st["cur"] or s["n"] != st["n"]:
                rep.bad("compare:advances", f"{loc((cmp_ne or free_ne or cmp_eq)[0])}: comparing advances the cursor")
        if st["cur"] == "R":
            for o in ev.run(der[0], st, B, []):
                if o[0] == "throw":
                    rep.bad("deref:throws", f"{loc(der[0])}: dereferencing fails although the cursor is on a row")
                elif o[2]["cur"] != st["cur"] or o[2]["n"] != st["n"]:
                    rep.bad("deref:advances", f"{loc(der[0])}: dereferencing advances the cursor")
                else:
                    rep.ok("dereferencing on a row succeeds")
            s0 = dict(st); s0["n"] = 0
            for o in ev.run(inc[0], s0, B, []):
                if o[0] == "throw":
                    rep.bad("inc:throws", f"{loc(inc[0])}: increment fails without an SQLite error" + (" (steps past the end)" if o[2].get("over") else ""))
                else:
                    work.append((clean(o[2], (B, E)), "++"))
    rep.count("cursor typestates", 3)

def clean(st, keep):
    return {k: v for k, v in st.items() if type(k) is str or any(k[:len(r)] == r for r in keep)}
