"""The expressions that end up in every delivered quantity of a QuantumDefect are extracted by abstract
evaluation of its constructors (all paths) and compared, as formulas over the database columns, with
the Rydberg-Ritz series and the model potential's parameters; the row each column is read from must be
the one for the species, the smaller of l and the tabulated maximum, and the smaller of j and the
maximum tabulated for that l. The shipped table is read as data: every state of every species finds
exactly one row, all values are numbers, and the Rydberg constants belong to a finite nuclear mass."""
from core import *
from facts import *
from qdmodel import *
import os
FLOORS = {"quantities compared": 18, "species": 7, "state look-ups": 60}

def run(rep):
    prog = Program(all_tus())
    au = const_value(prog, "au2GHz")
    formulas(rep, prog)
    table(rep)

def const_value(prog, name):
    for v in (prog.vars.values()):
        if v["q"] == name or v["n"] == name:
            e = strip_casts(v.get("init") or {"k": ""})
            if e.get("k") == "Flt":
                return float(e["v"])
    return None

def is_min(v, a_ok, b_ok, known, rep_):
    """v is min(x, y) with a_ok(x) and b_ok(y), written as min() or selected by a comparison"""
    if type(v) is tuple and v[:2] == ("app", "std::min"):
        x, y = v[2], v[3]
        return (a_ok(x) and b_ok(y)) or (a_ok(y) and b_ok(x))
    for d, t in known:
        if type(d) is tuple and d and d[0] == "app" and d[1] in ("<", "<=", ">", ">=") and len(d) == 4:
            lo, hi = (d[2], d[3]) if (d[1] in ("<", "<=")) == t else (d[3], d[2])
            if v == lo and ((a_ok(lo) and b_ok(hi)) or (a_ok(hi) and b_ok(lo))):
                return True
    return False

SER = {"d0": 0, "d2": 2, "d4": 4, "d6": 6, "d8": 8}
def formulas(rep, prog):
    SP, N, Lq, J = [("sym", ("P", x)) for x in ("species", "n", "l", "j")]
    seen = set()
    for f, o, ev in runs(prog):
        if o[0] != "ret":
            continue
        st = o[2]
        if any(e[0] == "restore" and e[1] for e in st.get(("#ev",), ())):
            continue
        known = [(k[1], v) for k, v in st.items() if type(k) is tuple and k and k[0] == "D"]
        at = loc(f)
        d = delivered(st)
        def ismax(x, tab, col, more=()):
            return type(x) is tuple and x and x[0] == "col" and x[1] == tab and x[2] == f"max({col})" and dict(x[4]).get("element") == SP and set(dict(x[4])) == {"element"} | {m for m, _ in more} and all(ok(dict(x[4])[m]) for m, ok in more)
        def isl(tab):
            return lambda x: is_min(x, lambda y: y == Lq, lambda y: ismax(y, tab, "l"), known, rep)
        def isj(tab):
            return lambda x: is_min(x, lambda y: y == J, lambda y: ismax(y, tab, "j", (("l", isl(tab)),)), known, rep)
        def row_ok(c, what):
            cs = dict(c[4])
            need = {"model_potential": {"element": lambda x: x == SP, "l": isl("model_potential")},
                    "rydberg_ritz": {"element": lambda x: x == SP, "l": isl("rydberg_ritz"), "j": isj("rydberg_ritz")}}.get(c[1])
            if need is None:
                rep.bad(f"table:{what}", f"{at}: {what} is read from table {c[1]}"); return
            rep.check(set(cs) == set(need), f"row:{what}", f"{at}: {what} is read from the row for {', '.join(sorted(need))}", f"{at}: {what} is read from the row for {', '.join(sorted(cs))}, not for {', '.join(sorted(need))}")
            for q, okf in need.items():
                if q in cs:
                    rep.check(okf(cs[q]), f"row:{what}:{q}", f"{at}: {what}: {q} is that of the state, at most the tabulated maximum", f"{at}: {what} is read for {q} = {show(cs[q])}")
        for q in ("ac", "Z", "a1", "a2", "a3", "a4", "rc"):
            rep.count("quantities compared")
            v = d.get(q)
            isc = type(v) is tuple and v and v[0] == "col"
            rep.check(isc and v[1] == "model_potential" and v[2] == q.lower(), f"column:{q}", f"{at}: {q} is column {q} of the model potential", f"{at}: {q} is {show(v)}, not the model potential's {q}")
            if isc:
                row_ok(v, q)
                want = {"Z": ("int", "double")}.get(q, ("double",))
                rep.check(v[3] in want, f"type:{q}", f"{at}: {q} is read as {v[3]}", f"{at}: {q} is read as {v[3]} and loses digits")
        cols = {}
        for q in ("nstar", "energy"):
            for x in leaves(d.get(q)):
                if x[0] == "col" and not x[2].startswith("max("):
                    cols[x[2]] = x
        for nm, c in cols.items():
            row_ok(c, nm)
            rep.check(c[3] in ("double", "float", "long double") and c[3] != "float", f"type:{nm}", f"{at}: {nm} is read as a floating-point number", f"{at}: {nm} is read as {c[3]}")
        missing = [x for x in list(SER) + ["ry"] if x not in cols]
        rep.check(not missing, "coefficients", f"{at}: all coefficients d0..d8 and Ry enter the energy", f"{at}: the coefficients {', '.join(missing)} do not enter the energy")
        if missing:
            continue
        A = lambda op, *a: ("app", op) + a
        base = A("-", N, cols["d0"])
        ser = cols["d0"]
        for nm, k in SER.items():
            if k:
                ser = A("+", ser, A("/", cols[nm], A("std::pow", base, k)))
        spec_n = A("-", N, ser)
        au = ("sym", ("G", "au2GHz"))
        spec_e = A("*", A("/", A("*", -0.5, A("/", cols["ry"], 109737.31568525)), A("*", spec_n, spec_n)), au)
        def env(x, s):
            if x == N: return 4 + h(s, "n") / PRIME * 3
            if x == au: return 6579683.920757349
            if type(x) is tuple and x and x[0] == "sym" and x[1][0] == "G":
                c = const_value(prog, x[1][1]); return c
            if type(x) is tuple and x and x[0] == "col":
                if x[2] in SER: return 2 + h(s, x[2]) / PRIME
                if x[2] == "ry": return 109000 + h(s, "ry") / PRIME * 700
            return None
        for q, spec, tol in (("nstar", spec_n, 1e-9), ("energy", spec_e, 2e-8)):
            rep.count("quantities compared")
            rep.check(close(d.get(q), spec, env, tol), f"formula:{q}", f"{at}: {q} = {show(spec)[:160]}", f"{at}: {q} is computed as {show(d.get(q))[:400]}, not by the Rydberg-Ritz formula")

def table(rep):
    p = SRC + "/databases/quantum_defects.sql"
    if not os.path.exists(p):
        raise AnalysisError("anchor vanished: quantum_defects.sql")
    text = open(p).read()
    rel = os.path.relpath(p, os.path.dirname(SRC))
    try:
        sts = parse_sql(text)
    except SqlError as e:
        rep.bad("sql", f"{rel}: {e}"); return
    cols = {}; rows = {}
    for s in sts:
        if s["kind"] == "create":
            cols[s["table"]] = [c[0] for c in s["cols"]]
        if s["kind"] == "insert":
            for vs in s["rows"]:
                names = s["cols"] or cols.get(s["table"], [])
                if len(names) != len(vs):
                    rep.bad(f"arity:{s['table']}", f"{rel}: a row of {s['table']} has {len(vs)} values for {len(names)} columns"); continue
                r = dict(zip(names, [v[1] for v in vs]))
                for c in names:
                    if c == "element": continue
                    try:
                        r[c] = float(r[c])
                    except ValueError:
                        rep.bad(f"number:{s['table']}:{r['element']}:{c}", f"{rel}: {s['table']} has {r[c]!r} as {c} of {r['element']}, which is not a number"); r[c] = 0.0
                rows.setdefault(s["table"], []).append(r)
    mp, rr = rows.get("model_potential", []), rows.get("rydberg_ritz", [])
    if not mp or not rr:
        raise AnalysisError("anchor vanished: rows of the quantum defect tables")
    elems = sorted({r["element"] for r in mp} | {r["element"] for r in rr})
    for e in elems:
        rep.count("species")
        ms = [r for r in mp if r["element"] == e]; rs = [r for r in rr if r["element"] == e]
        rep.check(bool(ms) and bool(rs), f"both:{e}", f"{rel}: {e} has a model potential and Rydberg-Ritz coefficients", f"{rel}: {e} lacks its {'model potential' if not ms else 'Rydberg-Ritz coefficients'}")
        if not ms or not rs:
            continue
        spin = (int(e[-1]) - 1) / 2 if e[-1].isdigit() else 0.5
        ml, rl = max(r["l"] for r in ms), max(r["l"] for r in rs)
        for l in range(int(max(ml, rl)) + 3):
            n = [r for r in ms if r["l"] == min(l, ml)]
            rep.check(len(n) == 1, f"model-row:{e}:{l}", f"{rel}: model potential of {e}: one row for each l", f"{rel}: {len(n)} model potential rows of {e} answer for l = {l}")
            L = min(l, rl)
            js = [r["j"] for r in rs if r["l"] == L]
            j = abs(l - spin)
            while j <= l + spin:
                rep.count("state look-ups")
                k = [x for x in js if x == min(j, max(js))] if js else []
                rep.check(len(k) == 1, f"ritz-row:{e}:{l}:{j}", f"{rel}: coefficients of {e}: one row for each l, j", f"{rel}: {len(k)} rows of Rydberg-Ritz coefficients of {e} answer for l = {l}, j = {j}")
                j += 1
        for r in ms:
            rep.check(r["z"] > 0 and r["rc"] > 0 and r["ac"] >= 0, f"model-sane:{e}", f"{rel}: {e}: core charge and radius are positive", f"{rel}: the model potential of {e} for L = {r['l']:g} has Z = {r['z']:g}, rc = {r['rc']:g}, ac = {r['ac']:g}")
        zs = {r["z"] for r in ms}; acs = {r["ac"] for r in ms}
        rep.check(len(zs) == 1 and len(acs) == 1, f"model-core:{e}", f"{rel}: {e}: one core charge and polarizability for all L", f"{rel}: {e} has different core charges or polarizabilities for different L: {sorted(zs)} {sorted(acs)}")
        for r in rs:
            rep.check(109700 < r["ry"] < 109737.3157, f"ry:{e}:{r['l']:g}:{r['j']:g}", f"{rel}: {e}: the Rydberg constants lie below the one for infinite mass", f"{rel}: the Rydberg constant {r['ry']} of {e} (L = {r['l']:g}, J = {r['j']:g}) is not one of a finite nuclear mass")
