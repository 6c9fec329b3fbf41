"""Symbolic matrix algebra. Every operation of a Hamiltonian matrix is evaluated to terms of matrix algebra
over the entries H and the basis B it starts with (loops are summarised as one generic iteration, so the
result holds for every size), and the terms are compared with what the operation means: a selection T of basis
vectors gives B T and T'HT with the same T, T picks each vector that passes the criterion exactly once and in
order, a change of basis to X gives X and (B'X)'H(B'X), diagonalisation gives eigenvalues and B times the
eigenvectors of the same problem, arithmetic acts on the entries and leaves the basis alone. The criteria
(weights, cutoffs) are compared as formulas."""
from core import *
from facts import *
from mateval import *
FLOORS = {"operations": 20, "selections": 8}
SEEN = {}
H = "Hamiltonianmatrix::"
E_, B_ = ("sym", ("this", H + "entries_")), ("sym", ("this", H + "basis_"))

def ms(t):
    """readable form of a term"""
    if type(t) is not tuple: return str(t)
    if not t: return "()"
    if t[0] == "sym":
        n = [short(x) if type(x) is str else "[]" for x in t[1] if x != "this"]
        return {"entries_": "H", "basis_": "B"}.get(n[-1] if n else "", ".".join(map(str, t[1][-2:])) if t[1][:1] == ("arg",) else ".".join(n))
    if t[0] == "app":
        if t[1] == "@": return f"{ms(t[2])}·{ms(t[3])}"
        if t[1] == "adj": return f"({ms(t[2])})†"
        if t[1] == "tr": return f"({ms(t[2])})ᵀ"
        if t[1] == "conj": return f"conj({ms(t[2])})"
        if t[1] == "tri": return "T"
        if t[1] == "sum": return "Σ(" + ", ".join(ms(x[2]) for x in t[2]) + ")"
        if t[1] == "vec": return "vector"
        if t[1] == "elem": return f"{ms(t[2])}[{ms(t[3])}]"
        if len(t) == 4 and not t[1][0].isalpha(): return f"({ms(t[2])} {t[1]} {ms(t[3])})"
        return f"{t[1].replace('std::', '')}({', '.join(ms(x) for x in t[2:])})"
    if t[0] == "ix": return "i"
    if t[0] == "unk": return "?"
    if t[0] == "nz": return "stored"
    return t[0]

def selection(t):
    """(axis, range, criterion as a set of conditions on index 'i', index list) of a matrix that picks rows or columns, or (None, reason)"""
    if not is_app(t, "tri"): return None, f"{ms(t)} is not built from triplets"
    r, c, l = t[2:]
    if not (type(l) is tuple and l[:1] == ("list",)): return None, "its triplets are not known"
    if len(l[1]) != 1: return None, f"it has {len(l[1])} kinds of elements"
    bs, gs, pl = next(iter(l[1]))
    if len(bs) != 1 or bs[0][:1] != ("each",): return None, "its elements do not come from one loop"
    b = bs[0]
    if not (type(pl) is tuple and len(pl) == 4 and pl[0] == "tuple"): return None, "its elements are not understood"
    _, x, y, v = pl
    if v != 1: return None, f"its elements are {ms(v)} instead of 1"
    ix = ("ix", b)
    run, cnt = ("run", frozenset({((b,), gs)})), ("count", frozenset({((b,), gs)}))
    for axis, pos, new, full, dim in (("cols", x, y, r, c), ("rows", y, x, c, r)):
        if pos == ix and new == run:
            if b[1] != 0 or b[2] != full: return None, f"the loop runs over [{ms(b[1])}, {ms(b[2])}) instead of [0, {ms(full)})"
            if dim != cnt: return None, "its size is not the number of elements kept"
            return (axis, full, frozenset((subst(q, {ix: "i"}), z) for q, z in gs), None), ""
        if new == ix and not gs and is_app(pos, "elem") and pos[3] == ix:
            L = pos[2]
            n = ("count", frozenset((q, g) for q, g, p in L[1])) if L[:1] == ("list",) else app("std::vector::size", L)
            if b[1] != 0 or b[2] != n or dim != n: return None, "it does not take every element of the list of indices"
            if L[:1] == ("list",):
                if len(L[1]) == 1:
                    (q, g, p), = L[1]
                    if len(q) == 1 and p == ("ix", q[0]) and q[0][:2] == ("each", 0) and q[0][2] == full:
                        return (axis, full, frozenset((subst(t2, {p: "i"}), z) for t2, z in g), None), ""
                return None, "the list of indices is not understood"
            return (axis, full, frozenset(), L), ""
    return None, "rows and columns of its elements do not pick one after the other"

def field(o, name, e):
    """entries or basis after the operation"""
    s = o[2]
    v = o[1]
    l = ("this",)
    if type(v) is tuple and v[:1] in (("obj",), ("ref",)): l = v[1]
    if type(v) is tuple and v[:1] == ("sym",): l = v[1]
    return e.value_of(s, l + (H + name,))

def conditions(gs):
    """conditions with their negation resolved"""
    neg = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}
    r = set()
    for t, b in gs:
        if type(t) is tuple and t[:1] == ("not",): t, b = t[1], not b
        if type(t) is tuple and t[:1] == ("app",) and t[1] in neg:
            op = t[1] if b else neg[t[1]]
            x, y = t[2], t[3]
            if op in (">", ">="): op, x, y = {">": "<", ">=": "<="}[op], y, x
            r.add((op, x, y))
        else:
            r.add((b, t))
    return r

def weight(t, B, which, extra=frozenset()):
    """whether t is the weight of vector/coordinate i: the sum of the squared absolute values of its elements"""
    v = None
    if which == "cols" and is_app(t, "sum") and len(t[2]) == 1:
        (bs, g, d), = t[2]
        if len(bs) == 1 and bs[0] == ("nz", B, "i") and normal_guard(g) == extra:
            v = (bs[0], d)
    if which == "rows" and is_app(t, "elem") and t[3] == "i" and is_app(t[2], "vec") and t[2][2] == rows(B) and t[2][3] == 0 and len(t[2][4]) == 1:
        (kind, bs, g, ix, d), = t[2][4]
        if kind == "acc" and len(bs) == 2 and bs[0] == ("each", 0, cols(B)) and bs[1] == ("nz", B, ("ix", bs[0])) and not g and ix == app("nzrow", bs[1]):
            v = (bs[1], d)
    if is_app(t, "squaredNorm") and not extra and which == "cols": return t[2] == app("col", B, "i")
    if v is None: return False
    nz = app("nzvalue", v[0])
    want = app("std::pow", app("std::abs", nz), 2)
    return any(same_expr(subst(v[1], {app("std::norm", nz): want, app("std::real", app("*", nz, app("std::conj", nz))): want}), w) for w in (want,))

def normal_guard(g):
    r = set()
    for t, b in g:
        if type(t) is tuple and t[:1] == ("not",): t, b = t[1], not b
        if is_app(t, "elem") and is_app(t[3], "nzrow"):
            t = app("elem", t[2], app("nzrow", "stored"))
        r.add((t, b))
    return frozenset(r)

def unknown(t):
    return mentions_term(t, UNK)

def run(rep):
    prog = Program(all_tus())
    for f in sorted((f for f in prog.fns.values() if f.get("body") and not f.get("dep") and f.get("fn", "").startswith(H) or friend(f)), key=lambda f: (f["f"], f["l"])):
        one(rep, prog, f)
    for nm in ("changeBasis", "applyCutoff", "removeUnnecessaryBasisvectors", "removeUnnecessaryStates", "getBlock", "diagonalize", "findUnnecessaryStates", "abs", "compress"):
        if not SEEN.get("op " + nm): raise AnalysisError(f"{H}{nm}: no body found")
    for nm in ("operator+", "operator-", "operator*", "operator+=", "operator-="):
        if not SEEN.get("op " + nm): raise AnalysisError(f"{nm} of Hamiltonianmatrix: no body found")

def friend(f):
    return f.get("body") and not f.get("dep") and f.get("fn") in ("operator+", "operator-", "operator*") and "Hamiltonianmatrix" in f.get("t", "")

def one(rep, prog, f):
    nm = short(f["fn"])
    if nm not in ("changeBasis", "applyCutoff", "removeUnnecessaryBasisvectors", "removeUnnecessaryStates", "getBlock", "diagonalize", "findUnnecessaryStates", "abs", "compress",
                  "operator+", "operator-", "operator*", "operator+=", "operator-=", "findSubs", "addBasis", "addEntries", "num_basisvectors", "num_coordinates"):
        return
    SEEN["op " + nm] = SEEN.get("op " + nm, 0) + 1
    rep.count("operations")
    e = MatEval(prog)
    args = [("l", ("arg", i)) if isref(q["t"]) else ("v", ("obj", ("arg", i)) if "Hamiltonianmatrix" in q["t"] else ("sym", ("arg", i))) for i, q in enumerate(f["p"])]
    st = {}
    outs = [o for o in e.run(f, st, ("this",), args) if o[0] == "ret"]
    w, label = loc(f, f), f["fn"] + (" (complex)" if "complex" in f["u"] else "")
    if not outs: raise AnalysisError(f"{w}: {label} could not be evaluated")
    key = f["fn"].replace(H, "") + str(len(f["p"]))
    arg = lambda i, q=None: ("sym", ("arg", i) + ((H + q,) if q else ()))
    for o in outs:
        if nm in ("num_basisvectors", "num_coordinates"):
            rep.check(o[1] == (cols(B_) if nm == "num_basisvectors" else rows(B_)), f"dim:{key}", f"{label} is a dimension of the basis", f"{w}: {label} returns {ms(o[1])}")
            continue
        if nm in ("addBasis", "addEntries"):
            q = ("this", H + ("triplets_basis" if nm == "addBasis" else "triplets_entries"))
            v = o[2].get(q)
            ok = type(v) is tuple and v[:1] == ("list",) and len(v) == 3 and v[1] == frozenset({((), frozenset(), ("tuple", arg(0), arg(1), arg(2)))})
            other = o[2].get(("this", H + ("triplets_entries" if nm == "addBasis" else "triplets_basis")))
            rep.check(ok and other is None, f"add:{key}", f"{label} notes the element as given", f"{w}: {label} does not note exactly (row, column, value) for {'the basis' if nm == 'addBasis' else 'the entries'}")
            continue
        if nm == "findUnnecessaryStates":
            find(rep, f, e, o, w, label, key); continue
        E, B = field(o, "entries_", e), field(o, "basis_", e)
        if nm == "findSubs":
            v = o[1]
            continue
        if unknown(E) or unknown(B): raise AnalysisError(f"{w}: {label}: what it does to the matrix is not understood ({sorted(e.unknown_calls)[:5]})")
        E0, B0 = E_, B_
        if friend(f):
            i = next(i for i, q in enumerate(f["p"]) if "Hamiltonianmatrix" in q["t"])
            E0, B0 = arg(i, "entries_"), arg(i, "basis_")
        if nm in ("operator+", "operator-", "operator+=", "operator-="):
            other = arg(1 if friend(f) else 0, "entries_")
            rep.check(same_mat(E, app(nm[8], E0, other)), f"entries:{key}", f"{label}: entries are {nm[8]} of the entries", f"{w}: {label}: the entries become {ms(E)}")
            rep.check(same_mat(B, B0), f"basis:{key}", f"{label}: the basis stays", f"{w}: {label}: the basis becomes {ms(B)}")
        elif nm == "operator*":
            s = next(i for i, q in enumerate(f["p"]) if "Hamiltonianmatrix" not in q["t"])
            rep.check(same_mat(E, app("*", arg(s), E0)), f"entries:{key}", f"{label}: entries are scaled", f"{w}: {label}: the entries become {ms(E)}")
            rep.check(same_mat(B, B0), f"basis:{key}", f"{label}: the basis stays", f"{w}: {label}: the basis becomes {ms(B)}")
        elif nm == "abs":
            rep.check(E == app("abs", E0), f"entries:{key}", f"{label}: entries are the absolute values", f"{w}: {label}: the entries become {ms(E)}")
            rep.check(same_mat(B, B0), f"basis:{key}", f"{label}: the basis stays", f"{w}: {label}: the basis becomes {ms(B)}")
        elif nm == "changeBasis":
            X = arg(0)
            rep.check(same_mat(B, X), f"basis:{key}", f"{label}: the basis is the one asked for", f"{w}: {label}: the basis becomes {ms(B)}")
            T = app("@", app("adj", B0), X)
            rep.check(same_mat(E, app("@", app("@", app("adj", T), E0), T)), f"entries:{key}", f"{label}: the entries are those of the same operator in the new basis", f"{w}: {label}: the entries become {ms(E)} instead of (B†X)†·H·(B†X)")
        elif nm == "diagonalize":
            if same_mat(E, E0) and same_mat(B, B0):
                d = [(k[1], v) for k, v in o[2].items() if k[0] == "D"]
                ok = len(d) == 1 and trivial(d[0])
                rep.check(ok, f"skip:{key}", f"{label}: nothing is done only for matrices without off-diagonal elements", f"{w}: {label} leaves the matrix as it is although it may have several basis vectors")
                continue
            ev = app("evals", E0)
            ok = is_app(E, "upd") and is_app(E[2], "zero") or is_app(E, "upd") and E[2] == app("zero", rows(E0), cols(E0))
            if is_app(E, "upd") and len(E[3]) == 1:
                (kind, bs, g, ix, d), = E[3]
                ok = ok and kind in ("set", "acc") and len(bs) == 1 and bs[0][:2] == ("each", 0) and bs[0][2] in (rows(ev), cols(B0), rows(E0)) and not g and ix == ("tuple", ("ix", bs[0]), ("ix", bs[0])) and d in (app("elem", ev, ("ix", bs[0])), app("real", app("elem", ev, ("ix", bs[0]))))
            else:
                ok = E == app("asdiag", ev)
            rep.check(ok, f"entries:{key}", f"{label}: the entries are the eigenvalues", f"{w}: {label}: the entries become {ms(E)} instead of the eigenvalues on the diagonal")
            rep.check(same_mat(B, app("@", B0, app("evecs", E0))), f"basis:{key}", f"{label}: the basis is that of the eigenvectors", f"{w}: {label}: the basis becomes {ms(B)} instead of B·(eigenvectors of H)")
        elif nm == "compress":
            for what, M, dims in (("basis", B, (arg(1), arg(0))), ("entries", E, (arg(0), arg(0)))):
                L = ("sym", ("this", H + "triplets_" + what))
                rep.check(M == app("tri", dims[0], dims[1], L), f"compress:{what}", f"{label}: the {what} consist of the elements noted", f"{w}: {label}: the {what} become {ms(M)} with dimensions {ms(M[2]) if is_app(M, 'tri') else '?'} x {ms(M[3]) if is_app(M, 'tri') else '?'}")
                rep.check(o[2].get(("this", H + "triplets_" + what)) == EMPTY, f"forget:{what}", f"{label}: noted elements are used once", f"{w}: {label} keeps the noted elements of the {what}")
        elif nm == "removeUnnecessaryStates":
            rep.check(same_mat(E, E0), f"entries:{key}", f"{label}: the entries stay", f"{w}: {label}: the entries become {ms(E)}")
            ok = is_app(B, "@") and B[3] == B0
            rep.check(ok, f"basis:{key}", f"{label}: the basis loses coordinates", f"{w}: {label}: the basis becomes {ms(B)} instead of a selection of its rows")
            if ok:
                sel, why = selection(B[2])
                rep.count("selections")
                c = conditions(sel[2]) if sel else set()
                rep.check(sel is not None and sel[0] == "rows" and sel[1] == rows(B0) and c == {(True, app("elem", arg(0), "i"))}, f"select:{key}", f"{label}: exactly the necessary coordinates are kept, in order",
                          f"{w}: {label} does not keep exactly the necessary coordinates in their order: {why or crit(c)}")
        else:
            T = None
            for M in (B[3] if is_app(B, "@") else None,):
                T = M
            ok = T is not None and same_mat(B, app("@", B0, T))
            rep.check(ok, f"basis:{key}", f"{label}: the basis becomes a selection of its vectors", f"{w}: {label}: the basis becomes {ms(B)} instead of a selection of its vectors")
            if not ok: continue
            rep.check(same_mat(E, app("@", app("@", app("adj", T), E0), T)) or same_mat(E, app("@", app("@", app("tr", T), E0), T)), f"entries:{key}", f"{label}: the entries are those of the vectors kept", f"{w}: {label}: the entries become {ms(E)}, which are not those of the vectors kept")
            sel, why = selection(T)
            rep.count("selections")
            rep.check(sel is not None and sel[0] == "cols" and sel[1] == cols(B0), f"select:{key}", f"{label}: every vector is kept or removed as a whole, in order", f"{w}: {label}: the transformation does not pick basis vectors: {why}")
            if not sel: continue
            c = conditions(sel[2])
            if nm == "getBlock":
                rep.check(sel[3] == arg(0) and not c, f"which:{key}", f"{label}: the vectors asked for are taken", f"{w}: {label} does not take exactly the vectors asked for")
            elif nm == "applyCutoff":
                d = app("std::abs", app("elem", app("diag", E0), "i"))
                rep.check(sel[3] is None and c == {("<", d, arg(0))}, f"which:{key}", f"{label}: vectors with an energy below the cutoff are kept", f"{w}: {label} keeps the vectors with {crit(c)} instead of |energy| < cutoff")
            else:
                extra = frozenset({(app("elem", arg(0), app("nzrow", "stored")), True)}) if f["p"] else frozenset()
                ok = sel[3] is None and len(c) == 1
                if ok:
                    op, x, y = next(iter(c)) if len(next(iter(c))) == 3 else (None, None, None)
                    ok = op == "<" and x == 0.05 and weight(y, B0, "cols", extra)
                rep.check(ok, f"which:{key}", f"{label}: vectors with more than 5 % weight are kept", f"{w}: {label} keeps the vectors with {crit(c)} instead of more than 5 % weight{' on necessary coordinates' if extra else ''}")

def trivial(d):
    """a condition that says there is at most one basis vector"""
    c = conditions([d])
    n = cols(B_)
    e = (cols(E_), rows(E_), n)
    return any(x in c for m in e for x in (("<=", m, 1), ("<", m, 2), ("<", m, 1), ("==", m, 0), ("==", m, 1)))

def crit(c):
    return " and ".join(f"{ms(x[1])} {x[0]} {ms(x[2])}" if len(x) == 3 else f"{'' if x[0] else 'not '}{ms(x[1])}" for x in sorted(c, key=repr)) or "no condition"

def find(rep, f, e, o, w, label, key):
    v = o[2].get(("arg", 0))
    ok = False; c = set()
    for k in o[2]:
        if k[0] == "this" and k[-1] in (H + "entries_", H + "basis_"):
            rep.bad(f"const:{key}", f"{w}: {label} changes the matrix")
    if is_app(v, "upd") and v[2] == ("sym", ("arg", 0)) and len(v[3]) == 1:
        (kind, bs, g, ix, d), = v[3]
        if kind == "set" and len(bs) == 1 and bs[0] == ("each", 0, rows(B_)) and ix == ("ix", bs[0]) and d in (True, 1):
            c = conditions((subst(t, {ix: "i"}), b) for t, b in g)
            if len(c) == 1 and len(next(iter(c))) == 3:
                op, x, y = next(iter(c))
                ok = op == "<" and x == 0.05 and weight(y, B_, "rows")
    elif unknown(v): raise AnalysisError(f"{w}: {label}: what it does is not understood")
    rep.check(ok, f"which:{key}", f"{label}: coordinates with more than 5 % weight are marked, others are left alone", f"{w}: {label} marks the coordinates with {crit(c)} instead of more than 5 % weight")
