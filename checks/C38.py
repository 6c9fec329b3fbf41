"""Symbolic evaluation of the queries of a quantum system: each is reduced to a term over the basis B, the Hamiltonian
H and the list of states (for every size; search loops are summarised as "the largest of ..."), and compared with what
it reports: entries of the Hamiltonian are matrix elements between the rows of B that belong to the two states, setting
and adding entries changes exactly the two conjugate elements, overlaps are summed squared moduli of B'|states>, the
dominating state of a vector is that of its largest element, connections are pairs of vectors that are each other's
largest overlap."""
from core import *
from facts import *
from syseval import *
import C17, C18
from C17 import conditions
from C18 import ms, OPS, THIS, O, decided, get, known, rets, names, log_of, find_terms, state_map, first
FLOORS = {"operations": 20, "entries": 5, "overlaps": 12, "searches": 4}

A = lambda i: ("sym", ("arg", i))
def index(i): return app("getStateIndex", A(i))

# ---------------------------------------------------------------- matrix elements
def vectors(t):
    """rows and elements of a matrix by means of unit vectors"""
    if type(t) is not tuple: return t
    if is_app(t, "row"): return app("@", ("e", t[3]), vectors(t[2]))
    if is_app(t, "col"): return app("@", vectors(t[2]), app("tr", ("e", t[3])))
    if is_app(t, "dot"): return app("@", vectors(t[3]), app("adj", vectors(t[2])))
    if is_app(t, "elem") and type(t[3]) is tuple and t[3][:1] == ("tuple",) and len(t[3]) == 3: return app("@", app("@", ("e", t[3][1]), vectors(t[2])), app("tr", ("e", t[3][2])))
    return tuple(vectors(x) if type(x) is tuple and x[:1] == ("app",) else x for x in t)
def nfv(t):
    """normal form of a scalar: real unit vectors, transposing changes nothing"""
    d = {}
    for (sc, fs), c in nf(vectors(t)):
        fs = tuple((m, fl - {"c"} if type(m) is tuple and m[:1] == ("e",) else fl) for m, fl in fs)
        other = tuple((m, fl ^ {"t"}) for m, fl in reversed(fs))
        k = (sc, min(fs, other, key=repr))
        d[k] = d.get(k, 0) + c
    return frozenset((k, c) for k, c in d.items() if c)
def element(i, j): return app("@", app("@", app("@", ("e", i), B), Hm), app("adj", app("@", ("e", j), B)))

def entries(rep, prog):
    M = methods(prog, ["getHamiltonianEntry", "setHamiltonianEntry", "addHamiltonianEntry", "getStateIndex"])
    r, c = index(0), index(1)
    for nm in ("getHamiltonianEntry", "setHamiltonianEntry", "addHamiltonianEntry"):
        for f in M[nm]:
            w = loc(f, f)
            e = SysEval(prog, OPS + ("getStateIndex",), None)
            same = set()
            for o in rets(e, f, rep, nm):
                rep.count("entries")
                first(rep, f, o, nm, nm, "buildHamiltonian")
                H1, B1 = get(e, o, "hamiltonian"), get(e, o, "basisvectors")
                known(e, f, H1, B1)
                rep.check(B1 == B, f"{nm}:basis", f"{nm} leaves the basis alone", f"{w}: {nm} changes the basis")
                if nm == "getHamiltonianEntry":
                    known(e, f, o[1])
                    rep.check(H1 == Hm, f"{nm}:same", f"{nm} leaves the Hamiltonian alone", f"{w}: {nm} changes the Hamiltonian")
                    rep.check(nfv(o[1]) == nfv(element(r, c)), f"{nm}:value", f"{nm} returns the element between the two states", f"{w}: {nm} returns {ms(o[1])} instead of the element of B·H·B† that belongs to the two states")
                    continue
                d = conditions({(t, v) for t, v in decided(o).items()})
                eq = ("==", r, c) in d or ("==", c, r) in d
                ne = ("!=", r, c) in d or ("!=", c, r) in d
                if not eq and not ne: raise AnalysisError(f"{w}: {nm}: whether both states are the same is not asked")
                same.add(eq)
                ok, why = False, f"the Hamiltonian becomes {ms(H1)}"
                if is_app(H1, "+"):
                    D = H1[3] if H1[2] == Hm else H1[2] if H1[3] == Hm else None
                    up = find_terms(D, lambda t: is_app(t, "upd")) if D is not None else []
                    up = [x for x in up if is_app(x[2], "zero")][:1]
                    if up and same_mat(D, app("@", app("@", app("adj", B), up[0]), B)):
                        got = {}
                        for kind, bs, g, ix, v in up[0][3]:
                            got[ix] = v if kind == "set" and not bs and not g else None
                        keys = {("tuple", r, c)} | (set() if eq else {("tuple", c, r)})
                        v = A(2)
                        why = f"elements {[tuple(ms(x) for x in k[1:]) for k in got]} are changed"
                        if set(got) == keys and None not in got.values():
                            x = got[("tuple", r, c)]
                            if nm == "setHamiltonianEntry": ok = is_app(x, "-") and x[2] == v and nfv(x[3]) == nfv(element(r, c))
                            else: ok = x == v
                            why = f"the element changes by {ms(x)}"
                            if ok and not eq:
                                y = got[("tuple", c, r)]
                                ok = y in (app("conjugate", x), app("std::conj", x), app("conj", x))
                                why = f"the element of the exchanged states changes by {ms(y)} instead of the conjugate"
                rep.check(ok, f"{nm}:{'diagonal' if eq else 'off'}", f"{nm} changes the element{'' if eq else ' and its conjugate'} {'by' if nm[0] == 'a' else 'to'} the value", f"{w}: {nm} does not change the element{'' if eq else ' and its conjugate'} {'by' if nm[0] == 'a' else 'to'} the given value: {why}")
            if nm != "getHamiltonianEntry": rep.check(same == {True, False}, f"{nm}:cases", f"{nm} distinguishes diagonal elements", f"{w}: {nm} does not distinguish diagonal elements")
    for f in M["getStateIndex"]:
        w = loc(f, f)
        e = SysEval(prog, OPS, None)
        many = "vector" in f["p"][0]["t"]
        outs = call(e, f)
        rep.count("operations")
        for o in outs:
            d = decided(o)
            key = f"index{'es' if many else ''}"
            has = [v for t, v in d.items() if t[:2] == ("has", STATES[1])]
            gen = [v for t, v in d.items() if is_app(t, "is_true")]
            if o[0] == "throw":
                rep.check(False in has or True in gen, f"{key}:refuse", "getStateIndex refuses only states that are not there", f"{w}: getStateIndex throws for a state of the system")
                continue
            b = ("each", 0, app("std::vector::size", A(0)))
            s = app("elem", A(0), ("ix", b)) if many else A(0)
            at = ("sym", ("this", SB + "states", ("pair", s), "enumerated_state::idx"))
            if many:
                ok = type(o[1]) is tuple and o[1][:1] == ("list",) and len(o[1][1]) == 1
                if ok:
                    (bs, gs, pl), = o[1][1]
                    ok = bs == (b,) and pl == at and all(v is True and t == ("has", STATES[1], s) or v is False and t == app("is_true", app("isGeneralized", s)) for t, v in gs)
            else: ok = o[1] == at and has == [True]
            rep.check(ok, f"{key}:value", "getStateIndex returns the position of the state", f"{w}: getStateIndex returns {ms(o[1])} instead of the position of the state")
        if not many:
            t = [o for o in outs if o[0] == "throw"]
            rep.check(any(any(q[:2] == ("has", STATES[1]) and not v for q, v in decided(o).items()) for o in t), "index:missing", "a state that does not occur is refused", f"{w}: getStateIndex does not refuse a state that does not occur")
            rep.check(any(any(is_app(q, "is_true") and v for q, v in decided(o).items()) for o in t), "index:generalized", "a generalized state is refused", f"{w}: getStateIndex does not refuse a generalized state")

# ---------------------------------------------------------------- overlaps
def overlaps(rep, prog):
    n0 = app("std::vector::size", STATES)
    for f in methods(prog, ["getOverlap"])["getOverlap"]:
        w = loc(f, f)
        p = [q["t"] for q in f["p"]]
        e = SysEval(prog, OPS + ("getEulerAngles",), None)
        indices, many = "long" in p[0] or "size_t" in p[0], "vector" in p[0]
        axes = len(p) == 3
        label = f"getOverlap({'list of ' if many else ''}{'index' if indices else 'state'}{', axes' if axes else ', angles' if len(p) == 4 else ''})"
        key = label[10:]
        rot = set()
        for o in rets(e, f, rep, "getOverlap"):
            rep.count("overlaps")
            rep.check("buildBasis" in names(o), f"{key}:built", f"{label} builds the basis", f"{w}: {label} does not build the basis")
            known(e, f, o[1])
            ang = [A(1), A(2), A(3)] if len(p) == 4 else [app("elem", app("getEulerAngles", A(1), A(2)), i) for i in range(3)] if axes else [0, 0, 0]
            d = decided(o)
            zero = [any(d.get(app("==", a, z)) is True for z in (0, 0.0)) or a == 0 and type(a) is int for a in ang]
            L0 = A(0) if many else ("tuple", A(0))
            # the matrix whose overlap with the vectors is taken
            P, why = overlap_with(o[1])
            if P is None:
                rep.bad(f"{key}:square", f"{w}: {label} does not return the summed squared moduli of the overlaps with each vector: {why}"); continue
            if not (is_app(P, "@") and same_mat(P[2], app("adj", B))):
                rep.bad(f"{key}:vectors", f"{w}: {label} takes the overlap of {ms(P)} instead of B† with the states"); continue
            Os = P[3]
            rot.add(is_app(Os, "rotateStates"))
            if is_app(Os, "rotateStates"):
                L = Os[2]
                ok = tuple(Os[3:]) == tuple(ang)
                rep.check(ok, f"{key}:angles", f"{label} rotates by the angles in order", f"{w}: {label} rotates the states by {[ms(x) for x in Os[3:]]} instead of {[ms(x) for x in ang]}")
            else:
                rep.check(all(zero), f"{key}:rotates", f"{label} leaves the states alone only if all angles are zero", f"{w}: {label} does not rotate the states although an angle is not zero")
                L, why = unit_vectors(Os, n0)
                if L is None:
                    rep.bad(f"{key}:states", f"{w}: {label}: the matrix of the states is wrong: {why}"); continue
            if indices: ok, why = L == L0 or type(L) is tuple and L[:1] == ("list",) and len(L[1]) == 1 and not many and set(L[1]) == {((), frozenset(), A(0))}, f"the positions are {ms(L)}"
            else: ok, why = named(L, L0)
            rep.check(ok, f"{key}:which", f"{label} takes the states it is asked for", f"{w}: {label} does not take exactly the states it is asked for: {why}")
        if len(p) > 1: rep.check(rot == {True, False} or rot == {True}, f"{key}:both", f"{label} rotates", f"{w}: {label} never rotates the states")

def overlap_with(v):
    """P if v holds the summed squared moduli of the rows of P"""
    if is_app(v, "@") and is_app(v[2], "abs2") and is_app(v[3], "ones"): return v[2][2], ""
    if not (is_app(v, "upd") and is_app(v[2], "zero") and len(v[3]) == 1): return None, ms(v)
    (kind, bs, g, ix, d), = v[3]
    if kind != "acc" or len(bs) != 2 or bs[1][:1] != ("nz",): return None, "elements are not summed"
    P = bs[1][1]
    if bs[0] != ("each", 0, cols(P)) or bs[1] != ("nz", P, ("ix", bs[0])) or g: return None, "not all elements are summed"
    if ix != app("nzrow", bs[1]) or v[2][2] != rows(P): return None, "they are not summed for each vector"
    x = app("nzvalue", bs[1])
    if d not in (app("std::pow", app("std::abs", x), 2), app("std::norm", x), app("*", app("std::abs", x), app("std::abs", x))): return None, f"{ms(d)} is summed"
    return P, ""

def unit_vectors(T, n0):
    """the list of positions L if the columns of T are the unit vectors at L"""
    if not is_app(T, "tri"): return None, ms(T)
    r, c, l = T[2:]
    if r not in (n0, rows(B)) or not (type(l) is tuple and l[:1] == ("list",) and len(l[1]) == 1): return None, "its elements are not one for each state"
    (bs, gs, pl), = l[1]
    if len(bs) != 1 or gs or bs[0][:2] != ("each", 0) or bs[0][2] != c: return None, "not one element for each state"
    ix = ("ix", bs[0])
    if pl[0] != "tuple" or pl[2] not in (ix, ("run", frozenset({(bs, gs)}))) or pl[3] != 1 or not (is_app(pl[1], "elem") and pl[1][3] == ix): return None, "its elements are not ones at the positions of the states"
    L = pl[1][2]
    n = ("count", frozenset((b, g) for b, g, q in L[1])) if L[:1] == ("list",) else app("std::vector::size", L)
    return (L, "") if c == n else (None, f"it has {ms(c)} columns")

def named(L, L0):
    """whether L are the positions of the states in L0, or of all states that match a generalized one"""
    if not (type(L) is tuple and L[:1] == ("list",)): return False, ms(L)
    b = ("each", 0, app("std::vector::size", L0))
    s = app("elem", L0, ("ix", b))
    gen = app("is_true", app("isGeneralized", s))
    each = ("each", 0, app("std::vector::size", STATES))
    st = lambda m: ("sym", ("this", SB + "states", ("idx", ("ix", each)), "enumerated_state::" + m))
    single = ((b,), frozenset({(gen, False), (("has", STATES[1], s), True)}), ("sym", ("this", SB + "states", ("pair", s), "enumerated_state::idx")))
    for order in ((st("state"), s), (s, st("state"))):
        many = ((b, each), frozenset({(gen, True), (app("^", *order), True)}), st("idx"))
        if set(L[1]) == {single, many}: return order[0] == st("state"), "the operands of ^ are exchanged: the state asked for must be the general one"
    return False, f"{len(L[1])} kinds of states are taken"

# ---------------------------------------------------------------- searches
def searches(rep, prog):
    M = methods(prog, ["getMainStates", "getConnections", "getBasisvectorIndex", "getStates", "getNumStates", "getNumBasisvectors", "getHamiltonian", "getBasisvectors", "getStatesMultiIndex"])
    each = ("each", 0, cols(B))
    nz = ("nz", B, ("ix", each))
    mag = lambda z: (app("std::abs", app("nzvalue", z)), app("std::norm", app("nzvalue", z)))
    f = M["getMainStates"][0]
    w = loc(f, f)
    e = SysEval(prog, OPS, None)
    for o in rets(e, f, rep, "getMainStates"):
        rep.count("searches")
        known(e, f, o[1])
        ok = False
        v = o[1]
        if type(v) is tuple and v[:1] == ("list",) and len(v) == 2 and len(v[1]) == 1:
            (bs, gs, pl), = v[1]
            if bs == (each,) and all(not z and is_app(t, "<") and is_app(t[2], "maxof") for t, z in gs) or bs == (each,) and not gs:
                ok = pl[:1] == ("sym",) and pl[1][:2] == ("this", SB + "states") and pl[1][3:] == ("enumerated_state::state",) and pl[1][2][0] == "idx" and largest(pl[1][2][1], (nz,), frozenset(), mag(nz), (app("nzrow", nz),))
        rep.check(ok, "main:value", "getMainStates returns for each vector the state of its largest element", f"{w}: getMainStates does not return for each vector the state with the largest modulus: {ms(v)}")
    for f in M["getBasisvectorIndex"]:
        w = loc(f, f)
        if "vector" in f["p"][0]["t"]:
            e = SysEval(prog, OPS + ("getStateIndex",), None)
            for o in rets(e, f, rep, "getBasisvectorIndex"):
                rep.count("searches")
                known(e, f, o[1])
                why = assigned(o[1])
                rep.check(why is None, "vectors:value", "getBasisvectorIndex assigns to the states the vectors to which they contribute most", f"{w}: getBasisvectorIndex(list of states): {why}")
            continue
        e = SysEval(prog, OPS + ("getStateIndex",), None)
        for o in rets(e, f, rep, "getBasisvectorIndex"):
            rep.count("searches")
            known(e, f, o[1])
            at = index(0)
            g = {frozenset({(app("==", app("nzrow", nz), at), True)}), frozenset({(app("==", at, app("nzrow", nz)), True)})}
            ok = any(largest(o[1], (each, nz), q, mag(nz), (("ix", each), app("nzcol", nz))) for q in g)
            rep.check(ok, "vector:value", "getBasisvectorIndex returns the vector to which the state contributes most", f"{w}: getBasisvectorIndex does not return the vector with the largest modulus at the position of the state")
    f = M["getConnections"][0]
    w = loc(f, f)
    e = SysEval(prog, OPS, None)
    for o in rets(e, f, rep, "getConnections"):
        rep.count("searches")
        built = {x[1] for x in log_of(o) if x[0] == "buildBasis"}
        rep.check(THIS in built and ("arg", 0) in built, "connect:built", "getConnections builds both systems", f"{w}: getConnections does not build both systems")
        v = o[1]
        if not is_app(v, "upd"): raise AnalysisError(f"{w}: getConnections returns {ms(v)}, which is not understood")
        rep.check(connections(v, rep, w), "connect:value", "getConnections returns the pairs of vectors that are each other's largest overlap above the threshold", f"{w}: getConnections does not return the pairs of vectors that are each other's largest overlap above the threshold")
    f = M["getStates"][0]
    w = loc(f, f)
    e = SysEval(prog, OPS, None)
    for o in rets(e, f, rep, "getStates"):
        b = ("each", 0, app("std::vector::size", STATES))
        want = ("list", frozenset({((b,), frozenset(), ("sym", ("this", SB + "states", ("idx", ("ix", b)), "enumerated_state::state")))}))
        rep.check(o[1] == want, "states:value", "getStates returns all states in order", f"{w}: getStates does not return every state in order")
    for nm, want in (("getNumStates", (rows(B), app("std::vector::size", STATES))), ("getNumBasisvectors", (cols(B), rows(Hm), cols(Hm)))):
        f = M[nm][0]
        e = SysEval(prog, OPS, None)
        for o in rets(e, f, rep, nm):
            rep.check(o[1] in want, f"{nm}:value", f"{nm} counts them", f"{loc(f, f)}: {nm} returns {ms(o[1])}")
    for nm, x in (("getHamiltonian", "hamiltonian"), ("getBasisvectors", "basisvectors"), ("getStatesMultiIndex", "states")):
        f = M[nm][0]
        e = SysEval(prog, OPS, None)
        for o in rets(e, f, rep, nm):
            l = o[1][1] if type(o[1]) is tuple and o[1][:1] in (("ref",), ("sym",), ("obj",)) else o[1]
            rep.check(l == ("this", SB + x), f"{nm}:value", f"{nm} hands out that of the system", f"{loc(f, f)}: {nm} hands out {ms(o[1])}")

def assigned(v):
    """to the given states, in their order, the vectors are assigned to which they contribute most"""
    n = app("std::vector::size", A(0))
    ns = (n, app("std::vector::size", app("getStateIndex", A(0))))
    if not (is_app(v, "vec") and v[2] in ns and len(v[4]) == 1): return f"it returns {ms(v)}"
    (kind, bs, gs, ix, pl), = v[4]
    if len(bs) != 1 or bs[0][:2] != ("each", 0) or bs[0][2] not in ns or not is_app(ix, "argmax") or len(ix[3]) != 1: return "the states are not searched for each vector that was found"
    if not (is_app(pl, "elem") and pl[3] == ("ix", bs[0]) and is_app(pl[2], "first") and is_app(pl[2][2], "best")): return "the vectors are not those to which the states contribute most"
    best = pl[2][2]
    if best[2] != app("iota", cols(B)) or best[3] not in ns or pl[2][3] not in ns: return "not as many of the vectors as there are states are picked"
    t = best[4]
    if not (type(t) is tuple and t[:1] == ("app",) and t[1] in (">", "<") and is_app(t[2], "elem") and is_app(t[3], "elem")): return "the comparison of the vectors is not understood"
    x, y = (t[2], t[3]) if t[1] == ">" else (t[3], t[2])
    if x[3] != ("ix", "a") or y[3] != ("ix", "b") or x[2] != y[2]: return "the vectors to which the states contribute least are picked"
    T = set(find_terms(x[2], lambda t: is_app(t, "tri")))
    if len(T) != 1: return "there is no single matrix of the states"
    T, = T
    ok = T[2] in (rows(B), app("std::vector::size", O("states")), app("std::vector::size", STATES)) and T[3] in ns and type(T[4]) is tuple and T[4][:1] == ("list",) and len(T[4]) == 2 and len(T[4][1]) == 1
    if ok:
        (b2, g2, p), = T[4][1]
        i = ("ix", b2[0]) if len(b2) == 1 else None
        ok = i is not None and b2[0][:2] == ("each", 0) and b2[0][2] in ns and not g2 and p == ("tuple", app("elem", app("getStateIndex", A(0)), i), i, 1)
    if not ok: return "the matrix of the states does not have one column for each of them"
    P = app("@", app("adj", T), B)
    def canon(m): return ("app", "abs2", nf(m[2])) if is_app(m, "abs2") else m
    def norms(m):
        d = nf(m, canon)
        return d, nf(app("tr", m), canon)
    if nf(app("@", app("tr", app("ones", n, 1)), app("abs2", P)), canon) not in norms(x[2]): return f"the vectors are compared by {ms(x[2])} instead of their total overlap with the states"
    (b3, g3, val, note), = ix[3]
    if len(b3) != 1 or b3[0][:1] != ("nz",) or note != app("nzrow", b3[0]) or val != app("nzvalue", b3[0]): return "the largest overlap of a vector is not searched"
    if b3[0][2] != pl or not is_app(b3[0][1], "abs2") and not is_app(b3[0][1], "abs") or nf(b3[0][1][2]) != nf(P): return "another overlap than that of the vector is searched"
    if len(g3) != 1 or not mentions_term(next(iter(g3)), "std::numeric_limits::max"): return "a state may be assigned twice"
    return None

def largest(t, binders, guard, mags, notes):
    """t is the note that belongs to the largest of the magnitudes"""
    if not is_app(t, "argmax") or len(t[3]) != 1: return False
    (bs, gs, x, y), = t[3]
    return bs == binders and conditions(gs) == conditions(guard) and x in mags and y in notes

def connections(v, rep, w):
    got = {}
    for kind, bs, gs, ix, pl in v[3]:
        if kind != "set" or ix not in (0, 1) or ix in got or not (type(pl) is tuple and pl[:1] == ("list",) and len(pl[1]) == 1): return False
        (b2, g2, x), = pl[1]
        if b2 or g2: return False
        got[ix] = (bs, gs, x)
    if set(got) != {0, 1} or got[0][:2] != got[1][:2]: return False
    bs, gs, _ = got[0]
    if len(bs) != 1 or bs[0][:2] != ("each", 0): return False
    ix = ("ix", bs[0])
    B1 = O("basisvectors")
    am = [t for t in find_terms(got[1][2], lambda t: is_app(t, "argmax"))][:1]
    if not am or not am[0][3]: return False
    (b2, g2, val, note), = am[0][3] if len(am[0][3]) == 1 else [(None,) * 4]
    if b2 is None or len(b2) != 1 or b2[0][:1] != ("nz",): return False
    X = b2[0][1]
    def overlap(X, flip):
        """B'·T·B1 (transposed) in absolute values"""
        X = X[2] if is_app(X, "tr") and flip else X
        if not is_app(X, "abs") : return None
        T = [t for t in find_terms(X, lambda t: is_app(t, "tri"))]
        if len(set(T)) != 1: return None
        why = state_map(T[0], False)
        rep.check(why is None, "connect:states", "getConnections identifies equal states of both systems", f"{w}: getConnections: the matrix that maps states is wrong: {why}")
        return X if same_mat(X[2], app("@", app("@", app("adj", B), T[0]), B1)) else None
    ov = overlap(X, True)
    if ov is None or not is_app(X, "tr"): return False
    # for each vector here the one there with the largest overlap
    if bs[0][2] != cols(B) or b2[0] != ("nz", X, ix) or g2 or val != app("nzvalue", b2[0]): return False
    thr = app("std::sqrt", A(1))
    far = lambda t: is_app(t, "argmax") and t[3] == frozenset({(b2, g2, val, app("nzrow", b2[0]))})
    near = lambda t: t == ix or is_app(t, "argmax") and t[3] in (frozenset({(b2, g2, val, ix)}), frozenset({(b2, g2, val, app("nzcol", b2[0]))}))
    if not near(got[0][2]) or not far(got[1][2]): return False
    above = mutual = False
    for t, z in gs:
        c = conditions({(t, z)})
        if len(c) != 1 or len(next(iter(c))) != 3: return False
        op, x, y = next(iter(c))
        if op == "<" and x == thr and is_app(y, "maxof") and y[2] == thr and y[3] == frozenset({(b2, g2, val)}): above = True
        elif op == "==":
            x, y = (x, y) if near(y) else (y, x)
            if not near(y) or not (is_app(x, "elem") and far(x[3])): return False
            L = x[2]
            if not (type(L) is tuple and L[:1] == ("list",) and len(L) == 2 and len(L[1]) == 1): return False
            (b3, g3, p3), = L[1]
            c3 = ("each", 0, cols(B1))
            n3 = ("nz", ov, ("ix", c3))
            mutual = b3 == (c3,) and not g3 and largest(p3, (n3,), frozenset(), (app("nzvalue", n3),), (app("nzrow", n3),))
            if not mutual: return False
        else: return False
    return above and mutual

def run(rep):
    prog = Program(all_tus())
    entries(rep, prog)
    overlaps(rep, prog)
    searches(rep, prog)
