"""Symbolic matrix algebra over the quantum systems. Each restricting, transforming or combining operation of a
system is evaluated to terms over the basis B, the Hamiltonian H, their copies without interaction and the list of
states (loops as one generic iteration, so for every size), and the terms are compared with what the operation
means: one and the same selection T of vectors gives B T and T'HT on system and copy and is passed to the interaction;
one and the same selection of states is applied to the list of states, B and its copy; the criteria are compared as
formulas. Helpers are decided on their own and recorded with their arguments where they are used."""
from core import *
from facts import *
from syseval import *
from fev import Frame, fr_this
import C17
from C17 import selection, conditions, weight
FLOORS = {"operations": 14, "selections": 5, "criteria": 6}
THIS = ("this",)
def ms(t): return C17.ms(t)[:160]
HELP = ("removeRestrictedStates", "applyRightsideTransformator", "applyLeftsideTransformator", "forgetRestrictions")

def log_of(o): return o[2].get(LOG, ())
def names(o): return [x[0] for x in log_of(o)]
def rets(e, f, rep, what):
    outs = call(e, f)
    r = [o for o in outs if o[0] == "ret"]
    if not r: raise AnalysisError(f"{loc(f, f)}: {what} could not be evaluated")
    rep.count("operations")
    return r
def get(e, o, x): return e.value_of(o[2], THIS + (SB + x,))
def known(e, f, *ts):
    for t in ts:
        if mentions_term(t, UNK): raise AnalysisError(f"{loc(f, f)}: {f['fn']}: what it does is not understood ({sorted(e.unknown_calls)[:4]})")
def unchanged(rep, e, o, w, label, key, *xs):
    for x in xs:
        rep.check(get(e, o, x) == S(x), f"{key}:{x}", f"{label}: {x} stays", f"{w}: {label} changes {x} to {ms(get(e, o, x))}")

def decided(o):
    r = {}
    for k, v in o[2].items():
        if k[0] == "D":
            t = k[1]
            while type(t) is tuple and t[:1] == ("not",): t, v = t[1], not v
            r[t] = v
    return r

# ---------------------------------------------------------------- helpers
def helpers(rep, prog):
    M = methods(prog, list(HELP[:3]))
    for cache in (True, False):
        for side, nm in (("left", "applyLeftsideTransformator"), ("right", "applyRightsideTransformator")):
            mats = [f for f in M[nm] if "vector" not in f["p"][0]["t"]]
            lists = [f for f in M[nm] if "vector" in f["p"][0]["t"]]
            if not mats: raise AnalysisError(f"{nm} for a matrix: no body found")
            for f in mats + lists:
                w = loc(f, f)
                e = SysEval(prog, BUILD + VIRTUAL, cache)
                e.nonempty = (B, Hm)
                for o in rets(e, f, rep, nm):
                    T = ("sym", ("arg", 0))
                    if f in lists:
                        n = app("std::vector::size", T)
                        T = app("tri", n, rows(B), T) if side == "left" else app("tri", cols(B), n, T)
                    key = f"{side}{'l' if f in lists else 'm'}{'' if cache else '0'}"
                    label = f"{nm} ({'list of elements' if f in lists else 'matrix'}{', with a copy' if cache else ', without a copy'})"
                    mul = (lambda m: app("@", T, m)) if side == "left" else (lambda m: app("@", m, T))
                    sand = lambda m: m if side == "left" else app("@", app("@", app("adj", T), m), T)
                    for x, m0, op in (("basisvectors", B, mul), ("basisvectors_unperturbed_cache", Bc, mul), ("hamiltonian", Hm, sand), ("hamiltonian_unperturbed_cache", Hc, sand)):
                        v = get(e, o, x)
                        known(e, f, v)
                        want = m0 if not cache and "cache" in x else op(m0)
                        rep.check(same_mat(v, want), f"{key}:{x}", f"{label}: {x} becomes {ms(want)}", f"{w}: {label}: {x} becomes {ms(v)} instead of {ms(want)}")
                    tr = [x[2] for x in log_of(o) if x[0] == "transformInteraction"]
                    want = [] if side == "left" else [T]
                    rep.check(len(tr) == len(want) and all(same_mat(a, b) for a, b in zip(tr, want)), f"{key}:interaction", f"{label}: the interaction is transformed {'with the same matrix' if want else 'not at all'}",
                              f"{w}: {label}: the interaction is {'transformed with ' + ms(tr[0]) if tr else 'not transformed'}")
    f = M["removeRestrictedStates"][0]
    w = loc(f, f)
    for cache in (True, False):
        e = SysEval(prog, BUILD + VIRTUAL, cache)
        for o in rets(e, f, rep, "removeRestrictedStates"):
            v, st = get(e, o, "basisvectors"), get(e, o, "states")
            known(e, f, v, st)
            T = v[2] if is_app(v, "@") else None
            ok = T is not None and same_mat(v, app("@", T, B))
            rep.check(ok, "remove:basis", "removeRestrictedStates selects rows of the basis", f"{w}: removeRestrictedStates: the basis becomes {ms(v)} instead of a selection of its rows")
            if not ok: continue
            c = get(e, o, "basisvectors_unperturbed_cache")
            rep.check(same_mat(c, app("@", T, Bc) if cache else Bc), f"remove:copy{cache}", f"removeRestrictedStates treats the copy {'alike' if cache else 'not'}", f"{w}: removeRestrictedStates: the copy of the basis becomes {ms(c)}")
            n0 = app("std::vector::size", STATES)
            # rows are numbered by the states' indices
            sel = states_selection(T, n0, rows(B))
            good = False
            if sel is not None and type(st) is tuple and st[:1] == ("list",) and len(st) == 2 and len(st[1]) == 1:
                (bs, gs, pl), = st[1]
                good = bs == sel[0] and gs == sel[1] and pl == ("tuple", sel[2], app_state(sel[0][0]))
                crit = {(subst(t, {("ix", bs[0]): "i"}), z) for t, z in gs} if len(bs) == 1 else set()
                rep.check(crit == {(app("call", ("sym", ("arg", 0)), app("elem", STATES, "i")), True)} or crit == {(app("call", ("sym", ("arg", 0)), ("sym", ("this", SB + "states", ("idx", "i")))), True)},
                          "remove:criterion", "removeRestrictedStates keeps exactly the states that pass", f"{w}: removeRestrictedStates keeps a state under the condition {[ms(t) for t, z in crit]} instead of exactly when it passes the check")
            rep.count("selections")
            rep.check(good, "remove:states", "removeRestrictedStates: the list of states and the rows of the basis are selected alike, numbered consecutively in order",
                      f"{w}: removeRestrictedStates does not select the states (with consecutive indices, in order) and the rows of the basis in the same way")
            unchanged(rep, e, o, w, "removeRestrictedStates", "remove", "hamiltonian", "hamiltonian_unperturbed_cache")

def app_state(b):
    return ("sym", ("this", SB + "states", ("idx", ("ix", b)), "enumerated_state::state"))

def states_selection(T, n, full):
    """(binders, guards, new index) of a matrix that picks the rows that belong to states"""
    if not is_app(T, "tri"): return None
    r, c, l = T[2:]
    if not (type(l) is tuple and l[:1] == ("list",) and len(l[1]) == 1): return None
    (bs, gs, pl), = l[1]
    if len(bs) != 1 or bs[0] != ("each", 0, n): return None
    run = ("run", frozenset({(bs, gs)}))
    if pl[1:] != (run, ("sym", ("this", SB + "states", ("idx", ("ix", bs[0])), "enumerated_state::idx")), 1): return None
    if r != ("count", frozenset({(bs, gs)})) or c != full: return None
    return bs, gs, run

# ---------------------------------------------------------------- restrictions
class Restrict(SysEval):
    pure_calls = SysEval.pure_calls + ("checkIsQuantumstateValid", "checkIsEnergyValid")
    def record(self, n, sh, ol, args, st, fr):
        b = THIS + (SB + "basisvectors",)
        out = []
        for v, s in super().record(n, sh, ol, args, st, fr):
            extra = ()
            if sh == "removeRestrictedStates":
                lam = self.val(args[0], s)
                if type(lam) is not tuple or lam[:1] != ("lam",): raise AnalysisError(f"{self.here(n, fr)}: the check passed to removeRestrictedStates is not understood")
                res = self.call_lambda(lam, [("l", ("E",))], s, fr.depth)
                extra = (frozenset((o[0], hashable(o[1]), frozenset((q[1], z) for q, z in o[2].items() if q[0] == "D" and q not in s)) for o in res), self.value_of(s, b))
                s = self.put(s, b, app("kept", self.value_of(s, b)))
            elif sh == "applyRightsideTransformator":
                a = hashable(self.val(args[0], s))
                B0 = self.value_of(s, b)
                if not (is_app(a, "tri") or is_app(a, "@")): a = app("tri", cols(B0), ("count", frozenset((x, g) for x, g, p in a[1])) if a[:1] == ("list",) and len(a) == 2 else app("std::vector::size", a), a)
                extra = (a, B0)
                s = self.put(s, b, app("@", B0, a))
            out.append((v, {**s, LOG: s[LOG][:-1] + ((sh,) + extra,)} if extra else s))
        return out

_d = mateval.dim
def dim2(m, d):
    if is_app(m, "kept"): return dim2(m[2], 1) if d == 1 else app("rows", m)
    return _d(m, d)
mateval.dim = dim2

DEFAULT = (-1.7976931348623157e308, 1.7976931348623157e308)
def restricted(d):
    """which restrictions are pending on a path: quantum numbers, energy, added states"""
    q = e = a = None
    seenq, seene = {}, {}
    for t, v in d.items():
        if type(t) is tuple and t[:1] == ("app",):
            if short(t[1]) == "empty":
                x = t[2]
            elif t[1] in ("==", "!=", ">") and len(t) == 4 and t[3] == 0 and type(t[2]) is tuple and short(t[2][1]) == "size":
                x = t[2][2]; v = v if t[1] == "==" else not v
            elif t[1] in ("==", "!=") and len(t) == 4:
                x, y = (t[2], t[3]) if type(t[2]) is tuple else (t[3], t[2])
                if y in DEFAULT and type(x) is tuple and x[:1] == ("sym",): seene[short(x[1][-1])] = v if t[1] == "==" else not v
                continue
            else: continue
            n = short(x[1][-1]) if type(x) is tuple and x[:1] == ("sym",) and type(x[1][-1]) is str else ""
            if n.startswith("range_"): seenq[n] = v
            if n == "states_to_add": a = not v
    if any(v is False for v in seenq.values()): q = True
    elif all(seenq.get(f"range_{x}") is True for x in "nljm"): q = False
    if any(v is False for v in seene.values()): e = True
    elif all(seene.get(x) is True for x in ("energy_min", "energy_max")): e = False
    return q, e, a

def update(rep, prog):
    f = methods(prog, ["updateEverything"])["updateEverything"][0]
    w = loc(f, f)
    e = Restrict(prog, BUILD + VIRTUAL + HELP, None)
    outs = call(e, f)
    rep.count("operations")
    kinds = set()
    for o in outs:
        q, en, add = restricted(decided(o))
        lg = names(o)
        if o[0] == "throw":
            rep.check(add is True, "update:refuse", "only states that are to be added are refused", f"{w}: updateEverything throws although no states are to be added")
            continue
        rep.check(add is False, "update:added", "states to add are refused once the basis exists", f"{w}: updateEverything silently drops states that are to be added after the basis was created")
        rep.check("forgetRestrictions" in lg, "update:forget", "restrictions are used up", f"{w}: updateEverything does not forget the restrictions after applying them")
        lg = [x for x in log_of(o) if x[0] != "forgetRestrictions"]
        i = 0
        def take(nm):
            nonlocal i
            while i < len(lg) and lg[i][0] == "onStatesChange" and nm != "onStatesChange": i += 1
            if i < len(lg) and lg[i][0] == nm:
                i += 1
                return lg[i - 1]
        if q is None and lg and lg[0][0] == "removeRestrictedStates" or q is None and en is not True:
            rep.bad("update:asks", f"{w}: updateEverything does not ask whether quantum numbers are restricted (decided: {sorted(k for k in ('q', 'e') if (q, en)['qe'.index(k)] is not None)})"); continue
        if q:
            kinds.add("q")
            x = take("removeRestrictedStates")
            ok = x is not None and x[1] == frozenset({("ret", app("checkIsQuantumstateValid", ("sym", ("E", "enumerated_state::state"))), frozenset())})
            rep.count("criteria")
            rep.check(ok, "update:numbers", "states whose quantum numbers are not allowed are removed first", f"{w}: updateEverything does not remove exactly the states with invalid quantum numbers when they are restricted")
        if q or en:
            kinds.add("v")
            x = take("applyRightsideTransformator")
            if x is None:
                rep.bad("update:vectors", f"{w}: updateEverything does not select vectors {'after states were removed' if q else 'when energies are restricted'}"); continue
            T, B0 = x[1], x[2]
            known(e, f, T)
            sel, why = selection(T)
            rep.count("selections"); rep.count("criteria")
            ok = sel is not None and sel[0] == "cols" and sel[1] == cols(B0) and sel[3] is None
            rep.check(ok, "update:select", "every vector is kept or removed as a whole, in order", f"{w}: updateEverything: the matrix that selects vectors does not keep or remove each vector: {why}")
            if ok:
                c = conditions(sel[2])
                ev = app("checkIsEnergyValid", app("std::real", app("elem", Hm, ("tuple", "i", "i"))))
                ev2 = app("checkIsEnergyValid", app("std::real", app("elem", app("diag", Hm), "i")))
                wt = [x for x in c if x not in ((True, ev), (True, ev2))]
                okE = len(c) - len(wt) == 1
                rep.check(okE, "update:energy", "vectors are kept only if the energy on the diagonal is valid", f"{w}: updateEverything does not keep vectors exactly if their energy (the diagonal element of the Hamiltonian) is valid: {C17.crit(c)[:200]}")
                okW = len(wt) == 1 and len(wt[0]) == 3 and wt[0][0] == "<" and wt[0][1] == S("threshold_for_sqnorm") and weight(wt[0][2], B0, "cols")
                rep.check(okW, "update:weight", "vectors are kept only if their weight on the remaining states exceeds the threshold", f"{w}: updateEverything does not keep vectors exactly if the sum of their squared elements on the remaining states exceeds the threshold: {C17.crit(c)[:200]}")
            x = take("removeRestrictedStates")
            ok = False
            if x is not None and len(x[1]) == 1:
                (kind, v, ds), = x[1]
                rep.count("criteria")
                c = conditions({(subst(v, {("sym", ("E", "enumerated_state::idx")): "i"}), True)})
                if kind == "ret" and not ds and len(c) == 1 and len(next(iter(c))) == 3:
                    op, a, b = next(iter(c))
                    if is_app(b, "elem") and is_app(b[2], "vec"): b = app("elem", b[2], b[3])
                    ok = op == "<" and a == S("threshold_for_sqnorm") and weight(b, x[2], "rows")
            rep.check(ok, "update:states", "states that barely occur in the remaining vectors are removed", f"{w}: updateEverything does not keep exactly the states whose squared elements in the remaining vectors sum up to more than the threshold")
            rep.check(any(y[0] == "onStatesChange" for y in lg[i:]), "update:notify", "a change of the states is communicated", f"{w}: updateEverything does not communicate that the list of states has changed")
        while i < len(lg) and lg[i][0] == "onStatesChange": i += 1
        rep.check(i == len(lg) and (q or en or not lg), "update:more", "nothing else happens", f"{w}: updateEverything does more than asked: {', '.join(x[0] for x in lg[i:]) or 'it acts although nothing is restricted'}")
    rep.check({"q", "v"} <= kinds, "update:cases", "both kinds of restrictions occur", f"{w}: updateEverything does not apply {'restrictions of quantum numbers' if 'q' not in kinds else 'energies'}")

# ---------------------------------------------------------------- what is valid
def valid(rep, prog):
    fs = methods(prog, ["checkIsQuantumstateValid"])["checkIsQuantumstateValid"] + methods(prog, ["checkIsQuantumstateValid"], which=("complex", "StateTwo"))["checkIsQuantumstateValid"]
    seen = set()
    for f in fs:
        w = loc(f, f)
        two = "StateTwo" in f["p"][0]["t"]
        if (two, len(f["p"]), f["u"]) in seen: continue
        seen.add((two, len(f["p"]), f["u"]))
        e = SysEval(prog)
        outs = [o for o in call(e, f)]
        rep.count("operations"); rep.count("criteria")
        label = f"checkIsQuantumstateValid({'two atoms' if two else 'one atom'}{', given which are artificial' if len(f['p']) == 2 else ''})"
        idx = (0, 1) if two else (None,)
        st = ("sym", ("arg", 0))
        def art(i):
            if len(f["p"]) == 2:
                return [("sym", ("arg", 1))] if i is None else [("sym", ("arg", 1, ("idx", i))), app("elem", ("sym", ("arg", 1)), i)]
            a = app("isArtificial", st)
            return [a] if i is None else [app("elem", a, i)]
        def atom(t):
            """(kind, atom, value when the term is true)"""
            for i in idx:
                if t in art(i): return ("art", i), True
                for x in "nljm":
                    r = S("range_" + x)
                    qn = app("get" + x.upper(), st) if i is None else app("get" + x.upper(), st, i)
                    if type(t) is tuple and t[:1] == ("app",) and short(t[1]) == "empty" and t[2] == r: return ("empty", x), True
                    if type(t) is tuple and t[:1] == ("has",) and t[2] == qn and rng(e, o, t[1]) == "range_" + x: return ("in", x, i), True
                    if type(t) is tuple and t[:1] == ("app",) and short(t[1]) in ("count", "contains") and t[2] == r and t[3] == qn: return ("in", x, i), True
            return None
        bad = None
        for o in outs:
            if o[0] != "ret": bad = "it throws"; break
            asg = {}
            for t, v in decided(o).items():
                a = atom(t)
                if a is None: raise AnalysisError(f"{w}: {label}: the condition {ms(t)} is not understood")
                asg[a[0]] = v
            val = o[1]
            opts = [(asg, val)]
            if type(val) is not bool and type(val) is not int:
                neg = type(val) is tuple and val[:1] == ("not",)
                a = atom(val[1] if neg else val)
                if a is None: raise AnalysisError(f"{w}: {label} returns {ms(val)}, which is not understood")
                opts = [({**asg, a[0]: z}, z != neg) for z in (True, False)]
            for g, v in opts:
                must = want(g, idx)
                if must is None or must != bool(v):
                    bad = f"it returns {bool(v)} when {'; '.join(' '.join(map(str, k)) + ' = ' + str(z) for k, z in sorted(g.items(), key=str))}"
        rep.check(bad is None, f"valid:{'two' if two else 'one'}{len(f['p'])}", f"{label}: artificial, or every restricted quantum number is in its range",
                  f"{w}: {label} does not tell whether every restricted quantum number of every atom that is not artificial is in its range: {bad}")
    f = methods(prog, ["checkIsEnergyValid"])["checkIsEnergyValid"][0]
    w = loc(f, f)
    e = SysEval(prog)
    rep.count("operations"); rep.count("criteria")
    en = ("sym", ("arg", 0))
    bad = None
    for o in call(e, f):
        g = {}
        def note(t, v):
            if type(t) is tuple and t[:1] == ("app",) and len(t) == 4:
                op, x, y = t[1], t[2], t[3]
                if y == en: op, x, y = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), y, x
                if type(x) is float or type(x) is int: x, y = y, x
                if x == en and y == S("energy_min") and op in (">", "<="): g["lo"] = v == (op == ">"); return True
                if x == en and y == S("energy_max") and op in ("<", ">="): g["hi"] = v == (op == "<"); return True
                if x == S("energy_min") and y == DEFAULT[0] and op in ("==", "!="): g["nolo"] = v == (op == "=="); return True
                if x == S("energy_max") and y == DEFAULT[1] and op in ("==", "!="): g["nohi"] = v == (op == "=="); return True
            return False
        for t, v in decided(o).items():
            if not note(t, v): raise AnalysisError(f"{w}: checkIsEnergyValid: the condition {ms(t)} is not understood")
        vals = [o[1]]
        if type(o[1]) not in (bool, int):
            t = o[1]; z = True
            while type(t) is tuple and t[:1] == ("not",): t, z = t[1], not z
            vals = []
            for v in (True, False):
                g0 = dict(g)
                if not note(t, v): raise AnalysisError(f"{w}: checkIsEnergyValid returns {ms(o[1])}, which is not understood")
                vals.append((dict(g), v == z)); g.clear(); g.update(g0)
        else: vals = [(g, bool(o[1]))]
        for g1, v in vals:
            lo = True if g1.get("lo") or g1.get("nolo") else False if g1.get("lo") is False and g1.get("nolo") is False else None
            hi = True if g1.get("hi") or g1.get("nohi") else False if g1.get("hi") is False and g1.get("nohi") is False else None
            must = False if lo is False or hi is False else True if lo and hi else None
            if must != v: bad = f"it returns {v} when {g1}"
    rep.check(bad is None, "valid:energy", "an energy is valid if it lies between the bounds, where they are set", f"{w}: checkIsEnergyValid does not tell whether an energy lies within the bounds that are set: {bad}")

def rng(e, o, l):
    """the range a location stands for"""
    if l[0] == "this": return short(l[-1])
    v = e.value_of(o[2], l)
    if type(v) is tuple and v[:1] == ("sym",) and v[1][0] == "this": return short(v[1][-1])
    return ""

def want(g, idx):
    r = True
    for i in idx:
        a = g.get(("art", i))
        if a is True: continue
        allv = True
        for x in "nljm":
            em, inn = g.get(("empty", x)), g.get(("in", x, i))
            v = True if em is True or inn is True else False if em is False and inn is False else None
            if v is False: allv = False; break
            if v is None: allv = None
        if allv is True: continue
        if allv is False and a is False: return False
        r = None
    return r

# ---------------------------------------------------------------- transformations
ALL = ("basisvectors", "basisvectors_unperturbed_cache", "hamiltonian", "hamiltonian_unperturbed_cache")
OPS = BUILD + VIRTUAL + HELP + ("updateEverything",)
def becomes(rep, e, f, o, key, label, **want):
    """what the four matrices are afterwards; those not named stay"""
    w = loc(f, f)
    for x in ALL:
        v = get(e, o, x)
        known(e, f, v)
        t = want.get(x, S(x))
        if type(t) is not list: t = [t]
        rep.check(any(same_mat(v, y) for y in t), f"{key}:{x}", f"{label}: {x} {'becomes ' + ms(t[0]) if x in want else 'stays'}", f"{w}: {label}: {x} becomes {ms(v)} instead of {ms(t[0])}")
def first(rep, f, o, key, label, nm):
    lg = names(o)
    rep.check(lg[:1] == [nm], f"{key}:built", f"{label}: the system is built before", f"{loc(f, f)}: {label} does not build the system first (it calls {lg[:2]})")

def identity_of(t, n):
    """a matrix whose diagonal is filled with ones"""
    if is_app(t, "identity"): return t[2] == n and t[3] == n
    if is_app(t, "upd") and (is_app(t[2], "zero")) and t[2][2:] == (n, n) and len(t[3]) == 1:
        (kind, bs, g, ix, d), = t[3]
        return len(bs) == 1 and bs[0] == ("each", 0, n) and not g and ix == ("tuple", ("ix", bs[0]), ("ix", bs[0])) and d == 1
    return False
def diagonal_of(t, v):
    """a matrix with the given vector on its diagonal"""
    if is_app(t, "asdiag"): return t[2] == v
    if is_app(t, "upd") and is_app(t[2], "zero") and len(t[3]) == 1:
        (kind, bs, g, ix, d), = t[3]
        return len(bs) == 1 and bs[0][:2] == ("each", 0) and same_dim(bs[0][2], v) and not g and ix == ("tuple", ("ix", bs[0]), ("ix", bs[0])) and d == app("elem", v, ("ix", bs[0]))
    return False
def same_dim(n, v): return n in (rows(v), cols(v[2]), rows(v[2]))

def picks(T, L):
    """whether T takes the vectors named by the list L in its order; indices out of range never get there"""
    n = app("std::vector::size", L)
    if not is_app(T, "tri"): return False, ms(T)
    r, c, l = T[2:]
    if r != cols(B) or not (type(l) is tuple and l[:1] == ("list",) and len(l[1]) == 1): return False, "its elements are not one per name"
    (bs, gs, pl), = l[1]
    if len(bs) != 1 or bs[0] != ("each", 0, n): return False, "not every name is looked at"
    ix = ("ix", bs[0])
    at = app("elem", L, ix)
    if conditions(gs) - {("<", at, cols(B))}: return False, "some names are left out"
    if c not in (n, ("count", frozenset({(bs, gs)}))): return False, f"it has {ms(c)} columns"
    if pl != ("tuple", at, ("run", frozenset({(bs, gs)})), 1) and pl != ("tuple", at, ix, 1): return False, "rows and columns of its elements do not pick one after the other"
    return True, ""

def full(prog, cache):
    """a system that is not empty, its helpers followed"""
    e = SysEval(prog, tuple(x for x in OPS if x not in ("applyLeftsideTransformator", "applyRightsideTransformator")), cache)
    e.nonempty = (B, Hm)
    return e

def transformations(rep, prog):
    M = methods(prog, ["canonicalize", "unitarize", "rotate", "constrainBasisvectors", "diagonalize"])
    for cache in (True, False):
        c = "" if cache else "0"
        lb = ", with a copy" if cache else ", without a copy"
        f = M["canonicalize"][0]
        e = full(prog, cache)
        for o in rets(e, f, rep, "canonicalize"):
            first(rep, f, o, f"canonical{c}", "canonicalize", "buildHamiltonian")
            becomes(rep, e, f, o, f"canonical{c}", "canonicalize" + lb, hamiltonian=app("@", app("@", B, Hm), app("adj", B)), basisvectors=app("@", B, app("adj", B)))
            unchanged(rep, e, o, loc(f, f), "canonicalize", f"canonical{c}", "states")
        f = M["unitarize"][0]
        w = loc(f, f)
        e = full(prog, cache)
        good = rets(e, f, rep, "unitarize")
        n = [("count", frozenset({((("each", 0, cols(B)),), frozenset())})), cols(B)]
        for o in good:
            first(rep, f, o, f"unitary{c}", "unitarize", "buildHamiltonian")
            v, st = get(e, o, "basisvectors"), get(e, o, "states")
            known(e, f, v)
            rep.check(any(identity_of(v, x) for x in n), f"unitary{c}:basis", "unitarize: every vector becomes a coordinate of its own", f"{w}: unitarize: the basis becomes {ms(v)} instead of the identity")
            rep.check(same_mat(get(e, o, "hamiltonian"), Hm), f"unitary{c}:hamiltonian", "unitarize: the Hamiltonian stays", f"{w}: unitarize: the Hamiltonian becomes {ms(get(e, o, 'hamiltonian'))}")
            for x in ALL:
                if "cache" in x and cache:
                    z = get(e, o, x)
                    rep.check(is_app(z, "zero") and z[2:] == (0, 0), f"unitary:{x}", f"unitarize: {x} is discarded", f"{w}: unitarize leaves {x} behind, which refers to the states before")
            ok = False
            if type(st) is tuple and st[:1] == ("list",) and len(st) == 2 and len(st[1]) == 1:
                (bs, gs, pl), = st[1]
                ok = len(bs) == 1 and bs[0] == ("each", 0, cols(B)) and not gs and pl[:2] in (("tuple", ("run", frozenset({(bs, gs)}))), ("tuple", ("ix", bs[0])))
            rep.check(ok, f"unitary{c}:states", "unitarize: one state per vector, numbered consecutively", f"{w}: unitarize does not create one state for each vector, numbered from zero")
        coll = [o for o in call(e, f) if o[0] == "throw"]
        ok = any(any(type(t) is tuple and t[:1] == ("app",) and t[1] in ("!=", "==", "<", ">") and cols(B) in t[2:4] for t in decided(o)) for o in coll)
        rep.check(ok, f"unitary{c}:collision", "unitarize: vectors that get the same label are refused", f"{w}: unitarize does not refuse vectors whose labels collide")
        for f in M["rotate"]:
            w = loc(f, f)
            e = full(prog, cache)
            axes = len(f["p"]) == 2
            key, label = f"rotate{'axes' if axes else 'angles'}{c}", f"rotate ({'axes' if axes else 'angles'}{lb})"
            for o in rets(e, f, rep, "rotate"):
                first(rep, f, o, key, label, "buildHamiltonian")
                rt = [x for x in log_of(o) if x[0] == "buildStaterotator"]
                if len(rt) != 1:
                    rep.bad(f"{key}:rotator", f"{w}: {label} asks {len(rt)} times for the matrix that rotates the states"); continue
                a = rt[0][2:]
                if not axes:
                    rep.check(a == tuple(("sym", ("arg", i)) for i in range(3)), f"{key}:rotator", f"{label}: all three angles are passed on in order", f"{w}: {label}: the states are rotated by {[ms(x) for x in a]} instead of alpha, beta, gamma")
                else:
                    y, z = (app("Eigen::MatrixBase::normalized", ("sym", ("arg", i))) for i in (1, 0))
                    ax = app("parts", app("Eigen::MatrixBase::cross", y, z), y, z)
                    ok = all(is_app(x, "elem") and x[3] == i and x[2][2:3] == (ax,) and is_app(x[2], "Eigen::MatrixBase::eulerAngles") and x[2][3:] == (2, 1, 2) for i, x in enumerate(a)) and len({x[2] for x in a}) == 1
                    rep.check(ok, f"{key}:rotator", f"{label}: the Euler angles (z, y, z) are passed on in order", f"{w}: {label}: the states are rotated by {[ms(x) for x in a]} instead of the Euler angles z, y, z of the axes")
                R = app("buildStaterotator", *a)
                becomes(rep, e, f, o, key, label, basisvectors=app("@", R, B), **({"basisvectors_unperturbed_cache": app("@", R, Bc)} if cache else {}))
                tr = [x[2] for x in log_of(o) if x[0] == "transformInteraction"]
                rep.check(len(tr) == 2 and same_mat(tr[0], app("adj", B)) and same_mat(tr[1], app("@", R, B)), f"{key}:interaction", f"{label}: the interaction is expressed in the states, then in the rotated vectors",
                          f"{w}: {label}: the interaction is transformed with {[ms(x) for x in tr]} instead of B† and then the rotated basis")
                unchanged(rep, e, o, w, label, key, "states")
        f = M["constrainBasisvectors"][0]
        w = loc(f, f)
        e = Restrict(prog, OPS, cache)
        outs = call(e, f)
        rep.count("operations")
        L = ("sym", ("arg", 0))
        dup = rg = False
        for o in outs:
            d = conditions({(t, v) for t, v in decided(o).items()})
            if o[0] == "throw":
                dup = dup or any(len(x) == 3 and x[0] in ("<", "!=") and app("std::vector::size", L) in x[1:] for x in d)
                rg = rg or any(len(x) == 3 and x[0] == "<=" and x[1] == cols(B) and is_app(x[2], "elem") and x[2][2] == L for x in d)
                continue
            key = "constrain" + c
            first(rep, f, o, key, "constrainBasisvectors", "buildHamiltonian")
            ap = [x for x in log_of(o) if x[0] == "applyRightsideTransformator"]
            ok, why = picks(ap[0][1], L) if len(ap) == 1 else (False, f"it selects {len(ap)} times")
            rep.count("selections")
            rep.check(ok, f"{key}:select", "constrainBasisvectors picks the named vectors in the order given", f"{w}: constrainBasisvectors does not pick exactly the named vectors: {why}")
        rep.check(dup, f"constrain{c}:twice", "constrainBasisvectors refuses indices that occur twice", f"{w}: constrainBasisvectors accepts an index twice")
        rep.check(rg, f"constrain{c}:range", "constrainBasisvectors refuses indices out of range", f"{w}: constrainBasisvectors does not refuse every index that is not smaller than the number of vectors")
        for f in M["diagonalize"]:
            if len(f["p"]) > 1: continue
            w = loc(f, f)
            e = SysEval(prog, OPS + ("checkIsDiagonal",), cache)
            thr = ("sym", ("arg", 0)) if f["p"] else 0
            key, label = f"diagonalize{len(f['p'])}{c}", f"diagonalize ({'with' if f['p'] else 'without'} a threshold{lb})"
            did = 0
            for o in rets(e, f, rep, "diagonalize"):
                first(rep, f, o, key, label, "buildHamiltonian")
                d = decided(o)
                asked = [x for x in log_of(o) if x[0] == "checkIsDiagonal"]
                isd = d.get(app("checkIsDiagonal", Hm))
                if isd:
                    becomes(rep, e, f, o, key + "same", label + ", already diagonal")
                    continue
                did += 1
                X = app("@", B, app("evecs", Hm))
                v, h = get(e, o, "basisvectors"), get(e, o, "hamiltonian")
                known(e, f, v, h)
                small = any(d.get(app("==", thr, z)) is True for z in (0, 0.0)) or thr in (0, 0.0) and type(thr) is not tuple
                ok = same_mat(v, X) or not small and is_app(v, "pruned") and same_mat(v[2], X) and v[3] == thr and v[4:] in ((1,), (1.0,))
                rep.check(ok and (small or is_app(v, "pruned")), f"{key}:basis", f"{label}: the basis becomes the eigenvectors of the Hamiltonian, without elements below the threshold", f"{w}: {label}: the basis becomes {ms(v)} instead of B·eigenvectors")
                rep.check(diagonal_of(h, app("evals", Hm)), f"{key}:hamiltonian", f"{label}: the Hamiltonian becomes the diagonal matrix of its eigenvalues", f"{w}: {label}: the Hamiltonian becomes {ms(h)} instead of its eigenvalues on the diagonal")
                for x in ("basisvectors_unperturbed_cache", "hamiltonian_unperturbed_cache", "states"):
                    unchanged(rep, e, o, w, label, key, x)
            rep.check(did > 0, f"{key}:does", f"{label} diagonalises", f"{w}: {label} never diagonalises")

# ---------------------------------------------------------------- systems together
def O(x): return ("sym", ("arg", 0, SB + x))
def other(b, *m): return ("sym", ("arg", 0, SB + "states", ("idx", ("ix", b))) + tuple("enumerated_state::" + x for x in m))
def found(b): return ("sym", ("this", SB + "states", ("pair", other(b, "state")), "enumerated_state::idx"))
def find_terms(t, p, seen=None):
    seen = set() if seen is None else seen
    if type(t) not in (tuple, frozenset) or id(t) in seen: return []
    seen.add(id(t))
    r = [t] if type(t) is tuple and p(t) else []
    for x in t: r += find_terms(x, p, seen)
    return r
def state_map(T, grow):
    """whether T maps the states of the other system to the same states here; grow: those that are missing are appended"""
    if not is_app(T, "tri"): return ms(T)
    r, c, l = T[2:]
    n1 = app("std::vector::size", O("states"))
    n0 = app("std::vector::size", STATES)
    if not (type(l) is tuple and l[:1] == ("list",)): return "its elements are not known"
    each = ("each", 0, n1)
    has = ("has", STATES[1], other(each, "state"))
    new = frozenset({((each,), frozenset({(has, False)}))})
    if c not in (n1, rows(O("basisvectors"))): return f"it has {ms(c)} columns"
    if grow and r not in (app("+", n0, ("count", new)),): return f"it has {ms(r)} rows instead of one for each state"
    if not grow and r not in (n0, rows(B)): return f"it has {ms(r)} rows instead of one for each state"
    want = {((each,), frozenset({(has, True)}), ("tuple", found(each), other(each, "idx"), 1))}
    if grow: want.add(((each,), frozenset({(has, False)}), ("tuple", app("+", n0, ("run", new)), other(each, "idx"), 1)))
    alt = want if grow else {((each,), frozenset(), ("tuple", found(each), other(each, "idx"), 1))}
    if set(l[1]) not in (want, alt): return "a state of the other system is not assigned to the same state here"
    return None

def systems(rep, prog):
    M = methods(prog, ["add", "applySchriefferWolffTransformation"])
    f = M["add"][0]
    w = loc(f, f)
    flags = ("memory_saving", "is_interaction_already_contained", "is_new_hamiltonian_required")
    for cache in (True, False):
        c = "" if cache else "0"
        e = SysEval(prog, OPS, cache)
        outs = call(e, f)
        rep.count("operations")
        good = [o for o in outs if o[0] == "ret"]
        if not good: raise AnalysisError(f"{w}: add could not be evaluated")
        refused = set()
        B1, H1, Bc1, Hc1 = O("basisvectors"), O("hamiltonian"), O("basisvectors_unperturbed_cache"), O("hamiltonian_unperturbed_cache")
        for o in outs:
            if o[0] != "throw": continue
            d = conditions({(t, v) for t, v in decided(o).items()})
            for x in flags:
                if any(len(q) == 3 and q[0] == "!=" and {q[1], q[2]} == {S(x), O(x)} for q in d): refused.add(x)
            for q in d:
                if len(q) != 3: continue
                if mentions_term(q, Bc1): refused.add("copy of the basis")
                if mentions_term(q, Hc1): refused.add("copy of the Hamiltonian")
                nz = [x for x in q[1:] if is_app(x, "nonZeros")]
                if nz:
                    m = nz[0][2]
                    tol = 0
                    if is_app(m, "pruned"): tol = m[3] * (m[4] if len(m) > 4 else 1) if type(m[3]) in (int, float) else None; m = m[2]
                    if rows(m) == cols(B) and cols(m) == cols(B1) and mentions_term(m, B) and mentions_term(m, B1) and find_terms(m, lambda t: is_app(t, "adj")) and tol is not None and tol <= 1e-6: refused.add("orthogonal")
        for x in flags: rep.check(x in refused, f"add{c}:{x}", f"add refuses systems whose {x} differs", f"{w}: add combines systems whose {x} differs")
        rep.check("orthogonal" in refused, f"add{c}:orthogonal", "add refuses vectors that are not orthogonal", f"{w}: add does not refuse systems whose vectors are not orthogonal to each other")
        for o in good:
            lg = names(o)
            built = {x[1] for x in log_of(o) if x[0] == "buildBasis"}
            rep.check(lg[:2] == ["buildBasis"] * 2 and THIS in built and ("arg", 0) in built, f"add{c}:built", "add builds both systems first", f"{w}: add does not build both systems first (it calls {lg[:3]})")
            inc = [x for x in log_of(o) if x[0] == "incorporate"]
            rep.check(len(inc) == 1 and inc[0][2] == ("sym", ("arg", 0)), f"add{c}:incorporate", "add compares the settings of both systems", f"{w}: add does not compare the settings of the two systems")
            v = get(e, o, "basisvectors")
            known(e, f, v, get(e, o, "states"), get(e, o, "hamiltonian"))
            T = next((t for t in find_terms(v, lambda t: is_app(t, "tri"))), None)
            why = state_map(T, True) if T is not None else "there is no matrix that maps states"
            rep.count("selections")
            rep.check(why is None, f"add{c}:states", "add maps each state of the other system to the same state here, new ones after the old", f"{w}: add: the matrix that maps states of the other system is wrong: {why}")
            st = get(e, o, "states")
            each = ("each", 0, app("std::vector::size", O("states")))
            new = (((each,), frozenset({(("has", STATES[1], other(each, "state")), False)})))
            ok = type(st) is tuple and st[:1] == ("list",) and len(st) == 3 and st[2] == STATES and set(st[1]) == {new + (("tuple", app("+", app("std::vector::size", STATES), ("run", frozenset({new}))), other(each, "state")),)}
            rep.check(ok, f"add{c}:list", "add appends the states that are new, numbered consecutively", f"{w}: add does not append exactly the states that are missing, numbered consecutively")
            if T is None: continue
            n = T[2]
            def joined(m, k, bot): return app("setRight", app("pad", m, n if bot is None else app("+", rows(m), rows(bot)), app("+", cols(m), cols(k))), cols(k), None)
            def check(x, m0, m1, n0, left):
                v = get(e, o, x)
                p = v[2] if is_app(v, "setRight") else None
                ok = p is not None and is_app(p, "pad") and p[2] == m0 and v[3] == cols(m1) and set(p[4][2:4]) == {cols(m0), cols(m1)} and is_app(p[4], "+") and (p[3] == n0 or is_app(n0, "+") and is_app(p[3], "+") and set(p[3][2:4]) == set(n0[2:4]))
                ok = ok and (same_mat(v[4], app("@", left, m1)) if left is not None else shifted(v[4], m0, m1))
                rep.check(ok, f"add{c}:{x}", f"add: {x} holds both parts side by side", f"{w}: add: {x} becomes {ms(v)} instead of the old part followed by that of the other system")
            check("basisvectors", B, B1, n, T)
            check("hamiltonian", Hm, H1, app("+", rows(Hm), rows(H1)), None)
            if cache:
                check("basisvectors_unperturbed_cache", Bc, Bc1, n, T)
                check("hamiltonian_unperturbed_cache", Hc, Hc1, app("+", rows(Hc), rows(Hc1)), None)
            else: unchanged(rep, e, o, w, "add, without copies,", f"add{c}", "basisvectors_unperturbed_cache", "hamiltonian_unperturbed_cache")
        for x in ("copy of the basis", "copy of the Hamiltonian"):
            rep.check(x in refused, f"add{c}:{x}", f"add refuses systems of which only one has a {x}", f"{w}: add combines systems of which only one has a {x}")
    f = M["applySchriefferWolffTransformation"][0]
    w = loc(f, f)
    e = Restrict(prog, OPS + ("diagonalize", "checkIsUnitary", "checkIsDiagonal"), None)
    outs = call(e, f)
    rep.count("operations")
    asks = {app("checkIsUnitary", B): "the system is not unitary", app("checkIsUnitary", O("basisvectors")): "the unperturbed system is not unitary", app("checkIsDiagonal", O("hamiltonian")): "the unperturbed system is not diagonal"}
    refused = set()
    good = [o for o in outs if o[0] == "ret"]
    if not good: raise AnalysisError(f"{w}: applySchriefferWolffTransformation could not be evaluated")
    for o in outs:
        d = decided(o)
        if o[0] == "throw":
            refused |= {v for t, v in asks.items() if d.get(t) is False}
            if any(t[:2] == ("has", STATES[1]) and v is False for t, v in d.items()): refused.add("a state is missing")
        else:
            for t, v in asks.items(): rep.check(d.get(t) is True, f"sw:{v}", f"the transformation is refused if {v}", f"{w}: applySchriefferWolffTransformation goes on even if {v}")
    rep.check("a state is missing" in refused, "sw:missing", "the transformation is refused if a state is missing", f"{w}: applySchriefferWolffTransformation goes on even if a state of the unperturbed system does not occur")
    for o in good:
        lg = log_of(o)
        rep.check([x[0] for x in lg[:2]] in (["diagonalize", "buildHamiltonian"], ["buildHamiltonian", "diagonalize"]) and any(x[0] == "buildHamiltonian" and x[1] == ("arg", 0) for x in lg) and any(x[0] == "diagonalize" and x[1] in (THIS, None) for x in lg),
                  "sw:built", "the system is diagonalised, the unperturbed one is built", f"{w}: applySchriefferWolffTransformation does not diagonalise the system and build the unperturbed one first")
        ap = [x for x in lg if x[0] == "applyRightsideTransformator"]
        if len(ap) != 1:
            rep.bad("sw:apply", f"{w}: applySchriefferWolffTransformation transforms the system {len(ap)} times"); continue
        A = ap[0][1]
        known(e, f, A)
        tri = find_terms(A, lambda t: is_app(t, "tri"))
        T = [t for t in tri if not mentions_term(t, "best")]
        T2 = [t for t in tri if mentions_term(t, "best")]
        rep.count("selections", 2)
        why = state_map(T[0], False) if len(set(T)) == 1 else "there is no single matrix that maps states"
        rep.check(why is None, "sw:states", "the states of the unperturbed system are mapped to the same states here", f"{w}: applySchriefferWolffTransformation: the matrix that maps states is wrong: {why}")
        if why: continue
        L0 = app("@", T[0], O("basisvectors"))
        why = closest(T2[0], L0) if len(set(T2)) == 1 else "there is no single matrix that picks vectors"
        rep.check(why is None, "sw:closest", "the vectors with the largest overlap with the unperturbed ones are picked", f"{w}: applySchriefferWolffTransformation does not pick the vectors that overlap most with the unperturbed system: {why}")
        if why: continue
        L = app("@", B, T2[0])
        P0, P = (app("@", x, app("adj", x)) for x in (L0, L))
        I = ("app", "identity", 0, 0)
        X = app("@", app("-", I, app("*", 2, P0)), app("-", I, app("*", 2, P)))
        root = [t for t in find_terms(A, lambda t: is_app(t, "sqrtm"))]
        ok = len(set(root)) == 1 and nf1(root[0][2]) == nf1(X)
        rep.check(ok, "sw:rotator", "the direct rotation is the square root of the product of the two reflections", f"{w}: applySchriefferWolffTransformation: the rotation is not the square root of (1-2P0)(1-2P)")
        if not ok: continue
        ok = any(nf1(A) == nf1(app("@", app("adj", B), app("@", app("adj", root[0]), y))) for y in (app("@", P0, L0), L0))
        rep.check(ok, "sw:transform", "the system is transformed to the rotated unperturbed vectors", f"{w}: applySchriefferWolffTransformation transforms the system with {ms(A)} instead of B†·R†·P0·(unperturbed vectors)")

def shifted(v, m0, m1):
    """the other part, moved below the first"""
    if not (is_app(v, "@") and v[3] == m1 and is_app(v[2], "tri")): return False
    r, c, l = v[2][2:]
    if not (type(l) is tuple and l[:1] == ("list",) and len(l[1]) == 1): return False
    (bs, gs, pl), = l[1]
    # the copy has as many vectors as the system
    n0, n1 = ({d(("sym", m[1][:-1] + (x,))) for d in (rows, cols) for x in (SB + "hamiltonian", SB + "hamiltonian_unperturbed_cache")} for m in (m0, m1))
    return len(bs) == 1 and bs[0][:2] == ("each", 0) and bs[0][2] in n1 and not gs and c in n1 and is_app(r, "+") and (r[2] in n0 and r[3] in n1 or r[3] in n0 and r[2] in n1) \
        and pl[0] == "tuple" and pl[2:] == (("ix", bs[0]), 1) and is_app(pl[1], "+") and (pl[1][2] in n0 and pl[1][3] == ("ix", bs[0]) or pl[1][3] in n0 and pl[1][2] == ("ix", bs[0]))

def closest(T, L0):
    r, c, l = T[2:]
    k = cols(L0)
    if r != cols(B) or c != k or not (type(l) is tuple and l[:1] == ("list",) and len(l[1]) == 1): return "its size is wrong"
    (bs, gs, pl), = l[1]
    if len(bs) != 1 or bs[0] != ("each", 0, k) or gs: return "not one vector for each unperturbed one"
    ix = ("ix", bs[0])
    if pl[0] != "tuple" or pl[2] not in (ix, ("run", frozenset({(bs, gs)}))) or pl[3] != 1 or not (is_app(pl[1], "elem") and pl[1][3] == ix and is_app(pl[1][2], "best")): return "its elements do not pick the vectors that were found"
    b = pl[1][2]
    if b[2] != app("iota", cols(B)) or b[3] != k: return "not all vectors are compared"
    t = b[4]
    if not (type(t) is tuple and t[:1] == ("app",) and t[1] in (">", "<") and is_app(t[2], "elem") and is_app(t[3], "elem")): return "the comparison is not understood"
    x, y = (t[2], t[3]) if t[1] == ">" else (t[3], t[2])
    if x[3] != ("ix", "a") or y[3] != ("ix", "b") or x[2] != y[2]: return "the smallest are picked"
    want = app("@", app("abs2", app("@", app("adj", B), L0)), app("ones", k, 1))
    def canon(m): return ("app", "abs2", nf1(m[2])) if is_app(m, "abs2") else m
    if nf1(x[2], canon) != nf1(want, canon): return f"they are compared by {ms(x[2])} instead of their total overlap"
    return None

def nf1(m, canon=lambda x: x):
    """normal form without factors that are the identity"""
    d = {}
    for (sc, fs), c in nf(m, canon):
        k = (sc, tuple(x for x in fs if not is_app(x[0], "identity")))
        d[k] = d.get(k, 0) + c
    return frozenset((k, c) for k, c in d.items() if c)

# ---------------------------------------------------------------- checks and mixing
def checks(rep, prog):
    M = methods(prog, ["forgetStatemixing", "checkIsDiagonal", "checkIsUnitary"])
    f = M["forgetStatemixing"][0]
    w = loc(f, f)
    e = SysEval(prog, OPS + ("diagonalize",), None)
    for o in rets(e, f, rep, "forgetStatemixing"):
        rep.check(names(o)[:1] == ["diagonalize"], "mixing:diagonal", "forgetStatemixing diagonalises first", f"{w}: forgetStatemixing does not diagonalise first")
        v = get(e, o, "basisvectors")
        known(e, f, v)
        ok, cnt = False, None
        if is_app(v, "tri") and v[2:4] == (rows(B), cols(B)) and type(v[4]) is tuple and v[4][:1] == ("list",) and len(v[4][1]) == 1:
            (bs, gs, pl), = v[4][1]
            if len(bs) == 2 and bs[0] == ("each", 0, cols(B)) and bs[1][:3] == ("nz", B, ("ix", bs[0])):
                b = bs[1]
                cnt = ("count", frozenset({(bs, gs)}))
                c = conditions(gs)
                big = len(c) == 1 and len(next(iter(c))) == 3 and half(next(iter(c)), b)
                ok = big and pl == ("tuple", app("nzrow", b), ("ix", bs[0]), 1) or big and pl == ("tuple", app("nzrow", b), app("nzcol", b), 1)
        rep.count("criteria")
        rep.check(ok, "mixing:basis", "forgetStatemixing replaces each vector by its dominating state", f"{w}: forgetStatemixing does not replace each vector by the state that contributes more than half of its weight")
        d = conditions({(t, v) for t, v in decided(o).items()})
        refuse = any(len(x) == 3 and (x == ("<=", cols(B), cnt) or x[0] == "==" and {x[1], x[2]} == {cols(B), cnt}) for x in d)
        rep.check(refuse or not ok, "mixing:strong", "forgetStatemixing refuses vectors without a dominating state", f"{w}: forgetStatemixing does not refuse vectors to which no state contributes more than half of the weight")
    for nm in ("checkIsDiagonal", "checkIsUnitary"):
        f = M[nm][0]
        w = loc(f, f)
        e = SysEval(prog, OPS, None)
        m0 = ("sym", ("arg", 0))
        reasons = set()
        rep.count("operations")
        for o in call(e, f):
            if o[0] != "ret": raise AnalysisError(f"{w}: {nm} throws")
            if o[1] not in (True, False, 0, 1): raise AnalysisError(f"{w}: {nm} returns {ms(o[1])}, which is not understood")
            last = list(decided(o).items())
            if o[1]:
                rep.check(not any(reason(t, v, m0, nm) for t, v in last), f"{nm}:true", f"{nm} holds for matrices without such elements", f"{w}: {nm} returns true although {[reason(t, v, m0, nm) for t, v in last if reason(t, v, m0, nm)][:1]}")
                continue
            r = [reason(t, v, m0, nm) for t, v in last]
            r = [x for x in r if x]
            for t, v in last:
                for b in find_terms(t, lambda t: t[:1] == ("nz",) or is_app(t, "pruned")):
                    m, tol = (b[1] if b[0] == "nz" else b), 0
                    while is_app(m, "pruned"): tol, m = max(tol, m[3] * (m[4] if len(m) > 4 else 1)), m[2]
                    rep.check(tol <= 1e-6 and mentions_term(m, m0), f"{nm}:tolerance", f"{nm} examines its argument without negligible elements only", f"{w}: {nm} ignores elements up to {tol} of {ms(m)}")
            rep.check(len(r) >= 1, f"{nm}:false{sorted(reasons)}", f"{nm} fails only for a reason", f"{w}: {nm} returns false without {'an element off the diagonal' if nm == 'checkIsDiagonal' else 'a deviation from the identity'}")
            if r: reasons.add(r[-1])
        want = {"off the diagonal"} | ({"real part", "imaginary part", "missing"} if nm == "checkIsUnitary" else set())
        rep.count("criteria")
        rep.check(reasons >= want, f"{nm}:reasons", f"{nm} recognises: {', '.join(sorted(want))}", f"{w}: {nm} does not recognise elements that differ: {', '.join(sorted(want - reasons))}")

def half(c, b):
    op, x, y = c
    a = app("std::abs", app("nzvalue", b))
    if op not in ("<", "<="): return False
    import math
    if y == a: return type(x) in (int, float) and abs(x - math.sqrt(.5)) < 1e-9 or x == app("std::sqrt", .5)
    return type(x) in (int, float) and abs(x - .5) < 1e-9 and y in (app("std::norm", app("nzvalue", b)), app("std::pow", a, 2), app("std::pow", a, 2.0))

def reason(t, v, m0, nm):
    c = conditions({(t, v)})
    if len(c) != 1 or len(next(iter(c))) != 3: return None
    op, x, y = next(iter(c))
    def small(z): return type(z) in (int, float) and 0 <= z <= 1e-6
    if is_app(x, "nonZeros") or is_app(y, "nonZeros"): return "missing" if op == "!=" else None
    if op == "!=" and any(is_app(p, "nzrow") and type(q) is tuple and q[:1] in (("ix",),) or is_app(p, "nzrow") and is_app(q, "nzcol") for p, q in ((x, y), (y, x))): return "off the diagonal"
    if op in ("<", "<=") and small(x) and is_app(y, "std::abs"):
        z = y[2]
        if is_app(z, "std::imag") and is_app(z[2], "nzvalue"): return "imaginary part"
        if is_app(z, "-") and 1 in z[2:4] and any(is_app(q, "std::real") and is_app(q[2], "nzvalue") for q in z[2:4]): return "real part"
    return None

# ---------------------------------------------------------------- restrictions
def setters(rep, prog):
    M = methods(prog, ["restrictN", "restrictL", "restrictJ", "restrictM", "restrictEnergy", "addStates", "setMinimalNorm"])
    a0, a1 = ("sym", ("arg", 0)), ("sym", ("arg", 1))
    for nm, fs in M.items():
        for f in fs:
            w = loc(f, f)
            e = SysEval(prog, OPS, None)
            label = f"{nm}({', '.join(q['t'].split('<')[0] for q in f['p'])})"
            for o in rets(e, f, rep, nm):
                got = {k[1]: v for k, v in o[2].items() if k[0] == "this" and len(k) == 2 and not k[1].startswith("#")}
                if nm == "restrictEnergy": want = {SB + "energy_min": a0, SB + "energy_max": a1}
                elif nm == "setMinimalNorm": want = {SB + "threshold_for_sqnorm": a0}
                elif nm == "addStates":
                    pl = ("all", ("arg", 0)) if "set<" in f["p"][0]["t"] else a0
                    want = {SB + "states_to_add": ("list", frozenset({((), frozenset(), pl)}), ("this", SB + "states_to_add"))}
                elif len(f["p"]) == 1: want = {SB + "range_" + nm[-1].lower(): a0}
                else:
                    b = ("each", a0, app("+", a1, 1))
                    want = {SB + "range_" + nm[-1].lower(): ("list", frozenset({((b,), frozenset(), ("ix", b))}))}
                rep.check(got == want, f"set:{nm}{len(f['p'])}{f['p'][0]['t'][:20]}", f"{label} sets what it names", f"{w}: {label} does not set exactly what it names: {({short(k): ms(v) for k, v in got.items()})}")

def run(rep):
    prog = Program(all_tus())
    helpers(rep, prog)
    update(rep, prog)
    valid(rep, prog)
    transformations(rep, prog)
    systems(rep, prog)
    checks(rep, prog)
    setters(rep, prog)
