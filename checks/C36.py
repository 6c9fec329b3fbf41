"""Every loop nest that fills a list of basis states is described, not run: loop variables with first value,
step and bound as formulas, decisions around the insertion, counters by their change per iteration.
The set of quantum numbers this description yields is enumerated for a grid of start states and
limits (including 'no limit') and compared, with multiplicity, with the set that follows from
the allowed ranges of quantum numbers; indices have to be a counter that starts at zero and moves once per
state inserted, and the stored settings have to describe the list. Lists of single-atom states taken from pair states,
products of two lists, and the removal of states are compared with the element-wise specification."""
from core import *
from facts import *
from nest import *
FLOORS = {"basis states compared": 3000, "limits": 60, "loop nests": 6, "settings": 60, "removals": 3, "columns": 14}
Q = ("n", "l", "j", "m")
S1 = ["StateOneOld::" + q for q in Q]
OPQ = ("StateTwoOld::operator==", "StateOneOld::operator==", "StateOneOld::analyzeSpecies", "StateTwoOld::analyzeSpecies")

def trim(t):
    """the list of a basis object is the object"""
    if type(t) is not tuple: return t
    t = tuple(trim(x) for x in t)
    return tuple(x for i, x in enumerate(t) if not (x == "Basisnames::names_" and i + 1 < len(t) and type(t[i + 1]) is tuple and t[i + 1][:1] == ("elem",)))

def one(p):
    """index and quantum numbers of an inserted single-atom state"""
    if type(p) is tuple and p[:1] == ("args",) and len(p) == 6: return p[1], p[2:]
    if type(p) is tuple and p[:1] in (("object",), ("sym",)):
        return field(p, "StateOld::idx"), tuple(field(p, q) for q in S1)
    raise ValueError("inserted state")

def oracle(start, d):
    n0, l0, j0, m0 = start
    dn, dl, dj, dm = d
    r = set()
    for n in range(max(0, n0 - dn), n0 + dn + 1):
        for l in range(0, n):
            if dl >= 0 and abs(l - l0) > dl: continue
            for j2 in (2 * l - 1, 2 * l + 1):
                if j2 < 0: continue
                j = j2 / 2
                if dj >= 0 and abs(j - j0) > dj: continue
                for m2 in range(-j2, j2 + 1, 2):
                    if dm >= 0 and abs(m2 / 2 - m0) > dm: continue
                    r.add((n, l, j, m2 / 2))
    return r

STARTS = [(1, 0, .5, .5), (2, 1, 1.5, -1.5), (3, 0, .5, -.5), (3, 2, 1.5, .5), (4, 3, 3.5, 3.5), (5, 1, .5, -.5), (4, 3, 2.5, -2.5), (6, 2, 2.5, 1.5)]
DELTAS = [(0, 0, 0, 0), (1, -1, -1, -1), (1, 1, 1, 1), (0, -1, 1, 2), (2, 2, -1, 0), (1, 0, 5, -1), (0, 3, 0, -1), (6, 1, 1, 0), (1, 4, 2, 9), (0, -1, -1, -1)]
DK = ("deltaNSingle", "deltaLSingle", "deltaJSingle", "deltaMSingle")

def evaluate(prog, f):
    e = Nest(prog); e.opq = OPQ
    try:
        outs = e.run(f, {}, ("X",), [("l", ("arg", i)) if isref(q["t"]) else ("v", ("sym", ("arg", i))) for i, q in enumerate(f["p"])])
    except Limit:
        outs = []
    if not [o for o in outs if o[0] == "ret"]: raise AnalysisError(f"{f['fn']}: loops not understood ({f['f']}:{f['l']})")
    return e, outs

def envof(base, keys, second=None):
    """values of the settings at a point"""
    def env(t):
        if type(t) is tuple and t[:1] == ("sym",) and type(t[1]) is tuple and type(t[1][-1]) is tuple and t[1][-1][:1] == ("key",):
            return keys.get(t[1][-1][1])
        return None
    return env

def container(o, base):
    v = o[2].get(base + ("Basisnames::names_",))
    return v[1] if type(v) is tuple and v[:1] == ("elems",) else base + ("Basisnames::names_",)

def counter(rep, e, idx, cont, what, at, per_insertion=True):
    """the index given to a new element counts the elements before it"""
    if idx == ("size", cont): rep.ok(f"{what}: the index is the number of states before it"); return
    if type(idx) is not tuple or idx[:1] != ("ctr",):
        rep.bad(f"{what}: index", f"the index of a new state is {show(idx)[:60]}, not a running number ({at})"); return
    l = idx[1]
    init = e.inits.get(l, set())
    rep.check(init == {0}, f"{what}: index starts", f"{what}: numbering starts at 0", f"numbering starts at {sorted(map(show, init))} ({at})")
    wrong = [(d, k, w) for d, k, w in e.steps_seen.get(l, ()) if d != k]
    rep.check(not wrong, f"{what}: index advances", f"{what}: the number advances once per state", f"where {wrong[0][1]} states are added, the running number changes by {wrong[0][0]} ({wrong[0][2]})" if wrong else "")

def conf(rep, o, base, expected, what):
    for k, v in expected.items():
        rep.count("settings")
        got = o[2].get(base + ("Basisnames::conf", ("key", k)))
        rep.check(got == v, f"{what}: setting {k}", f"{what}: setting {k}", f"the list's setting {k} is {show(got)[:80] if got is not None else 'missing'} instead of {show(v)[:80]}")

def configured(src):
    return {k: ("sym", src + (("key", k),)) for k in DK + ("missingCalc", "missingWhittaker")}

def dimension(rep, e, o, base, cont, what):
    d = o[2].get(base + ("Basisnames::dim_",))
    ok = d == ("size", cont) or d == ("size", base + ("Basisnames::names_",)) or type(d) is tuple and d[:1] == ("ctr",) and e.inits.get(d[1]) == {0} and all(x == y for x, y, _ in e.steps_seen.get(d[1], ()))
    rep.check(ok, f"{what}: dimension", f"{what}: the dimension is the number of states", f"the dimension is {show(d)[:80] if d is not None else 'not set'}")

def fields(f): return f"{f['fn']}({', '.join(short_t(p['t']) for p in f['p'])})"
def short_t(t): return "configuration" if "Configuration" in t else "pair basis" if "BasisnamesTwo" in t else t

def single(rep, prog, f, at, first):
    """from settings: all states within the limits around the start state"""
    what = fields(f)
    e, outs = evaluate(prog, f)
    src = ("arg", 0)
    keys = [f"{q}{first}" for q in Q] if first else [f"{q}{i}" for i in (1, 2) for q in Q]
    sp = ("sym", src + (("key", "species" + ("2" if first == 2 else "1")),))
    rets = [o for o in outs if o[0] == "ret"]
    for o in rets:
        base = o[1][1]
        cont = container(o, base)
        exp = configured(src)
        exp["species1"] = sp
        for i in (1, 2):
            for q in Q:
                if first: exp[f"{q}{i}"] = ("sym", src + (("key", f"{q}{first}"),)) if i == 1 else ("str", "")
        if first: conf(rep, o, base, exp, what)
        else:
            conf(rep, o, base, exp, what)
            got = tuple(o[2].get(base + ("Basisnames::conf", ("key", f"{q}{i}"))) for i in (1, 2) for q in Q)
            a = tuple(("sym", src + (("key", f"{q}{i}"),)) for i in (1, 2) for q in Q)
            rep.count("settings", 8)
            rep.check(got in (a, a[4:] + a[:4]), f"{what}: start states kept", f"{what}: both start states are kept, each as a whole", "the stored start states are not those of the settings")
        ini = [p for p, dm, dc, w in e.emissions.get(base + ("BasisnamesOne::states_initial",), ()) if not dm]
        want = [tuple(("sym", src + (("key", f"{q}{i}"),)) for q in Q) for i in ((first,) if first else (1, 2))]
        got = {one(p)[1] for p in ini}
        rep.check(got == set(want), f"{what}: initial states", f"{what}: the initial states are the start states", f"initial states: {[[show(x)[:30] for x in g] for g in got]}"[:300])
        dimension(rep, e, o, base, cont, what)
        rep.check((o[2].get(base + ("BasisnamesOne::_constructedFromFirst",)) is True) == (first == 1), f"{what}: origin", f"{what}: remembers which atom it is for", "remembers the wrong atom")
    conts = {container(o, o[1][1]) for o in rets}
    ems = [(c, x) for c in conts for x in e.emissions.get(c, ())]
    rep.count("loop nests", len({x[3] for c, x in ems}))
    for c, x in ems: counter(rep, e, one(x[0])[0], c, what, x[3])
    sets = all(o[2].get(o[1][1] + ("Basisnames::names_",), ("",))[0] == "elems" for o in rets)
    starts = STARTS if first else [(a, STARTS[(3 * i + 1) % len(STARTS)]) for i, a in enumerate(STARTS)]
    for s in starts:
        for d in DELTAS:
            rep.count("limits")
            vals = dict(zip(keys, s if first else s[0] + s[1])); vals.update(zip(DK, d)); vals.update({"species1": 7, "species2": 7})
            env = envof(src, vals)
            got = []
            for c in conts:
                for x in e.emissions.get(c, ()):
                    qs = one(x[0])[1]
                    try:
                        for b in enumerate_domain(x, env):
                            e2 = lambda t: b[t] if t in b else env(t)
                            got.append(tuple(cval(q, e2) for q in qs))
                    except (ValueError, KeyError, TypeError, OverflowError) as ex:
                        raise AnalysisError(f"{x[3]}: loop not understood: {str(ex)[:80]}")
            want = oracle(s, d) if first else oracle(s[0], d) | oracle(s[1], d)
            rep.count("basis states compared", len(want))
            extra, miss = set(got) - want, want - set(got)
            txt = lambda z: "n=%g l=%g j=%g m=%g" % z
            lim = f"start {s}, limits {d}"
            rep.check(not miss, f"{what}: complete", f"{what}: all {len(want)} states for {lim}", f"{len(miss)} states within the limits are missing, e.g. {txt(min(miss)) if miss else ''} ({lim}; filled at {at(ems)})")
            rep.check(not extra, f"{what}: nothing else", f"{what}: no further state for {lim}", f"{len(extra)} states outside of the limits, e.g. {txt(min(extra)) if extra else ''} ({lim}; filled at {at(ems)})")
            rep.check(sets or len(got) == len(set(got)), f"{what}: once", f"{what}: each state once for {lim}", f"states occur more than once ({lim}; filled at {at(ems)})")
    if not first:
        th = [o for o in outs if o[0] == "throw"]
        eq = [{b for k, b in o[2].items() if type(k) is tuple and k[0] == "D" and sp in k[1] and ("sym", src + (("key", "species2"),)) in k[1]} for o in th]
        rep.check(bool(th) and all(eq), f"{what}: species", f"{what}: atoms of different species are refused", "atoms of different species are not refused")

def places(ems): return ", ".join(sorted({x[3] for c, x in ems}))

def from_pairs(rep, prog, f, i):
    what = fields(f)
    e, outs = evaluate(prog, f)
    src = ("arg", 0, "Basisnames::conf")
    for o in outs:
        if o[0] != "ret": continue
        base = o[1][1]; cont = container(o, base)
        exp = configured(src)
        exp["species1"] = ("sym", src + (("key", f"species{i + 1}"),))
        for q in Q: exp[q + "1"] = ("sym", src + (("key", f"{q}{i + 1}"),)); exp[q + "2"] = ("str", "")
        conf(rep, o, base, exp, what)
        dimension(rep, e, o, base, cont, what)
        ems = e.emissions.get(cont, ())
        rep.check(bool(ems), f"{what}: filled", f"{what}: the list is filled", "nothing is put into the list")
        v = o[2].get(base + ("Basisnames::names_",))
        rep.check(type(v) is tuple and v[:1] == ("elems",), f"{what}: once", f"{what}: each state once (via a set)", "the same state of the atom can enter several times")
    conts = {container(o, o[1][1]) for o in outs if o[0] == "ret"}
    for c in conts:
        for p, dm, dc, at in e.emissions.get(c, ()):
            rep.count("loop nests")
            idx, qs = one(p)
            counter(rep, e, idx, c, what, at)
            ok = len(dm) == 1 and dm[0][0] == "each" and trim(dm[0][2])[:2] == ("arg", 0) and not [1 for t, b in dc if mentions_var(t, dm[0][1])]
            rep.check(ok, f"{what}: all pairs", f"{what}: every pair state contributes", f"not every pair state contributes ({at})")
            if not ok: continue
            want = tuple(("sym", ("arg", 0, ("elem", dm[0][1]), "StateTwoOld::" + q, ("idx", i))) for q in Q)
            got = tuple(trim(x) for x in qs)
            rep.check(got == want, f"{what}: numbers", f"{what}: the numbers of atom {i + 1} are taken", f"the state is built from {[show(x)[-60:] for x in got]} instead of the numbers of atom {i + 1} ({at})")

def product(rep, prog, f):
    e, outs = evaluate(prog, f)
    two = len(f["p"]) == 2
    what = f"pair basis of {'two lists' if two else 'one list'}"
    a = [("arg", 0, "Basisnames::conf"), ("arg", 1 if two else 0, "Basisnames::conf")]
    throws = [o for o in outs if o[0] == "throw"]; rets = [o for o in outs if o[0] == "ret"]
    for o in rets:
        base = ("X",)
        exp = configured(a[0])
        exp["combined"] = 0 if two else 1
        for i in (0, 1):
            exp[f"species{i + 1}"] = ("sym", a[i] + (("key", "species1"),))
            for q in Q: exp[f"{q}{i + 1}"] = ("sym", a[i] + (("key", q + ("1" if two else str(i + 1))),))
        conf(rep, o, base, exp, what)
        dimension(rep, e, o, base, base + ("Basisnames::names_",), what)
        # only lists of the right origin
        dec = {k[1]: b for k, b in o[2].items() if type(k) is tuple and k[0] == "D"}
        for i in ((0, 1) if two else (0,)):
            t = ("sym", a[i] + (("key", "n2"),))
            em = {b for k, b in dec.items() if k == ("app", "std::basic_string::empty", t)} | {(b if k[1] == "==" else not b) for k, b in dec.items() if k[:1] == ("app",) and k[1] in ("==", "!=") and t in k and ("str", "") in k} | {(b if k[1] == "==" else not b) for k, b in dec.items() if k[:1] == ("app",) and k[1] in ("==", "!=", ">") and ("size", a[i] + (("key", "n2"),)) in k and 0 in k}
            rep.check(em == {two}, f"{what}: origin of list {i + 1}", f"{what}: only from lists of {'one atom each' if two else 'both atoms'}", "lists of the wrong origin are accepted")
    rep.check(bool(throws), f"{what}: refusal", f"{what}: other lists are refused", "lists of the wrong origin are accepted")
    ems = e.emissions.get(("X", "Basisnames::names_"), ())
    rep.check(bool(ems), f"{what}: filled", f"{what}: the list is filled", "nothing is put into the list")
    for p, dm, dc, at in ems:
        rep.count("loop nests")
        p = trim(p)
        if p[:1] == ("args",) and len(p) == 4: idx, s = p[1], p[2:]
        elif p[:1] == ("object",):
            idx = field(p, "StateOld::idx"); s = None
            nums = tuple(trim(field(p, "StateTwoOld::" + q, i)) for i in (0, 1) for q in Q)
        else: raise AnalysisError(f"{at}: inserted pair state")
        counter(rep, e, idx, ("X", "Basisnames::names_"), what, at)
        src = [tuple(trim(d[2]))[:2] for d in dm if d[0] == "each"]
        hid = [t for t, b in dc if any(mentions_var(t, d[1]) for d in dm) and not t[:2] == ("app", "StateTwoOld::operator==")]
        ok = len(dm) == 2 and sorted(src) == [("arg", 0), ("arg", 1 if two else 0)] and not hid
        rep.check(ok, f"{what}: all combinations", f"{what}: every state with every state", f"not every state of the first list is combined with every one of the second ({at})")
        if not ok: continue
        by = [("sym", tuple(trim(d[2]))[:2] + (("elem", d[1]),)) for d in dm]
        if two and src[0] == ("arg", 1): by = by[::-1]
        if s is None:
            want = tuple(("sym", b[1] + ("StateOneOld::" + q,)) for b in by for q in Q)
            good = nums == want or not two and nums == want[4:] + want[:4]
        else: good = s == tuple(by) or not two and s == tuple(by[::-1])
        rep.check(good, f"{what}: atoms", f"{what}: first atom from the first list, second from the second", f"the pair state is not (state of the first list, state of the second list) ({at})")
    initial(rep, e, what, {("X", "BasisnamesTwo::state_initial")} | {v[1] for o in rets for v in [o[2].get(("X", "BasisnamesTwo::state_initial"))] if type(v) is tuple and v[:1] == ("copyof",)})
    for o in rets:
        for i in (0, 1):
            for q in Q:
                v = Nest(prog).value_of(o[2], ("X", "BasisnamesTwo::state_initial", "StateTwoOld::" + q, ("idx", i)))
                w = ("sym", a[i] + (("key", q + ("1" if two else str(i + 1))),))
                rep.check(v == w, f"{what}: initial state {q}{i + 1}", f"{what}: initial state {q}{i + 1}", f"the initial pair state's {q} of atom {i + 1} is {show(v)[:80]}")

def initial(rep, e, what, inits):
    asg = e.assigned.get(("X", "BasisnamesTwo::state_initial", "StateOld::idx"), ())
    rep.check(bool(asg), f"{what}: initial index", f"{what}: the initial state's index is looked up", "the index of the initial state is not looked up")
    for v, dm, dc, em, at in asg:
        match = [t for t, b in dc if b and t[:2] == ("app", "StateTwoOld::operator==") and any(x[1] in inits for x in t[2:] if type(x) is tuple and x[:1] in (("sym",), ("copyof",), ("obj",)))]
        idx = None
        if em:
            p = em[-1][1]
            idx = p[1] if p[:1] == ("args",) else field(p, "StateOld::idx")
        good = match and (v == idx or type(v) is tuple and v[:1] == ("ctr",) and all(d == k for d, k, _ in e.steps_seen.get(v[1], ())))
        rep.check(bool(good), f"{what}: initial index", f"{what}: the initial state's index is that of the equal state", f"the index of the initial state is set to {show(v)[:60]} {'for a state not compared with it' if not match else ''} ({at})")

def removal(rep, prog, f, renumber, two):
    what = f["fn"]
    e, outs = evaluate(prog, f)
    N = ("X", "Basisnames::names_")
    rep.count("removals")
    ems = list(e.emissions.get(N, ()))
    if not ems:
        conts = {v[1] for o in outs for v in [o[2].get(N)] if type(v) is tuple and v[:1] in (("elems",), ("copyof",), ("sym",))}
        ems = [x for c in conts for x in e.emissions.get(c, ())]
    if not ems: raise AnalysisError(f"{what}: how states are removed is not understood")
    for p, dm, dc, at in ems:
        p = trim(p)
        el = ("sym", ("X", "Basisnames::names_", ("elem", dm[0][1]))) if len(dm) == 1 and dm[0][0] == "each" else None
        el2 = ("sym", ("X", ("elem", dm[0][1]))) if el else None
        rep.check(el is not None and (trim(dm[0][2]) in (N, ("X",))), f"{what}: all states", f"{what}: goes through all states", f"does not go through the list's states ({at})")
        if el is None: continue
        def nec(t):
            t = trim(t)
            return t in [("app", "[]", ("at", ("arg", 0)), ("sym", x[1] + ("StateOld::idx",))) for x in (el, el2)] or t in [("sym", ("arg", 0, ("idx", ("sym", x[1] + ("StateOld::idx",))))) for x in (el, el2)]
        good = [t for t, b in dc if b and nec(t)]
        other = [t for t, b in dc if mentions_var(t, dm[0][1]) and not nec(t) and t[:2] != ("app", "StateTwoOld::operator==")]
        rep.check(bool(good) and not other, f"{what}: which states", f"{what}: exactly the states marked as needed stay", f"what stays is not exactly what is marked as needed at the state's index ({at})")
        if p[:1] == ("args",) and not two and len(p) == 6:
            p = ("object", el, ((("StateOld::idx",), p[1]),) + tuple(((q,), v) for q, v in zip(S1, p[2:]) if v not in (("sym", el[1] + (q,)), ("sym", el2[1] + (q,)))))
        base = p[1] if p[:1] == ("object",) else p
        rep.check(base in (el, el2, ("copyof", el[1]), ("copyof", el2[1])), f"{what}: state itself", f"{what}: the state itself is kept", f"what is kept is {show(base)[:60]} ({at})")
        ch = dict(p[2]) if p[:1] == ("object",) else {}
        nums = [k for k in ch if k[0] != "StateOld::idx"]
        rep.check(not nums, f"{what}: numbers", f"{what}: the numbers stay", f"{nums} is changed")
        if renumber:
            idx = ch.get(("StateOld::idx",))
            if idx is None: rep.bad(f"{what}: index", f"a state is kept with its old index although the list is renumbered ({at})"); continue
            counter(rep, e, idx, N, what, at)
        else: rep.check(("StateOld::idx",) not in ch and not [1 for k in e.assigned if k[-1] == "StateOld::idx"], f"{what}: index stays", f"{what}: the index stays", f"the index is changed ({at})")
    for o in outs:
        if o[0] != "ret": continue
        if renumber: dimension(rep, e, o, ("X",), N, what)
        else: rep.check(("X", "Basisnames::dim_") not in o[2], f"{what}: dimension stays", f"{what}: the dimension stays (the indices still refer to it)", "the dimension changes although the indices stay")
    if two and renumber:
        initial(rep, e, what, {("X", "BasisnamesTwo::state_initial")})

def columns(rep, prog, f, want):
    """what a saved list contains: the columns, in order"""
    body = f["body"]
    loops = [x for x in walk(body) if x["k"] in ("RFor", "For", "While")]
    if not loops: raise AnalysisError(f"{f['fn']}: no loop")
    out = []
    def chain(n):
        n = strip_casts(n)
        if n.get("k") == "OpCall" and n["op"] == "<<":
            chain(n["a"][0]); out.append(strip_casts(n["a"][1]))
        elif n.get("k") == "MCall" and short(n.get("fn", "")) == "operator<<":
            chain(n["o"]); out.append(strip_casts(n["a"][0]))
    for x in loops[-1:]:
        for s in walk(x["body"]):
            if s["k"] in ("OpCall", "MCall") and (s.get("op") == "<<" or short(s.get("fn", "")) == "operator<<") and not any(s is not y and s in list(walk(y)) for y in walk(x["body"]) if y["k"] in ("OpCall", "MCall") and (y.get("op") == "<<" or short(y.get("fn", "")) == "operator<<")):
                chain(s)
    cols = []
    for n in out:
        if n.get("k") == "Mem": cols.append((short(n["q"]), None))
        elif n.get("k") in ("Sub", "OpCall") and n.get("k") == "Sub" or n.get("k") == "OpCall" and n.get("op") == "[]":
            b, i = (strip_casts(n["b"]), strip_casts(n["x"])) if n["k"] == "Sub" else (strip_casts(n["a"][0]), strip_casts(n["a"][1]))
            cols.append((short(b.get("q", "?")), int(i["v"]) if i.get("k") == "Int" else None))
    rep.count("columns", len(cols))
    if not cols: raise AnalysisError(f"{f['fn']}: columns not understood")
    rep.check(cols == want, f"{f['fn']}: columns", f"{f['fn']}: columns {want}", f"the columns of a saved list are {cols} instead of {want} ({f['f']}:{f['l']})")

def run(rep):
    prog = Program(all_tus())
    def need(q, pred=lambda f: True):
        r = [f for f in prog.need(q) if f.get("body") and pred(f)]
        if not r: raise AnalysisError("anchor vanished: " + q)
        return r[0]
    isconf = lambda f: len(f["p"]) == 1 and "Configuration" in f["p"][0]["t"]
    isbasis = lambda f: len(f["p"]) == 1 and "BasisnamesTwo" in f["p"][0]["t"]
    single(rep, prog, need("BasisnamesOne::fromFirst", isconf), places, 1)
    single(rep, prog, need("BasisnamesOne::fromSecond", isconf), places, 2)
    single(rep, prog, need("BasisnamesOne::fromBoth", isconf), places, 0)
    from_pairs(rep, prog, need("BasisnamesOne::fromFirst", isbasis), 0)
    from_pairs(rep, prog, need("BasisnamesOne::fromSecond", isbasis), 1)
    for k in (1, 2): product(rep, prog, need("BasisnamesTwo::BasisnamesTwo", lambda f: len(f["p"]) == k and all("BasisnamesOne" in p["t"] for p in f["p"])))
    removal(rep, prog, need("BasisnamesOne::removeUnnecessaryStates"), True, False)
    removal(rep, prog, need("BasisnamesTwo::removeUnnecessaryStates"), True, True)
    removal(rep, prog, need("BasisnamesTwo::removeUnnecessaryStatesKeepIdx"), False, True)
    columns(rep, prog, need("BasisnamesOne::save"), [("idx", None)] + [(q, None) for q in Q])
    columns(rep, prog, need("BasisnamesTwo::save"), [("idx", None)] + [(q, i) for i in (0, 1) for q in Q])
    f = need("BasisnamesOne::fromStates")
    e, outs = evaluate(prog, f)
    for o in outs:
        if o[0] != "ret": continue
        base = o[1][1]
        v = o[2].get(base + ("Basisnames::names_",))
        rep.check(v in (("copyof", ("arg", 0)), ("sym", ("arg", 0)), ("elems", ("arg", 0))), "fromStates: states", "a list made of given states contains those", f"the list contains {show(v)[:60]}")
        rep.check(o[2].get(base + ("Basisnames::dim_",)) in (("size", ("arg", 0)), ("size", base + ("Basisnames::names_",))), "fromStates: dimension", "its dimension is their number", "its dimension is not their number")
    rep.analysed["rule"] = "multiset of loop-generated quantum numbers = specification; counters move once per insertion; element-wise products and filters"
