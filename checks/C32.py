"""Every selection rule (multipole and momentum operators, with and without a given change of m, for both state
types) is evaluated abstractly to its answer on each path, as formulas over the quantum numbers. The formulas are
decided for all pairs of states with l up to 4 (and pairs at larger l) of spin 0, 1/2 and 1, all orders up to 3 and all
changes of m: whenever the Wigner 3j and 6j symbols of the operator's matrix element are all different from zero
(computed exactly), the rule must admit the pair; it must never admit a pair that the projections, the
triangle of j and the order, or the parity forbid;
and the rule without m must admit exactly the pairs some m admits."""
from core import *
from facts import *
from smallmat import *
from fractions import Fraction
import itertools, functools
FLOORS = {"rules": 8, "pairs of states": 3000, "comparisons": 100000}

F = math.factorial
@functools.lru_cache(None)
def tj(j1, j2, j3, m1, m2, m3):
    """3j symbol different from zero? arguments doubled; the alternating sum of Racah's formula, exactly"""
    if m1 + m2 + m3 or j3 > j1 + j2 or j3 < abs(j1 - j2) or (j1 + j2 + j3) % 2: return False
    if any(abs(m) > j or (j - m) % 2 for j, m in ((j1, m1), (j2, m2), (j3, m3))): return False
    h = lambda x: x // 2
    s = 0
    for t in range(0, h(j1 + j2 + j3) + 1):
        a = [t, h(j3 - j2 + m1) + t, h(j3 - j1 - m2) + t, h(j1 + j2 - j3) - t, h(j1 - m1) - t, h(j2 + m2) - t]
        if min(a) < 0: continue
        d = 1
        for x in a: d *= F(x)
        s += Fraction((-1) ** t, d)
    return s != 0
@functools.lru_cache(None)
def sixj(a, b, c, d, e, f):
    tri = ((a, b, c), (a, e, f), (d, b, f), (d, e, c))
    for x, y, z in tri:
        if z > x + y or z < abs(x - y) or (x + y + z) % 2: return Fraction(0)
    s = Fraction(0)
    T = [sum(t) // 2 for t in tri]; Q = [(a + b + d + e) // 2, (b + c + e + f) // 2, (c + a + f + d) // 2]
    for t in range(max(T), min(Q) + 1):
        n = 1
        for x in T: n *= F(t - x)
        for x in Q: n *= F(x - t)
        s += Fraction((-1) ** t * F(t + 1), n)
    return s

def cmod(a, b): return math.fmod(a, b)
OPS = {"==": "==", "!=": "!=", "<": "<", "<=": "<=", ">": ">", ">=": ">=", "+": "+", "-": "-", "*": "*"}
def py(e, names):
    if isinstance(e, (bool, int, float)): return repr(e)
    if type(e) is tuple and e[:1] == ("not",): return f"(not {py(e[1], names)})"
    if e in names: return names[e]
    if type(e) is tuple and e[:1] == ("app",):
        a = [py(x, names) for x in e[2:]]
        op = e[1].split("::")[-1]
        if op in OPS and len(a) == 2: return f"({a[0]}{OPS[op]}{a[1]})"
        if op == "%": return f"cmod({a[0]},{a[1]})"
        if op == "/": return f"({a[0]}/{a[1]})"
        if op in ("-", "neg") and len(a) == 1: return f"(-{a[0]})"
        if op in ("abs", "fabs", "labs") and len(a) == 1: return f"abs({a[0]})"
        if op in ("min", "max", "fmin", "fmax"): return f"{op[-3:]}({a[0]},{a[1]})"
        if op in ("&&", "and"): return f"({a[0]} and {a[1]})"
        if op in ("||", "or"): return f"({a[0]} or {a[1]})"
        if op == "pow": return f"({a[0]}**{a[1]})"
        if op in ("int", "float", "double", "lround", "round", "trunc"): return f"int({a[0]})" if op == "int" else a[0]
    raise KeyError(e)

class RuleEval(SmallMat):
    max_paths = 20000

RULES = {}
def rule(prog, f, mom):
    """the rule as a Python predicate over (l1, j1, m1, s1, l2, j2, m2, s2[, kappa][, q]), for each order"""
    if f["u"] not in RULES:
        if mom: RULES[f["u"]] = rule_at(prog, f, [])
        else:
            d = {k: rule_at(prog, f, [k])[0] for k in range(4)}
            RULES[f["u"]] = (lambda l1, j1, m1, s1, l2, j2, m2, s2, k, *q: d[k](l1, j1, m1, s1, l2, j2, m2, s2, k, *q)), len(f["p"]) - 2
    return RULES[f["u"]]
def rule_at(prog, f, first):
    ev = RuleEval(prog)
    cls = re.sub(r"const|&|\s", "", f["p"][0]["t"])
    extra = [p["n"] for p in f["p"][2:]]
    outs = ev.run(f, {}, None, [("l", ("S1",)), ("l", ("S2",))] + [("v", first[i] if i < len(first) else ("sym", ("arg", i))) for i in range(len(extra))])
    if not outs: raise AnalysisError(f"{loc(f)}: not understood")
    names = {}
    for i in (1, 2):
        for q in "nljms": names[("sym", (f"S{i}", f"{cls}::{q}"))] = f"{q}{i}"
    for i in range(len(extra)): names[("sym", ("arg", i))] = f"a{i}"
    lines = []
    try:
        for o in outs:
            c = [(k[1], b) for k, b in o[2].items() if type(k) is tuple and k and k[0] == "D"]
            cond = " and ".join(("" if b else "not ") + py(k, names) for k, b in c) or "True"
            r = py(o[1], names) if o[0] == "ret" else "'throws'"
            lines.append(f" if {cond}: return {r}")
    except KeyError as e:
        raise AnalysisError(f"{loc(f)}: {f['fn']} not understood: {str(e)[:200]}")
    src = "def r(l1,j1,m1,s1,l2,j2,m2,s2," + "".join(f"a{i}," for i in range(len(extra))) + "n1=60,n2=61):\n" + "\n".join(lines) + "\n return 'undecided'\n"
    env = {"cmod": cmod}
    exec(src, env)
    return env["r"], len(extra)

def states(ls):
    for s2 in (0, 1, 2):
        for l in ls:
            for j2 in range(abs(2 * l - s2), 2 * l + s2 + 1, 2):
                for m2 in range(-j2, j2 + 1, 2): yield s2, l, j2, m2

def pairs():
    a = list(states(range(5)))
    for x in a:
        for y in a:
            if x[0] == y[0] and abs(x[1] - y[1]) <= 4 and abs(x[2] - y[2]) <= 10 and abs(x[3] - y[3]) <= 10: yield x, y
    b = [x for x in states((9, 10, 11, 12)) if abs(x[3]) <= 3 or abs(x[3]) >= x[2] - 2]
    for x in b:
        for y in b:
            if x[0] == y[0] and (x[1] in (9, 10)) and abs(x[3] - y[3]) <= 8: yield x, y

def nonzero_multipole(x, y, k, q):
    s2, l1, j1, m1 = x; _, l2, j2, m2 = y
    return m1 - m2 == 2 * q and tj(j1, 2 * k, j2, -m1, 2 * q, m2) and sixj(2 * l1, j1, s2, j2, 2 * l2, 2 * k) != 0 and tj(2 * l1, 2 * k, 2 * l2, 0, 0, 0)
def forbidden_multipole(x, y, k, q):
    s2, l1, j1, m1 = x; _, l2, j2, m2 = y
    return m1 - m2 != 2 * q or abs(q) > k or abs(j1 - j2) > 2 * k or j1 + j2 < 2 * k or abs(l1 - l2) > k or (l1 + l2 + k) % 2
def nonzero_momentum(x, y, q):
    s2, l1, j1, m1 = x; _, l2, j2, m2 = y
    return l1 == l2 and m1 - m2 == 2 * q and tj(j1, 2, j2, -m1, 2 * q, m2) and (sixj(2 * l1, j1, s2, j2, 2 * l2, 2) != 0 and l1 > 0 or sixj(s2, j1, 2 * l1, j2, s2, 2) != 0 and s2 > 0)
def forbidden_momentum(x, y, q):
    s2, l1, j1, m1 = x; _, l2, j2, m2 = y
    return l1 != l2 or m1 - m2 != 2 * q or abs(q) > 1 or abs(j1 - j2) > 2

def run(rep):
    prog = Program(all_tus())
    rules = []
    for f in prog.fns.values():
        n = len(f["p"])
        if f.get("body") and re.match(r"selectionRules(Momentum|Multipole)", f["fn"].split("::")[-1]) and n >= 2:
            mom = "Momentum" in f["fn"]
            rules.append((f, mom, n - 2 - (0 if mom else 1)))
    if len(rules) < 8: raise AnalysisError(f"anchor vanished: {len(rules)} selection rules")
    P = list(pairs())
    rep.count("pairs of states", len(P))
    def show(x): return f"(l={x[1]}, j={x[2] / 2:g}, m={x[3] / 2:g}, s={x[0] / 2:g})"
    for f, mom, withq in rules:
        rep.count("rules")
        r, nx = rule(prog, f, mom)
        if nx != (0 if mom else 1) + withq: raise AnalysisError(f"{loc(f)}: parameters not understood")
        bad = None; n = 0
        for x, y in P:
            A = (x[1], x[2] / 2, x[3] / 2, x[0] / 2, y[1], y[2] / 2, y[3] / 2, y[0] / 2)
            for k in ((1,) if mom else range(4)):
                head = A if mom else A + (k,)
                qs = range(-k - 1, k + 2) if withq else (None,)
                for q in qs:
                    n += 1
                    got = r(*head, q) if withq else r(*head)
                    if got == "undecided": raise AnalysisError(f"{loc(f)}: no path decided for {show(x)}, {show(y)}")
                    need = [qq for qq in (range(-k, k + 1) if q is None else (q,)) if (nonzero_momentum(x, y, qq) if mom else nonzero_multipole(x, y, k, qq))]
                    allow = [qq for qq in (range(-k, k + 1) if q is None else (q,)) if not (forbidden_momentum(x, y, qq) if mom else forbidden_multipole(x, y, k, qq))]
                    w = f"{show(x)}, {show(y)}" + ("" if mom else f" order {k}") + ("" if q is None else f" q={q}")
                    if got == "throws": bad = f"throws for {w}"
                    elif need and not got: bad = f"excludes {w} although the matrix element is not zero"
                    elif got and not allow: bad = f"admits {w}, which the conservation laws forbid"
                    if bad: break
                if bad: break
            if bad: break
        rep.count("comparisons", n)
        rep.check(not bad, f["fn"] + str(len(f["p"])), f"{loc(f)}: {f['fn']} ({'with' if withq else 'without'} m): {n} decisions, every non-zero element admitted, nothing forbidden admitted", f"{loc(f)}: {f['fn']} {bad}")
    # the rule without m admits exactly what some m admits
    for (f, mom, withq), (g, mom2, withq2) in itertools.product(rules, rules):
        if withq or not withq2 or mom != mom2 or f["p"][0]["t"] != g["p"][0]["t"]: continue
        r, _ = rule(prog, f, mom); s, _ = rule(prog, g, mom)
        bad = None; n = 0
        for x, y in P:
            A = (x[1], x[2] / 2, x[3] / 2, x[0] / 2, y[1], y[2] / 2, y[3] / 2, y[0] / 2)
            for k in ((1,) if mom else range(4)):
                h = A if mom else A + (k,)
                n += 1
                if bool(r(*h)) != any(s(*h, q) for q in range(-k, k + 1)):
                    bad = f"{show(x)}, {show(y)}" + ("" if mom else f" order {k}"); break
            if bad: break
        rep.count("comparisons", n)
        rep.check(not bad, "sibling:" + f["fn"], f"{loc(f)}: the rule without m agrees with the rules for each m", f"{loc(f)}: {f['fn']} without m and with each m disagree for {bad}")
