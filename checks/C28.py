"""The tensors are evaluated to one formula per element (engine/smallmat.py) and compared, at generic points,
with the field of a dipole plus that of its mirror image and with the derivatives of these (complex-step,
hence exact). Not the helper functions are compared but what the getters hand out: after every sequence of up
to four getter calls, accepted and refused surfaces, evaluated abstractly from the constructor on, every
getter must deliver the tensor for the separation and the surface accepted last."""
from core import *
from facts import *
from smallmat import *
import itertools
FLOORS = {"histories": 200, "elements compared": 150}
G = "GreenTensor::"
S = lambda n: ("sym", ("in", n))
GET = {"DD": G + "getDDTensor", "DQ": G + "getDQTensor", "QD": G + "getQDTensor"}

# the field at r (second to first atom) of a unit dipole, and of its image in the plane whose distance from the
# atoms adds up to zp; ixs[j] component of the dipole, ixs[i] of the field
def free(i, j, r):
    q = sum(c * c for c in r)
    return 3 * r[i] * r[j] / q**2.5 - (i == j) / q**1.5
def image(i, j, r, zp):
    m = (r[0], r[1], zp)
    sgn = 1 if j == 2 else -1
    q = sum(c * c for c in m)
    return sgn * (3 * m[i] * m[j] / q**2.5 - (i == j) / q**1.5)
def deriv(f, i, j, k, r, zp, who):
    """derivative of component (i, j) with respect to coordinate k of the first (+1) or second (-1) atom"""
    h = 1e-25j
    r2 = [complex(c) for c in r]; r2[k] += who * h
    z2 = zp
    if zp is not None and k == 2: z2 = zp + h
    return (f(i, j, r2) if zp is None else f(i, j, r2, z2)).imag / 1e-25
def oracle(which, ix, r, zp):
    if which == "DD":
        i, j = ix
        return free(i, j, r) + (image(i, j, r, zp) if zp is not None else 0)
    if which == "DQ": (i, j, k), who = ix, -1        # quadrupole of the second atom: gradient index last
    else: (k, i, j), who = ix, 1                     # quadrupole of the first atom: gradient index first
    v = deriv(free, i, j, k, r, None, who)
    if zp is not None: v += deriv(image, i, j, k, r, zp, who)
    return v

POINTS = [dict(x=1.31, y=-0.73, z=2.17, d1=4.19, d2=6.61), dict(x=-2.27, y=1.13, z=0.59, d1=3.83, d2=5.29), dict(x=0.47, y=2.03, z=-1.71, d1=7.01, d2=3.37)]

class Ev(SmallMat):
    def asbool(self, v):
        if type(v) is tuple and v[:1] == ("app",) and v[1] in ("<", ">", "<=", ">=", "==", "!=") and not leaves(v):
            try:
                a, b = numval(v[2], "", {}), numval(v[3], "", {})
                return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[v[1]]
            except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                return None
        return super().asbool(v)

def keep(st):
    return {k: v for k, v in st.items() if type(k) is tuple and k[:1] == ("this",)}

def run(rep):
    prog = Program(all_tus())
    ctor = next((f for f in prog.need(G + "GreenTensor") if f.get("body") is not None and len(f["p"]) == 3), None)
    if ctor is None: raise AnalysisError("anchor vanished: constructor of GreenTensor")
    fn = {w: next(f for f in prog.need(q) if f.get("body")) for w, q in GET.items()}
    add = next(f for f in prog.need(G + "addSurface") if f.get("body"))
    rep.count("functions", 2 + len(fn))
    ev = Ev(prog)
    # surfaces that must be refused: the atoms do not have the same y
    for y in (1.0, -0.5):
        st0 = keep(ev.run(ctor, {}, ("this",), [("v", 1.5), ("v", y), ("v", 2.0)])[0][2])
        outs = ev.run(add, st0, ("this",), [("v", 7.0)])
        rep.count("refusals")
        rep.check(bool(outs) and all(o[0] == "throw" for o in outs), "refuse:y", f"{loc(add)}: a surface is refused unless the atoms are in the xz-plane", f"{loc(add)}: a surface is accepted for atoms outside the xz-plane, where the mirror field is not that of the tensor")
    start = [o for o in ev.run(ctor, {}, ("this",), [("v", S("x")), ("v", S("y")), ("v", S("z"))]) if o[0] == "ret"]
    if not start: raise AnalysisError(f"{loc(ctor)}: the constructor was not understood")
    ops = ["DD", "DQ", "QD", "d1", "d2"]
    memo, judged = {}, {}
    def step(key, st, op):
        k = (key, op)
        if k not in memo:
            r = []
            if op in GET:
                for o in ev.run(fn[op], st, ("this",), []):
                    v = ev.value_of(o[2], o[1][1]) if type(o[1]) is tuple and o[1][:1] == ("ref",) else o[1]
                    r.append((o[0], v, keep(o[2])))
            else:
                for o in ev.run(add, st, ("this",), [("v", S(op))]):
                    r.append((o[0], None, keep(o[2])))
            memo[k] = r
        return memo[k]
    def judge(which, v, surf):
        k = (which, v, surf)
        if k not in judged:
            judged[k] = None
            n = 2 if which == "DD" else 3
            if not ismat(v) or v[1] != (3,) * n: judged[k] = f"is not a {n}-index tensor but {show(v)[:100]}"
            else:
                for ix, e in zip(itertools.product(range(3), repeat=n), v[2]):
                    rep.count("elements compared")
                    for p in POINTS:
                        r = [p["x"], 0.0 if surf else p["y"], p["z"]]
                        want = oracle(which, ix, r, 2 * p[surf] if surf else None)
                        env = lambda q: {S("x"): r[0], S("y"): r[1], S("z"): r[2], S("d1"): p["d1"], S("d2"): p["d2"]}.get(q)
                        try: got = numval(e, "p", env)
                        except (ValueError, ZeroDivisionError, OverflowError, TypeError): got = float("nan")
                        if not abs(got - want) <= 1e-9 * (abs(want) + 1e-3):
                            judged[k] = f"has element {ix} = {show(e)[:300]} (at {'x=%g y=%g z=%g' % tuple(r)}: {got:.9g}, expected {want:.9g})"; break
                    if judged[k]: break
        return judged[k]
    front = [((), None, keep(o[2])) for o in start]
    bad = set()
    for depth in range(4):
        nxt, seen = [], set()
        for hist, surf, st in front:
            key = frozenset(st.items())
            for op in ops:
                rep.count("histories")
                res = step(key, st, op)
                if not res: raise AnalysisError(f"{loc(fn.get(op, add))}: not understood")
                for kind, v, s2 in res:
                    if op in GET:
                        if kind != "ret": continue
                        w = judge(op, v, surf)
                        how = "on " + (f"a surface at {surf}" if surf else "no surface")
                        if w and (op, surf) not in bad:
                            bad.add((op, surf))
                            rep.bad(f"tensor:{op}:{'surface' if surf else 'free'}", f"{loc(fn[op])}: after {' '.join(hist) or 'construction'}, {short(GET[op])} ({how}) {w}")
                        elif not w: rep.ok(f"{loc(fn[op])}: after {' '.join(hist) or 'construction'}, {op} is right ({how})")
                        ns = surf
                    else:
                        ns = op if kind == "ret" else surf
                    k2 = (frozenset(s2.items()), ns)
                    if k2 not in seen:
                        seen.add(k2); nxt.append((hist + (op + ("" if kind == "ret" else "(refused)"),), ns, s2))
        front = nxt
