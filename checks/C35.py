"""For every angular momentum up to 7/2 and every pair of projections (and some with larger angular momenta) the
coefficient functions are evaluated abstractly to a formula in the angles, together with the condition each
path is taken under; the formulas are compared with Wigner's closed form of d and
D = exp(-i m alpha) d(beta) exp(-i m' gamma) at generic angles and at and around those treated specially."""
from core import *
from facts import *
from smallmat import *
FLOORS = {"matrix elements": 200, "comparisons": 2000}
AL, BE, GA = (("sym", ("angle", x)) for x in ("alpha", "beta", "gamma"))

def d(j, m, mp, b):
    F = math.factorial
    s = 0.0
    I = lambda x: int(round(x))
    for k in range(I(2 * j) + 1):
        a = [I(j + mp - k), k, I(m - mp + k), I(j - m - k)]
        if min(a) < 0: continue
        den = 1
        for x in a: den *= F(x)
        s += (-1) ** (I(m - mp) + k) * math.cos(b / 2) ** (I(2 * j + mp - m) - 2 * k) * math.sin(b / 2) ** (I(m - mp) + 2 * k) / den
    return s * math.sqrt(F(I(j + m)) * F(I(j - m)) * F(I(j + mp)) * F(I(j - mp)))

H = math.pi / 2
BETAS = [0.7, -1.3, 2.9, 0.0, math.pi, H, -H, H + 1e-9, H - 1e-6, H + 1e-3, H - 0.04, 3 * H, 4.4]

def run(rep):
    prog = Program(all_tus())
    fs = [f for f in prog.need("WignerD::operator()") if f.get("body")]
    small = next((f for f in fs if len(f["p"]) == 4), None)
    full = next((f for f in fs if len(f["p"]) == 6), None)
    if not small or not full: raise AnalysisError("anchor vanished: WignerD::operator()")
    ev = SmallMat(prog)
    cases = [(j2 / 2, m2 / 2, p2 / 2) for j2 in range(8) for m2 in range(-j2, j2 + 1, 2) for p2 in range(-j2, j2 + 1, 2)]
    cases += [(9.5, 0.5, -6.5), (9.5, -9.5, 9.5), (12.0, 3.0, -5.0), (12.0, 0.0, 0.0), (15.5, -2.5, 1.5)]
    for j, m, mp in cases:
        rep.count("matrix elements")
        judge(rep, ev, small, (j, m, mp), [BE], [(0, b, 0) for b in BETAS], "d")
        if j <= 2.5: judge(rep, ev, full, (j, m, mp), [AL, BE, GA], [(0.4, 1.1, -2.3), (-1.9, H, 0.8), (2.2, -0.6, 3.1), (0.3, 0.0, 0.9), (1.4, 2.5, 0.0)], "D")

def judge(rep, ev, f, q, angles, points, name):
    outs = ev.run(f, {}, ("this",), [("v", float(x)) for x in q] + [("v", a) for a in angles])
    if not outs: raise AnalysisError(f"{loc(f)}: not understood")
    for al, be, ga in points:
        rep.count("comparisons")
        env = lambda t: {AL: al, BE: be, GA: ga}.get(t)
        on = [o for o in outs if applies(o[2], env) is not False]
        want = d(*q, be) * cmath.exp(-1j * (q[1] * al + q[2] * ga))
        at = f"(beta={be:.9g})" if name == "d" else f"(alpha={al:g}, beta={be:.6g}, gamma={ga:g})"
        for o in on:
            try: got = cval(o[1], env) if o[0] == "ret" else None
            except KeyError as e: raise AnalysisError(f"{loc(f)}: result for j={q[0]} m={q[1]} m'={q[2]} not understood: {e}")
            except (ValueError, ZeroDivisionError, OverflowError, TypeError): got = None
            rep.check(got is not None and cclose(complex(got), want, 1e-8, 1e-3), f"{name}", f"{loc(f)}: {name}(j={q[0]}, m={q[1]}, m'={q[2]}) at {at} is Wigner's", f"{loc(f)}: {name}(j={q[0]}, m={q[1]}, m'={q[2]}) {at} is {got}, Wigner's formula gives {want:.9g}")
