"""Abstract evaluation of code on small Eigen matrices and tensors of known size: every element is a
formula, loops over known bounds run as they are, so a result is one formula per element."""
from absev import *
import itertools

def A(op, *a):
    """a term, with the trivial simplifications"""
    num = lambda x: type(x) in (int, float, bool)
    if op in ("+", "-", "*", "/") and len(a) == 2:
        x, y = a
        if num(x) and num(y) and not (op == "/" and y == 0):
            return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[op]()
        if op == "+" and num(x) and x == 0: return y
        if op in "+-" and num(y) and y == 0: return x
        if op == "*" and (num(x) and x == 0 or num(y) and y == 0): return 0.0
        if op == "*" and num(x) and x == 1: return y
        if op in "*/" and num(y) and y == 1: return x
        if op == "/" and num(x) and x == 0: return 0.0
    if op == "neg" and num(a[0]): return -a[0]
    return ("app", op) + tuple(hashable(x) for x in a)

class T:
    """helper view of ("mat", dims, elements)"""
    @staticmethod
    def make(dims, f): return ("mat", tuple(dims), tuple(hashable(f(*i)) for i in itertools.product(*map(range, dims))))
    @staticmethod
    def off(dims, i):
        o = 0
        for d, x in zip(dims, i):
            if not (type(x) is int and 0 <= x < d): return None
            o = o * d + x
        return o
def ismat(v): return type(v) is tuple and v[:1] == ("mat",)

def dims_of(t):
    """dimensions of a fixed-size type as the compiler prints it"""
    t = t.replace("const ", "").strip("& ")
    m = re.match(r"Eigen::Matrix<[^<>]*(?:<[^<>]*>)?\s*, (\d+), (\d+)\b", t)
    if m: return (int(m[1]), int(m[2]))
    m = re.match(r"Eigen::(?:Matrix|Vector)(\d)(<double>|d)$", t)
    if m: return (int(m[1]), int(m[1])) if "Matrix" in t else (int(m[1]), 1)
    m = re.match(r"Eigen::TensorFixedSize<[^<>]*, Eigen::Sizes<([\d, L]+)>", t)
    if m: return tuple(int(x.strip("L ")) for x in m[1].split(","))
    return None

import math, cmath
FOLD = {"std::fmax": max, "std::fmin": min, "fmax": max, "fmin": min, "std::fabs": abs, "fabs": abs, "std::pow": math.pow, "std::min": min, "std::max": max, "std::abs": abs, "std::sqrt": math.sqrt, "std::exp": math.exp, "std::log": math.log, "std::sin": math.sin,
        "std::cos": math.cos, "std::tan": math.tan, "std::hypot": math.hypot, "std::floor": lambda x: float(math.floor(x)), "std::ceil": lambda x: float(math.ceil(x)), "std::round": lambda x: float(math.floor(x + .5)),
        "std::tgamma": math.gamma, "std::lround": lambda x: int(math.floor(x + .5)), "std::atan": math.atan, "std::atan2": math.atan2, "std::lgamma": math.lgamma,
        "std::fmod": math.fmod, "std::trunc": lambda x: float(math.trunc(x)), "std::asin": math.asin, "std::acos": math.acos, "std::cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x),
        "boost::math::binomial_coefficient": lambda n, k: float(math.comb(int(n), int(k))), "boost::math::factorial": lambda n: float(math.factorial(int(n)))}
CFOLD = {"std::sqrt": cmath.sqrt, "std::exp": cmath.exp, "std::abs": abs, "std::sin": cmath.sin, "std::cos": cmath.cos, "std::real": lambda z: z.real, "std::imag": lambda z: z.imag, "std::conj": lambda z: complex(z).conjugate(),
         "std::norm": lambda z: abs(z) ** 2, "std::arg": lambda z: cmath.phase(z), "std::polar": lambda r, t=0: cmath.rect(r, t), "std::pow": lambda a, b: complex(a) ** b, "cplx": complex}
for _d in (FOLD, CFOLD):
    for _k in [k for k in _d if k.startswith("std::")]: _d.setdefault(_k[5:], _d[_k])
NUM = (int, float, bool)

def cval(e, env):
    """value of a formula at a point (complex where needed); what is not known is an error"""
    if type(e) in NUM + (complex,): return e
    x = env(e)
    if x is not None: return cval(x, env) if type(x) is tuple else x
    if type(e) is tuple and e and e[0] == "app":
        op, a = e[1], [cval(x, env) for x in e[2:] if x is not None]
        if op in ("+", "-", "*", "/") and len(a) == 2:
            return a[0] + a[1] if op == "+" else a[0] - a[1] if op == "-" else a[0] * a[1] if op == "*" else a[0] / a[1]
        if op == "neg": return -a[0]
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return {"==": a[0] == a[1], "!=": a[0] != a[1], "<": lambda: a[0] < a[1]}.get(op) if op in ("==", "!=") else (a[0] < a[1] if op == "<" else a[0] > a[1] if op == ">" else a[0] <= a[1] if op == "<=" else a[0] >= a[1])
        if not any(type(x) is complex for x in a) and op in FOLD: return FOLD[op](*a)
        if op in CFOLD: return CFOLD[op](*a)
        if op.startswith("opaque:"):     # some smooth function of its arguments
            return 3 + sum(math.sin((1 + h(op, i) / PRIME) * x + h(op, i, "p") / PRIME) for i, x in enumerate(a))
    raise KeyError(show(e)[:80])

def applies(st, env):
    """does this path apply at the point (None: a condition is not understood)"""
    for k, b in st.items():
        if type(k) is tuple and k and k[0] == "D":
            try:
                if bool(cval(k[1], env)) != b: return False
            except (KeyError, ValueError, ZeroDivisionError, OverflowError, TypeError):
                return None
    return True

def cclose(a, b, tol=1e-9, floor=1e-12):
    return a == a and b == b and abs(a - b) <= tol * max(floor, abs(a), abs(b))

class SmallMat(AbsEval):
    generic_index = False
    max_iter = 200
    types = {}
    def inline(self, f, n):
        return super().inline(f, n)
    def rv(self, n, st, fr, outs):
        r = super().rv(n, st, fr, outs)
        if n is not None and n.get("k") == "Cast" and n.get("ck") == "FloatingToIntegral":
            r = [(int(v) if type(v) is float and v == v and abs(v) < 1e18 else v, s) for v, s in r]
        return r
    def symbolic(self, op, a, b, st):
        big = 1.7e308
        for x, y in ((a, b), (b, a)):
            if type(x) is float and abs(x) > big and type(y) is tuple and op in ("==", "!="):
                return op == "!="            # no physical quantity is the largest number
        if a != UNK and b != UNK and op in "+-*/":
            return A(op, a, b)
        return super().symbolic(op, a, b, st)
    def truth(self, n, st, fr, outs):
        """undecided conditions are kept with the path, so that a path can be told to apply at a point or not"""
        r = []
        for v, s in self.rv(n, st, fr, outs):
            t = self.asbool(v)
            neg = False
            w = v
            while type(w) is tuple and w[:1] == ("not",): w, neg = w[1], not neg
            if t is not None: r.append((t, s)); continue
            k = ("D", w if w != UNK else ("unk", self.here(n, fr)))
            for b in ((s[k],) if k in s else (True, False)):
                s2 = dict(s); s2[k] = b
                r.append((b != neg, s2))
        return r
    # elements live in their matrix
    def put(self, st, loc, v):
        if loc and type(loc[-1]) is tuple and loc[-1][:1] == ("at",):
            m = self.value_of(st, loc[:-1])
            if ismat(m):
                o = T.off(m[1], loc[-1][1:])
                if o is not None:
                    return super().put(st, loc[:-1], m[:2] + (m[2][:o] + (hashable(v),) + m[2][o + 1:],))
            return super().put(st, loc[:-1], UNK)
        return super().put(st, loc, v)
    def load_default(self, loc, st, n):
        if loc and type(loc[-1]) is tuple and loc[-1][:1] == ("at",):
            m = self.value_of(st, loc[:-1])
            if ismat(m):
                o = T.off(m[1], loc[-1][1:])
                if o is not None: return m[2][o]
            return UNK
        return super().load_default(loc, st, n)
    def decl(self, v, st, fr, outs):
        d = dims_of(v.get("ct") or v["t"]) or dims_of(v["t"])
        if d and not isref(v["t"]):
            loc = ("L", fr.uid, v["i"])
            i = strip_casts(v.get("init") or {"k": "Ctor", "a": []})
            if i.get("k") == "Ctor" and not i["a"]:
                return [self.put(st, loc, T.make(d, lambda *x: ("uninit",)))]
            r = []
            for x, s in self.rv(v["init"], st, fr, outs):
                r.append(self.put(s, loc, self.shape(x, d)))
            return r
        return super().decl(v, st, fr, outs)
    def shape(self, x, d):
        if type(x) is tuple and x[:1] == ("tuple",):
            n = 1
            for k in d: n *= k
            if len(x) - 1 == n: return ("mat", d, tuple(hashable(y) for y in x[1:]))
            return UNK
        return x
    def elementwise(self, op, a, b):
        if ismat(a) and ismat(b):
            if a[1] != b[1]: return UNK
            return ("mat", a[1], tuple(A(op, x, y) for x, y in zip(a[2], b[2])))
        if ismat(a): return ("mat", a[1], tuple(A(op, x, b) for x in a[2]))
        return ("mat", b[1], tuple(A(op, a, x) for x in b[2]))
    def matop(self, op, a, b):
        if op == "*" and ismat(a) and ismat(b):
            if len(a[1]) != 2 or len(b[1]) != 2 or a[1][1] != b[1][0]: return UNK
            def el(i, j):
                r = 0
                for k in range(a[1][1]):
                    r = A("+", r, A("*", a[2][i * a[1][1] + k], b[2][k * b[1][1] + j]))
                return r
            m = T.make((a[1][0], b[1][1]), el)
            return m
        return self.elementwise(op, a, b)
    def sqn(self, m):
        r = 0
        for x in m[2]: r = A("+", r, A("*", x, x))
        return r
    def prim(self, n, name, ol, args, st, fr):
        k, sh = n["k"], short(name)
        ov = self.value_of(st, ol) if ol is not None else None
        vs = [self.val(a, st) for a in args]
        r = self.numeric(n, name, sh, ol, ov, vs, args, st)
        if r is not None: return r
        eig = "Eigen::" in name or ismat(ov) or any(ismat(v) for v in vs)
        if "comma" in str(ov)[:8] and sh == "finished": return [(ov[1], st)]
        if k == "OpCall":
            op = n["op"]
            tgt = ol if ol is not None else (args[0][1] if args and args[0][0] == "l" else None)
            allv = ([ov] if ol is not None else []) + vs
            if op == "<<" and ismat(allv[0]) and tgt is not None:
                s = self.put(st, tgt, ("mat", allv[0][1], (hashable(allv[1]),) + allv[0][2][1:]))
                return [(("comma", tgt, 1), s)]
            if op == "," and type(allv[0]) is tuple and allv[0][:1] == ("comma",):
                _, t, i = allv[0]; m = self.value_of(st, t)
                if i >= len(m[2]): return [(UNK, self.put(st, t, UNK))]
                s = self.put(st, t, ("mat", m[1], m[2][:i] + (hashable(allv[1]),) + m[2][i + 1:]))
                return [(("comma", t, i + 1), s)]
            if op in ("()", "[]") and ismat(ov):
                ix = tuple(vs)
                if len(ix) == 1 and len(ov[1]) == 2: ix = (ix[0], 0) if ov[1][1] == 1 else (0, ix[0])
                if T.off(ov[1], ix) is None: return [(UNK, st)]
                return [(("ref", ol + (("at",) + ix,)), st)]
            if op in ("+=", "-=", "*=", "/=") and len(allv) == 2 and eig and tgt is not None:
                v = self.matop(op[0], *allv) if ismat(allv[0]) or ismat(allv[1]) else UNK
                return [(("ref", tgt), self.put(st, tgt, v))]
            if op in ("+", "-", "*", "/") and eig:
                if len(allv) == 1:
                    return [(self.elementwise("*", -1, allv[0]) if op == "-" and ismat(allv[0]) else UNK, st)]
                return [(UNK if UNK in allv else self.matop(op, *allv) if ismat(allv[0]) or ismat(allv[1]) else UNK, st)]
            if op == "=" and ismat(vs[0]) and ol is not None:
                return [(("ref", ol), self.put(st, ol, vs[0]))]
        if k == "Ctor" and n.get("t") and dims_of(n["t"]) and not (n.get("copy") or n.get("move")):
            d = dims_of(n["t"])
            if not vs: return [(T.make(d, lambda *x: ("uninit",)), st)]
            if len(vs) == 1 and ismat(vs[0]): return [(vs[0], st)]
            if len(vs) == 1 and type(vs[0]) is tuple and vs[0][:1] == ("tuple",): return [(self.shape(vs[0], d), st)]
            if len(vs) > 1: return [(self.shape(("tuple",) + tuple(vs), d), st)]
        if k in ("MCall", "Call") and eig:
            if sh in ("Identity", "Zero", "Ones", "Constant"):
                if len(vs) >= 2 and all(type(v) in NUM for v in vs[:2]): d = tuple(int(v) for v in vs[:2])
                else: d = dims_of(re.sub(r"^.*?(Eigen::Matrix<.*)$", r"\1", n.get("t", "").replace("PlainObject", "")))  or self.nulldims(n)
                if d is None: return [(UNK, st)]
                f = {"Identity": lambda i, j: 1 if i == j else 0, "Zero": lambda *x: 0, "Ones": lambda *x: 1}.get(sh)
                return [(T.make(d, f) if f else UNK, st)]
            if sh in ("resize", "conservativeResize") and ol is not None and all(type(v) in NUM for v in vs) and 1 <= len(vs) <= 2:
                d = tuple(int(v) for v in vs) if len(vs) == 2 else (int(vs[0]), 1)
                return [(None, self.put(st, ol, T.make(d, lambda *x: ("uninit",))))]
            if ismat(ov) or sh.startswith("set"):
                d = ov[1] if ismat(ov) else None
                if sh in ("setZero", "setOnes", "setConstant", "fill") and d:
                    c = 0 if sh == "setZero" else 1 if sh == "setOnes" else vs[0]
                    return [(("ref", ol), self.put(st, ol, T.make(d, lambda *x: c)))]
                if sh == "setIdentity" and d: return [(("ref", ol), self.put(st, ol, T.make(d, lambda i, j: int(i == j))))]
                if sh in ("transpose", "adjoint") and d and len(d) == 2:
                    return [(T.make((d[1], d[0]), lambda i, j: ov[2][j * d[1] + i]), st)]
                if sh in ("norm", "squaredNorm", "stableNorm"):
                    q = self.sqn(ov); return [(q if sh == "squaredNorm" else A("std::sqrt", q), st)]
                if sh in ("coeff", "coeffRef") and T.off(d, tuple(vs)) is not None:
                    return [(("ref", ol + (("at",) + tuple(vs),)), st)]
                if sh in ("x", "y", "z", "w") and len(d) == 2 and 1 in d:
                    i = "xyzw".index(sh); return [(("ref", ol + (("at", i, 0) if d[1] == 1 else ("at", 0, i),)), st)]
                if sh == "asDiagonal": return [(T.make((len(ov[2]),) * 2, lambda i, j: ov[2][i] if i == j else 0), st)]
                if sh in ("toDenseMatrix", "eval", "matrix", "array", "derived", "conjugate", "real"): return [(ov, st)]
                if sh == "dot" and len(vs) == 1 and ismat(vs[0]) and len(vs[0][2]) == len(ov[2]):
                    r = 0
                    for x, y in zip(ov[2], vs[0][2]): r = A("+", r, A("*", x, y))
                    return [(r, st)]
                if sh in ("cwiseProduct", "cwiseQuotient"): return [(self.elementwise("*" if "Pro" in sh else "/", ov, vs[0]), st)]
                if sh in ("rows", "cols", "size"): return [(d[0] if sh == "rows" else d[1] if sh == "cols" else len(ov[2]), st)]
                if sh in ("col", "row") and type(vs[0]) is int and len(d) == 2:
                    c = vs[0]
                    return [(T.make((d[0], 1), lambda i, j: ov[2][i * d[1] + c]) if sh == "col" else T.make((1, d[1]), lambda i, j: ov[2][c * d[1] + j]), st)]
                if sh == "sum":
                    r = 0
                    for x in ov[2]: r = A("+", r, x)
                    return [(r, st)]
                if sh == "trace":
                    r = 0
                    for i in range(d[0]): r = A("+", r, ov[2][i * d[1] + i])
                    return [(r, st)]
        if name in ("std::sqrt", "sqrt") and len(vs) == 1 and vs[0] != UNK: return [(A("std::sqrt", vs[0]), st)]
        return super().prim(n, name, ol, args, st, fr)
    def numeric(self, n, name, sh, ol, ov, vs, args, st):
        k = n["k"]
        foreign = "u" not in n or n["u"] not in self.prog.fns
        if not foreign: return None
        if k == "Call":
            nm = name if "::" in name else "std::" + name
            nm = {"std::fabs": "std::abs"}.get(nm, nm)
            vs = [v for v, (kind, _) in zip(vs, args) if v != UNK or kind == "v"]
            if nm in FOLD and vs and UNK not in vs:
                if nm.startswith("boost"): vs = vs[:2 if "binom" in nm else 1]
                if all(type(v) in NUM for v in vs):
                    try: return [(FOLD[nm](*vs), st)]
                    except (ValueError, OverflowError, ZeroDivisionError): return [(float("nan"), st)]
                return [(A(nm, *vs), st)]
            if nm in CFOLD and vs and UNK not in vs: return [(A(nm, *vs), st)]
            if name in self.opaque and UNK not in vs: return [(A("opaque:" + name, *vs), st)]
        cx = "complex<" in n.get("t", "") or "complex" in name
        if cx and k == "Ctor" and UNK not in vs:
            if len(vs) == 2: return [(A("cplx", *vs), st)]
            if len(vs) == 1: return [(vs[0], st)]
            if not vs: return [(0, st)]
        if cx and k == "OpCall":
            op = n["op"]
            tgt = ol if ol is not None else (args[0][1] if args and args[0][0] == "l" else None)
            allv = ([ov] if ol is not None else []) + vs
            if UNK in allv: return None
            if op in ("+=", "-=", "*=", "/=") and len(allv) == 2 and tgt is not None:
                return [(("ref", tgt), self.put(st, tgt, A(op[0], *allv)))]
            if op in ("+", "-", "*", "/") and len(allv) == 2: return [(A(op, *allv), st)]
            if op == "-" and len(allv) == 1: return [(A("neg", allv[0]), st)]
            if op == "=" and tgt is not None: return [(("ref", tgt), self.put(st, tgt, allv[1]))]
        if cx and k == "MCall" and sh in ("real", "imag") and not vs and ov != UNK: return [(A("std::" + sh, ov), st)]
        if ol is not None and type(ov) is tuple and ov[:1] == ("str",) and sh in ("back", "front", "size", "length", "empty"):
            t = ov[1]
            return [({"back": lambda: ord(t[-1]), "front": lambda: ord(t[0]), "size": lambda: len(t), "length": lambda: len(t), "empty": lambda: not t}[sh](), st)]
        if sh == "isdigit" and vs and type(vs[0]) is int: return [(int(48 <= vs[0] <= 57), st)]
        return None
    opaque = ()
    def nulldims(self, n):
        m = re.search(r"Eigen::Matrix<[^<>]*, (\d+), (\d+)", n.get("t", ""))
        return (int(m[1]), int(m[2])) if m else None
