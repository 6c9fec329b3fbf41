"""Symbolic values of straight-line arithmetic, and a canonical comparison of two such expressions:
both are evaluated as rational functions over a prime field at fixed pseudo-random points
(polynomial identity test); functions the field does not have are opaque atoms of their arguments."""
from sqltext import *
from fractions import Fraction
import hashlib

PURE = {"std::pow", "pow", "std::min", "std::max", "std::abs", "std::fabs", "fabs", "abs", "std::sqrt", "sqrt", "std::exp", "exp", "std::log", "log",
        "std::round", "std::floor", "std::ceil", "std::lround", "std::hypot", "std::sin", "std::cos", "std::tan", "sin", "cos", "tan", "std::tgamma", "std::conj", "std::real", "std::imag", "std::norm"}

class SymEval(SqlText):
    def symbolic(self, op, a, b, st):
        if a == UNK or b == UNK:
            return None
        if op in ("==", "!=", "<", ">", "<=", ">=") and a == b:
            return op in ("==", "<=", ">=")
        return ("app", op, hashable(a), hashable(b))
    def st(self, n, st, fr):
        if n is not None and n["k"] == "For" and not n.get("#h") and n.get("init") and n.get("c") and not n.get("#x"):
            # loops over known bounds are evaluated as they are
            m = dict(n); m["#h"] = True
            try:
                c = strip_casts(n["c"])
                if c.get("k") == "Bin" and strip_casts(c["y"]).get("k") in ("Int", "Flt"):
                    return FEval.st(self, m, st, fr)
            except Limit:
                pass
        return super().st(n, st, fr)
    def rv(self, n, st, fr, outs):
        if n is not None and n.get("k") == "Un" and n["op"] in ("-", "+"):
            r = []
            for v, s in self.rv(n["e"], st, fr, outs):
                if type(v) in (int, float, bool):
                    r.append((-v if n["op"] == "-" else v, s))
                elif v == UNK:
                    r.append((UNK, s))
                else:
                    r.append((("app", "neg", hashable(v)) if n["op"] == "-" else v, s))
            return r
        return super().rv(n, st, fr, outs)
    def prim(self, n, name, ol, args, st, fr):
        if name in PURE and n["k"] == "Call":
            vs = [self.val(a, st) for a in args]
            if UNK in vs:
                return [(UNK, st)]
            nm = name if name.startswith("std::") else "std::" + name
            return [(("app", nm.replace("fabs", "abs")) + tuple(hashable(v) for v in vs), st)]
        if n["k"] == "OpCall" and n["op"] == "=" and ol is not None and args and n.get("u") in self.prog.fns:
            f = self.prog.fns[n["u"]]
            if f.get("impl") or f.get("defaulted"):
                v = args[0][1] if args[0][0] == "v" else self.value_of(st, args[0][1])
                return [(("ref", ol), self.put(st, ol, v))]
        if n["k"] == "OpCall" and n["op"] in ("==", "!=", "<", ">") and "u" not in n:
            vs = ([self.value_of(st, ol)] if ol is not None else []) + [self.val(a, st) for a in args]
            if len(vs) == 2 and UNK not in vs:
                if vs[0] == vs[1]:
                    return [(n["op"] == "==", st)]
                return [(("app", n["op"], hashable(vs[0]), hashable(vs[1])), st)]
        return super().prim(n, name, ol, args, st, fr)

PRIME = (1 << 127) - 1
class NotField(Exception):
    pass

def h(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest(), "big") % PRIME

def num(v):
    f = Fraction(repr(v)) if type(v) is float else Fraction(v)
    return f.numerator % PRIME * pow(f.denominator % PRIME, -1, PRIME) % PRIME

def fval(e, seed, env):
    """value of an expression in the field at the point the seed fixes; env maps symbolic leaves to names, numbers or expressions"""
    if type(e) in (int, float, bool):
        return num(e)
    if e in env:
        x = env[e]
        return h(seed, "leaf", x) if type(x) is str else fval(x, seed, env) if type(x) is tuple else num(x)
    if type(e) is tuple and e and e[0] == "app":
        op, a = e[1], e[2:]
        if op in ("+", "-", "*", "/") and len(a) == 2:
            x, y = fval(a[0], seed, env), fval(a[1], seed, env)
            if op == "+": return (x + y) % PRIME
            if op == "-": return (x - y) % PRIME
            if op == "*": return x * y % PRIME
            return x * pow(y, -1, PRIME) % PRIME
        if op == "neg":
            return -fval(a[0], seed, env) % PRIME
        if op == "std::pow" and type(a[1]) in (int, float) and float(a[1]).is_integer():
            return pow(fval(a[0], seed, env), int(a[1]), PRIME)
        if op in ("std::min", "std::max"):
            return h(seed, op, tuple(sorted(fval(x, seed, env) for x in a)))
        return h(seed, op, tuple(fval(x, seed, env) if x is not None else None for x in a))
    if type(e) is str:
        return h(seed, "leaf", e)
    return h(seed, "atom", e)

def same_expr(a, b, env=None):
    env = env or {}
    try:
        return all(fval(a, s, env) == fval(b, s, env) for s in ("p1", "p2", "p3"))
    except ValueError:      # division by zero in the field: expressions with a vanishing denominator
        return False

def leaves(e, acc=None):
    acc = set() if acc is None else acc
    if type(e) is tuple and e:
        if e[0] in ("app",):
            for x in e[2:]:
                leaves(x, acc)
        elif e[0] in ("col", "sym", "copyof"):
            acc.add(e)
            if e[0] == "col":
                for _, v in e[4]:
                    leaves(v, acc)
        elif e[0] == "S":
            for x in e[1]:
                if type(x) is tuple: leaves(x[1], acc)
    return acc

def show(e):
    if type(e) is not tuple or not e:
        return repr(e)
    if e[0] == "app":
        if len(e) == 4 and not e[1][0].isalpha():
            return f"({show(e[2])} {e[1]} {show(e[3])})"
        return f"{e[1]}({', '.join(show(x) for x in e[2:] if x is not None)})"
    if e[0] == "col":
        return f"{e[1]}.{e[2]}"
    if e[0] in ("sym", "copyof"):
        return ".".join(short(x) if type(x) is str else str(x) for x in e[1] if x != "this")
    return str(e)

import math
def numval(e, seed, env):
    """numeric value of an extracted formula at a fixed point; env: leaf -> number or callable"""
    if type(e) in (int, float, bool):
        return float(e)
    x = env(e) if callable(env) else env.get(e)
    if x is not None:
        return numval(x, seed, env) if type(x) is tuple else float(x)
    if type(e) is tuple and e and e[0] == "app":
        op, a = e[1], [numval(x, seed, env) for x in e[2:] if x is not None]
        if op in ("+", "-", "*", "/") and len(a) == 2:
            return {"+": lambda: a[0] + a[1], "-": lambda: a[0] - a[1], "*": lambda: a[0] * a[1], "/": lambda: a[0] / a[1]}[op]()
        if op == "neg": return -a[0]
        f = {"std::pow": math.pow, "std::min": min, "std::max": max, "std::abs": abs, "std::sqrt": math.sqrt, "std::exp": math.exp, "std::log": math.log,
             "std::sin": math.sin, "std::cos": math.cos, "std::tan": math.tan, "std::hypot": math.hypot}.get(op)
        if f:
            return float(f(*a))
        return 1 + h(seed, op, tuple(round(x, 9) for x in a)) / PRIME
    return 1 + h(seed, "atom", e) / PRIME

def close(a, b, env, tol=1e-9, seeds=("n1", "n2", "n3", "n4")):
    for s in seeds:
        e = (lambda x, s=s: env(x, s))
        try:
            x, y = numval(a, s, e), numval(b, s, e)
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            return False
        if not abs(x - y) <= tol * max(1e-300, abs(x), abs(y)):
            return False
    return True
