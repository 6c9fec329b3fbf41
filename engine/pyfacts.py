"""Abstract interpreter for the Python side of the repository.

The source of the requested modules is parsed and walked; nothing of it is imported
or executed by Python. Values are Python constants and containers as long as they
are fixed by the source, and terms (`Sym`) or strings of literal characters and
formatted fields (`SStr`) where they come from outside. A branch on an undetermined
value is taken both ways (`paths` enumerates the decision vectors). Calls into code
that is not analysed are recorded as events and yield terms.
"""
import ast
import math
import os
import re

from facts import AnalysisError

ROOT = "/repo"


# ------------------------------------------------------------------ values
class Sym:
    __slots__ = ("k",)

    def __init__(self, *k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Sym) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return "‹" + show(self) + "›"


def show(v):
    if isinstance(v, Sym):
        k = v.k
        if k[0] in ("in", "mod", "name"):
            return str(k[1])
        if k[0] == "attr":
            return show(k[1]) + "." + k[2]
        if k[0] == "bin":
            return "(%s %s %s)" % (show(k[2]), k[1], show(k[3]))
        return k[0] + "(" + ", ".join(show(x) for x in k[1:]) + ")"
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x) for x in v) + ")"
    return repr(v)


class SStr:
    """A string: literal characters, cells of formatted fields, parts of unknown length."""
    __slots__ = ("c",)

    def __init__(self, cells):
        self.c = tuple(cells)

    def __eq__(self, o):
        return isinstance(o, SStr) and self.c == o.c

    def __hash__(self):
        return hash(self.c)

    def __repr__(self):
        out, i = "", 0
        while i < len(self.c):
            c = self.c[i]
            if isinstance(c, str):
                out += c
            elif c[0] == "v":
                out += "{%s}" % show(c[1])
            elif c[3] == 0:
                out += "{%s:%d" % (show(c[1]), c[2])
            if not isinstance(c, str) and c[0] == "f" and c[3] == c[2] - 1:
                out += "}"
            i += 1
        return "s'" + out + "'"

    def literal(self):
        return "".join(self.c) if all(isinstance(c, str) for c in self.c) else None


def mkstr(cells):
    s = SStr(cells)
    l = s.literal()
    return s if l is None else l


def cells(v):
    if isinstance(v, str):
        return tuple(v)
    if isinstance(v, SStr):
        return v.c
    return (("v", v, ""),)


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.a = {}

    def __repr__(self):
        return "<%s>" % self.cls.name


class Cls:
    def __init__(self, name, bases, mod):
        self.name, self.bases, self.mod, self.d = name, bases, mod, {}

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += b.mro()
        return out

    def external(self):
        return any(not isinstance(b, Cls) for c in self.mro() for b in c.bases)

    def find(self, n):
        for c in self.mro():
            if n in c.d:
                return c, c.d[n]
        return None, None

    def __repr__(self):
        return "<class %s>" % self.name


class Fun:
    def __init__(self, node, mod, closure, name, cls=None):
        self.node, self.mod, self.closure, self.name, self.cls = node, mod, closure, name, cls
        self.kind = "fun"
        self.defaults = []
        self.kwdefaults = {}

    def __repr__(self):
        return "<fn %s:%s>" % (self.mod.name, self.name)


class Bound:
    def __init__(self, f, o):
        self.f, self.o = f, o


class Super:
    def __init__(self, cls, o):
        self.cls, self.o = cls, o


class Mod:
    def __init__(self, name, path):
        self.name, self.path, self.d = name, path, {}


class Arr(list):
    """numpy array of rank 1 or 2 with known shape."""


class PyExc(Exception):
    def __init__(self, t, v=None):
        self.t, self.v = t, v
        super().__init__("%s: %s" % (t, v))


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


BUILTINS = {n: n for n in (
    "len range list dict set tuple str int float bool any all enumerate zip isinstance getattr setattr hasattr delattr "
    "super type abs print repr open min max sum sorted iter next map filter reversed round object property staticmethod "
    "classmethod ord chr id divmod pow callable vars format frozenset bytes").split()}
EXCS = set("Exception ValueError KeyError NotImplementedError AttributeError IndexError TypeError RuntimeError ImportError "
           "AssertionError OSError FileNotFoundError StopIteration ZeroDivisionError FileExistsError "
           "NameError LookupError ArithmeticError InterruptedError PermissionError".split())
EXC_UP = {"KeyError": "LookupError", "IndexError": "LookupError", "FileNotFoundError": "OSError",
          "FileExistsError": "OSError", "PermissionError": "OSError", "ZeroDivisionError": "ArithmeticError",
          "NotImplementedError": "RuntimeError"}


class Builtin:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "<builtin %s>" % self.n


class ExcType:
    def __init__(self, n):
        self.n = n


BINOPS = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**",
          "BitOr": "|", "BitAnd": "&", "BitXor": "^", "MatMult": "@", "LShift": "<<", "RShift": ">>"}


def concrete(v):
    if isinstance(v, (list, tuple, set, frozenset)):
        return all(concrete(x) for x in v)
    if isinstance(v, dict):
        return all(concrete(k) and concrete(x) for k, x in v.items())
    return v is None or isinstance(v, (int, float, complex, str, bytes, bool, range))


def freeze(v):
    if isinstance(v, Arr):
        return ("arr",) + tuple(freeze(x) for x in v)
    if isinstance(v, list):
        return ("list",) + tuple(freeze(x) for x in v)
    if isinstance(v, tuple):
        return ("tuple",) + tuple(freeze(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return ("set",) + tuple(sorted((freeze(x) for x in v), key=repr))
    if isinstance(v, dict):
        return ("dict",) + tuple((freeze(k), freeze(x)) for k, x in v.items())
    if isinstance(v, (Obj, Cls, Fun, Mod, Builtin, Bound, Super, ExcType)):
        return ("ref", repr(v))
    return v


class Ext:
    """an object of a modelled library: hooks x_attr(ip, name), x_bin(ip, op, other, reflected), x_call(ip, args, kw),
    x_str(), x_is(type name)"""

    def x_bin(self, ip, op, other, reflected):
        return NotImplemented

    def x_str(self):
        return NotImplemented

    def x_is(self, t):
        return False


class Interp:
    def __init__(self, externals=None, budget=4_000_000):
        self.mods = {}
        self.trail = []
        self.pos = 0
        self.events = []
        self.externals = externals or {}
        self.steps = 0
        self.budget = budget
        self.fixed = {}

    # ------------------------------------------------------ path enumeration
    def paths(self, fn, limit=4096):
        """fn(interp) → result, evaluated for every vector of decisions."""
        out = []
        trail = []
        while True:
            self.trail, self.pos, self.events, self.known = list(trail), 0, [], dict(self.fixed)
            self.steps, self.depth = 0, 0
            try:
                r = ("ok", fn(self))
            except PyExc as e:
                r = ("exc", e)
            out.append((r, list(self.events), dict(self.known)))
            if len(out) > limit:
                raise AnalysisError("too many paths")
            t = self.trail[:self.pos]
            while t and t[-1][1] is False:
                t.pop()
            if not t:
                return out
            t[-1] = (t[-1][0], False)
            trail = t

    def decide(self, key):
        if key in self.known:
            return self.known[key]
        if self.pos < len(self.trail):
            r = self.trail[self.pos][1]
        else:
            r = True
            self.trail.append((key, True))
        self.pos += 1
        self.known[key] = r
        return r

    # ------------------------------------------------------ modules
    def module(self, dotted):
        if dotted in self.mods:
            return self.mods[dotted]
        base = os.path.join(ROOT, *dotted.split("."))
        path = base + ".py" if os.path.exists(base + ".py") else os.path.join(base, "__init__.py")
        if not os.path.exists(path):
            raise AnalysisError("module %s not found" % dotted)
        m = Mod(dotted, path)
        self.mods[dotted] = m
        if not hasattr(self, "known"):
            self.known = {}
        try:
            tree = ast.parse(open(path).read(), path)
        except SyntaxError as e:
            raise AnalysisError("%s: %s" % (path, e))
        m.tree = tree
        env = [m.d]
        for st in tree.body:
            try:
                self.ex(st, env, m, None)
            except PyExc:
                pass
            except AnalysisError:
                # a module-level statement that is not needed is not understood
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    raise
                for t in ast.walk(st):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                        m.d[t.id] = Sym("name", dotted + "." + t.id)
        return m

    # ------------------------------------------------------ statements
    def block(self, body, env, mod, cls):
        for st in body:
            self.ex(st, env, mod, cls)

    def ex(self, st, env, mod, cls):
        self.steps += 1
        if self.steps > self.budget:
            raise AnalysisError("evaluation does not end (%s:%d)" % (mod.path, st.lineno))
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise AnalysisError("%s:%d: statement %s" % (mod.path, st.lineno, type(st).__name__))
        return m(st, env, mod, cls)

    def s_Expr(self, st, env, mod, cls):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, env, mod)

    def s_Pass(self, st, env, mod, cls):
        pass

    def s_Global(self, st, env, mod, cls):
        env[-1].setdefault("__globals__", set()).update(st.names)

    def s_Nonlocal(self, st, env, mod, cls):
        env[-1].setdefault("__nonlocals__", set()).update(st.names)

    def s_Import(self, st, env, mod, cls):
        for a in st.names:
            nm = a.asname or a.name.split(".")[0]
            tgt = a.name if a.asname else a.name.split(".")[0]
            env[-1][nm] = self.imported(tgt)

    def imported(self, name):
        if name in self.externals:
            return self.externals[name]
        if name.startswith("pairinteraction_gui"):
            return self.module(name)
        return Sym("mod", name)

    def s_ImportFrom(self, st, env, mod, cls):
        for a in st.names:
            full = (st.module or "") + "." + a.name
            v = None
            if full in self.externals:
                v = self.externals[full]
            elif (st.module or "").startswith("pairinteraction_gui"):
                try:
                    v = self.module(full)
                except AnalysisError:
                    m = self.module(st.module)
                    if a.name not in m.d:
                        raise PyExc("ImportError", full)
                    v = m.d[a.name]
            elif st.level:
                pk = mod.name.split(".")[:-st.level] if not mod.path.endswith("__init__.py") else mod.name.split(".")
                m = self.module(".".join(pk + ([st.module] if st.module else [])))
                v = m.d.get(a.name)
            else:
                v = Sym("mod", full)
            env[-1][a.asname or a.name] = v

    def mkfun(self, st, env, mod, name):
        f = Fun(st, mod, list(env), name)
        f.defaults = [self.ev(d, env, mod) for d in st.args.defaults]
        f.kwdefaults = {a.arg: self.ev(d, env, mod) for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults)
                        if d is not None}
        return f

    def s_FunctionDef(self, st, env, mod, cls):
        f = self.mkfun(st, env, mod, st.name)
        f.cls = cls
        for d in st.decorator_list:
            n = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else None)
            if n in ("staticmethod", "classmethod", "property"):
                f.kind = n
            elif n == "setter":
                return
        self.store(ast.Name(st.name, ast.Store()), f, env, mod)

    def s_ClassDef(self, st, env, mod, cls):
        c = Cls(st.name, [self.ev(b, env, mod) for b in st.bases], mod)
        e = {}
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                self.ex(s, env + [e], mod, c)
            else:
                self.ex(s, env + [e], mod, c)
        for k, v in e.items():
            if isinstance(v, Fun):
                v.closure = list(env)
        c.d = e
        env[-1][st.name] = c

    def s_Return(self, st, env, mod, cls):
        raise _Ret(None if st.value is None else self.ev(st.value, env, mod))

    def s_Assign(self, st, env, mod, cls):
        v = self.ev(st.value, env, mod)
        for t in st.targets:
            self.store(t, v, env, mod)

    def s_AnnAssign(self, st, env, mod, cls):
        if st.value is not None:
            self.store(st.target, self.ev(st.value, env, mod), env, mod)

    def s_AugAssign(self, st, env, mod, cls):
        t = st.target
        load = ast.copy_location(
            {"Name": lambda: ast.Name(t.id, ast.Load()), "Attribute": lambda: ast.Attribute(t.value, t.attr, ast.Load()),
             "Subscript": lambda: ast.Subscript(t.value, t.slice, ast.Load())}[type(t).__name__](), t)
        a = self.ev(load, env, mod)
        b = self.ev(st.value, env, mod)
        op = BINOPS[type(st.op).__name__]
        if op == "+" and isinstance(a, list) and isinstance(b, (list, tuple)):
            a.extend(b)
            v = a
        else:
            v = self.bin(op, a, b, st, mod)
        self.store(t, v, env, mod)

    def s_If(self, st, env, mod, cls):
        self.block(st.body if self.truth(self.ev(st.test, env, mod)) else st.orelse, env, mod, cls)

    def s_While(self, st, env, mod, cls):
        n = 0
        while self.truth(self.ev(st.test, env, mod)):
            n += 1
            if n > 300:
                raise AnalysisError("%s:%d: unbounded loop" % (mod.path, st.lineno))
            try:
                self.block(st.body, env, mod, cls)
            except _Brk:
                return
            except _Cont:
                continue
        self.block(st.orelse, env, mod, cls)

    def s_For(self, st, env, mod, cls):
        for x in self.iterate(self.ev(st.iter, env, mod), st, mod):
            self.store(st.target, x, env, mod)
            try:
                self.block(st.body, env, mod, cls)
            except _Brk:
                return
            except _Cont:
                continue
        self.block(st.orelse, env, mod, cls)

    def s_Break(self, st, env, mod, cls):
        raise _Brk()

    def s_Continue(self, st, env, mod, cls):
        raise _Cont()

    def s_Assert(self, st, env, mod, cls):
        t = self.ev(st.test, env, mod)
        if not self.truth(t):
            raise PyExc("AssertionError", ast.unparse(st.test))

    def s_Raise(self, st, env, mod, cls):
        if st.exc is None:
            raise self.current
        v = self.ev(st.exc, env, mod)
        if isinstance(v, PyExc):
            raise v
        if isinstance(v, ExcType):
            raise PyExc(v.n)
        raise PyExc("Exception", v)

    def s_Delete(self, st, env, mod, cls):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env[-1].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, i = self.ev(t.value, env, mod), self.ev(t.slice, env, mod)
                if isinstance(o, dict):
                    if i not in o:
                        raise PyExc("KeyError", i)
                    del o[i]
                elif isinstance(o, Obj):
                    self.call(self.attr(o, "__delitem__"), [i], {}, st, mod)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env, mod)
                if isinstance(o, Obj):
                    o.a.pop(t.attr, None)

    def s_With(self, st, env, mod, cls):
        opened = []
        for it in st.items:
            v = self.ev(it.context_expr, env, mod)
            opened.append(v)
            if it.optional_vars is not None:
                self.store(it.optional_vars, v, env, mod)
        self.block(st.body, env, mod, cls)
        for v in reversed(opened):
            self.events.append(("exit", v))

    def s_Try(self, st, env, mod, cls):
        try:
            try:
                self.block(st.body, env, mod, cls)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None or self.matches(e, self.ev(h.type, env, mod)):
                        old = getattr(self, "current", None)
                        self.current = e
                        if h.name:
                            self.store(ast.Name(h.name, ast.Store()), Sym("exc", e.t, freeze(e.v)), env, mod)
                        self.block(h.body, env, mod, cls)
                        self.current = old
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env, mod, cls)
        finally:
            self.block(st.finalbody, env, mod, cls)

    def matches(self, e, t):
        if isinstance(t, (tuple, list)):
            return any(self.matches(e, x) for x in t)
        if isinstance(t, ExcType):
            n = e.t
            while n:
                if n == t.n or t.n == "Exception":
                    return True
                n = EXC_UP.get(n)
            return False
        return False

    # ------------------------------------------------------ stores
    def store(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            g = env[-1].get("__globals__", ())
            if t.id in g:
                mod.d[t.id] = v
                return
            if t.id in env[-1].get("__nonlocals__", ()):
                for e in reversed(env[:-1]):
                    if t.id in e:
                        e[t.id] = v
                        return
            env[-1][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.iterate(v, t, mod, n=len(t.elts) if not any(isinstance(e, ast.Starred) for e in t.elts) else None)
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                i = st[0]
                k = len(t.elts) - i - 1
                parts = xs[:i] + [list(xs[i:len(xs) - k])] + xs[len(xs) - k:]
                for e, x in zip(t.elts, parts):
                    self.store(e.value if isinstance(e, ast.Starred) else e, x, env, mod)
                return
            if len(xs) != len(t.elts):
                raise PyExc("ValueError", "unpack")
            for e, x in zip(t.elts, xs):
                self.store(e, x, env, mod)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            i = self.ev(t.slice, env, mod)
            if isinstance(o, dict) or (isinstance(o, list) and isinstance(i, int)):
                try:
                    o[i] = v
                except IndexError:
                    raise PyExc("IndexError", i)
            elif isinstance(o, Obj):
                self.call(self.attr(o, "__setitem__"), [i, v], {}, t, mod)
            else:
                self.events.append(("setitem", freeze(o), freeze(i), freeze(v)))
        else:
            raise AnalysisError("store " + ast.dump(t)[:80])

    def setattr(self, o, n, v):
        if isinstance(o, Obj):
            o.a[n] = v
        elif isinstance(o, Cls):
            o.d[n] = v
        elif isinstance(o, Mod):
            o.d[n] = v
        else:
            self.events.append(("setattr", freeze(o), n, freeze(v)))

    # ------------------------------------------------------ expressions
    def ev(self, e, env, mod):
        self.steps += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisError("%s:%s: expression %s" % (mod.path, getattr(e, "lineno", "?"), type(e).__name__))
        return m(e, env, mod)

    def e_Constant(self, e, env, mod):
        return e.value

    def e_Name(self, e, env, mod):
        for d in reversed(env):
            if e.id in d and not (e.id in env[-1].get("__globals__", ()) and d is env[-1]):
                return d[e.id]
        if e.id in mod.d:
            return mod.d[e.id]
        if e.id in BUILTINS:
            return Builtin(e.id)
        if e.id in EXCS:
            return ExcType(e.id)
        if e.id == "__name__":
            return mod.name
        if e.id == "__file__":
            return mod.path
        if e.id == "__class__":
            return Sym("name", "__class__")
        raise PyExc("NameError", e.id)

    def e_Tuple(self, e, env, mod):
        return tuple(self.elts(e.elts, env, mod))

    def e_List(self, e, env, mod):
        return self.elts(e.elts, env, mod)

    def e_Set(self, e, env, mod):
        return set(self.elts(e.elts, env, mod))

    def elts(self, es, env, mod):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.iterate(self.ev(x.value, env, mod), x, mod)
            else:
                out.append(self.ev(x, env, mod))
        return out

    def e_Dict(self, e, env, mod):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, env, mod)
                if isinstance(d, Obj):
                    d = self.items(d, e, mod)
                if not isinstance(d, dict):
                    raise AnalysisError("%s:%d: ** of %s" % (mod.path, e.lineno, show(d)))
                out.update(d)
            else:
                kk = self.ev(k, env, mod)
                out[kk] = self.ev(v, env, mod)
        return out

    def e_JoinedStr(self, e, env, mod):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out += list(p.value)
            else:
                v = self.ev(p.value, env, mod)
                spec = ""
                if p.format_spec is not None:
                    spec = self.e_JoinedStr(p.format_spec, env, mod)
                if p.conversion == 114:
                    v = repr(v) if concrete(v) else Sym("repr", freeze(v))
                out += self.fmt(v, spec)
        return mkstr(out)

    def fmt(self, v, spec):
        if isinstance(spec, SStr):
            raise AnalysisError("format specification " + repr(spec))
        if concrete(v) and not isinstance(v, (list, dict, set, tuple)):
            try:
                return list(format(v, spec))
            except (ValueError, TypeError) as x:
                raise PyExc("ValueError", str(x))
        if isinstance(v, SStr) and spec in ("", "s"):
            return list(v.c)
        w = spec.lstrip("<>^=+- ").rstrip("dsgfe")
        if w.isdigit() and spec and not isinstance(v, SStr):
            w = int(w)
            return [("f", v, w, i) for i in range(w)]
        return [("v", v if isinstance(v, (Sym, SStr)) else Sym("repr", freeze(v)), spec)]

    def e_FormattedValue(self, e, env, mod):
        return mkstr(self.fmt(self.ev(e.value, env, mod), ""))

    def e_BoolOp(self, e, env, mod):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.ev(x, env, mod)
            if self.truth(v) != isand:
                return v
        return v

    def e_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, (int, float, complex)):
            return -v if isinstance(e.op, ast.USub) else (+v if isinstance(e.op, ast.UAdd) else ~v)
        if isinstance(v, Arr):
            return Arr(self.bin("-", 0, x, e, mod) for x in v)
        if isinstance(v, Ext) and isinstance(e.op, ast.USub):
            r = v.x_bin(self, "-", 0, True)
            if r is not NotImplemented:
                return r
        return Sym("un", type(e.op).__name__, freeze(v))

    def e_BinOp(self, e, env, mod):
        return self.bin(BINOPS[type(e.op).__name__], self.ev(e.left, env, mod), self.ev(e.right, env, mod), e, mod)

    def bin(self, op, a, b, e, mod):
        for x, y, refl in ((a, b, False), (b, a, True)):
            if isinstance(x, Ext):
                r = x.x_bin(self, op, y, refl)
                if r is not NotImplemented:
                    return r
                if not isinstance(y, Ext):
                    raise AnalysisError("%s:%s: operation %s of a modelled object" % (mod.path, getattr(e, "lineno", "?"), op))
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, Arr) and isinstance(b, Arr):
                return Arr(self.bin(op, x, y, e, mod) for x, y in zip(a, b))
            if isinstance(a, Arr):
                return Arr(self.bin(op, x, b, e, mod) for x in a)
            return Arr(self.bin(op, a, y, e, mod) for y in b)
        if op == "+" and isinstance(a, (str, SStr)) and isinstance(b, (str, SStr, Sym)):
            return mkstr(cells(a) + cells(b))
        if op == "+" and isinstance(b, (str, SStr)) and isinstance(a, Sym):
            return mkstr(cells(a) + cells(b))
        if op == "%" and isinstance(a, str):
            vals = list(b) if isinstance(b, tuple) else [b]
            parts = re.split(r"(%[-+ 0]*[0-9]*(?:\.[0-9]+)?[dsrfeg%])", a)
            if isinstance(b, dict) or sum(1 for q in parts[1::2] if q != "%%") != len(vals) or "%" in "".join(parts[0::2]):
                return Sym("fmt", a, freeze(b))
            out = []
            for i, q in enumerate(parts):
                if i % 2 == 0:
                    out += list(q)
                elif q == "%%":
                    out.append("%")
                else:
                    v = vals.pop(0)
                    if q[-1] == "r":
                        v = repr(v) if concrete(v) else Sym("repr", freeze(v))
                    flags = q[1:-1]
                    if q[-1] in "sr":
                        out += self.fmt(v if isinstance(v, (str, SStr, Sym)) else str(v), flags.replace("-", "<") if "-" in flags else (">" + flags if flags else ""))
                    else:
                        out += self.fmt(v, ("<" + flags.replace("-", "") if "-" in flags else flags) + q[-1])
            return mkstr(out)
        if op == "+" and type(a) is type(b) and isinstance(a, (list, tuple)):
            return a + b
        if op == "*" and isinstance(a, (list, tuple, str)) and isinstance(b, int):
            return a * b
        if op == "*" and isinstance(b, (list, tuple)) and isinstance(a, int):
            return b * a
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {"|": a | b, "&": a & b, "-": a - b, "^": a ^ b}[op]
        if isinstance(a, (int, float, complex, str)) and isinstance(b, (int, float, complex, str)):
            try:
                return eval("a %s b" % op, {}, {"a": a, "b": b})
            except ZeroDivisionError:
                raise PyExc("ZeroDivisionError")
            except TypeError as x:
                raise PyExc("TypeError", str(x))
        if (isinstance(a, str) and isinstance(b, (int, float))) or (a is None or b is None):
            raise PyExc("TypeError", "%r %s %r" % (a, op, b))
        return Sym("bin", op, freeze(a), freeze(b))

    def e_Compare(self, e, env, mod):
        a = self.ev(e.left, env, mod)
        res = True
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r, env, mod)
            res = self.cmp(type(op).__name__, a, b, e, mod)
            if len(e.ops) == 1:
                return res
            if not self.truth(res):
                return False
            a = b
        return res

    def cmp(self, op, a, b, e, mod):
        if op in ("Is", "IsNot"):
            if isinstance(a, Sym) or isinstance(b, Sym):
                if a is None or b is None:
                    s = b if a is None else a
                    r = False           # values from outside are given, results of calls exist
                else:
                    r = isinstance(a, Sym) and isinstance(b, Sym) and a == b
            else:
                r = a is b
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            if isinstance(b, Obj) and b.cls.find("__contains__")[1] is None and b.cls.find("__getitem__")[1] is not None:
                try:
                    self.call(self.attr(b, "__getitem__"), [a], {}, e, mod)
                    return op == "In"
                except PyExc as x:
                    if x.t != "KeyError":
                        raise
                    return op != "In"
            if isinstance(b, Obj):
                return self.truth(self.call(self.attr(b, "__contains__"), [a], {}, e, mod)) == (op == "In")
            if isinstance(b, (list, tuple, set, frozenset, dict)):
                r = None
                if concrete(a) or isinstance(a, (Sym, SStr)):
                    rs = [self.cmp("Eq", a, x, e, mod) for x in b]
                    r = any(x is True for x in rs)
                    if not r:
                        und = [x for x in rs if x is not False]
                        r = any(self.truth(x) for x in und) if und else False
                else:
                    r = any(self.truth(self.cmp("Eq", a, x, e, mod)) for x in b)
            elif isinstance(b, (str, SStr)):
                if isinstance(a, str) and isinstance(b, str):
                    r = a in b
                else:
                    lit = "".join(c if isinstance(c, str) else "\0" for c in cells(b))
                    r = True if isinstance(a, str) and a in lit else self.decide(("in", freeze(a), freeze(b)))
            else:
                r = self.decide(("in", freeze(a), freeze(b)))
            return r if op == "In" else not r
        if op in ("Eq", "NotEq"):
            r = self.equal(a, b)
            if r is None:
                s = Sym("cmp", "Eq", *sorted((freeze(a), freeze(b)), key=repr))
                if op == "NotEq":
                    return not self.truth(s)
                return s
            return r if op == "Eq" else not r
        if isinstance(a, Arr) or isinstance(b, Arr):
            return Sym("cmp", op, freeze(a), freeze(b))
        if concrete(a) and concrete(b):
            try:
                return {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b}[op]()
            except TypeError as x:
                raise PyExc("TypeError", str(x))
        if op in ("Gt", "GtE"):
            a, b, op = b, a, {"Gt": "Lt", "GtE": "LtE"}[op]
        return Sym("cmp", op, freeze(a), freeze(b))

    def equal(self, a, b):
        """True / False / None (undetermined)"""
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a == b
        if isinstance(a, Arr) or isinstance(b, Arr):
            return None if not (concrete(a) and concrete(b)) else list(a) == list(b)
        if concrete(a) and concrete(b):
            return a == b
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            ca, cb = cells(a), cells(b)
            if not any(c[0] == "v" for c in ca + cb if not isinstance(c, str)):
                if len(ca) != len(cb):
                    return False
            for x, y in zip(ca, cb):
                if isinstance(x, str) and isinstance(y, str):
                    if x != y:
                        return False
                elif x == y and x[0] == "f":
                    continue
                else:
                    return True if ca == cb else None
            return True if ca == cb else (None if len(ca) == len(cb) or any(
                c[0] == "v" for c in ca + cb if not isinstance(c, str)) else False)
        if isinstance(a, Sym) and isinstance(b, Sym) and a == b:
            return True
        if isinstance(a, (Sym, SStr)) or isinstance(b, (Sym, SStr)):
            if a is None or b is None:
                s = b if a is None else a
                return False
            if isinstance(a, (list, tuple, dict)) or isinstance(b, (list, tuple, dict)):
                return None
            return None
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            rs = [self.equal(x, y) for x, y in zip(a, b)]
            if any(r is False for r in rs):
                return False
            return True if all(rs) else None
        if isinstance(a, dict) and isinstance(b, dict):
            if a.keys() != b.keys():
                return False
            rs = [self.equal(a[k], b[k]) for k in a]
            return False if any(r is False for r in rs) else (True if all(rs) else None)
        return a is b

    def e_IfExp(self, e, env, mod):
        return self.ev(e.body if self.truth(self.ev(e.test, env, mod)) else e.orelse, env, mod)

    def e_Lambda(self, e, env, mod):
        f = self.mkfun(e, env, mod, "<lambda>")
        return f

    def e_NamedExpr(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        self.store(e.target, v, env, mod)
        return v

    def comp(self, e, env, mod, emit):
        loc = {}
        env2 = env + [loc]

        def rec(i):
            if i == len(e.generators):
                emit(env2)
                return
            g = e.generators[i]
            for x in self.iterate(self.ev(g.iter, env2, mod), e, mod):
                self.store(g.target, x, env2, mod)
                if all(self.truth(self.ev(c, env2, mod)) for c in g.ifs):
                    rec(i + 1)
        rec(0)

    def e_ListComp(self, e, env, mod):
        out = []
        self.comp(e, env, mod, lambda en: out.append(self.ev(e.elt, en, mod)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env, mod):
        return set(self.e_ListComp(e, env, mod))

    def e_DictComp(self, e, env, mod):
        out = {}
        self.comp(e, env, mod, lambda en: out.__setitem__(self.ev(e.key, en, mod), self.ev(e.value, en, mod)))
        return out

    def e_Starred(self, e, env, mod):
        raise AnalysisError("starred")

    def e_Slice(self, e, env, mod):
        g = lambda x: None if x is None else self.ev(x, env, mod)
        return slice(g(e.lower), g(e.upper), g(e.step))

    def e_Subscript(self, e, env, mod):
        return self.sub(self.ev(e.value, env, mod), self.ev(e.slice, env, mod), e, mod)

    def sub(self, o, i, e, mod):
        if isinstance(o, SStr):
            if isinstance(i, (int, slice)):
                return self.sslice(o, i)
            return Sym("sub", freeze(o), freeze(i))
        if isinstance(o, Arr):
            if isinstance(i, tuple):
                r = o[i[0]] if not isinstance(i[0], Sym) else None
                if r is None:
                    return Sym("sub", freeze(o), freeze(i))
                if isinstance(i[0], slice):
                    rows = [self.sub(Arr(x) if isinstance(x, (list, tuple)) else x, i[1], e, mod) for x in r]
                    return Arr(rows)
                return self.sub(Arr(r) if isinstance(r, (list, tuple)) else r, i[1], e, mod)
            if isinstance(i, slice):
                return Arr(list(o)[i])
            if isinstance(i, int):
                return list(o)[i]
            return Sym("sub", freeze(o), freeze(i))
        if isinstance(o, dict):
            if not isinstance(i, (Sym, SStr)):
                if i not in o:
                    raise PyExc("KeyError", i)
                return o[i]
            if i in o:
                return o[i]
            for k in o:
                if self.truth(self.cmp("Eq", i, k, e, mod)):
                    return o[k]
            raise PyExc("KeyError", i)
        if isinstance(o, (list, tuple, str)):
            if isinstance(i, (int, slice)) and (not isinstance(i, slice) or concrete((i.start, i.stop, i.step))):
                try:
                    return o[i]
                except IndexError:
                    raise PyExc("IndexError", i)
            if isinstance(i, Sym) and isinstance(o, (list, tuple)):
                for n, x in enumerate(o):
                    if self.truth(self.cmp("Eq", i, n, e, mod)):
                        return x
                raise PyExc("IndexError", i)
        if isinstance(o, Obj):
            return self.call(self.attr(o, "__getitem__"), [i], {}, e, mod)
        if isinstance(o, Sym):
            return Sym("sub", o, freeze(i) if not isinstance(i, slice) else ("slice", i.start, i.stop, i.step))
        raise AnalysisError("%s:%d: subscript of %s" % (mod.path, e.lineno, show(o)))

    def sslice(self, o, i):
        c = o.c
        var = [n for n, x in enumerate(c) if not isinstance(x, str) and x[0] == "v"]
        if isinstance(i, int):
            i = slice(i, i + 1 if i != -1 else None)
        if i.step not in (None, 1) or not all(x is None or isinstance(x, int) for x in (i.start, i.stop)):
            return Sym("sub", o, ("slice", freeze(i.start), freeze(i.stop), freeze(i.step)))
        first = var[0] if var else len(c)
        last = len(c) - 1 - var[-1] if var else len(c)      # fixed cells at the end

        def pos(x, default):
            if x is None:
                return default
            if not var:
                return max(0, len(c) + x) if x < 0 else min(x, len(c))
            if x >= 0:
                if x <= first:
                    return x
                return None
            if -x <= last:
                return len(c) + x
            return None
        a, b = pos(i.start, 0), pos(i.stop, len(c))
        if a is None or b is None:
            return Sym("cut", o, ("slice", i.start, i.stop))
        return mkstr(c[a:b])

    # ------------------------------------------------------ truth / iteration
    def truth(self, v):
        if isinstance(v, Ext):
            return True
        if isinstance(v, bool):
            return v
        if isinstance(v, Sym):
            if v.k[0] == "bool":
                return v.k[1]
            if v.k[0] in ("mod", "obj"):
                return True
            if v.k[0] == "cmp" and v.k[1] == "Lt":
                return self.decide(v)
            return self.decide(v)
        if isinstance(v, SStr):
            if any(isinstance(c, str) or c[0] == "f" for c in v.c):
                return True
            return self.decide(v)
        if isinstance(v, Obj):
            c, f = v.cls.find("__len__")
            if f is not None:
                return self.truth(self.call(Bound(f, v), [], {}, None, v.cls.mod))
            return True
        if isinstance(v, (Cls, Fun, Bound, Mod, Builtin)):
            return True
        return bool(v)

    def items(self, o, e, mod):
        """dictionary view of an analysed mapping class"""
        c, f = o.cls.find("__iter__")
        if f is None:
            raise AnalysisError("iteration over " + repr(o))
        ks = self.iterate(self.call(Bound(f, o), [], {}, e, mod), e, mod)
        return {k: self.call(self.attr(o, "__getitem__"), [k], {}, e, mod) for k in ks}

    def iterate(self, v, e, mod, n=None):
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        if isinstance(v, (list, tuple, range)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Obj):
            return list(self.items(v, e, mod))
        if isinstance(v, SStr) and not any(not isinstance(c, str) for c in v.c):
            return list(v.literal())
        if isinstance(v, Sym):
            if n is not None:
                return [Sym("sub", v, i) for i in range(n)]
            if v.k[0] == "call" and v.k[1] == Sym("mod", "itertools") or False:
                pass
            return self.iter_sym(v, e, mod)
        raise AnalysisError("%s:%s: iteration over %s" % (mod.path, getattr(e, "lineno", "?"), show(freeze(v))[:80]))

    def iter_sym(self, v, e, mod):
        """a sequence from outside: one representative element"""
        return [Sym("elem", v)]

    # ------------------------------------------------------ attributes
    def e_Attribute(self, e, env, mod):
        return self.attr(self.ev(e.value, env, mod), e.attr)

    def attr(self, o, n):
        if isinstance(o, Ext):
            return o.x_attr(self, n)
        if isinstance(o, Obj):
            if n in o.a:
                return o.a[n]
            if n == "__class__":
                return o.cls
            if n == "__dict__":
                return o.a
            c, v = o.cls.find(n)
            if c is not None:
                if isinstance(v, Fun):
                    if v.kind == "property":
                        return self.call(Bound(v, o), [], {}, None, v.mod)
                    if v.kind == "staticmethod":
                        return v
                    if v.kind == "classmethod":
                        return Bound(v, o.cls)
                    return Bound(v, o)
                return v
            if o.cls.external():
                mx = self.mapping_mixin(o, n)
                if mx is not None:
                    return mx
                return Sym("attr", Sym("obj", o.cls.name), n)
            raise PyExc("AttributeError", "%s has no attribute %s" % (o.cls.name, n))
        if isinstance(o, Cls):
            if n == "__name__":
                return o.name
            c, v = o.find(n)
            if c is not None:
                if isinstance(v, Fun) and v.kind == "classmethod":
                    return Bound(v, o)
                return v
            if o.external():
                return Sym("attr", Sym("name", o.name), n)
            raise PyExc("AttributeError", "%s has no attribute %s" % (o.name, n))
        if isinstance(o, Super):
            found = False
            for c in o.o.cls.mro() if isinstance(o.o, Obj) else o.o.mro():
                if found and n in c.d:
                    v = c.d[n]
                    if isinstance(v, Fun) and v.kind == "property":
                        return self.call(Bound(v, o.o), [], {}, None, v.mod)
                    return Bound(v, o.o) if isinstance(v, Fun) and v.kind != "staticmethod" else v
                if c is o.cls:
                    found = True
            return Sym("attr", Sym("super", o.cls.name), n)
        if isinstance(o, Mod):
            if n in o.d:
                return o.d[n]
            try:
                return self.module(o.name + "." + n)
            except AnalysisError:
                raise PyExc("AttributeError", "%s has no attribute %s" % (o.name, n))
        if isinstance(o, (str, SStr, list, dict, set, tuple, frozenset, bytes, int, float)):
            return ("method", o, n)
        if o is None:
            raise PyExc("AttributeError", "None has no attribute " + n)
        if isinstance(o, Sym) and o.k[0] == "mod" and str(o.k[1]) + "." + n in self.externals:
            return self.externals[str(o.k[1]) + "." + n]
        return Sym("attr", o if isinstance(o, Sym) else freeze(o), n)

    def mapping_mixin(self, o, n):
        c, f = o.cls.find("__getitem__")
        if f is None:
            return None
        if n in ("get", "keys", "items", "values", "pop", "update", "setdefault"):
            return ("mapping", o, n)
        return None

    # ------------------------------------------------------ calls
    def e_Call(self, e, env, mod):
        f = self.ev(e.func, env, mod)
        if isinstance(f, Builtin) and f.n == "super" and not e.args:
            me = None
            for d in reversed(env):
                if "__self__" in d:
                    me = d["__self__"]
                    break
            return Super(me[0], me[1])
        args = self.elts(e.args, env, mod)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env, mod)
            if k.arg is None:
                if isinstance(v, Obj):
                    v = self.items(v, e, mod)
                if isinstance(v, dict):
                    kw.update(v)
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        self.where = (mod.path, e.lineno)
        return self.call(f, args, kw, e, mod)

    def call(self, f, args, kw, e, mod):
        if isinstance(f, Ext):
            return f.x_call(self, args, kw)
        if isinstance(f, Bound):
            return self.call_fun(f.f, [f.o] + list(args), kw, e, mod)
        if isinstance(f, Fun):
            return self.call_fun(f, list(args), kw, e, mod)
        if isinstance(f, Cls):
            o = Obj(f)
            c, init = f.find("__init__")
            if init is not None:
                self.call_fun(init, [o] + list(args), kw, e, mod)
            return o
        if isinstance(f, ExcType):
            return PyExc(f.n, args[0] if args else None)
        if isinstance(f, Builtin):
            return self.builtin(f.n, args, kw, e, mod)
        if isinstance(f, tuple) and f and f[0] == "method":
            return self.method(f[1], f[2], args, kw, e, mod)
        if isinstance(f, tuple) and f and f[0] == "mapping":
            return self.mapping(f[1], f[2], args, kw, e, mod)
        if isinstance(f, Obj):
            return self.call(self.attr(f, "__call__"), args, kw, e, mod)
        if isinstance(f, Sym):
            return self.external(f, args, kw, e, mod)
        if callable(f):
            return f(self, args, kw)
        raise AnalysisError("%s:%s: call of %s" % (mod.path, getattr(e, "lineno", "?"), show(freeze(f))[:80]))

    def call_fun(self, f, args, kw, e, mod):
        a = f.node.args
        loc = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        for i, n in enumerate(names):
            if i < len(args):
                loc[n] = args[i]
            elif n in kw:
                loc[n] = kw.pop(n)
            else:
                d = i - (len(names) - len(f.defaults))
                if d < 0:
                    raise PyExc("TypeError", "%s() misses argument %s" % (f.name, n))
                loc[n] = f.defaults[d]
        if len(args) > len(names):
            if a.vararg is None:
                raise PyExc("TypeError", "%s() takes %d arguments" % (f.name, len(names)))
            loc[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            loc[a.vararg.arg] = ()
        for x in a.kwonlyargs:
            if x.arg in kw:
                loc[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                loc[x.arg] = f.kwdefaults[x.arg]
            else:
                raise PyExc("TypeError", "%s() misses argument %s" % (f.name, x.arg))
        if a.kwarg is not None:
            loc[a.kwarg.arg] = kw
        elif kw:
            raise PyExc("TypeError", "%s() got unexpected arguments %s" % (f.name, sorted(kw)))
        if f.cls is not None and f.kind != "staticmethod" and args:
            loc["__self__"] = (f.cls, args[0])
        env = f.closure + [loc]
        self.depth = getattr(self, "depth", 0) + 1
        if self.depth > 60:
            raise AnalysisError("recursion in " + f.name)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env, f.mod)
            gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node))
            if gen:
                loc["__yield__"] = []
            try:
                self.block(f.node.body, env, f.mod, None)
            except _Ret as r:
                return loc["__yield__"] if gen else r.v
            return loc["__yield__"] if gen else None
        finally:
            self.depth -= 1

    def e_Yield(self, e, env, mod):
        for d in reversed(env):
            if "__yield__" in d:
                d["__yield__"].append(None if e.value is None else self.ev(e.value, env, mod))
                return None
        raise AnalysisError("yield")

    def external(self, f, args, kw, e, mod):
        n = show(f)
        h = EXTERNAL.get(n)
        if h is not None:
            r = h(self, args, kw)
            if r is not NotImplemented:
                return r
        ar = tuple(freeze(x) for x in args)
        kr = tuple(sorted((k, freeze(v)) for k, v in kw.items()))
        self.events.append(("call", f, ar, kr, (mod.path, getattr(e, "lineno", 0)), list(args), dict(kw)))
        return Sym("call", f, ar, kr) if kr else Sym("call", f, ar)

    # ------------------------------------------------------ builtins
    def builtin(self, n, args, kw, e, mod):
        a = args
        if n == "print":
            self.events.append(("print", tuple(freeze(x) for x in a), tuple(sorted((k, freeze(v)) for k, v in kw.items()))))
            return None
        if n == "isinstance":
            return self.isinstance(a[0], a[1])
        if n in ("getattr", "hasattr"):
            if isinstance(a[1], SStr):
                raise AnalysisError("%s:%d: attribute name %r" % (mod.path, e.lineno, a[1]))
            try:
                v = self.attr(a[0], a[1])
                return True if n == "hasattr" else v
            except PyExc as x:
                if x.t != "AttributeError":
                    raise
                if n == "hasattr":
                    return False
                if len(a) > 2:
                    return a[2]
                raise
        if n == "setattr":
            self.setattr(a[0], a[1], a[2])
            return None
        if n == "delattr":
            if isinstance(a[0], Obj):
                a[0].a.pop(a[1], None)
            return None
        if n == "type":
            if isinstance(a[0], Obj):
                return a[0].cls
            if isinstance(a[0], Sym):
                return Sym("type", a[0])
            return Builtin(type(a[0]).__name__)
        if n == "super":
            return Super(a[0], a[1])
        if n == "len":
            v = a[0]
            if isinstance(v, (list, tuple, dict, set, str, range)):
                return len(v)
            if isinstance(v, Obj):
                return self.call(self.attr(v, "__len__"), [], {}, e, mod)
            return Sym("len", freeze(v))
        if n in ("list", "tuple", "set", "sorted", "reversed", "frozenset"):
            if n in ("list", "tuple", "set") and not a:
                return {"list": [], "tuple": (), "set": set()}[n]
            if isinstance(a[0], Sym):
                if n in ("list", "tuple"):
                    return a[0]
                return Sym("call", Sym("name", n), (a[0],))
            xs = self.iterate(a[0], e, mod)
            if n == "sorted":
                if concrete(xs) and not kw:
                    return sorted(xs)
                if not kw and all(isinstance(x, (tuple, list)) and x and isinstance(x[0], str) for x in xs) and \
                        len({x[0] for x in xs}) == len(xs):
                    return sorted(xs, key=lambda x: x[0])
                if "key" in kw:
                    ks = [self.call(kw["key"], [x], {}, e, mod) for x in xs]
                    if concrete(ks):
                        r = [x for _, x in sorted(zip(ks, xs), key=lambda p: p[0])]
                        return r[::-1] if kw.get("reverse") is True else r
                return Sym("sorted", freeze(xs))
            return {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset,
                    "reversed": lambda y: list(reversed(y))}[n](xs)
        if n == "dict":
            d = {}
            if a:
                if isinstance(a[0], dict):
                    d.update(a[0])
                elif isinstance(a[0], Obj):
                    d.update(self.items(a[0], e, mod))
                else:
                    for p in self.iterate(a[0], e, mod):
                        k, v = self.iterate(p, e, mod, 2)
                        d[k] = v
            d.update(kw)
            return d
        if n in ("any", "all"):
            for x in self.iterate(a[0], e, mod):
                if self.truth(x) == (n == "any"):
                    return n == "any"
            return n == "all"
        if n == "enumerate":
            s = a[1] if len(a) > 1 else kw.get("start", 0)
            return [(i + s, x) for i, x in enumerate(self.iterate(a[0], e, mod))]
        if n == "zip":
            return list(zip(*[self.iterate(x, e, mod) for x in a]))
        if n == "map":
            return [self.call(a[0], [x], {}, e, mod) for x in self.iterate(a[1], e, mod)]
        if n == "filter":
            return [x for x in self.iterate(a[1], e, mod) if self.truth(self.call(a[0], [x], {}, e, mod))]
        if n == "range":
            if all(isinstance(x, int) for x in a):
                return range(*a)
            return Sym("range", *[freeze(x) for x in a])
        if n == "iter":
            return a[0] if len(a) == 1 else Sym("iter", freeze(a[0]), freeze(a[1]))
        if n == "int":
            if isinstance(a[0], str):
                try:
                    return int(a[0])
                except ValueError:
                    raise PyExc("ValueError", "int(%r)" % a[0])
            if isinstance(a[0], SStr):
                return self.to_int(a[0])
        if n == "str" and a and isinstance(a[0], Ext):
            r = a[0].x_str()
            if r is not NotImplemented:
                return r
        if n == "str":
            if not a:
                return ""
            if isinstance(a[0], (str, SStr)):
                return a[0]
            if not concrete(a[0]):
                return Sym("str", freeze(a[0]))
            return str(a[0])
        if n in ("min", "max", "sum"):
            xs = self.iterate(a[0], e, mod) if len(a) == 1 else a
            if isinstance(a[0], Sym) and len(a) == 1:
                return Sym(n, a[0])
            if concrete(xs) and not kw:
                try:
                    return {"min": min, "max": max, "sum": sum}[n](xs)
                except ValueError as x:
                    raise PyExc("ValueError", str(x))
            if len(xs) == 1 and n != "sum":
                return xs[0]
            return Sym(n, freeze(list(xs)))
        if n == "open":
            self.events.append(("open", freeze(a[0]), freeze(a[1]) if len(a) > 1 else kw.get("mode", "r")))
            return Sym("file", freeze(a[0]), freeze(a[1]) if len(a) > 1 else kw.get("mode", "r"))
        if n == "callable":
            return isinstance(a[0], (Fun, Bound, Cls, Builtin)) or self.decide(("callable", freeze(a[0])))
        if n == "object":
            return Sym("obj", "object%d" % self.steps)
        if n in ("float", "bool", "abs", "round", "repr", "ord", "chr", "pow", "divmod", "format", "bytes", "int"):
            if n == "bool":
                return self.truth(a[0]) if a else False
            if concrete(a):
                try:
                    return {"float": float, "abs": abs, "round": round, "repr": repr, "ord": ord, "chr": chr, "pow": pow,
                            "divmod": divmod, "format": format, "bytes": bytes, "int": int}[n](*a)
                except (ValueError, TypeError) as x:
                    raise PyExc(type(x).__name__, str(x))
            if n in ("float", "int") and a[0] is None:
                raise PyExc("TypeError")
            if n == "format":
                return mkstr(self.fmt(a[0], a[1] if len(a) > 1 else ""))
            return Sym(n, *[freeze(x) for x in a])
        raise AnalysisError("builtin " + n)

    def to_int(self, s):
        c = [x for x in s.c]
        while c and isinstance(c[0], str) and c[0].isspace():
            c.pop(0)
        while c and isinstance(c[-1], str) and c[-1].isspace():
            c.pop()
        if len(c) == 1 and c[0][0] == "v":
            return c[0][1]
        if c and all(not isinstance(x, str) and x[0] == "f" and x[1] == c[0][1] for x in c) and \
                [x[3] for x in c] == list(range(c[0][2])):
            return c[0][1]
        return Sym("badint", s)

    def isinstance(self, v, t):
        if isinstance(v, Ext) and not isinstance(t, (tuple, Cls)):
            return v.x_is(t.n if isinstance(t, Builtin) else show(t))
        if isinstance(t, tuple):
            return any(self.isinstance(v, x) for x in t)
        if isinstance(t, Cls):
            return isinstance(v, Obj) and t in v.cls.mro()
        if isinstance(t, Builtin):
            ty = {"str": (str, SStr), "int": int, "float": float, "dict": dict, "list": list, "tuple": tuple, "set": set,
                  "bool": bool, "bytes": bytes}.get(t.n)
            if isinstance(v, Sym):
                if v.k[0] == "in":
                    return False if t.n in ("dict", "list", "tuple", "set", "bytes") else self.decide(("isinstance", v, t.n))
                return self.decide(("isinstance", v, t.n))
            if isinstance(v, Obj):
                return False
            return isinstance(v, ty) if ty else False
        return self.decide(("isinstance", freeze(v), freeze(t)))

    def method(self, o, n, args, kw, e, mod):
        a = args
        if isinstance(o, SStr):
            return self.strmethod(o, n, a, kw, e, mod)
        if isinstance(o, str):
            if n == "format":
                return self.strformat(o, a, kw)
            if n == "join":
                xs = self.iterate(a[0], e, mod)
                out = []
                for i, x in enumerate(xs):
                    if i:
                        out += list(o)
                    out += list(cells(x))
                return mkstr(out)
            if n == "encode":
                return o
            if concrete(a) and concrete(kw):
                try:
                    return getattr(o, n)(*a, **kw)
                except (ValueError, TypeError) as x:
                    raise PyExc(type(x).__name__, str(x))
            return Sym("call", Sym("attr", o, n), tuple(freeze(x) for x in a))
        if isinstance(o, bytes):
            return getattr(o, n)(*a, **kw)
        if isinstance(o, dict):
            if n == "get":
                if a[0] in o:
                    return o[a[0]]
                if isinstance(a[0], (Sym, SStr)):
                    for k in o:
                        if self.truth(self.cmp("Eq", a[0], k, e, mod)):
                            return o[k]
                return a[1] if len(a) > 1 else kw.get("default")
            if n == "update":
                if a:
                    d = a[0]
                    if isinstance(d, Obj):
                        d = self.items(d, e, mod)
                    if not isinstance(d, dict):
                        d = dict(self.iterate(x, e, mod, 2) for x in self.iterate(d, e, mod))
                    o.update(d)
                o.update(kw)
                return None
            if n == "items":
                return [(k, v) for k, v in o.items()]
            if n in ("keys", "values"):
                return list(getattr(o, n)())
            if n == "pop":
                if a[0] in o:
                    return o.pop(a[0])
                if len(a) > 1:
                    return a[1]
                raise PyExc("KeyError", a[0])
            if n == "setdefault":
                return o.setdefault(*a)
            if n == "copy":
                return dict(o)
            if n == "clear":
                return o.clear()
        if isinstance(o, Arr):
            if n in ("tolist",):
                return list(o)
            return Sym("call", Sym("attr", freeze(o), n), tuple(freeze(x) for x in a))
        if isinstance(o, list):
            if n in ("append", "insert", "clear", "copy", "reverse"):
                return getattr(o, n)(*a)
            if n == "extend":
                o.extend(self.iterate(a[0], e, mod))
                return None
            if n == "pop":
                try:
                    return o.pop(*a)
                except IndexError:
                    raise PyExc("IndexError")
            if n in ("index", "count", "remove"):
                for i, x in enumerate(o):
                    if self.truth(self.cmp("Eq", x, a[0], e, mod)):
                        return i if n == "index" else (o.pop(i) and None if n == "remove" else 1)
                raise PyExc("ValueError", "not in list")
            if n == "sort" and concrete(o) and not kw:
                o.sort()
                return None
        if isinstance(o, tuple) and n in ("index", "count"):
            return self.method(list(o), n, a, kw, e, mod)
        if isinstance(o, (set, frozenset)):
            if n in ("add", "discard", "update", "copy", "union", "issubset", "clear", "difference", "intersection"):
                return getattr(o, n)(*[x if n in ("add", "discard") else self.iterate(x, e, mod) for x in a])
        if isinstance(o, (int, float)) and concrete(a):
            return getattr(o, n)(*a)
        raise AnalysisError("%s:%s: method %s of %s" % (mod.path, getattr(e, "lineno", "?"), n, show(freeze(o))[:60]))

    def strformat(self, o, a, kw):
        import string
        out = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(o):
            out += list(lit)
            if field is None:
                continue
            if field == "":
                v = a[auto]
                auto += 1
            elif field.isdigit():
                v = a[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                raise AnalysisError("format field " + field)
            out += self.fmt(v, spec or "")
        return mkstr(out)

    def strmethod(self, o, n, a, kw, e, mod):
        if n in ("strip", "lstrip", "rstrip") and (not a or a[0] in (" ", "\n", " \n")):
            c = list(o.c)
            ok = lambda x: isinstance(x, str) and (x.isspace() if not a else x in a[0])
            if n != "rstrip":
                while c and ok(c[0]):
                    c.pop(0)
            if n != "lstrip":
                while c and ok(c[-1]):
                    c.pop()
            return mkstr(c)
        if n == "startswith" and isinstance(a[0], str):
            return self.truth(self.cmp("Eq", self.sslice(o, slice(0, len(a[0]))), a[0], e, mod))
        if n == "startswith" and isinstance(a[0], tuple):
            return any(self.strmethod(o, n, [x], kw, e, mod) for x in a[0])
        if n in ("encode", "decode"):
            return o
        if n in ("split", "rsplit", "partition"):
            sep = a[0] if a else kw.get("sep")
            mx = a[1] if len(a) > 1 else kw.get("maxsplit", -1)
            if n == "split" and sep in (None, " "):
                out, cur = [], []
                cs = list(o.c)
                i = 0
                while i < len(cs):
                    x = cs[i]
                    if isinstance(x, str) and (x.isspace() if sep is None else x == sep):
                        if cur or sep is not None:
                            out.append(mkstr(cur))
                            cur = []
                            if 0 <= mx <= len(out):
                                cur = cs[i + 1:]
                                while sep is None and cur and isinstance(cur[0], str) and cur[0].isspace():
                                    cur.pop(0)
                                break
                    else:
                        cur.append(x)
                    i += 1
                if cur or sep is not None:
                    out.append(mkstr(cur))
                return out
        if n == "replace" and all(isinstance(x, str) for x in a):
            return Sym("call", Sym("attr", o, n), tuple(a))
        return Sym("call", Sym("attr", o, n), tuple(freeze(x) for x in a))

    def mapping(self, o, n, a, kw, e, mod):
        get = lambda k: self.call(self.attr(o, "__getitem__"), [k], {}, e, mod)
        keys = [] if n == "get" else list(self.iterate(self.call(self.attr(o, "__iter__"), [], {}, e, mod), e, mod))
        if n == "get":
            try:
                return get(a[0])
            except PyExc as x:
                if x.t != "KeyError":
                    raise
                return a[1] if len(a) > 1 else kw.get("default")
        if n == "keys":
            return keys
        if n == "items":
            return [(k, get(k)) for k in keys]
        if n == "values":
            return [get(k) for k in keys]
        if n == "pop":
            try:
                v = get(a[0])
            except PyExc as x:
                if x.t != "KeyError" or len(a) < 2:
                    raise
                return a[1]
            self.call(self.attr(o, "__delitem__"), [a[0]], {}, e, mod)
            return v
        if n == "setdefault":
            try:
                return get(a[0])
            except PyExc:
                self.call(self.attr(o, "__setitem__"), [a[0], a[1]], {}, e, mod)
                return a[1]
        if n == "update":
            d = a[0] if a else {}
            for k, v in list(d.items()) + list(kw.items()):
                self.call(self.attr(o, "__setitem__"), [k, v], {}, e, mod)
            return None
        raise AnalysisError("mapping method " + n)


# ------------------------------------------------------------------ numpy & co.
def _np_array(ip, a, kw):
    v = a[0]
    if isinstance(v, (list, tuple)) and not isinstance(v, Arr):
        return Arr([Arr(x) if isinstance(x, (list, tuple)) else x for x in v])
    return v if isinstance(v, Arr) else NotImplemented


def _np_shape(ip, a, kw):
    v = a[0]
    out = []
    while isinstance(v, (list, tuple)):
        out.append(len(v))
        v = v[0] if v else None
    return tuple(out)


def _np_all(ip, a, kw):
    return a[0] if isinstance(a[0], (bool, Sym)) else NotImplemented


def _product(ip, a, kw):
    import itertools
    return [t for t in itertools.product(*[list(x) for x in a])]


def _join(ip, a, kw):
    out = list(cells(a[0]))
    for x in a[1:]:
        out += ["/"] + list(cells(x))
    return mkstr(out)


def _exists(ip, a, kw):
    return ip.decide(("exists", freeze(a[0])))


def _linspace(ip, a, kw):
    n = a[2] if len(a) > 2 else kw.get("num")
    if isinstance(n, int) and concrete(a[0]) and concrete(a[1]):
        return Arr([a[0] + (a[1] - a[0]) * i / (n - 1) if n > 1 else a[0] for i in range(n)])
    if isinstance(n, int):
        return Arr([Sym("lin", freeze(a[0]), freeze(a[1]), n, i) for i in range(n)])
    return NotImplemented


def _arange(ip, a, kw):
    if kw or not a or not all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in a):
        return NotImplemented
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    n = max(0, math.ceil((hi - lo) / st))
    return Arr([lo + st * i for i in range(n)])


EXTERNAL = {
    "numpy.arange": _arange,
    "numpy.array": _np_array, "numpy.asarray": _np_array, "numpy.shape": _np_shape, "numpy.all": _np_all,
    "itertools.product": _product, "os.path.join": _join, "os.path.exists": _exists, "numpy.linspace": _linspace,
}
