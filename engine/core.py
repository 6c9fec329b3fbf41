"""Shared analysis core: access paths through aliases, interprocedural contexts, and a structured
forward data-flow walker over finite client states (powerset lattice, loops to fixpoint)."""
import os, re, sys
from facts import Program, AnalysisError, Fn, REPO, SRC, VERIF

# ------------------------------------------------------------------ tree helpers
CHILD_KEYS = ("init", "cv", "v", "r", "c", "ce", "o", "e", "b", "x", "y", "inc", "sz", "a", "s", "d", "h", "body", "cap", "bind", "cl", "vars", "ini")

def kids(n):
    for k in CHILD_KEYS:
        v = n.get(k)
        if v is None:
            continue
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x

def walk(n):
    """Every node of the tree, pre-order (lambda bodies included)."""
    st = [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        yield x
        st.extend(reversed(list(kids(x))))

def fn_nodes(f):
    if f.get("ini"):
        for i in f["ini"]:
            if i.get("e"):
                yield from walk(i["e"])
    if f.get("body"):
        yield from walk(f["body"])

def is_call(n):
    return n.get("k") in ("Call", "MCall", "OpCall", "Ctor")

def strip(n):
    """Drops casts that keep the value's identity and single-argument copies/moves."""
    while n is not None:
        k = n.get("k")
        if k == "Cast" or k == "DefArg" or k == "DefInit":
            n = n["e"]
        elif k == "Ctor" and (n.get("copy") or n.get("move")) and len(n["a"]) == 1:
            n = n["a"][0]
        elif k == "Call" and n.get("fn") in ("std::move", "std::forward", "std::as_const", "std::addressof") and n["a"]:
            n = n["a"][0]
        else:
            return n
    return n

def strip_casts(n):
    while n is not None and n.get("k") in ("Cast", "DefArg", "DefInit"):
        n = n["e"]
    return n

def loc(f, n=None):
    file = f.get("f", "?")
    if file.startswith(REPO + "/"):
        file = file[len(REPO) + 1:]
    return f"{file}:{(n or {}).get('l') or f.get('l')}"

def is_ref_type(t):
    return t.endswith("&")

def is_const_type(t):
    """The parameter type gives the callee no way to write the argument."""
    t = t.strip()
    if t.endswith("&&"):
        return False
    if t.endswith("&") or t.endswith("*"):
        b = t[:-1].strip()
        return b.startswith("const ") or b.endswith(" const")
    return True

# ------------------------------------------------------------------ accessors of foreign containers
# member functions that return a reference / iterator / pointer into the object
PROJ = {"operator[]", "at", "front", "back", "begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "lower_bound",
        "upper_bound", "equal_range", "data", "get", "operator*", "operator->", "value", "value_or", "top", "valuePtr", "innerIndexPtr",
        "outerIndexPtr", "coeffRef", "row", "col", "block", "middleCols", "topRows", "segment", "head", "tail",
        "diagonal", "real", "imag", "array", "matrix", "noalias", "derived", "valueRef", "local", "c_str", "str_ref", "nonZerosRef",
        "leftCols", "rightCols", "bottomRows", "middleRows", "cast", "selfadjointView", "triangularView", "transpose", "adjoint"}
# non-const member functions that do not change the object's value
NONMUT = {"begin", "end", "rbegin", "rend", "find", "lower_bound", "upper_bound", "equal_range", "data", "get", "front",
          "back", "at", "operator*", "operator->", "value", "top", "valuePtr", "innerIndexPtr", "outerIndexPtr",
          "row", "col", "block", "diagonal", "real", "imag", "array", "matrix", "noalias", "derived", "middleCols", "coeffRef", "valueRef",
          "leftCols", "rightCols", "bottomRows", "middleRows", "selfadjointView", "triangularView", "transpose", "topRows", "segment", "head", "tail"}

def short(fn):
    return fn.rsplit("::", 1)[-1] if fn else ""

# ------------------------------------------------------------------ contexts
class Ctx:
    """One activation: the function (or lambda) and what its parameters and `this` are bound to."""
    __slots__ = ("fn", "parent", "args", "this", "lex", "site", "depth", "defs")
    def __init__(self, fn, parent=None, args=None, this=None, lex=None, site=None):
        self.fn, self.parent, self.args, self.this, self.lex, self.site = fn, parent, args or {}, this, lex, site
        self.depth = 0 if parent is None else parent.depth + 1
    def chain(self):
        c, r = self, []
        while c is not None:
            r.append(c.fn.get("fn", "lambda") + (f"@{c.site.get('l')}" if c.site else ""))
            c = c.parent
        return " <- ".join(r)
    def active(self, fn):
        c = self
        while c is not None:
            if c.fn is fn:
                return True
            c = c.parent
        return False
    def owner(self):
        """The named function this context belongs to."""
        c = self
        while c is not None and "f" not in c.fn:
            c = c.lex or c.parent
        return c.fn if c else self.fn
    def root(self):
        c = self
        while c.parent is not None:
            c = c.parent
        return c

_defs_cache = {}

def defs_of(f):
    """decl id -> list of ('init'|'asg'|'mod'|'range'|'bind', expr-or-None, declnode) over a function and its lambdas."""
    r = _defs_cache.get(id(f))
    if r is not None:
        return r[1]
    d = {}
    body = [f.get("body")] + [i.get("e") for i in f.get("ini", [])]
    for b in body:
        if not b:
            continue
        for n in walk(b):
            k = n.get("k")
            if k == "Var":
                d.setdefault(n["i"], []).append(("init", n.get("init"), n))
                for bd in n.get("bind", []):
                    d.setdefault(bd["i"], []).append(("bind", bd.get("e"), n))
            elif k == "RFor":
                v = n["v"]
                # the synthesized initialiser (*__begin) is replaced by "element of the range"
                d.setdefault(v["i"], []).append(("range", n["r"], v))
                v.pop("init", None)
                for bd in v.get("bind", []):
                    d.setdefault(bd["i"], []).append(("bindrange", n["r"], v, bd.get("e")))
            elif k == "Asg":
                t = strip_casts(n["x"])
                if t.get("k") == "Ref":
                    d.setdefault(t["i"], []).append(("asg" if n["op"] == "=" else "mod", n["y"], n))
            elif k == "OpCall" and n["op"] in ("=", "+=", "-=", "*=", "/=") and n["a"]:
                t = strip_casts(n["a"][0])
                if t.get("k") == "Ref":
                    d.setdefault(t["i"], []).append(("asg" if n["op"] == "=" else "mod", n["a"][1] if len(n["a"]) > 1 else None, n))
            elif k == "Un" and n["op"] in ("++", "--"):
                t = strip_casts(n["e"])
                if t.get("k") == "Ref":
                    d.setdefault(t["i"], []).append(("mod", None, n))
    _defs_cache[id(f)] = (f, d)
    return d

def find_binding(i, ctx):
    """('arg', node, ctx) if i is a bound parameter, ('defs', list, ctx) for a local, else None."""
    c = ctx
    seen = 0
    while c is not None and seen < 60:
        seen += 1
        if i in c.args:
            return ("arg", c.args[i][0], c.args[i][1])
        d = defs_of(c.fn)
        if i in d:
            return ("defs", d[i], c)
        if any(p["i"] == i for p in c.fn.get("p", [])):
            return ("param", None, c)
        c = c.lex if c.lex is not None else c.parent
    return None

# ------------------------------------------------------------------ access paths
# a path is a tuple: root, then field qnames / '[]' steps
class Elem(str):
    """An element step "[]" that remembers the index expression and the type of the container."""
    ix = None
    ct = ""
def elem(base, idx, ctx):
    e = Elem("[]")
    e.ix, e.ct = (idx, ctx), str((base or {}).get("t", ""))
    return e
GETTERS = None      # a Program: results of the repository's getters are resolved to what they return
def getter_path(n, ctx, depth):
    if GETTERS is None or depth > 20 or ctx.depth > 20:
        return None
    found = set()
    for fn, am, th, lex in callees(GETTERS, n, ctx):
        rt = str(fn.get("t", ""))
        if not fn.get("body") or ctx.active(fn) or not (is_ref_type(rt) or _aliasing(rt)):
            return None
        nc = Ctx(fn, ctx, am, th, lex, n)
        for r in walk(fn["body"]):
            if r.get("k") == "Return" and r.get("e"):
                found.add(path(r["e"], nc, depth + 1))
    return found.pop() if len(found) == 1 else None
def path(n, ctx, depth=0):
    """The object an expression denotes, as an access path from an entry root, or None for a pure value."""
    if n is None or depth > 40:
        return None
    k = n.get("k")
    if k in ("Cast", "DefArg", "DefInit"):
        return path(n["e"], ctx, depth + 1)
    if k == "This":
        c = ctx
        while c is not None and c.this is None and (c.lex is not None):
            c = c.lex
        if c is None or c.this is None:
            return ("this",)
        return path(c.this[0], c.this[1], depth + 1) or ("tmp",)
    if k == "Mem":
        if n["w"] == "field":
            b = path(n.get("b"), ctx, depth + 1) if n.get("b") else ("this",)
            return (b + (n["q"],)) if b else ("tmp", n["q"])
        if n["w"] in ("smember", "static", "global"):
            return ("glob:" + n.get("q", n["n"]),)
        return None
    if k == "DMem":
        b = path(n.get("b"), ctx, depth + 1) if n.get("b") else ("this",)
        return (b + ("?" + n["n"],)) if b else None
    if k == "Ref":
        w = n["w"]
        if w in ("global", "static", "smember"):
            # a function-static reference/pointer is its own root
            return ("glob:" + n.get("q", n["n"]),)
        if w in ("param", "local", "binding"):
            b = find_binding(n["i"], ctx)
            if b is None:
                return (f"local:{n['n']}#{n['i']}",)
            if b[0] == "arg":
                if is_ref_type(n.get("t", "")) or n.get("t", "").endswith("*") or _aliasing(n.get("t", "")):
                    p = path(b[1], b[2], depth + 1)
                    return p if p else ("tmp",)
                # declared types of references lose '&' on Ref nodes: use the parameter's own type
                pt = _param_type(n["i"], ctx)
                if pt and (is_ref_type(pt) or pt.endswith("*") or _aliasing(pt)):
                    p = path(b[1], b[2], depth + 1)
                    return p if p else ("tmp",)
                return (f"local:{n['n']}#{n['i']}",)
            if b[0] == "param":
                return (f"param:{n['n']}",)
            ds, c = b[1], b[2]
            d = ds[0]
            if d[0] == "range":
                v = d[2]
                if is_ref_type(v["t"]):
                    p = path(d[1], c, depth + 1)
                    return (p + ("[]",)) if p else ("tmp",)
                return (f"local:{n['n']}#{n['i']}",)
            if d[0] in ("bind", "bindrange"):
                v = d[2]
                src = d[1] if d[0] == "bindrange" else v.get("init")
                if is_ref_type(v["t"]):
                    p = path(src, c, depth + 1)
                    return (p + ("[]", "#" + n["n"])) if p else ("tmp",)
                return (f"local:{n['n']}#{n['i']}",)
            if d[0] == "init" and d[1] is not None:
                t = d[2]["t"]
                if is_ref_type(t):
                    p = path(d[1], c, depth + 1)
                    return p if p else (f"local:{n['n']}#{n['i']}",)
                if len(ds) == 1 or _aliasing(t):
                    if _aliasing(t):
                        for dd in ds:
                            if dd[1] is not None and dd[0] in ("init", "asg"):
                                p = path(dd[1], c, depth + 1)
                                if p and p[0] not in ("tmp",):
                                    return p
            return (f"local:{n['n']}#{n['i']}",)
        return None
    if k == "Sub":
        b = path(n["b"], ctx, depth + 1)
        return b + (elem(n["b"], n["x"], ctx),) if b else None
    if k == "Un":
        if n["op"] in ("*", "&"):
            return path(n["e"], ctx, depth + 1)
        if n["op"] in ("++", "--"):
            return path(n["e"], ctx, depth + 1)
        return None
    if k == "OpCall":
        op = n["op"]
        if op in ("[]", "()") and not n.get("lam") and n["a"]:
            b = path(n["a"][0], ctx, depth + 1)
            if b and op == "[]":
                return b + (elem(n["a"][0], n["a"][1] if len(n["a"]) > 1 else None, ctx),)
            return getter_path(n, ctx, depth) if GETTERS else None
        if op in ("*", "->") and len(n["a"]) == 1:
            b = path(n["a"][0], ctx, depth + 1)
            return b
        if op in ("=", "+=", "-=", "*=", "/=", "++", "--", "<<", ">>") and n["a"]:
            return path(n["a"][0], ctx, depth + 1)
        return None
    if k == "MCall":
        s = short(n.get("fn"))
        if s in PROJ and "u" not in n:
            b = path(n.get("o"), ctx, depth + 1)
            if not b:
                return None
            if s in ("operator*", "operator->", "get", "noalias", "derived", "array", "matrix", "value"):
                return b
            return b + (elem(n.get("o"), n["a"][0] if s == "at" and n.get("a") else None, ctx),)
        return getter_path(n, ctx, depth) if GETTERS else None
    if k == "Call":
        if n.get("fn") in ("std::move", "std::forward", "std::as_const", "std::addressof", "std::ref", "std::cref", "std::get", "std::begin", "std::end", "std::next", "std::prev") and n["a"]:
            return path(n["a"][0], ctx, depth + 1)
        return getter_path(n, ctx, depth) if GETTERS else None
    if k == "Ctor" and len(n.get("a", [])) == 1 and _aliasing(n.get("t", "")):
        return path(n["a"][0], ctx, depth + 1)
    if k == "Asg":
        return path(n["x"], ctx, depth + 1)
    if k == "Cond":
        return path(n["x"], ctx, depth + 1) or path(n["y"], ctx, depth + 1)
    return None

def _aliasing(t):
    """Values of this type designate another object (pointers, iterators, smart pointers, views)."""
    return t.endswith("*") or t.endswith("* const") or "iterator" in t.lower() or "_ptr<" in t or "reference_wrapper" in t or "string_view" in t

def _param_type(i, ctx):
    c = ctx
    while c is not None:
        for p in c.fn.get("p", []):
            if p["i"] == i:
                return p["t"]
        c = c.lex if c.lex is not None else c.parent
    return None

def pstr(p):
    return ".".join(x.rsplit("::", 1)[-1] if not x.startswith("glob:") else x for x in p) if p else "?"

# ------------------------------------------------------------------ calls
def bind_args(callee, argnodes, ctx):
    a = {}
    ps = callee.get("p", [])
    for i, p in enumerate(ps):
        if i < len(argnodes):
            a[p["i"]] = (argnodes[i], ctx)
        elif p.get("def"):
            a[p["i"]] = (p["def"], ctx)
    return a

def lambda_of(n, ctx, depth=0):
    """The Lambda node an expression denotes (through locals and parameters), with its lexical context."""
    n = strip(n)
    if n is None or depth > 20:
        return None
    if n.get("k") == "Lambda":
        return n, ctx
    if n.get("k") == "Ctor" and len(n.get("a", [])) == 1:
        return lambda_of(n["a"][0], ctx, depth + 1)
    if n.get("k") == "Ref":
        b = find_binding(n["i"], ctx)
        if b and b[0] == "arg":
            return lambda_of(b[1], b[2], depth + 1)
        if b and b[0] == "defs" and len(b[1]) == 1 and b[1][0][1] is not None:
            return lambda_of(b[1][0][1], b[2], depth + 1)
    if n.get("k") == "Call" and n.get("fn") in ("std::ref", "std::cref", "std::move") and n["a"]:
        return lambda_of(n["a"][0], ctx, depth + 1)
    return None

def callees(prog, n, ctx):
    """[(fn-or-lambda node, args, this, lex)] for the repository callees of a call node."""
    k = n.get("k")
    out = []
    if k == "OpCall" and n.get("op") == "()" and n["a"]:
        l = lambda_of(n["a"][0], ctx)
        if l:
            ln, lc = l
            return [(ln, bind_args(ln, n["a"][1:], ctx), None, lc)]
    u = n.get("u")
    if u:
        f = prog.fns.get(u)
        targets = []
        if f is not None:
            targets.append(f)
        if n.get("virt") and not n.get("nonvirt"):
            targets += prog.all_overriders(u)
        targets = [t for t in targets if t.get("body")]
        if n.get("virt") and not n.get("nonvirt") and len(targets) > 1:
            targets = devirt(prog, targets, n, ctx)
        for t in targets:
            if k == "MCall":
                out.append((t, bind_args(t, n["a"], ctx), (n.get("o"), ctx), None))
            elif k == "OpCall" and n.get("mem"):
                out.append((t, bind_args(t, n["a"][1:], ctx), (n["a"][0], ctx), None))
            else:
                out.append((t, bind_args(t, n["a"], ctx), None if not t.get("cls") or t.get("stat") else ((n, ctx)), None))
    return out

def devirt(prog, targets, n, ctx):
    """When the object is the entry object of a method of a known class, keep the most derived override only."""
    p = path(n.get("o"), ctx)
    if p == ("this",):
        ct = getattr(ctx.root(), "fn").get("_dyncls") or None
        rc = ctx.root().fn
        dyn = rc.get("_dyn")
        if dyn:
            sel = [t for t in targets if t.get("cls") in dyn]
            if sel:
                best = min(sel, key=lambda t: dyn.index(t["cls"]))
                return [best]
    return targets

# ------------------------------------------------------------------ the data-flow walker
class Client:
    """Override what is needed; states must be hashable."""
    max_states = 4000
    max_depth = 24
    def inline(self, fn, node, ctx): return True
    def before_call(self, s, n, ctx): return (s,)
    def after_call(self, s, n, ctx, inlined): return (s,)
    def on_read(self, s, n, p, ctx): return (s,)
    def on_write(self, s, n, p, rhs, ctx): return (s,)
    def on_decl(self, s, var, ctx): return (s,)
    def on_scope_exit(self, s, var, ctx): return (s,)
    def branch(self, s, cond, truth, ctx): return (s,)
    def on_return(self, s, n, ctx): return (s,)
    def on_enter(self, s, fn, n, ctx): return (s,)
    def on_leave(self, s, fn, n, ctx): return (s,)
    def may_throw(self, n, ctx): return False
    def caught(self, s, h, ctx): return (s,)
    def on_omp(self, s, n, enter, ctx): return (s,)
    def on_node(self, s, n, ctx): return (s,)

class Flow:
    """States leaving a construct: next, break, continue, return, throw."""
    __slots__ = ("n", "b", "c", "r", "t")
    def __init__(self, n=()):
        self.n = set(n); self.b = set(); self.c = set(); self.r = set(); self.t = set()
    def absorb(self, o):
        self.b |= o.b; self.c |= o.c; self.r |= o.r; self.t |= o.t

class Walker:
    def __init__(self, prog, client):
        self.p, self.c = prog, client
        self.stats = {"calls": 0, "inlined": 0, "nodes": 0}
        self.recursion = set()

    def run(self, fn, states, this=None, args=None):
        ctx = Ctx(fn, None, args, this)
        return self.function(fn, set(states), ctx, None)

    def function(self, fn, S, ctx, site):
        out = Flow()
        S = self.each(S, lambda s: self.c.on_enter(s, fn, site, ctx))
        for i in fn.get("ini", []) or []:
            if i.get("e"):
                f = self.expr(i["e"], S, ctx); out.t |= f.t; S = f.n
                if i.get("q"):
                    base = path({"k": "This"}, ctx)
                    S = self.each(S, lambda s: self.c.on_write(s, i, (base or ("tmp",)) + (i["q"],), i["e"], ctx))
        f = self.stmt(fn.get("body"), S, ctx)
        out.t |= f.t
        out.n = f.n | f.r
        out.n = self.each(out.n, lambda s: self.c.on_leave(s, fn, site, ctx))
        out.t = self.each(out.t, lambda s: self.c.on_leave(s, fn, site, ctx))
        return out

    def each(self, S, g):
        r = set()
        for s in S:
            r.update(g(s))
        if len(r) > self.c.max_states:
            raise AnalysisError("state explosion")
        return r

    # ---------------------------------------------------------------- statements
    def stmt(self, n, S, ctx):
        if n is None or not S:
            return Flow(S)
        k = n["k"]
        m = getattr(self, "s_" + k, None)
        if m:
            return m(n, S, ctx)
        return self.expr(n, S, ctx)

    def s_Block(self, n, S, ctx):
        out = Flow()
        vars = []
        cur = S
        for x in n["s"]:
            if not cur:
                break
            if x["k"] == "Decl":
                vars.extend(x["d"])
            f = self.stmt(x, cur, ctx)
            if vars and (f.b or f.c or f.r or f.t):
                # leaving early destroys what this block declared so far
                for a in ("b", "c", "r", "t"):
                    setattr(f, a, self.destroy(getattr(f, a), vars, ctx))
            out.absorb(f)
            cur = f.n
        out.n = self.destroy(cur, vars, ctx)
        return out

    def destroy(self, S, vars, ctx):
        for v in reversed(vars):
            if v.get("static") or not S:
                continue
            S = self.each(S, lambda s: self.c.on_scope_exit(s, v, ctx))
        return S

    def s_Decl(self, n, S, ctx):
        out = Flow()
        for v in n["d"]:
            f = self.var(v, S, ctx); out.absorb(f); S = f.n
        out.n = S
        return out

    def var(self, v, S, ctx):
        f = Flow(S)
        if v.get("init"):
            i = strip_casts(v["init"])
            f = self.expr(v["init"], S, ctx)
            if is_ref_type(v["t"]):
                pass
            else:
                p = (f"local:{v['n']}#{v['i']}",)
                f.n = self.each(f.n, lambda s: self.c.on_write(s, v, p, v["init"], ctx))
        f.n = self.each(f.n, lambda s: self.c.on_decl(s, v, ctx))
        return f

    def cond(self, c, S, ctx):
        """(true states, false states, flow) with short-circuit structure."""
        c0 = strip_casts(c)
        if c0["k"] == "Bin" and c0["op"] in ("&&", "||"):
            t1, f1, fl1 = self.cond(c0["x"], S, ctx)
            if c0["op"] == "&&":
                t2, f2, fl2 = self.cond(c0["y"], t1, ctx)
                fl1.absorb(fl2)
                return t2, f1 | f2, fl1
            t2, f2, fl2 = self.cond(c0["y"], f1, ctx)
            fl1.absorb(fl2)
            return t1 | t2, f2, fl1
        if c0["k"] == "Un" and c0["op"] == "!":
            t, f, fl = self.cond(c0["e"], S, ctx)
            return f, t, fl
        if c0["k"] == "Bool":
            fl = Flow()
            return (set(S), set(), fl) if c0["v"] else (set(), set(S), fl)
        fl = self.expr(c, S, ctx)
        T = self.each(fl.n, lambda s: self.c.branch(s, c0, True, ctx))
        F = self.each(fl.n, lambda s: self.c.branch(s, c0, False, ctx))
        return T, F, fl

    def s_If(self, n, S, ctx):
        out = Flow()
        vars = []
        if n.get("init"):
            f = self.stmt(n["init"], S, ctx); out.absorb(f); S = f.n
            if n["init"]["k"] == "Decl":
                vars += n["init"]["d"]
        if n.get("cv"):
            f = self.var(n["cv"], S, ctx); out.absorb(f); S = f.n
            vars.append(n["cv"])
        if n.get("cx"):
            c = strip_casts(n["c"])
            if c.get("k") == "Bool":
                f = self.stmt(n.get("x") if c["v"] else n.get("y"), S, ctx)
                out.absorb(f); out.n = self.destroy(f.n, vars, ctx)
                return out
        T, F, fl = self.cond(n["c"], S, ctx)
        out.absorb(fl)
        a = self.stmt(n.get("x"), T, ctx); out.absorb(a)
        b = self.stmt(n.get("y"), F, ctx) if n.get("y") else Flow(F)
        out.absorb(b)
        out.n = self.destroy(a.n | b.n, vars, ctx)
        if vars:
            for x in ("b", "c", "r", "t"):
                setattr(out, x, self.destroy(getattr(out, x), vars, ctx))
        return out

    def loop(self, S, ctx, head, body, inc, atleast1=False):
        """head(S)->(T,F,flow); returns Flow. Fixpoint over the powerset of states."""
        out = Flow()
        seen = set()
        work = set(S)
        exits = set()
        if atleast1:
            f = body(work); out.r |= f.r; out.t |= f.t; exits |= f.b
            work = f.n | f.c
        while work - seen:
            new = work - seen
            seen |= new
            T, F, fl = head(new)
            out.r |= fl.r; out.t |= fl.t
            exits |= F
            f = body(T); out.r |= f.r; out.t |= f.t
            exits |= f.b
            nxt = f.n | f.c
            if inc is not None and nxt:
                fi = inc(nxt); out.t |= fi.t; nxt = fi.n
            work = nxt
        out.n = exits
        return out

    def s_For(self, n, S, ctx):
        out = Flow(); vars = []
        if n.get("init"):
            f = self.stmt(n["init"], S, ctx); out.t |= f.t; S = f.n
            if n["init"]["k"] == "Decl":
                vars = n["init"]["d"]
        def head(s):
            if n.get("c"):
                return self.cond(n["c"], s, ctx)
            return s, set(), Flow()
        f = self.loop(S, ctx, head, lambda s: self.stmt(n["body"], s, ctx), (lambda s: self.stmt(n["inc"], s, ctx)) if n.get("inc") else None)
        out.absorb(f); out.n = self.destroy(f.n, vars, ctx)
        return out

    def s_While(self, n, S, ctx):
        return self.loop(S, ctx, lambda s: self.cond(n["c"], s, ctx), lambda s: self.stmt(n["body"], s, ctx), None)

    def s_DoWhile(self, n, S, ctx):
        return self.loop(S, ctx, lambda s: self.cond(n["c"], s, ctx), lambda s: self.stmt(n["body"], s, ctx), None, atleast1=True)

    def s_RFor(self, n, S, ctx):
        out = Flow()
        if n.get("init"):
            f = self.stmt(n["init"], S, ctx); out.absorb(f); S = f.n
        f = self.expr(n["r"], S, ctx); out.t |= f.t; S = f.n
        v = n["v"]
        def head(s):
            rp = path(n["r"], ctx)
            if rp:
                s = self.each(s, lambda x: self.c.on_read(x, n["r"], rp + ("[]",), ctx))
            s2 = self.each(s, lambda x: self.c.branch(x, n, True, ctx))
            s3 = self.each(s, lambda x: self.c.branch(x, n, False, ctx))
            return s2, s3, Flow()
        def body(s):
            if not is_ref_type(v["t"]):
                s = self.each(s, lambda x: self.c.on_write(x, v, (f"local:{v['n']}#{v['i']}",), None, ctx))
            s = self.each(s, lambda x: self.c.on_decl(x, v, ctx))
            return self.stmt(n["body"], s, ctx)
        f = self.loop(S, ctx, head, body, None)
        out.absorb(f); out.n = f.n
        return out

    def s_Switch(self, n, S, ctx):
        out = Flow()
        f = self.expr(n["c"], S, ctx); out.t |= f.t; S = f.n
        body = n["body"]
        items = body["s"] if body and body["k"] == "Block" else [body]
        cur = set(); has_default = False
        def enter(x, cur):
            nonlocal has_default
            while x is not None and x["k"] in ("Case", "Default"):
                if x["k"] == "Default":
                    has_default = True
                    cur = cur | self.each(S, lambda s: self.c.branch(s, {"k": "SwitchDefault", "c": n["c"], "l": x.get("l"), "sw": n}, True, ctx))
                else:
                    cv = x
                    cur = cur | self.each(S, lambda s: self.c.branch(s, {"k": "SwitchCase", "c": n["c"], "v": cv["v"], "l": cv.get("l")}, True, ctx))
                x = x.get("s")
            return x, cur
        for x in items:
            x, cur = enter(x, cur)
            if x is None or not cur:
                continue
            f = self.stmt(x, cur, ctx)
            out.c |= f.c; out.r |= f.r; out.t |= f.t; out.n |= f.b
            cur = f.n
        out.n |= cur
        if not has_default:
            out.n |= self.each(S, lambda s: self.c.branch(s, {"k": "SwitchDefault", "c": n["c"], "l": n.get("l"), "sw": n}, True, ctx))
        return out

    def s_Case(self, n, S, ctx):
        return self.stmt(n.get("s"), S, ctx)
    s_Default = s_Case

    def s_Return(self, n, S, ctx):
        f = self.expr(n["e"], S, ctx) if n.get("e") else Flow(S)
        out = Flow(); out.t = f.t
        out.r = self.each(f.n, lambda s: self.c.on_return(s, n, ctx))
        return out

    def s_Break(self, n, S, ctx):
        o = Flow(); o.b = set(S); return o
    def s_Continue(self, n, S, ctx):
        o = Flow(); o.c = set(S); return o

    def s_Throw(self, n, S, ctx):
        f = self.expr(n["e"], S, ctx) if n.get("e") else Flow(S)
        o = Flow(); o.t = f.t | f.n
        return o

    def s_Try(self, n, S, ctx):
        b = self.stmt(n["b"], S, ctx)
        out = Flow(b.n); out.b |= b.b; out.c |= b.c; out.r |= b.r
        catchall = False
        for h in n["h"]:
            s = self.each(b.t, lambda x: self.c.caught(x, h, ctx))
            f = self.stmt(h["b"], s, ctx)
            out.n |= f.n; out.absorb(f)
            if not h.get("ct") or "std::exception" in h["ct"]:
                catchall = True
        if not catchall:
            out.t |= b.t
        return out

    def s_OMP(self, n, S, ctx):
        out = Flow()
        S = self.each(S, lambda s: self.c.on_omp(s, n, True, ctx))
        if n.get("body"):
            f = self.stmt(n["body"], S, ctx); out.absorb(f); S = f.n
        out.n = self.each(S, lambda s: self.c.on_omp(s, n, False, ctx))
        return out

    # ---------------------------------------------------------------- expressions
    def expr(self, n, S, ctx, lv=False):
        """Evaluates an expression; lv: it is used as an object, not read."""
        if n is None or not S:
            return Flow(S)
        self.stats["nodes"] += 1
        k = n["k"]
        out = Flow()
        def sub(x, S, lv=False):
            f = self.expr(x, S, ctx, lv)
            out.t.update(f.t)
            return f.n
        def rd(S, p):
            if p is None:
                return S
            return self.each(S, lambda s: self.c.on_read(s, n, p, ctx))
        def wr(S, p, rhs):
            if p is None:
                return S
            return self.each(S, lambda s: self.c.on_write(s, n, p, rhs, ctx))
        if k in ("Block", "If", "For", "While", "DoWhile", "RFor", "Switch", "Return", "Break", "Continue", "Try", "OMP", "Decl", "Case", "Default"):
            return self.stmt(n, S, ctx)
        if k == "Throw":
            return self.s_Throw(n, S, ctx)
        S = self.each(S, lambda s: self.c.on_node(s, n, ctx))
        if k in ("Cast", "DefArg", "DefInit"):
            out.n = sub(n["e"], S, lv); return out
        if k == "Ref":
            if not lv and n["w"] not in ("fn", "enum"):
                S = rd(S, path(n, ctx))
            out.n = S; return out
        if k in ("Mem",):
            if n.get("b"):
                S = sub(n["b"], S, True)
            if not lv:
                S = rd(S, path(n, ctx))
            out.n = S; return out
        if k == "Asg":
            S = sub(n["y"], S)
            S = sub(n["x"], S, True)
            p = path(n["x"], ctx)
            if n["op"] != "=":
                S = rd(S, p)
            out.n = wr(S, p, n["y"]); return out
        if k == "Un":
            if n["op"] in ("++", "--"):
                S = sub(n["e"], S, True); p = path(n["e"], ctx)
                S = rd(S, p); out.n = wr(S, p, None); return out
            if n["op"] == "&":
                out.n = sub(n["e"], S, True); return out
            S = sub(n["e"], S)
            if n["op"] == "*" and not lv:
                pass
            out.n = S; return out
        if k == "Bin":
            if n["op"] in ("&&", "||"):
                T, F, fl = self.cond(n, S, ctx)
                out.t |= fl.t; out.n = T | F; return out
            S = sub(n["x"], S); out.n = sub(n["y"], S); return out
        if k == "Cond":
            T, F, fl = self.cond(n["c"], S, ctx); out.t |= fl.t
            a = sub(n["x"], T, lv) if T else set()
            b = sub(n["y"], F, lv) if F else set()
            out.n = set(a) | set(b); return out
        if k == "Sub":
            S = sub(n["x"], S); S = sub(n["b"], S, True)
            if not lv:
                S = rd(S, path(n, ctx))
            out.n = S; return out
        if k == "Lambda":
            for c in n.get("cap", []):
                if c.get("init") and not c.get("ref"):
                    S = sub(c["init"], S)
            out.n = S; return out
        if k in ("Call", "MCall", "OpCall", "Ctor"):
            return self.call(n, S, ctx, lv)
        if k == "New":
            if n.get("init"):
                S = sub(n["init"], S)
            out.n = S; return out
        if k == "Delete":
            out.n = sub(n["e"], S); return out
        for c in kids(n):
            if c.get("k"):
                S = sub(c, S)
        out.n = S
        return out

    def call(self, n, S, ctx, lv):
        out = Flow()
        c = self.c
        self.stats["calls"] += 1
        k = n["k"]
        targets = callees(self.p, n, ctx)
        obj = n.get("o") if k == "MCall" else (n["a"][0] if k == "OpCall" and n.get("mem") else None)
        args = n["a"][1:] if (k == "OpCall" and n.get("mem")) else n["a"]
        if n.get("ce"):
            f = self.expr(n["ce"], S, ctx); out.t |= f.t; S = f.n
        if obj is not None:
            f = self.expr(obj, S, ctx, True); out.t |= f.t; S = f.n
        # assignment operators evaluate the right side first
        for i, a in enumerate(args):
            pt = n.get("pt", [])
            byref = i < len(pt) and (is_ref_type(pt[i]) or pt[i].endswith("*"))
            f = self.expr(a, S, ctx, bool(byref)); out.t |= f.t; S = f.n
        S = self.each(S, lambda s: c.before_call(s, n, ctx))
        inl = [t for t in targets if ctx.depth < c.max_depth and not ctx.active(t[0]) and c.inline(t[0], n, ctx)]
        for t in targets:
            if ctx.active(t[0]) or ctx.depth >= c.max_depth:
                self.recursion.add(t[0].get("fn", "lambda"))
        if c.may_throw(n, ctx):
            out.t |= S
        if inl:
            self.stats["inlined"] += len(inl)
            res = set()
            for (fn, am, th, lex) in inl:
                nc = Ctx(fn, ctx, am, th, lex, n)
                f = self.function(fn, S, nc, n)
                out.t |= f.t
                res |= f.n
            S = res
            S = self.each(S, lambda s: c.after_call(s, n, ctx, True))
            out.n = S
            return out
        # foreign (or not inlined) callee: effects on object and reference arguments
        fnn = n.get("fn", "")
        sh = short(fnn)
        if obj is not None:
            p = path(obj, ctx)
            if p is not None:
                if k == "OpCall" and n["op"] in ("=",):
                    S = self.each(S, lambda s: c.on_write(s, n, p, args[0] if args else None, ctx))
                elif n.get("const") or sh in NONMUT or (k == "OpCall" and n["op"] in ("*", "->", "()")) or n.get("lam"):
                    if not lv or n.get("const"):
                        S = self.each(S, lambda s: c.on_read(s, n, p, ctx))
                elif k == "OpCall" and n["op"] == "[]":
                    if not lv:
                        S = self.each(S, lambda s: c.on_read(s, n, path(n, ctx) or p + ("[]",), ctx))
                    ot = (n.get("fn") or "")
                    if re.match(r"std::(unordered_)?map::", ot):
                        S = self.each(S, lambda s: c.on_write(s, n, p, None, ctx))
                elif "u" not in n or not n.get("const"):
                    S = self.each(S, lambda s: c.on_write(s, n, p, None, ctx))
        pt = n.get("pt", [])
        for i, a in enumerate(args):
            t = pt[i] if i < len(pt) else ""
            l = lambda_of(a, ctx)
            if l and not targets:
                # a callback handed to foreign code: runs any number of times
                ln, lc = l
                nc = Ctx(ln, ctx, {}, None, lc, n)
                def body(s, ln=ln, nc=nc):
                    return self.function(ln, s, nc, n)
                f = self.loop(S, ctx, lambda s: (s, s, Flow()), body, None)
                out.t |= f.t
                S = f.n
                continue
            if t and (is_ref_type(t) or t.endswith("*")):
                p = path(a, ctx)
                if p is None:
                    continue
                if i in n.get("fw", ()) or is_const_type(t) or (t.endswith("&&") and fnn in ("std::forward", "std::move")) or fnn in ("std::move", "std::forward", "std::get", "std::begin", "std::end", "std::ref"):
                    if not lv or fnn not in ("std::forward", "std::move", "std::get", "std::begin", "std::end", "std::ref", "std::as_const", "std::addressof", "std::cref", "std::next", "std::prev"):
                        S = self.each(S, lambda s: c.on_read(s, n, p, ctx))
                elif t.endswith("&&") and not (strip_casts(a).get("k") == "Call" and strip_casts(a).get("fn") == "std::move"):
                    # forwarding reference: read (writes through it are not modelled for foreign code)
                    S = self.each(S, lambda s: c.on_read(s, n, p, ctx))
                else:
                    S = self.each(S, lambda s: c.on_write(s, n, p, None, ctx))
        if k == "OpCall" and not n.get("mem") and n["op"] == "=" and n["a"]:
            p = path(n["a"][0], ctx)
            if p:
                S = self.each(S, lambda s: c.on_write(s, n, p, n["a"][1], ctx))
        S = self.each(S, lambda s: c.after_call(s, n, ctx, False))
        out.n = S
        return out

# ------------------------------------------------------------------ reporting
class Report:
    def __init__(self, pid):
        self.pid = pid
        self.viol = []       # (key, text)
        self.obl = 0
        self.discharged = 0
        self.samples = []
        self.analysed = {}
        self.notes = []
        self.rules = []
        self._seen = set()
    def ok(self, what, sample=None):
        if what in self._seen:
            return
        self._seen.add(what)
        self.obl += 1; self.discharged += 1
        if len(self.samples) < 400:
            self.samples.append(what)
    def bad(self, key, text):
        if all(k != key for k, _ in self.viol):
            self.obl += 1
            self.viol.append((key, text))
    def check(self, cond, key, okmsg, badmsg):
        if cond:
            self.ok(okmsg)
        else:
            self.bad(key, badmsg)
        return cond
    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)
    def count(self, k, n=1):
        self.analysed[k] = self.analysed.get(k, 0) + n
    def floor(self, k, n):
        if self.analysed.get(k, 0) < n:
            raise AnalysisError(f"instance floor: {k} = {self.analysed.get(k, 0)} < {n}")
