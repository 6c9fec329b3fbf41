"""Abstract evaluation of the binary container. (a) The type table: every type has one code, no code twice,
and the GUI's loader maps each code it may meet to the numpy type of the same kind and width. (b) Every
instantiation of the read operators is evaluated from an arbitrary position in arbitrarily long data; the
decisions of each path are linear in position, end and element count: no byte past the end may be touched,
nothing complete may be refused, the element type read is the one the code stands for, and the position
advances by exactly what was read. (c) The write operators followed by save() on symbolic items: the
pieces written are contiguous, in the order code/length/code/data, and fill the buffer exactly. (d) The
matrix writer and reader are evaluated to the ordered list of items; each item must carry dimensions, values,
row positions and column starts of both matrices and be put back where it came from, for real and complex
numbers. (e) The loader's reading order is taken from its Python syntax tree and matched against the list."""
import ast, itertools
from core import *
from facts import *
from absev import *
FLOORS = {"read operators": 4, "write operators": 4, "paths": 300, "matrix items": 24}
S = "Serializer::"
SIZE = {"signed char": 1, "unsigned char": 1, "char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8,
        "unsigned long": 8, "long long": 8, "unsigned long long": 8, "float": 4, "double": 8}
NUMPY = {"signed char": "int8", "short": "int16", "int": "int32", "long": "int64", "unsigned char": "uint8", "unsigned short": "uint16",
         "unsigned int": "uint32", "unsigned long": "uint64", "float": "float32", "double": "float64", "char": ("int8", "S1", "uint8"), "bool": ("bool", "uint8", "int8")}

def clean(t):
    return " ".join(x for x in t.replace("*", " ").replace("&", " ").split() if x != "const")

class Ser(AbsEval):
    """adds raw memory: ("rp", T, position) is a pointer of type T at a byte position of the input"""
    check_take = None
    def inline(self, f, n):
        return super().inline(f, n)
    def rv(self, n, st, fr, outs):
        if n is not None:
            if n.get("k") == "TypeId":
                return [(("tid", clean(n["ty"])), st)]
            if n.get("k") == "Cast" and n.get("ck") == "BitCast":
                r = []
                for v, s in self.rv(n["e"], st, fr, outs):
                    T = clean(n["t"])
                    if type(v) is tuple and v[:1] == ("rp",):
                        v = ("rp", T, v[2])
                    elif type(v) is tuple and v[:1] == ("ptr",):
                        v = ("raw", clean(n["e"]["t"]), v[1])
                    r.append((v, s))
                return r
            if n.get("k") == "Un" and n["op"] == "&":
                return [(("rp", "unsigned char", v[1][1]) if v[1][:1] == ("#at",) else v, s) for v, s in super().rv(n, st, fr, outs)]
        return super().rv(n, st, fr, outs)
    def binop(self, op, a, b, st):
        if op == "+" and type(a) is tuple and a[:1] == ("ptr",) and type(b) in (int, tuple):
            return ("app", "+", a, hashable(b)) if b != 0 else a
        if op in ("*", "+") and (a, b).count(UNK) == 0:
            if op == "*" and 1 in (a, b):
                return b if a == 1 else a
            if op == "+" and (type(a) is int and a == 0 or type(b) is int and b == 0):
                return b if type(a) is int and a == 0 else a
        return super().binop(op, a, b, st)
    def span(self, lo, hi):
        """(T, position, count) of the raw pointer range [lo, hi)"""
        if type(lo) is tuple and lo[:1] == ("rp",):
            if hi == lo:
                return lo[1], lo[2], 0
            if type(hi) is tuple and hi[:2] == ("app", "+") and hi[2] == lo:
                return lo[1], lo[2], hi[3]
            if type(hi) is tuple and hi[:2] == ("app", "+") and hi[3] == lo:
                return lo[1], lo[2], hi[2]
        return None
    def take(self, st, T, pos, cnt, into, n, fr):
        self.check_take(st, T, pos, cnt, self.here(n, fr))
        s = self.seq(st, ("take", T, pos, cnt, into))
        return s
    def seq(self, st, e):
        s = dict(st); s[("#seq",)] = st.get(("#seq",), ()) + (e,)
        return s
    def prim(self, n, name, ol, args, st, fr):
        k, sh = n["k"], short(name)
        vs = lambda i: self.val(args[i], st)
        if name.startswith("std::type_index::type_index") and k == "Ctor":
            return [(vs(0), st)]
        if k == "OpCall" and n["op"] == "*" and name.startswith("__gnu_cxx"):
            v = self.value_of(st, ol) if ol is not None else vs(0)
            if not (type(v) is tuple and v[0] in ("iter", "enditer")):
                return [(("ref", ("#at", hashable(v))), st)]
        if k == "OpCall" and n["op"] in ("+=", "-=") and name.startswith("__gnu_cxx") and ol is not None:
            v = self.binop(n["op"][0], self.value_of(st, ol), vs(0), st)
            return [(("ref", ol), self.put(st, ol, v))]
        if name in ("std::advance",) and args[0][0] == "l":
            l = args[0][1]
            return [(None, self.put(st, l, self.binop("+", self.value_of(st, l), vs(1), st)))]
        if name in ("std::next",):
            return [(self.binop("+", vs(0), vs(1) if len(args) > 1 else 1, st), st)]
        if name in ("std::copy", "std::copy_n", "memcpy", "std::memcpy"):
            if name == "std::copy":
                sp, d, raw = self.span(vs(0), vs(1)), vs(2), vs(0)
            elif name == "std::copy_n":
                sp = (vs(0)[1], vs(0)[2], vs(1)) if type(vs(0)) is tuple and vs(0)[:1] == ("rp",) else None
                d, raw = vs(2), vs(0)
            else:
                d, raw, sp = vs(0), vs(1), None
            if name.endswith("memcpy"):
                if type(raw) is tuple and raw[:1] == ("rp",):
                    # bytes into an object of the destination's own type
                    a = strip_casts(n["a"][0])
                    T = clean(a["t"])
                    l = d[1] if d[0] == "ptr" else d[2] if d[0] == "raw" else None
                    cnt = vs(2)
                    w = SIZE.get(T)
                    cnt = cnt // w if type(cnt) is int and w and cnt % w == 0 else ("app", "/", hashable(cnt), w)
                    sp, d = (T, raw[2], cnt), ("ptr", l)
            if sp:
                T, pos, cnt = sp
                if type(d) is tuple and d[:1] == ("ptr",):
                    s = self.take(st, T, pos, cnt, d[1], n, fr)
                    return [(UNK, self.put(s, d[1], ("read", T, hashable(pos))))]
                if type(d) is tuple and d[:1] == ("inserter",) or type(d) is tuple and d[0] in ("iter",):
                    s = self.take(st, T, pos, cnt, d[1], n, fr)
                    return [(UNK, self.put(s, d[1], ("vec", T, hashable(pos), hashable(cnt))))]
            if type(raw) is tuple and raw[:1] in (("raw",), ("ptr",)) or raw == NULL or type(raw) is tuple and raw[:1] == ("app",):
                ends = vs(1)
                if name == "std::copy":
                    cnt = ends[3] if type(ends) is tuple and ends[:2] == ("app", "+") and ends[2] == raw else ends[2] if type(ends) is tuple and ends[:2] == ("app", "+") and ends[3] == raw else 0 if ends == raw else UNK
                else:
                    cnt = vs(1) if name == "std::copy_n" else vs(2)
                src = raw
                if type(raw) is tuple and raw[:1] == ("raw",):
                    v = self.value_of(st, raw[2])
                    src = ("val", raw[1], hashable(v), raw[2])
                return [(self.binop("+", d, cnt, st), self.seq(st, ("write", hashable(src), hashable(cnt), hashable(d), self.here(n, fr))))]
        if name in ("std::back_inserter",) and args[0][0] == "l":
            return [(("inserter", args[0][1]), st)]
        if k == "Ctor" and name == "std::vector::vector" and len(args) >= 2 and self.span(vs(0), vs(1)):
            T, pos, cnt = self.span(vs(0), vs(1))
            return [(("vec", T, hashable(pos), hashable(cnt)), self.take(st, T, pos, cnt, "tmp", n, fr))]
        if k == "MCall" and name in ("std::vector::insert", "std::vector::assign") and ol is not None:
            a = [self.val(x, st) for x in args]
            a = a[1:] if sh == "insert" else a
            if len(a) == 2:
                if self.span(*a):
                    T, pos, cnt = self.span(*a)
                    s = self.take(st, T, pos, cnt, ol, n, fr)
                    return [(None, self.put(s, ol, ("vec", T, hashable(pos), hashable(cnt))))]
                if type(a[0]) is tuple and a[0][0] == "iter" and a[1] == ("enditer", a[0][1]):
                    return [(None, self.put(st, ol, self.value_of(st, a[0][1])))]
        if k == "MCall" and sh in ("resize", "reserve", "clear") and ol is not None and name.startswith("std::vector"):
            s = dict(st)
            if sh == "resize":
                s = self.seq(s, ("resize", ol, hashable(vs(0))))
            elif sh == "clear":
                s = self.put(s, ol, ("empty",))
            return [(None, s)]
        if k == "MCall" and sh in ("push_back", "emplace_back") and ol is not None and ol[-1:] and str(ol[-1]).startswith(S):
            i = st.get(ol + ("#n",), 0)
            v = vs(0)
            c = st
            base = {x: y for x, y in c.items()}
            base[ol + (("idx", i),)] = v
            base[ol + ("#n",)] = i + 1
            return [(None, base)]
        if k == "MCall" and sh in ("size", "empty") and ol is not None and name.startswith("std::vector") and ol + ("#n",) in st:
            return [(st[ol + ("#n",)] if sh == "size" else st[ol + ("#n",)] == 0, st)]
        if k == "MCall" and sh == "at" and ol is not None and args:
            return [(("ref", ol + (("idx", hashable(vs(0))),)), st)]
        if k == "MCall" and "_Bit_reference" in name or k == "MCall" and sh.startswith("operator bool"):
            if ol is not None:
                return [(self.value_of(st, ol), st)]
        return super().prim(n, name, ol, args, st, fr)

# ------------------------------------------------------------------ linear terms on small values
def ev(t, env):
    if type(t) in (int, bool): return t
    if t in env: return env[t]
    if type(t) is tuple and t[:1] == ("app",):
        if t[1] == "std::distance" and len(t) == 4:
            return ev(t[3], env) - ev(t[2], env)
        if len(t) == 4 and t[1] in ("+", "-", "*", "/", "<", ">", "<=", ">=", "==", "!="):
            a, b = ev(t[2], env), ev(t[3], env)
            return {"+": a + b, "-": a - b, "*": a * b, "/": a // b if b else 0, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[t[1]]
        if t[1] == "neg": return -ev(t[2], env)
    if type(t) is tuple and t[:1] == ("not",): return not ev(t[1], env)
    raise KeyError(t)

def run(rep):
    prog = Program(all_tus())
    ctor = prog.need("Serializer::Serializer")[0]
    e = Ser(prog)
    this = ("this",)
    outs = e.run(ctor, {}, this)
    tables = [o[2] for o in outs if o[0] == "ret"]
    if len(tables) != 1:
        raise AnalysisError("the constructor of the container has several outcomes")
    T0 = tables[0]
    ids = {k[-1][1][1]: v for k, v in T0.items() if k[:1] == this and len(k) > 1 and type(k[-1]) is tuple and k[-1][0] == "idx" and type(k[-1][1]) is tuple and k[-1][1][0] == "tid"}
    if not ids:
        raise AnalysisError("no type codes found in the constructor")
    where = loc(ctor, ctor)
    for X, v in sorted(ids.items()):
        rep.count("type codes")
        same = [y for y, w in ids.items() if w == v and y != X]
        rep.check(not same, f"code:{X}", f"type code {v} belongs to {X} alone", f"{where}: the codes of {X} and {same} are the same ({v}), so stored numbers are read as the wrong type")
    codes = {v: X for X, v in ids.items()}
    loader(rep, codes)
    readers(rep, prog, ids, T0)
    writers(rep, prog, ids, T0)
    matrices(rep, prog, ids)

# ------------------------------------------------------------------ (b) reading
def readers(rep, prog, ids, T0):
    ops = [f for f in prog.named("operator>>") if f.get("body") and not f.get("dep") and f["p"] and clean(f["p"][0]["t"]) == "Serializer"]
    cur = [x for x in ("cpbytes",)]
    for f in ops:
        rep.count("read operators")
        vec = "vector<" in f["p"][1]["t"]
        pos0, end = ("P",), ("E",)
        this, data = ("ser",), ("data",)
        st = {this + k[1:]: v for k, v in T0.items() if k[:1] == ("this",)}
        st = {k: v for k, v in st.items() if any(type(x) is tuple and x[0] == "idx" for x in k)}
        load = prog.need("Serializer::load")[0]
        e0 = Ser(prog)
        lo = [o for o in e0.run(load, st, this, [("l", ("input",))]) if o[0] == "ret"]
        if len(lo) != 1:
            raise AnalysisError("Serializer::load has several outcomes")
        st = dict(lo[0][2])
        CUR = [k for k, v in st.items() if v == ("iter", ("input",)) and k[:1] == this]
        END = [k for k, v in st.items() if v == ("enditer", ("input",)) and k[:1] == this]
        rep.check(len(CUR) >= 1 and len(END) == 1, "load", "load() starts at the first byte and knows the end", f"{loc(load, load)}: load() does not set position and end from the bytes")
        if not CUR or not END:
            return
        for k in CUR: st[k] = pos0
        for k in END: st[k] = end
        e = Ser(prog)
        name = f"reading {clean(f['p'][1]['t'])}"
        w = loc(f, f)
        codes = {v: X for X, v in ids.items()}
        def types(s):
            """for each stored code read on this path: the type it was recognised as"""
            d = {}
            for k, v in s.items():
                if type(k) is tuple and k[0] == "D" and type(k[1]) is tuple and k[1][:1] == ("app",) and k[1][1] in ("==", "!=") and v == (k[1][1] == "=="):
                    for a, b in ((k[1][2], k[1][3]), (k[1][3], k[1][2])):
                        if type(a) is tuple and a[:1] == ("read",) and type(b) is int:
                            d[a] = b
            return d
        def envs(s, extra=()):
            """small values of everything the decisions of a path speak about"""
            dec = [(k[1], v) for k, v in s.items() if type(k) is tuple and k[0] == "D"]
            ty = types(s)
            free = set()
            def coll(t):
                if type(t) is tuple:
                    if t[:1] == ("read",): free.add(t)
                    else:
                        for x in t: coll(x)
            for t, _ in dec: coll(t)
            for t in extra: coll(t)
            free -= set(ty)
            lens = [t for t in sorted(free, key=str) if t[1] != "unsigned short"]
            other = [t for t in free if t[1] == "unsigned short"]
            for E in range(0, 49):
                for vals in itertools.product((0, 1, 2, 3), repeat=len(lens)):
                    env = {pos0: 0, end: E, **ty, **dict(zip(lens, vals)), **{t: -1 for t in other}}
                    try:
                        if all(bool(ev(t, env)) == v for t, v in dec):
                            yield env
                    except KeyError as x:
                        raise AnalysisError(f"{w}: a decision that is not about positions: {x}")
        def check_take(s, T, pos, cnt, at):
            stop = ("app", "+", pos, ("app", "*", hashable(cnt), SIZE.get(T, 0)))
            bad = None
            for env in envs(s, (stop,)):
                if ev(stop, env) > env[end]:
                    bad = env; break
            rep.check(bad is None, f"bounds:{clean(f['p'][1]['t'])}:{T}", f"{name}: {T} is only read inside the data", f"{at}: {name} reads {T} past the end of the data (data that ends early is not refused)")
        e.check_take = check_take
        outs = e.run(f, st, None, [("l", this), ("l", data)])
        good = {}
        for o in outs:
            rep.count("paths")
            s = o[2]
            seq = [x for x in s.get(("#seq",), ()) if x[0] == "take"]
            ty = types(s)
            exp, items, ok = pos0, [], True
            # the layout the decisions of this path imply
            first = ("read", "unsigned short", pos0)
            if o[0] == "ret":
                i = 0
                n_items = 2 if vec else 1
                count = 1
                for j in range(n_items):
                    if i + 1 >= len(seq):
                        ok = False; break
                    tc, td = seq[i], seq[i + 1]
                    if not (clean(tc[1]) == "unsigned short" and same(tc[2], exp) and tc[3] == 1):
                        ok = False; break
                    code = ty.get(("read", "unsigned short", tc[2]))
                    X = codes.get(code)
                    exp = ("app", "+", tc[2], 2)
                    if X is None or td[1] != X or not same(td[2], exp) or not same(td[3], count):
                        ok = False; break
                    exp = ("app", "+", td[2], ("app", "*", hashable(count), SIZE[X]))
                    count = ("read", X, td[2])
                    items.append((X, td))
                    i += 2
                ok = ok and i == len(seq) and same(s.get(CUR[0], pos0), exp) or False
                if ok:
                    d = e.value_of(s, data)
                    X, td = items[-1]
                    ok = d == (("vec", X, td[2], td[3]) if vec else ("read", X, td[2]))
                key = "/".join(x for x, _ in items) or "?"
                rep.check(ok, f"read:{clean(f['p'][1]['t'])}:{key}", f"{name} stored as {key}: type, amount and position agree",
                          f"{w}: {name}, stored as {key}: what is read does not match what the code stands for or the position afterwards is wrong ({show_seq(seq)}; ends at {show(s.get(CUR[0], pos0))})")
                if ok:
                    good[key] = good.get(key, 0) + 1
            else:
                # what was complete must not be refused
                for env in envs(s):
                    need, p, count, known, enough = 0, pos0, 1, True, True
                    for j in range(2 if vec else 1):
                        r = ("read", "unsigned short", None)
                        cand = [t for t in ty if ev(t[2], env) == need]
                        if env[end] < need + 2:
                            enough = False; break
                        if not cand:
                            known = False; break
                        X = codes.get(ty[cand[0]])
                        if X is None:
                            known = False; break
                        need += 2
                        at = need
                        need += SIZE[X] * count
                        if env[end] < need:
                            enough = False; break
                        cc = [t for t in env if type(t) is tuple and t[:1] == ("read",) and t[1] == X and ev(t[2], env) == at]
                        count = env[cc[0]] if cc else 0
                    if known and enough:
                        rep.bad(f"refuse:{clean(f['p'][1]['t'])}", f"{w}: {name} refuses complete data ({env[end]} bytes left, {need} needed)")
                        break
        for X in ids:
            k = [g for g in good if g.rsplit("/", 1)[-1] == X]
            rep.check(bool(k), f"known:{clean(f['p'][1]['t'])}:{X}", f"{name} understands {X}", f"{w}: {name} cannot read what was stored as {X}")

def same(a, b):
    if a == b: return True
    free = set()
    def coll(t):
        if type(t) is tuple:
            if t[:1] in (("read",), ("P",), ("E",), ("sym",)) or t[:1] == ("app",) and t[1] not in ("+", "-", "*", "/", "neg", "std::distance"): free.add(t)
            else:
                for x in t: coll(x)
    coll(a); coll(b)
    free = sorted(free, key=str)
    try:
        for i in range(4):
            env = {t: (7 * i + 3 * j * j + j + 1) % 11 for j, t in enumerate(free)}
            if ev(a, env) != ev(b, env): return False
    except KeyError:
        return False
    return True

def show_seq(seq):
    return ", ".join(f"{show(x[3])} of {x[1]} at {show(x[2])}" for x in seq)

def show(t):
    if type(t) is tuple and t[:1] == ("app",) and len(t) == 4:
        return f"({show(t[2])} {t[1]} {show(t[3])})"
    if type(t) is tuple and t[:1] == ("read",):
        return f"[{t[1]} at {show(t[2])}]"
    if t == ("P",): return "start"
    if type(t) is tuple and t[:1] == ("sym",): return str(t[1][-1])
    return str(t)

# ------------------------------------------------------------------ (c) writing
def writers(rep, prog, ids, T0):
    ops = [f for f in prog.named("operator<<") if f.get("body") and not f.get("dep") and f["p"] and clean(f["p"][0]["t"]) == "Serializer"]
    save = prog.need("Serializer::save")[0]
    this, out = ("ser",), ("out",)
    base = {this + k[1:]: v for k, v in T0.items() if k[:1] == ("this",)}
    base = {k: v for k, v in base.items() if any(type(x) is tuple and x[0] == "idx" for x in k)}
    for fld in prog.cls("Serializer")[0]["flds"]:
        if fld["t"].startswith("std::vector"):
            base[this + (fld.get("q") or S + fld["n"], "#n")] = 0
    scal = [f for f in ops if "vector<" not in f["p"][1]["t"]]
    vect = [f for f in ops if "vector<" in f["p"][1]["t"]]
    rep.count("write operators", len(ops))
    for f in ops:
        other = vect[0] if f in scal else scal[0]
        for order in ((f, other), (other, f)):
            e = Ser(prog)
            sts = [base]
            for i, g in enumerate(order):
                sts = [o[2] for s in sts for o in e.run(g, s, None, [("l", this), ("l", ("item%d" % i,))]) if o[0] == "ret"]
            for s in sts:
                for o in e.run(save, s, this, [("l", out)]):
                    rep.count("paths")
                    if o[0] != "ret":
                        rep.bad("save-throws", f"{loc(save, save)}: save() throws")
                        continue
                    judge_save(rep, e, order, o[2], ids, f, save, out)

def judge_save(rep, e, order, s, ids, f, save, out):
    seq = s.get(("#seq",), ())
    w = loc(save, save)
    writes = [x for x in seq if x[0] == "write"]
    size = [x[2] for x in seq if x[0] == "resize" and x[1] == out]
    want = []
    for i, g in enumerate(order):
        t = g["p"][1]["t"]
        item = ("item%d" % i,)
        if "vector<" in t:
            X = clean(t.split("vector<", 1)[1].split(",")[0].rstrip(">"))
            n = ("app", "std::vector::size", ("sym", item))
            want += [("int", ids.get("int"), 2), ("n", n, 4), ("int", ids.get(X), 2), ("data", item, ("app", "*", n, SIZE[X]))]
        else:
            X = clean(t)
            want += [("int", ids.get(X), 2), ("data", item, SIZE[X])]
    kind = " and ".join(clean(g["p"][1]["t"]).split(", std::alloc")[0] for g in order)
    where = writes[0][4] if writes else w
    pos = ("iter", out)
    env_ok = len(writes) == len(want)
    msg = None if env_ok else f"{len(writes)} pieces are written instead of {len(want)}"
    off = 0
    for x, y in zip(writes, want):
        if msg: break
        _, src, cnt, dest, at = x
        d = offset(dest, pos)
        if d is None or not same(d, off):
            msg = f"{at}: a piece is written at {show(dest)} although {show(off)} bytes came before it"
        elif not same(cnt, y[2]):
            msg = f"{at}: {show(cnt)} bytes are written for {y[0]} where {show(y[2])} belong"
        elif y[0] == "int":
            if not (src[:1] == ("val",) and src[2] == y[1] and SIZE.get(src[1]) == y[2]):
                msg = f"{at}: the type code written is {src[2] if src[:1] == ('val',) else src}, not {y[1]}"
        elif y[0] == "n":
            if not (src[:1] == ("val",) and same(src[2], y[1]) and SIZE.get(src[1]) == 4):
                msg = f"{at}: the length written is {src}, not the number of elements"
        else:
            at0 = src[3] if src[:1] == ("val",) else src[1] if src[:1] == ("ptr",) else ()
            ok = at0 in (y[1], y[1] + (("idx", 0),)) or src == NULL
            if not ok:
                msg = f"{at}: the data written come from {src}"
        off = y[2] if off == 0 else ("app", "+", hashable(off), hashable(y[2]))
    if not msg and not (len(size) == 1 and same(size[0], off)):
        msg = f"the buffer gets {[show(x) for x in size]} bytes, the items need {show(off)}"
    rep.check(msg is None, f"write:{kind}", f"writing {kind}: codes, lengths and data lie one behind the other and fill the buffer", f"{w}: writing {kind}: {msg}")

def offset(t, pos):
    if t == pos: return 0
    if type(t) is tuple and t[:2] == ("app", "+"):
        a = offset(t[2], pos)
        if a is not None:
            return t[3] if a == 0 else ("app", "+", hashable(a), t[3])
    return None

# ------------------------------------------------------------------ (d) the matrices
class Mat(AbsEval):
    def inline(self, f, n):
        if f.get("fn", "") in ("operator<<", "operator>>") or f.get("fn", "").startswith(S):
            return False
        # a look at the data that can only refuse it
        if "fn" in f and not f.get("cls") and f.get("t") in ("void", "bool") and all(is_const_type(p["t"]) or not (p["t"].endswith("&") or "*" in p["t"]) for p in f["p"]):
            return False
        return super().inline(f, n)
    def seq(self, st, e):
        s = dict(st); s[("#seq",)] = st.get(("#seq",), ()) + (e,)
        return s
    def rv(self, n, st, fr, outs):
        if n is not None and n.get("k") == "Mem" and n.get("w") == "enum":
            return [(n["val"], st)]
        return super().rv(n, st, fr, outs)
    def binop(self, op, a, b, st):
        if op in ("&", "|") and UNK not in (a, b):
            r = super().binop(op, a, b, st)
            return r if r != UNK else ("app", op, hashable(a), hashable(b))
        return super().binop(op, a, b, st)
    def prim(self, n, name, ol, args, st, fr):
        k, sh = n["k"], short(name)
        vs = lambda i: self.val(args[i], st)
        if k in ("OpCall", "Call") and sh in ("operator<<", "operator>>") and n.get("pt") and clean(n["pt"][0]) == "Serializer":
            dst = args[1][1] if args[1][0] == "l" else None
            if sh == "operator<<":
                return [(None, self.seq(st, ("item", n["pt"][1], hashable(self.obj(st, vs(1))), self.here(n, fr), dst)))]
            i = sum(1 for x in st.get(("#seq",), ()) if x[0] == "in")
            s = self.seq(st, ("in", n["pt"][1], dst, self.here(n, fr)))
            return [(None, self.put(s, dst, ("in", i)))]
        if name.startswith(S):
            if sh == "save":
                # the container only keeps addresses until now
                for x in st.get(("#seq",), ()):
                    if x[0] == "item" and (x[4] is None or x[4][0] == "L" and not any(type(k) is tuple and k[:3] == x[4][:3] for k in st)):
                        st = self.seq(st, ("dead", show_item(x[2]), x[3]))
                return [(None, self.seq(st, ("save",)))]
            return [(None, self.seq(st, (sh, hashable(args[0][1]) if args else None)))]
        if k in ("Call", "MCall") and sh in ("mergeComplex", "splitComplex") and len(args) == 3:
            cx = "complex" in n["pt"][2]
            a, b, c = (args[i][1] for i in range(3))
            if sh == "mergeComplex":
                v = ("cplx", hashable(self.value_of(st, a)), hashable(self.value_of(st, b))) if cx else ("real", hashable(self.value_of(st, a)))
                return [(None, self.put(st, c, v))]
            v = hashable(self.value_of(st, c))
            s = self.put(st, a, ("re", v) if cx else ("real", v))
            if cx:
                s = self.put(s, b, ("im", v))
            return [(None, s)]
        if k == "Ctor" and name == "std::vector::vector" and len(args) >= 2 and not (args[0][0] == "v" and type(args[0][1]) is int):
            lo, hi = vs(0), vs(1)
            if type(hi) is tuple and hi[:2] == ("app", "+") and hi[2] == lo:
                return [(("vec", lo, hi[3]), st)]
        if k == "MCall" and name in ("std::vector::assign", "std::vector::insert") and ol is not None and len(args) >= 2:
            lo, hi = vs(len(args) - 2), vs(len(args) - 1)
            if type(hi) is tuple and hi[:2] == ("app", "+") and hi[2] == lo:
                return [(None, self.put(st, ol, ("vec", lo, hi[3])))]
        if k == "Ctor" and name == "std::vector::vector" and len([a for a in n["a"] if a.get("k") != "DefArg"]) == 0:
            return [(("empty",), st)]
        if k == "MCall" and ol is not None and "Eigen::" in name:
            if sh == "makeCompressed":
                s = dict(st); s[("#cmp", ol)] = True
                return [(None, s)]
            if sh in ("valuePtr", "innerIndexPtr", "outerIndexPtr", "nonZeros"):
                if ("#cmp", ol) not in st:
                    st = self.seq(st, ("uncompressed", sh, self.here(n, fr)))
                return [(("app", sh, ol), st)]
            if sh in ("rows", "cols", "outerSize", "innerSize"):
                v = st.get(ol)
                sh = {"outerSize": "cols", "innerSize": "rows"}.get(sh, sh)
                if type(v) is tuple and v[:1] == ("mat",):
                    return [(v[1] if sh == "rows" else v[2], st)]
                return [(("app", sh, ol), st)]
            if sh in ("resizeNonZeros", "reserve", "resize"):
                s = self.seq(st, (sh, ol, tuple(hashable(self.val(a, st)) for a in args)))
                if sh == "resize":
                    s = self.put(s, ol, ("mat", hashable(vs(0)), hashable(vs(1))))
                return [(None, s)]
        if k == "Ctor" and name.startswith("Eigen::SparseMatrix") and len(n["a"]) == 2:
            return [(("mat", hashable(vs(0)), hashable(vs(1))), st)]
        if name in ("std::copy", "std::copy_n"):
            a, d = vs(0), vs(2)
            ok = type(a) is tuple and a[0] == "iter" and (vs(1) == ("enditer", a[1]) if name == "std::copy" else True)
            if ok:
                return [(UNK, self.seq(st, ("copy", hashable(self.obj(st, self.value_of(st, a[1]))), hashable(d))))]
        if name in ("memcpy", "std::memcpy") and len(args) == 3:
            d, a, cnt = vs(0), vs(1), vs(2)
            if type(a) is tuple and a[:1] == ("ptr",) and a[1][-1:] == (("idx", 0),):
                v = hashable(self.obj(st, self.value_of(st, a[1][:-1])))
                w = [x for x in (8, 16, 4) if cnt in (("app", "*", ("len", v), x), ("app", "*", x, ("len", v)))]
                t = strip_casts(n["a"][0]).get("t", "")
                if w and w[0] == (4 if "int" in t else 16 if "complex" in t else 8):
                    return [(UNK, self.seq(st, ("copy", v, hashable(d))))]
        if k == "MCall" and sh == "data" and ol is not None and name.startswith("std::vector"):
            return [(("ptr", ol + (("idx", 0),)), st)]
        if k == "MCall" and sh == "size" and ol is not None and name.startswith("std::vector"):
            return [(("len", hashable(self.obj(st, self.value_of(st, ol)))), st)]
        return super().prim(n, name, ol, args, st, fr)
    def obj(self, st, v):
        if type(v) is tuple and v[:1] == ("obj",):
            return v
        return v
    def bound_of(self, b, st):
        if type(b) is tuple and b[:1] == ("len",):
            c = [k for k, v in st.items() if hashable(v) == b[1] and k[0] == "L"]
            return c[0] if len(c) == 1 else None
    def cfor(self, n, ci, st, fr):
        outs = super().cfor(n, ci, st, fr)
        # a loop that copies nothing because there is nothing to copy
        most = max((len(o[2].get(("#seq",), ())) for o in outs if o[0] == "next"), default=0)
        return [o for o in outs if o[0] != "next" or len(o[2].get(("#seq",), ())) == most]
    def put(self, st, loc, v):
        # writing through a raw pointer into the column starts
        if loc and loc[0] == "*" and len(loc) == 3 and type(loc[2]) is tuple and loc[2][:1] == ("ix",):
            c = loc[2][1]
            if v == ("sym", c + ("[]",)) or type(v) is tuple and v[:1] == ("el",) and v[1] == c:
                src = hashable(self.obj(st, self.value_of(st, c)))
                e = ("copy", src, loc[1])
                seq = st.get(("#seq",), ())
                s = dict(st)
                if e not in seq:
                    s[("#seq",)] = seq + (e,)
                return s
        if loc and loc[0] == "*" and len(loc) > 1:
            s = dict(st); s[("#seq",)] = st.get(("#seq",), ()) + (("store", loc, hashable(v)),)
            return s
        return super().put(st, loc, v)
    def lv(self, n, st, fr, outs):
        if n["k"] == "Sub":
            r = []
            for b, s in self.rv(n["b"], st, fr, outs):
                if type(b) is tuple and b[:1] == ("app",) and b[1] in ("outerIndexPtr", "valuePtr", "innerIndexPtr"):
                    for i, s2 in self.rv(n["x"], s, fr, outs):
                        r.append((("*", b, hashable(i)), s2))
            if r:
                return r
        if n["k"] == "Un" and n["op"] == "*":
            r = []
            for b, s in self.rv(n["e"], st, fr, outs):
                if type(b) is tuple and b[:2] == ("app", "+") and type(b[2]) is tuple and b[2][:2] == ("app", "outerIndexPtr"):
                    r.append((("*", b[2], b[3]), s))
            if r:
                return r
        return super().lv(n, st, fr, outs)

def items_of(cx, E, B):
    out = []
    for m in (E, B):
        vp = ("vec", ("app", "valuePtr", m), ("app", "nonZeros", m))
        out.append(("flags", 2 if cx else 0))
        out.append(("rows", ("app", "rows", m)))
        out.append(("cols", ("app", "cols", m)))
        if cx:
            out += [("real parts", ("re", vp)), ("imaginary parts", ("im", vp))]
        else:
            out.append(("values", ("real", vp)))
        out.append(("row positions", ("vec", ("app", "innerIndexPtr", m), ("app", "nonZeros", m))))
        out.append(("column starts", ("vec", ("app", "outerIndexPtr", m), ("app", "cols", m))))
    return out

def matrices(rep, prog, ids):
    H = "Hamiltonianmatrix::"
    fl = {f["n"]: f for f in prog.cls("Hamiltonianmatrix")[0]["flds"]}
    for need in ("entries_", "basis_", "bytes"):
        if need not in fl:
            raise AnalysisError(f"Hamiltonianmatrix has no member {need}")
    this = ("this",)
    E, B, BY = (this + (H + x,) for x in ("entries_", "basis_", "bytes"))
    W = {(("complex" in f["clsu"])): f for f in prog.named(H + "doSerialization") if f.get("body") and not f.get("dep")} or None
    R_ = {(("complex" in f["clsu"])): f for f in prog.named(H + "doDeserialization") if f.get("body") and not f.get("dep")}
    ser = [f for f in prog.named(H + "serialize") if f.get("body") and not f.get("dep")]
    des = [f for f in prog.named(H + "deserialize") if f.get("body") and not f.get("dep")]
    if not W: W = {("complex" in f["clsu"]): f for f in ser}
    if not R_: R_ = {("complex" in f["clsu"]): f for f in des}
    if set(W) != {True, False} or set(R_) != {True, False}:
        raise AnalysisError("the matrix writer and reader are not instantiated for real and complex numbers")
    split_merge(rep, prog)
    order = {}
    for cx in (False, True):
        what = "complex" if cx else "real"
        e = Mat(prog)
        outs = [o for o in e.run(W[cx], {}, this) if o[0] == "ret"]
        wrote = [o[2].get(("#seq",), ()) for o in outs if any(x[0] == "save" for x in o[2].get(("#seq",), ()))]
        wloc = loc(W[cx], W[cx])
        if not wrote:
            raise AnalysisError(f"{wloc}: nothing is serialised")
        want = items_of(cx, E, B)
        # sets of items are matched by what they carry; only the two orders must agree
        for seq in wrote:
            unc = [x for x in seq if x[0] == "uncompressed"]
            rep.check(not unc, f"compressed:{what}", f"{what}: the matrices are compressed before their arrays are taken", f"{unc[0][2] if unc else ''}: {unc[0][1] if unc else ''} is taken from a matrix that may have gaps")
            dead = [x for x in seq if x[0] == "dead"]
            rep.check(not dead, f"alive:{what}", f"{what}: every item still exists when it is encoded", f"{dead[0][2] if dead else ''}: the container keeps the address of {dead[0][1] if dead else ''}, which no longer exists when save() reads it")
            got = [x for x in seq if x[0] == "item"]
            names = []
            for x in got:
                rep.count("matrix items")
                v = x[2]
                m = [i for i, (nm, t) in enumerate(want) if match(v, t, e) and i not in names] if not (type(v) is int) else [i for i, (nm, t) in enumerate(want) if t == v and i not in names]
                names.append(m[0] if m else None)
                rep.check(bool(m), f"item:{what}:{show_item(v)}", f"{what}: item {len(names)} is the {want[m[0]][0] if m else ''} of the {'first' if m and m[0] < len(want) // 2 else 'second'} matrix",
                          f"{x[3]}: item {len(names)} of the stored {what} matrices ({show_item(v)}) is none of dimensions, values and positions of the two matrices (or appears twice)")
            miss = [want[i][0] + (" of the entries" if i < len(want) // 2 else " of the basis") for i in range(len(want)) if i not in names]
            rep.check(not miss, f"complete:{what}", f"{what}: everything that makes up the two matrices is stored", f"{wloc}: of the {what} matrices the {', '.join(miss)} are not stored")
            order[cx] = names
        # ---- reading back
        e = Mat(prog)
        # a complex file has its flag set in both matrices
        st = {}
        outs = e.run(R_[cx], st, this)
        rloc = loc(R_[cx], R_[cx])
        full = None
        for o in outs:
            if o[0] != "ret": continue
            s = o[2]
            seq = s.get(("#seq",), ())
            if not seq: continue
            ins = [x for x in seq if x[0] == "in"]
            rep.count("paths")
            names = order[cx]
            # only the path a file of this type takes
            fl_idx = [i for i, nm in enumerate(names) if nm is not None and want[nm][0] == "flags"]
            env = {("in", i): (2 if cx else 0) for i in fl_idx}
            ok = True
            for k, v in s.items():
                if type(k) is tuple and k[0] == "D":
                    r = evalflag(k[1], env)
                    if r is not None and bool(r) != v:
                        ok = False
            if not ok: continue
            full = True
            rep.check(len(ins) == len(names), f"number:{what}", f"{what}: as many items are read as were written", f"{rloc}: {len(ins)} items are read, {len(names)} were written for {what} matrices")
            if len(ins) != len(names): continue
            at = {names[i]: ("in", i) for i in range(len(names)) if names[i] is not None}
            half = len(want) // 2
            for m, L, nm in ((0, E, "entries"), (1, B, "basis")):
                ix = {want[i][0]: at.get(i) for i in range(m * half, (m + 1) * half)}
                val = ("cplx", ix.get("real parts"), ix.get("imaginary parts")) if cx else ("real", ix.get("values"))
                dim = s.get(L)
                rep.check(dim == ("mat", ix.get("rows"), ix.get("cols")), f"dims:{what}:{nm}", f"{what}: the {nm} get their dimensions back", f"{rloc}: the dimensions of the {what} {nm} are restored from {show_item(dim)}")
                copies = {x[2]: x[1] for x in seq if x[0] == "copy"}
                for fn, src, label in (("valuePtr", val, "values"), ("innerIndexPtr", ix.get("row positions"), "row positions"), ("outerIndexPtr", ix.get("column starts"), "column starts")):
                    g = copies.get(("app", fn, L))
                    rep.check(g == src, f"restore:{what}:{nm}:{label}", f"{what}: the {label} of the {nm} are put back", f"{rloc}: the {label} of the {what} {nm} are restored from {show_item(g)}")
                nn = [x for x in seq if x[0] == "resizeNonZeros" and x[1] == L]
                rep.check(bool(nn) and islen(nn[-1][2][0], val, cx), f"room:{what}:{nm}", f"{what}: room for all values of the {nm}", f"{rloc}: the arrays of the {what} {nm} are not sized for the values read")
                last = [x for x in seq if x[0] == "store" and x[1][1] == ("app", "outerIndexPtr", L)]
                okl = any(x[1][2] in (("in", names.index(m * half + 2)) if (m * half + 2) in names else None, ("app", "cols", L)) and islen(x[2], val, cx) for x in last)
                rep.check(okl, f"last:{what}:{nm}", f"{what}: the end of the last column of the {nm} is restored", f"{rloc}: the end of the last column of the {what} {nm} is not set to the number of values")
        if not full:
            rep.bad(f"reader:{what}", f"{rloc}: {what} matrices written by this program are refused by its reader")
    gui_order(rep, order, items_of(True, E, B), items_of(False, E, B))

def islen(v, val, cx):
    return v == ("len", val) or type(v) is tuple and v[:1] == ("len",) and v[1] in val[1:]

def evalflag(t, env):
    if type(t) in (int, bool): return t
    if t in env: return env[t]
    if type(t) is tuple and t[:1] == ("not",):
        r = evalflag(t[1], env)
        return None if r is None else not r
    if type(t) is tuple and t[:1] == ("app",) and len(t) == 4:
        a, b = evalflag(t[2], env), evalflag(t[3], env)
        if a is None or b is None: return None
        a, b = int(a), int(b)
        return {"&": a & b, "|": a | b, "==": a == b, "!=": a != b, ">": a > b, "<": a < b, ">=": a >= b, "<=": a <= b}.get(t[1])
    return None

def match(v, t, e):
    if v == t: return True
    # lengths may be given by any of the equivalent sizes
    if type(v) is tuple and type(t) is tuple and len(v) == len(t) and v[:1] == t[:1]:
        if v[:1] in (("re",), ("im",), ("real",)):
            return match(v[1], t[1], e)
        if v[:1] == ("vec",) and v[1] == t[1]:
            return v[2] == t[2] or t[1][1] == "outerIndexPtr" and v[2] == ("app", "cols", t[1][2])
    return False

def show_item(v):
    if type(v) is tuple and v:
        if v[0] == "app": return f"{v[1]}({', '.join(show_item(x) for x in v[2:])})"
        if v[0] == "this": return str(v[-1]).rsplit("::", 1)[-1]
        if v[0] == "in": return f"item {v[1] + 1}"
        return f"{v[0]}({', '.join(show_item(x) for x in v[1:])})"
    return str(v)

def split_merge(rep, prog):
    """the two helpers: element i of the parts belongs to element i of the whole"""
    H = "Hamiltonianmatrix::"
    for nm in ("splitComplex", "mergeComplex"):
        for f in prog.named(H + nm):
            if not f.get("body") or f.get("dep"): continue
            cx = "complex" in f["p"][2]["t"]
            w = loc(f, f)
            rep.count("matrix items")
            a, b, c = ("re",), ("im",), ("all",)
            class SM(AbsEval):
                def prim(self, n, name, ol, args, st, fr):
                    sh = short(name)
                    if n["k"] == "MCall" and sh in ("push_back", "emplace_back") and ol is not None:
                        vs = tuple(hashable(self.val(x, st)) for x in args)
                        s = self.event(st, "push", ol, vs)
                        return [(None, s)]
                    if n["k"] == "MCall" and sh in ("reserve",):
                        return [(None, st)]
                    if n["k"] == "MCall" and sh in ("resize", "clear"):
                        return [(None, self.event(st, sh, ol))]
                    if n["k"] == "Ctor" and "complex" in name and len(args) == 2:
                        return [(("cx", hashable(self.val(args[0], st)), hashable(self.val(args[1], st))), st)]
                    if sh in ("real", "imag"):
                        v = self.value_of(st, ol) if ol is not None else self.val(args[0], st)
                        return [((sh, hashable(v)), st)]
                    return super().prim(n, name, ol, args, st, fr)
                def put(self, st, l, v):
                    if l[0] in ("re", "im", "all") and len(l) > 1:
                        return self.event(st, "set", l[:1], (hashable(v),))
                    if l in (a, b, c):
                        return self.event(super().put(st, l, v), "copy", l, (hashable(v),))
                    return super().put(st, l, v)
            e = SM(prog)
            outs = e.run(f, {}, None if not f.get("cls") else ("this",), [("l", a), ("l", b), ("l", c)])
            allev = set()
            for o in outs: allev |= {x for x in e.events(o[2])}
            allev |= {x for it in e.iterations for x in it[1]}
            el = lambda x: ("sym", x + ("[]",))
            if nm == "splitComplex" and cx:
                want = {(a, ("real", el(c))), (b, ("imag", el(c)))}
                got = {(x[1], x[2][0]) for x in allev if x[0] in ("push", "set")}
            elif nm == "mergeComplex" and cx:
                g = {(x[1], x[2][0] if len(x[2]) == 1 else ("cx",) + x[2]) for x in allev if x[0] in ("push", "set")}
                want = {(c, ("cx", el(a), el(b)))}
                got = {(d, v if not (type(v) is tuple and v[:1] == ("app",)) else v) for d, v in g}
            else:
                dst, src = (a, c) if nm == "splitComplex" else (c, a)
                got = {(x[1], x[2][0]) for x in allev if x[0] == "copy" and x[1] == dst}
                want = {(dst, ("sym", src))}
                got = {(d, ("sym", v[1]) if type(v) is tuple and v[:1] in (("obj",), ("copyof",), ("sym",)) else v) for d, v in got}
            got2 = {(d, norm_el(v)) for d, v in got}
            want2 = {(d, norm_el(v)) for d, v in want}
            rep.check(got2 == want2, f"{nm}:{'complex' if cx else 'real'}", f"{nm} ({'complex' if cx else 'real'}): each element from and to its own parts",
                      f"{w}: {nm} ({'complex' if cx else 'real'}) pairs values wrongly: {sorted(map(str, got2))} instead of {sorted(map(str, want2))}")
            if cx:
                for it in e.iterations:
                    ps = [x[1] for x in it[1] if x[0] in ("push", "set")]
                    if it[2] == "done":
                        rep.check(len(ps) == len(want), f"{nm}:each", f"{nm}: every element is carried over", f"{w}: {nm} leaves elements out")

def norm_el(v):
    """an element of one of the three vectors, however the loop reaches it"""
    if type(v) is tuple:
        if v[:1] == ("sym",) and v[1] and v[1][0] in ("re", "im", "all") and len(v[1]) > 1:
            return ("el", v[1][0])
        if v and v[0] in ("re", "im", "all") and len(v) > 1 and not (v[0] in ("re", "im") and type(v[1]) is tuple and v[1][:1] in (("sym",),)):
            return v
        return tuple(norm_el(x) for x in v)
    return v

# ------------------------------------------------------------------ (e) the loader of the GUI
LOADER = os.path.join(REPO, "pairinteraction_gui/loader.py")
def pytree():
    with open(LOADER) as f:
        return ast.parse(f.read())

def const(n):
    return n.value if isinstance(n, ast.Constant) else None

def loader(rep, codes):
    t = pytree()
    tab = None
    for n in ast.walk(t):
        if isinstance(n, ast.Dict) and n.keys and all(isinstance(const(k), int) for k in n.keys if k is not None) and all(isinstance(const(v), str) for v in n.values):
            if tab is None or len(n.keys) > len(tab):
                tab = {const(k): const(v) for k, v in zip(n.keys, n.values)}
    if not tab:
        raise AnalysisError("loader.py: no table of type codes")
    for c, X in sorted(codes.items()):
        if X in ("char", "bool"): continue
        want = NUMPY.get(X)
        rep.check(tab.get(c) == want, f"loader:{c}", f"loader.py reads code {c} as {want}", f"pairinteraction_gui/loader.py: code {c} is stored as {X} but read as {tab.get(c)!r} instead of {want!r}")

class PyRead:
    """evaluates readMatrix and its helpers to the list of items taken from the file"""
    def __init__(self, cls, flags):
        self.m = {f.name: f for c in ast.walk(cls) if isinstance(c, ast.ClassDef) for f in c.body if isinstance(f, ast.FunctionDef)}
        self.flags = flags
        self.items = []
        self.attr = {}
        for f in ast.walk(cls):
            if isinstance(f, ast.FunctionDef) and f.name == "__init__":
                for n in ast.walk(f):
                    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute):
                        v = const(n.value)
                        if v is not None: self.attr[n.targets[0].attr] = v
    def call(self, name, args):
        f = self.m[name]
        env = dict(zip([a.arg for a in f.args.args], ["self"] + args))
        for a, d in zip(reversed(f.args.args), reversed(f.args.defaults)):
            env.setdefault(a.arg, const(d))
        for s in f.body:
            r = self.stmt(s, env)
            if r is not None: return r[0]
        return None
    def stmt(self, s, env):
        if isinstance(s, ast.Return):
            return (self.expr(s.value, env),)
        if isinstance(s, ast.Assign):
            v = self.expr(s.value, env)
            t = s.targets[0]
            if isinstance(t, ast.Tuple):
                vs = v[1:] if isinstance(v, tuple) and v[:1] == ("tuple",) else [("?",)] * len(t.elts)
                for x, y in zip(t.elts, vs): env[x.id] = y
            elif isinstance(t, ast.Name):
                env[t.id] = v
            return None
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            env[s.target.id] = ("bin", type(s.op).__name__, env[s.target.id], self.expr(s.value, env))
            return None
        if isinstance(s, ast.If):
            c = self.expr(s.test, env)
            if c is None or isinstance(c, (bool, int)):
                for x in (s.body if c else s.orelse):
                    r = self.stmt(x, env)
                    if r is not None: return r
                return None
            raise AnalysisError(f"loader.py:{s.lineno}: undecided condition")
        if isinstance(s, (ast.Expr, ast.Pass)):
            if isinstance(s, ast.Expr): self.expr(s.value, env)
            return None
        raise AnalysisError(f"loader.py:{s.lineno}: statement not understood")
    def expr(self, n, env):
        if isinstance(n, ast.Constant): return n.value
        if isinstance(n, ast.Name): return env.get(n.id, ("g", n.id))
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and env.get(n.value.id) == "self":
                if n.attr in self.attr: return self.attr[n.attr]
                return ("self", n.attr)
            return ("attr", self.expr(n.value, env), n.attr)
        if isinstance(n, ast.Tuple):
            return ("tuple",) + tuple(self.expr(x, env) for x in n.elts)
        if isinstance(n, ast.IfExp):
            c = self.expr(n.test, env)
            return self.expr(n.body if c else n.orelse, env)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return not self.expr(n.operand, env)
        if isinstance(n, ast.BinOp):
            a, b = self.expr(n.left, env), self.expr(n.right, env)
            if isinstance(n.op, ast.BitAnd):
                f = a if isinstance(a, tuple) else b
                m = b if f is a else a
                if isinstance(f, tuple) and f[:1] == ("item",) and isinstance(m, int): return self.flags & m
            return ("bin", type(n.op).__name__, a, b)
        if isinstance(n, ast.Compare):
            a, b = self.expr(n.left, env), self.expr(n.comparators[0], env)
            op = n.ops[0]
            if isinstance(op, ast.Is): return a is b
            if isinstance(op, ast.IsNot): return a is not b
            if isinstance(a, int) and isinstance(b, int):
                return {"Eq": a == b, "NotEq": a != b, "Gt": a > b, "Lt": a < b, "GtE": a >= b, "LtE": a <= b}.get(type(op).__name__)
            return ("cmp", type(op).__name__, a, b)
        if isinstance(n, ast.Call):
            fn = n.func
            if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and env.get(fn.value.id) == "self" and fn.attr in self.m:
                return self.call(fn.attr, [self.expr(a, env) for a in n.args])
            name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else "?"
            args = [self.expr(a, env) for a in n.args]
            kw = {k.arg: self.expr(k.value, env) for k in n.keywords}
            if name == "fromfile":
                i = len(self.items)
                self.items.append((kw.get("dtype") or (args[1] if len(args) > 1 else None), kw.get("count") if "count" in kw else (args[2] if len(args) > 2 else None)))
                return ("item", i)
            return ("call", name, tuple(args), tuple(sorted(kw.items(), key=lambda x: x[0])))
        if isinstance(n, ast.Subscript):
            v = self.expr(n.value, env)
            i = self.expr(n.slice, env)
            if isinstance(v, tuple) and v[:1] == ("item",) and i == 0: return v
            if v == ("self", "typeIds"): return ("typeof", i)
            return ("sub", v, i)
        raise AnalysisError(f"loader.py:{n.lineno}: expression not understood")

def gui_order(rep, order, wc, wr):
    t = pytree()
    for cx in (True, False):
        want = (wc if cx else wr)
        half = len(want) // 2
        names = order.get(cx)
        if not names or None in names: continue
        p = PyRead(t, 2 if cx else 0)
        r = p.call("readMatrix", ["f"])
        what = "complex" if cx else "real"
        # the raw reads: every item is (code u16, data); a vector two of those
        first = [n for n in names if n < half]
        rep.check([n for n in names] == first + [n + half for n in first], f"gui-same:{what}", f"{what}: both matrices are stored in the same order", f"the two {what} matrices are stored in different orders, but the GUI reads them alike")
        pos, i, bad = {}, 0, None
        for nm in first:
            lab = want[nm][0]
            def code():
                nonlocal i, bad
                if i >= len(p.items): bad = f"only {len(p.items)} reads"; return
                d, c = p.items[i]
                if c != 1 or "uint16" not in str(d): bad = f"read {i + 1} is not one 16 bit type code"
                i += 1
            def data(cnt):
                nonlocal i, bad
                if i >= len(p.items): bad = bad or f"only {len(p.items)} reads"; return None
                d, c = p.items[i]
                if c != cnt or ("typeof", ("item", i - 1)) != (d[2][0] if isinstance(d, tuple) and d[:1] == ("call",) and d[2] else None):
                    bad = bad or f"read {i + 1} ({lab}) is not of the stored type and number ({d}, {c})"
                i += 1
                return ("item", i - 1)
            code()
            x = data(1)
            if lab not in ("flags", "rows", "cols"):
                code()
                x = data(x)
            pos[lab] = x
            if bad: break
        if not bad and i != len(p.items):
            bad = f"{len(p.items) - i} more items are read than stored"
        val = None
        if not bad:
            if cx:
                re, im = pos["real parts"], pos["imaginary parts"]
                val = [("bin", "Add", re, ("bin", "Mult", im, 1j)), ("bin", "Add", re, ("bin", "Mult", 1j, im)), ("bin", "Add", ("bin", "Mult", im, 1j), re), ("bin", "Add", ("bin", "Mult", 1j, im), re)]
            else:
                val = [pos["values"]]
            ok = isinstance(r, tuple) and r[:2] == ("call", "csc_matrix")
            if not ok:
                bad = f"the matrix is built as {r[1] if isinstance(r, tuple) else r}, but the columns were stored one after the other"
            else:
                a = r[2][0]
                kw = dict(r[3])
                shp = kw.get("shape") or (r[2][1] if len(r[2]) > 1 else None)
                if not (isinstance(a, tuple) and a[:1] == ("tuple",) and len(a) == 4): bad = "the matrix is not built from data, indices and column starts"
                elif a[1] not in val: bad = "the values are not put together from their parts"
                elif a[2] != pos["row positions"]: bad = "the row positions are taken from another item"
                elif not (isinstance(a[3], tuple) and a[3][:2] == ("call", "append") and a[3][2][0] == pos["column starts"] and a[3][2][1] in [("call", "len", (v,), ()) for v in val + [pos.get("row positions")] + ([pos["real parts"]] if cx else [])]): bad = "the column starts are not completed with the number of values"
                elif shp != ("tuple", pos["rows"], pos["cols"]): bad = "rows and columns are not the stored ones"
        rep.check(bad is None, f"gui:{what}", f"{what}: the GUI's loader reads what is stored, in its order", f"pairinteraction_gui/loader.py, readMatrix: {what} matrices: {bad}")
