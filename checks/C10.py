"""Every place where a floating point number becomes text is found in the type-checked sources (stream
insertion of a floating type, std::to_string). Text that leaves the program only as a message (an
exception, std::cerr/std::cout, a printing operator that was handed its stream) is exempt, and so are
half-integer quantum numbers, which six digits represent. Everything else must be printed to a stream
whose precision was raised to what identifies the number, on every path to the insertion (forward
data-flow analysis over the stream objects). Values bound to and read from queries must travel as
64-bit floating point numbers throughout."""
from core import *
from facts import *
FLOORS = {"numbers printed": 20, "numbers bound or read": 20}
DIG = {"double": 17, "float": 9, "long double": 21}
HALF = ("j", "m", "s")

def ftype(pt):
    t = (pt or "").replace("const ", "").replace("&", "").strip()
    return t if t in DIG else None

def halfint(n):
    """j, m or s of a state"""
    n = strip(n)
    while n.get("k") in ("Sub", "OpCall", "Un"):
        n = strip(n["b"] if n["k"] == "Sub" else n["a"][0] if n["k"] == "OpCall" else n["e"])
    if n.get("k") == "Mem" and n["w"] == "field":
        q = n["q"]
        return short(q) in HALF and any(x in q for x in ("State", "Key"))
    if n.get("k") == "MCall":
        return short(n["fn"]) in ("getJ", "getM", "getS") and "State" in n["fn"]
    return False

def digits(n):
    n = strip_casts(n)
    if "cval" in n: return int(float(n["cval"]))
    if n.get("k") == "Int": return int(n["v"])
    return None

class Prec(Client):
    """state: frozenset of (stream path, digits, formatted)"""
    def __init__(self, rep, f): self.rep, self.f, self.seen = rep, f, set()
    def inline(self, fn, node, ctx): return False
    def setp(self, s, p, d, fixed=False):
        return frozenset(x for x in s if x[0] != p) | ({(p, d, fixed)} if d is not None or fixed else set())
    def chain(self, n):
        """operands of a << chain: (stream node, [operands in order])"""
        ops = []
        while n.get("k") == "OpCall" and n["op"] == "<<":
            ops.append(n); n = strip_casts(n["a"][0])
        return n, ops[::-1]
    def before_call(self, s, n, ctx):
        k = n["k"]
        if k == "MCall" and short(n.get("fn")) == "precision" and n["a"]:
            p = path(n["o"], ctx)
            if p: s = self.setp(s, p, digits(n["a"][0]))
        if k == "OpCall" and n["op"] == "=" and n["a"]:
            p = path(n["a"][0], ctx)
            if p: s = self.setp(s, p, None)
        if k == "MCall" and short(n.get("fn")) in ("copyfmt", "setf", "swap"):
            p = path(n["o"], ctx)
            if p: s = self.setp(s, p, None, True)
        if k == "OpCall" and n["op"] == "<<" and len(n["a"]) == 2:
            base, _ = self.chain(n)
            p = path(base, ctx)
            a = strip_casts(n["a"][1])
            if p and a.get("k") == "Call" and a.get("fn") == "std::setprecision":
                return (self.setp(s, p, digits(a["a"][0])),)
            if p and a.get("k") == "Ref" and a.get("w") == "fn" and a["q"] in ("std::fixed", "std::defaultfloat", "std::scientific"):
                d = next((x[1] for x in s if x[0] == p), None)
                return (self.setp(s, p, d, a["q"] == "std::fixed"),)
            t = ftype(n.get("pt", [""])[-1]) if "u" not in n and "stream" in n.get("t", "") else None
            if t and p:
                self.judge(s, n, p, base, t, ctx)
        return (s,)
    def judge(self, s, n, p, base, t, ctx):
        at = loc(ctx.owner(), n); fn = ctx.owner()["fn"]
        key = (at, n["l"], id(n))
        if p[0] in ("glob:std::cout", "glob:std::cerr", "glob:std::clog"):
            if key not in self.seen: self.rep.count("numbers printed"); self.rep.ok(f"{at}: a message")
            self.seen.add(key); return
        if p[0].startswith("param:"):
            if key not in self.seen: self.rep.count("numbers printed"); self.rep.ok(f"{at}: printing operator")
            self.seen.add(key); return
        if fn == "Configuration::value::operator<<":
            return          # the subject of C23
        if key not in self.seen: self.rep.count("numbers printed")
        self.seen.add(key)
        if halfint(n["a"][1]):
            self.rep.ok(f"{at}: half-integer quantum number"); return
        if message_only(self.f, base):
            self.rep.ok(f"{at}: text of an exception"); return
        st = next((x for x in s if x[0] == p), None)
        d = st[1] if st else None
        okv = d is not None and d >= DIG[t] and not st[2]
        self.rep.check(okv, f"digits:{fn}", f"{at}: a {t} is printed with {d} digits",
                       f"{at}: {fn} prints a {t} " + ("in fixed notation" if st and st[2] else f"with {d if d is not None else 'the default 6'} digits") + f", which loses part of the number ({DIG[t]} are needed)")

def message_only(f, base):
    b = strip_casts(base)
    if b.get("k") != "Ref" or b.get("w") != "local":
        return False
    uses = 0
    for n in fn_nodes(f):
        if n.get("k") == "MCall" and short(n.get("fn")) in ("str", "rdbuf") and strip_casts(n["o"]).get("i") == b["i"] and not n["a"]:
            uses += 1
            if not any(x.get("k") == "Throw" and any(y is n for y in walk(x)) for x in fn_nodes(f)):
                return False
    return uses > 0

def run(rep):
    prog = Program(all_tus())
    for f in prog.fns.values():
        if f.get("dep") or "/unit_test/" in f["f"] or not f.get("body"):
            continue
        printed = False
        for n in fn_nodes(f):
            k = n.get("k")
            if k == "OpCall" and n["op"] == "<<" and n.get("pt") and ftype(n["pt"][-1]) and "u" not in n and "stream" in n.get("t", ""):
                printed = True
            if k == "Call" and n.get("fn") == "std::to_string" and ftype(n.get("pt", [""])[0]):
                rep.count("numbers printed")
                okv = any(x.get("k") == "Throw" and any(y is n for y in walk(x)) for x in fn_nodes(f)) or any(e in (f.get("cls") or "") for e in ("no_defect", "no_potential", "sqlite::error", "exception"))
                rep.check(okv or halfint(n["a"][0]), f"to_string:{f['fn']}", f"{loc(f, n)}: text of an exception", f"{loc(f, n)}: {f['fn']} turns a floating point number into text with six decimals")
            if k == "MCall" and (n.get("fn") or "").startswith("sqlite::statement::"):
                sh = short(n["fn"])
                if sh == "bind" and len(n.get("pt", [])) == 2 and ftype(n["pt"][1]):
                    rep.count("numbers bound or read")
                    a = n["a"][1]
                    narrowed = [x for x in walk(a) if x.get("k") == "Cast" and x.get("ck") == "FloatingCast" and x.get("t") == "float"]
                    rep.check(ftype(n["pt"][1]) == "double" and not narrowed, f"bind:{f['fn']}", f"{loc(f, n)}: bound as double", f"{loc(f, n)}: {f['fn']} binds a number narrowed to float")
                if sh == "get" and n.get("ta"):
                    if n["ta"][-1] in DIG:
                        rep.count("numbers bound or read")
                        rep.check(n["ta"][-1] == "double", f"get:{f['fn']}", f"{loc(f, n)}: read as double", f"{loc(f, n)}: {f['fn']} reads a stored number as {n['ta'][-1]}")
            if k == "Call" and n.get("fn", "").startswith("sqlite3_"):
                if n["fn"] in ("sqlite3_bind_double", "sqlite3_column_double", "sqlite3_value_double"):
                    rep.count("numbers bound or read")
                    narrowed = [x for x in walk(f["body"]) if x.get("k") == "Cast" and x.get("ck") == "FloatingCast" and x.get("t") == "float"]
                    rep.check(not narrowed, f"sqlite:{f['fn']}", f"{loc(f, n)}: passed on unchanged", f"{loc(f, n)}: {f['fn']} narrows the number to float")
        if printed:
            c = Prec(rep, f)
            Walker(prog, c).run(f, [frozenset()])
