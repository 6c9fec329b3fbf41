"""Abstract evaluation of every function that drives an SQLite statement: the SQL text it assembles
(literals, streams, concatenation, with symbolic holes), what it binds and what it reads. Obligations:
the text parses; it names tables and columns that are declared for that database; an insert supplies
as many values as columns and fills every column without a default; a cache lookup constrains every
column of the table's key; one table has one declaration per database; the quantity stored in a column
is the quantity the lookups compare it with; every parameter is bound before stepping; prepare
precedes bind and step; a column is read only while a row is current, exists in the result and has the
type it is read as."""
from sqltext import *
import itertools, glob

FLOORS = {"functions driving statements": 8, "statement texts": 30, "column roles": 40}
from facts import SRC

def entry_functions(prog):
    out = []
    for f in prog.fns.values():
        if f.get("dep") or f.get("cls", "").startswith("sqlite::") or f["f"].endswith("SQLite.hpp") or not f.get("body"):
            continue
        if "/unit_test/" in f["f"] or "_generated" in f["f"]:
            continue
        for n in fn_nodes(f):
            if (n.get("fn") or "").startswith("sqlite::statement::"):
                out.append(f); break
    return out

class Ev(SqlText):
    def __init__(self, prog, rel, facts):
        super().__init__(prog, rel)
        self.facts = facts
    def on_exec(self, at, fn, sql, s, fr):
        self.facts.append(("exec", at, fn, sql, (), self.group))
    def on_prepare(self, at, fn, sql, s, fr):
        self.facts.append(("prep", at, fn, sql, (), self.group))
    def on_step(self, at, fn, sql, bound, s, fr):
        self.facts.append(("step", at, fn, sql, bound, self.group))
    def on_bind(self, at, fn, sql, i, v, n, s, fr):
        self.facts.append(("bind", at, fn, sql, (i,), self.group))
    def on_get(self, at, fn, sql, i, t, bound, s, fr):
        self.facts.append(("get", at, fn, sql, (i, t), self.group))
        return ("app", "column", at, hashable(i))

def bool_params(f):
    return [(i, p) for i, p in enumerate(f.get("p", [])) if p["t"] in ("bool", "const bool")]

def role(v, fn):
    """The quantity a value is: its member path below the object it came from."""
    if type(v) is not tuple or not v:
        return ("const", repr(v))
    if v[0] in ("sym", "copyof"):
        l = v[1]
        tail = []
        for x in reversed(l):
            if type(x) is str and ("::" in x or x.startswith("?")):
                tail.append(x.rsplit("::", 1)[-1])
            elif type(x) is str and x.startswith("#"):
                tail.append(x)
            elif type(x) is tuple and x[0] == "idx":
                tail.append(f"[{x[1]}]")
            else:
                break
        if tail and not tail[0].startswith("#"):
            return ("field", ".".join(reversed(tail)).replace(".[", "["))
        if tail:
            return None
        return ("local", fn, repr(l))
    if v[0] == "app":
        sub = [role(x, fn) if type(x) is tuple else ("const", repr(x)) for x in v[2:]]
        if v[1] in ("column",) or any(x is None for x in sub):
            return None
        return ("app", v[1]) + tuple(sub)
    if v[0] == "S":
        return None
    return None

INTS = ("int", "integer", "bigint")
def run(rep):
    tus = all_tus_() 
    prog = Program(tus)
    rel = relevant_fns(prog)
    facts = []
    fns = entry_functions(prog)
    if not fns:
        raise AnalysisError("anchor vanished: no function uses sqlite::statement")
    called = set()
    for f in fns:
        for n in fn_nodes(f):
            if n.get("u") in {g["u"] for g in fns}:
                called.add(n["u"])
    problems = {}
    entries = [f for f in fns if f["u"] not in called or any("sqlite" in p["t"] for p in f["p"]) is False]
    # callers of helpers that take a statement
    helpers = [f for f in fns if any("sqlite::statement" in p["t"] for p in f["p"])]
    entries = [f for f in entries if f not in helpers]
    for h in helpers:
        for g in prog.fns.values():
            if g not in entries and not g.get("dep") and any(n.get("u") == h["u"] for n in fn_nodes(g)):
                entries.append(g)
    done = set()
    for f in entries:
        if (f['f'], f['l']) in done:
            continue   # another instantiation of the same text
        done.add((f['f'], f['l']))
        rep.count("functions driving statements")
        bp = bool_params(f)[:4]
        for combo in itertools.product((True, False), repeat=len(bp)):
            ev = Ev(prog, rel, facts)
            ev.group = os.path.basename(f["f"])
            ev.problems = problems
            ev.entry = f
            args = []
            pos = {i: v for (i, _), v in zip(bp, combo)}
            for i, p in enumerate(f.get("p", [])):
                l = ("P", p["n"] or str(i))
                args.append(("v", pos[i]) if i in pos else ("l", l) if isref(p["t"]) else ("v", ("sym", l)))
            try:
                ev.run(f, {}, ("this",), args)
            except Limit:
                raise AnalysisError(f"state limit in {f['fn']}")
    for k, t in sorted(problems.items()):
        rep.bad(k, t)
    protocol = len({(a, k) for k, a, *_ in facts})
    for k, a in sorted({(k, a) for k, a, *_ in facts}):
        pass
    rep.count("statement operations", protocol)
    if not problems:
        rep.ok(f"{protocol} statement operations: prepared before use, reset before reuse, read only with a current row")
    # ---- schemas
    files = {}
    for k, a, fn, sql, x, g in facts:
        files.setdefault(g, []).append((k, a, fn, sql, x))
    defects = parse_sql(open(SRC + "/databases/quantum_defects.sql").read())
    base = [s for s in defects if s["kind"] == "create"]
    seen_text = set()
    for g, fs in sorted(files.items()):
        schema = {}
        parsed = {}
        for k, a, fn, sql, x in fs:
            if sql is None or sql in parsed:
                continue
            text, holes = render(sql)
            if (not text.strip()):
                continue
            if re.fullmatch(r"\s*\x01h\d+\x02\s*;?\s*", text):
                parsed[sql] = None
                rep.note(f"{a}: {fn} runs text that is not in the source ({text[:60]!r})")
                continue
            try:
                parsed[sql] = [(s, holes, a, fn) for s in parse_sql(text)]
            except SqlError as e:
                parsed[sql] = None
                if any(a2 == a and s2 is not None and s2 != sql and loopvariant(s2, render(s2)[1]) for _, a2, _, s2, _ in fs):
                    rep.note(f"{a}: the text without any generated part does not parse ({clean(text)[:60]!r}); judged with generated parts")
                    continue
                rep.bad(f"sql:{fn}:{clean(text)[:40]}", f"{a}: {fn} runs SQL that does not parse: {e} in {clean(text)[:160]!r}")
                continue
            rep.count("statement texts")
        for st in [y for v in parsed.values() if v for y in v] + ([(s, [], "databases/quantum_defects.sql", "schema") for s in base] if g.startswith("QuantumDefect") else []):
            s, holes, a, fn = st
            if s["kind"] != "create":
                continue
            cols = tuple((colname(c[0], holes), typ(c[1]), c[2]) for c in s["cols"])
            keys = tuple(tuple(colname(c, holes) for c in k) for k in s["keys"])
            old = schema.get(s["table"])
            if old is None:
                schema[s["table"]] = (cols, keys, a, fn)
            else:
                # column sets generated by a loop: the longer variant (one iteration) is the declaration
                if set(old[0]) <= set(cols) and holes:
                    schema[s["table"]] = (cols, keys, a, fn); continue
                if set(cols) <= set(old[0]) and any("\x01" in c[0] or c[0].startswith("<") for c in old[0]):
                    continue
                rep.check(sorted(old[0]) == sorted(cols) and {frozenset(k) for k in old[1]} == {frozenset(k) for k in keys},
                          f"schema:{s['table']}", f"{s['table']} is declared alike at {old[2]} and {a}",
                          f"{a}: {fn} declares table {s['table']} with columns/keys that differ from {old[2]} ({old[3]}) in the same database")
        roles = {}
        def note_role(tab, col, v, a, fn, what):
            r = role(v, fn)
            if r is None:
                return
            roles.setdefault((tab, col), {}).setdefault(r, []).append((a, what))
        for sql, sts in parsed.items():
            if not sts:
                continue
            binds = [(k, a, fn, x) for k, a, fn, q, x in fs if q == sql]
            bound = {}
            for k, a, fn, x in binds:
                if k == "step":
                    for i, v in x:
                        bound.setdefault(i, set()).add(v)
            for s, holes, a, fn in sts:
                kind = s["kind"]
                # parameters
                npar = s["params"]
                for k, at, f2, x in binds:
                    if k == "bind":
                        rep.check(1 <= x[0] <= npar, f"bindidx:{f2}:{x[0]}:{sid(s)}", f"{at}: parameter {x[0]} exists", f"{at}: {f2} binds parameter {x[0]} of a statement with {npar} parameters ({clean(render(sql)[0])[:120]!r})")
                    if k == "step" and npar:
                        miss = [i for i in range(1, npar + 1) if i not in dict(x)]
                        rep.check(not miss, f"unbound:{f2}:{sid(s)}", f"{at}: all {npar} parameters are bound", f"{at}: {f2} steps {clean(render(sql)[0])[:120]!r} with parameter(s) {miss} unbound")
                def value(v):
                    if v[0] == "par":
                        return bound.get(v[1], set())
                    if v[0] in ("col", "str"):
                        hs = holes_in(v[-1], holes)
                        if len(hs) == 1 and re.fullmatch(r"\x01h\d+\x02", v[-1].strip()):
                            return {hs[0]}
                        return set()
                    if v[0] == "num":
                        return {float(v[1])}
                    return set()
                if kind == "insert":
                    tab = schema.get(s["table"])
                    if not rep.check(tab is not None, f"table:{s['table']}:{fn}", f"{a}: table {s['table']} exists", f"{a}: {fn} inserts into table {s['table']}, which is declared nowhere for this database"):
                        continue
                    cols = [colname(c, holes) for c in s["cols"]] if s["cols"] is not None else [c[0] for c in tab[0]]
                    names = [c[0] for c in tab[0]]
                    bad = [c for c in cols if c not in names]
                    if bad and all(not c.startswith("<") for c in names) and any(c.startswith("<") for c in bad):
                        bad = []
                    rep.check(not bad, f"column:{s['table']}:{fn}:insert", f"{a}: insert into {s['table']} names its columns", f"{a}: {fn} inserts into column(s) {bad} that {s['table']} does not have")
                    if s["cols"] is None or len(s["cols"]) == len(s["vals"]):
                        rep.ok(f"{a}: as many values as columns for {s['table']}")
                    else:
                        if not loopvariant(sql, holes) or not any(a2 == a and s2 is not None and parsed.get(s2) and balanced(parsed[s2]) and len(s2[1]) >= len(sql[1]) for _, a2, _, s2, _ in fs):
                            rep.bad(f"count:{s['table']}:{fn}", f"{a}: {fn} supplies {len(s['vals'])} values for {len(s['cols'])} columns of {s['table']}")
                    miss = [c[0] for c in tab[0] if c[0] not in cols and not c[2] and not c[0].startswith("<")]
                    rep.check(not miss, f"fill:{s['table']}:{fn}", f"{a}: insert fills every column of {s['table']} without default", f"{a}: {fn} leaves column(s) {miss} of {s['table']} unset")
                    for c, v in zip(cols, s["vals"]):
                        for w in value(v):
                            note_role(s["table"], c, w, a, fn, "stored")
                elif kind in ("select", "update"):
                    tabs = s["tables"] if kind == "select" else {s["table"]: s["table"]}
                    real = set(tabs.values())
                    ok = True
                    for t in real:
                        ok &= rep.check(t in schema, f"table:{t}:{fn}", f"{a}: table {t} exists", f"{a}: {fn} reads table {t}, which is declared nowhere for this database")
                    if not ok:
                        continue
                    def resolve(v):
                        """(table, column) of a column reference, or None"""
                        if v[0] != "col":
                            return None
                        c = colname(v[2].lower() if "\x01" not in v[2] else v[2], holes)
                        if v[1]:
                            t = tabs.get(v[1])
                            if t is None:
                                return ("?", c)
                            return (t, c)
                        for t in real:
                            if c in [x[0] for x in schema[t][0]]:
                                return (t, c)
                        return ("?", c)
                    items = s.get("items", [])
                    refs = []
                    for v in items:
                        if v[0] == "col":
                            refs.append(resolve(v))
                        if v[0] == "fun":
                            for y in v[2]:
                                if y[0] == "id":
                                    refs.append(resolve(("col", None, y[1])))
                    eq = {}
                    for c in s["conds"]:
                        if c[0] != "cmp":
                            eq["complex"] = True; continue
                        for side, other in ((c[2], c[3]), (c[3], c[2])):
                            if side[0] == "col" and not value(side):
                                r = resolve(side)
                                refs.append(r)
                                if c[1] == "=":
                                    if other[0] == "col" and not value(other):
                                        eq.setdefault(r, set()).add(resolve(other))
                                    else:
                                        eq.setdefault(r, set()).update(("val", w) for w in value(other))
                                        for w in value(other):
                                            note_role(r[0], r[1], w, a, fn, "looked up")
                    if kind == "update":
                        refs += [(s["table"], colname(c, holes)) for c, _ in s["sets"]]
                    for r in refs:
                        good = r[0] in schema and r[1] in [x[0] for x in schema[r[0]][0]]
                        rep.check(good, f"column:{r[0]}.{shown(r[1])}:{fn}", f"{a}: column {r[0]}.{shown(r[1])} exists", f"{a}: {fn} refers to column {shown(r[1])}, which {'table ' + r[0] if r[0] in schema else 'no table of the query'} does not have")
                    # joins carry the role of the temporary table's column over
                    for r, os_ in list(eq.items()):
                        if r == "complex": continue
                        for o in os_:
                            if o and o[0] != "val":
                                roles.setdefault("joins", set()).add((r, o, a, fn))
                    agg = any(v[0] == "fun" for v in items)
                    if kind == "select" and not agg:
                        for t in real:
                            cols, keys = schema[t][0], schema[t][1]
                            if not keys or loopvariant(sql, holes):
                                continue
                            con = {r[1] for r in eq if r != "complex" and r[0] == t}
                            best = min(keys, key=lambda k: len(set(k) - con))
                            if any(x.startswith("<") for x in best):
                                continue
                            if items and {r[1] for r in refs if r[0] == t} & set(k for kk in keys for k in kk) and set(best) - con == set():
                                pass
                            if len(keys) == 1 or not con & set(best):
                                pass
                            if not (con & {c for k in keys for c in k}):
                                continue
                            miss = [c for c in best if c not in con]
                            rep.check(not miss, f"key:{t}:{fn}:{','.join(sorted(miss))}", f"{a}: lookup in {t} constrains its whole key", f"{a}: {fn} looks {t} up without constraining key column(s) {miss}: rows of other keys are returned as well")
                    # reads
                    for k, at, f2, x in binds:
                        if k != "get" or type(x[0]) is not int:
                            continue
                        i, t = x
                        if not rep.check(0 <= i < len(items) or any(v == ("star",) for v in items), f"getidx:{f2}:{i}:{sid(s)}", f"{at}: result column {i} exists", f"{at}: {f2} reads result column {i} of a query with {len(items)} columns"):
                            continue
                        it = items[i] if i < len(items) else None
                        if it and it[0] in ("col", "fun"):
                            r = resolve(it) if it[0] == "col" else next((resolve(("col", None, y[1])) for y in it[2] if y[0] == "id"), None)
                            if r and r[0] in schema:
                                ct = dict((c[0], c[1]) for c in schema[r[0]][0]).get(r[1])
                                if ct:
                                    got = "int" if t == "int" else "real" if t in ("double", "float") else "text"
                                    good = got == ct or (ct == "int" and got == "real")
                                    rep.check(good, f"type:{r[0]}.{r[1]}:{f2}", f"{at}: {r[0]}.{r[1]} ({ct}) is read as {t}", f"{at}: {f2} reads {r[0]}.{r[1]}, declared {ct}, as {t}")
        joins = roles.pop("joins", set())
        for (l, o, a, fn) in joins:
            # compare the roles of both ends
            rl, ro = roles.get(l, {}), roles.get(o, {})
            if rl and ro:
                common = set(rl) & set(ro)
                comparable = {r for r in rl if comparable_role(r, ro)}
                if comparable:
                    rep.check(bool(common), f"join:{l[0]}.{l[1]}={o[0]}.{o[1]}:{fn}", f"{a}: {l[0]}.{l[1]} and {o[0]}.{o[1]} hold the same quantity", f"{a}: {fn} joins {l[0]}.{l[1]} ({show(rl)}) with {o[0]}.{o[1]} ({show(ro)})")
        for (t, c), rs in sorted(roles.items(), key=repr):
            rep.count("column roles")
            # local names are comparable within one function, member paths everywhere, constants never contradict
            cmpb = [r for r in rs if r[0] in ("field", "app")]
            locs = {}
            for r in rs:
                if r[0] == "local":
                    locs.setdefault(r[1], set()).add(r)
            ok = len(set(cmpb)) <= 1 and all(len(v) <= 1 for v in locs.values())
            if c == "value":
                continue
            rep.check(ok, f"role:{g}:{t}.{shown(c)}", f"{g}: {t}.{shown(c)} always holds/compares {show(rs)}", f"{g}: column {shown(c)} of {t} is used for different quantities: " + "; ".join(f"{showr(r)} at {sorted(set(x[0] for x in w))[:3]} ({w[0][1]})" for r, w in rs.items()))

def balanced(sts):
    return all(s["kind"] != "insert" or s["cols"] is None or len(s["cols"]) == len(s["vals"]) for s, *_ in sts)
def comparable_role(r, other):
    return any(r[0] == o[0] and (r[0] != "local" or r[1] == o[1]) for o in other)
def typ(t):
    t = t.lower()
    return "int" if "int" in t else "real" if t in ("double", "real", "float") else "text"
def loopvariant(sql, holes):
    return any(hash_elem(h) for h in holes)
def hash_elem(h):
    return "elem" in repr(h)
def colname(c, holes):
    hs = holes_in(c, holes)
    if hs:
        r = role(hs[0], "")
        return "<" + (generic(hs[0])) + ">"
    return c.lower()
def generic(v):
    """a name for a generated column: the member of the element it is taken from"""
    l = v[1] if type(v) is tuple and v and v[0] == "sym" else v
    if type(l) is tuple:
        t = [x for x in l if type(x) is str and ("::" in x or x.startswith("#"))]
        return t[-1].rsplit("::", 1)[-1] if t else "element"
    return "element"
def shown(c): return clean(c)
def clean(t): return re.sub(r"\x01h(\d+)\x02", "<>", t)
def showr(r): return r[1] if r[0] == "field" else ".".join(str(x) for x in r[1:]) 
def show(rs): return ", ".join(sorted(str(showr(r)) for r in rs))
def sid(s): return f"{s['kind']}-{s.get('table') or ','.join(sorted(set(s.get('tables', {}).values())))}"
def all_tus_():
    from facts import all_tus
    return all_tus() + ["driver:instantiate"]
