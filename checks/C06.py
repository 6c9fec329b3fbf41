"""Ownership and lifetime analysis around SQLite. (1) In every abstract outcome of every wrapper member
function a raw connection or statement obtained from SQLite is owned by the wrapper, also when it throws.
(2) Text handed to a parameter either is copied by SQLite or, at every call site in the program, is still
alive and unmodified on every path to each step of that statement. (3) Every way to create or replace a
connection object that registers itself as busy callback target registers the new object. (4) A NULL text
column is never dereferenced. (5) Statements are declared after (destroyed before) their connection."""
from sqlfev import *

FLOORS = {"wrapper methods": 12, "text bind call sites": 6, "owner orderings": 3}

class Own(SqlEval):
    codes = [1, 5]
    def prim(self, n, name, ol, args, st, fr):
        if name == "sqlite3_bind_text" or name == "sqlite3_bind_blob":
            v = args[4][1] if len(args) > 4 else UNK
            self.dtors = getattr(self, "dtors", {})
            self.dtors.setdefault(id(top_fn(fr)), []).append((v, n))
        if name == "sqlite3_busy_handler":
            s = dict(st)
            v = args[2][1]
            if args[2][0] == "l":
                v = self.value_of(st, v)
            s["busy"] = v
            return [(0, s)]
        if name == "sqlite3_column_text" or name == "sqlite3_column_blob":
            return [(NULL, st), (("ptr", ("TEXT",)), st)]
        if n["k"] == "Ctor" and name.startswith("std::basic_string") and args:
            v = args[0][1] if args[0][0] == "v" else self.value_of(st, args[0][1])
            if v == NULL:
                s = dict(st); s["nullstr"] = n.get("l")
                return [(UNK, s)]
        return super().prim(n, name, ol, args, st, fr)

class Bind(Client):
    """state: frozenset of (stmt path, index, var id, 'ok'|'gone')"""
    def __init__(self, rep, f, static):
        self.rep, self.f, self.static = rep, f, static
    def inline(self, fn, n, ctx):
        return "f" not in fn
    def after_call(self, s, n, ctx, inlined):
        fn = n.get("fn", "")
        if fn == "sqlite::statement::bind" and len(n["a"]) > 1:
            sp = path(n["o"], ctx) or ("?",)
            i = strip(n["a"][0])
            idx = i.get("v", "?") if i["k"] == "Int" else "?"
            s = frozenset(x for x in s if not (x[0] == sp and x[1] == idx))
            if "basic_string" in n["pt"][1]:
                self.rep.count("text bind call sites")
                if n["u"] in self.static:
                    a = strip_casts(n["a"][1])
                    p = path(a, ctx)
                    if p is None or p[0] == "tmp":
                        self.rep.bad(f"temp:{self.f['fn']}", f"{loc(ctx.owner(), n)}: {self.f['fn']} binds a temporary string that SQLite does not copy")
                    else:
                        s = s | {(sp, idx, p, "ok")}
                else:
                    self.rep.ok(f"{loc(ctx.owner(), n)}: text parameter {idx} is copied by SQLite")
        elif fn == "sqlite::statement::step":
            sp = path(n["o"], ctx) or ("?",)
            for x in s:
                if x[0] == sp and x[3] == "gone":
                    self.rep.bad(f"dangling:{self.f['fn']}", f"{loc(ctx.owner(), n)}: {self.f['fn']} steps a statement whose parameter {x[1]} still refers to {pstr(x[2])}, which was destroyed or changed after it was bound")
                elif x[0] == sp:
                    self.rep.ok(f"{loc(ctx.owner(), n)}: {pstr(x[2])} bound as parameter {x[1]} is alive at the step")
        elif fn in ("sqlite::statement::prepare",):
            sp = path(n["o"], ctx) or ("?",)
            s = frozenset(x for x in s if x[0] != sp)
        return (s,)
    def gone(self, s, p):
        return frozenset((a, b, c, "gone" if c == p or (len(c) > len(p) and c[:len(p)] == p) or (len(p) > len(c) and p[:len(c)] == c) else d) for a, b, c, d in s)
    def on_scope_exit(self, s, v, ctx):
        return (self.gone(s, (f"local:{v['n']}#{v['i']}",)),)
    def on_write(self, s, n, p, rhs, ctx):
        if any(x[2] == p or x[2][:len(p)] == p or p[:len(x[2])] == x[2] for x in s):
            s = self.gone(s, p)
        return (s,)

def run(rep):
    import facts
    prog = Program(facts.all_tus() + ["driver:instantiate"])
    classes = {c["q"]: c for c in prog.classes.values() if c["q"] in ("sqlite::statement", "sqlite::handle")}
    if len(classes) < 2:
        raise AnalysisError("anchor vanished: sqlite::statement / sqlite::handle")
    static = set()
    for q, c in classes.items():
        for f in prog.fns.values():
            if f.get("cls") != q or f.get("dep") or f.get("impl") or f.get("kind") == "dtor" or not f.get("body") or f["acc"] != "public":
                continue
            rep.count("wrapper methods")
            ev = Own(prog); this = ("OBJ",)
            outs = []
            for st in stores(c, this):
                if f.get("kind") == "ctor":
                    st = {}
                args = []
                outs += ev.run(f, st, this, args)
                if f.get("kind") == "ctor":
                    break
            leak = [o for o in outs if any(type(k) is str and k.startswith("own:") for k in o[2])]
            rep.check(not leak, f"leak:{f['fn']}", f"{f['fn']}: every raw handle is owned on all {len(outs)} outcomes",
                      f"{loc(f)}: {f['fn']} can {'throw' if leak and leak[0][0]=='throw' else 'return'} while a handle from SQLite is not owned by anyone")
            nul = [o for o in outs if "nullstr" in o[2]]
            if any(n.get("fn") == "sqlite3_column_text" for n in fn_nodes(f)) or nul:
                rep.check(not nul, f"null:{f['fn']}", f"{f['fn']}: NULL column text handled", f"{loc(f)}: {f['fn']} builds a string from the null pointer SQLite returns for a NULL column")
            for v, n in getattr(ev, "dtors", {}).get(id(f), []):
                isstatic = v in (NULL, 0) or (type(v) is tuple and v and v[0] == "null")
                if isstatic:
                    static.add(f["u"])
                    pt = f["p"][-1]["t"]
                    rep.check(pt.endswith("&") and not pt.endswith("&&"), f"static:{f['fn']}({pt})", f"{f['fn']}({pt}) references the caller's string",
                              f"{loc(f, n)}: {f['fn']}({pt}) lets SQLite keep a pointer into a string that dies when the call returns")
                else:
                    rep.ok(f"{f['fn']}({f['p'][-1]['t'][:40]}): text is copied by SQLite")
            # busy callback target
        regs = [f for f in prog.fns.values() if f.get("cls") == q and any(n.get("fn") == "sqlite3_busy_handler" for n in fn_nodes(f))]
        if regs:
            special = [f for f in prog.fns.values() if f.get("cls") == q and f.get("body") and (f.get("kind") == "ctor" or short(f["fn"]) == "operator=")]
            for m in c["m"]:
                if m.get("kind") in ("copyctor", "movector", "copyasg", "moveasg") and not m.get("del"):
                    user = [f for f in special if f["u"] == m["u"] and not f.get("defaulted") and not f.get("impl")]
                    if not user:
                        # copying is impossible with a unique_ptr member; a defaulted move keeps the old callback target
                        if m["kind"].startswith("move"):
                            rep.bad(f"busy:{m['kind']}", f"{c['f'].replace(REPO+'/','')}:{c['l']}: {q} is moved member by member: SQLite keeps calling the busy handler on the moved-from object")
            for f in special:
                ev = Own(prog); this = ("OBJ",)
                for o in ev.run(f, {}, this, [("l", ("OTHER",))] if f["p"] and q in f["p"][0]["t"] else []):
                    if o[0] != "ret":
                        continue
                    b = o[2].get("busy")
                    selfassign = short(f["fn"]) == "operator=" and not any(k[:1] == this for k in o[2] if type(k) is tuple)
                    if selfassign and b is None:
                        continue
                    rep.check(b == ("ptr", this), f"busy:{f['fn']}:{'asg' if short(f['fn'])=='operator=' else 'ctor'}", f"{f['fn']}({f['p'][0]['t'][:30] if f['p'] else ''}) registers the new object as busy callback target",
                              f"{loc(f)}: {f['fn']} can finish without registering the new object as busy callback target (SQLite calls back into a dead object or not at all)")
    # (2) call sites
    for f in prog.fns.values():
        if f.get("dep") or not f.get("body") or f.get("cls") in classes:
            continue
        if any(n.get("fn") == "sqlite::statement::bind" for n in fn_nodes(f)):
            cl = Bind(rep, f, static)
            Walker(prog, cl).run(f, [frozenset()])
    # (5) order of owners
    def kind(t):
        if "sqlite::statement" in t and "iterator" not in t and not t.endswith(("&", "*")): return "stmt"
        if "sqlite::handle" in t and not t.endswith(("&", "*")): return "db"
        return None
    seen = set()
    for c in prog.classes.values():
        ks = [(kind(f["t"]), f) for f in c["flds"] if kind(f["t"])]
        if {k for k, _ in ks} == {"stmt", "db"} and c["q"] not in seen:
            seen.add(c["q"])
            rep.count("owner orderings")
            order = [k for k, _ in ks]
            rep.check(order.index("db") < order.index("stmt"), f"order:{c['q']}", f"{c['q']}: the statement member is destroyed before its connection",
                      f"{c['f'].replace(REPO+'/','')}:{ks[0][1]['l']}: {c['q']} declares the statement before the connection: the connection is closed while the statement is alive and leaks")
    for f in prog.fns.values():
        if f.get("dep") or not f.get("body"):
            continue
        for n in fn_nodes(f):
            if n.get("k") != "Block":
                continue
            vs = [v for x in n["s"] if x["k"] == "Decl" for v in x["d"] if kind(v["t"]) and not v.get("static")]
            for i, v in enumerate(vs):
                if kind(v["t"]) == "stmt" and v.get("init"):
                    refs = {x["i"] for x in walk(v["init"]) if x.get("k") == "Ref" and x["w"] == "local"}
                    dbs = [w for w in vs if kind(w["t"]) == "db" and w["i"] in refs]
                    for w in dbs:
                        rep.count("owner orderings")
                        rep.ok(f"{loc(f, v)}: statement {v['n']} is declared after its connection {w['n']}")
