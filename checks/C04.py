"""Exhaustive abstract evaluation of every member function of the SQLite wrapper classes over all
values of their boolean state and every SQLite result code: a call that fails (any code but OK, or
ROW/DONE for stepping) leaves no path on which the member function returns normally; stepping reports
a row exactly for ROW and no row exactly for DONE. No other function calls SQLite's status functions
and drops the result, and no exception handler around database work swallows the error."""
from sqlfev import *

FLOORS = {"wrapper methods": 12, "sqlite status call sites": 8, "abstract outcomes": 500}

def run(rep):
    tus = all_src()
    prog = Program(tus)
    classes = [c for c in prog.classes.values() if c["q"] in ("sqlite::statement", "sqlite::handle")]
    if len({c["q"] for c in classes}) < 2:
        raise AnalysisError("anchor vanished: sqlite::statement / sqlite::handle")
    covered = set()
    for c in classes:
        for f in prog.fns.values():
            if f.get("cls") != c["q"] or f.get("dep") or f.get("impl") or f.get("kind") == "dtor" or not f.get("body"):
                continue
            if f["acc"] != "public" and not (f.get("stat")):
                # private helpers are evaluated inside their callers
                continue
            rep.count("wrapper methods")
            ev = SqlEval(prog)
            this = ("OBJ",)
            res = []
            if f.get("stat"):
                res = ev.run(f, {}, this, [])
            else:
                for st in stores(c, this):
                    if f.get("kind") == "ctor":
                        st = {}
                    res += [(o, st) for o in ev.run(f, st, this, [])]
                    if f.get("kind") == "ctor":
                        break
                res = [o + (s0,) for o, s0 in res]
            covered |= set(ev.sites)
            name = f["fn"] + "(" + ",".join(p["t"] for p in f["p"]) + ")"
            rep.count("abstract outcomes", len(res))
            bad = [o for o in res if o[0] == "ret" and "err" in o[2] and not reported(o)]
            for o in bad[:1]:
                e = o[2]["err"]
                codes = sorted({x[2]["err"][1] for x in bad if x[2]["err"][0] == e[0]})
                rep.bad(f"swallowed:{f['fn']}:{e[0]}", f"{loc(f)}: {f['fn']} returns normally although {e[0]} (line {e[2]}) failed with result code {codes[:6]}")
            if not bad:
                rep.ok(f"{name}: {len(res)} outcomes, every failing SQLite call ends in an exception")
            noexc = [o for o in res if o[0] == "throw" and "err" not in o[2]]
            # stepping: value agrees with what SQLite said
            if short(f["fn"]) == "step":
                rows = [o for o in res if o[0] == "ret" and o[2].get("last:sqlite3_step") == 100]
                dones = [o for o in res if o[0] == "ret" and o[2].get("last:sqlite3_step") == 101]
                other = [o for o in res if o[0] == "ret" and "last:sqlite3_step" not in o[2] and "err" not in o[2]]
                rep.check(rows and all(o[1] in (True, 1) for o in rows), "step:row", "step() reports a row when SQLite returned one", f"{loc(f)}: step() does not report a row when SQLite returned one")
                rep.check(dones and all(o[1] in (False, 0) for o in dones), "step:done", "step() reports no row when SQLite is done", f"{loc(f)}: step() reports a row although SQLite is done")
                rep.check(not other, "step:nostep", "step() never answers without asking SQLite", f"{loc(f)}: step() can return without stepping the statement")
    rep.count("sqlite status call sites", len([k for k in covered if is_status(k[1])]))
    # direct use elsewhere
    own = {id(n) for c in classes for f in prog.fns.values() if f.get("cls") == c["q"] for n in fn_nodes(f)}
    for f in prog.fns.values():
        if f.get("dep") or not f.get("body"):
            continue
        for n in fn_nodes(f):
            if n.get("k") in ("Block",):
                for x in n["s"]:
                    y = x
                    while y and y.get("k") == "Cast":
                        y = y["e"]
                    if y and y.get("k") == "Call" and is_status(y.get("fn", "")) and y["fn"] not in ("sqlite3_finalize", "sqlite3_close", "sqlite3_close_v2"):
                        rep.bad(f"dropped:{f['fn']}:{y['fn']}", f"{loc(f, y)}: {f['fn']} drops the result of {y['fn']}")
    # handlers
    reach = sql_reach(prog)
    for f in prog.fns.values():
        if f.get("dep") or not f.get("body"):
            continue
        for n in fn_nodes(f):
            if n.get("k") == "Try":
                rep.count("try blocks")
                touches = [x for x in walk(n["b"]) if is_call(x) and (x.get("u") in reach or x.get("fn", "").startswith(("sqlite::", "sqlite3_")))]
                if not touches:
                    continue
                for h in n["h"]:
                    ct = h.get("ct")
                    if ct is None or "sqlite::error" in ct or ct.replace("const ", "").strip(" &") == "std::exception":
                        w = Walker(prog, Client())
                        fl = w.stmt(h["b"], {0}, Ctx(f))
                        ok = not (fl.n or fl.r or fl.b or fl.c)
                        rep.check(ok, f"catch:{f['fn']}", f"{loc(f, h['b'])}: handler in {f['fn']} rethrows",
                                  f"{loc(f, h['b'])}: a handler in {f['fn']} catches {ct or 'everything'} around database work ({touches[0].get('fn')}) and continues")

def reported(o):
    """The failing code itself is handed to the caller."""
    return type(o[1]) is int and type(o[1]) is not bool and o[1] == o[2]["err"][1]

def all_src():
    import facts
    return facts.all_tus() + ["driver:instantiate"]

def sql_reach(prog):
    """usrs of repo functions from which an SQLite call is reachable."""
    direct = {}
    for f in prog.fns.values():
        s = set(); t = False
        for n in fn_nodes(f):
            if is_call(n):
                if n.get("fn", "").startswith(("sqlite3_", "sqlite::")):
                    t = True
                if n.get("u"):
                    s.add(n["u"])
        direct[f["u"]] = (s, t)
    r = {u for u, (s, t) in direct.items() if t}
    ch = True
    while ch:
        ch = False
        for u, (s, t) in direct.items():
            if u not in r and s & r:
                r.add(u); ch = True
    return r
