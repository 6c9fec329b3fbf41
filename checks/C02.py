"""Every constructor of QuantumDefect is evaluated abstractly, for a cache and a remembered database
name in an arbitrary earlier state. On each path: a restored element is taken whole, under a key that
contains everything the elements stored under it were computed from; an element is saved under the
key it was looked up with, completely defined and equal to what the object delivers; the database
that answers is part of the key, or the cache was emptied after another database had been in use and
the name in use was updated with it. Connections that hold the tables of a user's file are not kept
for the next file, and a file is used only after it was found readable. The look-up and the save of
one element happen under one lock, and the remembered name is only touched under it (lockset
analysis). Keys compare and hash by the same members. Members that refer into their own object are
rebound by every copy."""
from core import *
from locks import *
from facts import *
from qdmodel import *
import keys
FLOORS = {"constructors evaluated": 2, "paths": 6, "cache operations": 6, "key members": 4}

def run(rep):
    prog = Program(all_tus())
    rs = runs(prog)
    rep.count("constructors evaluated", len({f["u"] for f, _, _ in rs}))
    elem = {f["q"] for f in prog.cls("QuantumDefect::Element")[0]["flds"]} if prog.cls("QuantumDefect::Element") else set()
    for f, o, ev in rs:
        if o[0] != "ret":
            rep.count("paths ending in an exception"); continue
        rep.count("paths")
        st = o[2]; evs = st.get(("#ev",), ())
        at = loc(f)
        d = delivered(st)
        names = [p["n"] for p in f["p"]]
        # inputs kept
        for q in ("species", "n", "l", "j"):
            rep.check(d.get(q) == ("sym", ("P", q)) or (q not in names and q in d), f"input:{q}", f"{at}: {q} is kept as given",
                      f"{at}: QuantumDefect::QuantumDefect delivers {show(d.get(q))} as {q}, not the argument")
        opens = [e for e in evs if e[0] == "exec" and any(type(x) is tuple and mentions_app(x[1], "contents") for x in e[2])]
        files = set()
        for e in opens:
            for x in e[2]:
                for v in apps(x[1] if type(x) is tuple else x, "file"):
                    files.add(v[2])
            db = e[1]
            rep.check(type(db) is tuple and db[0] == "dbof" and db[1][0] != "G", "userdb-static",
                      f"{e[4]}: the connection that receives a user's tables lives for one look-up",
                      f"{e[4]}: the tables of a user's database are loaded into a connection that outlives the look-up, so the next file is read on top of them")
            tested = False
            for dec, val in e[3]:
                base = dec
                if type(base) is tuple and base and base[0] == "app" and any(True for _ in apps(base, "file")):
                    op = base[1]
                    if (op in ("operator!", "fail") and val is False) or (op in ("operator bool", "is_open", "good") and val is True):
                        tested = True
            rep.check(tested, "userdb-unreadable", f"{e[4]}: the database file is known to be readable before its text is executed",
                      f"{e[4]}: QuantumDefect executes the text read from the database file without having checked that the file could be read")
        steps = {e[1] for e in evs if e[0] == "step"}
        rep.check(len(steps) <= 1, "one-db", f"{at}: one connection answers all queries of a look-up", f"{at}: one look-up is answered by more than one connection {steps}")
        ident = ("embedded",) if not opens else ("file", next(iter(files)) if files else UNK)
        # cache protocol
        restored = None; cleared = False
        for i, e in enumerate(evs):
            if e[0] in ("clear", "restore", "save"):
                rep.count("cache operations")
            if e[0] == "clear":
                cleared = True
            elif e[0] == "restore":
                hit, key, known = e[1], e[2], e[3]
                restored = (hit, key)
                kv = [v for _, v in key] if key and key[0] != "whole" else []
                rep.check(bool(kv) and UNK not in kv, "key-opaque", f"{at}: the key of the look-up is made of known values", f"{at}: the key of the cache look-up could not be resolved to the arguments")
                dbkey = ident[0] == "file" and ident[1] in kv
                same = False
                for k in known:
                    if k[0] == "G" and False:
                        pass
                    elif k[0] != "G" and type(k[0]) is tuple and k[0][0] == "app" and k[0][1] in ("!=", "==") and \
                            any(type(x) is tuple and x and x[0] == "sym" and x[1][0] == "G" for x in k[0][2:]) and (k[0][1] == "==") == k[1]:
                        other = [x for x in k[0][2:] if not (type(x) is tuple and x and x[0] == "sym" and x[1][0] == "G")]
                        same = same or (bool(other) and identifies(other[0], ident, known))
                gvals = [v for k in known if k[0] == "G" for v in (k[2],)]
                updated = any(identifies(v, ident, known) for v in gvals)
                ok = dbkey or same or (cleared and updated)
                rep.check(ok, "db-not-in-key", f"{at}: an element found in the cache was computed from the same database ({'key' if dbkey else 'name in use is equal' if same else 'emptied and renamed'})",
                          f"{at}: a cached element may come from another database: " + ("the cache was not emptied" if not cleared else "the name of the database in use was not updated when the cache was emptied"))
                rep.check(not updated or cleared or same, "renamed-not-cleared", f"{at}: the remembered name changes only together with the cache",
                          f"{at}: the remembered database name is changed while the cache keeps the elements of the previous database")
            elif e[0] == "save":
                rep.check(restored is not None and restored[1] == e[1], "save-key", f"{at}: an element is saved under the key it was looked up with",
                          f"{at}: an element is saved under another key than the one that was looked up")
                fields = dict((k[-1] if k else k, v) for k, v in e[2]) if e[2] and e[2][0] != "whole" else {}
                undefined = sorted(short(q) for q in elem if fields.get(q, UNK) == UNK or fields.get(q) is None)
                rep.check(not undefined, "save-partial", f"{at}: every member of the saved element is defined ({len(elem)})", f"{at}: the element is saved before {', '.join(undefined)} is defined")
                kv = {v for _, v in e[1]} if e[1] and e[1][0] != "whole" else set()
                for q, v in fields.items():
                    need = {x for x in leaves(v) if x[0] == "sym" and x[1][0] == "P" and not x[1][1:] == ("database",)}
                    rep.check(need <= kv, f"key-misses:{short(q)}", f"{at}: {short(q)} depends only on members of the key",
                              f"{at}: {short(q)} depends on {', '.join(sorted(show(x) for x in need - kv))}, which is not part of the cache key")
                for q, v in fields.items():
                    if short(q) in d:
                        rep.check(d[short(q)] == v, f"save-differs:{short(q)}", f"{at}: the object delivers the {short(q)} it saved", f"{at}: the {short(q)} delivered differs from the one saved in the cache")
        if restored and restored[0]:
            for q in elem:
                v = d.get(short(q))
                okv = v == ("sym", ("HIT",)) or (type(v) is tuple and v and v[0] == "part" and v[1] == ("sym", ("HIT",)) and v[2][-1] == q) or v == ("sym", ("HIT", q))
                rep.check(okv, f"hit:{short(q)}", f"{at}: after a hit {short(q)} is the cached one", f"{at}: after a cache hit {short(q)} is {show(v)}, not the cached value")
    # keys
    kc = prog.cls("QuantumDefect::Key")
    if kc:
        check_key(rep, prog, "QuantumDefect::Key", "QuantumDefect::Hash")
    locks_check(rep, prog)
    selfrefs(rep, prog)

def apps(v, name):
    if type(v) is tuple:
        if len(v) > 1 and v[0] == "app" and v[1] == name:
            yield v
        for x in v:
            yield from apps(x, name)
def mentions_app(v, name):
    return any(True for _ in apps(v, name))

def identifies(v, ident, known):
    """The name v stands for the database the path uses."""
    if ident[0] == "file":
        return v == ident[1]
    if type(v) is tuple and v and v[0] == "S" and all(type(x) is str for x in v[1]):
        return True
    for k in known:
        if k[0] != "G" and type(k[0]) is tuple and k[0][:2] == ("app", "empty") and k[0][2] == v and k[1] is True:
            return True
    return False

def check_key(rep, prog, kq, hq, tag=""):
    c = prog.cls(kq)[0]
    flds = {(f["q"],) for f in c["flds"]}
    eqs = [f for f in prog.fns.values() if f["fn"] == kq + "::operator==" and f.get("body")]
    if not eqs:
        eqs = [f for f in prog.fns.values() if short(f["fn"]) == "operator==" and f.get("body") and len(f["p"]) == 2 and all(kq in p["t"] for p in f["p"])]
    if not eqs:
        d = [m for m in c["m"] if short(m["fn"]) == "operator==" and m.get("defaulted")]
        eqfields = flds if d else None
        if eqfields is None:
            raise AnalysisErr(f"anchor vanished: {kq} has no operator==")
    else:
        outs, ev = keys.outcomes(prog, eqs[0])
        for l, r in getattr(ev, "crossed", set()):
            rep.bad(f"key-crossed:{kq}", f"{loc(eqs[0])}: {kq}::operator== compares {l} with {r}")
        top = lambda p: (p[0],)
        eqfields = set()
        for t, rel in outs:
            if t not in (True, False):
                rep.bad(f"key-eq-opaque:{kq}", f"{loc(eqs[0])}: the answer of {kq}::operator== could not be decided from member comparisons ({show(t)})"); continue
            if t:
                diff = [p for p, r in rel.items() if r != "="]
                rep.check(not diff, f"key-eq:{kq}", f"{loc(eqs[0])}: keys that differ in a member are different", f"{loc(eqs[0])}: {kq}::operator== answers true although {', '.join(short(p[-1]) for p in diff)} differs")
                miss = flds - {top(p) for p in rel}
                for m in miss:
                    rep.bad(f"key-eq-misses:{kq}:{short(m[0])}", f"{loc(eqs[0])}: {kq}::operator== does not compare {short(m[0])}, so elements of different inputs share an entry")
                eqfields = {top(p) for p in rel}
            else:
                rep.check(any(r != "=" for r in rel.values()), f"key-eq-self:{kq}", f"{loc(eqs[0])}: equal keys are equal", f"{loc(eqs[0])}: {kq}::operator== answers false for equal members")
        if not any(t is True for t, _ in outs):
            rep.bad(f"key-eq-never:{kq}", f"{loc(eqs[0])}: {kq}::operator== never answers true")
    rep.count("key members", len(eqfields))
    hs = [f for f in prog.fns.values() if f["fn"] == hq + "::operator()" and f.get("body")]
    for hf in hs:
        rd = {(p[0],) for p in keys.fields_read(prog, hf)}
        rep.check(rd <= eqfields, f"key-hash:{kq}", f"{loc(hf)}: the hash depends on {len(rd)} members, all of them compared", f"{loc(hf)}: the hash of {kq} depends on {', '.join(short(p[0]) for p in rd - eqfields)}, which equality ignores")
        rep.check(bool(rd), f"key-hash-none:{kq}", f"{loc(hf)}: the hash reads the key", f"{loc(hf)}: the hash of {kq} does not depend on the key")

class L(LockClient):
    """extra: cache paths looked up under the locks held since"""
    def __init__(self, rep, f):
        super().__init__(rep); self.f = f
    def on_release(self, s, m):
        return (s[0], frozenset())
    def usable(self, s):
        return frozenset(m for m in self.held(s) if not m[0].startswith(("local:", "tmp", "param:")))
    def after_call(self, s, n, ctx, inlined):
        (s,) = super().after_call(s, n, ctx, inlined)
        if n["k"] == "MCall" and (n.get("fn") or "").startswith("Cache::"):
            p = path(n["o"], ctx)
            sh = short(n["fn"])
            if sh == "restore" and self.usable(s):
                s = (s[0], s[1] | {p})
            if sh == "save":
                self.rep.check(p in s[1], "check-then-save", f"{loc(ctx.owner(), n)}: the element is saved under the lock it was looked up with",
                               f"{loc(ctx.owner(), n)}: {self.f['fn']} looks an element up and saves it without holding one lock in between: two threads that miss the same element make the second save fail")
                self.rep.count("lock-protected saves")
        return (s,)
    def inline(self, fn, node, ctx):
        return not (fn.get("cls") or "").startswith(("Cache", "sqlite::"))

def locks_check(rep, prog):
    for f in prog.fns.values():
        if any((n.get("fn") or "").startswith("Cache::save") for n in fn_nodes(f)) and "/unit_test/" not in f["f"]:
            w = Walker(prog, L(rep, f))
            w.run(f, [(frozenset(), frozenset())])

def selfrefs(rep, prog):
    """classes whose constructors bind reference members to their own members"""
    for u, cs in prog.classes.items():
        for c in (cs if isinstance(cs, list) else [cs]):
            refs = [f["q"] for f in c["flds"] if f["t"].endswith("&")]
            if not refs or not c["f"].startswith("/repo/") :
                continue
            own = {f["q"] for f in c["flds"]}
            bound = set()
            for f in prog.fns.values():
                if f.get("kind") == "ctor" and f.get("cls") == c["q"]:
                    for i in f.get("ini") or []:
                        if i.get("q") in refs and i.get("e"):
                            b = strip_casts(i["e"])
                            while b.get("k") == "Mem" and b.get("b"):
                                b = strip_casts(b["b"])
                            if b.get("k") == "This" or (b.get("k") == "Mem" and not b.get("b") and b["q"] in own):
                                bound.add(i["q"])
            if not bound:
                continue
            rep.count("classes with references into themselves")
            for what in ("copy", "move"):
                ms = [f for f in prog.fns.values() if f.get("kind") == "ctor" and f.get("cls") == c["q"] and len(f["p"]) == 1 and
                      f["p"][0]["t"].replace("const ", "").rstrip("& ") == c["t"].replace("const ", "") and f["p"][0]["t"].endswith("&&") == (what == "move")]
                decl = [m for m in c["m"] if m.get("kind") == "ctor" and len(m.get("pt", [])) == 1 and c["t"] in m["pt"][0] and m["pt"][0].endswith("&&") == (what == "move")]
                user = [f for f in ms if not f.get("impl") and not f.get("defaulted")]
                deleted = any(m.get("deleted") for m in decl)
                if user:
                    f = user[0]
                    inis = f.get("ini") or []
                    good = any(i.get("deleg") for i in inis)
                    if not good:
                        got = set()
                        for i in inis:
                            if i.get("q") in bound:
                                b = strip_casts(i["e"])
                                while b.get("k") == "Mem" and b.get("b"):
                                    b = strip_casts(b["b"])
                                if b.get("k") == "This" or (b.get("k") == "Mem" and not b.get("b")):
                                    got.add(i["q"])
                        good = got == bound
                    rep.check(good, f"selfref-{what}:{c['q']}", f"{loc(f)}: the {what} of a {c['q']} binds its references to itself", f"{loc(f)}: the {what} constructor of {c['q']} leaves references bound to the original")
                elif deleted:
                    rep.ok(f"{c['q']}: {what} is deleted")
                elif what == "copy":
                    copyable = [f for f in ms] or not decl
                    rep.check(False, f"selfref-copy:{c['q']}", "", f"{c['f'].replace('/repo/','')}:{c['l']}: {c['q']} has references into itself ({', '.join(short(x) for x in sorted(bound))}) and an implicit copy constructor: a copy refers to the original's members")
