"""Every operator of the configuration and its values is evaluated abstractly. Writing a number: the text
kept must be the number printed with all digits that type needs, or with fewer after reading it back
gave the same number. Reading: one conversion that covers the whole range and precision of the type,
decimal, of exactly the stored text, the same for const and non-const values. JSON: each iteration of
the load and save loops stores the generic element under its own key (no key interpreted as a path)
with its own text, on every path. Merging overwrites, comparing compares everything, reading a missing
key from a constant configuration throws."""
from core import *
from facts import *
from absev import *
FLOORS = {"read operators": 10, "write operators": 6, "map operations": 10, "json loops": 2}
V = "Configuration::value"; M = V + "::m_value"; PM = "Configuration::params"
READ = {"int": {"std::stoi"}, "unsigned long": {"std::stoul", "std::stoull"}, "unsigned int": {"std::stoul", "std::stoull"}, "long": {"std::stol", "std::stoll"}, "float": {"std::stof"}, "double": {"std::stod", "std::stold"}}
CLIB = {"float": {"strtof", "std::strtof"}, "double": {"strtod", "std::strtod", "strtold"}, "unsigned long": {"strtoul", "std::strtoul", "strtoull", "std::strtoull"}, "long": {"strtol", "strtoll", "std::strtol", "std::strtoll"}, "int": set()}
DIG = {"float": 9, "double": 17, "long double": 21}
# what istream extraction of a type reads back
class Conf(AbsEval):
    iteration_only = ("set", "child")
    def __init__(self, prog, T=None):
        super().__init__(prog); self.T = T
    def put(self, st, l, v):
        s = super().put(st, l, v)
        if l and l[0] == "this" and len(l) > 2 and l[1] == PM and type(l[2]) is tuple and l[2][0] == "idx":
            s = self.event(s, "set", l[2][1], hashable(v if not (type(v) is tuple and v and v[0] == "obj") else self.value_of(s, l + (M,))))
        return s
    def stream(self, n):
        t = n.get("t", "")
        return next((x for x in ("istringstream", "ostringstream", "stringstream") if x in t), None)
    def prim(self, n, name, ol, args, st, fr):
        k, sh = n["k"], short(name)
        if k == "Ctor" and self.stream(n):
            l = ol or self.newloc()
            s = self.put(st, l, ("stream",)); s[l + ("#prec",)] = 6; s[l + ("#text",)] = ()
            if args:
                v = self.val(args[0], st)
                if args[0][0] == "v" and type(v) is not tuple or (type(v) is tuple and v and v[0] not in ("cval",) and "ios" not in n.get("pt", [""])[0] and "Openmode" not in n.get("pt", [""])[0]):
                    s[l + ("#text",)] = (v,)
            return [(("obj", l), s)]
        if ol is not None and ol + ("#text",) in st and k == "MCall":
            if sh == "str":
                if args:
                    v = self.val(args[0], st); s = dict(st); s[ol + ("#text",)] = () if v in (("str", ""), ("empty",)) else (v,)
                    return [(None, s)]
                t = st[ol + ("#text",)]
                return [(t[0] if len(t) == 1 else ("S",) + t, st)]
            if sh == "precision" and args:
                s = dict(st); s[ol + ("#prec",)] = self.val(args[0], st); return [(UNK, s)]
            if sh in ("clear", "imbue", "seekg", "flush"):
                return [(None, st)]
            if sh in ("setf", "unsetf", "flags"):
                s = dict(st); s[ol + ("#prec",)] = UNK; return [(UNK, s)]
            if sh in ("operator bool", "good", "eof"):
                return [(True, st), (False, st)]
            if sh in ("fail", "operator!"):
                return [(True, st), (False, st)]
        if k == "OpCall" and n["op"] in ("<<", ">>") and ("u" not in n or n["u"] not in self.prog.fns):
            locs = [ol] if ol is not None else []
            rest = list(args)
            if ol is None and args and args[0][0] == "l":
                locs, rest = [args[0][1]], list(args[1:])
            if locs and locs[0] + ("#text",) in st and rest:
                so = locs[0]; s = dict(st)
                if n["op"] == "<<":
                    v = self.val(rest[0], st)
                    if type(v) is tuple and v and v[0] == "app" and v[1] == "std::setprecision":
                        s[so + ("#prec",)] = v[2]
                    elif type(v) is tuple and v and v[0] == "fn":
                        s[so + ("#prec",)] = {"std::hexfloat": 99}.get(v[1], s[so + ("#prec",)] if v[1] in ("std::dec", "std::flush", "std::skipws") else UNK)
                    else:
                        s[so + ("#text",)] = s[so + ("#text",)] + (("txt", hashable(v), s[so + ("#prec",)]),)
                elif rest[0][0] == "l":
                    t = s[so + ("#text",)]
                    s = self.put(s, rest[0][1], ("app", "parse", t[0] if len(t) == 1 else ("S",) + t))
                return [(("ref", so), s)]
        if name == "std::setprecision":
            return [(("app", name, hashable(self.val(args[0], st))), st)]
        if name == "std::to_string":
            pt = n.get("pt", [""])[0]
            return [(("txt", hashable(self.val(args[0], st)), "fixed" if pt in DIG else 0), st)]
        if name == "fmt::format" and len(args) == 2 and self.val(args[0], st) == ("str", "{}"):
            return [(("txt", hashable(self.val(args[1], st)), 99), st)]
        if name.startswith("std::sto") or name in set().union(*CLIB.values()):
            vs = [hashable(self.val(a, st)) for a in args]
            t = vs[0]
            if type(t) is tuple and t[:1] == ("app",) and short(t[1]) in ("c_str", "data"):
                t = t[2]
            base = vs[2] if len(vs) > 2 else 10
            return [(("app", name, t) if base == 10 else ("app", name + f"/base{base}", t), st)]
        if k == "Ctor" and is_strtype(n.get("t", "")):
            if not args:
                return [(("str", ""), st)]
            return [(self.val(args[0], st), st)]
        if name.startswith("boost::property_tree"):
            vs = [hashable(self.val(a, st)) for a in args]
            if sh == "read_json" and args[1][0] == "l":
                return [(None, self.event(self.put(st, args[1][1], ("app", "json", vs[0])), "read", vs[0]))]
            if sh == "write_json":
                return [(None, self.event(st, "written", args[1][1] if args[1][0] == "l" else None, vs[0]))]
            if sh == "data" or sh == "get_value" and len(args) <= 1:
                return [(("app", "text", hashable(self.value_of(st, ol))), st)]
            if sh == "put_value" and ol is not None:
                return [(None, self.put(st, ol, ("tree", vs[0])))]
            if sh == "first" or sh == "second":
                return None
            if k == "Ctor":
                if not args: return [(("tree", None), st)] if ol is None else [(("obj", ol), self.put(st, ol, ("tree", None)))]
                v = ("tree", vs[0]) if not (type(vs[0]) is tuple and vs[0] and vs[0][0] == "tree") else vs[0]
                if "string_path" in n.get("t", ""):
                    v = ("path", vs[0], vs[1] if len(vs) > 1 and type(vs[1]) is int else ord("."))
                return [(v, st)] if ol is None else [(("obj", ol), self.put(st, ol, v))]
            if ol is not None and sh in ("put", "add", "put_child", "add_child"):
                kk = vs[0]
                if not (type(kk) is tuple and kk and kk[0] == "path"):
                    kk = ("path", kk, ord("."))
                s = self.event(st, "child", ol, kk, vs[1])
                return [(UNK, s)]
            if ol is not None and sh in ("push_back", "push_front", "insert"):
                s = self.event(st, "child", ol, *(vs[-1][1:3] if type(vs[-1]) is tuple and vs[-1] and vs[-1][0] == "pair" else (UNK, UNK)))
                return [(UNK, s)]
        if k == "Ctor" and "filesystem" in n.get("t", "") and n.get("t", "").rstrip().endswith("path") and args:
            v = hashable(self.val(args[0], st))   # a path is its text
            return [(v, st)] if ol is None else [(("obj", ol), self.put(st, ol, v))]
        if name in ("std::filesystem::rename", "std::rename", "rename") and len(args) >= 2:
            a, b = (hashable(self.val(x, st)) for x in args[:2])
            return [(0, self.event(st, "renamed", a, b, any(e[0] == "written" and e[2] == a for e in self.events(st))))] + ([("throw", st)] if len(args) == 2 and "filesystem" in name else [(1, st)])
        if (k == "Ctor" and n.get("t", "").replace("const ", "").startswith("std::pair<") or name == "std::make_pair") and len(args) == 2:
            v = ("pair",) + tuple(hashable(self.val(a, st)) for a in args)
            return [(v, st)] if ol is None else [(("obj", ol), self.put(st, ol, v))]
        if k == "MCall" and sh == "at" and "map" in name and ol is not None:
            kk = hashable(self.val(args[0], st)); h = ("D", ("has", ol, kk))
            if st.get(h) is True:
                return [(("ref", ol + (("idx", kk),)), st)]
            s2 = dict(st); s2[h] = True
            s3 = dict(st); s3[h] = False
            return [(("ref", ol + (("idx", kk),)), s2), ("throw", s3)]
        if k == "MCall" and sh == "insert_or_assign" and ol is not None:
            kk = hashable(self.val(args[0], st))
            return [(UNK, self.put(st, ol + (("idx", kk),), self.val(args[1], st)))]
        return super().prim(n, name, ol, args, st, fr)
    def rv(self, n, st, fr, outs):
        if n is not None and n.get("k") == "Bin" and n["op"] in ("==", "!="):
            r = []
            for a, s in self.rv(n["x"], st, fr, outs):
                for b, s2 in self.rv(n["y"], s, fr, outs):
                    for x, y in ((a, b), (b, a)):
                        if type(x) is tuple and x[:2] == ("app", "parse") and type(x[2]) is tuple and x[2][0] == "txt" and x[2][1] == y:
                            p = x[2][2]
                            enough = type(p) is int and p >= DIG.get(self.T, 0)
                            s3 = dict(s2); s3[("#exact", x[2])] = True
                            r += [(n["op"] == "==", s3)] + ([] if enough else [(n["op"] != "==", s2)])
                            break
                    else:
                        r.append((self.binop(n["op"], a, b, s2), s2))
            return r
        return super().rv(n, st, fr, outs)

def base(t):
    return t.replace("const ", "").replace("&", "").strip()

def run(rep):
    prog = Program(all_tus())
    fs = [f for f in prog.fns.values() if f.get("cls") == V and not f.get("dep") and not f.get("impl")]
    pairs = {}
    for f in fs:
        at = loc(f); op = f["fn"].rsplit("::", 1)[-1]
        if op == "operator>>":
            rep.count("read operators")
            T = base(f["p"][0]["t"]); c = "const " if f["t"].startswith("const") else ""
            rest = set()
            for o in Conf(prog, T).run(f, {}, ("this",), [("l", ("R",))]):
                if o[0] == "throw":
                    continue
                st = o[2]
                got = st.get(("R",), st.get(("R", M)))
                if got is None and T == V: got = st.get(("R",))
                me = ("sym", ("this", M))
                if is_strtype(T) or T == V:
                    okv = got == me or got == ("copyof", ("this", M))
                elif type(got) is tuple and got[:1] == ("app",):
                    okv = (got[1] in READ.get(T, ()) | CLIB.get(T, set()) or got[1] == "parse") and got[2] == me
                else:
                    okv = False
                if st.get(("this", M), me) != me:
                    rep.bad(f"read-changes:{T}", f"{at}: reading a value changes it")
                rest.add(got)
                rep.check(okv, f"read:{c}{T if not is_strtype(T) else 'string'}", f"{at}: a value is read as {short_t(T)} by {show(got)}",
                          f"{at}: {c}value >> {short_t(T)} delivers {show(got)}, not the stored text converted to the whole range of {short_t(T)}")
            pairs.setdefault(T, {})[c] = rest
        elif op == "operator<<":
            rep.count("write operators")
            T = base(f["p"][0]["t"])
            ev = Conf(prog, T)
            for o in ev.run(f, {}, ("this",), [("l", ("R",))] if isref(f["p"][0]["t"]) else [("v", ("sym", ("R",)))]):
                if o[0] == "throw":
                    continue
                st = o[2]; got = st.get(("this", M)) 
                src = [("sym", ("R",)), ("sym", ("R", M))]
                if T in DIG:
                    okv = type(got) is tuple and got[:1] == ("txt",) and got[1] in src and (type(got[2]) is int and got[2] >= DIG[T] or ("#exact", got) in st)
                    msg = f"a {T} is kept as {show_txt(got)}, which does not identify the number"
                else:
                    okv = got in src or type(got) is tuple and got[:1] == ("txt",) and got[1] in src
                    msg = f"writing a {short_t(T)} keeps {show_txt(got)}"
                rep.check(okv, f"write:{short_t(T)}", f"{at}: writing {short_t(T)} keeps {show_txt(got)}" + (" after reading it back" if ("#exact", got) in st and T in DIG else ""), f"{at}: {msg}")
        elif op == "operator==":
            import keys
            for a, rel in keys.outcomes(prog, f)[0]:
                same = all(v == "=" for v in rel.values()) and rel
                rep.check(a == bool(same), "value-eq", f"{at}: values are equal exactly if their texts are", f"{at}: value comparison answers {a} for {rel}")
        elif op == "str":
            for o in Conf(prog).run(f, {}, ("this",)):
                rep.check(o[0] == "ret" and o[1] == ("sym", ("this", M)), "str", f"{at}: str() returns the stored text", f"{at}: str() does not return the stored text")
    P_ = ("this", PM)
    K = ("sym", ("K",)); first = "std::pair::first"; second = "std::pair::second"
    seen = set()
    for f in prog.fns.values():
        if f.get("cls") != "Configuration" or f.get("impl") or f.get("dep"):
            continue
        op = f["fn"].rsplit("::", 1)[-1]; at = loc(f); ev = Conf(prog)
        seen.add(op)
        if op in ("operator[]", "count", "find"):
            rep.count("map operations")
            cst = not isref(f["t"]) if op == "operator[]" else False
            outs = ev.run(f, {}, ("this",), [("l", ("K",))])
            for o in outs:
                has = o[2].get(("D", ("has", P_, K)))
                if op == "operator[]":
                    if o[0] == "throw":
                        rep.check(has is False or has is None, "index-throws", f"{at}: a missing key is an error", f"{at}: operator[] throws for a key that exists"); continue
                    v = o[1]
                    want = P_ + (("idx", K),)
                    okv = v in (("ref", want), ("sym", want), ("copyof", want), ("obj", want))
                    rep.check(okv and not (cst and has is not True), "index", f"{at}: operator[] delivers the element of the key" + (", which exists" if cst else ""),
                              f"{at}: operator[] " + ("on a constant configuration answers for a key that does not exist" if okv else f"delivers {show(v)} instead of the element of the key"))
                elif op == "count":
                    v = o[1]
                    okv = v == ("has", P_, K) or has is not None and ev.asbool(v) == has
                    rep.check(okv, "count", f"{at}: count() tells whether the key exists", f"{at}: count() returns {show(v)}")
                else:
                    rep.check(o[1] == ("found", P_, K) or (type(o[1]) is tuple and o[1][:1] == ("enditer",) and has is False), "find", f"{at}: find() looks the key up", f"{at}: find() returns {show(o[1])}")
        elif op in ("begin", "end"):
            rep.count("map operations")
            for o in ev.run(f, {}, ("this",)):
                rep.check(o[1] == (("iter" if op == "begin" else "enditer"), P_), op, f"{at}: {op}() is the {op} of all entries", f"{at}: {op}() returns {show(o[1])}")
        elif op == "operator==":
            rep.count("map operations")
            for o in ev.run(f, {}, ("this",), [("l", ("R",))]):
                A, B = ("sym", P_), ("sym", ("R", PM))
                okv = o[1] in (("app", "==", A, B), ("app", "==", B, A))
                sizes = {("app", "std::map::size", x) for x in (A, B)}
                if o[1] is False:   # a difference in size is a difference
                    okv = any(k[0] == "D" and type(k[1]) is tuple and k[1][:1] == ("app",) and set(k[1][2:]) == sizes and (k[1][1] == "!=") == v for k, v in o[2].items() if type(k) is tuple and k)
                rep.check(okv, "conf-eq", f"{at}: configurations are equal exactly if all entries are", f"{at}: comparing configurations returns {show(o[1])}")
        elif op == "operator+=":
            rep.count("map operations")
            outs = ev.run(f, {}, ("this",), [("l", ("R",))])
            C = ("R", PM, "[]")
            its = [i for i in ev.iterations if i[0] == ("R", PM)]
            rep.check(bool(its), "append-all", f"{at}: all entries of the right hand side are visited", f"{at}: += does not visit the entries of the right hand side")
            for c, e, how, w in its:
                if how == "threw":
                    continue
                vals = [x[2] for x in e if x[0] == "set" and x[1] == ("sym", C + (first,))]
                okv = how == "done" and any(v in (("sym", C + (second,)), ("sym", C + (second, M)), ("copyof", C + (second,))) for v in vals) and len(set(vals)) == 1
                rep.check(okv, "append", f"{at}: += stores every value of the right hand side under its key", f"{at}: += can leave an entry of the right hand side out or keep the old value")
        elif op == "load_from_json":
            rep.count("json loops")
            outs = ev.run(f, {}, ("this",), [("l", ("K",))])
            trees = {k for o in outs for k, v in o[2].items() if v == ("app", "json", K)}
            its = [i for i in ev.iterations]
            for o in outs:
                rep.check(o[0] == "throw" or ("read", K) in ev.events(o[2]), "load-file", f"{at}: the file named is read", f"{at}: load_from_json returns without having read the file named")
            rep.check(bool(its), "load-all", f"{at}: all entries of the file are visited", f"{at}: load_from_json does not visit the entries of the file")
            for c, e, how, w in its:
                if how == "threw":
                    continue
                el = c + ("[]",)
                vals = {x[2] for x in e if x[0] == "set" and x[1] == ("sym", el + (first,))}
                okv = how == "done" and vals == {("app", "text", ("sym", el + (second,)))}
                rep.check(okv, "load", f"{at}: every entry is stored with its text under its key", f"{at}: load_from_json can skip an entry or store something else than its text under its key ({', '.join(show(v) for v in vals)})")
        elif op == "save_to_json":
            rep.count("json loops")
            outs = ev.run(f, {}, ("this",), [("l", ("K",))])
            trees = set()
            for o in outs:
                w = [x for x in ev.events(o[2]) if x[0] == "written"]
                trees |= {x[1] for x in w}
                rep.check(o[0] == "throw" or len(w) == 1 and (w[0][2] == K or ("renamed", w[0][2], K, True) in ev.events(o[2])), "save-file", f"{at}: the file named is written", f"{at}: save_to_json returns without having written the file named")
            its = [i for i in ev.iterations if i[0] == P_]
            rep.check(bool(its), "save-all", f"{at}: all entries are visited", f"{at}: save_to_json does not visit all entries")
            el = P_ + ("[]",)
            for c, e, how, w in its:
                if how == "threw":
                    continue
                ch = [x for x in e if x[0] == "child" and x[1] in trees]
                good = [x for x in ch if x[2] in (("sym", el + (first,)), ("path", ("sym", el + (first,)), 0)) and
                        x[3] in (("sym", el + (second, M)), ("tree", ("sym", el + (second, M))))]
                dotted = [x for x in ch if type(x[2]) is tuple and x[2][:1] == ("path",) and x[2][2] != 0]
                rep.check(how == "done" and len(good) == 1 and len(ch) == 1, "save-path" if dotted else "save", f"{at}: every entry is written with its text under its own key",
                          f"{at}: save_to_json " + ("takes a separator in a key for a path, so the entry comes back under another key" if dotted else "can skip an entry or write something else than its text under its key"))
    for op in ("operator[]", "count", "find", "begin", "end", "operator==", "operator+=", "load_from_json", "save_to_json"):
        if op not in seen:
            raise AnalysisError(f"Configuration::{op} not found")
    for T, d in pairs.items():
        if len(d) == 2:
            rep.check(d[""] == d["const "], f"read-const:{short_t(T)}", f"reading {short_t(T)} from const and non-const values is the same", f"reading {short_t(T)} differs between const and non-const values")

def short_t(t):
    return "string" if is_strtype(t) or t == "const char *" or t == "char *" else "value" if t == V else t
def show_txt(v):
    if type(v) is tuple and v[:1] == ("txt",):
        return f"the number printed with {v[2]} digits"
    return show(v)
