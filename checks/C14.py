"""Path analysis of everything that produces result files. Each function that writes one is evaluated over
all outcomes of the calls it makes (open, write, close and rename may each fail): on every path the data
go to another name first, all of them are written, every failure ends in an exception, and only complete data
get the final name. Reading is evaluated the same way: 'read' is only reported when everything was. The
loops that produce results are then evaluated over all paths of one step: settings are announced (.json)
only for a matrix stored before, never while an older matrix may still be there, a stored matrix is used only
if the settings stored with it equal the current ones, and a result is reported to the user interface exactly
once, after both files exist."""
from core import *
from facts import *
from absev import *
FLOORS = {"writers": 3, "readers": 2, "paths": 20, "result loops": 2}
H = "Hamiltonianmatrix::"

def strip_path(v):
    """the name behind conversions between string, path and const char *"""
    while type(v) is tuple and v[:1] == ("app",) and len(v) == 3 and v[1].rsplit("::", 1)[-1] in ("c_str", "string", "native", "data", "generic_string", "u8string"):
        v = v[2]
    return v

class IO(AbsEval):
    """stdio, fstream and filesystem calls with both outcomes"""
    def inline(self, f, n):
        if f.get("fn", "") in (H + "doSerialization", H + "doDeserialization", H + "serialize", H + "deserialize"):
            return False
        return super().inline(f, n)
    def seq(self, st, *e):
        s = dict(st); s[("#seq",)] = st.get(("#seq",), ()) + (e,)
        return s
    def fail(self, st, what):
        s = dict(st); s[("#fail",)] = st.get(("#fail",), ()) + (what,)
        return s
    def decl(self, v, st, fr, outs):
        e = strip_casts(v["init"]) if v.get("init") else {}
        if e.get("k") == "Ctor" and "stream" in v["t"] and not isref(v["t"]):
            return [s for _, s in self.ctor_into(e, ("L", fr.uid, v["i"]), st, fr, outs)]
        return super().decl(v, st, fr, outs)
    def symbolic(self, op, a, b, st):
        if type(a) is tuple and a[:1] == ("short",) or type(b) is tuple and b[:1] == ("short",):
            sh, o = (a, b) if type(a) is tuple and a[:1] == ("short",) else (b, a)
            if op in ("==", "!=") and prod(o) == prod(sh[1]):
                return op == "!="
            if op in ("<", ">", "<=", ">=") and prod(o) == prod(sh[1]):
                return (op in ("<", "<=")) == (sh is a)
        if op in (">=", "<") and b == 0 and type(b) is int and "size" in str(prod(a)):
            return op == ">="
        if op in ("==", "!=") and type(a) is tuple and type(b) is tuple and UNK not in (a, b) and prod(a) == prod(b):
            return op == "=="
        return super().symbolic(op, a, b, st)
    def prim(self, n, name, ol, args, st, fr):
        k, sh = n["k"], short(name)
        vs = lambda i: hashable(self.val(args[i], st))
        at = self.here(n, fr)
        base = name[5:] if name.startswith("std::") else name
        if base in ("fopen", "fdopen", "freopen"):
            mode = vs(1)
            fh = ("fh", strip_path(vs(0)), mode[1] if type(mode) is tuple and mode[:1] == ("str",) else "?")
            return [(fh, self.seq(st, "open", fh[1], fh[2], at)), (NULL, self.fail(st, ("open", at)))]
        if base in ("fwrite", "fread"):
            cnt = self.binop("*", vs(1), vs(2), st) if vs(1) != 1 else vs(2)
            f = vs(3)
            s = self.seq(st, base, hashable(self.what(st, args[0], n)), hashable(self.binop("*", vs(1), vs(2), st)), f, at)
            return [(vs(2), s), (("short", vs(2)), self.fail(s, (base, at)))]
        if base in ("fputs", "fputc", "fprintf", "putc", "fflush"):
            f = next((v for v in (vs(i) for i in range(len(args))) if type(v) is tuple and v[:1] == ("fh",)), None)
            return [(0 if base == "fflush" else 1, self.seq(st, base, f, at)), (-1, self.fail(st, (base, at)))]
        if base == "fclose":
            return [(0, self.seq(st, "close", vs(0), at)), (-1, self.fail(self.seq(st, "close", vs(0), at), ("close", at)))]
        if base in ("ferror",):
            return [(1 if any(x[0] in ("fwrite", "fread") for x in st.get(("#fail",), ())) else 0, st)]
        if base in ("feof",):
            return [(1, st), (0, st)]
        if base in ("fseek", "rewind", "setvbuf", "fileno", "fsync"):
            return [(0, st)]
        if base == "ftell":
            return [(("app", "filesize", vs(0)), st)]
        if name.endswith("file_size"):
            return [(("app", "filesize", vs(0)), st)]
        if base in ("remove", "unlink") or name.endswith("filesystem::remove"):
            return [(0, self.seq(st, "remove", strip_path(vs(0)), at))]
        if base == "rename" and not ("filesystem" in name):
            return [(0, self.seq(st, "rename", strip_path(vs(0)), strip_path(vs(1)), at)), (-1, self.fail(st, ("rename", at)))]
        if name.endswith("filesystem::rename") or "filesystem" in name and sh == "rename":
            ec = len(args) > 2
            ok = [(None, self.seq(st, "rename", strip_path(vs(0)), strip_path(vs(1)), at))]
            return ok + ([("throw", self.fail(st, ("rename", at)))] if not ec else [(None, self.fail(st, ("rename", at)))])
        if "filesystem" in name and sh.startswith("copy"):
            return [(None, self.seq(st, "open", strip_path(vs(1)), "w", at))]
        if k == "Ctor" and "filesystem::path::path" in name and args:
            return [(vs(0), st)]
        if k == "Ctor" and "basic_string" in name and args and len([a for a in n["a"] if a.get("k") != "DefArg"]) == 1:
            return [(strip_path(vs(0)), st)]
        if sh == "write_json":
            tgt = vs(0)
            out = hashable(self.what(st, args[1], n))
            if self.isstream(n, 0):
                # ends with a flush and throws if the stream is not good then
                s = self.swrite(st, args[0][1], out, at, True)
                return [(None, self.seq(s, "close", st.get(("#os", args[0][1]), (True, None))[1], at)), ("throw", self.fail(st, ("write", at)))]
            p = strip_path(tgt)
            s = self.seq(self.seq(self.seq(st, "open", p, "w", at), "fwrite", out, None, p, at), "close", p, at)
            return [(None, s), ("throw", self.fail(s, ("write", at)))]
        if sh == "read_json":
            s = self.seq(st, "fread", strip_path(vs(0)), None, None, at)
            return [(None, s), ("throw", self.fail(s, ("read", at)))]
        if ol is not None and sh == "data" and not args and "path" not in name and "string" not in name:
            return [(("ptr", ol + (("idx", 0),)), st)]
        if ol is not None and sh == "resize" and args:
            s = dict(st); s[("#size", ol)] = vs(0)
            return [(None, s)]
        if ol is not None and sh in ("size", "length") and ("#size", ol) in st:
            return [(st[("#size", ol)], st)]
        # file streams
        if k == "Ctor" and ("basic_ofstream" in name or "basic_fstream" in name) or k == "MCall" and sh == "open" and ("basic_ofstream" in name or "basic_fstream" in name):
            if args and len([a for a in n["a"] if a.get("k") != "DefArg"]):
                l = ol if ol is not None else self.newloc()
                p = strip_path(vs(0))
                r = []
                for good in (True, False):
                    s = self.seq(st, "open", p, "w", at) if good else self.fail(st, ("open", at))
                    s = dict(s); s[("#os", l)] = (good, p)
                    r.append((("obj", l), s))
                return r
            return None
        if ol is not None and ("#os", ol) in st:
            good, p = st[("#os", ol)]
            if sh in ("fail", "bad", "operator!"): return [(not good, st)]
            if sh in ("good", "is_open", "operator bool"): return [(good, st)]
            if sh in ("write", "put", "flush") or k == "OpCall" and n["op"] == "<<":
                w = hashable(self.what(st, args[0], n)) if args and sh != "flush" else None
                return [(("ref", ol), self.swrite(st, ol, w, at, True)), (("ref", ol), self.swrite(st, ol, w, at, False))]
            if sh == "close":
                s = self.seq(st, "close", p, at)
                bad = dict(self.fail(s, ("close", at))); bad[("#os", ol)] = (False, p)
                return [(None, s), (None, bad)]
        return super().prim(n, name, ol, args, st, fr)
    def isstream(self, n, i):
        return "stream" in (n.get("pt") or [""])[i]
    def swrite(self, st, l, what, at, ok):
        good, p = st.get(("#os", l), (True, None))
        if not good: return st
        if ok: return self.seq(st, "fwrite", what, None, p, at)
        s = dict(self.fail(st, ("write", at))); s[("#os", l)] = (False, p)
        return s
    def what(self, st, a, n):
        v = a[1] if a[0] == "v" else ("ptr", a[1])
        if type(v) is tuple and v[:1] == ("ptr",):
            l = v[1]
            return ("mem", l[:-1] if l and type(l[-1]) is tuple and l[-1][:1] == ("idx",) else l)
        if type(v) is tuple and v[:1] == ("app",) and v[1].endswith("::data") and len(v) == 3:
            o = v[2]
            return ("mem", o[1] if type(o) is tuple and len(o) > 1 else o)
        return v

def prod(v):
    """a product as the bag of its factors without ones"""
    if type(v) is tuple and v[:1] == ("app",) and v[1] in ("*", "/") and len(v) == 4 and (v[1] == "*" or v[3] == 1):
        return tuple(sorted([x for p in (v[2], v[3]) for x in prod(p)], key=str))
    return () if v == 1 and type(v) is int else (v,)

WRITES = ("fopen", "std::fopen", "fdopen")
def opens(f, mode):
    for n in fn_nodes(f):
        nm = n.get("fn", "")
        if nm in WRITES and mode == "w" and not (strip_casts(n["a"][1]).get("v", "").startswith("r")): return True
        if nm in WRITES and mode == "r" and strip_casts(n["a"][1]).get("v", "").startswith("r"): return True
        if short(nm) == "write_json" and mode == "w" or short(nm) == "read_json" and mode == "r": return True
        if mode == "w" and n.get("k") == "Ctor" and "basic_ofstream" in nm and f["fn"].split("::")[0] not in ("BasisnamesOne", "BasisnamesTwo"): return True
    return False

def run(rep):
    prog = Program(all_tus())
    entry = [f for nm in (H + "save", "Configuration::save_to_json") for f in prog.named(nm) if f.get("body") and not f.get("dep")]
    for nm in (H + "save", "Configuration::save_to_json", H + "load", "Configuration::load_from_json"):
        prog.need(nm)
    # whatever else opens a file for writing is a writer of its own unless one of these calls it
    others = [f for f in prog.fns.values() if f.get("body") and not f.get("dep") and f.get("f", "").startswith(SRC + "/") and f not in entry and "fn" in f and opens(f, "w")]
    called = set()
    for f in entry:
        todo = [f]
        while todo:
            g = todo.pop()
            for n in fn_nodes(g):
                h = prog.fns.get(n.get("u") or "")
                if h and h["u"] not in called and h.get("body"):
                    called.add(h["u"]); todo.append(h)
    for f in others:
        if f["u"] not in called:
            entry.append(f)
    for f in entry:
        writer(rep, prog, f)
    for f in [f for nm in (H + "load", "Configuration::load_from_json") for f in prog.named(nm) if f.get("body") and not f.get("dep")]:
        reader(rep, prog, f)
    loops(rep, prog)

def label(f):
    return f["fn"] + (" (complex)" if "complex" in f.get("clsu", "") else "")

def writer(rep, prog, f):
    rep.count("writers")
    e = IO(prog)
    fin = ("final",)
    ps = [("v", fin) if i == 0 else ("v", ("arg", i)) for i in range(len(f["p"]))]
    args = [("l", ("fname",))] if f["p"] and f["p"][0]["t"].endswith("&") else ps
    st = {("fname",): fin}
    w, nm = loc(f, f), label(f)
    bytes_ = ("this", H + "bytes")
    done = 0
    for o in e.run(f, st, ("this",), args):
        rep.count("paths")
        s = o[2]
        seq, fails = s.get(("#seq",), ()), s.get(("#fail",), ())
        # direct writes under the final name
        for x in seq:
            if x[0] == "open" and x[2][:1] in ("w", "a", "?") and x[1] == fin:
                rep.bad(f"direct:{f['fn']}", f"{x[3]}: {nm} writes under the final name, where an interruption leaves an incomplete file")
            if x[0] == "remove" and x[1] == fin:
                pass
        ren = [i for i, x in enumerate(seq) if x[0] == "rename" and x[2] == fin]
        for i in ren:
            tmp = seq[i][1]
            opened = [j for j in range(i) if seq[j][0] == "open" and seq[j][1] == tmp]
            closed = [j for j in range(i) if seq[j][0] == "close" and handle(seq[j][1]) == tmp]
            wrote = [j for j in range(i) if seq[j][0] == "fwrite" and handle(seq[j][3]) == tmp]
            early = [x for x in fails if x[0] != "rename"]
            rep.check(not early, f"failed-rename:{f['fn']}", f"{nm}: only complete data get the final name",
                      f"{seq[i][3]}: {nm} gives incomplete data the final name ({', '.join(x[0] + ' failed at ' + x[1] for x in early)})")
            if not early:
                rep.check(bool(opened and closed and wrote) and closed[-1] > wrote[-1], f"closed:{f['fn']}", f"{nm}: data are written and closed before they get the final name",
                          f"{seq[i][3]}: {nm} gives a file its final name that was not written or closed before")
        if o[0] == "ret":
            rep.check(not fails, f"unnoticed:{f['fn']}", f"{nm}: every failure is reported", f"{w}: {nm} returns normally although {', '.join(x[0] + ' failed at ' + x[1] for x in fails)}")
            if not fails:
                done += 1
                rep.check(bool(ren), f"named:{f['fn']}", f"{nm}: what was written is found under the name asked for", f"{w}: {nm} returns without having stored anything under the name asked for")
                ws = [x for x in seq if x[0] == "fwrite"]
                if f["fn"] == H + "save":
                    whole = len(ws) == 1 and ws[0][1] == ("mem", bytes_) and prod(ws[0][2]) == prod(("app", "std::vector::size", ("sym", bytes_)))
                    whole = whole or len(ws) == 1 and ws[0][2] is None
                    rep.check(whole, f"whole:{f['fn']}", f"{nm}: all bytes of the matrix are written", f"{ws[0][4] if ws else w}: {nm} does not write exactly the bytes of the matrix ({ws[0][1:3] if ws else 'nothing'})")
    rep.check(done > 0, f"possible:{f['fn']}", f"{nm}: without a failure the file is stored", f"{w}: {nm} never succeeds")

def handle(v):
    return v[1] if type(v) is tuple and v[:1] == ("fh",) else v

def reader(rep, prog, f):
    rep.count("readers")
    e = IO(prog)
    fin = ("final",)
    w, nm = loc(f, f), label(f)
    ok = 0
    boolean = f["t"] == "bool"
    for o in e.run(f, {("fname",): fin}, ("this",), [("l", ("fname",))]):
        rep.count("paths")
        seq, fails = o[2].get(("#seq",), ()), [x for x in o[2].get(("#fail",), ()) if x[0] != "close"]
        if o[0] == "ret" and (o[1] in (True, 1) or not boolean):
            rep.check(not fails, f"read-unnoticed:{f['fn']}", f"{nm}: success means everything was read", f"{w}: {nm} reports success although {', '.join(x[0] + ' failed at ' + x[1] for x in fails)}")
            if boolean:
                rd = [x for x in seq if x[0] == "fread"]
                rep.check(len(rd) == 1, f"read:{f['fn']}", f"{nm}: success means the file was read", f"{w}: {nm} reports success without having read the file")
            ok += 1
    rep.check(ok > 0, f"readable:{f['fn']}", f"{nm}: an intact file can be read", f"{w}: {nm} never succeeds")

RELEVANT = (H + "save", H + "load", H + "diagonalize", "Configuration::save_to_json", "Configuration::load_from_json", "Configuration::operator==")
# ------------------------------------------------------------------ loops that produce results
class Loop(AbsEval):
    max_states = 60000
    def inline(self, f, n):
        fn = f.get("fn", "")
        if not fn:
            return super().inline(f, n)
        # helpers beside the loop
        return super().inline(f, n) and fn.split("::")[0] in ("HamiltonianOne", "HamiltonianTwo", "Hamiltonian")
    # a loop in which nothing happens to files: whatever it assigns is not known afterwards
    def matters(self, n, seen=None):
        seen = set() if seen is None else seen
        for x in walk(n):
            nm = x.get("fn", "")
            if nm in RELEVANT or short(nm) in ("write_json", "read_json", "fopen") or "filesystem" in nm or x.get("k") == "Str" and x.get("v", "").startswith(">>OUT"):
                return True
            g = self.prog.fns.get(x.get("u") or "")
            if g and g["u"] not in seen and g.get("body") and self.inline(g, x):
                seen.add(g["u"])
                if self.matters(g["body"], seen):
                    return True
        return False
    def st(self, n, st, fr):
        if n is not None and n["k"] in ("For", "While", "DoWhile", "RFor") and not self.matters(n):
            s = dict(st)
            for x in walk(n):
                t = strip_casts(x["x"]) if x.get("k") == "Asg" else strip_casts(x["e"]) if x.get("k") == "Un" and x["op"] in ("++", "--", "&") else strip_casts(x["o"]) if x.get("k") == "MCall" and x.get("o") and not x.get("const") else strip_casts(x["a"][0]) if x.get("k") == "OpCall" and x["a"] else None
                if t is not None and t.get("k") == "Ref" and t["w"] == "local":
                    f = self.frame_of(t["i"], fr)
                    l = f.refs.get(t["i"], ("L", f.uid, t["i"]))
                    for q in [q for q in s if type(q) is tuple and q[:len(l)] == l]:
                        s[q] = UNK
            return [("next", None, s)]
        return super().st(n, st, fr)
    def seq(self, st, *e):
        s = dict(st); s[("#seq",)] = st.get(("#seq",), ()) + (e,)
        return s
    def ask(self, st, term):
        k = ("D", term)
        if k in st: return [(st[k], st)]
        r = []
        for b in (True, False):
            s = dict(st); s[k] = b
            r.append((b, s))
        return r
    def prim(self, n, name, ol, args, st, fr):
        k, sh = n["k"], short(name)
        vs = lambda i: hashable(self.val(args[i], st))
        at = self.here(n, fr)
        if "filesystem" in name:
            if k == "OpCall" and n["op"] == "/" or sh == "operator/":
                v = [hashable(self.value_of(st, ol))] if ol is not None else []
                return [(("app", "/",) + tuple(v) + tuple(vs(i) for i in range(len(args))), st)]
            if sh == "replace_extension" and ol is not None:
                return [(("ref", ol), self.put(st, ol, ("ext", strip_path(self.value_of(st, ol)), vs(0))))]
            if k == "OpCall" and n["op"] in ("+=", "/=") and ol is not None:
                v = vs(0)
                o = strip_path(self.value_of(st, ol))
                return [(("ref", ol), self.put(st, ol, ("ext", o, v) if type(v) is tuple and v[:1] == ("str",) and v[1].startswith(".") else ("app", n["op"], hashable(o), v)))]
            if sh == "exists":
                return self.ask(st, ("exists", strip_path(vs(0))))
            if sh == "remove":
                return [(UNK, self.seq(st, "remove", strip_path(vs(0)), at))]
            if k == "Ctor" and args and "path::path" in name:
                return [(strip_path(vs(0)), st)]
            if k == "OpCall" and n["op"] == "=" and ol is not None:
                return [(("ref", ol), self.put(st, ol, strip_path(vs(0))))]
        if name == "Configuration::load_from_json":
            s = self.seq(st, "loadjson", strip_path(vs(0)), ol, at)
            return [(None, self.put(s, ol, ("json", strip_path(vs(0)))))]
        if name == "Configuration::operator==" or k in ("OpCall", "Call") and name == "operator==" and "Configuration" in str(n.get("pt")):
            a = hashable(self.value_of(st, ol)) if ol is not None else vs(0)
            b = vs(len(args) - 1)
            la = ol if ol is not None else args[0][1]
            lb = args[-1][1] if args[-1][0] == "l" else None
            return self.ask(st, ("equal", frozenset([(a, la), (b, lb)])))
        if name == "Configuration::save_to_json":
            return [(None, self.seq(st, "savejson", strip_path(vs(0)), ol, at))]
        if name == H + "save":
            return [(None, self.seq(st, "save", strip_path(vs(0)), ol, at))]
        if name == H + "load":
            r = []
            for b, s in self.ask(st, ("load", strip_path(vs(0)), ol)):
                r.append((b, self.seq(s, "load", strip_path(vs(0)), ol, b, at)))
            return r
        if name == H + "diagonalize":
            return [(None, self.seq(st, "diagonalize", ol, at))]
        if name == "fmt::format" or sh == "format" and "fmt" in name:
            f = vs(0)
            t = f
            while type(t) is tuple and t[:1] not in (("str",),) and len(t) > 1:
                t = next((x for x in t[1:] if type(x) is tuple), None)
            text = t[1] if type(t) is tuple and t[:1] == ("str",) else "?"
            if text.startswith(">>OUT"):
                return [(("out", strip_path(vs(len(args) - 1))), self.seq(st, "report", strip_path(vs(len(args) - 1)), at))]
            return [(UNK, st)]
        if k == "MCall" and sh == "push_back" or name.startswith("sqlite::"):
            if sh in ("step",):
                return [(True, st), (False, st)]
            if sh == "get":
                return [(("app", "row", at), st)]
            return [(UNK, st)]
        if k == "OpCall" and n["op"] in ("<<", ">>"):
            if name.startswith("Configuration") or "ConfParser" in name:
                return [(UNK, st)]
            return [(("ref", ol) if ol is not None else ("ref", args[0][1]) if args and args[0][0] == "l" else UNK, st)]
        if k == "OpCall" and n["op"] in ("+=", "*=", "-=") and ol is not None:
            return [(("ref", ol), st)]
        if k == "OpCall" and n["op"] in ("+", "-", "*", "/") and not ("filesystem" in name or "basic_string" in name or "std::operator" == name[:13]):
            return [(UNK, st)]
        return super().prim(n, name, ol, args, st, fr)

def loops(rep, prog):
    todo = {}
    for f in prog.fns.values():
        if not f.get("body") or f.get("dep") or not f.get("f", "").startswith(SRC + "/") or "fn" not in f: continue
        if not any(n.get("fn") == H + "save" for n in fn_nodes(f)): continue
        if f["fn"].startswith(H): continue
        todo[f["u"]] = f
    # a helper that stores one result is looked at inside the loop that calls it
    roots = []
    for f in todo.values():
        callers = [g for g in prog.fns.values() if g.get("body") and not g.get("dep") and "fn" in g and g["u"] != f["u"] and any(n.get("u") == f["u"] for n in fn_nodes(g))]
        roots += [(g, f) for g in callers] if callers and not any(n.get("k") == "For" for n in walk(f["body"])) else [(f, None)]
    seen = set()
    for f, helper in roots:
        if f["u"] in seen: continue
        seen.add(f["u"])
        body = step_loop(f, prog, helper)
        if body is None:
            raise AnalysisError(f"{loc(f, f)}: no loop around the place where results are stored")
        rep.count("result loops")
        e = Loop(prog)
        fr = Frame(f, ("this",), e._u())
        outs = e.st(body["body"], {}, fr)
        nm = f["fn"] + (" (complex)" if "complex" in f.get("clsu", "") else "")
        w = loc(f, body)
        kinds = set()
        for o in outs:
            if o[0] == "throw": continue
            rep.count("paths")
            s = o[2]
            seq = s.get(("#seq",), ())
            judge(rep, f, nm, w, s, seq, kinds)
        rep.check(kinds == {"computed", "loaded"}, f"kinds:{f['fn']}", f"{nm}: results are computed or taken from file", f"{w}: {nm}: of computing and loading a result only {sorted(kinds)} happens")

def step_loop(f, prog, helper):
    """the innermost loop around the call"""
    best = None
    def rec(n, loop):
        nonlocal best
        if isinstance(n, dict):
            if n.get("k") in ("For", "RFor", "While"):
                loop = n
            if n.get("fn") == H + "save" or helper and n.get("u") == helper["u"]:
                best = loop
            for v in n.values():
                if isinstance(v, (dict, list)): rec(v, loop)
        elif isinstance(n, list):
            for x in n: rec(x, loop)
    rec(f["body"], None)
    return best

def same_base(m, j):
    return type(m) is tuple and type(j) is tuple and m[:1] == ("ext",) and j[:1] == ("ext",) and m[1] == j[1] and m[2] != j[2]

def judge(rep, f, nm, w, s, seq, kinds):
    fn = f["fn"]
    ix = lambda kind: [i for i, x in enumerate(seq) if x[0] == kind]
    saves, js, rp, rm = ix("save"), ix("savejson"), ix("report"), ix("remove")
    rep.check(len(rp) == 1, f"report:{fn}", f"{nm}: every result is reported once", f"{w}: {nm}: on some path a result is reported {len(rp)} times")
    if not saves:
        loads = [x for x in seq if x[0] == "load" and x[3]]
        kinds.add("loaded")
        rep.check(bool(loads), f"loaded:{fn}", f"{nm}: a result that is not computed comes from file", f"{w}: {nm}: on some path a result is neither computed nor read")
        for x in loads:
            eq = [k[1] for k, v in s.items() if type(k) is tuple and k[0] == "D" and type(k[1]) is tuple and k[1][:1] == ("equal",) and v]
            ok = any(type(a[0]) is tuple and a[0][:1] == ("json",) and same_base(x[1], a[0][1]) for t in eq for a in t[1])
            rep.check(ok, f"valid:{fn}", f"{nm}: a stored result is only used for the settings stored with it", f"{x[4]}: {nm} uses a stored matrix although the settings stored with it were not found equal to the current ones")
        rep.check(not js, f"no-json:{fn}", f"{nm}: nothing is announced for results that are not stored", f"{w}: {nm} writes settings without having stored the matrix")
    for i in saves:
        kinds.add("computed")
        m = seq[i][1]
        j = [k for k in js if same_base(m, seq[k][1])]
        rep.check(bool(j) and j[0] > i, f"order:{fn}", f"{nm}: settings are announced after the matrix was stored", f"{seq[i][3]}: {nm} announces the settings (.json) {'before' if j else 'without'} the matrix being stored")
        gone = [k for k in rm if k < i and same_base(m, seq[k][1]) and not any(k < l < i and seq[l][1] == seq[k][1] for l in js)]
        rep.check(bool(gone), f"stale:{fn}", f"{nm}: no older settings stay while the matrix is replaced", f"{seq[i][3]}: {nm} replaces a matrix while settings of an older one may still announce it")
        after = [k for k in range(i) if seq[k][0] == "diagonalize" and seq[k][1] == seq[i][2]]
        rep.check(bool(after), f"diag:{fn}", f"{nm}: the matrix stored is the diagonalised one", f"{seq[i][3]}: {nm} stores a matrix that was not diagonalised")
        rep.check(all(r > i and (not j or r > j[0]) for r in rp), f"early:{fn}", f"{nm}: a result is reported after both files exist", f"{seq[rp[0]][2] if rp else w}: {nm} reports a result before its files are complete")
        if j:
            eqs = [k[1] for k in s if type(k) is tuple and k[0] == "D" and type(k[1]) is tuple and k[1][:1] == ("equal",)]
            mine = {a[1] for t in eqs for a in t[1] if not (type(a[0]) is tuple and a[0][:1] == ("json",))}
            rep.check(not mine or seq[j[0]][2] in mine, f"settings:{fn}", f"{nm}: the settings stored are the ones compared later", f"{seq[j[0]][3]}: {nm} stores other settings than the ones it compares")
    for r in rp:
        p = seq[r][1]
        ms = [seq[i][1] for i in saves] + [x[1] for x in seq if x[0] == "load" and x[3] and not saves]
        rep.check(all(type(m) is tuple and m[:1] == ("ext",) and m[1] == p for m in ms), f"path:{fn}", f"{nm}: the path reported is that of the files", f"{seq[r][2]}: {nm} reports another path than the one its files have")
