"""The messages of both calculation backends are collected from their source: every string literal that starts a
protocol line in the C++ program with its format specification and arguments, and the lines the Python backend
writes, from an abstract evaluation of its whole run (one and two atoms, one and several blocks). Each line is kept
as literal characters and formatted fields and handed to an abstract evaluation of the GUI's line parser, where
slices cut cells: a number is recovered only if the slice covers exactly its columns, a file name only if it is the
whole name. After the announcement of each map the state of the parser must hold precisely the values the line
carries (queue entries in order, basis files, totals, status), other text must change nothing, an error must reach
the signal, and a stream that stops before the final line must leave no results. The step, block count, block number
and running number of a result line must satisfy running = 1 + step * blocks + block, as polynomials, in both backends,
and the Python backend must number its results 1 to the announced total, each once."""
from core import *
from facts import *
import pyfacts as P
from pyfacts import Sym, SStr, show
import random, re
FLOORS = {"messages of the C++ backend": 10, "messages of the Python backend": 20, "decoded lines": 40, "relations of numbers": 3}

TAG = re.compile(r">>[A-Z]{3}")
SPEC = re.compile(r"\{(\d*)(?::([^{}]*))?\}")

def parents(body):
    st = [(body, ())]
    while st:
        n, p = st.pop()
        yield n, p
        for c in kids(n): st.append((c, p + (n,)))

def cpp_messages(prog):
    """(function, node, format string, argument nodes)"""
    out, seen = [], set()
    for f in prog.fns.values():
        if not f.get("body"): continue
        for n, par in parents(f["body"]):
            if n.get("k") != "Str" or not TAG.match(n.get("v", "")): continue
            call = next((q for q in reversed(par) if q.get("k") == "Call" and (q.get("fn") or "").startswith("fmt::")), None)
            args = None
            if call is not None:
                a = [x for x in call["a"]]
                pos = next((i for i, x in enumerate(a) if any(y is n for y in walk(x))), None)
                args = a[pos + 1:]
            key = (f.get("f"), n.get("l"), n["v"], None if args is None else repr([x.get("k") for x in args]))
            if args is None:
                if SPEC.search(n["v"]):
                    t = next((q for q in reversed(par) if is_call(q)), None)
                    if t is None or (t.get("fn") in (None, "")): continue       # uninstantiated template
                    raise AnalysisError(f"{loc(f, n)}: message {n['v']!r} is not formatted in place")
                if n["v"] != n["v"][:5]:
                    raise AnalysisError(f"{loc(f, n)}: message {n['v']!r}")
            if any(y.get("k") in ("Unres", "DepRef") for x in (args or []) for y in walk(x)): continue
            if key in seen: continue
            seen.add(key)
            out.append((f, n, n["v"], args or []))
    return out

def poly(n, f, prog, env, depth=0):
    """Python expression of an integer argument; symbols are the variables of the function"""
    n = strip(n)
    k = n.get("k")
    if depth > 25: raise AnalysisError("deep expression")
    if k == "Int": return n["v"]
    if k == "Bin" and n["op"] in "+-*": return f"({poly(n['x'], f, prog, env, depth+1)}{n['op']}{poly(n['y'], f, prog, env, depth+1)})"
    if k == "Paren": return poly(n["e"], f, prog, env, depth + 1)
    if k == "Ref":
        if n["i"] in env: return poly(env[n["i"]][0], env[n["i"]][1], prog, env[n["i"]][2], depth + 1)
        d = defs_of(f).get(n["i"], [])
        if len(d) == 1 and d[0][0] == "init" and d[0][1] is not None and not is_ref_type(n.get("t", "")):
            try: return poly(d[0][1], f, prog, env, depth + 1)
            except AnalysisError: pass
        return "v_" + re.sub(r"\W", "_", n["i"])
    if k == "MCall" and (n.get("fn") or "").split("::")[-1] == "size":
        return "s_" + re.sub(r"\W", "_", (pstr_safe(n)))
    raise AnalysisError(f"{loc(f, n)}: argument {k}")
def pstr_safe(n):
    o = strip(n.get("o") or (n.get("a") or [{}])[0] or {})
    return o.get("i") or o.get("n") or "size"

def contexts(f, args, prog):
    """bindings of parameters used in the arguments: one per call of the function, or the function alone"""
    ps = {p["i"]: i for i, p in enumerate(f.get("p", []))}
    used = [y["i"] for x in args for y in walk(x) if y.get("k") == "Ref" and y.get("i") in ps]
    if not used: return [(f, {})]
    out = []
    for g in prog.fns.values():
        for n in fn_nodes(g):
            if n.get("k") in ("Call", "MCall") and (n.get("u") == f["u"] or (n.get("fn") == f["fn"] and len(n.get("a", [])) == len(ps))):
                out.append((f, {i: (n["a"][j], g, {}) for i, j in ps.items() if j < len(n["a"])}))
    return out or [(f, {})]

def same(a, b):
    names = sorted(set(re.findall(r"[vs]_\w+", a + " " + b)))
    for seed in range(6):
        r = random.Random(seed)
        env = {x: r.randint(1, 50) for x in names}
        if eval(a, {}, dict(env)) != eval(b, {}, dict(env)): return False
    return True

def line_of(fmt, args, name):
    """cells of the line, and the fields"""
    cells, fields, pos, auto = [], [], 0, 0
    for m in SPEC.finditer(fmt):
        cells += list(fmt[pos:m.start()].replace("{{", "{").replace("}}", "}"))
        pos = m.end()
        i = int(m.group(1)) if m.group(1) else auto
        auto += 1
        spec = m.group(2) or ""
        w = re.match(r"[<>^]?(\d*)[dsuif]?$", spec)
        if not w: raise AnalysisError(f"format {spec!r}")
        fld = Sym("in", f"{name}{i}")
        fields.append((i, fld, int(w.group(1) or 0)))
        if w.group(1): cells += [("f", fld, int(w.group(1)), j) for j in range(int(w.group(1)))]
        else: cells.append(("v", fld, spec))
    cells += list(fmt[pos:])
    return cells, fields

class Gui:
    def __init__(self):
        n = [0]
        def queue(ip, a, kw):
            n[0] += 1
            o = P.Obj(QCLS); o.a["items"] = []
            return o
        QCLS = P.Cls("Queue", [], None)
        put = lambda ip, a, kw: None
        P.EXTERNAL["queue.Queue"] = queue
        self.ip = P.Interp()
        self.mod = self.ip.module("pairinteraction_gui.worker")
        mod = self.mod
        class Put:
            pass
        import ast
        src = ast.parse("def put(self, x, block=True, timeout=None):\n    self.items.append(x)\ndef empty(self):\n    return len(self.items) == 0\n"
                        "def get(self):\n    return self.items.pop(0)\ndef qsize(self):\n    return len(self.items)\n"
                        "def put_nowait(self, x):\n    self.items.append(x)\n").body
        for s in src:
            f = self.ip.mkfun(s, [{}], mod, s.name); f.cls = QCLS
            QCLS.d[s.name] = f
        QCLS.mod = mod
        if "AllQueues" not in mod.d: raise AnalysisError("class of the queues not found")
        self.cls = mod.d["AllQueues"]
    def make(self, ip):
        q = ip.call(self.cls, [], {}, None, self.mod)
        # the thread that reads the program's output is created on the queues
        w = self.mod.d.get("Worker")
        if w is None: raise AnalysisError("Worker not found")
        ip.call(w, [q], {}, None, self.mod)
        return q
    def feed(self, ip, q, line):
        ip.call(ip.attr(q, "processOneLine"), [line], {}, None, self.mod)
    def state(self, q):
        g = {k: P.freeze(v) for k, v in q.a.items() if not isinstance(v, (P.Obj, list)) and k != "criticalsignal"}
        return g, [[P.freeze(x) for x in o.a["items"]] for o in q.a["dataqueues"]], [[P.freeze(x) for x in l] for l in q.a["basisfiles"]]

def typ(n): return P.mkstr(list(">>TYP" + f"{n:7d}\n"))

def decode(rep, gui, name, where, cells, fields, tag):
    """fields: what the line carries, in order"""
    for t, qi in ((0, 0), (1, 1), (2, 2), (3, 0)):
        if tag == "TYP": break
        line = P.mkstr(list(cells) + ["\n"])
        def run(ip):
            q = gui.make(ip)
            gui.feed(ip, q, typ(t))
            s0 = gui.state(q)
            gui.feed(ip, q, line)
            return s0, gui.state(q), q
        res = gui.ip.paths(run)
        for (st, r), ev, known in res:
            key = f"{name}"
            if st == "exc":
                rep.bad(key, f"{where}: the line {line!r} makes the parser raise {r}")
                continue
            (g0, d0, b0), (g1, d1, b1), q = r
            F = [x for _, x, _ in fields]
            exp_d, exp_b = [list(x) for x in d0], [list(x) for x in b0]
            ok, what = True, ""
            if tag == "OUT":
                if len(F) != 5:
                    raise AnalysisError(f"{where}: a result line of {len(F)} fields")
                sv = P.mkstr([("v", F[4], sp) for sp in [cells[-1][2] if not isinstance(cells[-1], str) else ""]])
                exp_d[qi].append(("list", F[1], F[2], F[3], P.mkstr([c for c in cells if not isinstance(c, str) and c[0] == "v"])))
                what = "the result [step, blocks, block, file] in the queue of its map"
            elif tag == "STA":
                exp_b[qi].append(P.mkstr([c for c in cells if not isinstance(c, str) and c[0] == "v"]))
                what = "the basis file in the list of its map"
            elif tag == "TOT":
                ok, what = g1["total"] == F[0] and g1["current"] == 0, "the total number of results"
            elif tag == "DIM":
                ok, what = g1["dim"] == F[0], "the dimension"
            elif tag == "BAS":
                m = g1["message"]
                ok, what = isinstance(m, SStr) and any(not isinstance(c, str) and c[1] == F[0] for c in m.c), "the basis size in the status"
            elif tag == "END":
                ok, what = g1["finishedgracefully"] is True, "the end of the calculation"
            elif tag == "ERR":
                want = P.mkstr([c for c in cells if not isinstance(c, str)])
                em = [e for e in ev if e[0] == "call" and show(e[1]).endswith("criticalsignal.emit") or
                      (e[0] == "call" and isinstance(e[1], Sym) and e[1].k[0] == "attr" and e[1].k[2] == "emit")]
                ok, what = len(em) == 1 and em[0][2] == (want,), "the text of the error in the signal"
            norm = lambda L: [[strq(x) for x in l] for l in L]
            ok = ok and norm(d1) == norm(exp_d) and norm(b1) == norm(exp_b)
            if tag != "END": ok = ok and g1["finishedgracefully"] is False
            rep.count("decoded lines")
            rep.check(ok, key, f"{where}: {line!r} after map {t}: decoded to {what}",
                      f"{where}: the line {line!r}, written after map {t} is announced, is not decoded to {what}: queues {short_(d1)}, basis files {short_(b1)}, total {g1.get('total')}, dim {g1.get('dim')}")

def strq(x):
    if isinstance(x, tuple): return tuple(strq(y) for y in x)
    if isinstance(x, SStr): return ("str", tuple((c if isinstance(c, str) else (c[0], c[1])) for c in x.c))
    return x
def short_(x): return repr(x)[:160]

def lines_py(rep, gui):
    """messages of the Python backend for a few shapes of calculations: [(description, [cells])]"""
    stub = P.Cls("Stub", [Sym("mod", "stub")], None)
    runs = []
    common = {"species": None, "missingCalc": 0, "pathCache": Sym("in", "cache"), "pathConf": Sym("in", "conf"),
              "samebasis": False, "minEx": 0, "maxEx": 1.5, "minEy": 0, "maxEy": 0, "minEz": 0, "maxEz": 0,
              "minBx": 0, "maxBx": 0, "minBy": 0, "maxBy": 0, "minBz": 0, "maxBz": 0, "minR": 9, "maxR": 3,
              "conserveM": False, "sametrafo": False, "NUM_PROCESSES": 1, "deltaMSingle": 1, "deltaJSingle": 1, "deltaLSingle": 1}
    for i in "12":
        common.update({"species" + i: "Rb", "n" + i: 60 + int(i), "l" + i: 0, "j" + i: 0.5, "m" + i: 0.5})
    shapes = [("one atom, first", 0, {}, 2), ("one atom, second", 1, {}, 3), ("pair, one block", 2, {}, 2),
              ("pair, two blocks", 2, {"invE": True, "invO": True}, 3), ("pair, four blocks", 2, {"invE": True, "invO": True, "perE": True, "perO": True}, 2),
              ("both atoms, same basis", 3, {}, 2)]
    ext = {"pairinteraction_gui.pipy": Sym("mod", "pipy")}
    for name, button, extra, steps in shapes:
        ip = P.Interp(externals=ext)
        mod = ip.module("pairinteraction_gui.pipy_thread")
        # branches about files that exist, empty systems and logging
        def run(ip):
            th = ip.call(mod.d["PipyThread"], [Sym("obj", "queues")], {}, None, mod)
            th.a["num_pr"] = 1
            lines = []
            params = dict(common, button_id=button, steps=steps, **extra)
            kwargs = {"pool": "SEQUENTIAL", "params": params,
                      "printFunction": lambda ip, a, kw: lines.append(P.cells(a[0]))}
            ip.call(ip.attr(th, "start_pipy"), [kwargs], {}, None, mod)
            return lines
        ip.fixed = {}
        good = []
        for (st, r), ev, known in limited(ip, run):
            if st == "exc": raise AnalysisError(f"the Python backend ({name}) raises {r}")
            good.append((known, r))
        runs.append((name, button, steps, extra, good))
    return runs

def limited(ip, run):
    """paths on which the system is not empty; the other branches do not matter to the messages, take one each way"""
    out = ip.paths(Fixed(ip, run), limit=3000)
    return out

def Fixed(ip, run):
    def go(i):
        base = i.decide
        def decide(key):
            t = repr(key)
            if "noStates" in t and key not in i.known: i.known[key] = False
            if key not in i.known and (t.startswith("('exists'") or "isReal" in t or "nAtoms" in t or "calcEnergies" in t):
                i.known[key] = False
            return base(key)
        i.decide = decide
        try: return run(i)
        finally: i.decide = base
    return go

def run(rep):
    prog = Program(all_tus())
    rep.prog = prog
    gui = Gui()
    # ---- C++ backend
    for f, n, fmt, args in cpp_messages(prog):
        tag = fmt[2:5]
        where = loc(f, n)
        key = f"{f['fn']}:{tag}"
        rep.count("messages of the C++ backend")
        cells, fields = line_of(fmt, args, "x")
        if len(args) != len(fields):
            rep.bad(key, f"{where}: {fmt!r} has {len(fields)} fields and {len(args)} arguments"); continue
        if tag == "TYP":
            a = strip(args[0])
            if a.get("k") != "Int": raise AnalysisError(f"{where}: map number is not a constant")
            line = P.mkstr(sum([list(fmt[:5]), [c for c in f"{int(a['v']):{fields[0][2]}d}"], ["\n"]], []))
            r = gui.ip.paths(lambda ip: (lambda q: (gui.feed(ip, q, line), gui.feed(ip, q, P.mkstr(list(">>STA file\n"))), gui.state(q))[2])(gui.make(ip)))
            for (st, v), ev, known in r:
                ok = st == "ok" and v[2][int(a["v"]) % 3] == ["file"]
                rep.count("decoded lines")
                rep.check(ok, key, f"{where}: map {a['v']} announced", f"{where}: the announcement of map {a['v']} is not decoded")
            continue
        if tag not in ("BAS", "STA", "TOT", "DIM", "OUT", "ERR", "END"):
            raise AnalysisError(f"{where}: unknown message {fmt!r}")
        decode(rep, gui, key, where, cells, fields, tag)
        if tag == "OUT":
            for g, env in contexts(f, args, prog):
                e = [poly(args[i], g, prog, env) for i in range(4)]
                rep.count("relations of numbers")
                rep.check(same(e[0], f"(1+{e[1]}*{e[2]}+{e[3]})"), key + ":numbers", f"{where}: running number {e[0]} = 1 + step * blocks + block",
                          f"{where}: the running number {e[0]} is not 1 + step * blocks + block for step {e[1]}, blocks {e[2]}, block {e[3]}")
    # ---- text that is no message, and the end of the stream
    for txt in ("Hamiltonian assembled\n", "picomplex: One-atom Hamiltonian, construct\n", "\n", ">> x\n"):
        for (st, r), ev, known in gui.ip.paths(lambda ip: (lambda q: (gui.feed(ip, q, typ(1)), gui.state(q), gui.feed(ip, q, txt), gui.state(q)))(gui.make(ip))):
            rep.count("decoded lines")
            rep.check(st == "ok" and r[1] == r[3], "text", f"{txt!r} is no message", f"the text {txt!r} changes the state of the parser or raises {r if st == 'exc' else ''}")
    out = P.mkstr(list(">>OUT" + "      1" + "      0" + "      1" + "      0" + " file\n"))
    for end in (True, False):
        stream = [typ(0), out] + ([P.mkstr(list(">>END\n"))] if end else [])
        def go(ip):
            ip.iter_sym = lambda v, e, mod: stream
            q = ip.call(gui.cls, [], {}, None, gui.mod)
            w = ip.call(gui.mod.d["Worker"], [q], {}, None, gui.mod)
            w.a["stdout"] = Sym("in", "stdout")
            ip.call(ip.attr(w, "run"), [], {}, None, gui.mod)
            return gui.state(q)
        for (st, r), ev, known in gui.ip.paths(go):
            if st == "exc": rep.bad("stream", f"reading the stream raises {r}"); continue
            got = r[1][0]
            rep.count("decoded lines")
            rep.check(got == ([("list", 0, 1, 0, "file")] if end else []), "stream",
                      f"results of a calculation that {'finished' if end else 'broke off'}: {got}",
                      f"after a calculation that {'finished' if end else 'broke off'} the results are {got}")
    gui.ip.iter_sym = P.Interp.iter_sym.__get__(gui.ip)
    # ---- Python backend
    for name, button, steps, extra, good in lines_py(rep, gui):
        for known, lines in good[:8] if len(good) > 8 else good:
            msgs = []
            for c in lines:
                head = "".join(x for x in c[:5] if isinstance(x, str))
                if not TAG.match(head): continue
                msgs.append((head[2:5], c))
            rep.count("messages of the Python backend", len(msgs))
            where = f"Python backend ({name})"
            tags = [t for t, _ in msgs]
            if not rep.check(tags[:1] == ["TYP"] and tags[-1:] == ["END"] and tags.count("END") == 1, "py:order", f"{where}: begins with the map and finishes with the end",
                             f"{where}: the messages are {tags[:12]}"): continue
            # the lines of this run through the parser
            def go(ip):
                q = gui.make(ip)
                for t, c in msgs: gui.feed(ip, q, P.mkstr(c))
                return gui.state(q)
            for (st, r), ev, kn in gui.ip.paths(go):
                if st == "exc": rep.bad("py:decode", f"{where}: decoding raises {r}"); continue
                rep.count("decoded lines", len(msgs))
                g, d, b = r
                qi = button % 3
                nb = {"pair, two blocks": 2, "pair, four blocks": 4}.get(name, 1)
                rep.check(g["total"] == nb * steps and g["current"] == nb * steps, "py:total", f"{where}: {nb * steps} results announced and written",
                          f"{where}: {g['total']} results are announced, {g['current']} written, {nb} blocks of {steps} steps exist")
                res = d[qi]
                num = [(x[1], x[3]) for x in res]
                rep.check(sorted(num, key=repr) == [(s, k) for s in range(steps) for k in range(nb)] and all(x[2] == nb for x in res), "py:results",
                          f"{where}: one result per step and block", f"{where}: results of steps and blocks {num} with block counts {[x[2] for x in res]}")
                rep.check(all(not x for i, x in enumerate(d) if i != qi), "py:queue", f"{where}: results in the queue of map {button}",
                          f"{where}: results in queues {[len(x) for x in d]}")
                rep.check(len(b[qi]) == nb and all(not x for i, x in enumerate(b) if i != qi), "py:basis", f"{where}: basis files in the list of map {button}", f"{where}: basis files {[len(x) for x in b]}")
                files = [strq(x[4]) for x in res]
                rep.check(all(not isinstance(x[4], Sym) for x in res) and files == [strq(strip_cells(c)) for t, c in msgs if t == "OUT"], "py:file",
                          f"{where}: file names", f"{where}: the file names of the results are not those written: {short_(files)}")
                sta = [strq(strip_cells(c, 6)) for t, c in msgs if t == "STA"]
                rep.check([strq(x) for x in b[qi]] == sta, "py:stafile", f"{where}: basis file names", f"{where}: the basis files are not those written: {short_(b[qi])}")
            run_no = []
            for t, c in msgs:
                if t == "OUT":
                    txt = "".join(x for x in c[5:12] if isinstance(x, str))
                    run_no.append(int(txt) if txt.strip().isdigit() else txt)
            rep.count("relations of numbers")
            rep.check(sorted(run_no, key=repr) == sorted(range(1, len(run_no) + 1), key=repr), "py:numbers", f"{where}: results numbered 1 to {len(run_no)}",
                      f"{where}: the results are numbered {run_no}")
    rep.rules.append("cut of literal and field cells; abstract parser state = carried values; polynomial identity of the numbers")

def strip_cells(c, start=34):
    c = list(c[start:])
    while c and isinstance(c[0], str) and c[0].isspace(): c.pop(0)
    while c and isinstance(c[-1], str) and c[-1].isspace(): c.pop()
    return P.mkstr(c)
