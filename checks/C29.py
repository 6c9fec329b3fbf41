"""Every object with static storage duration in the library that can change (namespace-scope, static
members, function-local statics; thread_local ones excepted) is found in the type-checked sources;
each access to it, on every path from every function other code can call, must happen while one
common static mutex is held, or the object must synchronise itself (mutex, atomic, once_flag, or the
Cache, whose methods are the subject of C01). C library functions with hidden shared state are
reported at their call sites."""
from core import *
from facts import *
from locks import *
import os
FLOORS = {"objects with static storage": 8}
SELF = ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::once_flag", "std::atomic", "std::atomic_flag", "Cache<", "std::condition_variable")
UNSAFE = {"rand", "srand", "std::rand", "std::srand", "random", "srandom", "drand48", "strtok", "std::strtok", "localtime", "std::localtime", "gmtime", "std::gmtime", "asctime", "std::asctime",
          "ctime", "std::ctime", "setlocale", "std::setlocale", "setenv", "putenv", "unsetenv", "tmpnam", "std::tmpnam", "lgamma", "omp_set_num_threads"}

class L(LockClient):
    def __init__(self, rep, f, names, acc):
        super().__init__(rep); self.f, self.names, self.acc = f, names, acc
    def note(self, s, n, p, ctx, kind):
        if p and p[0] in self.names and not (n.get("k") == "Var"):
            usable = frozenset(m for m in self.held(s) if m[0].startswith("glob:"))
            self.acc.setdefault(p[0], {}).setdefault((loc(ctx.owner(), n), kind, ctx.owner()["fn"]), []).append(usable)
    def on_read(self, s, n, p, ctx):
        self.note(s, n, p, ctx, "read"); return (s,)
    def on_write(self, s, n, p, rhs, ctx):
        self.note(s, n, p, ctx, "write"); return (s,)
    def inline(self, fn, node, ctx):
        return not (fn.get("cls") or "").startswith(("Cache", "sqlite::"))

def run(rep):
    prog = Program(all_tus())
    shared = {}
    for v in prog.vars.values():
        if "/unit_test/" in v["f"] or not v["f"].startswith(SRC) or v["f"].startswith(SRC + "/unit_test"):
            continue
        rep.count("objects with static storage")
        where = f"{v['f'].replace(os.path.dirname(SRC) + '/', '')}:{v['l']}"
        t = v["t"]
        if v.get("tls"):
            rep.ok(f"{where}: {v['q']} exists once per thread"); continue
        if v.get("const") or t.startswith("const ") and not t.endswith("*") or "cereal::detail" in t:
            rep.ok(f"{where}: {v['q']} is constant"); continue
        if any(t.startswith(x) for x in SELF):
            rep.ok(f"{where}: {v['q']} synchronises itself ({t.split('<')[0]})"); continue
        shared["glob:" + v["q"]] = (v, where)
    F = {}
    byu = prog.fns
    for f in prog.fns.values():
        if "/unit_test/" in f["f"] or f.get("dep"):
            continue
        for n in fn_nodes(f):
            if n.get("k") in ("Call",) and n.get("fn") in UNSAFE:
                rep.bad(f"unsafe:{n['fn']}:{f['fn']}", f"{loc(f, n)}: {f['fn']} calls {n['fn']}, which uses hidden state shared by all threads")
            if n.get("k") in ("Ref", "Mem") and n.get("w") in ("static", "global", "smember") and "glob:" + n.get("q", "") in shared:
                F[f["u"]] = f
    direct = set(F)
    ch = True
    while ch:
        ch = False
        for f in prog.fns.values():
            if f["u"] not in F and not f.get("dep") and any(n.get("u") in F for n in fn_nodes(f) if is_call(n)):
                F[f["u"]] = f; ch = True
    called = {n["u"] for f in F.values() for n in fn_nodes(f) if is_call(n) and n.get("u") in F and n["u"] != f["u"]}
    acc = {}
    for u, f in F.items():
        internal = f.get("acc") in ("private", "protected") or "(anonymous" in f["fn"] or f.get("lam")
        if u in called and (internal or u not in direct):
            continue
        if u not in direct and u not in called and not any(n.get("u") in direct for n in fn_nodes(f)):
            # reaches an access only through functions that are entries themselves
            if all(not (byu[n["u"]].get("acc") in ("private", "protected")) for n in fn_nodes(f) if is_call(n) and n.get("u") in F):
                continue
        Walker(prog, L(rep, f, set(shared), acc)).run(f, [(frozenset(), None)])
    for p, (v, where) in shared.items():
        sites = acc.get(p, {})
        if not sites:
            rep.ok(f"{where}: {v['q']} is never used"); continue
        rep.count("accesses", len(sites))
        common = None
        for k, ls in sites.items():
            for x in ls:
                common = x if common is None else common & x
        free = sorted({k for k, ls in sites.items() if any(not x for x in ls)})
        rep.check(bool(common), f"shared:{v['q']}", f"{where}: {v['q']} is only used under {', '.join(pstr(m) for m in (common or ()))} ({len(sites)} accesses)",
                  f"{where}: {v['q']} is shared by all threads and changes, but " + (f"{free[0][2]} uses it without a lock ({free[0][0]})" if free else "its uses hold no lock in common"))
