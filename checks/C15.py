"""Typestate and symbolic evaluation. Every public operation of the quantum systems is walked path by path
(helpers are followed, virtual hooks are not): where it touches the states or basis vectors of a system, that
very system (the other one of a pair included) must have been built before on this path, and where it uses the
elements of the Hamiltonian, the Hamiltonian must have been. The build steps themselves are evaluated
symbolically: what is skipped is skipped only when nothing is pending, and the interaction is added exactly once to
the Hamiltonian without interaction, of which a copy is kept unless memory is to be saved."""
from core import *
from facts import *
from syseval import *
FLOORS = {"public operations": 60, "accesses": 120, "build outcomes": 10}
DATA = {SB + x for x in ("states", "basisvectors", "hamiltonian", "basisvectors_unperturbed_cache", "hamiltonian_unperturbed_cache")}
SIZES = ("rows", "cols", "size", "outerSize", "innerSize")
CLASSES = ("SystemBase", "SystemOne", "SystemTwo")

class Built(Client):
    """state: which systems are built ("B") and have a Hamiltonian ("H")"""
    def __init__(self, rep, entry):
        self.rep, self.entry, self.sizes = rep, entry, set()
        self.seen = set()
    def inline(self, fn, node, ctx):
        if short(fn.get("fn", "")) in ("buildBasis", "buildHamiltonian", "onParameterChange", "onSymmetryChange") + VIRTUAL: return False
        return fn.get("cls") in CLASSES or not fn.get("cls") and fn.get("f", "").endswith(("SystemBase.cpp", "SystemBase.hpp", "SystemOne.cpp", "SystemTwo.cpp")) or "Lambda" in fn.get("k", "")
    def after_call(self, s, n, ctx, inlined):
        sh = short(n.get("fn", ""))
        if n["k"] == "MCall" and sh in ("buildBasis", "buildHamiltonian"):
            p = path(n["o"], ctx) if n.get("o") is not None else ("this",)
            s = s | {("B", p)} | ({("H", p)} if sh == "buildHamiltonian" else set())
        return (s,)
    def on_node(self, s, n, ctx):
        if n["k"] == "MCall" and short(n.get("fn", "")) in SIZES and n.get("o") is not None:
            self.sizes.add(id(strip_casts(n["o"])))
        if n["k"] == "Mem" and n.get("q") in DATA:
            p = path(n, ctx)
            where = loc(ctx.fn if "f" in ctx.fn else self.entry, n)
            if p is None: raise AnalysisError(f"{where}: the system {short(n['q'])} belongs to is not understood")
            o = p[:-1]
            # combining takes the Hamiltonians as they are: both have to be in the same stage
            need = "H" if short(self.entry["fn"]) != "add" and n["q"] == SB + "hamiltonian" and id(n) not in self.sizes else "B"
            k = (id(n), need, o)
            good = any(a == need and b == o for a, b in s)
            name = self.entry["fn"]
            what = short(n["q"])
            whose = "" if o == ("this",) else " of the other system"
            if k not in self.seen or not good:
                self.seen.add(k)
                self.rep.count("accesses")
                self.rep.check(good, f"access:{name}:{what}{whose}", f"{name}({self.nargs()}) line {n['l']}: {what}{whose}: built before it is used",
                               f"{where}: {name} uses the {what}{whose} before {'the Hamiltonian' if need == 'H' else 'the basis'} is built, so that what was set before is not seen")
        return (s,)
    def nargs(self): return ",".join(q["t"][:24] for q in self.entry["p"])

def typestate(rep, prog):
    for f in sorted((f for f in prog.fns.values() if f.get("cls") in CLASSES and f.get("body") and not f.get("dep") and f.get("acc") == "public"), key=lambda f: (f["f"], f["l"])):
        nm = short(f["fn"])
        if f.get("kind") in ("ctor", "dtor") or nm in CLASSES or nm.startswith("~") or nm in ("buildBasis", "buildHamiltonian", "serialize") or nm in VIRTUAL or f.get("impl") or f.get("defaulted"): continue
        if "complex" not in f["u"]: continue
        rep.count("public operations")
        Walker(prog, Built(rep, f)).run(f, [frozenset()])

# ---------------------------------------------------------------- the build steps
PENDING = ("states_to_add", "range_n", "range_l", "range_j", "range_m")
LOWEST = -1.7976931348623157e308
def facts_of(o):
    """what is decided on a path: ("empty", x), ("default", x) and flags"""
    r = {}
    for k, v in o[2].items():
        if k[0] != "D": continue
        t = k[1]
        while type(t) is tuple and t[:1] == ("not",): t, v = t[1], not v
        if type(t) is tuple and t[:1] == ("app",) and short(t[1]) == "empty": r[("empty", t[2])] = v; continue
        if type(t) is tuple and t[:1] == ("app",) and t[1] in ("==", "!=", ">", "<") and len(t) == 4:
            x, y, op = t[2], t[3], t[1]
            if type(x) in (int, float): x, y, op = y, x, {"<": ">", ">": "<"}.get(op, op)
            if y == 0 and is_app(x, "std::vector::size") or y == 0 and type(x) is tuple and x[:1] == ("app",) and short(x[1]) == "size":
                r[("empty", x[2])] = v if op == "==" else not v; continue
            if y == 0:
                r[("zero", x)] = v if op == "==" else not v; continue
            if op in ("==", "!="):
                r[("is", x, y)] = v if op == "==" else not v; continue
        r[("flag", t)] = v
    return r

def log_of(o): return [x[0] for x in o[2].get(LOG, ())]

def build_basis(rep, prog):
    for f in methods(prog, ["buildBasis"])["buildBasis"]:
        w = loc(f, f)
        e = SysEval(prog, VIRTUAL + ("updateEverything", "forgetRestrictions"))
        outs = call(e, f)
        if not any(o[0] == "ret" for o in outs): raise AnalysisError(f"{w}: buildBasis could not be evaluated")
        kinds = set()
        for o in outs:
            rep.count("build outcomes")
            d, lg = facts_of(o), log_of(o)
            st = d.get(("empty", STATES))
            if o[0] == "throw":
                # nothing is refused that is consistent, unless there is no state or vector
                continue
            if not lg:
                kinds.add("skip")
                miss = ["states"] if st is not False else []
                miss += [p for p in PENDING if d.get(("empty", S(p))) is not True]
                for p in ("energy_min", "energy_max"):
                    x = [v for k, v in d.items() if k[0] == "is" and S(p) in k]
                    want = LOWEST if p == "energy_min" else -LOWEST
                    if not any(k[0] == "is" and S(p) in k and any(isinstance(y, float) and abs(y) > 1.7e308 and y * want > 0 for y in k[1:]) and v for k, v in d.items()): miss.append(p)
                rep.check(not miss, "skip", "nothing is done only if a basis exists and no restriction or state is pending",
                          f"{w}: buildBasis returns early although {' and '.join(miss)} may be pending")
            elif "initializeBasis" in lg:
                kinds.add("new")
                rep.check(lg == ["initializeBasis", "forgetRestrictions"] and st is True, "new", "without states the basis is initialised and the restrictions are used up",
                          f"{w}: without states buildBasis does {', '.join(lg)} (expected: initialise the basis, then forget the restrictions), with states {'known to be there' if st is False else 'none or some'}")
            else:
                kinds.add("update")
                rep.check(lg in (["updateEverything"], ["updateEverything", "forgetRestrictions"]) and st is False, "update", "an existing basis is updated", f"{w}: with states already there buildBasis does {', '.join(lg)}")
            if lg:
                for dim_, x, what in ((rows, "rows", "states"), (cols, "cols", "vectors")):
                    ok = d.get(("zero", dim_(B))) is False
                    rep.check(ok, f"empty:{what}", f"a basis without {what} is refused", f"{w}: buildBasis accepts a basis without {what}")
        rep.check(kinds == {"skip", "new", "update"}, "kinds", "the basis is initialised, updated or kept", f"{w}: buildBasis never does one of: keep, initialise, update (only {sorted(kinds)})")
    for f in methods(prog, ["forgetRestrictions"])["forgetRestrictions"]:
        e = SysEval(prog)
        for o in call(e, f):
            for p in PENDING:
                v = o[2].get(("this", SB + p))
                rep.check(v in (EMPTY, ("tuple",)), f"forget:{p}", f"forgetRestrictions empties {p}", f"{loc(f, f)}: forgetRestrictions does not empty {p}, so that it is applied again and again ({str(v)[:80]})")
            for p, want in (("energy_min", LOWEST), ("energy_max", -LOWEST)):
                v = o[2].get(("this", SB + p))
                rep.check(v == want, f"forget:{p}", f"forgetRestrictions resets {p}", f"{loc(f, f)}: forgetRestrictions does not reset {p} (it becomes {str(v)[:60]})")

def build_hamiltonian(rep, prog):
    class E(SysEval):
        def record(self, n, sh, ol, args, st, fr):
            r = super().record(n, sh, ol, args, st, fr)
            if sh in ("addInteraction", "initializeInteraction", "deleteInteraction"):
                snap = (sh + "#",) + tuple(hashable(self.value_of(st, ("this", SB + x))) for x in ("basisvectors", "hamiltonian"))
                r = [(v, {**s, LOG: s[LOG][:-1] + ((sh,) + snap,)}) for v, s in r]
            return r
    flag = lambda d, x: d.get(("flag", S(x)))
    for f in methods(prog, ["buildHamiltonian"])["buildHamiltonian"]:
        w = loc(f, f)
        kinds = set()
        for cache in (True, False):
            e = E(prog, ("buildBasis",) + VIRTUAL, cache)
            for o in call(e, f):
                rep.count("build outcomes")
                d, lg = facts_of(o), o[2].get(LOG, ())
                names = [x[0] for x in lg]
                req, con, ms = flag(d, "is_new_hamiltonian_required"), flag(d, "is_interaction_already_contained"), flag(d, "memory_saving")
                get = lambda x: e.value_of(o[2], ("this", SB + x))
                rep.check(names[:1] == ["buildBasis"], "basis first", "buildHamiltonian builds the basis first", f"{w}: buildHamiltonian does not begin with building the basis")
                if o[0] == "throw":
                    kinds.add("refused")
                    rep.check(con is True and (ms is True or not cache) and req is True, f"refuse", "only a Hamiltonian whose copy without interaction is missing is refused",
                              f"{w}: buildHamiltonian throws although {'the copy without interaction exists' if cache else 'the interaction is not contained yet'}")
                    continue
                if req is False:
                    kinds.add("kept")
                    ok = names == ["buildBasis"] and all(get(x) == S(x) for x in ("basisvectors", "hamiltonian", "basisvectors_unperturbed_cache", "hamiltonian_unperturbed_cache", "is_interaction_already_contained"))
                    rep.check(ok, "kept", "nothing changes when no new Hamiltonian is required", f"{w}: buildHamiltonian changes the system although no new Hamiltonian is required")
                    continue
                rep.check(req is True, "required", "a new Hamiltonian is built when required", f"{w}: buildHamiltonian builds a new Hamiltonian without asking whether one is required")
                if con is None:
                    rep.bad("contained", f"{w}: buildHamiltonian adds the interaction without asking whether it is already contained"); continue
                start = (Bc, Hc) if con else (B, Hm)
                kinds.add("again" if con else "first")
                if con: rep.check(cache and ms is not True, "missing copy", "the copy without interaction exists when it is needed", f"{w}: buildHamiltonian goes on although there is no Hamiltonian without interaction to start from")
                steps = names[1:]
                want = ["initializeInteraction", "addInteraction"] + (["deleteInteraction"] if ms else [])
                if ms is None and not con: rep.bad("saving", f"{w}: buildHamiltonian does not ask whether memory is to be saved")
                rep.check(steps == want, f"steps:{'saving' if ms else 'keeping'}", f"{'saving memory: ' if ms else ''}the interaction is initialised, added{' and deleted' if ms else ''} once",
                          f"{w}: buildHamiltonian does {', '.join(steps) or 'nothing'} instead of {', '.join(want)}")
                for x in lg:
                    if x[0] == "addInteraction":
                        rep.check(x[2:] == start, f"start:{'again' if con else 'first'}", f"the interaction is added to the Hamiltonian without interaction ({'restored' if con else 'as built'})",
                                  f"{w}: buildHamiltonian adds the interaction to {'a Hamiltonian that already contains it' if con else 'something else than the Hamiltonian as built'}")
                if not con:
                    if ms: ok = get("basisvectors_unperturbed_cache") == Bc and get("hamiltonian_unperturbed_cache") == Hc
                    else: ok = get("basisvectors_unperturbed_cache") == B and get("hamiltonian_unperturbed_cache") == Hm
                    rep.check(ok, f"copy:{'saving' if ms else 'keeping'}", f"{'no copy is' if ms else 'basis and Hamiltonian without interaction are'} kept",
                              f"{w}: buildHamiltonian {'keeps a copy although memory is to be saved' if ms else 'does not keep basis and Hamiltonian as they are without interaction'}")
                else:
                    ok = get("basisvectors_unperturbed_cache") == Bc and get("hamiltonian_unperturbed_cache") == Hc
                    rep.check(ok, "copy:again", "the copies stay", f"{w}: buildHamiltonian changes the copies when it starts from them")
                rep.check(get("is_interaction_already_contained") in (True, 1), "flag:contained", "the interaction counts as contained afterwards", f"{w}: buildHamiltonian does not note that the interaction is contained now")
                rep.check(get("is_new_hamiltonian_required") in (False, 0), "flag:required", "no new Hamiltonian is required afterwards", f"{w}: buildHamiltonian does not note that the Hamiltonian is up to date")
        rep.check({"kept", "again", "first", "refused"} <= kinds, "cases", "all cases occur", f"{w}: buildHamiltonian never reaches one of: kept, first, again, refused (only {sorted(kinds)})")
    for f in methods(prog, ["buildInteraction"])["buildInteraction"]:
        for o in call(SysEval(prog), f):
            rep.check(log_of(o) == ["buildBasis", "initializeInteraction"] or o[0] != "ret", "interaction", "buildInteraction builds the basis, then the interaction", f"{loc(f, f)}: buildInteraction does {', '.join(log_of(o))}")

def run(rep):
    prog = Program(all_tus())
    typestate(rep, prog)
    build_basis(rep, prog)
    build_hamiltonian(rep, prog)
