"""Builds the pifacts tool when needed, parses /repo's current sources and loads the facts."""
import hashlib, json, os, subprocess, sys, glob, pickle, re, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PI_REPO", "/repo")
SRC = REPO + "/pairinteraction"
BUILD = os.environ.get("PI_BUILD", VERIF + "/build")
TOOLSRC = VERIF + "/engine/pifacts.cpp"

class AnalysisError(Exception):
    """The analysis could not be carried out (never a verdict)."""

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:20]

def read(p):
    with open(p, "rb") as f:
        return f.read()

def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    key = sha(read(TOOLSRC))
    exe = f"{BUILD}/pifacts-{key}"
    if os.path.exists(exe):
        return exe
    with open(BUILD + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        tmp = exe + f".tmp{os.getpid()}"
        cmd = ["g++", "-O1", "-std=c++17", "-fno-rtti", "-fno-exceptions", "-D__STDC_CONSTANT_MACROS",
               "-D__STDC_LIMIT_MACROS", "-D__STDC_FORMAT_MACROS", "-I/usr/lib/llvm-18/include", TOOLSRC,
               "-o", tmp, "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18",
               "-Wl,-rpath,/usr/lib/llvm-18/lib"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("cannot build pifacts: " + r.stderr[-2000:])
        os.rename(tmp, exe)
    return exe

def gen_headers(outdir):
    """What configure_file would generate, from the current templates."""
    os.makedirs(outdir, exist_ok=True)
    emb = read(SRC + "/EmbeddedDatabase.hpp.in").decode()
    sql = read(SRC + "/databases/quantum_defects.sql").decode()
    ver = read(SRC + "/version.hpp.in").decode()
    top = read(REPO + "/CMakeLists.txt").decode()
    # string literals of any size are fine for clang
    emb = re.sub(r"@QUANTUM_DEFECT_DATABASE_CONTENT@", lambda m: sql, emb)
    def v(name):
        m = re.search(r"set\s*\(\s*" + name + r"\s+\"?([^\"\s)]*)", top, re.I)
        return m.group(1) if m else "0"
    ver = re.sub(r"@(\w+)@", lambda m: v(m.group(1)), ver)
    for n, t in (("EmbeddedDatabase.hpp", emb), ("version.hpp", ver)):
        p = f"{outdir}/{n}"
        if not os.path.exists(p) or read(p).decode() != t:
            with open(p + f".tmp{os.getpid()}", "w") as f:
                f.write(t)
            os.rename(p + f".tmp{os.getpid()}", p)

def repo_hash():
    files = sorted(glob.glob(SRC + "/*.cpp") + glob.glob(SRC + "/*.hpp") + glob.glob(SRC + "/*.h") + glob.glob(SRC + "/*.in")
                   + glob.glob(SRC + "/databases/*.sql") + glob.glob(VERIF + "/engine/drivers/*")
                   + glob.glob(VERIF + "/engine/stubs/*/*") + [TOOLSRC, REPO + "/CMakeLists.txt"])
    return sha(*[x for f in files for x in (f.encode(), read(f))])

FLAGS = ["-std=c++17", "-fopenmp", "-DEIGEN_USE_BLAS", "-DEIGEN_USE_LAPACKE", "-DFMT_HEADER_ONLY=1", "-DWITH_GSL",
         "-Dlapack_complex_double=std::complex<double>", "-Dlapack_complex_float=std::complex<float>", "-DNDEBUG", "-O0",
         "-isystem", "/usr/include/eigen3", "-isystem", VERIF + "/engine/stubs", "-w", "-ferror-limit=20",
         "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]

def all_tus():
    return sorted(os.path.basename(p)[:-4] for p in glob.glob(SRC + "/*.cpp"))

def parse(tus):
    """Returns {tu: json-path}; parses what is not cached for exactly these sources."""
    exe = build_tool()
    h = repo_hash()
    d = f"{BUILD}/facts/{h}"
    os.makedirs(d, exist_ok=True)
    gen_headers(d + "/gen")
    res = {}
    jobs = []
    for t in tus:
        src = f"{VERIF}/engine/drivers/{t[7:]}.cpp" if t.startswith("driver:") else f"{SRC}/{t}.cpp"
        if not os.path.exists(src):
            raise AnalysisError("source vanished: " + src)
        out = f"{d}/{t.replace(':', '_')}.json"
        res[t] = out
        if not os.path.exists(out):
            jobs.append((t, src, out))
    def run(j):
        t, src, out = j
        tmp = out + f".tmp{os.getpid()}"
        r = subprocess.run([exe, SRC, tmp, src, "--"] + FLAGS + ["-I" + SRC, "-I" + d + "/gen"], capture_output=True, text=True)
        if r.returncode or not os.path.exists(tmp):
            raise AnalysisError(f"cannot parse {src}: {r.stderr[-3000:]}")
        os.rename(tmp, out)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    # keep the cache small: older source states are dropped
    olds = sorted((os.path.getmtime(p), p) for p in glob.glob(f"{BUILD}/facts/*") if os.path.basename(p) != h)
    for _, p in olds[:-3]:
        subprocess.run(["rm", "-rf", p])
    return res

class Fn(dict):
    __slots__ = ()
    def __hash__(self): return id(self)
    def __eq__(self, o): return self is o
    def __repr__(self): return f"<{self.get('fn')} {os.path.basename(self.get('f',''))}:{self.get('l')}>"

class Program:
    def __init__(self, tus):
        self.fns = {}        # usr -> Fn
        self.classes = {}    # usr -> class
        self.vars = {}       # (qname,file,line) -> var
        self.enums = {}
        self.tus = list(tus)
        paths = parse(tus)
        for t in tus:
            try:
                j = load_json(paths[t])
            except ValueError as e:
                raise AnalysisError(f"bad facts for {t}: {e}")
            if j["errors"]:
                raise AnalysisError(f"errors while parsing {t}")
            types = j["types"]
            fix(j, types, t)
            for f in j["functions"]:
                f = Fn(f)
                old = self.fns.get(f["u"])
                if old is None:
                    self.fns[f["u"]] = f
                    f["tu"] = t
            for c in j["classes"]:
                self.classes.setdefault(c["u"], c)
            for v in j["vars"]:
                v["tu"] = t
                self.vars.setdefault((v["q"], v["f"], v["l"], v["t"]), v)
            for e in j["enums"]:
                self.enums.setdefault(e["q"], e)
        self.by_name = {}
        for f in self.fns.values():
            self.by_name.setdefault(f["fn"], []).append(f)
        self.cls_by_name = {}
        for c in self.classes.values():
            self.cls_by_name.setdefault(c["q"], []).append(c)
        # overriders
        self.overriders = {}
        for f in self.fns.values():
            for o in f.get("ov", []):
                self.overriders.setdefault(o, []).append(f)

    def named(self, name, concrete=True):
        """Functions with this qualified name (class template arguments left out)."""
        r = self.by_name.get(name, [])
        if concrete:
            c = [f for f in r if not f.get("dep")]
            return c or r
        return r

    def need(self, name, concrete=True):
        r = self.named(name, concrete)
        if not r:
            raise AnalysisError(f"anchor vanished: function {name}")
        return r

    def cls(self, name, concrete=True):
        r = self.cls_by_name.get(name, [])
        c = [x for x in r if not x.get("dep")]
        r = (c or r) if concrete else r
        if not r:
            raise AnalysisError(f"anchor vanished: class {name}")
        return r

    def all_overriders(self, usr):
        res, todo = [], [usr]
        while todo:
            for f in self.overriders.get(todo.pop(), []):
                if f not in res:
                    res.append(f); todo.append(f["u"])
        return res

def load_json(p):
    pk = p + ".pkl"
    try:
        with open(pk, "rb") as f:
            return pickle.load(f)
    except Exception:
        pass
    with open(p) as f:
        j = json.load(f)
    try:
        with open(pk + f".tmp{os.getpid()}", "wb") as f:
            pickle.dump(j, f, protocol=5)
        os.rename(pk + f".tmp{os.getpid()}", pk)
    except OSError:
        pass
    return j

def fix(j, types, tu):
    """Type indices become strings; declaration ids become unique over TUs."""
    stack = [j["functions"], j["classes"], j["vars"]]
    while stack:
        x = stack.pop()
        if type(x) is list:
            stack.extend(x)
        elif isinstance(x, dict):
            for k, v in x.items():
                if type(v) is int:
                    if k in ("t", "ot", "ty", "base", "ct"):
                        x[k] = types[v]
                    elif k in ("i", "hv"):
                        x[k] = f"{tu}#{v}"
                elif k == "pt":
                    x[k] = [types[i] for i in v]
                elif type(v) is list or isinstance(v, dict):
                    stack.append(v)

if __name__ == "__main__":
    t0 = time.time()
    tus = sys.argv[1:] or (all_tus() + ["driver:instantiate"])
    if tus == ["--build"]:
        print(build_tool()); sys.exit()
    p = Program(tus)
    print(f"{len(p.fns)} functions {len(p.classes)} classes {len(p.vars)} vars in {time.time()-t0:.1f}s")
