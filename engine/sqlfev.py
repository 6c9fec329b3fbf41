"""Finite abstract semantics of the SQLite C API for evaluating the wrapper classes."""
from fev import *
import itertools

ERRS = [c for c in range(1, 29)] + [261, 517, 2067]
NONSTATUS = {"sqlite3_column_double", "sqlite3_column_int", "sqlite3_column_int64", "sqlite3_column_text", "sqlite3_column_bytes", "sqlite3_column_type",
             "sqlite3_column_count", "sqlite3_column_blob", "sqlite3_column_name", "sqlite3_column_value", "sqlite3_errstr", "sqlite3_errmsg", "sqlite3_errcode",
             "sqlite3_extended_errcode", "sqlite3_changes", "sqlite3_threadsafe", "sqlite3_last_insert_rowid", "sqlite3_stmt_busy",
             "sqlite3_bind_parameter_count", "sqlite3_bind_parameter_index", "sqlite3_get_autocommit", "sqlite3_db_handle", "sqlite3_data_count",
             "sqlite3_free", "sqlite3_mprintf", "sqlite3_interrupt", "sqlite3_sql", "sqlite3_libversion", "sqlite3_stmt_readonly", "sqlite3_total_changes", "sqlite3_sleep"}

def is_status(fn):
    return fn.startswith("sqlite3_") and fn not in NONSTATUS

class SqlEval(FEval):
    """marks in the store: 'err' (code of an unreported failure), 'own:<loc>' raw handle not yet owned."""
    codes = ERRS
    def __init__(self, prog):
        super().__init__(prog)
        self.sites = {}
    def prim(self, n, name, ol, args, st, fr):
        if name.startswith("sqlite3_"):
            key = (loc(top_fn(fr), n), name)
            self.sites[key] = self.sites.get(key, 0) + 1
            if not is_status(name):
                return [(UNK, st)]
            res = []
            succ = [100, 101] if name == "sqlite3_step" else [0]
            for c in succ:
                s = dict(st); s["last:" + name] = c
                if s.get("err", ("",))[0] == name:
                    del s["err"]        # a retry that succeeded
                s = self.outptr(name, args, s, c)
                res.append((c, s))
            errs = self.codes
            for c in errs:
                s = dict(st); s["err"] = (name, c, n.get("l"))
                s = self.outptr(name, args, s, c)
                res.append((c, s))
            return res
        sh = short(name)
        if name.startswith("std::unique_ptr::") or name.startswith("std::shared_ptr::"):
            if sh == "reset" and args:
                v = args[0][1]
                if args[0][0] == "l":
                    v = self.value_of(st, v)
                s = dict(st)
                if type(v) is tuple and v and v[0] == "raw":
                    s.pop("own:" + v[1], None)
                if ol:
                    s = self.put(s, ol, v)
                return [(UNK, s)]
            if sh == "get" and ol:
                return [(self.value_of(st, ol), st)]
        if n["k"] == "Ctor" and ("unique_ptr" in n.get("t", "")) and args:
            v = args[0][1] if args[0][0] == "v" else self.value_of(st, args[0][1])
            s = dict(st)
            if type(v) is tuple and v and v[0] == "raw":
                s.pop("own:" + v[1], None)
            return [(v, s)]
        return None
    def outptr(self, name, args, s, c):
        if name in ("sqlite3_open", "sqlite3_open_v2", "sqlite3_prepare", "sqlite3_prepare_v2", "sqlite3_prepare_v3"):
            i = 1 if "open" in name else 3
            if i < len(args):
                v = args[i][1]
                if type(v) is tuple and v and v[0] == "ptr":
                    raw = "open" in name or c == 0
                    s = self.put(s, v[1], ("raw", name) if raw else NULL)
                    if raw:
                        s["own:" + name] = 1
        elif name in ("sqlite3_close", "sqlite3_close_v2", "sqlite3_finalize") and args:
            v = args[0][1]
            if type(v) is tuple and v and v[0] == "raw":
                s = dict(s); s.pop("own:" + v[1], None)
            s.pop("err", None)
        return s
    def load_default(self, l, st, n):
        return UNK

def top_fn(fr):
    f = fr.fn
    return f if "f" in f else {"f": "?", "l": 0}

def bool_fields(cls):
    return [f["q"] for f in cls["flds"] if f["t"] == "bool"]

def stores(cls, this):
    fs = bool_fields(cls)
    for vals in itertools.product((False, True), repeat=len(fs)):
        st = {this + (f,): v for f, v in zip(fs, vals)}
        for f in cls["flds"]:
            if f["t"] in ("int",):
                st[this + (f["q"],)] = UNK
        yield st
