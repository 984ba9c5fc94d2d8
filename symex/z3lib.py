"""Minimal cffi binding to libz3: one context, SMT-LIB2 text in, text out."""
import glob
import os
import time

CANDIDATES = [
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so",
] + glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/z3/lib/libz3.so") + [
    "/usr/lib/x86_64-linux-gnu/libz3.so", "/usr/lib/x86_64-linux-gnu/libz3.so.4",
]


class Z3(object):
    def __init__(self):
        import cffi
        self.ffi = cffi.FFI()
        self.ffi.cdef("""
            void* Z3_mk_config(void); void* Z3_mk_context(void*);
            const char* Z3_eval_smtlib2_string(void*, const char*);
            const char* Z3_get_full_version(void);
        """)
        for path in CANDIDATES:
            if os.path.exists(path):
                self.lib = self.ffi.dlopen(path)
                self.path = path
                break
        else:
            raise RuntimeError("libz3 not found")
        self.version = self.ffi.string(self.lib.Z3_get_full_version()).decode()
        self.fresh()

    def fresh(self):
        self.ctx = self.lib.Z3_mk_context(self.lib.Z3_mk_config())
        self.queries = 0
        self.seconds = 0.0
        self.declared = 0

    def raw(self, text):
        return self.ffi.string(
            self.lib.Z3_eval_smtlib2_string(self.ctx, text.encode("utf-8"))).decode()

    def ensure(self, n):
        if n > self.declared:
            self.raw("".join("(declare-const c%d Int)" % i for i in range(self.declared, n + 32)))
            self.declared = n + 32

    def check(self, asserts, nvars, get=None):
        """asserts: SMT-LIB2 formulas. Returns ('sat'|'unsat'|'unknown', {var: int} or None)."""
        self.ensure(nvars)
        t = time.time()
        text = "(push)" + "".join("(assert %s)" % a for a in asserts) + "(check-sat)"
        out = self.raw(text).strip()
        model = None
        if out == "sat" and get is not None and not len(get):
            model = {}
        elif out == "sat" and get:
            vals = self.raw("(get-value (%s))" % " ".join("c%d" % i for i in get))
            model = _parse_values(vals)
        elif out not in ("sat", "unsat", "unknown"):
            self.raw("(pop)")
            raise RuntimeError("z3: %s" % out[:500])
        self.raw("(pop)")
        self.queries += 1
        self.seconds += time.time() - t
        return out, model


def _parse_values(text):
    import re
    res = {}
    for name, val in re.findall(r"\(c(\d+) (\d+|\(- \d+\))\)", text):
        res[int(name)] = -int(val[3:-1]) if val.startswith("(") else int(val)
    return res
