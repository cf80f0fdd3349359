"""builds the Python bindings (src/ormatex_rspy.rs) against stand-ins for pyo3 and numpy and offers them as module ormatex_py.ormatex"""
import ctypes as C
import os
import subprocess
import sys
import tempfile
import types

from mc import rust

V = rust.V
MORE = ["pyo3", "ndarray", "numpy", "faer_ext"]
_mod = None


def build(repo, d):
    for c in rust.ORDER:
        rust._rustc(["--crate-type", "rlib", "--crate-name", c, "--out-dir", d] + rust._ext(d) + [f"{V}/rust/shim/{c}.rs"], d)
    rust._rustc(["--crate-type", "proc-macro", "--crate-name", "pyo3_macros", "--out-dir", d, f"{V}/rust/shim/pyo3_macros.rs"], d)
    mac = ["--extern", f"pyo3_macros={d}/libpyo3_macros.so"]
    for c in MORE:
        rust._rustc(["--crate-type", "rlib", "--crate-name", c, "--out-dir", d] + mac + rust._ext(d) + [f"{V}/rust/shim/{c}.rs"], d)
    src = "#![allow(warnings)]\n" + rust.modules(repo)
    # the text is included, so that the entry points can use its private functions
    text = open(f"{repo}/src/ormatex_rspy.rs").read() + "\n" + open(f"{V}/rust/bindings.rs").read().replace("//!", "//")
    open(f"{d}/ormatex_rspy.rs", "w").write(text)
    open(f"{d}/bind.rs", "w").write(src + f'\n#[path="{d}/ormatex_rspy.rs"] pub mod ormatex_rspy;\n')
    rust._rustc(["--crate-type", "cdylib", "--crate-name", "bind", "-o", f"{d}/bind.so"] + mac + rust._ext(d) + [f"{d}/bind.rs"], d)
    return f"{d}/bind.so"


def load(so):
    """module object with the names the bindings register"""
    l = C.PyDLL(so)
    O, D, Z, U8 = C.py_object, C.c_double, C.c_size_t, C.c_char_p
    for n, r, a in (("b_names", O, []), ("b_integrate", O, [O, O, D, D, Z, O]), ("b_phi", O, [O, Z]), ("b_arnoldi", O, [O, D, O, Z, Z]),
                    ("b_eval_new", C.c_void_p, [U8, Z, Z]), ("b_eval_free", None, [C.c_void_p]), ("b_eval", O, [C.c_void_p, O, D, O, Z]), ("b_quiet", None, [])):
        f = getattr(l, n)
        f.restype, f.argtypes = r, a
    l.b_quiet()

    class PySysWrapped:
        def __init__(self, py_sys):
            self._o = py_sys

    def integrate_wrapper_rs(sys, y0, t0, dt, nsteps, **kwds):
        if not isinstance(sys, PySysWrapped):
            raise TypeError("argument 'sys': expected PySysWrapped")
        y, t = l.b_integrate(sys._o, y0, float(t0), float(dt), nsteps, kwds)
        return y, t

    def arnoldi_rs(py_linop, a_lo_scale, b, m, iom):
        return tuple(l.b_arnoldi(py_linop, float(a_lo_scale), b, m, iom))

    def phi_k_rs(a, k):
        return l.b_phi(a, k)

    class DensePhikvEvalRs:
        def __init__(self, method, order):
            m = method.encode()
            self._p = l.b_eval_new(m, len(m), order)
            if not self._p:
                raise RuntimeError("PanicException")

        def eval(self, a_np, dt, v0_np, k):
            return l.b_eval(self._p, a_np, float(dt), v0_np, k)

        def __del__(self):
            if getattr(self, "_p", None):
                l.b_eval_free(self._p)
    have = dict(PySysWrapped=PySysWrapped, integrate_wrapper_rs=integrate_wrapper_rs, arnoldi_rs=arnoldi_rs, phi_k_rs=phi_k_rs, DensePhikvEvalRs=DensePhikvEvalRs)
    m = types.ModuleType("ormatex_py.ormatex")
    m.registered = list(l.b_names())
    for n in m.registered:
        if n in have:
            setattr(m, n, have[n])
    return m


def install():
    """must run before ormatex_py.integrate_wrapper and ormatex_py.ode_exp are imported"""
    global _mod
    if _mod is None:
        from mc.core import REPO
        assert "ormatex_py.ode_exp" not in sys.modules
        d = tempfile.mkdtemp(prefix="bind_", dir=os.getcwd())
        _mod = load(build(REPO, d))
        sys.modules["ormatex_py.ormatex"] = _mod
    return _mod
