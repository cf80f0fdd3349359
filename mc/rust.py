"""builds the Rust part of the repository against the stand-in libraries of rust/shim and loads it"""
import ctypes as C
import glob
import hashlib
import os
import shutil
import subprocess
import tempfile

import numpy as np

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = ["faer_traits", "num_traits", "libm", "rayon", "rand", "rand_distr", "assert_approx_eq", "faer", "reborrow", "faer_gmres"]


class BuildError(Exception):
    pass


def _rustc(args, cwd):
    r = subprocess.run(["rustc", "--edition", "2021", "-C", "opt-level=1", "-A", "warnings"] + args, cwd=cwd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-3000:])


def _ext(d):
    out = ["-L", d]
    for f in sorted(glob.glob(d + "/lib*.rlib")):
        out += ["--extern", f"{os.path.basename(f)[3:-5]}={f}"]
    return out


def modules(repo, skip=("lib", "ormatex_rspy")):
    """module list of lib.rs"""
    out = []
    for l in open(f"{repo}/src/lib.rs"):
        w = l.strip().rstrip(";").split()
        if len(w) >= 2 and w[-2] == "mod" and w[-1] not in skip:
            out.append(f'#[path="{repo}/src/{w[-1]}.rs"] pub mod {w[-1]};')
    return "\n".join(out)


def build(repo, d):
    """returns the path of the shared library in d; with unit tests of the crate as a program"""
    for c in ORDER:
        _rustc(["--crate-type", "rlib", "--crate-name", c, "--out-dir", d] + _ext(d) + [f"{V}/rust/shim/{c}.rs"], d)
    mods = modules(repo)
    src = open(f"{V}/rust/harness.rs").read().replace("MODULES", mods)
    open(f"{d}/ormatex.rs", "w").write(src)
    _rustc(["--crate-type", "cdylib", "--crate-name", "ormatex", "-o", f"{d}/ormatex.so"] + _ext(d) + [f"{d}/ormatex.rs"], d)
    return f"{d}/ormatex.so"


def unit_tests(repo, d):
    open(f"{d}/tests.rs", "w").write("#![allow(warnings)]\n" + modules(repo))
    _rustc(["--test", "--crate-name", "ormatex_t", "-o", f"{d}/ormatex_t"] + _ext(d) + [f"{d}/tests.rs"], d)
    return subprocess.run([f"{d}/ormatex_t"], capture_output=True, text=True)


RHS = C.CFUNCTYPE(None, C.c_size_t, C.c_double, C.POINTER(C.c_double), C.POINTER(C.c_double))
P = C.POINTER(C.c_double)
U, D, Z, I = C.c_uint32, C.c_double, C.c_size_t, C.c_int64


def _in(x):
    return np.ascontiguousarray(np.asarray(x, dtype=np.float64))


def _p(x):
    return x.ctypes.data_as(P)


class Failed(Exception):
    """the Rust code panicked or returned an error"""


class Lib:
    def __init__(self, so):
        self.l = C.CDLL(so)
        sig = dict(r_dense=[U, Z, Z, P, D, Z, P], r_action=[U, Z, Z, P, D, Z, P, Z, P], r_arnoldi=[U, Z, P, D, P, Z, Z, P, P],
                   r_krylov=[U, U, Z, Z, I, Z, P, D, P, Z, P], r_comb=[U, U, Z, Z, Z, Z, P, D, Z, P, P, P],
                   r_new=[U, Z, U, Z, Z, D, Z, Z, U, RHS, RHS, D, P], r_step=[I, D, P, P], r_accept=[I, Z], r_reset=[I, D, P],
                   r_state=[I, P, P], r_drop=[I], r_jacop=[U, Z, Z, RHS, RHS, D, P, D, D, U, P, P],
                   r_rhsop=[Z, Z, RHS, RHS, Z, P, P, P, D, P],
                   r_newton=[U, Z, Z, U, RHS, RHS, D, P, D, D, Z, P])
        for n, a in sig.items():
            f = getattr(self.l, n)
            f.argtypes, f.restype = a, I
        self.l.r_quiet()
        self.sys, self.keep = {}, []
        self.rhs_cb, self.jac_cb = RHS(self._rhs), RHS(self._jac)
        self.err = None

    # callbacks ------------------------------------------------------
    def _rhs(self, i, t, x, o):
        s = self.sys[i]
        n = s.n
        try:
            s.calls.append((t, [x[j] for j in range(n)]))
            y = s.f(t, np.array([x[j] for j in range(n)]))
            for j in range(n):
                o[j] = float(y[j])
        except Exception as e:
            self.err = e

    def _jac(self, i, t, x, o):
        s = self.sys[i]
        n = s.n
        try:
            m = s.J(t, np.array([x[j] for j in range(n)]))
            for a in range(n):
                for b in range(n):
                    o[a * n + b] = float(m[a][b])
        except Exception as e:
            self.err = e

    def _ok(self, r):
        if self.err is not None:
            e, self.err = self.err, None
            raise e
        if r < 0:
            raise Failed({-1: "panic", -2: "error"}.get(r, str(r)))
        return r

    def register(self, n, f, J):
        i = len(self.sys) + 1
        self.sys[i] = type("S", (), dict(n=n, f=staticmethod(f), J=staticmethod(J), calls=[]))
        return i

    # functions ------------------------------------------------------
    def dense(self, what, a, dt=1.0, k=0, order=0):
        a = _in(a)
        o = np.zeros_like(a)
        r = self._ok(self.l.r_dense(what, order, len(a), _p(a), dt, k, _p(o)))
        assert r == len(a) * 1001, r
        return o

    def action(self, kind, a, v, k, dt=1.0, order=0):
        a, v = _in(a), _in(v)
        o = np.zeros_like(v)
        self._ok(self.l.r_action(kind, order, len(a), _p(a), dt, v.shape[1], _p(v), k, _p(o)))
        return o

    def arnoldi(self, how, a, scale, b, m, iom):
        a, b = _in(a), _in(b)
        n = len(a)
        q, h = np.zeros(n * max(m, n)), np.zeros(max(m, n) ** 2)
        d = self._ok(self.l.r_arnoldi(how, n, _p(a), scale, _p(b), m, iom, _p(q), _p(h)))
        return q[:n * d].reshape(n, d), h[:d * d].reshape(d, d)

    def krylov(self, how, a, dt, v, k, m, iom, kind=0, order=12):
        a, v = _in(a), _in(v)
        o = np.zeros((3 if how == 2 else 1, len(a)))
        self._ok(self.l.r_krylov(how, kind, order, m, iom, len(a), _p(a), dt, _p(v), k, _p(o)))
        return o if how == 2 else o[0]

    def comb(self, a, dt, vb, m, iom, kind=0, order=12, v=None):
        a, vb = _in(a), _in(vb)
        p, n = len(vb) - 1, len(a)
        vv = _in(v if v is not None else [0.0])
        o = np.zeros(n + p)
        self._ok(self.l.r_comb(0 if v is None else 1, kind, order, m, iom, n, _p(a), dt, p, _p(vb), _p(vv), _p(o)))
        return o[:n] if v is None else o

    def jacop(self, what, sid, t, x, v, scale=1.0, gamma=None):
        x, v = _in(x), _in(v)
        o = np.zeros_like(x)
        self._ok(self.l.r_jacop(what, sid, len(x), self.rhs_cb, self.jac_cb, t, _p(x), scale, gamma or 0.0, int(gamma is not None), _p(v), _p(o)))
        return o

    def rhsop(self, sid, n, hist, scale=1.0):
        ts, xs, ws = _in([h[0] for h in hist]), _in([h[1] for h in hist]), _in([h[2] for h in hist])
        o = np.zeros((len(hist), n))
        self._ok(self.l.r_rhsop(sid, n, self.rhs_cb, self.jac_cb, len(hist), _p(ts), _p(xs), _p(ws), scale, _p(o)))
        return o

    def newton(self, which, sid, t, x0, tol, tol_lin, iters, fd=0):
        x0 = _in(x0)
        o = np.zeros_like(x0)
        self._ok(self.l.r_newton(which, sid, len(x0), fd, self.rhs_cb, self.jac_cb, t, _p(x0), tol, tol_lin, iters, _p(o)))
        return o


FAM = {"rk1": (0, 1), "rk2": (0, 2), "rk3": (0, 3), "rk4": (0, 4), "bdf1": (1, 1), "bdf2": (1, 2), "cn": (1, 3),
       "epi2": (2, 0), "epi3": (3, 0), "exprb2": (4, 0), "exprb3": (5, 0)}


class Integ:
    def __init__(self, lib, method, sid, n, t0, y0, kind=0, order=12, m=20, iom=20, tol_fdt=1e-8, fd=0):
        self.lib, self.n = lib, n
        fam, o = FAM[method]
        y0 = _in(y0)
        self.h = lib._ok(lib.l.r_new(fam, o if fam < 2 else order, kind, m, iom, tol_fdt, sid, n, fd, lib.rhs_cb, lib.jac_cb, t0, _p(y0)))

    def step(self, dt):
        info, y = np.zeros(3), np.zeros(self.n)
        i = self.lib._ok(self.lib.l.r_step(self.h, dt, _p(info), _p(y)))
        return type("R", (), dict(i=i, t=info[0], dt=info[1], err=info[2], y=y))

    def accept(self, r):
        self.lib._ok(self.lib.l.r_accept(self.h, r.i))

    def reset(self, t0, y0):
        self.lib._ok(self.lib.l.r_reset(self.h, t0, _p(_in(y0))))

    def state(self):
        t, y = np.zeros(1), np.zeros(self.n)
        self.lib._ok(self.lib.l.r_state(self.h, _p(t), _p(y)))
        return t[0], y

    def close(self):
        self.lib.l.r_drop(self.h)


_lib = None


def lib():
    """the library built from the repository under test, once per worker process (in its scratch directory)"""
    global _lib
    if _lib is None:
        from mc.core import REPO
        d = tempfile.mkdtemp(prefix="rust_", dir=os.getcwd())
        _lib = Lib(build(REPO, d))
        _lib.dir = d
    return _lib
