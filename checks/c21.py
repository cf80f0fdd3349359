"""C21: the Rust methods used from Python"""
import itertools
import numpy as np
from mc import bindings, model, ref
from mc.systems import np_systems, states
from checks.c20 import formula, tol

LEVEL = "exploration"
RULE = ("every integration by a method whose name ends in _rs over methods x systems x start times x step counts x output intervals x options x kinds of system object and of arrays, "
        "compared step by step with the documented formula; every position at which the Python right-hand side or Jacobian can fail; every small matrix x order x evaluator for the phi functions; "
        "non-trivial: at least one step, a matrix that is not zero, a failure in the middle of a run")
BOUNDS = ("8 methods, 5 systems, up to 4 steps (thorough 6), output intervals 1..5, 4 evaluators, 2 dimension limits; phi functions: all 2x2 matrices over 4 entries and 14 structures, orders 0..4, "
          "3 memory layouts; all failure positions of runs of 2 steps")
ASSUME = ["src/ormatex_rspy.rs compiled unchanged against stand-ins for pyo3, rust-numpy, ndarray and faer_ext that use the C interface of the running interpreter; attributes (argument defaults of "
          "signatures, class declarations) are not executed", "formulas as in C20"]

METHODS = ["exprb2", "exprb3", "epi2", "epi3", "bdf1", "backeuler", "bdf2", "cn"]
SAME = {"backeuler": "bdf1"}
SYS = ["logistic1", "lv2", "nonauto3", "trig2", "linear4"]
EXPO = ("exprb2", "exprb3", "epi2", "epi3")


def jobs(tier):
    out = [("drive-" + m, "drive", dict(method=m)) for m in METHODS]
    out += [("objects", "objects", {}), ("faults", "faults", {}), ("options", "options", {}), ("phi", "phi", {}), ("arnoldi", "arnoldi", {}), ("names", "names", {}), ("python", "python", {}), ("late", "late", {})]
    out += [("dense-" + m, "dense", dict(method=m)) for m in ("exprb2_pfd_rs", "exp_pfd_rs")]
    return out


def fns(name):
    n, f0, J0, ft0 = np_systems()[name]
    return (n, lambda t, u: np.asarray(f0(t, u, 0.0)), lambda t, u: np.asarray(J0(t, u, 0.0)), lambda t, u: np.asarray(ft0(t, u, 0.0)))


def judge(c, method, sysf, t0, dt, N, osteps, T, Y, y0, wide=1.0):
    """times and states of a run; states that are not returned are recomputed by the formula"""
    n, f, J, ft = sysf
    m = SAME.get(method, method)
    idx = [i for i in range(N) if i % osteps == 0] + [N]
    T, Y = np.asarray(T), np.asarray(Y)
    c.equal(T.shape, (len(idx),), "number of times")
    c.equal(Y.shape, (len(idx), n), "shape of the states")
    c.close(T, t0 + dt * np.array(idx), 1e-13, "times")
    c.close(Y[0], y0, 0.0, "first state")
    hist, acc = [(t0, np.asarray(y0))], 0.0
    for i in range(N):
        t, y = hist[-1]
        w = np.asarray(formula(m, f, J, ft, t, y, hist[-2] if len(hist) > 1 and m in ("bdf2", "epi3") else None, dt), dtype=float)
        nrm = float(np.max(np.sum(np.abs(np.asarray(J(t, y), dtype=float)), axis=1))) * dt
        acc = acc * (1 + 2 * nrm) + tol(m, J, t, y, dt, f, ft) * wide
        t = t0 + dt * (i + 1)
        if i + 1 in idx:
            got = Y[idx.index(i + 1)]
            c.close(got, w, acc, f"state {i + 1}")
            acc, w = 0.0, got
        hist.append((t, w))


def drive(rec, tier, method):
    bindings.install()
    import jax.numpy as jnp
    from mc.systems import jax_systems
    from ormatex_py.integrate_wrapper import integrate
    for sname in SYS:
        sysf = fns(sname)
        n = sysf[0]
        for t0, dt in ((0.0, 0.05), (0.7, 0.125), (-1.2, 0.05)):
            for N in (0, 1, 2, 3, 4) if tier == "quick" else range(7):
                for osteps in (None, 1, 2, 3, 5):
                    if osteps is not None and osteps > N + 1:
                        continue
                    if tier == "quick" and osteps is not None and (sname not in ("nonauto3", "logistic1") or t0 == 0.0):
                        continue
                    for ev in ((None, "pade", "cram", "parabolic") if method in EXPO and osteps is None and N in (0, 3) else (None,)):
                        cid = f"{sname},t0={t0:g},dt={dt:g},n={N},osteps={osteps},{ev}"
                        if not rec.want(cid):
                            continue
                        rec.add("states", N + 1)
                        rec.add("transitions", N)
                        rec.add("traces_validated_against_impl")
                        with rec.case(cid, N > 0) as c:
                            y0 = states(n)["pos"]
                            kw = {}
                            if osteps is not None:
                                kw["osteps"] = osteps
                            if ev is not None:
                                kw["expmv_method"] = ev
                            if method in EXPO and n > 2:
                                kw["iom"] = n + 4        # the default of 2 is an approximation
                            r = integrate(jax_systems()[sname], jnp.asarray(y0), t0, dt, N, method + "_rs", **kw)
                            # two evaluators have about 1e-10 .. 1e-8 accuracy
                            judge(c, method, sysf, t0, dt, N, osteps or 1, r.t_res, r.y_res, y0, wide=1e3 if ev in ("cram", "parabolic") else 1.0)


def late(rec, tier):
    """late times, slow changes and large states (seconds, but years), through the Python driver"""
    b = bindings.install()
    from ormatex_py.integrate_wrapper import integrate
    from checks.c20 import slow
    for T, Q in ((1.0, 1.0), (1e4, 1e8), (1e9, 1e18), (1e12, 1e24), (1.0, 1e8), (1.0, 1e16)):
        f, J, ft = slow(T, Q)
        for method in METHODS:
            for t0 in (1.5, -2.0):
                cid = f"{method},T={T:g},size={Q:g},t0={t0:g}T"
                if not rec.want(cid):
                    continue
                with rec.case(cid) as c:
                    y0, h = np.array([0.3, -0.2]) * Q, 0.2 * T
                    r = integrate(b.PySysWrapped(NpSys(f, J)), y0, t0 * T, h, 3, method + "_rs", iom=10)
                    Y = np.asarray(r.y_res)
                    c.equal(Y.shape, (4, 2), "shape of the states")
                    c.close(np.asarray(r.t_res), t0 * T + h * np.arange(4), 1e-13, "times", scale=T * 3)
                    c.close(Y[0], y0, 0.0, "first state")
                    m = SAME.get(method, method)
                    for i in range(3):
                        t = t0 * T + h * i
                        w = formula(m, f, J, ft, t, Y[i], (t - h, Y[i - 1]) if i and m in ("bdf2", "epi3") else None, h)
                        c.close(Y[i + 1], np.asarray(w, dtype=float), 1e-6, f"state {i + 1}", scale=Q * 3)


class NpOp:
    def __init__(self, m, log):
        self.m, self.log = m, log

    def matvec_npcompat(self, v):
        self.log.append(("op", v.shape, str(v.dtype)))
        return np.asarray(self.m @ v.flatten(), dtype=float)


class NpSys:
    """a system written in numpy, as the readme allows"""

    def __init__(self, f, J):
        self.f, self.J, self.log = f, J, []

    def frhs(self, t, x):
        self.log.append(("f", float(t), x.shape, str(x.dtype)))
        return np.asarray(self.f(t, x.flatten()), dtype=float)

    def fjac(self, t, x):
        self.log.append(("J", float(t), x.shape, str(x.dtype)))
        return NpOp(np.asarray(self.J(t, x.flatten()), dtype=float), self.log)


def objects(rec, tier):
    """kinds of system objects and of initial states"""
    b = bindings.install()
    import jax.numpy as jnp
    from mc.systems import jax_systems
    from ormatex_py.integrate_wrapper import integrate
    from ormatex_py.ode_sys import OdeSysNp
    for sname in SYS:
        sysf = fns(sname)
        n, f, J, ft = sysf
        y0 = states(n)["pos"]
        big = np.zeros((2 * n, 3))
        big[::2, 1] = y0
        arrays = {"jax": jnp.asarray(y0), "numpy": y0, "column": y0.reshape(-1, 1), "list": list(map(float, y0)), "strided": big[::2, 1], "fortran": np.asfortranarray(np.tile(y0, (2, 1)).T)[:, 0]}
        kinds = {"jax": lambda: jax_systems()[sname], "wrapped": lambda: b.PySysWrapped(OdeSysNp(jax_systems()[sname])), "numpy": lambda: b.PySysWrapped(NpSys(f, J))}
        for method, k, a in itertools.product(METHODS, kinds, arrays):
            cid = f"{sname},{method},{k},{a}"
            if not rec.want(cid):
                continue
            rec.add("traces_validated_against_impl")
            rec.add("states", 3)
            rec.add("transitions", 2)
            with rec.case(cid) as c:
                s = kinds[k]()
                before = np.array(arrays[a])
                r = integrate(s, arrays[a], 0.4, 0.1, 2, method + "_rs", max_krylov_dim=20, iom=20)
                judge(c, method, sysf, 0.4, 0.1, 2, 1, r.t_res, r.y_res, y0)
                c.close(np.array(arrays[a]), before, 0.0, "initial state after the run")
                if k == "numpy":
                    for e in s._o.log:
                        c.true(e[0] == "op" or (e[2] == (n, 1) and e[3] == "float64"), f"argument {e}")
                        c.true(e[0] != "op" or (e[1] == (n,) and e[2] == "float64"), f"operator argument {e}")
                    # every evaluation is at a time the method has a stage at
                    ok = {"bdf1": (.5, .6), "backeuler": (.5, .6), "bdf2": (.5, .6), "cn": (.4, .5, .6)}.get(method, (.4, .5, .6))
                    for e in s._o.log:
                        c.true(e[0] == "op" or min(abs(e[1] - x) for x in ok) < 1e-5, f"evaluation at time {e[1:2]}")


class Boom(Exception):
    pass


def faults(rec, tier):
    """an error in the Python system reaches the caller, at whatever evaluation it happens"""
    b = bindings.install()
    from ormatex_py.integrate_wrapper import integrate
    sysf = fns("nonauto3")
    n, f, J, ft = sysf
    y0 = states(n)["pos"]
    for method in METHODS:
        for what in ("frhs", "fjac", "matvec_npcompat", "shape", "dtype"):
            k = 0
            while True:
                cid = f"{method},{what},{k}"
                done = []
                cnt = [0]

                def hit(name):
                    if name != (what if what in ("fjac", "matvec_npcompat") else "frhs"):
                        return False
                    cnt[0] += 1
                    if cnt[0] == k + 1:
                        done.append(1)
                        return True

                class Op(NpOp):
                    def matvec_npcompat(self, v):
                        if hit("matvec_npcompat"):
                            raise Boom()
                        return super().matvec_npcompat(v)

                class S(NpSys):
                    def frhs(self, t, x):
                        h = hit("frhs")
                        if h and what == "frhs":
                            raise Boom()
                        y = super().frhs(t, x)
                        return y.reshape(-1, 1) if h and what == "shape" else y.astype(np.float32) if h and what == "dtype" else y

                    def fjac(self, t, x):
                        if hit("fjac"):
                            raise Boom()
                        return Op(super().fjac(t, x).m, self.log)
                if k > 60:
                    break
                err = r = None
                try:
                    r = integrate(b.PySysWrapped(S(f, J)), y0, 0.4, 0.1, 2, method + "_rs", max_krylov_dim=3, iom=3)
                except Exception as e:
                    err = e
                if not done:
                    break
                k += 1
                if not rec.want(cid):
                    continue
                rec.add("states")
                rec.add("transitions")
                with rec.case(cid, k > 1) as c:
                    if err is None:
                        c.fail(f"evaluation {k} failed, but a result was returned: {np.asarray(r.y_res)[-1]}")
                    # the next run is not affected
                    r = integrate(b.PySysWrapped(NpSys(f, J)), y0, 0.4, 0.1, 1, method + "_rs", max_krylov_dim=20, iom=20)
                    judge(c, method, sysf, 0.4, 0.1, 1, 1, r.t_res, r.y_res, y0)


def options(rec, tier):
    """options reach the integrator"""
    b = bindings.install()
    import jax.numpy as jnp
    from mc.systems import jax_systems
    from ormatex_py.integrate_wrapper import integrate
    from checks.c20 import formula as fo
    # time derivative: with a threshold above it, the formula without it
    for sname in ("nonauto3", "trig2", "linear4"):
        n, f, J, ft = fns(sname)
        y0 = states(n)["pos"]
        for method in EXPO:
            for tf in (None, 0.0, 1e-8, 1e-3, 1e3, -1.0):
                cid = f"{sname},{method},tol_fdt={tf}"
                if not rec.want(cid):
                    continue
                rec.add("traces_validated_against_impl")
                rec.add("states", 2)
                rec.add("transitions", 1)
                with rec.case(cid) as c:
                    kw = {} if tf is None else {"tol_fdt": tf}
                    r = integrate(jax_systems()[sname], jnp.asarray(y0), 0.4, 0.1, 1, method + "_rs", max_krylov_dim=20, iom=20, **kw)
                    off = tf in (1e3, -1.0)
                    w = fo(method, f, J, (lambda t, u: 0 * ft(t, u)) if off else ft, 0.4, y0, None, 0.1)
                    c.close(np.asarray(r.y_res)[-1], w, tol(method, J, 0.4, y0, 0.1, f, ft), f"state with {kw}")
    # subspace dimension: the result is that of the Galerkin approximation, so less is less accurate
    n, f, J, ft = fns("linear4")
    y0 = states(n)["pos"]
    for method in EXPO:
        cid = f"{method},dimension"
        if rec.want(cid):
            rec.add("traces_validated_against_impl")
            with rec.case(cid) as c:
                e = []
                w = np.asarray(fo(method, f, J, ft, 0.4, y0, None, 0.5), dtype=float)
                for m in (1, 2, 3, 4, 20):
                    r = integrate(jax_systems()["linear4"], jnp.asarray(y0), 0.4, 0.5, 1, method + "_rs", max_krylov_dim=m, iom=20)
                    e.append(float(np.max(np.abs(np.asarray(r.y_res)[-1] - w))))
                c.true(e[0] > 1e-4, f"one dimension cannot be exact: {e}")
                c.true(e[-1] < 1e-9, f"the whole space is exact: {e}")
                if method in ("exprb2", "epi2"):
                    c.true(e[2] < e[0], f"more dimensions are more accurate: {e}")
        cid = f"{method},orthogonalization"
        if rec.want(cid):
            rec.add("traces_validated_against_impl")
            with rec.case(cid) as c:
                a, d = (np.asarray(integrate(jax_systems()["linear4"], jnp.asarray(y0), 0.4, 0.5, 1, method + "_rs", max_krylov_dim=3, **kw).y_res)[-1] for kw in (dict(iom=1), dict(iom=20)))
                c.true(float(np.max(np.abs(a - d))) > 1e-12, "option iom has no effect")
    # a system that needs a subspace of more than half its size: the dimension asked for, and the default of 100, are not cut
    n = 110
    A = 12 * (np.eye(n, k=-1) - np.eye(n, k=1)) + 2 * (np.eye(n, k=-1) - 2 * np.eye(n) + np.eye(n, k=1))
    adv0 = np.exp(-np.linspace(-3, 5, n) ** 2)
    advw = np.asarray(ref.phi(2 * A, 0), dtype=float) @ adv0
    for method in ("exprb2", "epi2"):
        for iom in (2, 200):
            for m in (None, 20, 80, 110):
                cid = f"{method},advection,iom={iom},dimension={m}"
                if not rec.want(cid):
                    continue
                rec.add("traces_validated_against_impl")
                with rec.case(cid) as c:
                    kw = {} if m is None else {"max_krylov_dim": m}
                    r = integrate(b.PySysWrapped(NpSys(lambda t, y: A @ y, lambda t, y: A)), adv0, 0.0, 2.0, 1, method + "_rs", iom=iom, **kw)
                    e = float(np.max(np.abs(np.asarray(r.y_res)[-1] - advw)))
                    if m == 20:
                        c.true(e > 1e-3, f"20 dimensions cannot be enough: {e}")
                    else:
                        c.true(e < 1e-7, f"error {e}")
    for bad in ("foo", "", "rk4", "exprb4", "EXPRB2"):
        cid = f"unknown,{bad!r}"
        if rec.want(cid):
            with rec.case(cid) as c:
                try:
                    b.integrate_wrapper_rs(b.PySysWrapped(NpSys(f, J)), y0.reshape(-1, 1), 0.0, 0.1, 1, method=bad)
                except Exception:
                    continue
                c.fail("an unknown method was accepted")
    for kw in ({"max_krylov_dim": 2.5}, {"iom": "3"}, {"tol_fdt": "x"}, {"osteps": -1}, {"method": 3}, {"max_krylov_dim": -2}):
        cid = f"type,{kw}"
        if rec.want(cid):
            with rec.case(cid) as c:
                try:
                    b.integrate_wrapper_rs(b.PySysWrapped(NpSys(f, J)), y0.reshape(-1, 1), 0.0, 0.1, 1, **kw)
                except Exception:
                    continue
                c.fail("an option of the wrong type was accepted")


def small():
    out = {f"{a:g},{b:g},{c:g},{d:g}": np.array([[a, b], [c, d]]) for a, b, c, d in itertools.product((-2.0, -0.5, 0.0, 1.0), repeat=4)}
    return out


def layouts(a):
    big = np.full((2 * a.shape[0], 3 * a.shape[1]), 7.0)
    big[::2, ::3] = a
    return {"C": np.ascontiguousarray(a), "F": np.asfortranarray(a), "strided": big[::2, ::3]}


def phi(rec, tier):
    b = bindings.install()
    mats = dict(small())
    for k, a in ref.mat_alphabet().items():
        if 1 <= len(a) <= 6 and np.max(np.abs(a)) <= 50:
            mats[k] = np.asarray(a, dtype=float)
    ev = {m: b.DensePhikvEvalRs(m, o) for m, o in (("pade", 12), ("cram", 16), ("cram_16", 16), ("parabolic", 24), ("anything", 16))}
    for name, a in mats.items():
        n = len(a)
        kmax = 5 if len(mats) < 60 or n != 2 or tier != "quick" else 3
        nrm = max(1.0, float(np.max(np.sum(np.abs(a), axis=1))))
        e = np.linalg.eigvals(a)
        for k in range(kmax):
            w = np.asarray(ref.phi(a, k), dtype=float)
            s = max(1.0, float(np.max(np.abs(w))))
            for lay, x in layouts(a).items():
                cid = f"phi_k_rs,{name},k={k},{lay}"
                if rec.want(cid):
                    rec.add("states")
                    with rec.case(cid, np.any(a)) as c:
                        g = b.phi_k_rs(x, k)
                        c.equal(g.shape, (n, n), "shape")
                        c.close(g, w, 1e-10 * nrm ** 2 * s, f"phi_{k}")
                for m, E in ev.items():
                    # the rational approximations are for the left half plane
                    if m in ("cram", "cram_16", "parabolic") and (np.max(e.real) > 0 or np.max(np.abs(e.imag)) > 1):
                        continue
                    if lay == "strided" and m != "cram":
                        continue
                    for cols in (1, 2):
                        cid = f"{m},{name},k={k},{lay},{cols}"
                        if rec.want(cid):
                            rec.add("states")
                            with rec.case(cid, np.any(a)) as c:
                                v = layouts(np.array([[1.0, -0.3], [0.5, 2.0], [-1.0, 0.7], [0.2, 1.0], [3.0, 0.0], [-0.4, 0.1]])[:n, :cols])[lay]
                                g = E.eval(x * 2.0 if lay == "C" else x, 0.5 if lay == "C" else 1.0, v, k)
                                c.equal(g.shape, (n, cols), "shape")
                                c.close(g, w @ v, (1e-10 if m in ("pade", "anything") else 1e-5 if m == "parabolic" else 2e-7) * nrm ** 2 * s * 4, f"phi_{k} times vectors")


def arnoldi(rec, tier):
    b = bindings.install()
    import jax.numpy as jnp
    from ormatex_py.ode_sys import MatrixLinOp
    for name, a in ref.mat_alphabet().items():
        a = np.asarray(a, dtype=float)
        n = len(a)
        if not 2 <= n <= 6 or np.max(np.abs(a)) > 50:
            continue
        for vn, v in {"ones": np.ones(n), "e1": np.eye(n)[0], "mixed": np.array([1.0, -2.0, 0.5, 3.0, 0.1, -1.0])[:n]}.items():
            for s, m, iom, kind in itertools.product((1.0, 0.25, -2.0), (1, 2, n, n + 3), (1, 2, 10), ("jax", "numpy")):
                cid = f"{name},{vn},{s:g},{m},{iom},{kind}"
                if not rec.want(cid):
                    continue
                rec.add("states")
                with rec.case(cid, m > 1) as c:
                    op = MatrixLinOp(jnp.asarray(a)) if kind == "jax" else NpOp(a, [])
                    q, h, d = b.arnoldi_rs(op, s, v.reshape(-1, 1), m, iom)
                    k = q.shape[1]
                    c.true(1 <= k <= min(m, n), f"dimension {k}")
                    c.equal(h.shape, (k, k), "shape of H")
                    c.close(q[:, 0], v / np.linalg.norm(v), 1e-14, "first vector")
                    c.close(np.linalg.norm(q, axis=0), np.ones(k), 1e-12, "norms")
                    sc = 1 + float(np.max(np.abs(a))) * abs(s)
                    c.close((s * a @ q)[:, :k - 1], (q @ h)[:, :k - 1], 1e-12 * sc, "Arnoldi relation")
                    c.close(np.tril(h, -2), np.zeros((k, k)), 0.0, "H is not upper Hessenberg")
                    if iom >= k:
                        c.close(q.T @ q, np.eye(k), 1e-7, "orthogonality")
                    else:
                        for i in range(k):
                            for j in range(max(0, i - iom), i):
                                c.close(q[:, i] @ q[:, j], 0.0, 1e-9, "orthogonality in the window")


def names(rec, tier):
    b = bindings.install()
    cid = "registered"
    if rec.want(cid):
        with rec.case(cid) as c:
            for n in ("PySysWrapped", "DensePhikvEvalRs", "integrate_wrapper_rs", "arnoldi_rs", "phi_k_rs"):
                c.true(n in b.registered, f"{n} is not offered by the module")
    cid = "available"
    if rec.want(cid):
        with rec.case(cid) as c:
            from ormatex_py import integrate_wrapper as w
            c.true(w.HAS_ORMATEX_RUST, "the bindings are not used")


def python(rec, tier):
    """the same method in Python and in Rust, and the application models"""
    bindings.install()
    import jax.numpy as jnp
    from mc.systems import jax_systems
    from ormatex_py.integrate_wrapper import integrate
    for sname in SYS:
        n, f, J, ft = fns(sname)
        for st, y0 in states(n).items():
            for method in ("exprb2", "exprb3", "epi2"):
                for t0, dt, N in ((0.0, 0.1, 3), (1.3, 0.05, 4)):
                    cid = f"{sname},{st},{method},{t0:g}"
                    if not rec.want(cid) or np.max(np.abs(y0)) > 10:
                        continue
                    rec.add("traces_validated_against_impl")
                    rec.add("states", N + 1)
                    rec.add("transitions", N)
                    with rec.case(cid, np.any(y0)) as c:
                        a = integrate(jax_systems()[sname], jnp.asarray(y0), t0, dt, N, method, max_krylov_dim=20, iom=20)
                        r = integrate(jax_systems()[sname], jnp.asarray(y0), t0, dt, N, method + "_rs", max_krylov_dim=20, iom=20)
                        c.close(np.asarray(r.t_res), np.asarray([float(x) for x in a.t_res]), 1e-13, "times")
                        ya = np.asarray([np.asarray(v) for v in a.y_res])
                        s = max(1.0, float(np.max(np.abs(ya))))
                        c.close(np.asarray(r.y_res), ya, N * 2e-7 * s, f"{method} in Rust and in Python")
    for method in METHODS:
        cid = f"lotka volterra,{method}"
        if not rec.want(cid):
            continue
        rec.add("traces_validated_against_impl")
        with rec.case(cid) as c:
            from ormatex_py.progression import lotka_volterra as lv
            s = lv.LotkaVolterra()
            y0 = jnp.array([1.5, 1.0])
            r = integrate(s, y0, 0.0, 0.02, 20, method + "_rs", max_krylov_dim=20, iom=20)
            w = model.solve(lambda t, u: np.array([u[0] - u[0] * u[1], u[0] * u[1] - u[1]]), 0.0, np.array([1.5, 1.0]), 0.4)
            c.close(np.asarray(r.y_res)[-1], w, 0.05 if method in ("bdf1", "backeuler") else 2e-3, "state at the end")


def dense(rec, tier, method):
    """integrators in Python that use the dense evaluation in Rust"""
    bindings.install()
    import jax.numpy as jnp
    from mc.systems import jax_systems
    from ormatex_py.integrate_wrapper import integrate
    from ormatex_py.ode_exp import ExpRBIntegrator
    exp = method == "exp_pfd_rs"
    G = (0.4, -0.3, 0.2, 0.0)
    ev = [{}, dict(pfd_method="cram"), dict(pfd_method="parabolic", pfd_order=24), dict(pfd_method="pade", pfd_order=12)]
    for sname in SYS:
        n, f, J, ft = np_systems()[sname]
        for st, y0 in states(n).items():
            if np.max(np.abs(y0)) > 10:
                continue
            for (t0, dt), kw, tf, cb in itertools.product(((0.0, 0.1), (0.7, 0.05)), ev, (None, 0.0, -1.0), (0, 1)):
                if exp and (tf is not None):
                    continue
                cid = f"{sname},{st},t0={t0:g},{kw},tol_fdt={tf},callback={cb}"
                if not rec.want(cid):
                    continue
                N = 3
                rec.add("traces_validated_against_impl")
                rec.add("states", N + 1)
                rec.add("transitions", N)
                with rec.case(cid, np.any(y0)) as c:
                    k = dict(kw)
                    if tf is not None:
                        k["tol_fdt"] = tf
                    if cb:
                        cnt = []

                        def call(s, t, y):
                            cnt.append(t)
                            return {"g": G[len(cnt) - 1]}
                        k["callback_before_step"] = call
                    r = integrate(jax_systems()[sname], jnp.asarray(y0), t0, dt, N, method, **k)
                    c.close(np.array([float(x) for x in r.t_res]), t0 + dt * np.arange(N + 1), 1e-13, "times")
                    for i in range(N):
                        g = G[i] if cb else 0.0
                        t, y = t0 + dt * i, np.asarray(r.y_res[i])
                        Jm = np.asarray(J(t, y, g), dtype=float)
                        if exp:
                            w = ref.phi(Jm * dt, 0) @ ref.ld(y)
                        else:
                            w = model.step("exprb2_dense", lambda a, b: f(a, b, g), lambda a, b: J(a, b, g), lambda a, b: ft(a, b, g) * (0 if tf == -1.0 else 1), None, t, y, None, dt)
                        s = max(1.0, float(np.max(np.abs(np.asarray(w, dtype=float)))))
                        c.close(np.asarray(r.y_res[i + 1]), w, (1e-10 if kw.get("pfd_method") == "pade" else 2e-7) * s * 4, f"state {i + 1} (extra argument {g})")
