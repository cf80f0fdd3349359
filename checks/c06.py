"""C06: linear operators and Jacobians"""
import numpy as np
from mc import ref
from mc.systems import np_systems, states

LEVEL = "exploration"
RULE = ("every operator class x matrix x vector; every Jacobian flavour x test system x state x time x extra argument x "
        "direction; non-trivial: matrix and vector non-zero")
BOUNDS = ("27 named matrices, 7 vectors and blocks; 6 systems with hand-written derivatives (sizes 1..6), 6 states (zero included), 4 "
          "times, 2 extra arguments, all unit directions and 2 combined ones; all 2x2 augmented operators over {-1,0,2}")
ASSUME = ["derivatives of the test systems are hand-written in mc/systems.py and themselves checked by central differences",
          "finite difference flavours are judged with the error bound of one-sided differences at their step size"]


def jobs(tier):
    out = [("basic", "basic", {}), ("augmented", "augmented", {}), ("oracle", "oracle", {}), ("np-wrapper", "npwrap", {}),
           ("defaults", "defaults", {}), ("magnitude", "magnitude", {}), ("late", "late", {})]
    for s in np_systems():
        out.append((f"jac-{s}", "jac", dict(name=s)))
    return out


def basic(rec, tier):
    import jax.numpy as jnp
    from jax.experimental import sparse as jsp
    from ormatex_py import ode_sys as o
    for name, A in ref.mat_alphabet().items():
        n = len(A)
        d = np.diag(A) + np.arange(n)
        ops = {"matrix": (o.MatrixLinOp(jnp.asarray(A)), A), "sparse": (o.MatrixLinOp(jsp.BCOO.fromdense(jnp.asarray(A))), A),
               "diag": (o.DiagLinOp(jnp.asarray(d)), np.diag(d)), "eye": (o.EyeLinOp(n), np.eye(n))}
        for on, (op, M) in ops.items():
            cid = f"{name},{on},dense"
            if rec.want(cid):
                with rec.case(cid, bool(np.any(M))) as c:
                    c.close(op.dense(), M, 0.0, "dense form")
            for vn in ("e0", "elast", "ones", "mix", "big", "small", "zero"):
                cid = f"{name},{on},v={vn}"
                if not rec.want(cid):
                    continue
                with rec.case(cid, bool(np.any(M)) and vn != "zero") as c:
                    v = ref.vec(n, vn)
                    want = M @ v
                    sc = max(1e-300, float(np.max(np.abs(M) @ np.abs(v))))
                    for fn, f in (("call", lambda x: op(x)), ("matvec", lambda x: op.matvec(x))):
                        c.close(f(jnp.asarray(v)), want, 4e-16, fn, scale=sc)
                    got = op.matvec_npcompat(v)
                    c.true(isinstance(got, np.ndarray) and got.shape == (n,), "numpy compatible product")
                    c.close(got, want, 4e-16, "numpy compatible product", scale=sc)
            if on in ("matrix", "sparse"):
                cid = f"{name},{on},block"
                if rec.want(cid):
                    with rec.case(cid, bool(np.any(M))) as c:
                        Bk = np.stack([ref.vec(n, "mix"), ref.vec(n, "ones"), ref.vec(n, "e0")], axis=1)
                        c.close(op(jnp.asarray(Bk)), M @ Bk, 1e-15, "block product", scale=max(1.0, float(np.max(np.abs(M) @ np.abs(Bk)))))
        cid = f"{name},complex"
        if rec.want(cid):
            with rec.case(cid, bool(np.any(A))) as c:
                v = ref.vec(n, "mix") + 1j * ref.vec(n, "ones")
                c.close(ops["matrix"][0](jnp.asarray(v)), A @ v, 1e-15, "complex vector", scale=max(1.0, float(np.max(np.abs(A)) * n * n)))


def augmented(rec, tier):
    import itertools
    import jax.numpy as jnp
    from ormatex_py import ode_sys as o
    for name, A in ref.mat_alphabet().items():
        n = len(A)
        for p in (1, 2, 3, 5):
            B = np.array([[((i + 2 * j) % 5) - 2.0 for j in range(p)] for i in range(n)])
            for kn, K in (("shift", np.diag(np.ones(p - 1), 1)), ("full", np.arange(1.0, p * p + 1).reshape(p, p)), ("zero", np.zeros((p, p)))):
                for dt in (1.0, -0.25, 0.0):
                    cid = f"{name},p={p},K={kn},dt={dt:g}"
                    if not rec.want(cid):
                        continue
                    with rec.case(cid) as c:
                        op = o.AugMatrixLinOp(o.MatrixLinOp(jnp.asarray(A)), dt, jnp.asarray(B), jnp.asarray(K))
                        M = np.block([[dt * A, B], [np.zeros((p, n)), K]])
                        for j in list(range(n + p)) + ["mix"]:
                            v = np.zeros(n + p)
                            if j == "mix":
                                v = (-1.0) ** np.arange(n + p) * (1 + np.arange(n + p))
                            else:
                                v[j] = 1.0
                            c.close(op(jnp.asarray(v)), M @ v, 1e-14, f"product with {j}", scale=max(1.0, float(np.max(np.abs(M))) * n))
                            c.close(op.matvec_npcompat(jnp.asarray(v)), M @ v, 1e-14, f"product with {j}", scale=max(1.0, float(np.max(np.abs(M))) * n))
    ent = [0.0, -1.0, 2.0]
    for r, c8 in enumerate(itertools.product(ent, repeat=4)):
        cid = f"all2:{c8}"
        if not rec.want(cid):
            continue
        with rec.case(cid, any(c8)) as c:
            A = np.array([[c8[0], c8[1]], [1.0, c8[2]]])
            B = np.array([[c8[3]], [2.0]])
            op = o.AugMatrixLinOp(o.MatrixLinOp(jnp.asarray(A)), 0.5, jnp.asarray(B), jnp.asarray([[0.25]]))
            M = np.block([[0.5 * A, B], [np.zeros((1, 2)), np.array([[0.25]])]])
            for v in np.eye(3):
                c.close(op(jnp.asarray(v)), M @ v, 1e-15, "product")


def oracle(rec, tier):
    """the hand-written derivatives themselves"""
    LD = np.longdouble
    for name, (n, f, J, ft) in np_systems().items():
        for sn, u in states(n).items():
            for t in (0.0, 0.7):
                cid = f"{name},{sn},t={t}"
                if not rec.want(cid):
                    continue
                with rec.case(cid) as c:
                    e = LD(2) ** -18
                    u = u.astype(LD)
                    D = np.array([(f(LD(t), u + e * q, LD(0.5)) - f(LD(t), u - e * q, LD(0.5))) / (2 * e) for q in np.eye(n, dtype=LD)]).T
                    c.close(D, J(LD(t), u, LD(0.5)), 1e-8, "Jacobian of the test system")
                    c.close((f(LD(t) + e, u, LD(0.5)) - f(LD(t) - e, u, LD(0.5))) / (2 * e), ft(LD(t), u, LD(0.5)), 1e-8, "time derivative of the test system")


def _flavours(sysj, t, u, J, ft, kw, o, jnp):
    F = {}
    fr = sysj.frhs
    F["default"] = (lambda: sysj.fjac(t, u, **kw), 1.0, 0.0, "exact", "exact")
    F["ad"] = (lambda: o.AdJacLinOp(t, u, fr, frhs_kwargs=kw), 1.0, 0.0, "exact", "exact")
    F["custom"] = (lambda: o.CustomJacLinOp(t, u, fr, jnp.asarray(J), jnp.asarray(ft), frhs_kwargs=kw), 1.0, 0.0, "exact", "exact")
    F["custom-fdt"] = (lambda: o.CustomJacLinOp(t, u, fr, jnp.asarray(J), frhs_kwargs=kw), 1.0, 0.0, "exact", 0.5e-8)
    F["custom-fdt-eps"] = (lambda: o.CustomJacLinOp(t, u, fr, jnp.asarray(J), frhs_kwargs=kw, eps=1e-6), 1.0, 0.0, "exact", 1e-6)
    F["fd"] = (lambda: o.FdJacLinOp(t, u, fr, frhs_kwargs=kw), 1.0, 0.0, 0.5e-8, 0.5e-8)
    F["fd-eps"] = (lambda: o.FdJacLinOp(t, u, fr, frhs_kwargs=kw, eps=1e-6), 1.0, 0.0, 1e-6, 1e-6)
    F["fd-scaled"] = (lambda: o.FdJacLinOp(t, u, fr, frhs_kwargs=kw, scale=-0.5), -0.5, 0.0, 0.5e-8, 0.5e-8)
    F["fd-shifted"] = (lambda: o.FdJacLinOp(t, u, fr, frhs_kwargs=kw, scale=2.0, gamma=3.0), 2.0, 3.0, 0.5e-8, 0.5e-8)
    return F


def jac(rec, tier, name):
    import jax.numpy as jnp
    from mc.systems import jax_systems
    from ormatex_py import ode_sys as o
    n, f, Jf, ftf = np_systems()[name]
    sysj = jax_systems()[name]
    times = [0.0, 0.7, -1.3, 2.5] if tier == "quick" else [0.0, 0.7, -1.3, 2.5, 10.0, 1e-3]
    for sn, un in states(n).items():
        for t in times:
            for g in (None, 0.75):
                gg = 0.0 if g is None else g
                kw = {} if g is None else {"frhs_kwargs": {"g": g}}
                u = jnp.asarray(un)
                f0, J, ft = f(t, un, gg), Jf(t, un, gg), ftf(t, un, gg)
                fm = max(1e-3, float(np.max(np.abs(f0))))
                cid0 = f"{sn},t={t:g},g={g}"
                cid = cid0 + ",rhs"
                if rec.want(cid):
                    with rec.case(cid) as c:
                        c.close(sysj.frhs(t, u, **kw), f0, 1e-13, "right-hand side")
                        c.close(sysj(t, u, **kw), f0, 1e-13, "system call")
                        M = sysj.fm(t, u, **kw)
                        c.close(M(u), un, 0.0, "mass matrix")
                for fl, (mk, sc, gam, eu, et) in _flavours(sysj, t, u, J, ft, kw, o, jnp).items():
                    cid = f"{cid0},{fl}"
                    if not rec.want(cid):
                        continue
                    with rec.case(cid, nontrivial=True) as c:
                        op = mk()
                        Jt = sc * J + gam * np.eye(n)
                        jm = max(1.0, float(np.max(np.abs(Jt))))
                        c.close(op._frhs_cached(), f0, 1e-13, "cached right-hand side", scale=fm)
                        if et == "exact":
                            c.close(op._fdt(), ft, 1e-13, "time derivative", scale=max(1.0, fm))
                        else:
                            tl = 8e-16 * (fm + abs(t)) / et + 40 * et * max(1.0, fm)
                            c.close(op._fdt(), ft, tl, "time derivative (difference)", scale=max(1.0, fm))
                        dirs = [q for q in np.eye(n)] + [(-1.0) ** np.arange(n) * (1 + np.arange(n)), 1e-3 * np.ones(n)]
                        for i, v in enumerate(dirs):
                            want = Jt @ v
                            vm = float(np.max(np.abs(v)))
                            if eu == "exact":
                                tl = 1e-13 * jm * n * vm
                            else:
                                nu = float(np.sum(np.abs(un))) or 1.0
                                h = eu * nu
                                # rounding of f and of u+h v, curvature
                                mag = fm + jm * max(1.0, float(np.max(np.abs(un))))
                                tl = abs(sc) * (1e-15 * mag / h + 10 * h * vm * vm * jm) + 1e-12
                            c.close(op.matvec(jnp.asarray(v)), want, tl, f"product with direction {i}", scale=1.0)
                            if i in (0, n):
                                c.close(op(jnp.asarray(v)), want, tl, "call", scale=1.0)
                                got = op.matvec_npcompat(v)
                                c.true(isinstance(got, np.ndarray) and got.shape == (n,), "numpy product")
                                c.close(got, want, tl, "numpy compatible product", scale=1.0)
                        if eu == "exact":
                            D = op.dense()
                            c.close(D, J, 1e-13 * n, "dense form", scale=jm)
                            # the operator must not depend on previous products
                            c.same(op.matvec(jnp.asarray(dirs[0])), op.matvec(jnp.asarray(dirs[0])), "repeated product")
                        else:
                            if hasattr(op, "shape"):
                                c.equal(tuple(op.shape), (n, n), "shape")


def npwrap(rec, tier):
    import jax.numpy as jnp
    from mc.systems import jax_systems
    from ormatex_py import ode_sys as o
    js = jax_systems()
    for name, (n, f, Jf, ftf) in np_systems().items():
        w = o.OdeSysNp(js[name])
        for sn, un in states(n).items():
            for t in (0.0, 0.9):
                cid = f"{name},{sn},t={t}"
                if not rec.want(cid):
                    continue
                with rec.case(cid) as c:
                    for shape in ((n,), (n, 1)):
                        x = un.reshape(shape)
                        r = w.frhs(t, x)
                        c.true(isinstance(r, np.ndarray), "numpy result")
                        c.close(r, f(t, un, 0.0), 1e-13, "right-hand side", scale=max(1.0, float(np.max(np.abs(f(t, un, 0.0))))))
                        J = w.fjac(t, jnp.asarray(x))
                        Jm = Jf(t, un, 0.0)
                        v = ref.vec(n, "mix")
                        c.close(J.matvec_npcompat(v), Jm @ v, 1e-12, "Jacobian", scale=max(1.0, float(np.max(np.abs(Jm)) * n)))


def magnitude(rec, tier):
    """homogeneous system: every kind of Jacobian is accurate relative to the state, whatever its magnitude"""
    import jax.numpy as jnp
    from ormatex_py import ode_sys as o

    class Hom(o.OdeSys):
        def _frhs(self, t, u, **kw):
            return jnp.array([u[0] * u[1], u[0] ** 2 - u[1] ** 2])

    fr = Hom().frhs
    for q in (1e-100, 1e-20, 1e-12, 1e-9, 1e-6, 1e-3, 0.05, 1.0, 30.0, 1e6, 1e12, 1e100):
        for xn, x in (("a", np.array([1.0, 2.0])), ("one", np.array([0.0, 1.0])), ("neg", np.array([-2.0, 1.0]))):
            u = q * x
            J = np.array([[u[1], u[0]], [2 * u[0], -2 * u[1]]])
            for on, mk, tl in (("ad", lambda: o.AdJacLinOp(0.0, jnp.asarray(u), fr), 1e-14), ("fd", lambda: o.FdJacLinOp(0.0, jnp.asarray(u), fr), 1e-6),
                               ("fd-scaled", lambda: o.FdJacLinOp(0.0, jnp.asarray(u), fr, scale=1.0, gamma=0.0, eps=1e-7), 1e-5)):
                cid = f"magnitude,{on},state={q:g}*{xn}"
                if not rec.want(cid):
                    continue
                with rec.case(cid) as c:
                    op = mk()
                    for vn in ("mix", "e0", "ones"):
                        v = ref.vec(2, vn)
                        c.close(op(jnp.asarray(v)), J @ v, tl, f"product with {vn}", scale=4 * q * float(np.max(np.abs(v))))


def late(rec, tier):
    """systems that change over the length of the time: the time derivative is accurate at every magnitude of the time"""
    import jax.numpy as jnp
    from ormatex_py import ode_sys as o

    class Slow(o.OdeSys):
        T: float

        def __init__(self, T):
            super().__init__()
            self.T = T

        def _frhs(self, t, u, **kw):
            return jnp.array([u[0] * jnp.sin(t / self.T) + u[1], -u[1] * (t / self.T) ** 2])

    for t in (0.0, 0.3, -0.3, 5.0, 1e3, -1e3, 1e6, 1e8, -1e8, 1e9, -1e9, 1e12, 1e15):
        for r in (0.6, 2.0, 30.0) if tier == "quick" else (0.6, 1.0, 2.0, 7.0, 30.0):
            T = r * max(1.0, abs(t))
            for xn, u in (("a", np.array([1.0, 2.0])), ("neg", np.array([-2.0, 1.0])), ("trace", np.array([1e-12, 3e-12]))):
                S = Slow(T)
                ft = np.array([u[0] * np.cos(t / T) / T, -2 * u[1] * t / T / T])
                J = np.array([[np.sin(t / T), 1.0], [0.0, -(t / T) ** 2]])
                Jj = jnp.asarray(J)
                for on, mk, tl in (("ad", lambda: o.AdJacLinOp(t, jnp.asarray(u), S.frhs), 1e-13), ("fd", lambda: o.FdJacLinOp(t, jnp.asarray(u), S.frhs), 1e-6),
                                   ("custom", lambda: o.CustomJacLinOp(t, jnp.asarray(u), S.frhs, Jj), 1e-6), ("default", lambda: S.fjac(t, jnp.asarray(u)), 1e-13)):
                    cid = f"late,{on},t={t:g},T={T:g},{xn}"
                    if not rec.want(cid):
                        continue
                    with rec.case(cid) as c:
                        op = mk()
                        c.close(op._fdt(), ft, tl, "time derivative", scale=float(np.max(np.abs(u))) * (1 + abs(t / T)) ** 2 / T * (1.0 if on in ("ad", "default") else max(1.0, r)))
                        c.close(op(jnp.asarray([1.0, -1.0])), J @ [1.0, -1.0], tl, "product", scale=(1 + abs(t / T)) ** 2 * 4)


def defaults(rec, tier):
    """operators of one system built one after the other do not share state"""
    import jax.numpy as jnp
    from mc.systems import jax_systems
    js = jax_systems()
    for name, (n, f, Jf, ftf) in np_systems().items():
        cid = f"{name},two-operators"
        if not rec.want(cid):
            continue
        with rec.case(cid) as c:
            s = states(n)
            ops = [(t, sn, g, js[name].fjac(t, jnp.asarray(s[sn]), frhs_kwargs={"g": g}))
                   for t, sn, g in ((0.0, "ones", 0.0), (1.1, "mix", 0.5), (0.0, "pos", 0.25), (-0.4, "ones", 1.0))]
            for rep in range(2):
                for t, sn, g, op in ops[::-1] if rep else ops:
                    v = ref.vec(n, "mix")
                    c.close(op(jnp.asarray(v)), Jf(t, s[sn], g) @ v, 1e-12, f"operator at t={t},{sn}")
                    c.close(op._fdt(), ftf(t, s[sn], g), 1e-12, f"time derivative at t={t},{sn}")
                    c.close(op._frhs_cached(), f(t, s[sn], g), 1e-12, f"rhs at t={t},{sn}")
