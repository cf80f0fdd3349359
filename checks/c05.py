"""C05: Krylov evaluation of phi functions and of their linear combinations"""
import itertools
import numpy as np
from mc import ref

LEVEL = "exploration"
RULE = ("every named matrix x step size x start vector x order x Krylov dimension x window; every zero/non-zero pattern and "
        "magnitude pattern of the vectors of a linear combination; non-trivial: matrix and vector non-zero")
BOUNDS = ("27 named matrices up to 7x7 and 3 operators of size 9..120, k<=4, 1..5 combined vectors, Krylov dimension "
          "1..n+4, window 1..100")
ASSUME = ["full dimension: exact phi functions in 80 bit arithmetic; truncated dimension: the Galerkin projection "
          "phi_k(H_m) e_1 on the m-dimensional Krylov space built in 80 bit arithmetic",
          "tolerance 4e-6 relative to the input (accuracy of the small dense phi evaluation), growing with the norm"]


def jobs(tier):
    out = []
    for n in sorted({len(a) for a in ref.mat_alphabet().values()}, reverse=True):
        out.append((f"phi-{n}", "phi", dict(n=n)))
        out.append((f"comb-{n}", "comb", dict(n=n)))
    out.append(("operators", "operators", {}))
    out.append(("large", "large", {}))
    out.append(("stiff", "stiff", {}))
    out.append(("units", "units", {}))
    return out


def units(rec, tier):
    """other units of time: a tiny or huge operator and the inverse step"""
    import jax.numpy as jnp
    from ormatex_py.matexp_krylov import phi_linop, kiops_fixedsteps, matexp_linop
    from ormatex_py.ode_sys import MatrixLinOp
    M = ref.mat_alphabet()
    for name in ("def2", "rot2", "nonnorm2", "lap3", "cyc3", "stiff3", "full4", "chain4", "full7"):
        A = M[name]
        n = len(A)
        nrm = float(np.max(np.sum(np.abs(A), axis=1)))
        A = A * min(1.0, 8.0 / nrm)
        for q in (1e-13, 1e-20, 1e9):
            op = MatrixLinOp(jnp.asarray(A * q))
            for dt in (0.3, -0.2):
                P = ref.phis(A * dt, 4)
                g = max(1.0, max(float(np.max(np.abs(w))) for w in P))
                for vn in ("mix", "e0"):
                    v = ref.vec(n, vn)
                    cid = f"{name},unit of time {q:g},dt={dt:g},{vn}"
                    if not rec.want(cid):
                        continue
                    with rec.case(cid) as c:
                        for k in range(4):
                            c.close(phi_linop(op, dt / q, jnp.asarray(v), k, n + 2, 100), P[k] @ ref.ld(v), 2e-5 * g, f"phi_{k}")
                        c.close(matexp_linop(op, dt / q, jnp.asarray(v), n + 2, 100), P[0] @ ref.ld(v), 2e-5 * g, "exponential")
                        vs = [v * (0.5 + j) for j in range(5)]
                        c.close(kiops_fixedsteps(op, dt / q, [jnp.asarray(w) for w in vs], n + 7, 100), sum(P[j] @ ref.ld(vs[j]) for j in range(5)), 2e-5 * g, "combination", scale=5.0)


def tol(nrm):
    return 4e-6 * max(1.0, nrm)


def galerkin(A, s, b, m, iom, k):
    Q, H, piv = ref.arnoldi(A, s, b, m, iom)
    nb = np.sqrt(np.sum(ref.ld(b) ** 2))
    P = ref.phi(H, k)
    return nb * (Q @ P[:, 0]), piv, float(np.max(np.abs(P)))


def phi(rec, tier, n):
    import jax.numpy as jnp
    from ormatex_py.matexp_krylov import phi_linop, matexp_linop
    from ormatex_py.ode_sys import MatrixLinOp
    dts = [1.0, 0.1, -0.5] if tier == "quick" else [1.0, 0.1, -0.5, 2.0, 1e-4]
    ks = range(5)
    ms = sorted({n, n + 3} | ({n - 1} if n > 1 else set()) | ({2} if n > 4 else set())) if tier == "quick" else range(1, n + 4)
    for name, A in ref.mat_alphabet().items():
        if len(A) != n:
            continue
        op = MatrixLinOp(jnp.asarray(A))
        for dt in dts:
            nrm = float(np.max(np.sum(np.abs(A * dt), axis=1)))
            P = ref.phis(A * dt, max(ks))
            for bn in ("e0", "elast", "ones", "mix", "big", "small", "zero"):
                b = ref.vec(n, bn)
                bj = jnp.asarray(b)
                for m in ms:
                    for iom in ([100] if m > n else [100, 2, 1]):
                        for k in ks:
                            if tier == "quick" and iom != 100 and k not in (1, 2):
                                continue
                            cid = f"{name},dt={dt:g},b={bn},k={k},m={m},iom={iom}"
                            if not rec.want(cid):
                                continue
                            with rec.case(cid, bool(np.any(A) and np.any(b))) as c:
                                got = np.asarray(phi_linop(op, dt, bj, k, m, iom))
                                sc = max(float(np.max(np.abs(b))), 1e-300)
                                if bn == "zero":
                                    c.same(got, np.zeros(n), "phi of the zero vector")
                                    continue
                                if iom >= m - 1 and m >= n:
                                    c.close(got, P[k] @ ref.ld(b), tol(nrm) * (1 if k else 5e-3), f"phi_{k}(dt A) b",
                                            scale=sc * max(1.0, float(np.max(np.abs(P[k])))))
                                else:
                                    w, piv, amp = galerkin(A, dt, b, m, iom, k)
                                    if piv > 1e-5:
                                        c.close(got, w, tol(nrm * (1 if iom >= m - 1 else 3)), f"projected phi_{k}",
                                                scale=sc * np.sqrt(n) * max(1.0, amp))
                                    else:
                                        c.true(got.shape == (n,), "shape")
                                if k == 0 and iom == 100:
                                    c.same(matexp_linop(op, dt, bj, m, iom), got, "exp(A dt) v and phi_0")
                # default window, homogeneity in the start vector
                for f in (-8.0, 1e-9, 1e-13, -1e-20, 1e-60, 1e-130, 1e9, 1e100):
                    cid = f"{name},dt={dt:g},b={bn},times={f:g}"
                    if bn != "zero" and rec.want(cid) and (f == -8.0 or bn in ("e0", "mix")):
                        with rec.case(cid, bool(np.any(A))) as c:
                            p1 = np.asarray(phi_linop(op, dt, bj, 1, n))
                            p2 = np.asarray(phi_linop(op, dt, bj * f, 1, n)) / f
                            c.close(p2, p1, 1e-9 * max(1.0, nrm), f"phi({f:g} b) = {f:g} phi(b)",
                                    scale=max(float(np.max(np.abs(p1))), float(np.max(np.abs(b)))))


def comb(rec, tier, n):
    import jax.numpy as jnp
    from ormatex_py.matexp_krylov import kiops_fixedsteps
    from ormatex_py.ode_sys import MatrixLinOp
    kinds = ["mix", "ones", "e0", "elast", "mix", "ones", "elast", "e0", "mix"]
    dts = [1.0, 0.2]
    for name, A in ref.mat_alphabet().items():
        if len(A) != n:
            continue
        op = MatrixLinOp(jnp.asarray(A))
        for dt in dts:
            P = ref.phis(A * dt, 8)
            nrm = float(np.max(np.sum(np.abs(A * dt), axis=1)))
            for p in (1, 2, 3, 4, 5, 6, 8):
                for pat in itertools.product((0, 1), repeat=p + 1):
                    if p > 4 and (dt == 1.0 or not (sum(pat) == p + 1 or sum(pat) == 1 and pat[-1] or (sum(pat) in (1, 2) and pat[3]) and tier != "quick")):
                        continue
                    if tier == "quick" and p == 4 and sum(pat) not in (0, 1, 2, 5):
                        continue
                    mags = ("flat",) if sum(pat) < 2 else ("flat", "up", "down")
                    if sum(pat) and pat[p] and dt == 1.0:
                        mags += ("tiny", "minute", "huge")
                    for mag in mags:
                        vs = []
                        for j in range(p + 1):
                            f = {"flat": 1.0, "up": 30.0 ** j, "down": 30.0 ** -j,
                                 "tiny": 1e-13, "minute": 1e-100, "huge": 1e80}[mag]
                            vs.append(f * ref.vec(n, kinds[j]) * (j + 1) if pat[j] else np.zeros(n))
                        cid = f"{name},dt={dt:g},p={p},pattern={''.join(map(str, pat))},{mag}"
                        if not rec.want(cid):
                            continue
                        with rec.case(cid, bool(np.any(A)) and sum(pat) > 0) as c:
                            got = np.asarray(kiops_fixedsteps(op, dt, [jnp.asarray(v) for v in vs], n + p + 2, 100))
                            if sum(pat) == 0:
                                c.same(got, np.zeros(n), "no vectors")
                                continue
                            want = sum(P[j] @ ref.ld(vs[j]) for j in range(p + 1))
                            sc = max(float(np.max(np.abs(v))) for v in vs) * max(1.0, max(float(np.max(np.abs(q))) for q in P[:p + 1]))
                            c.close(got, want, (1e-11 if nrm < 2 else 2e-8) * (nrm + n), "sum of phi_j(dt A) b_j", scale=sc)


def operators(rec, tier):
    import jax.numpy as jnp
    from jax.experimental import sparse as jsp
    from ormatex_py.matexp_krylov import phi_linop, kiops_fixedsteps
    from ormatex_py import ode_sys as o
    A = ref.mat_alphabet()["full4"]
    u = np.array([0.3, -1.0, 2.0, 0.5])

    class S(o.OdeSys):
        def _frhs(self, t, x, **kw):
            return jnp.asarray(A) @ x + 0.1 * x * x + t

    d = np.array([0.5, -1.0, 3.0, 0.0])
    J = A + np.diag(0.2 * u)
    ops = {"diag": (o.DiagLinOp(jnp.asarray(d)), np.diag(d), 1e-30), "eye": (o.EyeLinOp(4), np.eye(4), 0),
           "sparse": (o.MatrixLinOp(jsp.BCOO.fromdense(jnp.asarray(A))), A, 0),
           "ad": (S().fjac(0.4, jnp.asarray(u)), J, 0),
           "custom": (o.CustomJacLinOp(0.4, jnp.asarray(u), S().frhs, jnp.asarray(J)), J, 0),
           "fd": (o.FdJacLinOp(0.4, jnp.asarray(u), S().frhs), J, 3e-6)}
    vs = [ref.vec(4, q) for q in ("mix", "ones", "e0")]
    for name, (op, M, extra) in ops.items():
        for dt in (1.0, 0.3):
            P = ref.phis(M * dt, 4)
            for k in range(5):
                cid = f"{name},dt={dt:g},k={k}"
                if rec.want(cid):
                    with rec.case(cid) as c:
                        got = phi_linop(op, dt, jnp.asarray(vs[0]), k, 8)
                        c.close(got, P[k] @ ref.ld(vs[0]), tol(5) + extra, f"phi_{k}", scale=2 * max(1.0, float(np.max(np.abs(P[k])))))
            cid = f"{name},dt={dt:g},comb"
            if rec.want(cid):
                with rec.case(cid) as c:
                    got = kiops_fixedsteps(op, dt, [jnp.asarray(v) for v in vs], 9)
                    c.close(got, sum(P[j] @ ref.ld(vs[j]) for j in range(3)), tol(5) + extra, "combination",
                            scale=4 * max(1.0, float(np.max(np.abs(P[0])))))


def large(rec, tier):
    """dimensions beyond the default window and many Krylov vectors; truncated spaces converge"""
    import jax.numpy as jnp
    from ormatex_py.matexp_krylov import phi_linop, kiops_fixedsteps
    from ormatex_py.ode_sys import MatrixLinOp
    for n in (30, 115):
        i = np.arange(n)
        T = np.diag(-2.0 - 0.01 * i) + np.diag(np.ones(n - 1), 1) + 0.5 * np.diag(np.ones(n - 1), -1)
        op = MatrixLinOp(jnp.asarray(T))
        b = np.cos(1.0 + i)
        v2 = np.sin(i * 0.7)
        lam, V = np.linalg.eig(T)
        for dt in (0.5, 2.0):
            # reference by diagonal similarity (T is symmetrizable): phi of a symmetric matrix
            D = np.sqrt(0.5) ** i
            Ts = (T / D[:, None]) * D[None, :]
            Ts = D[:, None] ** -1 * T * D[None, :]
            w, Q = np.linalg.eigh((Ts + Ts.T) / 2) if np.allclose(Ts, Ts.T, atol=1e-10) else (None, None)
            if n <= 30:
                P = ref.phis(T * dt, 2)
                ex = [np.asarray(p @ ref.ld(b), float) for p in P]
                exc = np.asarray(P[0] @ ref.ld(v2) + P[1] @ ref.ld(b) + P[2] @ ref.ld(v2), float)
            else:
                import scipy.linalg as sl
                def ph(k, x):
                    Z = np.zeros((n + k, n + k))
                    Z[:n, :n] = T * dt
                    if k:
                        Z[:n, n] = x
                        for q in range(k - 1):
                            Z[n + q, n + q + 1] = 1.0
                        return sl.expm(Z)[:n, -1]
                    return sl.expm(Z) @ x
                ex = [ph(k, b) for k in range(3)]
                exc = ph(0, v2) + ph(1, b) + ph(2, v2)
            for m, iom in ((n, 100), (n, 200), (25, 100), (25, 3), (n + 10, 150)):
                for k in range(3):
                    cid = f"n={n},dt={dt:g},k={k},m={m},iom={iom}"
                    if rec.want(cid):
                        with rec.case(cid) as c:
                            c.close(phi_linop(op, dt, jnp.asarray(b), k, m, iom), ex[k], tol(5 * dt), f"phi_{k}", scale=1.0)
                cid = f"n={n},dt={dt:g},comb,m={m},iom={iom}"
                if rec.want(cid):
                    with rec.case(cid) as c:
                        c.close(kiops_fixedsteps(op, dt, [jnp.asarray(x) for x in (v2, b, v2)], m, iom), exc, tol(5 * dt),
                                "combination", scale=1.5)


def stiff(rec, tier):
    """stable operators with dt ||A|| up to 1e10"""
    import jax.numpy as jnp
    from checks.c01 import stiff_alphabet
    from ormatex_py.matexp_krylov import phi_linop, kiops_fixedsteps
    from ormatex_py.ode_sys import MatrixLinOp
    for name, A in stiff_alphabet().items():
        n = len(A)
        big = float(np.max(np.sum(np.abs(A), axis=1)))
        for dt in (1.0, 1e-3):
            P = ref.phis(A * dt, 3)
            op = MatrixLinOp(jnp.asarray(A / 10.))
            T = 4e-6 + 4e-14 * big * dt
            for bn in ("ones", "mix", "e0"):
                b = ref.vec(n, bn)
                for k in range(4):
                    cid = f"stiff:{name},dt={dt:g},b={bn},k={k}"
                    if rec.want(cid):
                        with rec.case(cid) as c:
                            c.close(phi_linop(op, 10. * dt, jnp.asarray(b), k, n), P[k] @ ref.ld(b), T, f"phi_{k}",
                                    scale=float(np.max(np.abs(b))))
            vs = [ref.vec(n, q) for q in ("mix", "ones", "e0")]
            for pat in itertools.product((0, 1), repeat=3):
                cid = f"stiff:{name},dt={dt:g},pattern={''.join(map(str, pat))}"
                if sum(pat) and rec.want(cid):
                    with rec.case(cid) as c:
                        ws = [p * v for p, v in zip(pat, vs)]
                        got = kiops_fixedsteps(op, 10. * dt, [jnp.asarray(v) for v in ws], n + 2)
                        c.close(got, sum(P[j] @ ref.ld(ws[j]) for j in range(3)), T, "combination", scale=3.0)
