"""C04: Arnoldi factorization"""
import numpy as np
from mc import ref

LEVEL = "exploration"
RULE = ("every named matrix x operator scaling x start vector x requested dimension x orthogonalization window; all 3x3 "
        "matrices over {-1,0,1} with an upper Hessenberg or lower Hessenberg pattern x start vectors; non-trivial: "
        "at least two Krylov vectors were produced")
BOUNDS = ("27 named matrices up to 7x7 and 2 block operators of size 9; requested dimension 1..n+3; window 0..n and 100; "
          "start vectors e_1, e_n, ones, alternating, 1e6 and 1e-7 magnitudes, eigenvectors")
ASSUME = ["the grade of the start vector (dimension at which the basis must stop) is computed in exact rational arithmetic",
          "reference factorization in 80 bit arithmetic (mc/ref.py)"]


def jobs(tier):
    out = []
    for n in sorted({len(a) for a in ref.mat_alphabet().values()}, reverse=True):
        out.append((f"named-{n}", "named", dict(n=n)))
    out.append(("operators", "operators", {}))
    ent = [0.0, 1.0, -1.0]
    parts = 2 if tier == "quick" else 6
    pat = "hess" if tier == "quick" else "full"
    for p in range(parts):
        out.append((f"all3-{p}", "family", dict(entries=ent, pattern=pat, part=p, parts=parts)))
    return out


def check_fact(c, rec, A, s, b, m, iom, qs, hs, exact_grade=None, orth=1e-12):
    n = len(b)
    qs, hs = np.asarray(qs), np.asarray(hs)
    mm = min(m, n)
    k = hs.shape[0]
    c.equal(qs.shape, (n, k), "basis shape")
    c.equal(hs.shape, (k, k), "projected matrix shape")
    c.true(np.all(np.isfinite(qs)) and np.all(np.isfinite(hs)), "not finite")
    c.true(1 <= k <= mm, f"dimension {k} outside 1..{mm}")
    A = s * A
    nrm = max(float(np.linalg.norm(A, 2)), 1e-300)
    c.close(qs[:, 0] * np.linalg.norm(b), b, 1e-13, "first basis vector is the normalized start vector",
            scale=float(np.linalg.norm(b)))
    # upper Hessenberg, non negative subdiagonal, window
    for j in range(k):
        for i in range(k):
            if i > j + 1:
                c.true(hs[i, j] == 0.0, f"entry ({i},{j}) below the subdiagonal is {hs[i, j]!r}")
            if i < j - iom:
                c.true(hs[i, j] == 0.0, f"entry ({i},{j}) outside the window {iom} is {hs[i, j]!r}")
    sub = np.diag(hs, -1)
    c.true(np.all(sub >= 0.0), "negative subdiagonal entry")
    c.close(np.linalg.norm(qs, axis=0), np.ones(k), 1e-12, "basis vectors are normalized")
    # Arnoldi relation for all columns but the last
    AQ = A @ qs
    R = AQ - qs @ hs
    if k > 1:
        c.close(R[:, :k - 1], np.zeros((n, k - 1)), 1e-12, "A Q = Q H (all but the last column)", scale=nrm)
    # last column: remainder orthogonal to the window, and zero on breakdown
    lo = max(k - 1 - iom, 0)
    smin = float(sub.min()) / nrm if k > 1 else 1.0
    amp = 1.0 / max(smin, 1e-12)
    c.close(qs[:, lo:].T @ R[:, k - 1], np.zeros(k - lo), 1e-13 * amp + orth, "remainder orthogonal to the window", scale=nrm)
    if k < mm:
        c.close(R[:, k - 1], np.zeros(n), 1e-10, "early stop although the space is not invariant", scale=max(nrm, 1e-2))
    G = qs.T @ qs
    for i in range(k):
        for j in range(i):
            if iom >= k - 1 or i - j <= iom + 1:
                c.true(abs(G[i, j]) <= min(1e-13 * amp, 1e-3) + orth, f"basis vectors {j} and {i} are not orthogonal: {G[i, j]:.2e}")
    if iom >= k - 1 and k == n:
        c.close(qs @ hs @ qs.T, A, 1e-13 * amp + 1e-12, "full space: similarity", scale=nrm)
    if exact_grade is not None and iom >= mm - 1:
        c.equal(k, min(mm, exact_grade), "dimension of the Krylov space")
    if k > 1:
        rec.add("multi")


def vecs(n, A):
    out = {kk: ref.vec(n, kk) for kk in ("e0", "elast", "ones", "mix", "big", "small")}
    return out


def run_all(rec, A, op, name, scales, ms, ioms, arn, jnp, exact=True):
    n = len(A)
    for bn, b in vecs(n, A).items():
        for s in scales:
            nrm = float(np.linalg.norm(A, 2)) * abs(s)
            for m in ms:
                for iom in ioms:
                    cid = f"{name},b={bn},scale={s:g},m={m},iom={iom}"
                    if not rec.want(cid):
                        continue
                    with rec.case(cid, nontrivial=(m > 1 and n > 1)) as c:
                        qs, hs = arn(op, s, jnp.asarray(b), m, iom)
                        g = None
                        if exact:
                            # the stopping test is absolute (1e-12): exact dimensions are only
                            # demanded where the operator is neither tiny nor huge
                            Q, H, piv = ref.arnoldi(A, s, b, min(m, n), 100)
                            if 1e-6 < nrm < 50 and piv > 1e-6:
                                g = ref.grade(A, b)
                        check_fact(c, rec, A, s, b, m, iom, qs, hs, g)


def named(rec, tier, n):
    import jax.numpy as jnp
    from ormatex_py.arnoldi_jax import arnoldi_lop
    from ormatex_py.ode_sys import MatrixLinOp
    ms = sorted({1, 2, n - 1, n, n + 3} - {0}) if tier == "quick" else range(1, n + 4)
    ioms = sorted({0, 1, 2, n - 1, 100}) if tier == "quick" else sorted(set(range(0, n + 1)) | {100})
    for name, A in ref.mat_alphabet().items():
        if len(A) != n:
            continue
        run_all(rec, A, MatrixLinOp(jnp.asarray(A)), name, [1.0, -0.37, 2.0] if tier == "quick" else [1.0, -0.37, 2.0, 1e-3, 7.5],
                ms, ioms, arnoldi_lop, jnp)


def operators(rec, tier):
    """the same factorization whatever the operator class"""
    import jax
    import jax.numpy as jnp
    from jax.experimental import sparse as jsp
    from ormatex_py.arnoldi_jax import arnoldi_lop
    from ormatex_py import ode_sys as o
    A = ref.mat_alphabet()["full4"]
    d = np.array([0.5, -1.0, 3.0, 0.0])
    ms, ioms = [1, 3, 4, 7], [1, 3, 100]
    run_all(rec, np.diag(d), o.DiagLinOp(jnp.asarray(d)), "diag", [1.0, -0.37], ms, ioms, arnoldi_lop, jnp)
    run_all(rec, np.eye(4), o.EyeLinOp(4), "eye", [1.0, 2.5], ms, ioms, arnoldi_lop, jnp)
    run_all(rec, A, o.MatrixLinOp(jsp.BCOO.fromdense(jnp.asarray(A))), "sparse", [1.0, -0.37], ms, ioms, arnoldi_lop, jnp)

    class S(o.OdeSys):
        def _frhs(self, t, u, **kw):
            return jnp.asarray(A) @ u + u * u * 0.1 + t
    u = jnp.asarray([0.3, -1.0, 2.0, 0.5])
    J = A + np.diag(0.2 * np.asarray(u))
    run_all(rec, J, S().fjac(0.4, u), "ad-jacobian", [1.0, 0.3], ms, ioms, arnoldi_lop, jnp)
    B = np.array([[1.0, 0, 2], [0, 1, -1], [1, 1, 1], [0, 0, 3]])
    K = np.diag(np.ones(2), 1)
    AA = np.block([[0.5 * A, B], [np.zeros((3, 4)), K]])
    run_all(rec, AA, o.AugMatrixLinOp(o.MatrixLinOp(jnp.asarray(A)), 0.5, jnp.asarray(B), jnp.asarray(K)),
            "augmented", [1.0, 0.3], [1, 2, 6, 7, 9], [2, 6, 100], arnoldi_lop, jnp)
    # larger: invariant subspace met in the middle of a 9 dimensional space, start vector given as a column
    A9 = np.zeros((9, 9))
    A9[:4, :4] = A
    A9[4:, 4:] = ref.mat_alphabet()["adv5"]
    run_all(rec, A9, o.MatrixLinOp(jnp.asarray(A9)), "block9", [1.0, 0.2], [2, 5, 9, 12], [1, 3, 100], arnoldi_lop, jnp)
    # more vectors than the default window of 100
    for n, m, ioms2 in ((40, 40, [5, 39, 100]), (120, 115, [4, 100, 200])):
        i = np.arange(n)
        # Householder similarity of a tridiagonal matrix: every Krylov basis is well conditioned
        hv = np.cos(1.0 + i)
        Hh = np.eye(n) - 2 * np.outer(hv, hv) / (hv @ hv)
        T = Hh @ (np.diag(-2.0 - 0.01 * i) + np.diag(np.ones(n - 1), 1) + 1.5 * np.diag(np.ones(n - 1), -1)) @ Hh
        op = o.MatrixLinOp(jnp.asarray(T))
        for iom in ioms2:
            cid = f"large{n},m={m},iom={iom}"
            if not rec.want(cid):
                continue
            with rec.case(cid) as c:
                b = 3.0 * Hh[:, 0]
                qs, hs = arnoldi_lop(op, 0.7, jnp.asarray(b), m, iom)
                check_fact(c, rec, T, 0.7, b, m, iom, qs, hs, None, 1e-12 if n < 50 else 3e-5)
                c.equal(np.asarray(hs).shape[0], m, "dimension")
                Q, H, piv = ref.arnoldi(T, 0.7, b, m, iom)
                p = min(m, 40)
                c.close(np.asarray(hs)[:p, :p], H[:p, :p], 1e-8, "leading block of the projected matrix")
    cid = "column-start-vector"
    if rec.want(cid):
        with rec.case(cid) as c:
            b = ref.vec(4, "mix")
            q1, h1 = arnoldi_lop(o.MatrixLinOp(jnp.asarray(A)), 1.0, jnp.asarray(b), 3, 100)
            q2, h2 = arnoldi_lop(o.MatrixLinOp(jnp.asarray(A)), 1.0, jnp.asarray(b)[:, None], 3, 100)
            c.same(q1, q2, "basis")
            c.same(h1, h2, "projected matrix")


def family(rec, tier, entries, pattern, part, parts):
    import jax.numpy as jnp
    from ormatex_py.arnoldi_jax import arnoldi_lop
    from ormatex_py.ode_sys import MatrixLinOp
    mats = ref.all_matrices(3, entries, pattern)[part::parts]
    bs = {"e0": ref.vec(3, "e0"), "elast": ref.vec(3, "elast"), "ones": ref.vec(3, "ones"), "12-1": np.array([1.0, 2.0, -1.0])}
    for A in mats:
        op = MatrixLinOp(jnp.asarray(A))
        name = ",".join(f"{v:g}" for v in A.ravel())
        for bn, b in bs.items():
            cid = f"{name},b={bn}"
            if not rec.want(cid):
                continue
            with rec.case(cid, bool(np.any(A))) as c:
                qs, hs = arnoldi_lop(op, 1.0, jnp.asarray(b), 5, 100)
                check_fact(c, rec, A, 1.0, b, 5, 100, qs, hs, ref.grade(A, b))
