"""C01: dense phi functions"""
import warnings
import numpy as np
from mc import ref

LEVEL = "exploration"
RULE = ("every matrix of the named structural alphabet times every scaling, and every matrix over a small entry set, "
        "times every order k and every dense algorithm; non-trivial: the matrix is not the zero matrix")
BOUNDS = ("27 named matrices up to 7x7 x scalings x k<=5; all 2x2 matrices over 5 entries; all 3x3 Hessenberg "
          "matrices over {-1,0,1}; 6 stable families with norms 1e4..1e10 (thorough: all 3x3 and all 2x2 over 9 entries)")
ASSUME = ["reference: Taylor scaling and squaring in 80 bit arithmetic (mc/ref.py), agreeing with the recursion "
          "phi_k = z phi_{k+1} + 1/k! on every case",
          "float64 mode; tolerances: extension formula 1e-11, scaling/squaring 1e-6 (its starting polynomial has degree 4), "
          "relative to max(1, largest entry)"]

TOL_INV = 3e-6


def tol_ext(A):
    """the matrix exponential of the linear algebra library is a Pade 13/13 approximant
    at a scaled norm of up to 10.7, where it has about 8 correct digits"""
    return 2e-12 if float(np.max(np.sum(np.abs(A), axis=0))) < 5. else 3e-7


def tol_sq(A, k):
    """a-priori error of the scaling and squaring algorithm: starting polynomials of
    total degree 4 at a scaled norm of at most 1/8, error growth linear in the norm"""
    nrm = float(np.max(np.sum(np.abs(A), axis=1)))
    theta = 0.125 if nrm > 0.125 else max(nrm, 1e-3)
    return 1e-13 + 1.1 * theta ** (5 - k) / 120. + (1.5 * nrm * theta ** 4 / 120. if nrm > 0.125 else 0.0)


def close_sq(c, A, got, want, what):
    for k in range(len(want)):
        c.close(got[k], want[k], tol_sq(A, k), f"{what}, order {k}")


def jobs(tier):
    out = []
    sc = [1.0, 1e-3, 0.11, 9.0] if tier == "quick" else [1.0, 1e-8, 1e-3, 0.03, 0.11, 0.35, 2.5, 9.0, 37.0]
    for n in sorted({len(a) for a in ref.mat_alphabet().values()}, reverse=True):
        out.append((f"named-{n}", "named", dict(n=n, scales=sc)))
    out.append(("all2", "family", dict(n=2, entries=[0.0, 1.0, -1.0, -3.0, 0.5], pattern="full", part=0, parts=1)))
    if tier == "quick":
        for p in range(3):
            out.append((f"hess3-{p}", "family", dict(n=3, entries=[0.0, 1.0, -1.0], pattern="hess", part=p, parts=3)))
    else:
        for p in range(8):
            out.append((f"all3-{p}", "family", dict(n=3, entries=[0.0, 1.0, -1.0], pattern="full", part=p, parts=8)))
        out.append(("all2w", "family", dict(n=2, entries=[0.0, 1.0, -1.0, -3.0, 0.5, 1e-9, 7.0, -20.0, 1e-4],
                                            pattern="full", part=0, parts=1)))
    out.append(("recursion", "recursion", {}))
    out.append(("stiff", "stiff", {}))
    return out


def stiff_alphabet():
    """stable matrices (no growth of rounding errors in the squarings) of any norm"""
    d = lambda *v: np.diag(np.array(v, dtype=float))
    out = {}
    for s in (1e4, 3e5, 1e6, 1e8, 1e10):
        lap = s / 4 * (d(-2, -2, -2, -2) + np.diag(np.ones(3), 1) + np.diag(np.ones(3), -1))
        slow = lap.copy()
        slow[3] = [0., 0., 0., -1.]
        chain = np.array([[-s, 0, 0, 0], [s, -1., 0, 0], [0, 1., -1e-3, 0], [0, 0, 1e-3, 0]])
        out[f"diag,{s:g}"] = d(-s, -1.)
        out[f"scalar,{s:g}"] = d(-s)
        out[f"lap,{s:g}"] = lap
        out[f"slow,{s:g}"] = slow
        out[f"chain,{s:g}"] = chain
        out[f"branch,{s:g}"] = np.array([[-s, 0, 0], [.4 * s, -.5, .1], [.5 * s, .5, -.2]])
    return out


def stiff(rec, tier):
    import jax.numpy as jnp
    from ormatex_py import matexp_phi as mph
    for name, A in stiff_alphabet().items():
        K = 3
        want = ref.phis(A, K)
        T = 1e-6 + 1e-14 * float(np.max(np.sum(np.abs(A), axis=1)))
        Aj = jnp.asarray(A)
        for k in range(K + 1):
            cid = f"stiff:{name},k={k}"
            if rec.want(cid):
                with rec.case(cid) as c:
                    c.close(mph.f_phi_k_ext(Aj, k), want[k], T, "extension formula")
                    if k == 0:
                        c.close(mph.f_phi_k(Aj, 0), want[0], T, "exponential")
                    if k == K:
                        c.close(mph.f_phi_k_ext(Aj, k, return_all=True), np.array(want), T, "extension formula, all orders")
                    c.close(mph.f_phi_k_sq(Aj, k), want[k], T, "scaling+squaring")
                    c.close(mph.f_phi_k_appl(Aj, jnp.eye(len(A)), k), want[k], T, "action on the unit vectors")


def _inv_ok(c, mph, jnp, A, k, want, what):
    """the inverse based formula is accurate or says that it is not"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = np.asarray(mph.f_phi_k(jnp.asarray(A), k))
    warned = any("singular" in str(x.message) for x in w)
    if not warned:
        c.close(got, want, TOL_INV, f"{what}: inverse based phi_{k}, no warning given",
                scale=max(1.0, float(np.max(np.abs(want)))))
    return warned


def named(rec, tier, n, scales):
    import jax.numpy as jnp
    from ormatex_py import matexp_phi as mph
    kmax = 5
    for scale in scales:
      for name, A in ref.mat_alphabet().items():
        if len(A) != n:
            continue
        A = A * scale
        name = f"{name}*{scale:g}"
        want = ref.phis(A, kmax)
        nz = bool(np.any(A))
        nwarn = 0
        Aj = jnp.asarray(A)
        for k in range(kmax + 1):
            cid = f"{name},k={k},ext"
            if rec.want(cid):
                with rec.case(cid, nz) as c:
                    c.close(mph.f_phi_k_ext(Aj, k), want[k], tol_ext(A), "extension formula")
            cid = f"{name},k={k},inv"
            if rec.want(cid):
                with rec.case(cid, nz) as c:
                    nwarn += _inv_ok(c, mph, jnp, A, k, want[k], name)
            if k == 0 or k > 3:
                cid = f"{name},k={k},ext-all"
                if rec.want(cid):
                    with rec.case(cid, nz) as c:
                        c.close(mph.f_phi_k_ext(Aj, k, return_all=True), np.array(want[:k + 1]),
                                tol_ext(A), "extension formula, all orders")
            if k > 3:
                continue
            cid = f"{name},k={k},all-orders"
            if rec.want(cid):
                with rec.case(cid, nz) as c:
                    w = np.array(want[:k + 1])
                    c.close(mph.f_phi_k_ext(Aj, k, return_all=True), w, tol_ext(A), "extension formula, all orders")
                    g = np.asarray(mph.f_phi_k_sq(Aj, k, return_all=True))
                    c.equal(g.shape, w.shape, "shape of all orders")
                    close_sq(c, A, g, w, "scaling+squaring, all orders")
                    l = mph.f_phi_k_sq_all(Aj, k)
                    c.equal(len(l), k + 1, "number of phi functions")
                    close_sq(c, A, l, w, "scaling+squaring list")
            cid = f"{name},k={k},sq"
            if rec.want(cid):
                with rec.case(cid, nz) as c:
                    c.close(mph.f_phi_k_sq(Aj, k), want[k], tol_sq(A, k), "scaling+squaring")
        # well conditioned matrices must not trigger the warning (it would be useless)
        cid = f"{name},warns-only-near-singular"
        if rec.want(cid):
            with rec.case(cid, nz) as c:
                smin = float(np.linalg.svd(A, compute_uv=False)[-1])
                for k in range(4):
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter("always")
                        mph.f_phi_k(jnp.asarray(A), k)
                    warned = any("singular" in str(x.message) for x in w)
                    if smin ** k > 1e-5 or k == 0:
                        c.true(not warned, f"k={k}: warned although the smallest singular value is {smin:.2e}")
                    if smin < 1e-10 and k:
                        c.true(warned, f"k={k}: no warning although the smallest singular value is {smin:.2e}")


def family(rec, tier, n, entries, pattern, part, parts):
    import jax.numpy as jnp
    from ormatex_py import matexp_phi as mph
    mats = ref.all_matrices(n, entries, pattern)[part::parts]
    K = 3
    want = ref.phis_batch(mats, K)
    for i, A in enumerate(mats):
        Aj = jnp.asarray(A)
        cid = f"{n}x{n}:" + ",".join(f"{v:g}" for v in A.ravel())
        if not rec.want(cid):
            continue
        with rec.case(cid, bool(np.any(A))) as c:
            w = want[:, i]
            c.close(mph.f_phi_k_ext(Aj, K, return_all=True), w, tol_ext(A), "extension formula")
            close_sq(c, A, mph.f_phi_k_sq(Aj, K, return_all=True), w, "scaling+squaring")
            if pattern == "full" and n == 2:
                for k in range(K + 1):
                    _inv_ok(c, mph, jnp, A, k, w[k], "family")
                    c.close(mph.f_phi_k_ext(Aj, k), w[k], tol_ext(A), "extension formula")


def recursion(rec, tier):
    """the oracle itself: phi_k(A) = A phi_{k+1}(A) + I/k! and agreement with mpmath on a few"""
    import math
    for name, A in ref.mat_alphabet().items():
        cid = f"oracle:{name}"
        if not rec.want(cid):
            continue
        with rec.case(cid) as c:
            P = ref.phis(A, 5)
            for k in range(5):
                lhs = P[k]
                rhs = ref.ld(A) @ P[k + 1] + np.eye(len(A)) / ref.LD(math.factorial(k))
                c.close(lhs, rhs, 1e-15, "oracle recursion")
    import mpmath as mp
    mp.mp.dps = 30
    for name in ("def2", "nonnorm2", "chain4", "full4", "stiff3", "lap5s"):
        cid = f"oracle-mpmath:{name}"
        if not rec.want(cid):
            continue
        with rec.case(cid) as c:
            A = ref.mat_alphabet()[name]
            E = mp.expm(mp.matrix(A.tolist()))
            W = np.array([[float(E[i, j]) for j in range(len(A))] for i in range(len(A))])
            c.close(np.asarray(ref.expm(A), float), W, 1e-14, "oracle against mpmath")
