"""C02: action of a phi function on a vector or on a block of vectors"""
import numpy as np
from mc import ref

LEVEL = "exploration"
RULE = ("every named matrix x scaling x right-hand side shape/magnitude x order; every 2x2 matrix over 5 entries x "
        "every right-hand side block; non-trivial: matrix and right-hand side are non-zero")
BOUNDS = "27 named matrices up to 7x7, 1..4 columns, magnitudes 1e-7..1e6, k<=5 (action), k<=3 in the all-2x2 family; stable matrices of norm 1e4..1e10, k<=4"
ASSUME = ["reference: 80 bit Taylor scaling and squaring (mc/ref.py)",
          "tolerance grows linearly with the norm of the matrix (the squaring algorithm starts from a degree 4 polynomial)"]


def blocks(n):
    out = {}
    for kind in ("e0", "elast", "ones", "mix", "big", "small", "zero"):
        out[kind] = ref.vec(n, kind)
    out["col1"] = ref.vec(n, "mix")[:, None]
    out["eye"] = np.eye(n)
    out["two"] = np.stack([ref.vec(n, "ones"), ref.vec(n, "mix")], axis=1)
    out["two-swapped-scale"] = np.stack([3e3 * ref.vec(n, "mix"), 1e-3 * ref.vec(n, "ones")], axis=1)
    out["three0"] = np.stack([ref.vec(n, "mix"), ref.vec(n, "zero"), ref.vec(n, "elast")], axis=1)
    out["four"] = np.stack([ref.vec(n, "e0"), 2 * ref.vec(n, "mix"), -ref.vec(n, "ones"), ref.vec(n, "elast")], axis=1)
    return out


def jobs(tier):
    sc = [1.0, 1e-3, 0.12, 6.0] if tier == "quick" else [1.0, 1e-8, 1e-3, 0.03, 0.12, 0.35, 2.5, 6.0, 31.0]
    out = []
    for n in sorted({len(a) for a in ref.mat_alphabet().values()}, reverse=True):
        ks = range(6)
        if n in (2, 3, 4):
            for kk in ([0, 1, 2], [3, 4, 5]):
                out.append((f"named-{n}-k{kk[0]}", "named", dict(n=n, scales=sc, ks=kk)))
        else:
            out.append((f"named-{n}", "named", dict(n=n, scales=sc, ks=list(ks))))
    ent = [0.0, 1.0, -1.0, -3.0, 0.5] if tier == "quick" else [0.0, 1.0, -1.0, -3.0, 0.5, 7.0, -20.0, 1e-4]
    out.append(("all2", "family", dict(entries=ent)))
    out.append(("stiff", "stiff", {}))
    return out


def stiff(rec, tier):
    """stable matrices of any norm: the action agrees with the matrix function, whatever the norm"""
    import jax.numpy as jnp
    from checks import c01
    from ormatex_py import matexp_phi as mph
    for name, A in c01.stiff_alphabet().items():
        n = len(A)
        P = ref.phis(A, 4)
        T = 1e-6 + 1e-14 * float(np.max(np.sum(np.abs(A), axis=1)))
        for bn in ("mix", "eye", "two", "three0"):
            B = blocks(n)[bn]
            for k in range(5):
                cid = f"stiff:{name},B={bn},k={k}"
                if not rec.want(cid):
                    continue
                with rec.case(cid) as c:
                    got = np.asarray(mph.f_phi_k_appl(jnp.asarray(A), jnp.asarray(B), k))
                    c.equal(got.shape, B.shape, "shape")
                    c.close(got, P[k] @ ref.ld(B), T, "action", scale=float(np.max(np.abs(B))))


def tol(A):
    nrm = float(np.max(np.sum(np.abs(A), axis=1)))
    return 3e-6 * max(1.0, nrm)


def named(rec, tier, n, scales, ks):
    import jax.numpy as jnp
    from ormatex_py import matexp_phi as mph
    for name, A0 in ref.mat_alphabet().items():
        if len(A0) != n:
            continue
        for s in scales:
            A = A0 * s
            P = ref.phis(A, max(ks))
            for bn, B in blocks(n).items():
                for k in ks:
                    cid = f"{name}*{s:g},B={bn},k={k}"
                    if not rec.want(cid):
                        continue
                    with rec.case(cid, bool(np.any(A)) and bool(np.any(B))) as c:
                        got = np.asarray(mph.f_phi_k_appl(jnp.asarray(A), jnp.asarray(B), k))
                        want = P[k] @ ref.ld(B)
                        # columns are independent: each is judged on its own magnitude
                        c.equal(got.shape, B.shape, "shape")
                        g2, w2, b2 = (x.reshape(n, -1) for x in (got, np.asarray(want), B))
                        for j in range(b2.shape[1]):
                            amp = max(1.0, float(np.max(np.abs(P[k]))))
                            mb = float(np.max(np.abs(b2[:, j])))
                            mall = float(np.max(np.abs(B)))
                            c.close(g2[:, j], w2[:, j], 1.0, f"column {j}", scale=(tol(A) * mb + 1e-11 * mall) * amp)


def family(rec, tier, entries):
    import jax.numpy as jnp
    from ormatex_py import matexp_phi as mph
    mats = ref.all_matrices(2, entries)
    P = ref.phis_batch(mats, 3)
    Bs = {k: v for k, v in blocks(2).items() if k in ("mix", "two", "three0")}
    for i, A in enumerate(mats):
        cid = "2x2:" + ",".join(f"{v:g}" for v in A.ravel())
        if not rec.want(cid):
            continue
        with rec.case(cid, bool(np.any(A))) as c:
            for bn, B in Bs.items():
                for k in range(4):
                    got = mph.f_phi_k_appl(jnp.asarray(A), jnp.asarray(B), k)
                    amp = max(1.0, float(np.max(np.abs(P[k, i]))))
                    c.close(got, P[k, i] @ ref.ld(B), tol(A), f"k={k}, B={bn}", scale=amp * float(np.max(np.abs(B))))
