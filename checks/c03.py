"""C03: partial fraction (rational) phi functions"""
import math
from fractions import Fraction as F
import numpy as np
from mc import ref

LEVEL = "exploration"
RULE = ("every shipped table x every point of a real and complex grid x order k x right-hand side shape; "
        "non-trivial: point other than 0")
BOUNDS = "all 43 tables, k=0..3 (real points: k=0..6), 37 real points in [-1e6,0], 40 points of the disc |z|<=6, 2x2/3x3/4x4 matrices"
ASSUME = ["reference for the Pade tables: numerator and denominator polynomials in exact rational arithmetic, for the "
          "Chebyshev (CRAM) tables: exp and phi in 80 bit arithmetic, for the real pole tables: phi_1 within the "
          "error bound recorded for the table (they approximate phi_1, not exp)"]

REALPTS = [0.0, -1e-8, -1e-4, -1e-2, -0.03, -0.1, -0.2, -0.35, -0.5, -0.7, -0.9, -1.0, -1.3, -1.7, -2.0, -2.5, -3.0, -3.7,
           -4.5, -5.5, -6.6, -8.0, -10., -12., -15., -19., -24., -30., -40., -60., -100., -200., -500., -1e3, -1e4, -1e5, -1e6]
CPTS = [(r * math.cos(t), r * math.sin(t)) for r in (0.3, 1.0, 2.2, 4.0, 6.0)
        for t in [0.0, 0.6, 1.2, math.pi / 2, 1.9, 2.5, 3.0, math.pi]]


def jobs(tier):
    from ormatex_py.matexp_phi_pfd_dict import pfd_dict
    keys = list(pfd_dict)
    out = []
    for k in keys:
        out.append((f"table-{k}", "table", dict(key=k)))
    # expected names: a user selects a table by name
    out.append(("names", "names", {}))
    return out


def pade_poly(m, n):
    f = math.factorial
    num = [F(f(m + n - j) * f(m), f(m + n) * f(j) * f(m - j)) for j in range(m + 1)]
    den = [F(f(m + n - j) * f(n), f(m + n) * f(j) * f(n - j)) * (-1) ** j for j in range(n + 1)]
    return num, den


def pade_k(m, n, k):
    """numerator of the k-th function: z r_{k+1} = r_k - r_k(0)"""
    num, den = pade_poly(m, n)
    for _ in range(k):
        r0 = num[0] / den[0]
        L = max(len(num), len(den))
        num = [(num[i] if i < len(num) else F(0)) - r0 * (den[i] if i < len(den) else F(0)) for i in range(L)]
        assert num[0] == 0
        num = num[1:] or [F(0)]
    return num, den


def polyval(p, z):
    s = ref.CLD(0)
    for c in reversed(p):
        s = s * z + ref.LD(c.numerator) / ref.LD(c.denominator)
    return s


def phi_scalar(z, k):
    z = ref.CLD(z)
    if abs(z) < 1.0:
        s, t = ref.CLD(0), ref.CLD(1) / math.factorial(k)
        for j in range(40):
            s += t
            t = t * z / (k + j + 1)
        return s
    v = np.exp(z)
    for j in range(k):
        v = (v - ref.LD(1) / math.factorial(j)) / z
    return v


# the tables approximate on the negative real axis (CRAM: Halphen's constant per order)
HALPHEN = 9.28902549192
REALPOLE = {"2": 3.5e-2, "3": 6e-2, "6": 6e-3, "7": 1.5e-2, "9": 4e-3, "12": 6e-3}


def tol_of(key):
    """cancellation between the residues grows with the order"""
    if key.startswith("pade_"):
        m, n = map(int, key[5:].split("_"))
        return 1e-10 if n <= 10 else 2e-9 if n <= 12 else 1e-8 if n <= 14 else 6e-8
    return 3e-9


def evalf(mph, jnp, key, pts, k):
    """r_k at complex points, through 2x2 real matrices [[a,b],[-b,a]]"""
    out = []
    for a, b in pts:
        Z = np.array([[a, b], [-b, a]])
        v = np.asarray(mph.f_phi_k_pfd(jnp.asarray(Z), jnp.asarray([1.0, 0.0]), k, key))
        out.append(v[0] - 1j * v[1])
    return np.array(out)


def table(rec, tier, key):
    import jax.numpy as jnp
    from ormatex_py import matexp_phi as mph
    K = 4
    TOL = tol_of(key)

    def scal(x, k, B=None):
        B = np.array([1.0]) if B is None else B
        return np.asarray(mph.f_phi_k_pfd(jnp.asarray([[float(x)]]), jnp.asarray(B), k, key))

    vals = {}
    for k in range(K + 3):      # beyond K: by the recursion, and exactly where the rational function is known
        for x in REALPTS:
            vals[x, k] = scal(x, k)[0]
            cid = f"x={x:g},k={k}"
            if not rec.want(cid):
                continue
            with rec.case(cid, x != 0.0) as c:
                got = vals[x, k]
                c.true(np.isfinite(got), f"not finite: {got}")
                if key.startswith("cram_") and k >= K:
                    pass
                elif key.startswith("cram_"):
                    n = int(key[5:])
                    b = 2.0 * HALPHEN ** (-n) + 2e-14 * 4
                    want = float(phi_scalar(x, k).real)
                    if k == 0:
                        c.close(got, want, b, "exp", scale=1.0)
                    else:
                        c.close(got, want, b * [1, 2.5 * n ** 2, 5.0 * n ** 4, 10.0 * n ** 6][k] + 1e-12, f"phi_{k}", scale=1.0)
                elif key.startswith("pade_") or key in ("IE", "CN"):
                    m, n = (0, 1) if key == "IE" else (1, 1) if key == "CN" else map(int, key[5:].split("_"))
                    num, den = pade_k(m, n, k)
                    want = float((polyval(num, ref.CLD(x)) / polyval(den, ref.CLD(x))).real)
                    c.close(got, want, TOL, f"rational function of order {k}", scale=1.0)
                else:
                    if k == 1:
                        c.close(got, float(phi_scalar(x, 1).real), REALPOLE.get(key, 4e-2), "phi_1", scale=1.0)
    # recursion between the orders, for every table
    for k in range(K + 2):
        for x in REALPTS:
            if key in REALPOLE and k == 0:
                continue
            cid = f"recursion,x={x:g},k={k}"
            if not rec.want(cid):
                continue
            with rec.case(cid, x != 0.0) as c:
                r0 = vals[0.0, k]
                mag = max(1.0, abs(x) * abs(vals[x, k + 1]))
                c.close(x * vals[x, k + 1], vals[x, k] - r0, TOL, "z*r_{k+1}(z) = r_k(z) - r_k(0)", scale=mag)
    # accuracy at the origin: 1/k!
    for k in range(K):
        cid = f"origin,k={k}"
        if rec.want(cid) and not (key in REALPOLE and k != 1):
            with rec.case(cid) as c:
                b = TOL if not key.startswith("cram") else 5 * HALPHEN ** (-int(key[5:])) * int(key[5:]) ** (2 * k) * [1, 1, 3, 6][k] + 1e-12
                if key in REALPOLE:
                    b = REALPOLE[key]
                # Pade of low order: r_k(0) = 1/k! only while k < degree of agreement
                if key.startswith("pade_") or key in ("IE", "CN"):
                    m, n = (0, 1) if key == "IE" else (1, 1) if key == "CN" else map(int, key[5:].split("_"))
                    num, den = pade_k(m, n, k)
                    want = float(num[0] / den[0])
                else:
                    want = 1.0 / math.factorial(k)
                c.close(vals[0.0, k], want, b, "value at 0", scale=1.0)
    # complex points for the tables with exact rational functions
    if key.startswith("pade_") or key in ("IE", "CN"):
        m, n = (0, 1) if key == "IE" else (1, 1) if key == "CN" else map(int, key[5:].split("_"))
        for k in range(K):
            num, den = pade_k(m, n, k)
            for i, (a, b) in enumerate(CPTS):
                cid = f"z={a:.3f}{b:+.3f}i,k={k}"
                if not rec.want(cid):
                    continue
                z = ref.CLD(complex(a, b))
                d = polyval(den, z)
                if abs(d) < 1e-3:
                    continue
                with rec.case(cid) as c:
                    want = complex(polyval(num, z) / d)
                    got = evalf(mph, jnp, key, [(a, b)], k)[0]
                    # amplification by nearby poles
                    c.close(np.array([got.real, got.imag]), np.array([want.real, want.imag]), TOL,
                            f"rational function of order {k}", scale=max(1.0, 30 * abs(want)) / min(1.0, abs(complex(d))))
    # matrix arguments: similarity transform of a diagonal matrix, vector and blocks, columns independent
    V = np.array([[1.0, 2, 0], [0, 1, 1], [1, 0, -1]])  # det = -1+2 = 1
    lam = np.array([-0.2, -3.0, -40.0])
    Vi = np.linalg.inv(V)
    Z = V @ np.diag(lam) @ Vi
    Bs = {"v": ref.vec(3, "mix"), "col1": ref.vec(3, "ones")[:, None],
          "two": np.stack([ref.vec(3, "mix"), 1e4 * ref.vec(3, "e0")], axis=1),
          "four": np.stack([ref.vec(3, q) for q in ("e0", "zero", "ones", "elast")], axis=1)}
    for k in range(K):
        f = np.array([scal(x, k)[0] for x in lam])
        for bn, B in Bs.items():
            cid = f"matrix,B={bn},k={k}"
            if not rec.want(cid) or (tier == "quick" and bn in ("col1", "four") and k != 1):
                continue
            with rec.case(cid) as c:
                got = np.asarray(mph.f_phi_k_pfd(jnp.asarray(Z), jnp.asarray(B), k, key))
                want = (V @ (f[:, None] * (Vi @ B.reshape(3, -1)))).reshape(B.shape)
                c.equal(got.shape, B.shape, "shape")
                g2, w2, b2 = got.reshape(3, -1), want.reshape(3, -1), B.reshape(3, -1)
                for j in range(b2.shape[1]):
                    c.close(g2[:, j], w2[:, j], 3e-8, f"column {j}", scale=max(1e-12, float(np.max(np.abs(b2[:, j])))))
    # defective matrix against the reference function (tables of high order only)
    if key in ("cram_16", "cram_14", "cram_12", "pade_15_16", "pade_16_16", "pade_13_14", "pade_12_12", "pade_10_12", "pade_0_16"):
        A = np.array([[-1.0, 1, 0, 0], [0, -1.0, 1, 0], [0, 0, -1.0, 0], [0.5, 0, 0, -2.0]])
        P = ref.phis(A, 3)
        for k in range(K):
            cid = f"defective,k={k}"
            if rec.want(cid):
                with rec.case(cid) as c:
                    B = np.stack([ref.vec(4, "mix"), ref.vec(4, "e0")], axis=1)
                    got = mph.f_phi_k_pfd(jnp.asarray(A), jnp.asarray(B), k, key)
                    c.close(got, P[k] @ B, {"pade_0_16": 1e-6}.get(key, 1e-7), f"phi_{k} of a defective matrix")


def names(rec, tier):
    from ormatex_py.matexp_phi_pfd_dict import pfd_dict
    want = (["IE", "CN", "2", "3", "6", "7", "9", "12"] + [f"cram_{n}" for n in range(2, 17, 2)]
            + [f"pade_{n}_{n}" for n in range(2, 17, 2)] + [f"pade_{n-1}_{n}" for n in range(2, 17, 2)]
            + [f"pade_{n-2}_{n}" for n in range(2, 17, 2)] + [f"pade_0_{n}" for n in range(2, 17, 2)])
    for k in want:
        if rec.want(k):
            with rec.case(k) as c:
                c.true(k in pfd_dict, "documented table is missing")
