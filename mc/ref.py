"""
Reference numerics, written without jax and without the code under test.
Everything is computed in 80 bit extended precision (eps 1.1e-19).
"""
import math
import numpy as np

LD = np.longdouble
CLD = np.clongdouble


def ld(a):
    a = np.asarray(a)
    return a.astype(CLD) if np.iscomplexobj(a) else a.astype(LD)


def expm(a):
    """scaling and squaring of the Taylor series, extended precision"""
    a = ld(a)
    n = a.shape[0]
    nrm = float(np.max(np.sum(np.abs(a), axis=1))) if n else 0.0
    s = max(0, int(math.ceil(math.log2(nrm))) + 3) if nrm > 0 else 0
    x = a / LD(2) ** s
    e = np.eye(n, dtype=a.dtype)
    t = np.eye(n, dtype=a.dtype)
    for j in range(1, 30):
        t = t @ x / LD(j)
        e = e + t
        if float(np.max(np.abs(t))) == 0.0:
            break
    for _ in range(s):
        e = e @ e
    return e


def phis(a, k):
    """[phi_0(a), ..., phi_k(a)] for a dense matrix"""
    a = ld(a)
    n = a.shape[0]
    if k == 0:
        return [expm(a)]
    big = np.zeros(((k + 1) * n, (k + 1) * n), dtype=a.dtype)
    big[:n, :n] = a
    for j in range(k):
        big[j * n:(j + 1) * n, (j + 1) * n:(j + 2) * n] = np.eye(n)
    e = expm(big)
    return [e[:n, j * n:(j + 1) * n] for j in range(k + 1)]


def phi(a, k):
    return phis(a, k)[k]


def phi_comb(a, vs):
    """sum_j phi_j(a) vs[j]"""
    a = ld(a)
    ps = phis(a, len(vs) - 1)
    return sum(p @ ld(v) for p, v in zip(ps, vs))


def affine_exact(a, y0, c0, c1, t0, dt):
    """exact solution at t0+dt of y' = a y + c0 + c1*t, y(t0)=y0"""
    a = ld(a)
    y0, c0, c1 = ld(y0), ld(c0), ld(c1)
    h = LD(dt)
    g = c0 + c1 * LD(t0)
    p = phis(a * h, 2)
    return p[0] @ y0 + h * (p[1] @ g) + h * h * (p[2] @ c1)


def mat_alphabet():
    """named matrices that hit the special structures: zero, singular, defective,
    nilpotent, rotation, non normal, stiff, growing, block mixtures, odd sizes"""
    J = lambda n, l: np.eye(n) * l + np.diag(np.ones(n - 1), 1)
    M = {}
    M["zero1"] = np.zeros((1, 1))
    M["scal-2"] = np.array([[-2.0]])
    M["scal3"] = np.array([[3.0]])
    M["zero2"] = np.zeros((2, 2))
    M["id2"] = np.eye(2)
    M["nil2"] = J(2, 0.0)
    M["def2"] = J(2, -1.0)
    M["rot2"] = np.array([[0.0, 1.0], [-1.0, 0.0]])
    M["rot2big"] = 20 * np.array([[0.0, 1.0], [-1.0, 0.0]])
    M["sing2"] = np.array([[1.0, 2.0], [2.0, 4.0]])
    M["nonnorm2"] = np.array([[-1.0, 50.0], [0.0, -2.0]])
    M["grow2"] = np.array([[1.5, 0.5], [0.25, 0.75]])
    M["nil3"] = J(3, 0.0)
    M["def3"] = J(3, 2.0)
    M["lap3"] = np.diag(-2 * np.ones(3)) + np.diag(np.ones(2), 1) + np.diag(np.ones(2), -1)
    M["stiff3"] = np.diag([-1e-6, -1.0, -400.0])
    M["diag3z"] = np.diag([0.0, -3.0, 2.0])
    M["cyc3"] = np.array([[-1.0, 0, 1], [1, -1, 0], [0, 1, -1]])
    M["perm3"] = np.array([[0.0, 1, 0], [0, 0, 1], [1, 0, 0]])
    M["chain4"] = np.diag([-0.5, -1.0, -4.0, 0.0]) + np.diag([0.5, 1.0, 4.0], -1)
    M["block4"] = np.block([[J(2, 0.0), np.zeros((2, 2))], [np.zeros((2, 2)), np.array([[0, 3.0], [-3.0, 0]])]])
    M["full4"] = np.array([[0.3, -1.2, 0.4, 2.0], [1.1, -0.7, 0.0, 0.5], [-0.6, 0.9, -2.2, 0.1], [0.2, 0.0, 1.3, -0.4]])
    M["lap5s"] = 40 * (np.diag(-2 * np.ones(5)) + np.diag(np.ones(4), 1) + np.diag(np.ones(4), -1))
    M["adv5"] = 3 * (np.diag(-np.ones(5)) + np.diag(np.ones(4), -1))
    M["tiny3"] = 1e-9 * np.array([[1.0, 2, 3], [0, -1, 4], [2, 0, 1]])
    M["hess6"] = np.array([[((3 * i + 5 * j) % 7 - 3) / 2.0 if j >= i - 1 else 0.0 for j in range(6)] for i in range(6)])
    M["full7"] = np.array([[((5 * i * i + 3 * j + i * j) % 11 - 5) / 4.0 for j in range(7)] for i in range(7)])
    return M


def vec(n, kind):
    i = np.arange(n)
    if kind == "e0":
        return np.where(i == 0, 1.0, 0.0)
    if kind == "elast":
        return np.where(i == n - 1, 1.0, 0.0)
    if kind == "ones":
        return np.ones(n)
    if kind == "mix":
        return (-1.0) ** i * (i + 1) / 2.0
    if kind == "big":
        return 1e6 * (1 + (i % 3))
    if kind == "small":
        return 1e-7 * (2 - (i % 2))
    if kind == "zero":
        return np.zeros(n)
    raise KeyError(kind)


def expm_batch(a):
    a = ld(a)
    n = a.shape[-1]
    nrm = np.max(np.sum(np.abs(a), axis=-1), axis=-1).astype(float)
    s = int(math.ceil(math.log2(max(float(nrm.max()), 1e-300)))) + 3
    s = max(0, s)
    x = a / LD(2) ** s
    e = np.broadcast_to(np.eye(n, dtype=a.dtype), a.shape).copy()
    t = e.copy()
    for j in range(1, 24):
        t = t @ x / LD(j)
        e = e + t
    for _ in range(s):
        e = e @ e
    return e


def phis_batch(a, k):
    """array (k+1, batch, n, n)"""
    a = ld(a)
    m, n, _ = a.shape
    big = np.zeros((m, (k + 1) * n, (k + 1) * n), dtype=a.dtype)
    big[:, :n, :n] = a
    for j in range(k):
        big[:, j * n:(j + 1) * n, (j + 1) * n:(j + 2) * n] = np.eye(n)
    e = expm_batch(big)
    return np.array([e[:, :n, j * n:(j + 1) * n] for j in range(k + 1)])


def all_matrices(n, entries, pattern="full"):
    """every n x n matrix over the entries (optionally only a sparsity pattern), simplest first"""
    import itertools
    pos = [(i, j) for i in range(n) for j in range(n)
           if pattern == "full" or (pattern == "hess" and j >= i - 1) or (pattern == "tri" and j >= i)]
    out = np.zeros((len(entries) ** len(pos), n, n))
    for r, c in enumerate(itertools.product(entries, repeat=len(pos))):
        for (i, j), v in zip(pos, c):
            out[r, i, j] = v
    return out


def arnoldi(A, a_scale, b, m, iom):
    """windowed Arnoldi in extended precision; stops when the next direction is
    negligible.  Returns Q (n x k), H (k x k), smallest relative pivot seen"""
    A, b = ld(A), ld(b)
    n = len(b)
    m = min(m, n)
    nb = np.sqrt(np.sum(b * b))
    Q = [b / nb]
    H = np.zeros((m, m), dtype=LD)
    k = 0
    worst = 1.0
    while k < m:
        w = A @ Q[k] * LD(a_scale)
        w0 = float(np.sqrt(np.sum(w * w)))
        for rep in range(2 if iom >= k + 1 else 1):
            for i in range(max(k - iom, 0), k + 1):
                h = np.sum(w * Q[i])
                H[i, k] += h
                w = w - Q[i] * h
        nw = np.sqrt(np.sum(w * w))
        k += 1
        if float(nw) <= 1e-17 * max(w0, 1e-300) * 50 or float(nw) == 0.0 or float(nw) < 1e-15 * w0:
            break
        if k < m:
            worst = min(worst, float(nw) / max(w0, 1e-300))
            H[k, k - 1] = nw
            Q.append(w / nw)
    return np.array(Q[:k]).T, H[:k, :k], worst


def grade(A, b):
    """dimension of span{b, Ab, A^2 b, ...} in exact rational arithmetic"""
    from fractions import Fraction as F
    A = [[F(float(x)) for x in r] for r in np.asarray(A)]
    v = [F(float(x)) for x in np.asarray(b)]
    n = len(v)
    rows = []  # reduced basis
    g = 0
    for _ in range(n + 1):
        w = list(v)
        for piv, r in rows:
            if w[piv] != 0:
                f = w[piv] / r[piv]
                w = [x - f * y for x, y in zip(w, r)]
        p = next((i for i, x in enumerate(w) if x != 0), None)
        if p is None:
            break
        rows.append((p, w))
        g += 1
        v = [sum(A[i][j] * v[j] for j in range(n)) for i in range(n)]
    return g
