"""C19: the Rust matrix functions"""
import os
import tempfile
import numpy as np
from checks import c01, c04
from mc import ref, rust
from mc.core import REPO

LEVEL = "exploration"
RULE = ("every matrix of the structural alphabet x scaling x step x order x algorithm (Pade, extension, inverse, CRAM poles, parabolic contour); "
        "every 2x2 and every 3x3 Hessenberg matrix over a small entry set; every start vector x dimension x window for the Krylov methods; "
        "every history of up to 3 products for the finite difference operators; non-trivial: the operator is not zero")
BOUNDS = ("27 named matrices up to 7x7 x 5 scalings x k<=4, 30 stable matrices of norm 1e4..1e10; all 2x2 over 5 entries, all 3x3 Hessenberg over {-1,0,1}; "
          "Krylov dimension 1..n+2, windows 0..n and 100, steps 0.3, 1, -0.5; 3 times x 4 states histories of length 3")
ASSUME = ["the crates faer, num-traits, rayon, faer_gmres, rand, libm are not available offline: the repository's Rust modules are compiled unchanged against "
          "stand-ins (rust/shim) with the same interface; the crate's own unit tests run on them in every run",
          "references in 80 bit arithmetic (mc/ref.py)",
          "pole methods: accuracy demanded on matrices with spectrum on the closed left half axis, where they are designed for"]


def jobs(tier):
    out = [("unit-tests", "unit", {})]
    for n in sorted({len(a) for a in ref.mat_alphabet().values()}, reverse=True):
        out.append((f"dense-{n}", "dense", dict(n=n)))
    out += [("all2", "family", dict(n=2, entries=[0.0, 1.0, -1.0, -3.0, 0.5], pattern="full", part=0, parts=1)),
            ("stiff", "stiff", {}), ("poles", "poles", {}), ("inverse", "inverse", {}), ("operators", "operators", {}), ("operators-fd", "fdops", {})]
    p = 1 if tier == "quick" else 4
    for q in range(p):
        out.append((f"hess3-{q}", "family", dict(n=3, entries=[0.0, 1.0, -1.0], pattern="hess" if tier == "quick" else "full", part=q, parts=p)))
    for n in sorted({len(a) for a in ref.mat_alphabet().values()}, reverse=True):
        out.append((f"arnoldi-{n}", "arnoldi", dict(n=n)))
        out.append((f"krylov-{n}", "krylov", dict(n=n)))
    return out


def unit(rec, tier):
    d = tempfile.mkdtemp(dir=os.getcwd())
    rust.build(REPO, d)
    r = rust.unit_tests(REPO, d)
    n = 0
    for l in r.stdout.splitlines():
        w = l.split()
        if l.startswith("test ") and len(w) >= 4 and w[2] == "...":
            n += 1
            if rec.want(w[1]):
                with rec.case(w[1]) as c:
                    c.equal(w[3], "ok", "unit test of the crate")
    if rec.want("run"):
        with rec.case("run") as c:
            c.true(n > 0, "no unit test ran: " + r.stderr[-300:])


def dtol(A):
    """Pade approximants of full double precision, rounding of the squarings grows with the norm"""
    return 1e-13 * (1 + len(A)) + 3e-14 * float(np.max(np.sum(np.abs(A), axis=0)))


def dense_case(c, L, A, K, T, dts=(1.0,)):
    n = len(A)
    for dt in dts:
        want = ref.phis(A * dt, K)
        g = np.array([float(np.max(np.abs(w))) for w in want])
        c.close(L.dense(0, A, dt), want[0], T, "matexp", scale=max(1.0, g[0]))
        for k in range(K + 1):
            c.close(L.dense(2, A * dt, 1.0, k), want[k], T, f"phi_ext order {k}", scale=max(1.0, g.max()))
            V = np.stack([ref.vec(n, "mix"), ref.vec(n, "e0"), ref.vec(n, "ones")], axis=1)
            c.close(L.action(0, A, V, k, dt, 12), want[k] @ ref.ld(V), T, f"action on vectors, order {k}", scale=max(1.0, g.max()) * n)


def dense(rec, tier, n):
    L = rust.lib()
    for name, A in ref.mat_alphabet().items():
        if len(A) != n:
            continue
        for s in ([1.0, 1e-3, 0.11, 9.0, -1.0] if tier == "quick" else [1.0, 1e-8, 1e-3, 0.03, 0.11, 0.35, 2.5, 9.0, 37.0, -1.0]):
            B = A * s
            cid = f"{name},scale={s:g}"
            if rec.want(cid):
                with rec.case(cid, nontrivial=bool(np.any(A))) as c:
                    dense_case(c, L, B, 3 if tier == "quick" else 5, dtol(B), (1.0, 0.3))


def family(rec, tier, n, entries, pattern, part, parts):
    L = rust.lib()
    mats = ref.all_matrices(n, entries, pattern)
    for i in range(part, len(mats), parts):
        cid = f"m{i}"
        if rec.want(cid):
            with rec.case(cid, nontrivial=bool(np.any(mats[i]))) as c:
                dense_case(c, L, mats[i], 2, dtol(mats[i]))


def stiff(rec, tier):
    L = rust.lib()
    for name, A in c01.stiff_alphabet().items():
        cid = f"stiff:{name}"
        if rec.want(cid):
            with rec.case(cid) as c:
                dense_case(c, L, A, 2, 1e-6 + 1e-14 * float(np.max(np.sum(np.abs(A), axis=1))))


# accuracy of the pole methods on the left half axis: (kind, order) -> tolerance per k
POLES = {("cram", 1, 16): (1e-12, 1e-12, 1e-11, 1e-10), ("parabolic24", 2, 24): (1e-9, 5e-8, 1e-6, 1e-5), ("parabolic32", 2, 32): (1e-12, 1e-10, 1e-9, 1e-8)}
REALNEG = ["zero1", "scal-2", "zero2", "nil2", "def2", "lap3", "stiff3", "chain4", "lap5s", "adv5", "nonnorm2", "tiny3"]


def poles(rec, tier):
    L = rust.lib()
    mats = {k: ref.mat_alphabet()[k] for k in REALNEG}
    mats.update({k: A for k, A in c01.stiff_alphabet().items() if float(np.max(np.abs(A))) <= 1e8})
    for name, A in mats.items():
        n = len(A)
        nrm = float(np.max(np.sum(np.abs(A), axis=1)))
        V = np.stack([ref.vec(n, "mix"), ref.vec(n, "e0")], axis=1)
        for dt in (1.0, 0.3, 2.0):
            want = ref.phis(A * dt, 3)
            for (mn, kind, order), tol in POLES.items():
                cid = f"{name},dt={dt:g},{mn}"
                if not rec.want(cid):
                    continue
                with rec.case(cid, nontrivial=bool(np.any(A))) as c:
                    # departure from normality and rounding of the shifted solves
                    f = 10.0 * max(1.0, float(np.max(np.abs(want[0]))), float(np.max(np.abs(np.triu(A * dt, 1)))) if name in ("nonnorm2", "nil2", "def2") else 1.0)
                    T = [f * t + 1e-16 * nrm * dt * 20 for t in tol]
                    c.close(L.dense(3 if kind == 1 else 5, A, dt, 0, order), want[0], T[0], "exponential")
                    c.close(L.action(10 + kind, A, V, 0, dt, order), want[0] @ ref.ld(V), T[0], "action of the exponential")
                    if nrm * dt < 1e3:
                        for k in (0, 1):
                            c.close(L.dense(4 if kind == 1 else 6, A, dt, k, order), want[k], T[1] * (1 + 1 / dt), f"phi_{k} by the extended matrix")
                    for k in range(4):
                        c.close(L.action(kind, A, V, k, dt, order), want[k] @ ref.ld(V), T[k], f"action of phi_{k}", scale=n)


def inverse(rec, tier):
    """the recursion with the inverse, for matrices far from singular"""
    L = rust.lib()
    for name, A in ref.mat_alphabet().items():
        if np.linalg.cond(A) > 1e4 if len(A) and np.any(A) else True:
            continue
        inv = float(np.linalg.norm(np.linalg.inv(A), 2))
        want = ref.phis(A, 3)
        g = max(float(np.max(np.abs(w))) for w in want)
        for k in range(4):
            cid = f"{name},k={k}"
            if inv ** k < 1e8 and rec.want(cid):
                with rec.case(cid) as c:
                    c.close(L.dense(1, A, 1.0, k), want[k], 1e-13 * len(A) * max(1.0, inv) ** k * np.linalg.cond(A), "inverse based formula", scale=max(1.0, g))


def arnoldi(rec, tier, n):
    L = rust.lib()
    ms = sorted({1, 2, n, n + 2}) if tier == "quick" else range(1, n + 3)
    ioms = sorted({0, 1, 2, 100}) if tier == "quick" else sorted(set(range(0, n + 1)) | {100})
    for name, A in ref.mat_alphabet().items():
        if len(A) != n:
            continue
        for how, hn in ((0, "dense"), (1, "sparse")):
            c04.run_all(rec, A, (how, A), f"{hn},{name}", [1.0, -0.37], ms, ioms,
                        lambda op, s, b, m, iom: L.arnoldi(op[0], op[1], s, np.asarray(b), m, iom), np)
        cid = f"{name},zero vector"
        if rec.want(cid):
            with rec.case(cid) as c:
                q, h = L.arnoldi(0, A, 1.0, np.zeros(n), n, 100)
                c.true(np.all(np.isfinite(q)) and np.all(np.isfinite(h)), "not finite for the zero vector")
                c.close(h, np.zeros_like(h), 0.0, "projected matrix of the zero vector")


def krylov(rec, tier, n):
    """phi_k(dt A) v by projection: exact for the full space, the projected function otherwise"""
    L = rust.lib()
    for name, A in ref.mat_alphabet().items():
        if len(A) != n:
            continue
        nrm = float(np.max(np.sum(np.abs(A), axis=0)))
        s = min(1.0, 20.0 / nrm) if nrm > 0 else 1.0
        A = A * s
        nrm *= s
        for vn in ("e0", "mix", "ones", "big", "small", "zero"):
            v = ref.vec(n, vn)
            beta = float(np.linalg.norm(v))
            for dt in (0.3, 1.0, -0.5):
                W = [ref.phis(A * dt * j, 3) for j in (1, 2, 3)]
                g = max(1.0, max(float(np.max(np.abs(w))) for w in W[0]))
                g3 = max(1.0, max(float(np.max(np.abs(w))) for w in W[2]))
                for m in sorted({1, 2, n, n + 2}):
                    for iom in (None, 1, 100):
                        cid = f"{name},v={vn},dt={dt:g},m={m},iom={iom}"
                        if not rec.want(cid):
                            continue
                        with rec.case(cid, nontrivial=bool(np.any(A)) and vn != "zero") as c:
                            io = -1 if iom is None else iom
                            win = 2 if iom is None else iom
                            if vn == "zero":
                                for k in range(3):
                                    c.close(L.krylov(1, A, dt, v, k, m, io), v, 0.0, "phi_k of the zero vector")
                                c.close(L.krylov(0, A, dt, v, 0, m, io), v, 0.0, "exponential of the zero vector")
                                continue
                            Q, H, piv = ref.arnoldi(A, 1.0, v, m, win)
                            full = Q.shape[1] == min(n, ref.grade(A, v)) and win >= Q.shape[1]
                            # near breakdown the basis is ill determined: only the exact result of the full space is checked
                            if piv < 1e-6 and not full:
                                continue
                            T = 1e-11 * (1 + nrm) * g / min(1.0, max(piv, 1e-6) * 10)
                            # a window may amplify: condition of the basis
                            T *= float(np.linalg.cond(np.asarray(Q, dtype=float)))
                            hp = ref.phis(np.asarray(H) * dt, 3)
                            ps = hp if not full else None
                            hs = max(float(np.max(np.abs(w))) for w in hp)
                            e = lambda k: (W[0][k] @ ref.ld(v)) if full else beta * (Q @ ps[k][:, 0])
                            sc = beta * max(1.0, hs / g)
                            for k in range(4):
                                c.close(L.krylov(1, A, dt, v, k, m, io), e(k), T, f"phi_{k}", scale=sc)
                                if full and k < 3:
                                    r = L.krylov(2, A, dt, v, k, m, io)
                                    for j in range(3):
                                        c.close(r[j], W[j][k] @ ref.ld(v), 1e-11 * (1 + nrm) * T / (1e-11 * (1 + nrm) * g), f"triplet: phi_{k} at {j + 1} dt", scale=beta * g3 ** 2)
                            c.close(L.krylov(0, A, dt, v, 0, m, io), e(0), T, "exponential", scale=sc)
        # other units of time: a tiny or huge operator and the inverse step
        for q in (1e-13, 1e-20, 1e9):
            for vn in ("e0", "mix"):
                for k in range(4):
                    cid = f"{name},v={vn},unit of time {q:g},k={k}"
                    if rec.want(cid):
                        with rec.case(cid) as c:
                            v, dt = ref.vec(n, vn), 0.3
                            W = [ref.phis(A * dt * j, 3) for j in (1, 2, 3)]
                            g = max(1.0, max(float(np.max(np.abs(w))) for w in W[2])) ** 2
                            c.close(L.krylov(1, A * q, dt / q, v, k, n + 2, 100), W[0][k] @ ref.ld(v), 1e-9 * (1 + nrm) * g, f"phi_{k}", scale=float(np.linalg.norm(v)))
                            if k == 0:
                                c.close(L.krylov(0, A * q, dt / q, v, 0, n + 2, 100), W[0][0] @ ref.ld(v), 1e-9 * (1 + nrm) * g, "exponential", scale=float(np.linalg.norm(v)))
                            elif k < 3:
                                r = L.krylov(2, A * q, dt / q, v, k, n + 2, 100)
                                for j in range(3):
                                    c.close(r[j], W[j][k] @ ref.ld(v), 1e-9 * (1 + nrm) * g, f"triplet: phi_{k} at {j + 1} dt", scale=float(np.linalg.norm(v)))
        # linear combinations through the extended operator
        for p, mag in ((1, 1.0), (2, 1.0), (3, 1.0), (5, 1.0), (7, 1.0), (1, 1e-13), (3, 1e-13), (2, 1e8), (2, 1e16), (3, 1e100)):
            vb = np.array([ref.vec(n, ("mix", "e0", "ones", "elast")[j % 4]) * (1 if j != 2 else 1e2) for j in range(p + 1)])
            for zero in (None, 0, p):
                vz = vb * mag
                if zero is not None:
                    vz[zero] = 0.0
                for dt in (0.3, 1.0):
                    cid = f"{name},combination p={p},zero={zero},dt={dt:g}" + ("" if mag == 1 else f",of size {mag:g}")
                    if rec.want(cid):
                        with rec.case(cid) as c:
                            want = ref.phi_comb(A * dt, list(vz))
                            g = max(1.0, max(float(np.max(np.abs(w))) for w in ref.phis(A * dt, p)))
                            c.close(L.comb(A, dt, vz, n + p + 2, 100), want, 1e-10 * (1 + nrm) * g, "combination of phi functions", scale=max(mag, float(np.max(np.abs(vz)))))


def operators(rec, tier):
    """extended and shifted operators are the block / shifted matrices"""
    L = rust.lib()
    for name, A in ref.mat_alphabet().items():
        n = len(A)
        s = max(1.0, float(np.max(np.abs(A))))
        for p in (1, 2, 3):
            B = np.array([ref.vec(n, k) + 0.1 * j for j, k in enumerate(("ones", "mix", "e0", "elast")[:p + 1])])
            for t in (1.0, -0.4):
                M = np.zeros((n + p, n + p))
                M[:n, :n] = t * A
                for j in range(1, p + 1):
                    M[:n, n + p - j] = B[j]
                for j in range(p - 1):
                    M[n + j, n + j + 1] = 1.0
                cid = f"{name},extended,p={p},t={t:g}"
                if rec.want(cid):
                    with rec.case(cid) as c:
                        got = np.array([np.ravel(L.comb(A, t, B, 1, 1, v=np.eye(n + p)[i] * 2.0)) for i in range(n + p)]).T / 2.0
                        # the vectors may be divided by one common positive number
                        b, g = M[:n, n:], got[:n, n:]
                        k = float(np.sum(b * g) / np.sum(b * b))
                        c.true(k > 0, f"block of the vectors {g} is a positive multiple of {b}")
                        c.close(g / k if k > 0 else g, b, 1e-14 * s * n, "block of the vectors of the extended operator")
                        M[:n, n:] = g
                        c.close(got, M, 1e-14 * s * n, "extended operator")
        sid = L.register(n, lambda t, x, A=A: A @ x, lambda t, x, A=A: A * (1 + t))
        for sc in (1.0, -0.3, 0.0):
            for ga in (None, 1.0, 0.0, -2.0):
                for t in (0.0, 0.7):
                    cid = f"{name},shifted,scale={sc:g},gamma={ga},t={t:g}"
                    if rec.want(cid):
                        with rec.case(cid) as c:
                            for vn in ("mix", "ones", "zero"):
                                v = ref.vec(n, vn)
                                c.close(L.jacop(1, sid, t, ref.vec(n, "mix"), v, sc, ga), sc * (1 + t) * (A @ v) + (ga or 0.0) * v, 1e-13 * s * n, "shifted operator")


def fd_systems():
    return {"quad2": (2, lambda t, x: np.array([x[0] * x[1] + t, x[0] ** 2 - 3 * x[1] + np.sin(t)]),
                      lambda t, x: np.array([[x[1], x[0]], [2 * x[0], -3.0]])),
            "lin3": (3, lambda t, x: (1 + t) * (ref.mat_alphabet()["cyc3"] @ x) + 2.0, lambda t, x: (1 + t) * ref.mat_alphabet()["cyc3"]),
            "exp1": (1, lambda t, x: np.exp(0.3 * x) * (2 - t), lambda t, x: np.diag(0.3 * np.exp(0.3 * x) * (2 - t)))}


def fdops(rec, tier):
    """finite difference operators: at every state (zero included), after every history of products"""
    import itertools
    L = rust.lib()
    # homogeneous system: the operator is accurate relative to the state, whatever its magnitude
    hid = L.register(2, lambda t, x: np.array([x[0] * x[1], x[0] ** 2 - x[1] ** 2]), lambda t, x: np.array([[x[1], x[0]], [2 * x[0], -2 * x[1]]]))
    for q in (1e-100, 1e-20, 1e-12, 1e-9, 1e-6, 1e-3, 0.05, 1.0, 30.0, 1e6, 1e12, 1e100):
        for xn, x in (("a", np.array([1.0, 2.0])), ("one", np.array([0.0, 1.0])), ("neg", np.array([-2.0, 1.0]))):
            for vn in ("mix", "e0"):
                for what, wn in ((0, "finite difference"), (2, "shifted"), (3, "moved")):
                    cid = f"magnitude,{wn},state={q:g}*{xn},v={vn}"
                    if rec.want(cid):
                        with rec.case(cid) as c:
                            v, u = ref.vec(2, vn), q * x
                            J = np.array([[u[1], u[0]], [2 * u[0], -2 * u[1]]])
                            c.close(L.jacop(what, hid, 0.0, u, v, 1.0, None if what == 0 else 0.0), J @ v, 1e-6, f"{wn} operator", scale=4 * q * float(np.max(np.abs(v))))
    for name, (n, f, J) in fd_systems().items():
        sid = L.register(n, f, J)
        xs = {"zero": np.zeros(n), "a": 1.0 + np.arange(n), "b": (1.0 + np.arange(n))[::-1].copy(), "neg": -0.5 * (1.0 + np.arange(n)), "small": 1e-3 * np.ones(n)}
        tol = lambda x, v, t: 3e-7 * max(1.0, float(np.max(np.abs(f(t, x)))) / max(float(np.max(np.abs(x))), 1.0 if not np.any(x) else 1e-3)) + 1e-6
        for xn, x in xs.items():
            for t in (0.0, 0.7):
                for vn in ("mix", "e0"):
                    v = ref.vec(n, vn)
                    for sc, ga in ((1.0, None), (-0.3, 1.0), (2.0, 0.0)):
                        want = sc * (J(t, x) @ v) + (ga or 0.0) * v
                        for what, wn in ((0, "finite difference"), (2, "shifted"), (3, "moved")):
                            cid = f"{name},{wn},x={xn},t={t:g},v={vn},scale={sc:g},gamma={ga}"
                            if rec.want(cid):
                                with rec.case(cid) as c:
                                    c.close(L.jacop(what, sid, t, x, v, sc, ga), want, tol(x, v, t), f"{wn} operator", scale=max(1.0, float(np.max(np.abs(want)))))
        alpha = list(itertools.product((0.0, 0.7), ("zero", "a", "b")))
        v = ref.vec(n, "mix")
        for d in (1, 2, 3):
            for h in itertools.product(range(len(alpha)), repeat=d):
                cid = f"{name},history " + ">".join(f"{alpha[i][1]}@{alpha[i][0]:g}" for i in h)
                if rec.want(cid):
                    with rec.case(cid) as c:
                        r = L.rhsop(sid, n, [(alpha[i][0], xs[alpha[i][1]], v) for i in h])
                        for q, i in enumerate(h):
                            t, x = alpha[i][0], xs[alpha[i][1]]
                            c.close(r[q], J(t, x) @ v, tol(x, v, t), f"product {q + 1} of the history", scale=max(1.0, float(np.max(np.abs(J(t, x) @ v)))))
