"""C15: transmutation and decay matrices represent the nuclide library"""
import itertools
import contextlib
import io
import numpy as np
from mc import ref

LEVEL = "exploration"
RULE = ("every nuclide library over the alphabet of branches for every keymap; the matrix is compared entry by entry with the library, its column sums with the leaked rates, "
        "its exponential with conservation and non-negativity; the analytic solution with the exponential for every ordered tuple of decay constants; "
        "non-trivial: at least one branch to another species of the set")
BOUNDS = ("all libraries of 1..3 species (1, 2 or 3 branches each, targets: none, every species of the set, 2 rates), 4 species with single branches, all keymap permutations; "
          "decay constants: ordered tuples of up to 4 (thorough 5) of 7 values from 0 to 1e3 and the constants of the shipped libraries; 6 times; 12 methods on the shipped chains")
ASSUME = ["reference exponential in 80 bit arithmetic", "the analytic formula is documented not to work for (nearly) equal adjacent constants; its rounding error is bounded by the sum of its terms' magnitudes"]

L1, L2 = 0.5, 3.0


def jobs(tier):
    out = [("solve", "solve", {}), ("library-3", "library", dict(n=3)), ("library-4", "library", dict(n=4)), ("library-12", "library", dict(n=0)), ("keymaps", "keymaps", {}), ("analytic", "analytic", {})]
    out += [("exponential-%d" % k, "exponential", dict(part=k)) for k in range(2)]
    return out


def options(n, full=True):
    """library values for one species: (value, list of (target or None, rate))"""
    out = []
    targets = [None] + list(range(n))
    for t in targets:
        for lam in (L1, L2):
            out.append([(t, lam)])
    if full:
        for a, b in itertools.product(targets, repeat=2):
            out.append([(a, L1), (b, L2)])
        out.append([(None, L1), (0, L2), (n - 1, 0.25)])
        out.append([(0, 1e-9)])
    return out


def value(br, names, nested):
    prs = tuple(("none" if t is None else names[t], lam) for t, lam in br)
    return prs if nested or len(prs) > 1 else prs[0]


def expected(lib, n):
    M = np.zeros((n, n))
    leak = np.zeros(n)
    for i, br in enumerate(lib):
        for t, lam in br:
            M[i, i] -= lam
            if t is None:
                leak[i] += lam
            else:
                M[t, i] += lam
    return M, leak


def name_of(lib):
    return ";".join("+".join(f"{'-' if t is None else t}:{lam:g}" for t, lam in br) for br in lib)


def libraries(n):
    if n == 0:
        for m in (1, 2):
            for lib in itertools.product(options(m), repeat=m):
                yield list(lib)
    elif n == 3:
        yield from (list(lib) for lib in itertools.product(options(3), repeat=3))
    else:
        o = [[(t, lam)] for t in [None, 0, 1, 2, 3] for lam in (L1, L2)]
        yield from (list(lib) for lib in itertools.product(o, repeat=4))


def library(rec, tier, n):
    from ormatex_py.progression.bateman_sys import gen_bateman_matrix, gen_transmute_matrix
    for k, lib in enumerate(libraries(n)):
        m = len(lib)
        cid = name_of(lib)
        if not rec.want(cid):
            continue
        with rec.case(cid, any(t is not None and t != i for i, br in enumerate(lib) for t, _ in br)) as c:
            names = ["xe_135", "none_1", "c_0", "u"][:m]
            d = {nm: value(br, names, k % 2 == 0) for nm, br in zip(names, lib)}
            keep = dict(d)
            B = np.asarray(gen_bateman_matrix(names, d))
            M, leak = expected(lib, m)
            c.close(B, M, 1e-15, "matrix of the library", scale=4.0)
            c.close(B.sum(axis=0), -leak, 2e-15, "column sums are minus the leaked rates", scale=4.0)
            c.true(d == keep, "the library was changed")
            if k % 5 == 0:
                phi = (1.0, 2.5, 0.0, -3.0, 1e9)[(k // 5) % 5]
                T = np.asarray(gen_transmute_matrix(names, d, phi))
                c.close(T, -phi * M, 1e-15, f"transmutation matrix, flux {phi:g}", scale=4.0 * max(1.0, abs(phi)))
                c.close(np.asarray(gen_transmute_matrix(names, d)), -M, 1e-15, "transmutation matrix, default flux", scale=4.0)


def keymaps(rec, tier):
    """every permutation and every subset closed under the branches; missing species are errors"""
    from ormatex_py.progression.bateman_sys import gen_bateman_matrix
    from ormatex_py.progression import bateman_sys as b
    libs = {"shipped1": b.decay_lib_1, "shipped_test": b.decay_lib_test,
            "branch": {"a": (("b", 1.0), ("c", 0.5), ("none", 0.25)), "b": ("d", 2.0), "c": (("d", 0.7), ("a", 0.1)), "d": ("none", 0.01)}}
    for ln, lib in libs.items():
        keys = list(lib)
        for r in range(1, min(len(keys), 7) + 1):
            for sub in itertools.combinations(keys, r):
                perms = itertools.permutations(sub) if r <= 4 else [sub, sub[::-1], sub[1:] + sub[:1]]
                for km in perms:
                    cid = f"{ln}," + ",".join(km)
                    if not rec.want(cid):
                        continue
                    with rec.case(cid, len(km) > 1) as c:
                        rows = []
                        missing = False
                        for k in km:
                            v = lib[k]
                            prs = v if isinstance(v[0], tuple) else (v,)
                            missing |= any(ch != "none" and ch not in km for ch, _ in prs)
                            rows.append([(None if ch == "none" else (km.index(ch) if ch in km else -1), lam) for ch, lam in prs])
                        if missing:
                            try:
                                got = gen_bateman_matrix(list(km), lib)
                            except Exception:
                                continue
                            c.fail(f"a branch to a species outside of the keymap is dropped: {np.asarray(got)}")
                        M, leak = expected(rows, len(km))
                        got = np.asarray(gen_bateman_matrix(list(km), lib))
                        c.close(got, M, 1e-15, "matrix", scale=4.0)
                        for j in range(len(km)):
                            col = np.max(np.abs(M[:, j]))
                            c.close(got[:, j], M[:, j], 1e-15, f"column {j}", scale=float(col) if col else 1.0)


def exponential(rec, tier, part):
    """conservation and non-negativity of the exact exponential of the generated matrices (80 bit)"""
    from ormatex_py.progression.bateman_sys import gen_bateman_matrix
    libs = list(libraries(3))
    for k, lib in enumerate(libs):
        if k % 2 != part or (tier == "quick" and k % 24 // 2):
            continue
        cid = name_of(lib)
        if not rec.want(cid):
            continue
        with rec.case(cid, any(t is not None and t != i for i, br in enumerate(lib) for t, _ in br)) as c:
            names = ["a", "b", "c"]
            B = np.asarray(gen_bateman_matrix(names, {nm: value(br, names, False) for nm, br in zip(names, lib)}))
            _, leak = expected(lib, 3)
            for t in (0.1, 3.0):
                E = ref.expm(B * t)
                c.true(np.min(E) >= -1e-17, f"negative density {np.min(E)}")
                s = np.asarray(E.sum(axis=0), dtype=float)
                if not leak.any():
                    c.close(s, np.ones(3), 1e-14, "nuclides are conserved")
                else:
                    c.true(np.all(s <= 1 + 1e-14), "nuclides are created")


TIMES = np.array([0.0, 1e-3, 0.3, 2.0, 50.0, 1e4])
LAM = (0.0, 1e-9, 1e-3, 0.1, 1.0, 10.0, 1e3)


def analytic(rec, tier):
    from ormatex_py.progression.bateman_sys import analytic_bateman_single_parent, gen_bateman_matrix
    h = np.log(2.)
    chains = [(h / 19.0, h / (6.57 * 3600), h / (9.14 * 3600), h / (1.33e6 * 365 * 24 * 3600)), (0.1, 10.0, 1e-3), (0.1, 10.0, 1e-3, 0.5, 2.0)]
    for m in range(1, 5 if tier == "quick" else 6):
        chains += list(itertools.permutations(LAM, m))
    for lam in chains:
        cid = ",".join(f"{x:g}" for x in lam)
        if not rec.want(cid):
            continue
        with rec.case(cid, len(lam) > 1) as c:
            m = len(lam)
            names = [f"s{i}" for i in range(m)]
            # alternate the end of the chain: leaves the set
            B = gen_bateman_matrix(names, {nm: (names[i + 1] if i + 1 < m else "none", lam[i]) for i, nm in enumerate(names)})
            for n0 in (1.0, 1e-6, 250.0):
                got = analytic_bateman_single_parent(TIMES, B, n0)
                c.equal(np.shape(got), (len(TIMES), m), "shape")
                l = ref.ld(np.array(lam))
                for k, t in enumerate(TIMES):
                    for i in range(m):
                        P = np.prod(l[:i]) if i else ref.LD(1)
                        terms = [P * np.exp(-l[a] * ref.LD(t)) / np.prod([l[b] - l[a] for b in range(i + 1) if b != a] or [ref.LD(1)]) for a in range(i + 1)]
                        want = sum(terms)
                        mag = float(sum(abs(x) for x in terms))
                        # relative error of e^{-lambda t} in double precision
                        mag *= 1 + float(max(l[:i + 1])) * 1e-3
                        c.close(got[k, i], n0 * want, 1e-13, f"species {i} at t={t:g}", scale=n0 * mag + 1e-300)
                if n0 == 1.0:
                    # the analytic formula itself against the exponential
                    for k, t in enumerate(TIMES[:4]):
                        if max(lam) * t > 50:
                            continue
                        E = ref.expm(np.asarray(B) * float(t))[:, 0]
                        mags = [float(sum(abs(np.prod(l[:i]) * np.exp(-l[a] * ref.LD(t)) / np.prod([l[b] - l[a] for b in range(i + 1) if b != a] or [ref.LD(1)])) for a in range(i + 1))) for i in range(m)]
                        for i in range(m):
                            c.close(got[k, i], E[i], 1e-12, f"species {i} at t={t:g} against the exponential", scale=mags[i] + 1e-15)
    for bad in (np.array([[-1.0, 0], [0.5, -2.0]]), np.array([[-1.0, 0, 0], [1.0, -2.0, 0], [0, 1.0, -3.0]])):
        cid = f"not a chain,{len(bad)}"
        if rec.want(cid):
            with rec.case(cid) as c:
                try:
                    analytic_bateman_single_parent(TIMES, bad, 1.0)
                except AssertionError:
                    pass
                else:
                    c.fail("a matrix that is not a single chain is accepted")


def solve(rec, tier):
    """the shipped chains through the integrators: densities as the exponential, conserved without leaks"""
    import jax.numpy as jnp
    from ormatex_py.progression import bateman_sys as b
    from ormatex_py import integrate_wrapper
    h = np.log(2.)
    libs = {"chain3": (["c_0", "c_1", "c_2"], {"c_0": ("c_1", 1e-1), "c_1": ("c_2", 1e1), "c_2": ("none", 1e-3)}),
            "test": (["c_0", "c_1", "c_2"], b.decay_lib_test),
            "xenon": (["te_135", "i_135", "xe_135", "cs_135"], b.decay_lib_1),
            "closed": (["a", "b", "c"], {"a": (("b", 1.0), ("c", 0.3)), "b": ("c", 20.0), "c": ("a", 0.05)}),
            "all": (list(b.decay_lib_1), b.decay_lib_1)}
    methods = ["epi2", "epi3", "exprb2", "exprb3", "exp1", "exp3", "exp2_dense", "exp3_dense", "exprb2_dense", "exprb2_pfd", "exp_pfd", "epi2_leja_re"]
    for ln, (km, lib) in libs.items():
        with contextlib.redirect_stdout(io.StringIO()):
            S = b.TestBatemanSysJac(km, lib)
        rows = []
        for k in km:
            prs = lib[k] if isinstance(lib[k][0], tuple) else (lib[k],)
            rows.append([(None if ch == "none" else km.index(ch), lam) for ch, lam in prs])
        M, leak = expected(rows, len(km))
        n = len(km)
        cid = f"{ln},operators"
        if rec.want(cid):
            with rec.case(cid) as c:
                for u in (np.eye(n)[0], np.cos(np.arange(n)), np.zeros(n)):
                    uj = jnp.asarray(u)
                    c.close(np.asarray(S.frhs(0.3, uj)), M @ u, 1e-14, "rhs", scale=np.max(np.abs(M)))
                    J = S.fjac(0.3, uj)
                    c.close(np.asarray(J.matvec(jnp.ones(n))), M.sum(axis=1), 1e-14, "Jacobian", scale=np.max(np.abs(M)))
                    c.close(np.asarray(J._fdt()), np.zeros(n), 0.0, "time derivative")
                    c.close(np.asarray(S.fl(0.3, uj).dense()), M, 1e-15, "linear operator", scale=np.max(np.abs(M)))
        for dt in (0.01, 0.5, 10.0):
            for m in methods:
                cid = f"{ln},{m},dt={dt:g}"
                if not rec.want(cid) or ("leja" in m and dt * np.max(np.abs(M)) > 150):
                    continue
                with rec.case(cid) as c:
                    y0 = np.arange(1.0, n + 1) * (np.arange(n) % 2 == 0)
                    with contextlib.redirect_stdout(io.StringIO()):
                        res = integrate_wrapper.integrate(S, jnp.asarray(y0), 0.0, dt, 4, m, max_krylov_dim=12, iom=12)
                    E = ref.expm(M * dt)
                    y = ref.ld(y0)
                    tol = 1e-9 if "pfd" in m or "leja" in m else 4e-6
                    for k in range(5):
                        got = np.asarray(res.y_res[k])
                        c.close(got, y, tol, f"densities after {k} steps", scale=float(np.sum(y0)))
                        c.true(np.min(got) > -tol * np.sum(y0), "negative density")
                        if not leak.any():
                            c.close(float(np.sum(got)), float(np.sum(y0)), tol, "sum", scale=float(np.sum(y0)))
                        y = E @ y
