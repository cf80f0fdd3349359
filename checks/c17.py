"""C17: reaction and mass transfer terms conserve what they move; species are stacked consistently"""
import itertools
import contextlib
import io
import numpy as np
from mc import ref
from checks import c15, c16
from checks.c16 import assemble, mesh_of, order_of, const, VERT

LEVEL = "exploration"
RULE = ("every law on every combination of the alphabets of its arguments against the documented formula, antisymmetry and equilibrium; every species system on every combination of mesh, order, "
        "boundary condition, coefficients and state against an independent model of transport and reactions, node by node; stacking for every number of nodes and species; "
        "non-trivial: some concentration is not zero")
BOUNDS = ("concentrations 0, 1e-16, 1e-6, 0.5, 3, 80; 3 values of every parameter; nonlinear Bateman: all 3^9 states, 3 fluxes, 3 tank volumes; species systems 2, 3, 9: 7 meshes, orders 1..4, "
          "Dirichlet and periodic, 3 coefficient sets, 5 state families and all node-local states of the 2 and 3 species systems; stacking: 1..6 nodes x 1..9 species; predator-prey: 81 parameter sets x 36 states x 4 times")
ASSUME = ["the numerical constants of the species libraries are read from the modules' tables, the laws and profiles are written out in the harness"]

R = 8.3145
U = (0.0, 1e-16, 1e-6, 0.5, 3.0, 80.0)


def jobs(tier):
    out = [("rad-9-%s" % b, "rad", dict(ns=9, bc=b)) for b in ("dirichlet", "periodic")]
    out += [("rad-%d-%s" % (n, b), "rad", dict(ns=n, bc=b)) for n in (3, 2) for b in ("dirichlet", "periodic")]
    out += [("solve", "solve", {}), ("laws", "laws", {}), ("nonlinear-bateman", "nonlin", {}), ("predator", "predator", {}), ("stacking", "stacking", {})]
    return out


def mxf_nonlin(ua, ug, k, kg, ka, ks=1e-12):
    return k * (np.maximum(ug, 1e-16) ** (2 / 3.) + ks) * (kg * ug - ka * ua)


def area(ug, cvol, alpha, nb, ak=0.1, T=900., Pr=101.3e3):
    vol = cvol * alpha / nb + ak * (cvol * ug / (Pr * 1e-6)) * R * T / nb
    r = (0.75 * vol / np.pi) ** (1 / 3.)
    return nb * 4 * np.pi * r * r


def laws(rec, tier):
    import jax.numpy as jnp
    from ormatex_py.progression import species_source_sink as s
    G = np.array(list(itertools.product(U, repeat=2)))
    ua, ug = jnp.asarray(G[:, 0]), jnp.asarray(G[:, 1])
    na, ng = G[:, 0], G[:, 1]
    K = (1e-2, 1.0, 40.0)

    def chk(cid, f):
        if rec.want(cid):
            with rec.case(cid) as c:
                f(c)
    j = jnp.asarray

    def eq(c, got, want, sc, msg="rate"):
        c.equal(np.shape(got), np.shape(want), "shape")
        c.close(np.asarray(got) / sc, want / sc, 1e-13, msg, scale=1.0)

    for k, kg, ka, a in itertools.product(K, K, K, (1.0, 5.0, 0.1)):
        def lin(c):
            sc = k * a * (kg * ng + ka * na) + 1e-300
            eq(c, s.mxf_liq_vapor_lin(ua, ug, k=j(k), k_g=j(kg), k_a=j(ka), a=j(a)), k * a * (kg * ng - ka * na), sc)
            e = s.mxf_liq_vapor_lin(j(na * kg), j(na * ka), k=j(k), k_g=j(kg), k_a=j(ka), a=j(a))
            c.true(np.all(np.abs(np.asarray(e)) <= 1e-14 * k * a * kg * ka * na), "equilibrium")
        chk(f"lin,{k:g},{kg:g},{ka:g},{a:g}", lin)

        def non(c):
            ks = 1e-12 * a
            sc = k * (np.maximum(ng, 1e-16) ** (2 / 3.) + ks) * (kg * ng + ka * na) + 1e-300
            eq(c, s.mxf_liq_vapor_nonlin(ua, ug, j(k), j(kg), j(ka), j(ks)), mxf_nonlin(na, ng, k, kg, ka, ks), sc)
            e = s.mxf_liq_vapor_nonlin(j(na * kg), j(na * ka), j(k), j(kg), j(ka), j(ks))
            c.true(np.all(np.abs(np.asarray(e)) <= 1e-14 * k * kg * ka * na * (np.maximum(na * ka, 1e-16) ** (2 / 3.) + ks)), "equilibrium")
        chk(f"nonlin,{k:g},{kg:g},{ka:g},{a:g}", non)
    for cvol, alpha, nb, T in itertools.product((1.0, 100.0, 0.3), (0.01, 0.05, 0.3), (10.0, 1.0, 400.0), (900.0, 300.0)):
        def ar(c):
            got = s.bubble_surface_area(ug, j(cvol), alpha_g=j(alpha), nb=j(nb), T=j(T))
            want = area(ng, cvol, alpha, nb, T=T)
            eq(c, got, want, want, "surface area")
            c.true(np.all(np.asarray(got) > 0), "positive")
            for ak, pr in ((0.1, 101.3e3), (1.0, 101.3e3), (0.1, 2e5)):
                got = s.bubble_surface_area(ug, j(cvol), alpha_g=j(alpha), nb=j(nb), T=j(T), a_k=j(ak), P=j(pr))
                want = area(ng, cvol, alpha, nb, ak, T, pr)
                eq(c, got, want, want, "surface area with all parameters")
        chk(f"area,{cvol:g},{alpha:g},{nb:g},{T:g}", ar)

        def bub(c):
            for k, h in ((1e-2, 1e-4), (3.0, 2e-3)):
                got = s.mxf_liq_vapor_bubble_ig(ua, ug, j(cvol), alpha_g=j(alpha), k=j(k), h=j(h), nb=j(nb), T=j(T))
                ab = area(ng, cvol, alpha, nb, T=T)
                want = k * ab * (ng / alpha * h * R * T - na / (1 - alpha))
                eq(c, got, want, k * ab * (ng / alpha * h * R * T + na / (1 - alpha)) + 1e-300)
                e = s.mxf_liq_vapor_bubble_ig(j(ng / alpha * h * R * T * (1 - alpha)), ug, j(cvol), alpha_g=j(alpha), k=j(k), h=j(h), nb=j(nb), T=j(T))
                c.true(np.all(np.abs(np.asarray(e)) <= 1e-13 * k * ab * ng / alpha * h * R * T), "equilibrium (Henry's law)")
        chk(f"bubble,{cvol:g},{alpha:g},{nb:g},{T:g}", bub)
    for al, k, a in itertools.product((0.01, 0.2, 1.0), (1e-4, 2.0), (1.0, 7.0)):
        def dif(c):
            eq(c, s.mxf_diffusion_sorption(ua, ug, j(al), k=j(k), a=j(a)), -k * a * (na - ng / al), k * a * (na + ng / al) + 1e-300)
            e = s.mxf_diffusion_sorption(j(ng / al), ug, j(al), k=j(k), a=j(a))
            c.true(np.all(np.abs(np.asarray(e)) <= 1e-14 * k * a * ng / al), "equilibrium")
        chk(f"sorption,{al:g},{k:g},{a:g}", dif)
    for e, ap, ma, mb, T in itertools.product((0.0, 1e3, 5e4), (1.0, 1e6), (1.0, 2.0, 0.5), (1.0, 3.0), (900.0, 300.0)):
        def arr(c):
            want = na ** ma * ng ** mb * ap * np.exp(-e / (R * T))
            eq(c, s.mxf_arrhenius(ua, ug, j(e), j(ap), j(ma), j(mb), j(T)), want, np.abs(want) + 1e-300)
        chk(f"arrhenius,{e:g},{ap:g},{ma:g},{mb:g},{T:g}", arr)
    # default arguments
    def dfl(c):
        eq(c, s.mxf_liq_vapor_lin(ua, ug), 1e-2 * (ng - na), 1e-2 * (ng + na) + 1e-300, "linear")
        eq(c, s.mxf_liq_vapor_nonlin(ua, ug), mxf_nonlin(na, ng, 1e-2, 1, 1), mxf_nonlin(-na, ng, 1e-2, 1, 1) + 1e-300, "nonlinear")
        ab = area(ng, 2.0, .01, 10.)
        eq(c, s.bubble_surface_area(ug, 2.0), ab, ab, "area")
        eq(c, s.mxf_liq_vapor_bubble_ig(ua, ug, 2.0), 1e-2 * ab * (ng / .01 * 1e-4 * R * 900. - na / .99), 1e-2 * ab * (ng + na) * 100 + 1e-300, "bubble")
        eq(c, s.mxf_diffusion_sorption(ua, ug, 0.5), -1e-4 * (na - 2 * ng), 1e-4 * (na + 2 * ng) + 1e-300, "sorption")
        w = na * ng * 2.0 * np.exp(-1e3 / (R * 900))
        eq(c, s.mxf_arrhenius(ua, ug, 1e3, 2.0), w, w + 1e-300, "arrhenius")
    chk("defaults", dfl)


def stacking(rec, tier):
    import jax.numpy as jnp
    from ormatex_py import ode_utils
    mods = {"utils": ode_utils}
    from ormatex_py.progression import rad_1d_2s
    if hasattr(rad_1d_2s, "stack_u"):
        mods["rad2"] = rad_1d_2s
    for mn, m in mods.items():
        for N in range(1, 7):
            for n in range(1, 10):
                cid = f"{mn},{N}x{n}"
                if not rec.want(cid):
                    continue
                with rec.case(cid, N * n > 1) as c:
                    u = np.arange(N * n, dtype=float) + 1
                    W = np.asarray(m.stack_u(jnp.asarray(u), n))
                    c.equal(W.shape, (N, n), "one row per node, one column per species")
                    for i in range(n):
                        c.same(W[:, i], u[i * N:(i + 1) * N], f"species {i} is a contiguous block")
                    c.same(np.asarray(m.flatten_u(jnp.asarray(W))), u, "flatten after stack")
                    V = np.cos(np.arange(N * n)).reshape(N, n)
                    f = np.asarray(m.flatten_u(jnp.asarray(V)))
                    c.equal(f.shape, (N * n,), "shape")
                    c.same(f, np.concatenate([V[:, i] for i in range(n)]), "flatten")
                    c.same(np.asarray(m.stack_u(jnp.asarray(f), n)), V, "stack after flatten")


def lib_matrix(keymap, lib):
    rows = []
    for k in keymap:
        prs = lib[k] if isinstance(lib[k][0], tuple) else (lib[k],)
        rows.append([(None if ch == "none" else keymap.index(ch), lam) for ch, lam in prs])
    return c15.expected(rows, len(keymap))


def reaction(ns, m, un, xs):
    """the reactions of the species systems at every node; un[node, species]"""
    if ns == 2:
        B, _ = lib_matrix(["u_0", "u_1"], m.decay_lib)
        s = mxf_nonlin(un[:, 0], un[:, 1], 2.0, 1.0, 1.0)
        out = un @ B.T
        out[:, 0] += s
        out[:, 1] -= s
        return out
    if ns == 3:
        B, _ = lib_matrix(m.keymap, m.decay_lib)
        return un @ B.T
    B, _ = lib_matrix(m.keymap, m.decay_lib)
    T, _ = lib_matrix(m.keymap, m.transmute_lib)
    F, _ = lib_matrix(m.keymap, m.fission_lib)
    phi = np.where((xs >= 0) & (xs <= 1), np.cos(np.pi * (xs - 0.5)), 0.0)
    out = un @ B.T + phi[:, None] * (un @ (-T).T) + phi[:, None] * np.diag(-F)[None, :]
    for a, g, k in ((5, 7, 1e4), (6, 8, 900.)):
        s = mxf_nonlin(un[:, a], un[:, g], k, 1.0, 1.0)
        out[:, a] += s
        out[:, g] -= s
    w = 0.4
    prof = 0.5 - np.tanh((xs - 3.8) * 10) * np.tanh((xs - 4.2) * 10) / 2
    for g in (7, 8):
        out[:, g] -= 0.40 * w * un[:, g] * prof
    return out


def dtransfer(ua, ug, va, vg, k, ks=1e-12):
    g = np.maximum(ug, 1e-16)
    return k * ((2 / 3.) * g ** (-1 / 3.) * np.where(ug > 1e-16, vg, 0.) * (ug - ua) + (g ** (2 / 3.) + ks) * (vg - va))


def dreaction(ns, m, un, v, xs):
    """derivative of the reactions at un in the direction v: the linear part plus the derivative of the transfer terms"""
    out = reaction(ns, m, v, xs) - reaction(ns, m, 0 * v, xs)
    pairs = {2: ((0, 1, 2.0),), 3: (), 9: ((5, 7, 1e4), (6, 8, 900.))}[ns]
    for a, g, k in pairs:
        s = dtransfer(un[:, a], un[:, g], v[:, a], v[:, g], k) - mxf_nonlin(v[:, a], v[:, g], k, 1.0, 1.0)
        out[:, a] += s
        out[:, g] -= s
    return out


def module(ns):
    """the modules create an output directory in the working directory when imported; workers run in a scratch directory"""
    import importlib
    return importlib.import_module(f"ormatex_py.progression.rad_1d_{ns}s")


VEC = dict(VERT, reactor=[0., .5, 1., 2., 3.9, 4.1, 5.0])


def states(N, n):
    i, j = np.meshgrid(np.arange(N), np.arange(n), indexing="ij")
    return {"ones": np.ones((N, n)), "zero": np.zeros((N, n)), "mix": 1 + np.cos(1.3 * i + 2.1 * j), "trace": 1e-16 * (1 + i + j), "one species": (j == (n - 1) // 2) * (1.0 + i), "signs": np.sin(2 * i + j)}


def rad(rec, tier, ns, bc):
    import jax.numpy as jnp
    from ormatex_py.progression import advection_diffusion_1d as ad
    m = module(ns)
    per = bc == "periodic"
    c16.VERT.setdefault("reactor", VEC["reactor"])
    for mn in ("one", "two", "graded", "wide", "shifted", "unsorted", "reactor"):
        if per and mn == "one":
            continue
        vs = np.sort(VEC[mn])
        mesh = mesh_of(mn, per)
        for p in (1, 2, 3, 4):
            for vel, nu, tau in ((0.5, 5e-3, 0.), (0., 0., 0.), (-0.8, 0.2, 0.05)):
                S = None
                for sn in states(1, 1):
                    cid = f"{mn},p{p},vel={vel:g},{sn}"
                    if not rec.want(cid):
                        continue
                    with rec.case(cid, sn != "zero") as c:
                        if S is None:
                            sem = ad.AdDiffSEM(mesh, p=p, params={"nu": nu, "vel": vel, "tau": tau})
                            S = m.RAD_SEM(sem)
                            X, Ar, Mr, br = assemble(VEC[mn], p, per, const(vel), const(nu), const(tau))
                            xs = np.asarray(sem.collocation_points())
                            o = order_of(xs, X, vs[-1] - vs[0], per)
                            inv = np.argsort(o)
                            N = len(X)
                            L = -Ar / Mr[:, None]
                        un = states(N, ns)[sn]
                        want = L @ un + reaction(ns, m, un, xs[o])
                        if not per:
                            want[0] = 0
                        u = un[inv].reshape(-1, order="F")
                        got = np.asarray(S.frhs(0.4, jnp.asarray(u)))
                        c.equal(got.shape, (N * ns,), "shape")
                        G = got.reshape(N, ns, order="F")[o]
                        rate = 1e4 if ns == 9 else 100.0
                        amp = (float(np.max(np.abs(L))) * N + rate * (1 + np.max(np.abs(un)) ** (2 / 3.))) * float(np.max(np.abs(un))) + (1e-3 if ns == 9 else 0) + 1e-300
                        c.close(G / amp, want / amp, 1e-13, "right-hand side (node, species)", scale=1.0)
                        if vel == 0 and ns != 9:
                            # no transport: every node on its own
                            for k in range(N):
                                if not per and k == 0:
                                    continue
                                un2 = np.tile(un[k], (N, 1))
                                g2 = np.asarray(S.frhs(0.4, jnp.asarray(un2.reshape(-1, order="F")))).reshape(N, ns, order="F")[o]
                                c.close(g2[k] / amp, G[k] / amp, 1e-13, f"node {k} depends on other nodes", scale=1.0)
                        if sn == "mix":
                            with contextlib.redirect_stdout(io.StringIO()):
                                Lm = np.asarray(S.fl(0.4, jnp.asarray(u)).dense())
                            want_L = np.kron(np.eye(ns), (L[np.ix_(inv, inv)]))
                            c.close(Lm, want_L, 1e-12, "linear operator", scale=float(np.max(np.abs(L))) + 1e-300)
                            v = np.cos(3. * np.arange(N * ns) + 1).reshape(N, ns)
                            d = dreaction(ns, m, un, v, xs[o])
                            Jw = L @ v + d
                            if not per:
                                Jw[0] = 0
                            with contextlib.redirect_stdout(io.StringIO()):
                                Jv = np.asarray(S.fjac(0.4, jnp.asarray(u)).matvec(jnp.asarray(v[inv].reshape(-1, order="F")))).reshape(N, ns, order="F")[o]
                            c.close(Jv, Jw, 1e-12, "Jacobian", scale=amp + rate * (1 + float(np.max(np.abs(un)))))
                # every local state at all nodes
                if ns == 9 or S is None or mn not in ("two", "wide") or vel:
                    continue
                for loc in itertools.product(U, repeat=ns):
                    cid = f"{mn},p{p},local " + ",".join(f"{x:g}" for x in loc)
                    if not rec.want(cid):
                        continue
                    with rec.case(cid, any(loc)) as c:
                        un = np.tile(np.array(loc), (N, 1))
                        want = reaction(ns, m, un, xs[o])
                        if not per:
                            want[0] = 0
                        G = np.asarray(S.frhs(0.4, jnp.asarray(un.reshape(-1, order="F")))).reshape(N, ns, order="F")[o]
                        amp = 100.0 * (1 + max(loc) ** (2 / 3.)) * max(loc) + 1e-300
                        c.close(G / amp, want / amp, 1e-14, "reaction", scale=1.0)
                        if ns == 2:
                            B, leak = lib_matrix(["u_0", "u_1"], m.decay_lib)
                            c.close(G[-1].sum() / amp, -(leak @ np.array(loc)) / amp, 1e-14, "sum of the species", scale=1.0)


def solve(rec, tier):
    """the linear three species system: product of transport and decay (both exponentials)"""
    import jax.numpy as jnp
    from ormatex_py.progression import advection_diffusion_1d as ad
    from ormatex_py.integrate_wrapper import integrate
    m = module(3)
    for mn, p, per, vel, nu in (("two", 2, True, .5, .01), ("graded", 2, False, -.4, .02), ("four", 3, True, .5, 0.), ("two", 1, False, .5, 0.)):
        sem = ad.AdDiffSEM(mesh_of(mn, per), p=p, params={"nu": nu, "vel": vel})
        S = m.RAD_SEM(sem)
        X, Ar, Mr, br = assemble(VERT[mn], p, per, const(vel), const(nu), const(0.))
        vs = np.sort(VERT[mn])
        o = order_of(sem.collocation_points(), X, vs[-1] - vs[0], per)
        inv = np.argsort(o)
        N = len(X)
        L = -Ar / Mr[:, None]
        B, leak = lib_matrix(m.keymap, m.decay_lib)
        J = np.kron(np.eye(3), L) + np.kron(B, np.eye(N))
        if not per:
            J[[0, N, 2 * N]] = 0
        y0 = np.stack([np.exp(-((X - .4) / .3) ** 2), .1 + 0 * X, 0 * X], axis=1)
        for meth in ("epi2", "exprb3", "exprb2_dense", "exprb2_pfd"):
            for dt in (0.02, 0.1):
                cid = f"{mn},p{p},{'per' if per else 'dir'},{meth},dt={dt:g}"
                if not rec.want(cid):
                    continue
                with rec.case(cid) as c:
                    with contextlib.redirect_stdout(io.StringIO()):
                        r = integrate(S, jnp.asarray(y0[inv].reshape(-1, order="F")), 0.0, dt, 3, meth, max_krylov_dim=3 * N + 3, iom=3 * N + 3)
                    E = ref.expm(J * dt)
                    y = ref.ld(y0.reshape(-1, order="F"))
                    for k in range(4):
                        got = np.asarray(r.y_res[k]).reshape(N, 3, order="F")[o]
                        c.close(got, y.reshape(N, 3, order="F"), 4e-6, f"state after {k} steps", scale=1 + dt * float(np.max(np.sum(np.abs(J), axis=1))))
                        y = E @ y


def nonlin(rec, tier):
    import jax
    import jax.numpy as jnp
    from ormatex_py.progression import bateman_nonlin_sys as b
    km = b.keymap
    B, leak = lib_matrix(km, b.decay_lib)
    T, _ = lib_matrix(km, b.transmute_lib)
    F, _ = lib_matrix(km, b.fission_lib)
    ia, ig = km.index("xe_135_a"), km.index("xe_135_v")
    G = np.array(list(itertools.product((0.0, 1e-6, 2.0), repeat=len(km))))
    for phi, vol in itertools.product((1e9, 0.0, 3e10), (100.0, 1.0, 7e3)):
        S = b.NonlinearBateman(n_phi=phi, tank_vol=vol)
        cid = f"phi={phi:g},vol={vol:g}"
        f = jax.vmap(lambda u: S.frhs(0.0, u))
        got = np.asarray(f(jnp.asarray(G)))
        ab = area(G[:, ig], vol, 0.05, 10.)
        s = 1e-2 * ab * (G[:, ig] / .05 * 1e-4 * R * 900. - G[:, ia] / .95)
        want = G @ B.T + phi * (G @ (-T).T) + phi * np.diag(-F)[None, :]
        want[:, ia] += s
        want[:, ig] -= s
        total = -(G @ leak) - phi * (np.sum(G @ T.T, axis=1)) - phi * np.sum(np.diag(F))
        for k, u in enumerate(G):
            if k % 9 != 0 and not rec.only:
                # compared in blocks of nine states; a failing block is reported by its first state
                continue
            c2 = f"{cid}," + ",".join(f"{x:g}" for x in u)
            if not rec.want(c2):
                continue
            with rec.case(c2, bool(np.any(u))) as c:
                sl = slice(k, k + 9)
                amp = (np.max(np.abs(G[sl]), axis=1) * (3 + np.abs(ab[sl]) * 17) + phi * 1e-9)[:, None] + 1e-300
                c.close(got[sl] / amp, want[sl] / amp, 1e-13, "right-hand side", scale=1.0)
                c.close(got[sl].sum(axis=1) / amp[:, 0], total[sl] / amp[:, 0], 1e-13, "balance of all species", scale=1.0)
        rec.add("states_compared", len(G))
        c2 = f"{cid},operators"
        if rec.want(c2):
            with rec.case(c2) as c:
                for u in G[::97]:
                    c.close(np.asarray(S.fl(0., jnp.asarray(u)).dense()), B, 1e-15, "linear operator")
    c2 = "source,other species"
    if rec.want(c2):
        with rec.case(c2) as c:
            for i, g in itertools.permutations(range(5), 2):
                u = np.array([.3, 1., 2., .5, .7])
                s = np.asarray(b.srcf_xe_av(jnp.asarray(u), i, g, 0.1, 50.0))
                w = 1e-2 * area(u[g], 50., .1, 10.) * (u[g] / .1 * 1e-4 * R * 900. - u[i] / .9)
                e = np.zeros(5)
                e[i], e[g] = w, -w
                c.close(s, e, 1e-13, f"transfer {i} to {g}", scale=abs(w))


def predator(rec, tier):
    import jax
    import jax.numpy as jnp
    from ormatex_py.progression import lotka_volterra as lv
    from ormatex_py.ode_sys import OdeSysNp
    X = np.array(list(itertools.product((0.0, 0.1, 0.7, 1.0, 3.0, 40.0), repeat=2)))
    vals = (1.0, 0.3, 2.5)
    for par in itertools.product(vals, repeat=4):
        a, b, d, g = par
        for kind, cls in (("auto", lv.LotkaVolterra), ("nonauto", lv.LotkaVolterraNonauto)):
            cid = f"{kind}," + ",".join(map(str, par))
            if not rec.want(cid):
                continue
            with rec.case(cid) as c:
                S = cls(alpha=a, beta=b, delta=d, gamma=g)
                F = jax.jit(jax.vmap(lambda t, x: S.frhs(t, x), in_axes=(None, 0)))
                Jm = jax.jit(jax.vmap(lambda t, x: (S.fjac(t, x).dense(), S.fjac(t, x)._fdt(), S.fl(t, x).dense()), in_axes=(None, 0)))
                for t in (0.0, 1.0, 7.3, -2.0):
                    hunt = 0.0 if kind == "auto" else 0.4 * (np.sin(.2 * t) + 1)
                    hdt = 0.0 if kind == "auto" else .08 * np.cos(.2 * t)
                    x, y = X[:, 0], X[:, 1]
                    want = np.stack([a * x - b * x * y, d * x * y - g * y - hunt * y], axis=1)
                    got = np.asarray(F(t, jnp.asarray(X)))
                    c.close(got, want, 1e-13, f"right-hand side at t={t:g}", scale=2.5 * 1641)
                    J, ft, L = Jm(t, jnp.asarray(X))
                    wj = np.stack([np.stack([a - b * y, -b * x], axis=1), np.stack([d * y, d * x - g - hunt], axis=1)], axis=1)
                    c.close(np.asarray(J), wj, 1e-13, "Jacobian", scale=100.)
                    c.close(np.asarray(ft), np.stack([0 * x, -hdt * y], axis=1), 1e-13, "time derivative", scale=10.)
                    c.close(np.asarray(L), np.tile(np.diag([a - 2 * b, -g]), (len(X), 1, 1)), 1e-14, "linear operator", scale=5.)
                    if kind == "auto":
                        k = (x > 0) & (y > 0)
                        dV = (d - g / x[k]) * got[k, 0] + (b - a / y[k]) * got[k, 1]
                        c.close(dV, 0 * dV, 1e-12, "conserved quantity of the predator-prey system", scale=1e4)
                # wrapper to flat numpy states
                if par in ((1.0,) * 4, (1.0, .3, 2.5, 1.0)):
                    W = OdeSysNp(S)
                    for x in X[::5]:
                        for shape in ((2,), (2, 1)):
                            r = W.frhs(0.3, jnp.asarray(x.reshape(shape)))
                            c.equal(np.shape(r), (2,), "shape of the wrapped right-hand side")
                            c.true(isinstance(r, np.ndarray), "the wrapped right-hand side is a numpy array")
                            c.close(r, np.asarray(S.frhs(0.3, jnp.asarray(x))), 1e-15, "wrapped right-hand side")
                            J = W.fjac(0.3, jnp.asarray(x.reshape(shape)))
                            c.close(J.matvec_npcompat(np.array([1., 2.])), np.asarray(S.fjac(0.3, jnp.asarray(x)).dense()) @ [1., 2.], 1e-14, "wrapped Jacobian")
