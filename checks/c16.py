"""C16: the spectral element advection-diffusion discretization is consistent"""
import itertools
import contextlib
import io
import numpy as np
from numpy.polynomial import legendre, polynomial as P
from mc import ref
import logging
logging.disable(logging.WARNING)

LEVEL = "exploration"
RULE = ("every combination of mesh, polynomial order, boundary condition, diffusivity, velocity and stabilization: the assembled operator is compared entry by entry with an independent "
        "assembly (own Gauss-Lobatto rule and Lagrange basis), and the right-hand side with the exact advection-diffusion of every monomial the space contains; non-trivial: velocity or diffusivity non-zero")
BOUNDS = ("10 meshes (1..8 elements, uniform, non-uniform, unsorted vertices, other widths and origins), orders 1..4, Dirichlet/outflow and periodic, 5 velocities of both signs, 3 diffusivities, 3 SUPG scales (right-hand sides only where the lumped stabilized mass does not vanish), "
          "constant and space dependent coefficients; 8 integration methods on 6 of the systems; refinement sequences 4..32 elements")
ASSUME = ["skfem's mesh, mapping and sparse assembly are correct (they are checked together with the library's kernels)",
          "the left end is a Dirichlet boundary whatever the sign of the velocity, the right end is an outflow boundary (documented)"]

VEL = (0.5, -0.3, 0.0, 2.0, -1.0)
NU = (0.0, 5e-3, 1.0)
TAU = (0.0, 0.05, 0.3)
VERT = {"one": [0., 1.], "two": [0., .5, 1.], "four": [0., .25, .5, .75, 1.], "eight": list(np.arange(9) / 8), "graded": [0., .1, .3, .7, 1.], "wide": [0., 1.25, 2.5, 3.75, 5.0], "shifted": [-1., -.2, .4, 3.],
        "unsorted": [0., 2.0, .5, 1.2], "tiny": [0., 1e-3, 2.5e-3], "five": [0., .3, .4, .6, .65, 1.]}


def jobs(tier):
    out = [("solve", "solve", {}), ("refine", "refine", {})]
    for p in (1, 2, 3, 4):
        for bc in ("dirichlet", "periodic"):
            out.append((f"operator-{bc}-p{p}", "operator", dict(p=p, bc=bc)))
    out += [("fields", "fields", {}), ("basis", "basis", {}), ("nonautonomous", "nonauto", {}), ("source", "source", {})]
    return out


# ---------------------------------------------------------------------------------------------
# independent assembly
# ---------------------------------------------------------------------------------------------

def gll(p):
    """Gauss-Lobatto-Legendre nodes and weights on [-1,1], ascending"""
    c = np.zeros(p + 1)
    c[p] = 1
    x = np.concatenate([[-1.0], np.sort(np.real(legendre.legroots(legendre.legder(c)))) if p > 1 else [], [1.0]])
    w = 2 / (p * (p + 1) * legendre.legval(x, c) ** 2)
    return x, w


def diffmat(x):
    """D[k, j] = l_j'(x_k)"""
    n = len(x)
    D = np.zeros((n, n))
    for j in range(n):
        others = np.delete(x, j)
        c = P.polyfromroots(others) / np.prod(x[j] - others)
        D[:, j] = P.polyval(x, P.polyder(c)) if n > 1 else 0
    return D


def assemble(verts, p, periodic, vel, nu, tau, src=None):
    """nodes, A, Ml, b of the scheme; vel, nu, tau, src functions of x"""
    v = np.sort(np.asarray(verts, float))
    ne = len(v) - 1
    x, w = gll(p)
    D = diffmat(x)
    N = ne * p + (0 if periodic else 1)
    A, M, b, X = np.zeros((N, N)), np.zeros((N, N)), np.zeros(N), np.zeros(N)
    for e in range(ne):
        h = v[e + 1] - v[e]
        g = [(e * p + k) % N for k in range(p + 1)]
        xe = v[e] + h * (x + 1) / 2
        we, De = w * h / 2, D * 2 / h
        for k in range(p + 1):
            vk, nk, tk = vel(xe[k]), nu(xe[k]), tau(xe[k])
            ts = tk * h / (2 * abs(vk)) if vk else 0.0
            for i in range(p + 1):
                vi, dvi = float(i == k), De[k, i]
                s = src(xe[k]) if src else 0.0
                b[g[i]] += we[k] * s * (vi + ts * vk * dvi)
                for j in range(p + 1):
                    uj, duj = float(j == k), De[k, j]
                    A[g[i], g[j]] += we[k] * (nk * duj * dvi - vk * uj * dvi + ts * vk * dvi * vk * duj)
                    M[g[i], g[j]] += we[k] * (uj * vi + ts * vk * dvi * uj)
        for k in range(p + 1):
            if not (periodic and e == ne - 1 and k == p):
                X[g[k]] = xe[k]
    if not periodic:
        A[N - 1, N - 1] += vel(v[-1])
        A[0], M[0], b[0] = 0, 0, 0
        A[0, 0] = M[0, 0] = 1
    return X, A, M.sum(axis=1), b


def mesh_of(name, periodic):
    import skfem as fem
    v = np.array(VERT[name])
    o = np.argsort(v)
    m = fem.MeshLine1(v[None, :], np.stack([o[:-1], o[1:]]))
    a, b = v.min(), v.max()
    tol = 1e-9
    m = m.with_boundaries({"left": lambda x: np.abs(x[0] - a) < tol, "right": lambda x: np.abs(x[0] - b) < tol})
    if periodic:
        m = fem.MeshLine1DG.periodic(m, m.boundaries["right"], m.boundaries["left"])
    return m


def order_of(xs, X, L, periodic):
    """permutation: library dof of each reference node"""
    xs = np.asarray(xs)
    out = []
    for x in X:
        d = np.abs(xs - x)
        if periodic:
            d = np.minimum(d, np.abs(d - L))
        k = int(np.argmin(d))
        if d[k] > 1e-10 * max(1.0, L):
            raise ValueError(f"no degree of freedom at {x}")
        out.append(k)
    if sorted(out) != list(range(len(xs))):
        raise ValueError("degrees of freedom do not match the nodes")
    return np.array(out)


def const(c):
    return lambda x: c


def meshes(bc, tier):
    return [m for m in VERT if not (bc == "periodic" and m in ("one",))]


def operator(rec, tier, p, bc):
    import jax.numpy as jnp
    from ormatex_py.progression import advection_diffusion_1d as ad
    per = bc == "periodic"
    for mn in meshes(bc, tier):
        mesh = mesh_of(mn, per)
        vs = np.sort(VERT[mn])
        L = vs[-1] - vs[0]
        for i, (vel, nu, tau) in enumerate(itertools.product(VEL, NU, TAU)):
            cid = f"{mn},vel={vel:g},nu={nu:g},tau={tau:g}"
            if not rec.want(cid):
                continue
            with rec.case(cid, vel != 0 or nu != 0) as c:
                sem = ad.AdDiffSEM(mesh, p=p, params={"nu": nu, "vel": vel, "tau": tau})
                A, Ml, b = sem.assemble()
                X, Ar, Mr, br = assemble(VERT[mn], p, per, const(vel), const(nu), const(tau))
                o = order_of(sem.collocation_points(), X, L, per)
                Ad = np.asarray(A.todense())[np.ix_(o, o)]
                sc = np.max(np.abs(Ar)) + 1e-300
                c.equal(Ad.shape, Ar.shape, "number of degrees of freedom")
                c.close(Ad, Ar, 1e-12, "assembled operator", scale=float(max(sc, abs(vel), nu)) + 1e-12)
                c.close(np.asarray(Ml)[o], Mr, 1e-13, "lumped mass", scale=float(np.max(np.abs(Mr))))
                c.true(np.all(np.asarray(b) == 0), "source")
                if np.min(np.abs(Mr)) < 0.02 * np.max(np.abs(Mr)):
                    continue              # the stabilized lumped mass (nearly) vanishes: no right-hand side
                if tier == "quick" and i % 3 != len(mn) % 3 and mn not in ("graded", "two"):
                    continue
                S = sem.ode_sys()
                n = len(X)
                free = np.ones(n, bool)
                if not per:
                    free[0] = False
                inv = np.argsort(o)

                def f(u):
                    return np.asarray(S.frhs(0.3, jnp.asarray(np.asarray(u, float)[inv])))[o]
                amp = float(np.max(np.abs(Ar) / Mr[:, None])) * n
                # constants, discrete conservation, linearity
                one = f(np.ones(n))
                c.close(one, np.zeros(n), 1e-12, "flux of a constant", scale=amp + 1e-300)
                us = [np.cos(1.0 + np.arange(n)), np.sin(2.0 * np.arange(n)) + 0.3, np.eye(n)[n // 2]]
                fs = [f(u) for u in us]
                c.close(f(us[0] - 2 * us[1] + 3 * us[2]), fs[0] - 2 * fs[1] + 3 * fs[2], 1e-12, "affine in the state", scale=6 * amp + 1e-300)
                for u, fu in zip(us, fs):
                    want = -Ar @ u / Mr
                    want[~free] = 0
                    c.close(fu, want, 1e-12, "right-hand side", scale=amp + 1e-300)
                    if per:
                        c.close(np.sum(Mr * fu), 0.0, 1e-12, "total mass", scale=amp * float(np.sum(Mr)) + 1e-300)
                if tau == 0.0:
                    # with a row for the boundary node the total mass changes by the boundary fluxes: sum_i M_i f_i = v u(a) - v u(b)
                    full = -(assemble(VERT[mn], p, True, const(vel), const(nu), const(0.0))[1]) if per else None
                    # polynomials
                    for deg in range(0, p + 1):
                        if per and deg > 0:
                            break
                        xi = (X - vs[0]) / L
                        u = xi ** deg
                        du = deg * xi ** max(deg - 1, 0) / L
                        d2 = deg * (deg - 1) * xi ** max(deg - 2, 0) / L ** 2
                        want = -vel * du + nu * d2
                        # natural condition at the outflow: minus the diffusive flux
                        want[-1] -= nu * du[-1] / Mr[-1]
                        want[0] = 0
                        c.close(f(u), want, 1e-11, f"monomial of degree {deg}", scale=amp + 1e-300)
                elif nu == 0.0 and not per:
                    xi = (X - vs[0]) / L
                    want = np.full(n, -vel / L)
                    want[0] = 0
                    c.close(f(xi), want, 1e-11, "linear function with stabilization", scale=amp + 1e-300)
                # operators
                Lm = np.asarray(S.fl(0.3, jnp.asarray(us[0])).dense())[np.ix_(o, o)]
                c.close(Lm, -Ar / Mr[:, None], 1e-12, "linear operator", scale=amp / n + 1e-300)
                J = S.fjac(0.3, jnp.asarray(us[0]))
                Jw = -Ar / Mr[:, None]
                Jw[~free] = 0
                Ju = np.asarray(J.matvec(jnp.asarray(us[1][inv])))[o]
                c.close(Ju, Jw @ us[1], 1e-12, "Jacobian", scale=amp + 1e-300)
                m = S.fm(0.3, jnp.asarray(us[0])) if hasattr(S, "fm") else None
                if m is not None:
                    c.close(np.asarray(m.matvec(jnp.asarray(us[1][inv])))[o], Mr * us[1], 1e-13, "mass operator")


def fields(rec, tier):
    """space dependent coefficients by field functions, with and without extra arguments"""
    import jax.numpy as jnp
    from ormatex_py.progression import advection_diffusion_1d as ad
    V = {"linear": lambda x: 0.5 + 0.3 * x, "change": lambda x: 0.4 - x, "sin": lambda x: np.sin(3 * x), "const": lambda x: 0.5 + 0 * x}
    U = {"const": lambda x: 0.1 + 0 * x, "quad": lambda x: 0.1 + x * x}
    for p in (1, 2, 3, 4):
        for bc in ("dirichlet", "periodic"):
            for mn in ("two", "four", "graded", "wide", "unsorted"):
                mesh = mesh_of(mn, bc == "periodic")
                # smooth on the closed interval; on a ring only what is periodic is a function of the position
                a0, L0 = float(np.min(VERT[mn])), float(np.ptp(VERT[mn]))
                V["wave"] = lambda x, a0=a0, L0=L0: 0.2 + 0.6 * np.sin(2 * np.pi * (x - a0) / L0 + .4)
                U["wave"] = lambda x, a0=a0, L0=L0: 0.2 + 0.1 * np.cos(2 * np.pi * (x - a0) / L0)
                for vn, un, tau, arg in itertools.product(V, U, (0.0, 0.3), (None, 0.7, -1.6)):
                    if bc == "periodic" and (vn not in ("const", "wave") or un == "quad"):
                        continue
                    if bc != "periodic" and "wave" in (vn, un):
                        continue
                    if arg is not None and (p > 2 or mn in ("wide", "two")):
                        continue
                    cid = f"{bc},p{p},{mn},vel={vn},nu={un},tau={tau:g}" + (f",arg={arg:g}" if arg is not None else "")
                    if not rec.want(cid):
                        continue
                    with rec.case(cid) as c:
                        # the coefficients may depend on extra arguments of assemble and ode_sys, and on the parameters
                        fn = {"vel": lambda x, amp=1.0, **kw: amp * V[vn](x), "nu": lambda x, amp=1.0, tau=0.0, **kw: (abs(amp) + tau) * U[un](x)}
                        sem = ad.AdDiffSEM(mesh, p=p, params={"tau": tau}, field_fns=fn)
                        kw = {} if arg is None else {"amp": arg}
                        g = 1.0 if arg is None else arg
                        A, Ml, b = sem.assemble(**kw)
                        X, Ar, Mr, br = assemble(VERT[mn], p, bc == "periodic", lambda x: g * V[vn](x), lambda x: (abs(g) + tau) * U[un](x), const(tau))
                        if arg is not None:
                            S = sem.ode_sys(**kw)
                            u = np.cos(np.arange(len(X)) + .5)
                            oo = order_of(sem.collocation_points(), X, np.ptp(VERT[mn]), bc == "periodic")
                            want = (br - Ar @ u) / Mr
                            if bc == "dirichlet":
                                want[0] = 0
                            got = np.asarray(S.frhs(0.0, jnp.asarray(u[np.argsort(oo)])))[oo]
                            c.close(got, want, 1e-12, "right-hand side of the system", scale=float(np.max(np.abs(Ar) / Mr[:, None])) * len(X))
                        vs = np.sort(VERT[mn])
                        o = order_of(sem.collocation_points(), X, vs[-1] - vs[0], bc == "periodic")
                        c.close(np.asarray(A.todense())[np.ix_(o, o)], Ar, 1e-12, "assembled operator", scale=float(np.max(np.abs(Ar))))
                        c.close(np.asarray(Ml)[o], Mr, 1e-12, "lumped mass", scale=float(np.max(np.abs(Mr))))


def source(rec, tier):
    """custom source terms: weighted as every other term, and the affine system with a non-zero forcing"""
    import jax.numpy as jnp
    from ormatex_py.progression import advection_diffusion_1d as ad
    F = {"const": lambda x: 2.0 + 0 * x, "linear": lambda x: 1.0 - 3 * x, "sin": lambda x: np.sin(4 * x)}
    old = ad.src_f
    try:
        for p in (1, 2, 3, 4):
            for bc in ("dirichlet", "periodic"):
                for mn in ("two", "graded", "unsorted", "five"):
                    for fnm, vel, tau in itertools.product(F, (0.5, -0.4, 0.0), (0.0, 0.07)):
                        cid = f"{bc},p{p},{mn},{fnm},vel={vel:g},tau={tau:g}"
                        if not rec.want(cid):
                            continue
                        with rec.case(cid) as c:
                            ad.src_f = lambda x, **kw: F[fnm](x[0])
                            per = bc == "periodic"
                            sem = ad.AdDiffSEM(mesh_of(mn, per), p=p, params={"nu": 0.01, "vel": vel, "tau": tau})
                            A, Ml, b = sem.assemble()
                            X, Ar, Mr, br = assemble(VERT[mn], p, per, const(vel), const(0.01), const(tau), F[fnm])
                            vs = np.sort(VERT[mn])
                            o = order_of(sem.collocation_points(), X, vs[-1] - vs[0], per)
                            c.close(np.asarray(b)[o], br, 1e-12, "source vector")
                            S = sem.ode_sys()
                            u = np.cos(np.arange(len(X)) + .5)
                            got = np.asarray(S.frhs(0.0, jnp.asarray(u[np.argsort(o)])))[o]
                            want = (br - Ar @ u) / Mr
                            if not per:
                                want[0] = 0
                            c.close(got, want, 1e-12, "right-hand side with a source", scale=float(np.max(np.abs(Ar) / Mr[:, None])) * len(X))
    finally:
        ad.src_f = old


def basis(rec, tier):
    """quadrature and the nodal element at every sequence of evaluation points"""
    from ormatex_py.progression import element_line_pp_nodal as el
    q = el.GLL_quad()
    for p in (1, 2, 3, 4):
        cid = f"quadrature,{p}"
        if rec.want(cid):
            with rec.case(cid) as c:
                X, W = q(p + 1)
                x, w = gll(p)
                X = np.asarray(X)
                c.equal(X.shape, (1, p + 1), "shape")
                o = np.argsort(X[0])
                c.close(X[0][o], (x + 1) / 2, 1e-14, "nodes")
                c.close(np.asarray(W)[o], w / 2, 1e-14, "weights")
                c.true(X[0][0] == 0 and X[0][1] == 1, "the vertices come first")
                for d in range(2 * p):
                    c.close(np.sum(W * X[0] ** d), 1 / (d + 1), 1e-14, f"degree {d}")
    sets = {"nodes": None, "a2": [0.1, 0.7], "b2": [0.3, 0.9], "ends": [0.0, 1.0], "a3": [0.2, 0.5, 0.8], "b4": [0.05, 0.3, 0.6, 0.99], "c4": [0.0, 0.2, 0.4, 1.0], "one": [0.4], "one2": [0.85], "b5": [0., .1, .5, .77, 1.]}
    for p in (1, 2, 3, 4):
        X = np.asarray(q(p + 1)[0])[0]
        polys = []
        for j in range(p + 1):
            oth = np.delete(X, j)
            polys.append(P.polyfromroots(oth) / np.prod(X[j] - oth))
        for seq in itertools.product(sets, repeat=2):
            cid = f"element,p{p}," + ",".join(seq)
            if not rec.want(cid):
                continue
            with rec.case(cid, seq[0] != seq[1]) as c:
                e = el.ElementLinePp_nodal(p)
                c.close(np.asarray(e.doflocs)[:, 0], X, 1e-15, "locations of the degrees of freedom")
                for k in seq:
                    y = X if sets[k] is None else np.array(sets[k])
                    for i in range(p + 1):
                        v, dv = e.lbasis(y[None, :], i)
                        c.close(np.asarray(v), P.polyval(y, polys[i]), 1e-12, f"basis function {i} at {k}")
                        c.close(np.asarray(dv)[0], P.polyval(y, P.polyder(polys[i])), 1e-11, f"derivative {i} at {k}")
    for p in (0, -1):
        cid = f"order {p}"
        if rec.want(cid):
            with rec.case(cid, False) as c:
                try:
                    el.ElementLinePp_nodal(p)
                except ValueError:
                    continue
                c.fail("order below one is accepted")


def gauss(x, t=0.0):
    d = np.abs(x % 1 - (0.3 + 0.5 * t) % 1)
    d = np.where(d > .5, 1 - d, d)
    return np.exp(-(d / 0.1) ** 2)


def nonauto(rec, tier):
    import jax.numpy as jnp
    from ormatex_py.progression import advection_diffusion_1d as ad
    for p in (1, 2, 3):
        for mn in ("two", "four", "graded"):
            sem = ad.AdDiffSEM(mesh_of(mn, False), p=p, params={"nu": 0.01, "vel": 0.5})
            S, S0 = ad.NonautonomousSEM(sem), sem.ode_sys()
            X, Ar, Mr, br = assemble(VERT[mn], p, False, const(.5), const(.01), const(0.))
            o = order_of(sem.collocation_points(), X, 1.0, False)
            inv = np.argsort(o)
            n = len(X)
            for t in (0.0, 0.3, 0.9, 1.3, 1.41, 1.5, 2.2):
                cid = f"p{p},{mn},t={t:g}"
                if not rec.want(cid):
                    continue
                with rec.case(cid) as c:
                    u = np.cos(np.arange(n) + .5)
                    got = np.asarray(S.frhs(t, jnp.asarray(u[inv])))[o]
                    want = -Ar @ u / Mr
                    h = 1e-5
                    want[0] = (gauss(0.0, t + h) - gauss(0.0, t - h)) / (2 * h)
                    c.close(got[1:], want[1:], 1e-12, "interior", scale=float(np.max(np.abs(Ar) / Mr[:, None])) * n)
                    c.close(got[0], want[0], 1e-7, "boundary data")
                    J = np.asarray(S.fjac(t, jnp.asarray(u[inv])).matvec(jnp.asarray(np.ones(n))))[o]
                    w = -Ar.sum(axis=1) / Mr
                    w[0] = 0
                    c.close(J, w, 1e-12, "Jacobian", scale=float(np.max(np.abs(Ar) / Mr[:, None])) * n)
    for i in range(21):
        for j in range(21):
            x, y = i / 8 - 1.0, j / 7 - 1.0
            cid = f"torus,{x:g},{y:g}"
            if rec.want(cid):
                with rec.case(cid) as c:
                    want = min(abs(x - y + k) for k in range(-4, 5))
                    c.close(float(ad.torus_distance(x, y)), want, 1e-14, "distance on the torus")


SOLVE = [("two", 2, False, .5, .05, 0.), ("graded", 3, False, -.4, .02, 0.), ("four", 1, True, .5, 0., 0.), ("five", 2, True, -1., .01, 0.1), ("four", 4, False, 0., .1, 0.), ("wide", 2, False, 2., .0, .2)]


def solve(rec, tier):
    """one and several steps of the integrators are the exponential of the assembled operator"""
    import jax.numpy as jnp
    from ormatex_py.progression import advection_diffusion_1d as ad
    from ormatex_py.integrate_wrapper import integrate
    meth = ("epi2", "exprb3", "exp1", "exp3", "exp2_dense", "exprb2_dense", "exprb2_pfd", "epi2_leja_im")
    for mn, p, per, vel, nu, tau in SOLVE:
        sem = ad.AdDiffSEM(mesh_of(mn, per), p=p, params={"nu": nu, "vel": vel, "tau": tau})
        S = sem.ode_sys()
        X, Ar, Mr, br = assemble(VERT[mn], p, per, const(vel), const(nu), const(tau))
        vs = np.sort(VERT[mn])
        o = order_of(sem.collocation_points(), X, vs[-1] - vs[0], per)
        inv = np.argsort(o)
        n = len(X)
        Lr = -Ar / Mr[:, None]
        if not per:
            Lr[0] = 0
        y0 = np.exp(-((X - X.mean()) / .2) ** 2) + (0.3 if not per else 0.0)
        for dt in (0.05, 0.2):
            E = ref.expm(Lr * dt)
            amp = float(np.max(np.sum(np.abs(np.asarray(E, float)), axis=1)))
            for m in meth:
                if rec.only is None and tier == "quick" and m in ("exprb3", "exp3", "epi2_leja_im") and mn not in ("two", "five"):
                    continue
                cid = f"{mn},p{p},{'per' if per else 'dir'},vel={vel:g},{m},dt={dt:g}"
                if not rec.want(cid):
                    continue
                with rec.case(cid) as c:
                    with contextlib.redirect_stdout(io.StringIO()):
                        r = integrate(S, jnp.asarray(y0[inv]), 0.0, dt, 3, m, max_krylov_dim=n + 3, iom=n + 3)
                    y = ref.ld(y0)
                    for k in range(4):
                        got = np.asarray(r.y_res[k])[o]
                        c.close(got, y, 4e-6 if "leja" not in m and "pfd" not in m else 1e-8, f"state after {k} steps", scale=amp * (1 + dt * float(np.max(np.sum(np.abs(Lr), axis=1)))))
                        if per:
                            c.close(np.sum(Mr * got), float(np.sum(Mr * y0)), 1e-6, "total mass")
                        else:
                            c.close(got[0], y0[0], 1e-12, "Dirichlet value")
                        y = E @ y


def refine(rec, tier):
    """smooth solutions converge with the mesh at the order of the scheme"""
    import jax.numpy as jnp
    import skfem as fem
    from ormatex_py.progression import advection_diffusion_1d as ad
    T = 0.3
    for p in (1, 2, 3, 4):
        for vel, nu, tau in ((.5, 0., 0.), (-.7, 0., 0.), (.5, .02, 0.), (-.7, .02, 0.), (0., .05, 0.), (.5, .01, .5), (-.5, .01, .5)):
            cid = f"p{p},vel={vel:g},nu={nu:g},tau={tau:g}"
            if not rec.want(cid):
                continue
            with rec.case(cid) as c:
                errs = []
                for ne in (4, 8, 16, 32):
                    m = fem.MeshLine1(np.linspace(0, 1, ne + 1)[None, :], np.stack([np.arange(ne), np.arange(1, ne + 1)])).with_boundaries({"left": lambda x: np.isclose(x[0], 0.), "right": lambda x: np.isclose(x[0], 1.)})
                    m = fem.MeshLine1DG.periodic(m, m.boundaries["right"], m.boundaries["left"])
                    sem = ad.AdDiffSEM(m, p=p, params={"nu": nu, "vel": vel, "tau": tau})
                    S = sem.ode_sys()
                    x = np.asarray(sem.collocation_points())
                    Lm = np.asarray(S.fl(0., jnp.asarray(x)).dense())
                    from scipy.linalg import expm
                    k = 2 * np.pi
                    y = expm(Lm * T) @ np.sin(k * x)
                    want = np.exp(-nu * k * k * T) * np.sin(k * (x - vel * T))
                    errs.append(float(np.max(np.abs(y - want))))
                rates = [np.log2(a / b) for a, b in zip(errs[:-1], errs[1:])]
                rec.note(f"p={p} vel={vel} nu={nu} tau={tau}: " + ", ".join("%.1e" % e for e in errs))
                need = 0.75 if tau else p - 0.3
                c.true(max(rates) > need or errs[-1] < 1e-10, f"errors {errs}, rates {rates}")
                c.true(errs[-1] < errs[0] and errs[-1] < 5e-2, f"errors {errs}")
