"""C13: Leja interpolation: converged means accurate; substeps cover the interval"""
import itertools
import contextlib
import io
import numpy as np
from mc import ref

LEVEL = "model_checking"
RULE = ("controller: every sequence of converged / not converged answers of the evaluation it drives, for every initial substep size, each run is checked "
        "against the specification of the controller and the exact propagator; evaluation: every region x operator x vector x step fraction x tolerance x "
        "number of leading zeros x number of points; non-trivial: at least one rejected substep, or a non-zero vector")
BOUNDS = ("answer sequences of length 10 (thorough 14, all prefixes included), 9 initial substep sizes, two controllers, with and without substeps; integrators: answer sequences "
          "over 3 steps; 20 regions (real, imaginary, elliptic; |a| up to 1000, c up to 100), 4 operators with their spectrum in the region each (two of them not normal), "
          "5 vectors, 3 step fractions, tolerances 1e-4, 1e-8, 1e-12, 0, 1, 2, 4 leading zeros, 12, 40 and 280 points")
ASSUME = ["the answers of the evaluation are replaced by a stub that returns the exact propagator or, when it reports no convergence, NaN",
          "accurate: error <= (100 tol + 2e-13 max(1, scale)) * |u| for normal operators; the constant covers the geometric averaging of the error estimate"]

TAUS = (0.01, 0.07, 0.2, 0.5, 0.7, 0.999, 1.0, 1.1, 3.0)


def jobs(tier):
    out = [("regions-280-%d" % z, "regions", dict(n=280, zeros=z)) for z in (0, 2, 4)]
    out += [("stiff-steps", "stiff", {}), ("integrator-answers", "integ", {})]
    for f in ("real", "conj"):
        for k in range(3):
            out.append((f"controller-{f}-{k}", "controller", dict(fam=f, part=k)))
    out += [("regions-%d-%d" % (n, z), "regions", dict(n=n, zeros=z)) for n in (12, 40) for z in (0, 2)]
    out += [("composed-%d" % z, "composed", dict(zeros=z)) for z in (0, 2, 3)]
    out += [("regions-280-1", "regions", dict(n=280, zeros=1)), ("real-fast", "realfast", {}), ("imag-fast", "imagfast", {}), ("build", "build", {})]
    return out


# ---------------------------------------------------------------------------------------------
# the substep controllers under every sequence of answers
# ---------------------------------------------------------------------------------------------

class Stub:
    """stands for the evaluation: exact propagator and a scripted answer"""

    def __init__(self, lam, script):
        self.lam, self.script, self.calls = lam, script, []

    def __call__(self, a, dt, w, *args, **kw):
        k = len(self.calls)
        ok = self.script[k] if k < len(self.script) else True
        dt = float(dt)
        self.calls.append((dt, np.asarray(w).copy(), ok))
        w = np.asarray(w, dtype=np.longdouble)
        return (w * np.exp(self.lam * np.longdouble(dt)) if ok else w * np.nan), 7 + k, ok


class Patch:
    def __init__(self, stub):
        self.stub = stub

    def __enter__(self):
        from ormatex_py import matexp_leja as m
        self.m = m
        self.old = {k: getattr(m, k) for k in ("real_leja_expmv", "complex_conj_leja_expmv")}
        for k in self.old:
            setattr(m, k, self.stub)
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.m, k, v)


def check_run(c, rec, calls, tau_dt, lam, u, n, out, total, states):
    """the specification of a complete run of a controller"""
    w, iters, conv, mx = out
    tau = np.longdouble(0)
    cur = np.asarray(u, dtype=np.longdouble)
    size = None
    best = 0.0
    for k, (dt, win, ok) in enumerate(calls):
        key = (round(float(tau), 9), round(dt, 9), ok)
        states.add(key)
        c.true(dt > 0, f"substep {k} has size {dt}")
        c.true(tau + dt <= 1 + 1e-12, f"substep {k} of size {dt} from {float(tau)} leaves the interval")
        c.close(win, cur, 1e-12, f"substep {k} does not start from the last accepted vector", scale=float(np.max(np.abs(cur))))
        if k == 0:
            c.close(dt, min(tau_dt, 1.0), 1e-14, "first substep")
        elif not calls[k - 1][2]:
            c.true(dt < calls[k - 1][0], "a failed substep is not retried with a smaller one")
        if ok:
            tau += np.longdouble(dt)
            cur = cur * np.exp(lam * np.longdouble(dt))
            best = max(best, dt)
    c.true(calls[-1][2], "the last substep did not converge")
    c.close(float(tau), 1.0, 1e-12, "the substeps do not cover the interval")
    c.close(np.asarray(w), (np.asarray(u, dtype=np.longdouble) * np.exp(lam))[:n], 1e-11, "result", scale=float(np.max(np.abs(u))) * float(np.exp(lam)))
    c.true(bool(conv), "the result is not reported as converged")
    c.equal(int(iters), total, "number of iterations")
    c.close(float(mx), best, 1e-14, "largest accepted substep")


def controller(rec, tier, fam, part):
    import jax.numpy as jnp
    from ormatex_py import matexp_leja as m
    from ormatex_py.ode_sys import MatrixLinOp
    D = 10 if tier == "quick" else 14
    lam = np.longdouble(-1.5)
    u = np.array([1.0, -2.0, 0.5, 3.0])
    A = MatrixLinOp(jnp.eye(4) * float(lam))
    x = jnp.asarray([2.0, -2.0, 0.0, 1.0])
    states = set()

    def run(tau, script, substep, nn):
        st = Stub(lam, script)
        with Patch(st), contextlib.redirect_stdout(io.StringIO()):
            if fam == "real":
                out = m.real_leja_expmv_substep(A, tau, u, x, nn, -2.0, 1.0, 1e-10, substep)
            else:
                out = m.complex_conj_leja_expmv_substep(A, tau, u, x, 4, nn, -2.0, 1.0, 1e-10, substep, 0)
        return st, out

    st, _ = run(1.0, (True,), True, 4)
    if not st.calls:
        rec.note("the substep controllers do not call the public evaluation routines: controller exploration skipped")
        return
    for i, tau in enumerate(TAUS):
        if i % 3 != part:
            continue
        seen = set()
        for script in itertools.product((True, False), repeat=D):
            # the answers used are a prefix of the script followed by True
            cid = f"{fam},tau={tau:g}," + "".join("T" if s else "F" for s in script)
            if not rec.want(cid):
                continue
            if rec.only is None and any(script[:k] in seen for k in range(1, D + 1)):
                continue
            nn = 1 + sum(script) % 4
            with rec.case(cid, not all(script)) as c:
                st, out = run(tau, script, True, nn)
                if len(st.calls) <= D:
                    seen.add(script[:len(st.calls)])
                rec.add("transitions", len(st.calls))
                rec.add("traces_validated_against_impl")
                check_run(c, rec, st.calls, tau, lam, u, nn, out, sum(7 + k for k in range(len(st.calls))), states)
        # never converging: an error after finitely many attempts
        cid = f"{fam},tau={tau:g},never"
        if rec.want(cid):
            with rec.case(cid) as c:
                st = None
                try:
                    st, out = run(tau, (False,) * 100000, True, 4)
                except RuntimeError:
                    pass
                c.true(st is None, "a result is returned although no substep converged")
        for k in (1, 2, 5):
            cid = f"{fam},tau={tau:g},stuck after {k}"
            if rec.want(cid):
                with rec.case(cid) as c:
                    st = None
                    try:
                        st, out = run(tau, (True,) * k + (False,) * 100000, True, 4)
                    except RuntimeError:
                        pass
                    if st is not None:
                        c.true(len(st.calls) <= k, "a result is returned although the last substep did not converge")
        for ans in (True, False):
            cid = f"{fam},tau={tau:g},nosubstep,{ans}"
            if rec.want(cid):
                with rec.case(cid) as c:
                    st, out = run(tau, (ans,), False, 3)
                    c.equal(len(st.calls), 1, "number of evaluations without substeps")
                    c.close(st.calls[0][0], 1.0, 1e-15, "the evaluation covers the whole step")
                    c.equal(bool(out[2]), ans, "convergence is reported as it is")
                    c.equal(np.shape(out[0]), (3,), "shape")
                    if ans:
                        c.close(np.asarray(out[0]), u[:3] * float(np.exp(lam)), 1e-12, "result")
    rec.add("states", len(states))


def integ(rec, tier):
    """whole integrator steps: exact whatever the answers, the adapted substep size stays in (0, 1]"""
    import jax.numpy as jnp
    from ormatex_py import ode_sys as o, ode_exp as e
    from ormatex_py import matexp_leja as m
    A = np.array([[-2.0, 1.0], [0.3, -1.0]])
    b = np.array([1.0, 0.5])

    class S(o.OdeSys):
        def __init__(self):
            super().__init__()

        def _frhs(self, t, y, **kw):
            return jnp.asarray(A) @ y + jnp.asarray(b) * (1 + 0.5 * t)

    y0 = np.array([1.0, -1.0])

    def dense(op, n):
        return np.stack([np.asarray(op.matvec(jnp.asarray(np.eye(n)[j]))) for j in range(n)], axis=1)

    class Exact(Stub):
        def __call__(self, a, dt, w, *args, **kw):
            k = len(self.calls)
            ok = self.script[k] if k < len(self.script) else True
            self.calls.append((float(dt), None, ok))
            w = np.asarray(w, dtype=float)
            if not ok:
                return jnp.asarray(w * np.nan), 3, False
            return jnp.asarray(np.asarray(ref.expm(dense(a, len(w)) * float(dt)) @ w, dtype=float)), 3, True

    D = 6 if tier == "quick" else 8
    states = set()
    sys = S()
    for meth in ("epi2_leja_re", "epi2_leja_im", "epi3_leja_im"):
        with Patch(Exact(None, (True,))) as p, contextlib.redirect_stdout(io.StringIO()):
            I = e.ExpLejaIntegrator(sys, 0.0, jnp.asarray(y0), method=meth, leja_a=-3.0)
            I.step(0.2)
            used = len(p.stub.calls)
        if not used:
            rec.note("the Leja integrators do not call the public evaluation routines: exploration of the integrator skipped")
            return
        refs = None
        for script in itertools.product((True, False), repeat=D):
            for sub in (True, False):
                cid = f"{meth},substep={sub}," + "".join("T" if s else "F" for s in script)
                if not rec.want(cid):
                    continue
                if not sub and any(script[3:]):
                    continue
                with rec.case(cid, not all(script)) as c:
                    st = Exact(None, script)
                    t, hs = 0.3, (0.2, 0.1, 0.3)
                    out, failed = [], False
                    with Patch(st), contextlib.redirect_stdout(io.StringIO()):
                        I = e.ExpLejaIntegrator(sys, t, jnp.asarray(y0), method=meth, leja_a=-3.0, leja_substep=sub)
                        for h in hs:
                            try:
                                r = I.step(h)
                            except RuntimeError:
                                failed = True
                                break
                            I.accept_step(r)
                            out.append(np.asarray(r.y))
                            states.add((len(out), round(float(getattr(I, "leja_substep_size", 1.0)), 6)))
                    rec.add("transitions", len(st.calls))
                    rec.add("traces_validated_against_impl")
                    if not sub and not all(script[:3]):
                        c.true(failed, "an evaluation that did not converge is used")
                        c.equal(len(out), script.index(False), "steps before the failure")
                    else:
                        c.true(not failed, "an error is raised although the substeps converge")
                    y, tt = ref.ld(y0), t
                    for h, got in zip(hs, out):
                        y = ref.affine_exact(A, y, b * 1.0, b * 0.5, tt, h)
                        tt += h
                        c.close(got, y, 1e-11, f"state at t={tt:g}")
                    c.true(0 < float(getattr(I, "leja_substep_size", 1.0)) <= 1 + 1e-12, "substep size out of (0, 1]")
    rec.add("states", len(states))


# ---------------------------------------------------------------------------------------------
# the evaluation itself
# ---------------------------------------------------------------------------------------------

REG = [(-0.01, 0., 0.), (-2., 0., 0.), (-10., 0., 0.), (-40., 0., 0.), (-200., 0., 0.), (-400., 0., 0.), (-1000., 0., 0.), (-1., 1., 0.), (-6., 2., 0.),
       (-2., 0., 1.), (-10., 0., 5.), (-20., 0., 2.), (-5., 0., 20.), (-300., 0., 1.), (-800., 0., 5.), (0., 0., .01), (0., 0., 1.), (0., 0., 5.), (0., 0., 20.), (0., 0., 100.)]


def operators(a, b, c):
    """operators with their spectrum in the ellipse (and for the last two not normal)"""
    sh, h1 = (a + b) / 2, (b - a) / 2
    out = {}

    def blocks(pts):
        M = np.zeros((8, 8))
        for i, (re, im) in enumerate(pts):
            M[2 * i:2 * i + 2, 2 * i:2 * i + 2] = [[re, im], [-im, re]]
        return M

    th = np.linspace(0, np.pi, 4)
    out["edge"] = blocks([(sh + h1 * np.cos(t), c * np.sin(t)) for t in th])
    out["inside"] = blocks([(sh + .5 * h1 * np.cos(t), .5 * c * np.sin(t)) for t in th + .2])
    # a symmetric (or skew) full matrix: a rotation of the edge spectrum
    i = np.arange(8)
    v = np.cos(i * 1.7 + .3)
    Q = np.eye(8) - 2 * np.outer(v, v) / (v @ v)
    out["full"] = Q @ out["edge"] @ Q
    J = out["inside"].copy()
    for k in range(0, 6, 2):
        J[k, k + 2] = .1 * (h1 + c)
    out["coupled"] = J
    return out


VEC = {"ones": np.ones(8), "e1": np.eye(8)[0], "e8": np.eye(8)[7], "mix": 10 * np.cos(2. * np.arange(8)), "big": 1e9 * np.cos(np.arange(8.) + 1), "tiny": 1e-9 * np.sin(np.arange(8.) + 1)}


def regions(rec, tier, n, zeros):
    import jax.numpy as jnp
    from ormatex_py import matexp_leja as m
    from ormatex_py.matexp_poly import leja_seq_pad_zeros
    from ormatex_py.ode_sys import MatrixLinOp
    for (a, b, c_) in REG:
        x, nr, scale, shift = m.gen_leja_conjugate(n, a, b, c_)
        x = jnp.asarray(x)
        if zeros:
            x = leja_seq_pad_zeros(x, zeros)
        cf = m.dd_method_dict["taylor"](x, shift, scale)
        for on, A in operators(a, b, c_).items():
            op = MatrixLinOp(jnp.asarray(A))
            for dt in (1.0, 0.4, 0.05):
                E = None
                for vn, u in VEC.items():
                    for tol in (1e-4, 1e-8, 1e-12):
                        cid = f"[{a:g},{b:g}]x{c_:g},{on},dt={dt:g},{vn},tol={tol:g}"
                        if not rec.want(cid):
                            continue
                        if E is None:
                            E = ref.expm(A * dt)
                        with rec.case(cid) as c:
                            p, it, ok = m.complex_conj_leja_expmv(op, dt, jnp.asarray(u), shift, scale, x, nr + zeros, cf, tol)
                            nu = float(np.linalg.norm(u))
                            c.true(2 <= int(it) <= n + zeros, f"number of iterations {int(it)}")
                            rec.add("converged" if ok else "not_converged")
                            if ok:
                                c.close(np.asarray(p), E @ u, 1.0, "reported as converged", scale=(100 * tol + 2e-13 * max(1, scale)) * nu)
                            elif n >= 280 and scale <= 100:
                                c.fail(f"no convergence with {n} points, spectrum in the region")
            cid = f"[{a:g},{b:g}]x{c_:g},{on},zero vector"
            if rec.want(cid):
                with rec.case(cid, False) as c:
                    p, it, ok = m.complex_conj_leja_expmv(op, 1.0, jnp.zeros(8), shift, scale, x, nr + zeros, cf, 1e-8)
                    c.true(bool(ok), "zero vector: converged")
                    c.true(np.all(np.asarray(p) == 0), "zero vector")


def composed(rec, tier, zeros):
    """the substep functions on real operators: padding, coefficients, controller and evaluation together"""
    import jax.numpy as jnp
    from ormatex_py import matexp_leja as m
    from ormatex_py.ode_sys import MatrixLinOp
    n = 280
    for (a, b, c_) in REG:
        x, nr, scale, shift = m.gen_leja_conjugate(n, a, b, c_)
        x = jnp.asarray(x)
        for on, A in operators(a, b, c_).items():
            if on == "inside" and tier == "quick":
                continue
            op = MatrixLinOp(jnp.asarray(A))
            E = None
            for fam, substep, tau in itertools.product(("conj", "real"), (True, False), (0.3, 1.0, 1.1)):
                if fam == "real" and (zeros or nr < len(x)):
                    continue
                for vn, keep, tol in (("mix", 8, 1e-10), ("e8", 5, 1e-6), ("ones", 7, 1e-10)):
                    if not substep and tau != 1.0 and vn != "mix":
                        continue
                    cid = f"{fam},[{a:g},{b:g}]x{c_:g},{on},{'substeps' if substep else 'single'},first={tau:g},{vn},keep={keep},tol={tol:g}"
                    if not rec.want(cid):
                        continue
                    if E is None:
                        E = ref.expm(A)
                    u = VEC[vn]
                    with rec.case(cid) as c, contextlib.redirect_stdout(io.StringIO()):
                        try:
                            if fam == "conj":
                                p, it, ok, mt = m.complex_conj_leja_expmv_substep(op, tau, jnp.asarray(u), x, nr, keep, shift, scale, tol, substep, zeros)
                            else:
                                p, it, ok, mt = m.real_leja_expmv_substep(op, tau, jnp.asarray(u), x, keep, shift, scale, tol, substep)
                        except RuntimeError:
                            rec.add("refused")
                            c.true(substep and scale > 100, "an error is raised although the points suffice for the whole interval")
                            continue
                        rec.add("converged" if ok else "not_converged")
                        c.true(np.asarray(p).shape == (keep,), f"entries returned {np.asarray(p).shape}")
                        if ok:
                            c.true(0 < float(mt) <= 1, f"largest accepted substep {float(mt)}")
                            c.close(np.asarray(p), (E @ u)[:keep], 1.0, "reported as converged", scale=(300 * tol + 1e-12 * max(1, scale)) * float(np.linalg.norm(u)))
                        else:
                            c.true(not substep, "a result that did not converge is returned although substeps are on")
                            c.true(scale > 100, f"no convergence with {n} points, spectrum in the region")


def realfast(rec, tier):
    """real points of gen_leja_fast, as used by epi2_leja_re"""
    import jax.numpy as jnp
    from ormatex_py import matexp_leja as m
    from ormatex_py.ode_sys import MatrixLinOp
    for n in (280, 40, 12):
        x = jnp.asarray(m.gen_leja_fast(-2.0, 2.0, n))
        for (a, b, c_) in REG:
            if c_ or a == b:
                continue
            shift, scale = (a + b) / 2, (b - a) / 4
            for dd in ("taylor", "recursive"):
                if dd == "recursive" and scale < 0.1:
                    continue
                cf = m.dd_method_dict[dd](x, shift, scale)
                for on, A in operators(a, b, 0.0).items():
                    op = MatrixLinOp(jnp.asarray(A))
                    for dt in (1.0, 0.3):
                        E = None
                        for vn, u in VEC.items():
                            for tol in (1e-4, 1e-8, 1e-12):
                                cid = f"n={n},{dd},[{a:g},{b:g}],{on},dt={dt:g},{vn},tol={tol:g}"
                                if not rec.want(cid):
                                    continue
                                if E is None:
                                    E = ref.expm(A * dt)
                                with rec.case(cid) as c:
                                    p, it, ok = m.real_leja_expmv(op, dt, jnp.asarray(u), shift, scale, x, cf, tol)
                                    nu = float(np.linalg.norm(u))
                                    rec.add("converged" if ok else "not_converged")
                                    if ok:
                                        c.close(np.asarray(p), E @ u, 1.0, "reported as converged", scale=(100 * tol + 2e-13 * max(1, scale)) * nu)
                                    elif n >= 280 and scale <= 100 and dd == "taylor":
                                        c.fail(f"no convergence with {n} points, spectrum in the region")


def imagfast(rec, tier):
    """the two term recurrence on the imaginary axis"""
    import jax.numpy as jnp
    from ormatex_py import matexp_leja as m
    from ormatex_py.ode_sys import MatrixLinOp
    for n in (9, 20, 41, 80):
        x = m.gen_complex_conj_leja_fast(2.0, n)
        for beta in (0.05, 0.5, 2.0, 5.0, 10.0, 20.0):
            scale = beta / 2
            for shift in (0.0, -0.7):
                cf = m.dd_method_dict["taylor"](x, shift, scale)
                for on, A in operators(shift, shift, beta).items():
                    op = MatrixLinOp(jnp.asarray(A))
                    E = None
                    for vn, u in VEC.items():
                        for tol in (1e-4, 1e-8, 1e-12):
                            cid = f"n={n},beta={beta:g},shift={shift:g},{on},{vn},tol={tol:g}"
                            if not rec.want(cid):
                                continue
                            if E is None:
                                E = ref.expm(A)
                            with rec.case(cid) as c:
                                p, it, ok = m.complex_conj_imag_leja_expmv(op, 1.0, jnp.asarray(u), shift, scale, x, cf, tol)
                                nu = float(np.linalg.norm(u))
                                rec.add("converged" if ok else "not_converged")
                                if ok:
                                    c.close(np.asarray(p), E @ u, 1.0, "reported as converged", scale=(100 * tol + 2e-13 * max(1, scale)) * nu)
                                elif n >= 80 and beta <= 10:
                                    c.fail(f"no convergence with {n} points, spectrum in the region")


def build(rec, tier):
    """the augmented operator: exp of it applied to (b0, e_p) is sum phi_j b_j"""
    import jax.numpy as jnp
    from ormatex_py import matexp_leja as m
    from ormatex_py.ode_sys import MatrixLinOp
    for name, A in ref.mat_alphabet().items():
        n = len(A)
        if n > 5 or np.max(np.abs(A)) > 50:
            continue
        for p in (1, 2, 3, 4, 5, 7):
            for dt in (1.0, 0.25):
                for zero in (None, 0, p):
                    cid = f"build,{name},p={p},dt={dt:g},zero={zero}"
                    if not rec.want(cid):
                        continue
                    with rec.case(cid) as c:
                        vb = [np.cos(np.arange(n) * (j + 1.) + j) * (j + 1) for j in range(p + 1)]
                        if zero is not None:
                            vb[zero] = vb[zero] * 0
                        op, v, nn = m.build_a_tilde(MatrixLinOp(jnp.asarray(A)), dt, [jnp.asarray(b) for b in vb])
                        c.equal(int(nn), n, "size of the leading block")
                        N = len(v)
                        M = np.stack([np.asarray(op.matvec(jnp.asarray(np.eye(N)[j]))) for j in range(N)], axis=1)
                        got = (ref.expm(M) @ ref.ld(v))[:n]
                        want = ref.phi_comb(A * dt, vb)
                        amp = float(np.max(np.abs(want))) + float(np.max(np.sum(np.abs(ref.expm(np.abs(A) * 0 + A * dt)), axis=1)))
                        c.close(got, want, 1e-12, "combination of phi functions", scale=max(1.0, amp))


def stiff(rec, tier):
    """whole steps of the Leja integrators on stiff linear problems, default and other options"""
    import jax.numpy as jnp
    from ormatex_py import ode_sys as o, ode_exp as e

    class S(o.OdeSys):
        k: float

        def __init__(self, k):
            super().__init__()
            self.k = k

        def _frhs(self, t, y, **kw):
            return -self.k * jnp.array([1.0, 0.1, 0.01, 0.001]) * (y - 1.0)

    opts = {"default": {}, "nozeros": dict(leja_n_zeros=0), "zeros4": dict(leja_n_zeros=4), "ellipse": dict(leja_c=1.0), "given": dict(leja_a=True), "tol8": dict(leja_tol=1e-8),
            "pade": dict(dd_method="pade"), "nosub": dict(leja_substep=False), "n100": dict(n_leja=100)}
    y0 = np.array([0.0, 0.5, 2.0, 0.0])
    d = np.array([1.0, .1, .01, .001])
    for k in (1.0, 10.0, 50.0, 120.0, 200.0, 300.0, 600.0):
        for m in ("epi2_leja_im", "epi3_leja_im", "epi2_leja_re"):
            for on, kw in opts.items():
                if m == "epi2_leja_re" and on in ("nozeros", "zeros4", "ellipse"):
                    continue
                cid = f"stiff,{m},{on},k={k:g}"
                if not rec.want(cid):
                    continue
                with rec.case(cid) as c:
                    kw2 = dict(kw)
                    if "leja_a" in kw2:
                        kw2["leja_a"] = -1.05 * k
                    with contextlib.redirect_stdout(io.StringIO()):
                        I = e.ExpLejaIntegrator(S(k), 0.0, jnp.asarray(y0), method=m, **kw2)
                        y = y0
                        for i in range(2):
                            try:
                                r = I.step(1.0)
                            except RuntimeError:
                                c.true(on in ("nosub", "n100") or k >= 600, "an error is raised for a problem the method can solve")
                                break
                            I.accept_step(r)
                            y = 1 + (y - 1) * np.exp(-k * d)
                            tol = 2e-10
                            if on == "pade":
                                tol = 1e-6
                            if on == "tol8":
                                tol = 1e-6
                            c.close(np.asarray(r.y), y, tol, f"step {i + 1}", scale=1.0)
