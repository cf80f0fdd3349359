"""C12: divided differences of the exponential"""
import itertools
import numpy as np
from mc import ref

LEVEL = "exploration"
RULE = ("every point sequence (all short sequences over a small alphabet, repetitions included; all generated Leja sequences of the listed lengths, "
        "with and without leading zeros) x shift x scale x step fraction x method; non-trivial: more than one point and scale > 0")
BOUNDS = ("all sequences of 1..4 points over {-2,-0.5,0,1,2} and over 7 real and conjugate points for the taylor and pade methods, those without "
          "repetition for the recursive one; 5 generators x lengths 3..9, 12, 17, 40, 150 (thorough also 10, 11, 16, 23, 24, 33, 64, 80, 280) x 0, 1, 2, 4 leading zeros; 11 (shift, scale) "
          "pairs with scale 1e-3..3e5; step fractions 1, 0.5, 0.1")
ASSUME = ["reference: Newton table with 60+n digits (mpmath) for distinct points, first column of the exponential of the bidiagonal matrix in 80 bit "
          "arithmetic for sequences with repetitions",
          "tolerance 3e-12 of the largest divided difference (3e-13 for scale <= 10); smaller divided differences are not resolved better by any of the methods",
          "the pade method is allowed the truncation error of jax.scipy.linalg.expm on top (its Pade approximant is used for norms up to 10.8), computed per case",
          "the recursive formula is only held to this for points that are at least 1e-3 apart (its documentation announces more rounding error)"]

SS = [(0.0, 1.0), (-2.0, 1.0), (-0.1, 0.05), (-10.0, 5.0), (-60.0, 30.0), (-200.0, 100.0), (0.0, 8.0), (3.0, 2.0), (0.0, 1e-3), (-2e3, 1e3), (-6e5, 3e5)]
HS = (1.0, 0.5, 0.1)
LENGTHS = (3, 4, 5, 6, 7, 8, 9, 12, 17, 40)
MORE = (10, 11, 16, 23, 24, 33, 64, 80)


def jobs(tier):
    out = []
    for k in (280, 150) if tier == "thorough" else (150,):
        for g in ("fast", "conj", "real", "imag"):
            out.append((f"leja-{g}-{k}", "leja", dict(gen=g, ns=(k,))))
    for g in ("fast", "conj", "flat", "real", "imag"):
        for m in ("taylor", "pade", "recursive"):
            out.append((f"leja-{g}-{m}", "leja", dict(gen=g, ns=LENGTHS, methods=(m,))))
            if tier == "thorough":
                out.append((f"leja-{g}-{m}-more", "leja", dict(gen=g, ns=MORE, methods=(m,))))
    out += [(f"words-{a}", "words", dict(alpha=a)) for a in ("re", "cplx")]
    out += [("newton", "newton", {}), ("default", "default", {})]
    return out


def table(x, f):
    """Newton table in exact order, f values mp numbers"""
    f = list(f)
    n = len(x)
    for k in range(1, n):
        for i in range(n - 1, k - 1, -1):
            f[i] = (f[i] - f[i - 1]) / (x[i] - x[i - k])
    return f


def mpx(x):
    import mpmath as mp
    return [mp.mpc(float(v.real), float(v.imag)) if np.iscomplexobj(x) else mp.mpf(float(v)) for v in x]


def num(f):
    import mpmath as mp
    def conv(v):
        return np.longdouble(mp.nstr(v, 25))
    if any(isinstance(v, mp.mpc) for v in f):
        return np.array([conv(mp.re(v)) + 1j * conv(mp.im(v)) for v in f], dtype=np.clongdouble)
    return np.array([conv(v) for v in f], dtype=np.longdouble)


def reference(x, shift, scale, h):
    import mpmath as mp
    with mp.workdps(60 + 13 * 4 + len(x)):
        xs = mpx(x)
        return num(table(xs, [mp.exp(mp.mpf(h) * (mp.mpf(shift) + mp.mpf(scale) * v)) for v in xs]))


def confluent(x, shift, scale, h):
    n = len(x)
    x = ref.ld(x)
    B = np.diag(ref.LD(h) * (ref.LD(shift) + ref.LD(scale) * x)) + np.diag(np.full(n - 1, ref.LD(h) * ref.LD(scale), dtype=x.dtype), -1)
    return ref.expm(B)[:, 0]


def sequence(gen, n):
    from ormatex_py import matexp_leja as m
    if gen == "fast":
        return np.asarray(m.gen_leja_fast(-2.0, 2.0, n))
    a, b, h = dict(conj=(-3., 0., 1.), flat=(-10., 0., .2), real=(-4., 0., 0.), imag=(0., 0., 3.))[gen]
    return np.asarray(m.gen_leja_conjugate(n, a, b, h)[0])


def tol(m, x, shift, scale, h):
    # argument errors of shift + scale * x are amplified beyond scale 1e3
    base = 3e-13 if scale * h <= 10 else max(3e-12, 1e-14 * scale)
    if m != "pade":
        return base
    # jax's expm scales to a norm below 10.8 (not 5.4) before its Pade approximant of degree 13
    t = base
    for sh in (shift, 0.0):
        nrm = h * (np.max(np.abs(sh + scale * x)) + (scale if len(x) > 1 else 0.0))
        s = max(0, int(np.floor(np.log2(max(nrm, 1e-300) / 5.371920351148152))))
        t = max(t, base + 2.0 ** s * 2e-33 * (nrm / 2.0 ** s) ** 27)
    return t


def leja(rec, tier, gen, ns, methods=("taylor", "pade", "recursive")):
    import jax.numpy as jnp
    from ormatex_py.matexp_leja import dd_method_dict
    from ormatex_py.matexp_poly import leja_seq_pad_zeros
    big = ns[0] >= 150
    ss = [SS[1], SS[5], SS[2], SS[4]] if big and tier == "quick" else SS
    hs = (1.0, 0.5) if big and tier == "quick" else HS
    for n in ns:
        for p in ((0, 2) if big else (0, 1, 2, 4)):
            x = sequence(gen, n)
            if p:
                x = np.asarray(leja_seq_pad_zeros(jnp.asarray(x), p))
            for (shift, scale) in ss:
                for h in hs:
                    want = None
                    for m in methods:
                        if p and m == "recursive":
                            continue
                        cid = f"{gen},n={n},zeros={p},shift={shift:g},scale={scale:g},h={h:g},{m}"
                        if rec.want(cid):
                            if want is None:
                                want = reference(x, shift, scale, h)
                            with rec.case(cid) as c:
                                got = np.asarray(dd_method_dict[m](jnp.asarray(x), shift, scale, h=h))
                                sc = max(float(np.max(np.abs(want))), 1e-290)  # underflow
                                T = tol(m, x, shift, scale, h)
                                c.close(got, want, T, "divided differences", scale=sc)
                                # Newton form at the points
                                v = ref.ld(x)
                                g = ref.ld(got)
                                acc = np.zeros(len(x), dtype=np.clongdouble) + g[-1]
                                for k in range(len(x) - 2, -1, -1):
                                    acc = acc * (v - v[k]) + g[k]
                                ex = np.exp(ref.LD(h) * (ref.LD(shift) + ref.LD(scale) * v))
                                c.close(acc, ex, 100 * T, "interpolation at the points", scale=max(sc, float(np.max(np.abs(ex)))))


RE = [-2.0, -0.5, 0.0, 1.0, 2.0]
CP = [0.0, 2.0, -2.0, 1j, -1j, -0.5 + 0.5j, -0.5 - 0.5j]


def words(rec, tier, alpha):
    """every short sequence, repetitions included"""
    import jax
    import jax.numpy as jnp
    from ormatex_py.matexp_leja import dd_method_dict
    A = np.array(RE if alpha == "re" else CP)
    L = (1, 2, 3, 4) if alpha == "re" or tier == "thorough" else (1, 2, 3)
    for n in L:
        W = list(itertools.product(range(len(A)), repeat=n))
        for (shift, scale) in [SS[0], SS[2], SS[3], (3.0, 2.0)]:
            for h in (1.0, 0.5):
                for m in ("taylor", "pade", "recursive"):
                    # one call for all sequences
                    X = jnp.asarray(A[np.array(W)])
                    cid0 = f"{alpha},len={n},shift={shift:g},scale={scale:g},h={h:g},{m}"
                    with rec.case(cid0, n > 1) as c:
                        G = np.asarray(jax.vmap(lambda x: dd_method_dict[m](x, shift, scale, h=h))(X))
                        for w, g in zip(W, G):
                            if m == "recursive" and len(set(w)) < n:
                                continue
                            x = A[list(w)]
                            want = confluent(x, shift, scale, h)
                            c.close(g, want, tol(m, x, shift, scale, h), f"divided differences at {x}", scale=float(np.max(np.abs(want))))
                            rec.add("sequences")
        # one by one (not batched) for a part: the same code path users take
        for w in W if n < 4 else W[::7]:
            for m in ("taylor", "pade"):
                cid = f"{alpha},single,{w},{m}"
                if rec.want(cid):
                    with rec.case(cid, n > 1) as c:
                        x = A[list(w)]
                        want = confluent(x, -2.0, 1.5, 1.0)
                        g = np.asarray(dd_method_dict[m](jnp.asarray(x), -2.0, 1.5))
                        c.close(g, want, tol(m, x, -2.0, 1.5, 1.0), f"divided differences at {x}", scale=float(np.max(np.abs(want))))


def newton(rec, tier):
    """general divided differences of data: polynomials of every degree, the exponential, unit data"""
    import jax.numpy as jnp
    import mpmath as mp
    from ormatex_py.matexp_poly import newton_poly_div_diff
    pts = {"perm" + "".join(map(str, p)): np.array([-2., -0.5, 1., 2., 0.25])[list(p)] for p in itertools.permutations(range(5))}
    for n in (2, 3, 7, 12):
        pts[f"fast{n}"] = sequence("fast", max(3, n))[:n]
        pts[f"conj{n}"] = sequence("conj", n)
        pts[f"imag{n}"] = sequence("imag", max(3, n))[:n]
    for name, x in pts.items():
        n = len(x)
        for d in range(n + 1):
            cid = f"{name},degree={d}"
            if rec.want(cid):
                with rec.case(cid) as c:
                    y = x ** d if d < n else np.exp(x)
                    with mp.workdps(60):
                        want = num(table(mpx(x), mpx(y)))
                    got = np.asarray(newton_poly_div_diff(jnp.asarray(x), jnp.asarray(y)))
                    c.close(got, want, 1e-10, "divided differences", scale=max(1.0, float(np.max(np.abs(want)))))
                    y0 = np.asarray(y)
                    c.same(np.asarray(jnp.asarray(y)), y0, "data changed")
        for j in range(n):
            cid = f"{name},unit={j}"
            if rec.want(cid):
                with rec.case(cid) as c:
                    y = np.zeros(n)
                    y[j] = 1.0
                    with mp.workdps(60):
                        want = num(table(mpx(x), mpx(y)))
                    got = np.asarray(newton_poly_div_diff(jnp.asarray(x), jnp.asarray(y.astype(x.dtype))))
                    c.close(got, want, 1e-10, "divided differences", scale=max(1.0, float(np.max(np.abs(want)))))


def default(rec, tier):
    """the step fraction defaults to 1, unknown methods fall back to taylor"""
    import jax.numpy as jnp
    from ormatex_py.matexp_leja import dd_method_dict
    for n in (5, 12):
        for g in ("fast", "conj"):
            x = sequence(g, n)
            want = reference(x, -1.0, 0.7, 1.0)
            for m, f in sorted(dd_method_dict.items()):
                cid = f"default,{g},{n},{m}"
                if rec.want(cid):
                    with rec.case(cid) as c:
                        c.close(np.asarray(f(jnp.asarray(x), -1.0, 0.7)), want, tol(m, x, -1.0, 0.7, 1.0), "divided differences", scale=float(np.max(np.abs(want))))
