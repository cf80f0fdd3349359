"""C11: Leja point sequences"""
import itertools
import numpy as np
from mc import ref

LEVEL = "exploration"
RULE = ("every length x interval / ellipse x generator, every prefix of every sequence is examined; every ordering of small point sets for the "
        "reordering; non-trivial: more than three points")
BOUNDS = ("all lengths 3..70 (thorough 3..300) and 128..132, 255..258, 280, 512..514; 18 intervals of both orientations of the sign and capacities "
          "0.25..250 (lengths limited so that the products of distances stay in double range); 40 ellipses from circle to segment, both degenerate "
          "directions, on both sides of the degeneracy threshold; all permutations of 12 sets of up to 6 points; 1..6 padded zeros")
ASSUME = ["equal products of distances (ties, symmetric intervals) may be resolved either way"]


def lengths(tier):
    top = 70 if tier == "quick" else 300
    return sorted(set(range(3, top + 1)) | {128, 129, 130, 131, 132, 255, 256, 257, 258, 280, 512, 513, 514})


IVALS = [(-2., 2.), (-1., 1.), (-4., 4.), (-4., 0.), (0., 4.), (0., 1.), (-1., 0.), (-1., 3.), (-3., 1.), (-5., -1.), (1., 5.), (-100., 0.), (-7., 2.),
         (-2., 7.), (-2.5, 2.), (-1000., 10.), (-0.3, 3.), (10., 13.)]

ELL = [(-2., 2., 2.), (-1., 1., 1.), (-1., 1., .5), (-1., 1., 2.), (-3., 0., 1.), (-3., 0., 2.), (-10., 0., .1), (-10., 0., 10.), (-.5, .5, 4.), (-.1, 0., 5.),
       (-100., 0., 1.), (-100., 0., 100.), (-2., 0., 1e-2), (-2., 0., 1e-3), (-2e-2, 0., 3.), (-2e-3, 0., 3.), (1., 3., 1.), (-5., 2., .7), (-1e-3, 0., 1e-3),
       (-1e4, 0., 3.), (-7., -3., 2.), (-.01, 3., 1.7)]
REAL = [(-2., 2., 0.), (-1., 1., 0.), (-3., 0., 0.), (-100., 0., 0.), (-1e-3, 0., 0.), (1., 3., 0.), (-5., 2., 0.), (-2., 0., 1e-6), (-1e4, 0., .1), (-30., -10., 0.)]
IMAG = [(0., 0., 2.), (0., 0., 1.), (0., 0., 100.), (0., 0., 1e-3), (-1e-6, 0., 3.), (-1., -1., 2.), (3., 3., .5), (-1e-5, 0., 4.)]


def jobs(tier):
    return [("fast", "fast", {}), ("ellipse", "ellipse", {}), ("real", "real", {}), ("imag", "imag", {}), ("circle", "circle", {}), ("imagfast", "imagfast", {}),
            ("reorder", "reorder", {}), ("pad", "pad", {})]


def distinct(c, z, gap, what):
    z = np.asarray(z)
    o = np.lexsort((z.imag, z.real))
    d = np.abs(z[:, None] - z[None, :]) + np.eye(len(z)) * 1e9
    i = np.unravel_index(np.argmin(d), d.shape)
    c.true(d[i] > gap, f"{what}: points {i} coincide (distance {d[i]:.2e})")


def fits(a, b, n):
    return abs(n * np.log10((b - a) / 4)) < 250


def fast(rec, tier):
    from ormatex_py.matexp_leja import gen_leja_fast
    L = lengths(tier)
    for (a, b) in IVALS:
        ls = [n for n in L if fits(a, b, n)]
        big = np.asarray(gen_leja_fast(a, b, max(ls)), dtype=np.longdouble)
        w = ref.LD(b) - ref.LD(a)
        cid = f"greedy,[{a:g},{b:g}]"
        if rec.want(cid):
            with rec.case(cid) as c:
                z = big
                first = (a, b) if abs(a) > abs(b) else (b, a)
                c.close(float(z[0]) if abs(a) != abs(b) else abs(float(z[0])), first[0] if abs(a) != abs(b) else abs(a), 1e-14, "the first point is the extreme of larger modulus")
                c.close(np.sort(z[:2].astype(float)), [a, b], 1e-14, "first two points")
                c.close(float(z[2]), (a + b) / 2, 1e-14, "third point")
                for i in range(3, min(len(z), 200 if tier == "quick" else 520)):
                    s = np.sort(z[:i])
                    mid = (s[1:] + s[:-1]) / 2
                    lp = np.array([np.sum(np.log(np.abs(m - z[:i]) / w)) for m in mid])
                    j = int(np.argmin(np.abs(mid - z[i])))
                    c.true(abs(mid[j] - z[i]) <= 1e-12 * w, f"point {i} = {float(z[i])} is not a midpoint of neighbours")
                    c.true(lp[j] >= np.max(lp) - 1e-6, f"point {i} = {float(z[i])}: the product of distances is a factor {float(np.exp(np.max(lp) - lp[j])):.3g} below the best "
                           f"candidate {float(mid[np.argmax(lp)])}")
                    rec.add("points")
                distinct(c, z.astype(float), float(w) * 1e-9, "sequence")
        for n in ls:
            cid = f"fast,[{a:g},{b:g}],n={n}"
            if rec.want(cid):
                with rec.case(cid, n > 3) as c:
                    z = np.asarray(gen_leja_fast(a, b, n))
                    c.equal(z.shape, (n,), "number of points")
                    c.true(np.isrealobj(z), "real points")
                    c.close(z, big[:n], 1e-13, "a shorter sequence is a prefix of the longer one", scale=float(w))
                    c.true(np.all((z >= a) & (z <= b)), "points in the interval")


def pairs(c, z, n_real, what, tol):
    z = np.asarray(z)
    c.true(np.all(np.abs(np.imag(z[:n_real])) <= tol), f"{what}: the first {n_real} points are not real: {z[:n_real]}")
    for i in range(n_real, len(z) - 1, 2):
        c.close(z[i + 1], np.conj(z[i]), tol, f"{what}: points {i}, {i + 1} are not conjugate", scale=1.0)
    # an unpaired point at the end (or none)
    if n_real < len(z):
        c.true(np.all(np.abs(np.imag(z[n_real:])) > 1e-9), f"{what}: a real point among the conjugate pairs")


def ellipse(rec, tier):
    from ormatex_py.matexp_leja import gen_leja_conjugate
    L = lengths(tier)
    for (a, b, h) in ELL:
        big = None
        cap = ((b - a) / 2 + h) / 2
        for n in sorted(L, reverse=True):
            cid = f"ellipse,[{a:g},{b:g}]x{h:g},n={n}"
            if not (rec.want(cid) or big is None):
                continue
            with rec.case(cid, n > 3) as c:
                z, nr, scale, shift = gen_leja_conjugate(n, a, b, h)
                z = np.asarray(z)
                if big is None:
                    big = z
                c.equal(z.shape, (n,), "number of points")
                c.equal(int(nr), 2, "number of leading real points")
                c.close(shift, (a + b) / 2, 1e-14, "shift is the centre", scale=max(abs(a), abs(b)))
                c.close(scale, cap, 1e-14, "scale is the capacity", scale=cap)
                p = shift + scale * z
                on = (np.real(p) - (a + b) / 2) / ((b - a) / 2) + 1j * np.imag(p) / h
                c.close(np.abs(on), np.ones(n), 1e-11, "points on the ellipse")
                c.close(np.sort(np.real(p[:2])), [a, b], 1e-12, "first two points are the ends of the real axis", scale=max(abs(a), abs(b)))
                pairs(c, p / h, 2, "sequence", 1e-11)
                c.close(z, big[:n], 1e-12, "prefix of the longer sequence", scale=1.0)
                if n in (8, 16, 32, 64, 128, 256, 512):
                    want = np.exp(2j * np.pi * np.arange(n) / n)
                    d = np.abs(on[:, None] - want[None, :])
                    c.true(np.all(np.min(d, axis=0) < 1e-10), "the points do not fill the circle evenly")
                if n in (5, 9, 17, 33, 70, 280, 514):
                    distinct(c, on, 1e-4, "sequence")


def cheb(n):
    return np.cos(np.pi * np.arange(n) / (n - 1))


def seg(rec, tier, fam, cases):
    """the degenerate ellipses: projections of the points of the circle"""
    from ormatex_py.matexp_leja import gen_leja_conjugate
    L = lengths(tier)
    for (a, b, h) in cases:
        big = None
        hax = (b - a) / 2
        for n in sorted(L, reverse=True):
            cid = f"{fam},[{a:g},{b:g}]x{h:g},n={n}"
            if not (rec.want(cid) or big is None):
                continue
            with rec.case(cid, n > 3) as c:
                z, nr, scale, shift = gen_leja_conjugate(n, a, b, h)
                z = np.asarray(z)
                if big is None:
                    big = z
                c.equal(z.shape, (n,), "number of points")
                c.close(shift, (a + b) / 2, 1e-14, "shift", scale=max(1e-3, abs(a), abs(b)))
                c.close(scale, (hax + h) / 2, 1e-14, "scale", scale=hax + h)
                p = scale * z
                c.close(z, big[:n], 1e-12, "prefix of the longer sequence", scale=1.0)
                if fam == "real":
                    c.equal(int(nr), n, "all points are real")
                    c.true(np.max(np.abs(np.imag(p))) == 0, "real points")
                    x = np.real(p) / hax
                    c.close(np.sort(x[:2]), [-1, 1], 1e-12, "first two points are the ends")
                else:
                    c.equal(int(nr), 1, "one real point")
                    c.close(z[0], 0.0, 1e-14, "the first point is the centre", scale=1.0)
                    c.true(np.max(np.abs(np.real(p))) == 0, "imaginary points")
                    x = np.imag(p) / h
                    pairs(c, p / h, 1, "sequence", 1e-12)
                    c.close(np.sort(x[1:3]), [-1, 1], 1e-12, "first pair")
                c.true(np.all(np.abs(x) <= 1 + 1e-12), "points inside")
                if n in (5, 9, 17, 33, 65, 129, 257, 513):
                    c.close(np.sort(x), np.sort(cheb(n)), 1e-11, "complete sets are the Chebyshev points")
                if n in (6, 11, 70, 280, 514):
                    distinct(c, x, 1e-7, "sequence")


def real(rec, tier):
    seg(rec, tier, "real", REAL)
    from ormatex_py.matexp_leja import gen_leja_conjugate
    for box in [(1., -1., 3.), (-1., 1., -3.), (2., 0., 3.), (-1., 1., -.5)]:
        cid = f"empty,{box}"
        if rec.want(cid):
            with rec.case(cid) as c:
                try:
                    gen_leja_conjugate(8, *box)
                except Exception:
                    continue
                c.fail("an empty box is accepted")


def imag(rec, tier):
    seg(rec, tier, "imag", IMAG)


def circle(rec, tier):
    from ormatex_py.matexp_leja import gen_leja_circle
    th = np.exp(2j * np.pi * np.arange(4096) / 4096)
    big = {f: np.asarray(gen_leja_circle(1024, conjugate=f)) for f in (False, True)}
    for n in range(1, 600 if tier == "quick" else 1025):
        for conj in (False, True):
            cid = f"circle,n={n},conjugate={conj}"
            if rec.want(cid):
                with rec.case(cid, n > 3) as c:
                    z = np.asarray(gen_leja_circle(n, conjugate=conj))
                    c.equal(z.shape, (n,), "number of points")
                    c.close(np.abs(z), np.ones(n), 1e-12, "points on the circle")
                    c.close(z, big[conj][:n], 1e-12, "prefix of the longer sequence")
                    if n & (n - 1) == 0:
                        d = np.abs(z[:, None] - np.exp(2j * np.pi * np.arange(n) / n)[None, :])
                        c.true(np.all(np.min(d, axis=0) < 1e-11), "not the complete set of roots of unity")
                    if conj and n > 2:
                        pairs(c, z, 2, "sequence", 1e-12)
    z = big[False]
    for n in range(1, 512):
        cid = f"circle-greedy,n={n}"
        if rec.want(cid):
            with rec.case(cid, n > 3) as c:
                # the next point maximizes the product of the distances on the circle
                best = np.max(np.sum(np.log(np.maximum(np.abs(th[:, None] - z[None, :n]), 1e-300)), axis=1))
                got = np.sum(np.log(np.abs(z[n] - z[:n])))
                c.true(got >= best - 1e-9, f"point {n} is not the farthest: log product {got} < {best}")


def imagfast(rec, tier):
    from ormatex_py.matexp_leja import gen_complex_conj_leja_fast, gen_leja_fast
    for beta in (2.0, 1.0, -2.0, 5.0, 0.7):
        big = np.asarray(gen_complex_conj_leja_fast(beta, 120))
        for n in range(3, 121):
            cid = f"imagfast,beta={beta:g},n={n}"
            if rec.want(cid):
                with rec.case(cid, n > 3) as c:
                    z = np.asarray(gen_complex_conj_leja_fast(beta, n))
                    c.equal(z.shape, (n,), "number of points")
                    c.close(z[0], 0.0, 1e-15, "the first point is 0")
                    c.true(np.max(np.abs(np.real(z))) == 0, "imaginary points")
                    c.true(np.max(np.abs(np.imag(z))) <= abs(beta) * (1 + 1e-6), "points in the interval")
                    pairs(c, z / beta, 1, "sequence", 1e-6)
                    c.close(np.sort(np.imag(z[1:3])), [-abs(beta), abs(beta)], 1e-6, "first pair")
                    c.close(z, big[:n], 1e-6, "prefix of the longer sequence", scale=abs(beta))
                    distinct(c, z / beta, 1e-4, "sequence")


SETS = [[1., 2., 3.], [0., 1., 4., 9.], [-2., -1., 0., 1., 2.], [-3., -2.9, 0., .1, 5.], [1., -1., 1j, -1j], [0., 1j, -1j, 2j, -2j], [-1., 1., .5 + .5j, .5 - .5j, 0.],
        [5.], [1., 2.], [-1e3, -1., 0., 1e-3, .5], [-.5, .3, .2, 7., 1., -4.], [1 + 1j, 1 - 1j, -1 + 1j, -1 - 1j, 0., 3.]]


def greedy(c, z, key, what):
    for i in range(1, len(z)):
        prod = [np.prod(np.abs(x - z[:i])) for x in z[i:]]
        c.true(prod[0] >= np.max(prod) * (1 - 1e-9), f"{what}: point {i} ({z[i]}) is not the farthest of the remaining ones")
    c.true(key(z[0]) == max(key(x) for x in z), f"{what}: the first point is not the largest")


def reorder(rec, tier):
    from ormatex_py.matexp_poly import leja_seq_reordering
    from ormatex_py.matexp_leja import gen_leja_conjugate, gen_leja_fast
    for k, S in enumerate(SETS):
        for p in itertools.permutations(range(len(S))):
            cid = f"reorder,{k}," + "".join(map(str, p))
            if rec.want(cid):
                with rec.case(cid, len(S) > 3) as c:
                    x = np.array([S[i] for i in p])
                    x0 = x.copy()
                    z = np.asarray(leja_seq_reordering(x))
                    c.same(x, x0, "the argument is changed")
                    c.same(np.sort_complex(z), np.sort_complex(x0), "the set of points changes")
                    greedy(c, z, lambda v: (np.real(v), np.imag(v)), "order")
    for n in (5, 16, 33, 64):
        for name, x in (("linspace", np.linspace(-2, 2, n)), ("roots", np.exp(2j * np.pi * (np.arange(n) + .3) / n)), ("fast", gen_leja_fast(-2., 2., n)),
                        ("conj", gen_leja_conjugate(n, -3., 0., 1.)[0]), ("quad", -np.arange(n) ** 2 / n)):
            cid = f"reorder,{name},{n}"
            if rec.want(cid):
                with rec.case(cid) as c:
                    z = np.asarray(leja_seq_reordering(x))
                    c.same(np.sort_complex(z), np.sort_complex(np.asarray(x)), "the set of points changes")
                    greedy(c, z, lambda v: (np.real(v), np.imag(v)), "order")


def pad(rec, tier):
    import jax.numpy as jnp
    from ormatex_py.matexp_poly import leja_seq_pad_zeros
    for p in range(1, 7):
        for name, x in (("real", np.array([2., -2., 0., 1.])), ("cplx", np.array([2., -2., 1j, -1j])), ("one", np.array([3.]))):
            cid = f"pad,{name},{p}"
            if rec.want(cid):
                with rec.case(cid) as c:
                    z = np.asarray(leja_seq_pad_zeros(jnp.asarray(x), p))
                    c.equal(z.shape, (len(x) + p,), "number of points")
                    c.same(z[p:], x.astype(z.dtype), "the sequence is kept")
                    c.true(np.all(np.abs(z[:p]) <= 1e-10) and np.all(np.imag(z[:p]) == 0), f"leading zeros: {z[:p]}")
                    c.true(len(set(z[:p])) == p, "the leading zeros can be told apart")
