"""C09: integrator state machine"""
import numpy as np
from mc.systems import jax_systems
from checks.c08 import make, split_systems, lin_of

LEVEL = "model_checking"
RULE = ("every enabled sequence of operations {step(dt1), step(dt2), step(dt1, extra argument), accept the last result, accept the result before it, "
        "reset to the first or second initial condition} up to the depth, and of {step(dt1), step(almost dt1), accept, reset to the same time with another state, reset to another time with the same state} one level less deep, run from scratch on the real integrator; after every operation time and state, "
        "and every step result, are compared with the model (current = last accepted or reset value, a step is a function of the accepted history since the last reset); "
        "non-trivial: at least one step after another operation")
BOUNDS = "depth 5 (6 in the thorough tier), 3 step sizes, 4 initial conditions, up to 2 unaccepted results, 17 methods + rk4"
ASSUME = ["the step function of the model is tabulated with newly built integrators that only ever see the accepted steps",
          "results are compared to 1e-12 (1e-9 for the Leja methods, which adapt their substep size from step to step)",
          "the dense split methods evaluate L at the first step or when the step size changes (documented), so a state dependent L is only explored with one step size"]

METHODS = ["exprb2", "exprb3", "pexprb4", "epi2", "epi3", "exprb2_dense", "exprb2_pfd", "exp_pfd", "rk4",
           "epi2_leja_re", "epi2_leja_im", "epi3_leja_im", "exp1", "exp2", "exp3", "exp1_dense", "exp2_dense", "exp3_dense"]
DT = {"S1": 0.1, "S2": 0.23, "G": 0.1, "S3": 0.1 * (1 + 1e-6)}
# R2 differs from R0 in the state only, R3 in the time only
IC = {"R0": (0.3, np.array([0.7, -0.4])), "R1": (-1.2, np.array([-0.2, 1.1])), "R2": (0.3, np.array([-0.2, 1.1])), "R3": (-1.2, np.array([0.7, -0.4]))}
RESETS = tuple(IC)


def jobs(tier):
    out = []
    slow = ("epi3_leja_im", "epi2_leja_re", "epi2_leja_im", "pexprb4")
    for m in sorted(METHODS, key=lambda m: m not in slow):
        out.append((m, "explore", dict(method=m)))
        if m.endswith("_dense") and m[3] in "123":
            out.append((m + "-varL", "explore", dict(method=m, varL=True)))
    return out


# ---- the model: abstract state = (initial condition, accepted steps, unaccepted results) --------
def enabled(st, alphabet):
    ic, acc, pend, last = st
    for op in alphabet:
        if op in ("A",) and not pend:
            continue
        if op == "B" and len(pend) < 2:
            continue
        if op in RESETS and last in RESETS:
            continue
        if op == "R0" and last is None:
            continue
        yield op


def succ(st, op):
    ic, acc, pend, last = st
    if op in DT:
        return ic, acc, (pend + ((acc, op),))[-2:], op
    if op == "A":
        return ic, pend[-1][0] + (pend[-1][1],), (), op
    if op == "B":
        return ic, pend[-2][0] + (pend[-2][1],), (), op
    return op, (), (), op


def paths(depth, alphabet):
    """all maximal operation sequences (all are of the given length and end with a step or an accept)"""
    out, states, trans = [], set(), 0
    stack = [(("R0", (), (), None), ())]
    while stack:
        st, p = stack.pop()
        states.add(st[:3])
        if len(p) == depth:
            out.append(p)
            continue
        last = len(p) == depth - 1
        for op in enabled(st, alphabet):
            if last and op in RESETS:
                continue
            trans += 1
            stack.append((succ(st, op), p + (op,)))
    out.sort()
    return out, len(states), trans


def step(I, op):
    if op == "G":
        return I.step(DT[op], frhs_kwargs={"g": 0.4})
    return I.step(DT[op])


def explore(rec, tier, method, varL=False):
    import jax.numpy as jnp
    sp = split_systems()["trig2"]
    sysj = jax_systems()["trig2"]
    split = method[:4] in ("exp1", "exp2", "exp3")
    sys = (sp[1] if varL else sp[0]) if split else sysj
    alphabet = ["S1", "S2", "G", "A", "B", "R0", "R1"]
    if varL:
        alphabet = ["S1", "A", "B", "R0", "R1"]
    slow = "leja" in method or method == "pexprb4"
    tol = 1e-9 if "leja" in method else 1e-12
    depth = 5
    if tier != "quick":
        depth = 6
    elif "leja" in method or method == "pexprb4":
        depth = 5
        alphabet = ["S1", "S2", "A", "R1"]
    seqs, nstates, ntrans = paths(depth, alphabet)
    if tier == "quick" and not varL and "leja" not in method and method != "pexprb4":
        # the extra argument and the return to the first condition one level less deep
        s5, n5, t5 = paths(5, ["S1", "S2", "A", "B", "R1"])
        s4, n4, t4 = paths(4, alphabet)
        known = {s[:4] for s in s5}
        seqs = s5 + [s for s in s4 if s not in known]
        nstates, ntrans = n5 + n4, t5 + t4
    # almost equal step sizes, resets that keep the time or the state
    if not varL:
        depth = 3 if tier == "quick" and slow else 4 if tier == "quick" or slow else 5
        s3, n3, t3 = paths(depth, ["S1", "S3", "A", "R2", "R3"])
        seqs, nstates, ntrans = seqs + [s for s in s3 if s not in set(seqs)], nstates + n3, ntrans + t3
    rec.add("states", nstates)
    rec.add("transitions", ntrans)

    def new(ic):
        return make(method, sys, IC[ic][0], jnp.asarray(IC[ic][1]))

    table = {}

    def value(ic, acc, op):
        """reference: a new integrator that has only seen the accepted steps"""
        if (ic, acc, op) not in table:
            I = new(ic)
            for o in acc:
                I.accept_step(step(I, o))
            r = step(I, op)
            table[ic, acc, op] = (float(r.t), np.asarray(r.y))
        return table[ic, acc, op]

    def current(ic, acc):
        return (IC[ic][0], IC[ic][1]) if not acc else value(ic, acc[:-1], acc[-1])

    for seq in seqs:
        cid = "-".join(seq)
        if not rec.want(cid):
            continue
        with rec.case(cid, sum(o in DT for o in seq) >= 1 and len(seq) > 1) as c:
            st = ("R0", (), (), None)
            I = new("R0")
            results = []
            pend = []
            for i, op in enumerate(seq):
                where = "-".join(seq[:i + 1])
                if op in DT:
                    r = step(I, op)
                    t, y = value(st[0], st[1], op)
                    t0 = current(st[0], st[1])[0]
                    c.close(r.y, y, tol, f"step after {where}")
                    c.close(r.t, t0 + DT[op], 1e-13, f"time of the step after {where}")
                    c.close(r.dt, DT[op], 0.0, f"step size of the step after {where}")
                    results.append((r, float(r.t), np.array(r.y)))
                    pend = (pend + [r])[-2:]
                elif op in ("A", "B"):
                    I.accept_step(pend[-1] if op == "A" else pend[-2])
                    pend = []
                else:
                    I.reset_ic(IC[op][0], jnp.asarray(IC[op][1]))
                    pend = []
                st = succ(st, op)
                t, y = current(st[0], st[1])
                c.close(I.time, t, 1e-13, f"reported time after {where}")
                c.true(I.state is not None, f"no reported state after {where}")
                c.close(I.state, y, tol, f"reported state after {where}")
            for r, t, y in results:
                c.true(float(r.t) == t and np.array_equal(np.asarray(r.y), y), "an earlier step result changed later")
            rec.add("traces_validated_against_impl")
