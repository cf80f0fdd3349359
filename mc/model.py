"""
Reference model of the integrators: one step of every method, written from the
formulas in the documentation (Hochbruck/Ostermann/Schweitzer, Luan/Ostermann,
the EPI papers and the classical Runge-Kutta tables) in 80 bit arithmetic, with
no code shared with the library.

step(method, f, jac, ft, lin, t, y, prev, h) where
  f(t,y)      right-hand side
  jac(t,y)    matrix used as Jacobian
  ft(t,y)     time derivative of f
  lin         matrix L of the split methods (or None)
  prev        None or (t_prev, y_prev)
"""
import numpy as np
from mc import ref

LD = ref.LD

ORDER = {"exprb2": 2, "exprb3": 3, "pexprb4": 4, "epi2": 2, "epi3": 3, "exprb2_dense": 2, "exprb2_pfd": 2,
         "exp1": 1, "exp2": 2, "exp3": 3, "exp1_dense": 1, "exp2_dense": 2, "exp3_dense": 3,
         "epi2_leja_re": 2, "epi2_leja_im": 2, "epi3_leja_im": 3, "rk4": 4}


def _remainder(f, J, v, t, y, t2, y2):
    return f(t2, y2) - f(t, y) - J @ (y2 - y) - v * (t2 - t)


def step(method, f, jac, ft, lin, t, y, prev, h):
    t, h, y = LD(t), LD(h), ref.ld(y)
    F = f(t, y)
    if method == "rk4":
        k1 = F
        k2 = f(t + h / 2, y + h / 2 * k1)
        k3 = f(t + h / 2, y + h / 2 * k2)
        k4 = f(t + h, y + h * k3)
        return y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    if method.startswith("exp") and method[3] in "123":
        L = ref.ld(lin)
        p = ref.phis(h * L, 2)
        if method in ("exp1", "exp1_dense"):
            return y + h * (p[1] @ F)
        z = np.zeros_like(F)
        if method in ("exp2", "exp2_dense"):
            c2 = LD(1) if method == "exp2" else LD(2) / 3
            y2 = y + c2 * h * (ref.phi(c2 * h * L, 1) @ F)
            r2 = _remainder(f, L, z, t, y, t + c2 * h, y2)
            return y + h * (p[1] @ F) + h / c2 * (p[2] @ r2)
        c = LD(2) / 3
        q = ref.phis(c * h * L, 2)
        y2 = y + c * h * (q[1] @ F)
        r2 = _remainder(f, L, z, t, y, t + c * h, y2)
        y3 = y2 + c * h * (q[2] @ r2)             # 4/(9 c2) = c2 for c2 = 2/3
        r3 = _remainder(f, L, z, t, y, t + c * h, y3)
        return y + h * (p[1] @ F) + LD(3) / 2 * h * (p[2] @ r3)
    J, v = ref.ld(jac(t, y)), ref.ld(ft(t, y))
    if method == "exp_pfd":
        return ref.expm(h * J) @ y
    p = ref.phis(h * J, 4)
    y1 = y + h * (p[1] @ F) + h * h * (p[2] @ v)
    if method in ("exprb2", "epi2", "exprb2_dense", "exprb2_pfd", "epi2_leja_re", "epi2_leja_im"):
        return y1
    if method == "epi3_leja_im" and prev is None:
        return y1
    if method == "exprb3" or (method == "epi3" and prev is None):
        return y1 + 2 * h * (p[3] @ _remainder(f, J, v, t, y, t + h, y1))
    if method in ("epi3", "epi3_leja_im"):
        tp, yp = LD(prev[0]), ref.ld(prev[1])
        return y1 + LD(2) / 3 * h * (p[2] @ _remainder(f, J, v, t, y, tp, yp))
    if method == "pexprb4":
        c = h / 2
        q = ref.phis(c * J, 2)
        y2 = y + c * (q[1] @ F) + c * c * (q[2] @ v)
        r2 = _remainder(f, J, v, t, y, t + c, y2)
        r3 = _remainder(f, J, v, t, y, t + h, y1)
        return y1 + h * (p[3] @ (16 * r2 - 2 * r3)) + h * (p[4] @ (-48 * r2 + 12 * r3))
    raise KeyError(method)


def solve(f, t0, y0, T, n=400):
    """accurate solution at t0+T: classical Runge-Kutta of order 4 with two levels of Richardson extrapolation"""
    def rk(N):
        h = LD(T) / N
        y = ref.ld(y0)
        for i in range(N):
            y = step("rk4", f, None, None, None, LD(t0) + i * h, y, None, h)
        return y
    a, b, c = rk(n), rk(2 * n), rk(4 * n)
    ab, bc = b + (b - a) / 15, c + (c - b) / 15
    return bc + (bc - ab) / 31
