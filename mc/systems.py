"""
Test systems with hand-written derivatives.  Each entry gives the jax system (a
subclass of the library's system class, built lazily) and, in plain numpy, the
right-hand side f, its Jacobian J and its time derivative ft.  `g` is the extra
argument that the callback hands to the right-hand side ({'g': value}).
"""
import functools
import numpy as np


def np_systems():
    """name -> (n, f(t,u,g), J(t,u,g), ft(t,u,g))  in numpy (works in longdouble too)"""
    S = {}

    def add(name, n, f, J, ft):
        S[name] = (n, f, J, ft)

    # scalar, non linear, autonomous
    add("logistic1", 1,
        lambda t, u, g: np.array([1.5 * u[0] * (1 - u[0] / 3) + g]),
        lambda t, u, g: np.array([[1.5 - u[0]]]),
        lambda t, u, g: np.array([0 * u[0]]))
    # two species, autonomous
    add("lv2", 2,
        lambda t, u, g: np.array([0.8 * u[0] - 0.5 * u[0] * u[1] + g, -0.6 * u[1] + 0.3 * u[0] * u[1]]),
        lambda t, u, g: np.array([[0.8 - 0.5 * u[1], -0.5 * u[0]], [0.3 * u[1], -0.6 + 0.3 * u[0]]]),
        lambda t, u, g: 0 * u)
    # non autonomous, non linear, couples time and state
    add("nonauto3", 3,
        lambda t, u, g: np.array([-u[0] + np.sin(2 * t) * u[1] + g, u[0] * u[2] - 2 * u[1] + np.cos(t), -0.5 * u[2] ** 2 + t * t]),
        lambda t, u, g: np.array([[-1 + 0 * t, np.sin(2 * t), 0 * t], [u[2], -2 + 0 * t, u[0]], [0 * t, 0 * t, -u[2]]]),
        lambda t, u, g: np.array([2 * np.cos(2 * t) * u[1], -np.sin(t), 2 * t]))
    # time dependence only in a coefficient, state enters through transcendental functions
    add("trig2", 2,
        lambda t, u, g: np.array([np.sin(u[1]) - 0.3 * u[0] * np.exp(-0.4 * t), np.cos(u[0]) * (1 + 0.5 * t) - u[1] + g]),
        lambda t, u, g: np.array([[-0.3 * np.exp(-0.4 * t), np.cos(u[1])], [-np.sin(u[0]) * (1 + 0.5 * t), -1 + 0 * t]]),
        lambda t, u, g: np.array([0.12 * u[0] * np.exp(-0.4 * t), 0.5 * np.cos(u[0])]))
    # linear in the state with constant forcing
    A4 = np.array([[-0.5, 0.2, 0, 0], [0.5, -1.0, 0, 0.3], [0, 0.8, -2.0, 0], [0, 0, 2.0, -0.3]])
    add("linear4", 4,
        lambda t, u, g: A4 @ u + np.array([0.1, 0, -0.2, 0.3]) + g,
        lambda t, u, g: A4 + 0 * t,
        lambda t, u, g: 0 * u)
    # stiff diagonal with quadratic coupling, size 6
    d6 = np.array([-40.0, -10.0, -3.0, -1.0, -0.2, 0.1])
    add("stiff6", 6,
        lambda t, u, g: d6 * u + 0.2 * np.roll(u, 1) * u[::-1] + g * np.cos(3 * t),
        lambda t, u, g: np.diag(d6 + 0 * t) + 0.2 * (np.diag(u[::-1]) @ np.roll(np.eye(6), 1, axis=0) + np.diag(np.roll(u, 1)) @ np.eye(6)[::-1]),
        lambda t, u, g: -3 * g * np.sin(3 * t) * np.ones(6) + 0 * u)
    return S


@functools.lru_cache(None)
def jax_systems():
    """name -> instance; the right-hand side is written with jnp and takes
    frhs_kwargs={'g': value}"""
    import jax.numpy as jnp
    from ormatex_py.ode_sys import OdeSys

    def G(kw):
        return kw.get("frhs_kwargs", {}).get("g", 0.0)

    class Logistic(OdeSys):
        r: float

        def __init__(self, r=1.5):
            super().__init__()
            self.r = r

        def _frhs(self, t, u, **kw):
            return self.r * u * (1 - u / 3) + G(kw)

    class LV(OdeSys):
        def _frhs(self, t, u, **kw):
            return jnp.array([0.8 * u[0] - 0.5 * u[0] * u[1] + G(kw), -0.6 * u[1] + 0.3 * u[0] * u[1]])

    class NonAuto(OdeSys):
        def _frhs(self, t, u, **kw):
            return jnp.array([-u[0] + jnp.sin(2 * t) * u[1] + G(kw), u[0] * u[2] - 2 * u[1] + jnp.cos(t), -0.5 * u[2] ** 2 + t * t])

    class Trig(OdeSys):
        def _frhs(self, t, u, **kw):
            return jnp.array([jnp.sin(u[1]) - 0.3 * u[0] * jnp.exp(-0.4 * t), jnp.cos(u[0]) * (1 + 0.5 * t) - u[1] + G(kw)])

    class Linear(OdeSys):
        def _frhs(self, t, u, **kw):
            A4 = jnp.array([[-0.5, 0.2, 0, 0], [0.5, -1.0, 0, 0.3], [0, 0.8, -2.0, 0], [0, 0, 2.0, -0.3]])
            return A4 @ u + jnp.array([0.1, 0, -0.2, 0.3]) + G(kw)

    class Stiff(OdeSys):
        def _frhs(self, t, u, **kw):
            d6 = jnp.array([-40.0, -10.0, -3.0, -1.0, -0.2, 0.1])
            return d6 * u + 0.2 * jnp.roll(u, 1) * u[::-1] + G(kw) * jnp.cos(3 * t)

    return {"logistic1": Logistic(), "lv2": LV(), "nonauto3": NonAuto(), "trig2": Trig(), "linear4": Linear(), "stiff6": Stiff()}


def states(n):
    i = np.arange(n)
    return {"zero": np.zeros(n), "ones": np.ones(n), "mix": (-1.0) ** i * (i + 1) / 2.0, "pos": 0.3 + 0.4 * i,
            "big": 50.0 + 7 * (i % 3), "small": 1e-3 * (1 + i)}
