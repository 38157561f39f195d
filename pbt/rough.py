"""Rough problems: wavy or curved objectives, with a wall a little beyond the start."""

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from . import problems as P


def data(n):
    return st.fixed_dictionaries(
        dict(
            A=P.spd_data(n), c=P.vec(n), W=P.ints(3 * n, -8, 8), b=P.ints(3, -12, 12),
            a=P.ints(3, -16, 16), u=P.vec(n, 8), gap=st.integers(1, 30), y=P.vec(n, 24),
            k=st.integers(1, 40),
        )
    )


def params(n, d):
    y0 = np.array(d["y"]) / 4.0
    u = np.array(d["u"]) / 4.0
    if not np.any(u):
        u = np.eye(n)[0]
    return dict(
        A=P.spd(n, d["A"]) * 0.3, c=np.array(d["c"]) / 4.0,
        W=np.array(d["W"]).reshape(3, n) / 4.0, b=np.array(d["b"]) / 4.0,
        a=np.array(d["a"]) / 4.0, u=u,
        # the wall lies at u.z = w, a little beyond the start
        w=np.float64(u @ y0 + d["gap"] / 10.0 * np.linalg.norm(u)),
        k=np.float64(d["k"] / 10.0),
    )


def wavy(z, p):
    e = z - p["c"]
    return 0.5 * e @ p["A"] @ e + jnp.sum(p["a"] * jnp.sin(p["W"] @ z + p["b"]))


def valley(z, p):
    e = z - p["c"]
    nxt = jnp.concatenate([e[1:], jnp.zeros(1)])
    return jnp.sum(e**2) + 3 * jnp.sum((nxt - e**2) ** 2)


def wall(kind, z, p):
    """0 on the near side; NaN, inf, or growing without bound on the far side."""
    gap = p["w"] - p["u"] @ z
    if kind == "nan":
        return jnp.where(gap > 0, 0.0, jnp.nan)
    if kind == "inf":
        return jnp.where(gap > 0, 0.0, jnp.inf)
    if kind == "log":
        return -0.3 * jnp.log(gap)
    if kind == "exp":
        return 0.1 * jnp.exp(jnp.exp(-p["k"] * gap))
    return 0.0


def objective(shape, wallkind):
    base = dict(wavy=wavy, valley=valley)[shape]
    return lambda z, p: base(z, p) + wall(wallkind, z, p)


def residual(shape, wallkind, n):
    def f(z, p):
        e = z - p["c"]
        lin = p["A"] @ e + 0.3 * jnp.sin(2 * e[::-1])
        if shape == "wavy":
            extra = 0.5 * p["a"] * jnp.sin(p["W"] @ z + p["b"])
        else:
            extra = jnp.stack([e[0] ** 2 - 1.0, e[-1] ** 2 - e[0], 0.5 * e[0] * e[-1]])
        gap = p["w"] - p["u"] @ z
        tail = {
            "nan": lambda: jnp.where(gap > 0, 1.0, jnp.nan),
            "inf": lambda: jnp.where(gap > 0, 1.0, jnp.inf),
            "log": lambda: 0.5 * jnp.log(gap),
            "exp": lambda: 0.1 * jnp.exp(jnp.exp(-p["k"] * gap)),
            "none": lambda: jnp.array(0.5),
        }[wallkind]()
        return jnp.concatenate([lin, extra, tail[None]])

    return f


class Rough:
    """A rough objective or residual with the interface of catalog.Family."""

    def __init__(self, kind, lay, shape="wavy", wallkind="none"):
        self.kind, self.lay = kind, lay
        n = self.n = lay.n
        self.strategy = data(n)
        self.params = lambda d: params(n, d)
        if kind == "min":
            self.raw, self.out = objective(shape, wallkind), None
        else:
            self.raw = residual(shape, wallkind, n)
            self.out = P.Layout("out", (P.S(n), {"q": P.S(3), "t": P.S()}))
        self.name = f"{shape}-{wallkind}"

    def fn(self, y, p):
        r = self.raw(self.lay.flat(y), p)
        return r if self.out is None else self.out.unflat(r)

    def start(self, d, p, name=""):
        return np.array(d["y"]) / 4.0

    def loss(self, z, p):
        r = self.raw(z, p)
        return r if self.kind == "min" else 0.5 * jnp.sum(r**2)
