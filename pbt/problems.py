"""Generators: pytree layouts and problem families whose answer is known by construction.

Everything numeric is drawn as small integers and scaled afterwards, so that cases shrink
to readable ones and are JSON-serialisable; nothing is drawn and then rejected.
"""

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st


# ----------------------------------------------------------------------------- layouts


class Layout:
    """A bijection between R^n and a pytree of arrays."""

    def __init__(self, name, tree, perm=None, dtype=jnp.float64):
        # `tree` is a pytree with shape tuples wrapped in `S` at the leaves.
        self.name = name
        leaves, self.treedef = jax.tree_util.tree_flatten(
            tree, is_leaf=lambda x: isinstance(x, S)
        )
        self.shapes = [l.shape for l in leaves]
        self.sizes = [int(np.prod(s)) for s in self.shapes]
        self.n = sum(self.sizes)
        self.perm = np.arange(self.n) if perm is None else np.asarray(perm)
        self.inv = np.argsort(self.perm)
        self.dtype = dtype

    def unflat(self, z):
        z = jnp.asarray(z)[self.perm]
        out, i = [], 0
        for shape, size in zip(self.shapes, self.sizes):
            out.append(jnp.reshape(z[i : i + size], shape).astype(self.dtype))
            i += size
        return jax.tree_util.tree_unflatten(self.treedef, out)

    def np_unflat(self, z):
        z = np.asarray(z)[self.perm]
        out, i = [], 0
        for shape, size in zip(self.shapes, self.sizes):
            out.append(np.reshape(z[i : i + size], shape))
            i += size
        return jax.tree_util.tree_unflatten(self.treedef, out)

    def flat(self, y):
        leaves = jax.tree_util.tree_leaves(y)
        return jnp.concatenate([jnp.reshape(l, (-1,)) for l in leaves])[self.inv]

    def np_flat(self, y):
        leaves = [np.asarray(l) for l in jax.tree_util.tree_leaves(y)]
        return np.concatenate([l.reshape(-1) for l in leaves])[self.inv]


class S:
    def __init__(self, *shape):
        self.shape = shape


def layouts():
    L = [
        Layout("scalar", S()),
        Layout("vec1", S(1)),
        Layout("vec2", S(2)),
        Layout("vec3", S(3)),
        Layout("vec4", S(4)),
        Layout("mat22", S(2, 2)),
        Layout("pair", (S(), S(2)), perm=[1, 0, 2]),
        Layout("dict", {"b": S(1), "a": [S(2), {"c": S()}]}, perm=[3, 1, 0, 2]),
        Layout("none", (S(2), None, {"x": S(1)})),
        Layout("scalars2", [S(), S()], perm=[1, 0]),
        Layout("scalars3", {"a": S(1), "b": (S(), S(1, 1))}, perm=[1, 2, 0]),
        Layout("scalars4", (S(), {"x": S(1), "y": S()}, S(1, 1))),
        Layout("vec11", S(11)),
        Layout("wide", {"m": S(2, 3), "t": (S(), S(1, 2), None), "v": S(2)},
               perm=[7, 0, 10, 3, 1, 9, 2, 5, 8, 4, 6]),
    ]
    return {l.name: l for l in L}


LAYOUTS = layouts()


# --------------------------------------------------------------------------- raw draws


def ints(n, lo, hi):
    return st.lists(st.integers(lo, hi), min_size=n, max_size=n)


def vec(n, bound=16):
    return ints(n, -bound, bound)


def n_angles(n):
    return n * (n - 1) // 2


def rotation(n, angles):
    q = np.eye(n)
    k = 0
    for i in range(n):
        for j in range(i + 1, n):
            c, s = np.cos(angles[k] * 0.11), np.sin(angles[k] * 0.11)
            g = np.eye(n)
            g[i, i] = g[j, j] = c
            g[i, j], g[j, i] = -s, s
            q = q @ g
            k += 1
    return q


def angles(n):
    return ints(n_angles(n), -15, 15)


def matrix_data(n):
    """A nonsingular n x n matrix with singular values in [0.5, 3]."""
    return st.fixed_dictionaries(
        dict(s=ints(n, 0, 25), p=angles(n), q=angles(n), sign=st.booleans())
    )


def matrix(n, d):
    m = rotation(n, d["p"]) @ np.diag(0.5 + 0.1 * np.array(d["s"])) @ rotation(n, d["q"])
    return -m if d["sign"] else m


def smin(d):
    return 0.5 + 0.1 * min(d["s"])


def spd_data(n, hi=25):
    return st.fixed_dictionaries(dict(s=ints(n, 0, hi), p=angles(n)))


def spd(n, d):
    q = rotation(n, d["p"])
    return q @ np.diag(0.5 + 0.1 * np.array(d["s"])) @ q.T


def tall_data(m, n):
    """A full-column-rank m x n matrix with singular values in [0.5, 3]."""
    return st.fixed_dictionaries(dict(s=ints(n, 0, 25), p=angles(m), q=angles(n)))


def tall(m, n, d):
    s = np.zeros((m, n))
    for i in range(n):
        s[i, i] = 0.5 + 0.1 * d["s"][i]
    return rotation(m, d["p"]) @ s @ rotation(n, d["q"])


PHI = {"tanh": jnp.tanh, "sin": jnp.sin, "atan": jnp.arctan}
NPPHI = {"tanh": np.tanh, "sin": np.sin, "atan": np.arctan}
# derivative bound 1, phi(0) = 0, second derivative bounded by 1


# -------------------------------------------------------------------------- root systems
#
# f(z) = A (z - c) + eps * smin(A) * Q phi(Q^T (z - c)),  eps <= 0.3:
# the Newton (and Chord) map is a contraction towards the only root c from anywhere.


def root_data(n, mild=True, c_bound=16, y_bound=24):
    return st.fixed_dictionaries(
        dict(
            A=matrix_data(n),
            w=angles(n),
            e=st.integers(1, 30) if mild else st.just(0),
            c=vec(n, c_bound),
            y=vec(n, y_bound),
        )
    )


def root_params(n, d):
    A = matrix(n, d["A"])
    W = rotation(n, d["w"])
    return dict(
        A=A,
        W=W,
        e=np.float64(0.01 * d["e"] * smin(d["A"])),
        c=np.array(d["c"]) / 4.0,
    )


def root_fn(phi):
    phi = PHI[phi]

    def f(z, p):
        u = z - p["c"]
        return p["A"] @ u + p["e"] * (p["W"] @ phi(p["W"].T @ u))

    return f


# ------------------------------------------------------------------------- contractions
#
# g(z) = c + kappa * Q1 phi(Q2 (z - c)), kappa <= 0.9: Lipschitz constant kappa, fixed
# point c.


def contraction_data(n, kmax=90):
    return st.fixed_dictionaries(
        dict(
            k=st.integers(0, kmax),
            p=angles(n),
            q=angles(n),
            c=vec(n),
            y=vec(n, 24),
        )
    )


def contraction_params(n, d):
    return dict(
        M=0.01 * d["k"] * rotation(n, d["p"]),
        Q=rotation(n, d["q"]),
        c=np.array(d["c"]) / 4.0,
    )


def contraction_fn(phi):
    phi = PHI[phi]

    def g(z, p):
        return p["c"] + p["M"] @ phi(p["Q"] @ (z - p["c"]))

    return g


# ------------------------------------------------------------------------ least squares
#
# r(z) = A (z - c) + eps * smin(A)/m * V phi(W (z-c)) + r0 with A^T r0 = 0. With r0 = 0
# the minimiser is c; with eps = 0 it is c as well and the optimal residual is r0.


def lsq_data(m, n, mild=True, resid=False):
    return st.fixed_dictionaries(
        dict(
            A=tall_data(m, n),
            w=angles(n),
            v=angles(m),
            e=st.integers(1, 30) if mild else st.just(0),
            r=vec(m - n, 12) if resid and m > n else st.just([]),
            c=vec(n),
            y=vec(n, 24),
        )
    )


def lsq_params(m, n, d):
    A = tall(m, n, d["A"])
    # columns n.. of the left rotation span the orthogonal complement of range(A)
    U = rotation(m, d["A"]["p"])
    r0 = U[:, n:] @ (np.array(d["r"]) / 4.0) if d["r"] else np.zeros(m)
    V = rotation(m, d["v"])[:, :n]
    return dict(
        A=A,
        W=rotation(n, d["w"]),
        V=V,
        e=np.float64(0.01 * d["e"] * smin(d["A"])),
        r0=r0,
        c=np.array(d["c"]) / 4.0,
    )


def lsq_fn(phi):
    phi = PHI[phi]

    def r(z, p):
        u = z - p["c"]
        return p["A"] @ u + p["e"] * (p["V"] @ phi(p["W"] @ u)) + p["r0"]

    return r


# ------------------------------------------------------------------------------- convex
#
# F(z) = 0.5 u^T H u + eps * sum_i psi((W u)_i) + offset,  u = z - c, psi convex, even,
# psi'' in [0, 1]: strongly convex with modulus >= 0.5 and minimiser c.


def convex_data(n, hi=25, mild=True):
    return st.fixed_dictionaries(
        dict(
            H=spd_data(n, hi),
            w=angles(n),
            e=st.integers(0, 20) if mild else st.just(0),
            b=st.integers(-8, 8),
            c=vec(n),
            y=vec(n, 24),
        )
    )


def convex_params(n, d):
    return dict(
        H=spd(n, d["H"]),
        W=rotation(n, d["w"]),
        e=np.float64(0.1 * d["e"]),
        b=np.float64(d["b"]),
        c=np.array(d["c"]) / 4.0,
    )


PSI = {
    "logcosh": lambda x: jnp.logaddexp(x, -x) - np.log(2.0),
    "sqrt": lambda x: jnp.sqrt(1 + x**2) - 1,
}


def convex_fn(psi):
    psi = PSI[psi]

    def F(z, p):
        u = z - p["c"]
        return 0.5 * u @ (p["H"] @ u) + p["e"] * jnp.sum(psi(p["W"] @ u)) + p["b"]

    return F


def start(d):
    return np.array(d["y"]) / 4.0
