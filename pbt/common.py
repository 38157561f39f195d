"""Helpers shared by the checks."""

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optimistix as optx

from .core import Cell, Violation, check, lib
from .solvers import rcode, summary

TOLS = (1e-4, 1e-6, 1e-8)


def npt(tree):
    return jax.tree_util.tree_map(np.asarray, tree)


class Lazy:
    """Builds (and therefore compiles) a cell's jitted function on first use."""

    def __init__(self, make):
        self.make = make
        self.fn = None

    def __call__(self, *args):
        if self.fn is None:
            self.fn = self.make()
        # Python numbers would be compile-time constants to `filter_jit`.
        return self.fn(*(np.asarray(a) if type(a) in (float, int, bool) else a for a in args))


def steps_bucket(n):
    n = int(n)
    for lo, hi in ((0, 1), (2, 4), (5, 9), (10, 19), (20, 49), (50, 99), (100, 199)):
        if n <= hi:
            return f"{lo}-{hi} steps"
    return "200+ steps"


def robust(compare):
    """Judges a case by comparing two computations whose rounding may differ. A tie (a
    comparison inside the algorithm decided by rounding) makes them part company at
    special points only, so a mismatch counts when it is still there after moving the
    start by two small fixed offsets."""

    def judge(d):
        try:
            return compare(d, 0.0)
        except Violation as v:
            for e in (1.3e-3, -2.9e-3):
                try:
                    compare(d, e)
                except Violation:
                    continue
                return None
            raise v

    return judge


def offset(y, e):
    """Moves a start by a small, coordinate-dependent offset."""
    y = np.asarray(y, dtype=float)
    return y + e * (1 + 0.37 * np.arange(y.size).reshape(y.shape))


def close(a, b, rtol=1e-7, atol=1e-9):
    la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
    return len(la) == len(lb) and all(
        np.shape(x) == np.shape(z)
        and np.allclose(np.asarray(x), np.asarray(z), rtol=rtol, atol=atol, equal_nan=True)
        for x, z in zip(la, lb)
    )


def same(a, b):
    la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
    return len(la) == len(lb) and all(
        np.array_equal(np.asarray(x), np.asarray(z), equal_nan=True)
        for x, z in zip(la, lb)
    )


class Guard:
    """Wraps a function so that a solve evaluating it more than `limit` times is stopped
    by an error instead of going on for ever."""

    def __init__(self, limit):
        self.limit = limit
        self.n = 0

    def bump(self, x):
        self.n += 1
        if self.n > self.limit:
            raise RuntimeError(f"more than {self.limit} evaluations")
        return np.zeros_like(x)

    def wrap(self, fn):
        def guarded(y, args):
            leaves, treedef = jax.tree_util.tree_flatten(y)
            x = jax.lax.stop_gradient(leaves[0])
            zero = jax.pure_callback(
                self.bump, jax.ShapeDtypeStruct(x.shape, x.dtype), x, vmap_method="sequential")
            leaves[0] = leaves[0] + jax.lax.stop_gradient(zero)
            return fn(jax.tree_util.tree_unflatten(treedef, leaves), args)

        return guarded
