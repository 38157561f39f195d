"""Every solver paired with a well-behaved problem family of its kind."""

import jax
import jax.numpy as jnp
import numpy as np
import optax
import optimistix as optx
from hypothesis import strategies as st

from . import problems as P, solvers as V

ENTRY = dict(
    root=optx.root_find, fp=optx.fixed_point, lsq=optx.least_squares, min=optx.minimise
)

ROOT = {
    **V.ROOT, **V.ROOT_NC,
    "BestNewton": lambda r, a: optx.BestSoFarRootFinder(optx.Newton(r, a)),
    "BestChord": lambda r, a: optx.BestSoFarRootFinder(optx.Chord(r, a)),
}
FP = {
    "FPI": lambda r, a: optx.FixedPointIteration(r, a),
    "FPIdamp": lambda r, a: optx.FixedPointIteration(r, a, damp=0.3),
    "FPItwo": lambda r, a: optx.FixedPointIteration(r, a, norm=optx.two_norm),
    "BestFPI": lambda r, a: optx.BestSoFarFixedPoint(optx.FixedPointIteration(r, a)),
}
LSQ = {
    **V.LSQ, **V.LSQ_CUSTOM,
    "BestGN": lambda r, a: optx.BestSoFarLeastSquares(optx.GaussNewton(r, a)),
    "BestLM": lambda r, a: optx.BestSoFarLeastSquares(optx.LevenbergMarquardt(r, a)),
}
MIN = {
    **V.QN, **V.CG, **V.MIN_CUSTOM,
    "GradientDescent": lambda r, a: optx.GradientDescent(0.1, r, a),
    "OptaxAdam": lambda r, a: optx.OptaxMinimiser(optax.adam(0.1), r, a),
    "OptaxSGD": lambda r, a: optx.OptaxMinimiser(optax.sgd(0.1, momentum=0.3), r, a),
    "NelderMead": lambda r, a: optx.NelderMead(r, a),
    "BestBFGS": lambda r, a: optx.BestSoFarMinimiser(optx.BFGS(r, a)),
    "BestNM": lambda r, a: optx.BestSoFarMinimiser(optx.NelderMead(r, a)),
    "BestOptax": lambda r, a: optx.BestSoFarMinimiser(
        optx.OptaxMinimiser(optax.adam(0.3), r, a)
    ),
}
SOLVERS = dict(root=ROOT, fp=FP, lsq=LSQ, min=MIN)


def everything():
    for kind, group in SOLVERS.items():
        for name, make in group.items():
            yield kind, name, make


class Family:
    """A problem family of one kind on one layout: raw(z, p) in flat coordinates."""

    def __init__(self, kind, lay, mild=True, m=None, out=None, resid=False):
        self.kind, self.lay = kind, lay
        n = self.n = lay.n
        self.out = lay
        if kind == "root":
            self.raw, self.strategy = P.root_fn("tanh"), P.root_data(n, mild)
            self.params = lambda d: P.root_params(n, d)
            self.out = out or lay
        elif kind == "fp":
            self.raw, self.strategy = P.contraction_fn("sin"), P.contraction_data(n, 80)
            self.params = lambda d: P.contraction_params(n, d)
        elif kind == "lsq":
            m = self.m = n + 1 if m is None else m
            self.raw = P.lsq_fn("tanh")
            self.strategy = P.lsq_data(m, n, mild, resid)
            self.params = lambda d: P.lsq_params(m, n, d)
            self.out = out or P.Layout("out", {"u": P.S(m - 1), "v": P.S()})
        else:
            self.raw, self.strategy = P.convex_fn("sqrt"), P.convex_data(n, mild=mild)
            self.params = lambda d: P.convex_params(n, d)
            self.out = None

    def fn(self, y, p):
        r = self.raw(self.lay.flat(y), p)
        return r if self.out is None else self.out.unflat(r)

    def start(self, d, p, name=""):
        y0 = P.start(d)
        if "Chord" in name:
            y0 = p["c"] + 0.05 * (y0 - p["c"])
        return y0

    def loss(self, z, p):
        """What a best-so-far wrapper or a search compares."""
        r = self.raw(z, p)
        if self.kind == "min":
            return r
        if self.kind == "fp":
            r = r - z
        return 0.5 * jnp.sum(r**2)
