"""C03: least squares."""

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optimistix as optx
from hypothesis import strategies as st

from . import problems as P, solvers as V
from .c02 import tols
from .common import Lazy, npt, steps_bucket
from .core import Cell, check, lib

TOL = [1e-4, 1e-6, 1e-8]
OUTS = {
    "vec": lambda m: P.Layout("v", P.S(m)),
    "tree": lambda m: P.Layout(
        "t", {"u": P.S(m - 1), "v": P.S()}, perm=list(range(m))[::-1]
    ),
    "nested": lambda m: P.Layout("n", [P.S(1), (P.S(m - 1), None)]),
}


def solve_cell(name, make, lay, m, out, kind, phi="tanh", must=True, examples=20,
               max_steps=400, slack=1.0):
    """kind: affine (any residual), zero (nonlinear, zero residual), small (nonlinear,
    small residual: the minimiser comes from a NumPy Gauss-Newton/Newton polish)."""
    n = lay.n
    raw = P.lsq_fn(phi)
    ol = OUTS[out](m) if m > 1 else P.LAYOUTS["scalar"]
    strat = P.lsq_data(m, n, mild=kind != "affine", resid=kind != "zero")

    def build():
        def fn(y, p):
            return ol.unflat(raw(lay.flat(y), p))

        @eqx.filter_jit
        def run(y0, p, rtol, atol):
            sol = optx.least_squares(
                fn, make(rtol, atol), lay.unflat(y0), p, max_steps=max_steps, throw=False
            )
            z = lay.flat(sol.value)
            r, J = raw(z, p), jax.jacfwd(raw)(z, p)
            H = jax.hessian(lambda q: 0.5 * jnp.sum(raw(q, p) ** 2))(z)
            return V.summary(sol), z, r, J, H

        return run

    run = Lazy(build)

    def judge(d):
        p = P.lsq_params(m, n, d)
        if kind == "small":
            p = dict(p, r0=p["r0"] * 0.05)
        y0 = P.start(d)
        rtol, atol = TOL[d["rtol"]], TOL[d["atol"]]
        s, z, r, J, H = npt(lib(run, y0, p, rtol, atol))
        if must:
            check(s["code"] == 0, lambda: f"no success: {s}")
        if s["code"] != 0:
            return None
        # Accuracy implied by the stopping rule: the last change of y is below
        # atol + rtol|y| and that of f below atol + rtol|f|; both tested problems
        # contract at least linearly with moderate factor, f is quadratic around the
        # minimum (hence the square root).
        f = 0.5 * float(r @ r)
        ystep = atol + rtol * np.abs(z).max()
        acc = slack * (20 * n * ystep) + 1e-7 * np.sqrt(1 + 2 * f)
        if kind == "small":
            # distance to the stationary point estimated by one Newton step
            err = np.abs(np.linalg.solve(H, J.T @ r)).max()
            ref = "a stationary point"
        else:
            err = np.abs(z - p["c"]).max()
            ref = p["c"]
        check(err <= acc, lambda: f"success at {z}, {err:.3e} (> {acc:.3e}) from {ref}; "
              f"steps {s['steps']}, rtol {rtol}, atol {atol}")
        if np.abs(y0 - p["c"]).max() < 100 * atol:
            return None
        return f"{kind}, " + steps_bucket(s["steps"])

    return Cell(f"{name}/{lay.name}/{m}{out}/{kind}", tols(strat), judge, examples)


def cells(tier):
    L = P.LAYOUTS
    out = []
    shapes = (("scalar", 3, "tree"), ("vec3", 3, "vec"), ("pair", 5, "nested"),
              ("dict", 6, "tree"))
    solvers = {
        **V.LSQ,
        "GNTwo": lambda r, a: optx.GaussNewton(r, a, norm=optx.two_norm),
        "LMRms": lambda r, a: optx.LevenbergMarquardt(r, a, norm=optx.rms_norm),
        "BestGN": lambda r, a: optx.BestSoFarLeastSquares(optx.GaussNewton(r, a)),
        "BestDogleg": lambda r, a: optx.BestSoFarLeastSquares(optx.Dogleg(r, a)),
    }
    for name, make in solvers.items():
        for lay, m, o in shapes:
            for kind in ("affine", "zero", "small"):
                if name in V.LSQ or lay == "pair":
                    out.append(solve_cell(name, make, L[lay], m, o, kind))
    for name, make in V.LSQ.items():
        out.append(solve_cell(name, make, L["wide"], 13, "nested", "small"))
    for name, make in V.LSQ_CUSTOM.items():
        for kind in ("affine", "zero"):
            out.append(
                solve_cell(name, make, L["pair"], 4, "tree", kind, must=False)
            )
    mins = {
        "BFGS": lambda r, a: optx.BFGS(r, a),
        "LBFGS": lambda r, a: optx.LBFGS(r, a),
        "DFP": lambda r, a: optx.DFP(r, a, use_inverse=False),
        "BestBFGS": lambda r, a: optx.BestSoFarMinimiser(optx.BFGS(r, a)),
        "BFGS+Dogleg": V.MIN_CUSTOM["BFGS+Dogleg+CTR"],
    }
    for name, make in mins.items():
        for kind in ("affine", "zero"):
            out.append(
                solve_cell(name, make, L["pair"], 4, "tree", kind, must=False, slack=10)
            )
    return out
