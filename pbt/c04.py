"""C04: minimisation of strongly convex functions."""

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optax
import optimistix as optx
from hypothesis import strategies as st

from . import problems as P, solvers as V
from .c02 import tols
from .common import Lazy, npt, steps_bucket
from .core import Cell, check, lib

TOL = [1e-4, 1e-6, 1e-8]


def solve_cell(name, make, lay, psi, must=True, examples=15, max_steps=2000, factor=100.0,
               hi=25, floor=1e-6):
    n = lay.n
    raw = P.convex_fn(psi)

    def build():
        def fn(y, p):
            return raw(lay.flat(y), p)

        @eqx.filter_jit
        def run(y0, p, rtol, atol):
            sol = optx.minimise(
                fn, make(rtol, atol), lay.unflat(y0), p, max_steps=max_steps, throw=False
            )
            z = lay.flat(sol.value)
            return V.summary(sol), z, raw(z, p)

        return run

    run = Lazy(build)

    def judge(d):
        p = P.convex_params(n, d)
        y0 = P.start(d)
        rtol, atol = TOL[d["rtol"]], TOL[d["atol"]]
        s, z, f = npt(lib(run, y0, p, rtol, atol))
        if must:
            check(s["code"] == 0, lambda: f"no success: {s}")
        if s["code"] != 0:
            return None
        # |y_diff| <= atol + rtol|y| and |f_diff| <= atol + rtol|f| at the last step.
        ytol = atol + rtol * (np.abs(z).max() + 0.01)
        acc = factor * n * ytol + floor
        err = np.abs(z - p["c"]).max()
        judge.worst = max(getattr(judge, "worst", 0.0), (err - floor) / (n * ytol))
        check(
            err <= acc,
            lambda: f"success at {z}, {err:.3e} (> {acc:.3e}) from the minimiser "
            f"{p['c']}; steps {s['steps']}, rtol {rtol}, atol {atol}",
        )
        if np.abs(y0 - p["c"]).max() < 100 * atol:
            return None
        return steps_bucket(s["steps"])

    c = Cell(
        f"{name}/{lay.name}/{psi}", tols(P.convex_data(n, hi)), judge, examples
    )
    return c


def cells(tier):
    L = P.LAYOUTS
    out = []
    for name, make in {**V.QN, **V.CG}.items():
        for lay, psi in (("scalar", "sqrt"), ("vec3", "logcosh"), ("dict", "sqrt"),
                         ("mat22", "logcosh")):
            # Polak-Ribiere directions can be nearly orthogonal to the gradient, so its
            # early stops are heavy-tailed; Hestenes-Stiefel's direction vanishes in one
            # dimension (and nearly so in few), so its steps say nothing about the
            # distance left and only liveness is judged.
            factor = {"CG-polak_ribiere": 2000, "CG-hestenes_stiefel": np.inf}
            out.append(
                solve_cell(name, make, L[lay], psi, factor=factor.get(name, 30.0))
            )
    for name, make in V.QN.items():
        out.append(solve_cell(name, make, L["wide"], "logcosh", factor=30.0))
    for h in (1, 3, 7):
        for inv in (True, False):
            out.append(
                solve_cell(
                    f"LBFGS-h{h}-{'inv' if inv else 'dir'}",
                    lambda r, a, h=h, inv=inv: optx.LBFGS(
                        r, a, history_length=h, use_inverse=inv
                    ),
                    L["vec4"], "sqrt",
                )
            )
    norms = (optx.two_norm, optx.rms_norm)
    for norm in norms:
        for cls in (optx.BFGS, optx.DFP, optx.LBFGS, optx.NonlinearCG):
            out.append(
                solve_cell(
                    f"{cls.__name__}-{norm.__name__}",
                    lambda r, a, c=cls, n=norm: c(r, a, norm=n),
                    L["pair"], "logcosh",
                    factor=2000 if cls is optx.NonlinearCG else 30,
                )
            )
    # Lipschitz constant of the gradient is at most 3 + 2
    gds = {
        "GradientDescent": lambda r, a: optx.GradientDescent(0.15, r, a),
        "OptaxSGD": lambda r, a: optx.OptaxMinimiser(optax.sgd(0.15), r, a),
        "BestGD": lambda r, a: optx.BestSoFarMinimiser(
            optx.GradientDescent(0.15, r, a)
        ),
        "BestBFGS": lambda r, a: optx.BestSoFarMinimiser(optx.BFGS(r, a)),
        "BestLBFGS": lambda r, a: optx.BestSoFarMinimiser(optx.LBFGS(r, a)),
    }
    for name, make in gds.items():
        for lay in ("scalar", "pair"):
            out.append(solve_cell(name, make, L[lay], "sqrt"))
    for name, make in V.MIN_CUSTOM.items():
        for lay, psi in (("scalar", "logcosh"), ("pair", "sqrt")):
            out.append(solve_cell(name, make, L[lay], psi, must=False))
    nm = {
        "NelderMead": lambda r, a: optx.NelderMead(r, a),
        "BestNelderMead": lambda r, a: optx.BestSoFarMinimiser(optx.NelderMead(r, a)),
    }
    for name, make in nm.items():
        for lay in ("scalar", "scalars2", "scalars3"):
            out.append(
                solve_cell(name, make, L[lay], "sqrt", must=False)
            )
    return out
