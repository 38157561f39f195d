"""C02: fixed points."""

import equinox as eqx
import jax.numpy as jnp
import numpy as np
import optimistix as optx
from hypothesis import strategies as st

from . import problems as P, solvers as V
from .common import Lazy, npt, steps_bucket
from .core import Cell, check, lib

TOL = [1e-3, 1e-5, 1e-7]


def tols(strat, **extra):
    return st.builds(
        lambda d, e: dict(d, **e),
        strat,
        st.fixed_dictionaries(
            dict(rtol=st.integers(0, 2), atol=st.integers(0, 2), **extra)
        ),
    )


def iteration_cell(lay, phi, norm, examples=40):
    """The damped iteration: liveness, residual bound and distance bound."""
    n = lay.n
    raw = P.contraction_fn(phi)

    def build():
        def fn(y, p):
            return lay.unflat(raw(lay.flat(y), p))

        @eqx.filter_jit
        def run(y0, p, damp, rtol, atol):
            solver = optx.FixedPointIteration(rtol, atol, norm=norm, damp=damp)
            sol = optx.fixed_point(
                fn, solver, lay.unflat(y0), p, max_steps=3000, throw=False
            )
            return V.summary(sol), lay.flat(fn(sol.value, p)), lay.flat(sol.value)

        return run

    run = Lazy(build)

    def judge(d):
        p = P.contraction_params(n, d)
        k, damp = 0.01 * d["k"], 0.1 * d["damp"]
        rtol, atol = TOL[d["rtol"]], TOL[d["atol"]]
        y0 = P.start(d)
        s, f, z = npt(lib(run, y0, p, np.float64(damp), rtol, atol))
        check(s["code"] == 0, lambda: f"no success: {s}")
        # The last step was at most atol + rtol|y| long (max norm; n times that for
        # the others) and equals (1 - damp) times the residual before it.
        slack = n * 1.1 * (atol + rtol * (np.abs(z).max() + 1e-2)) + 1e-13
        res = np.abs(f - z).max()
        check(
            res <= np.sqrt(n) * slack / (1 - damp),
            lambda: f"|f(y)-y|={res:.3e} at y={z}, rtol={rtol}, atol={atol}, damp={damp}",
        )
        err = np.linalg.norm(z - p["c"])
        check(
            err <= np.sqrt(n) * slack / (1 - damp) / (1 - k) + 1e-12,
            lambda: f"y={z} but fixed point is {p['c']}",
        )
        if np.abs(y0 - p["c"]).max() < 10 * atol:
            return None
        return f"damp {'0' if d['damp'] == 0 else '>0'}, " + steps_bucket(s["steps"])

    return Cell(
        f"FPI/{lay.name}/{phi}/{norm.__name__}",
        tols(P.contraction_data(n, 85), damp=st.integers(0, 8)),
        judge,
        examples,
    )


def exact_damp_cell(lay, examples=30):
    """After k steps from y0 the damped iteration of an affine contraction is known."""
    n = lay.n

    def build():
        def fn(y, p):
            z = lay.flat(y)
            return lay.unflat(p["c"] + p["M"] @ (z - p["c"]))

        @eqx.filter_jit
        def run(y0, p, damp, options=None):
            out = []
            for k in (1, 2, 5):
                sol = optx.fixed_point(
                    fn,
                    optx.FixedPointIteration(1e-14, 1e-14, damp=damp),
                    lay.unflat(y0),
                    p,
                    max_steps=k,
                    throw=False,
                )
                out.append((lay.flat(sol.value), sol.stats["num_steps"]))
            return out

        return run

    run = Lazy(build)

    def judge(d):
        p = P.contraction_params(n, d)
        damp = 0.1 * d["damp"]
        y0 = P.start(d)
        out = npt(lib(run, y0, p, np.float64(damp)))
        for z, k in out:
            y = y0
            for _ in range(int(k)):
                y = damp * y + (1 - damp) * (p["c"] + p["M"] @ (y - p["c"]))
            check(
                np.allclose(z, y, rtol=1e-9, atol=1e-10),
                lambda: f"iterate {int(k)} is {z}, expected {y} (damp {damp})",
            )
        return f"damp {'0' if d['damp'] == 0 else '>0'}"

    return Cell(
        f"FPI-iterates/{lay.name}",
        tols(P.contraction_data(n, 85), damp=st.integers(0, 9)),
        judge,
        examples,
    )


def other_cell(name, make, lay, phi, must=True, examples=25, max_steps=256):
    n = lay.n
    raw = P.contraction_fn(phi)

    def build():
        def fn(y, p):
            return lay.unflat(raw(lay.flat(y), p))

        @eqx.filter_jit
        def run(y0, p, rtol, atol):
            sol = optx.fixed_point(
                fn, make(rtol, atol), lay.unflat(y0), p, max_steps=max_steps,
                throw=False,
            )
            return V.summary(sol), lay.flat(fn(sol.value, p)), lay.flat(sol.value)

        return run

    run = Lazy(build)

    def judge(d):
        p = P.contraction_params(n, d)
        k = 0.01 * d["k"]
        rtol, atol = TOL[d["rtol"]], TOL[d["atol"]]
        y0 = P.start(d)
        if "Chord" in name:
            y0 = p["c"] + 0.05 * (y0 - p["c"])
        s, f, z = npt(lib(run, y0, p, rtol, atol))
        if must and k < 0.7:
            check(s["code"] == 0, lambda: f"no success: {s}")
        if s["code"] != 0:
            return None
        res = np.abs(f - z).max()
        check(
            res <= 6 * n * atol + 1e-12,
            lambda: f"success but |f(y)-y|={res:.3e} at y={z}, atol={atol}",
        )
        err = np.linalg.norm(z - p["c"])
        check(
            err <= np.sqrt(n) * (6 * n * atol + 1e-12) / (1 - k),
            lambda: f"y={z} but fixed point is {p['c']}",
        )
        if np.abs(y0 - p["c"]).max() < 10 * atol:
            return None
        return steps_bucket(s["steps"])

    return Cell(f"{name}/{lay.name}", tols(P.contraction_data(n, 85)), judge, examples)


def rough_cell(name, make, examples=60):
    """Arbitrary scalar-pair maps, contraction or not: only soundness of success."""

    def fn(y, p):
        a, b = y["a"], y["b"]
        k = p
        return {
            "a": k[0] + k[1] * jnp.sin(a) + k[2] * b * a,
            "b": k[3] + k[4] * jnp.cos(b * k[5]) + k[6] * a,
        }

    def build():
        @eqx.filter_jit
        def run(y0, p):
            sol = optx.fixed_point(
                fn, make(1e-6, 1e-6), dict(a=y0[0], b=y0[1]), p, max_steps=100,
                throw=False,
            )
            return V.summary(sol), fn(sol.value, p)

        return run

    run = Lazy(build)

    def judge(d):
        s, f = npt(lib(run, np.array(d["y"]) / 2.0, np.array(d["k"]) / 4.0))
        if s["code"] != 0:
            return None
        z = s["value"]
        size = max(abs(z["a"]), abs(z["b"]))
        check(np.isfinite(size), "success with a non-finite value")
        if size > 100:
            return None
        res = max(abs(f["a"] - z["a"]), abs(f["b"] - z["b"]))
        # |f'| of these maps is at most a few units times |y|
        check(
            res <= 1e-5 * (1 + size) ** 2 * 4,
            lambda: f"success but |f(y)-y|={res:.3e} at {z}",
        )
        return "success"

    return Cell(
        f"{name}/rough",
        st.fixed_dictionaries(dict(k=P.ints(7, -6, 6), y=P.ints(2, -8, 8))),
        judge,
        examples,
    )


def cells(tier):
    L = P.LAYOUTS
    out = []
    for l in L:
        for norm in (optx.max_norm, optx.two_norm, optx.rms_norm):
            out.append(iteration_cell(L[l], "sin" if l != "vec3" else "atan", norm))
    for l in ("scalar", "pair", "dict"):
        out.append(exact_damp_cell(L[l]))
    two = optx.two_norm
    others = {
        **V.ROOT,
        **V.LSQ,
        "BestNewton": lambda r, a: optx.BestSoFarRootFinder(optx.Newton(r, a)),
        "BestLM": lambda r, a: optx.BestSoFarLeastSquares(
            optx.LevenbergMarquardt(r, a)
        ),
    }
    for name, make in others.items():
        for l in ("scalar", "pair", "dict"):
            out.append(other_cell(name, make, L[l], "tanh"))
    mins = {
        "BFGS": lambda r, a: optx.BFGS(r, a, norm=two),
        "LBFGS": lambda r, a: optx.LBFGS(r, a, norm=two),
        "NelderMead": lambda r, a: optx.NelderMead(r, a),
        "BestDFP": lambda r, a: optx.BestSoFarMinimiser(optx.DFP(r, a, norm=two)),
    }
    for name, make in mins.items():
        for l in ("scalar", "pair"):
            out.append(other_cell(name, make, L[l], "tanh", must=False))
    rough = {
        "FPI": lambda r, a: optx.FixedPointIteration(r, a),
        "FPIdamp": lambda r, a: optx.FixedPointIteration(r, a, damp=0.5),
        "BestFPI": lambda r, a: optx.BestSoFarFixedPoint(
            optx.FixedPointIteration(r, a)
        ),
        **V.ROOT, **V.LSQ, **mins,
    }
    for name, make in rough.items():
        out.append(rough_cell(name, make))
    return out
