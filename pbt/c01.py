"""C01: root finding."""

import equinox as eqx
import jax.numpy as jnp
import numpy as np
import optimistix as optx
from hypothesis import strategies as st

from . import problems as P, solvers as V
from .common import Lazy, npt, steps_bucket
from .core import Cell, check, lib

TOL = [1e-4, 1e-6, 1e-8]


def out_layouts(lay):
    """Residuals are laid out differently from y where shapes allow it."""
    return P.LAYOUTS["vec%d" % lay.n] if lay.n > 1 else lay


def solve_cell(name, make, lay, phi, *, m=None, mild=True, must_succeed=True,
               near=False, max_steps=256, examples=30, alt_out=False, fixed=None,
               options=None):
    n = lay.n
    m = n if m is None else m
    if m == n:
        raw, params = P.root_fn(phi), lambda d: P.root_params(n, d)
        strat = P.root_data(n, mild)
        out = lay if not alt_out else P.LAYOUTS["vec%d" % n]
    else:
        raw, params = P.lsq_fn(phi), lambda d: P.lsq_params(m, n, d)
        strat = P.lsq_data(m, n, mild)
        out = P.Layout("out", {"u": P.S(m - 1), "v": P.S()})

    def build():
        def fn(y, p):
            return out.unflat(raw(lay.flat(y), p))

        @eqx.filter_jit
        def run(y0, p, rtol, atol):
            sol = optx.root_find(
                fn, make(rtol, atol), lay.unflat(y0), p, max_steps=max_steps,
                throw=False, options=options,
            )
            return V.summary(sol), out.flat(fn(sol.value, p)), lay.flat(sol.value)

        return run

    run = Lazy(build)

    def judge(d):
        p = params(d)
        y0 = P.start(d)
        if near:
            y0 = p["c"] + 0.02 * (y0 - p["c"])
        rtol, atol = TOL[d["rtol"]], TOL[d["atol"]]
        s, f, z = npt(lib(run, y0, p, np.float64(rtol), np.float64(atol)))
        ok = s["code"] == 0
        if must_succeed:
            check(ok, lambda: f"no success: code {s['code']} after {s['steps']} steps")
        if not ok:
            return None
        scale = 1e-12 * (1 + np.abs(p["c"]).max()) * (1 + np.abs(p["A"]).max()) * 10
        res = np.max(np.abs(f))
        bound = fixed(rtol, atol, z) if fixed else 6 * n * atol
        check(
            res <= bound + scale,
            lambda: f"success but |f(y)|={res:.3e} > {bound:.3e} (atol {atol}, y={z})",
        )
        err = np.max(np.abs(z - p["c"]))
        # smallest singular value of the secant Jacobian is at least 0.35
        check(
            err <= 3 * np.sqrt(m) * (bound + scale),
            lambda: f"success but y={z} is {err:.3e} from the root {p['c']}",
        )
        return None if np.max(np.abs(y0 - p["c"])) < 10 * atol else steps_bucket(s['steps'])

    strat = st.builds(
        lambda d, r, a: dict(d, rtol=r, atol=a),
        strat, st.integers(0, 2), st.integers(0, 2),
    )
    return Cell(name, strat, judge, examples)


def rough_cell(name, make, phi_kind, examples=60, max_steps=64):
    """Arbitrary two-dimensional systems: roots may be absent, singular or multiple.
    Whatever happens, success has to come with a small residual."""

    def raw(y, p):
        a, b = y
        k = p["k"]
        if phi_kind == "poly":
            return jnp.stack(
                [
                    k[0] + k[1] * a + k[2] * b + k[3] * a * b + k[4] * a**2,
                    k[5] + k[6] * a + k[7] * b + k[8] * b**3,
                ]
            )
        return jnp.stack(
            [
                k[0] + k[1] * jnp.sin(a + k[2]) + k[3] * jnp.cos(b * k[4]),
                k[5] + k[6] * jnp.exp(-(a**2)) + k[7] * b * a + k[8] * b,
            ]
        )

    def build():
        @eqx.filter_jit
        def run(y0, p):
            tol = 1e-6
            sol = optx.root_find(
                raw, make(tol, tol), (y0[0], y0[1]), p, max_steps=max_steps, throw=False
            )
            return V.summary(sol), raw(sol.value, p), jnp.stack(sol.value)

        return run

    run = Lazy(build)

    def judge(d):
        p = dict(k=np.array(d["k"]) / 2.0)
        s, f, z = npt(lib(run, np.array(d["y"]) / 2.0, p))
        if s["code"] != 0:
            return None
        check(np.all(np.isfinite(z)), lambda: f"success with non-finite value {z}")
        if np.max(np.abs(z)) > 100:
            return None
        check(
            np.max(np.abs(f)) <= 1e-4,
            lambda: f"success but |f(y)|={np.max(np.abs(f)):.3e} at {z}",
        )
        return "success"

    return Cell(
        name, st.fixed_dictionaries(dict(k=P.ints(9, -6, 6), y=P.ints(2, -8, 8))),
        judge, examples,
    )


def nc_bound(rtol, atol, z):
    return 30 * (atol + rtol * np.max(np.abs(z)))


def scalar_bracket_cell(name, options, flip, examples=20):
    def build():
        def fn(y, p):
            v = p["s"] * ((y - p["c"]) + p["e"] * jnp.tanh(3 * (y - p["c"])))
            return v

        @eqx.filter_jit
        def run(y0, p, lo, hi, rtol, atol):
            solver = optx.Bisection(rtol, atol, flip=flip, **options)
            sol = optx.root_find(
                fn, solver, y0, p, options=dict(lower=lo, upper=hi), throw=False
            )
            return V.summary(sol), fn(sol.value, p)

        return run

    run = Lazy(build)

    def judge(d):
        s = 1.0 if flip is False else (-1.0 if flip is True else (1.0, -1.0)[d["s"]])
        c = d["c"] / 8.0
        lo, hi = c - d["l"] / 8.0, c + d["u"] / 8.0
        y0 = lo + (hi - lo) * d["t"] / 10.0
        rtol, atol = TOL[d["rtol"]], TOL[d["atol"]]
        p = dict(s=np.float64(s), c=np.float64(c), e=np.float64(d["e"] / 4.0))
        out, f = npt(lib(run, np.float64(y0), p, lo, hi, rtol, atol))
        check(out["code"] == 0, lambda: f"no success: code {out['code']}")
        err = abs(out["value"] - c)
        check(
            err <= 3 * (atol + rtol * abs(c)) + 1e-12,
            lambda: f"value {out['value']} is {err:.2e} from root {c}",
        )
        check(
            abs(f) <= 3 * (1 + 3 * p["e"]) * (atol + rtol * abs(c)) + 1e-12,
            lambda: f"|f|={abs(f)}",
        )
        return steps_bucket(out['steps'])

    return Cell(
        name,
        st.fixed_dictionaries(
            dict(
                s=st.integers(0, 1), c=st.integers(-80, 80), l=st.integers(1, 40),
                u=st.integers(1, 40), t=st.integers(0, 10), e=st.integers(0, 12),
                rtol=st.integers(0, 2), atol=st.integers(0, 2),
            )
        ),
        judge, examples,
    )


def cells(tier):
    out = []
    L = P.LAYOUTS
    for name, make in V.ROOT.items():
        lays = ("scalar", "vec3", "dict") if name in ("Newton", "Chord") else ("pair",)
        for l in lays:
            for mild in (False, True):
                out.append(
                    solve_cell(
                        f"{name}/{l}/{'mild' if mild else 'affine'}", make, L[l],
                        "tanh" if l != "vec3" else "sin", mild=mild,
                        near="Chord" in name and mild,
                        alt_out=(l == "dict"),
                    )
                )
    for name, make in V.ROOT_NC.items():
        for l in ("scalar", "vec2"):
            out.append(
                solve_cell(
                    f"{name}/{l}/mild", make, L[l], "tanh", near="Chord" in name,
                    must_succeed=False, fixed=nc_bound,
                )
            )
    for name, make in V.LSQ.items():
        for l in ("scalar", "vec3", "dict"):
            for mild in (False, True):
                out.append(
                    solve_cell(
                        f"{name}/{l}/{'mild' if mild else 'affine'}", make, L[l],
                        "tanh", mild=mild, alt_out=(l == "dict"),
                    )
                )
        for l, m in (("vec2", 4), ("pair", 4)):
            out.append(
                solve_cell(f"{name}/{l}/over{m}", make, L[l], "sin", m=m, mild=True)
            )
    for name, make in {**V.ROOT, **V.LSQ}.items():
        out.append(
            solve_cell(f"{name}/wide/mild", make, L["wide"], "atan", mild=True,
                       near="Chord" in name, alt_out=True)
        )
    for name, make in V.LSQ_CUSTOM.items():
        out.append(
            solve_cell(f"{name}/pair/mild", make, L["pair"], "tanh", must_succeed=False)
        )
    mins = {
        "BFGS": lambda r, a: optx.BFGS(r, a, norm=optx.two_norm),
        "DFP": lambda r, a: optx.DFP(r, a, norm=optx.two_norm, use_inverse=False),
        "LBFGS": lambda r, a: optx.LBFGS(r, a, norm=optx.two_norm),
        "NelderMead": lambda r, a: optx.NelderMead(r, a),
        "CG": lambda r, a: optx.NonlinearCG(r, a, norm=optx.rms_norm),
        "BestBFGS": lambda r, a: optx.BestSoFarMinimiser(
            optx.BFGS(r, a, norm=optx.two_norm)
        ),
        "BestGN": lambda r, a: optx.BestSoFarLeastSquares(optx.GaussNewton(r, a)),
        "BestNewton": lambda r, a: optx.BestSoFarRootFinder(optx.Newton(r, a)),
    }
    for name, make in mins.items():
        best = name in ("BestGN", "BestNewton")
        for l in ("scalar", "vec2"):
            out.append(
                solve_cell(
                    f"{name}/{l}/mild", make, L[l], "tanh", must_succeed=best,
                    max_steps=400,
                )
            )
        if not best:
            for k in ("poly",):
                out.append(rough_cell(f"{name}/rough-{k}", make, k))
    for group in (V.ROOT, V.LSQ, V.LSQ_CUSTOM):
        for name, make in group.items():
            for k in ("poly", "trig"):
                out.append(rough_cell(f"{name}/rough-{k}", make, k))
    for flip in (False, True, "detect"):
        out.append(scalar_bracket_cell(f"Bisection/{flip}", {}, flip))
    return out
