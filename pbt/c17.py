"""C17: bisection brackets and finds the root."""

import equinox as eqx
import jax.numpy as jnp
import numpy as np
import optimistix as optx
from hypothesis import strategies as st

from . import problems as P, solvers as V
from .common import Lazy, npt
from .core import Cell, check, lib, raises

# shape functions with g(0) = 0, sign(g(u)) = sign(u), and a Lipschitz bound near 0
SHAPES = {
    "linear": (lambda u: u, 1.0),
    "tanh": (jnp.tanh, 1.0),
    "atan20": (lambda u: jnp.arctan(20 * u), 20.0),
    "cubic": (lambda u: u + u**3, 4.1),  # for |u| <= 1
    "skew": (lambda u: jnp.where(u > 0, 5 * u, 0.2 * u), 5.0),
    "flat": (lambda u: u**3, 3.0),
    "bumpy": (lambda u: u * (1.3 + jnp.sin(7 * u)), 12.0),
    "expm1": (jnp.expm1, 3.0),
}
MONOTONE = ("linear", "tanh", "atan20", "cubic", "skew", "flat", "expm1")


def run_of(shape, flip, expand, dtype, budget=500):
    g = SHAPES[shape][0]

    def build():
        @eqx.filter_jit
        def run(y0, lo, hi, c, sgn, r, a):
            cast = lambda x: x.astype(dtype)
            f = lambda y, p: cast(p[1]) * g(y - cast(p[0]))
            solver = optx.Bisection(r, a, flip=flip, expand_if_necessary=expand)
            sol = optx.root_find(
                f, solver, cast(y0), (c, sgn), options=dict(lower=cast(lo), upper=cast(hi)),
                max_steps=budget, throw=False,
            )
            return V.summary(sol)

        return run

    return Lazy(build)


def steps_needed(width, tol_y, tol_f, lip):
    w = min(tol_y, tol_f / lip)
    return max(0, np.ceil(np.log2(max(width / w, 1.0)))) + 4


def contained_cell(shape, mode, dtype, examples=15):
    """The interval contains the root (possibly at an end)."""
    lip = SHAPES[shape][1]
    f32 = dtype == jnp.float32
    fns = {}

    def judge(d):
        scale = 2.0 ** d["scale"]
        c = d["c"] / 8.0 * (1.0 if f32 else 10.0 ** d["far"])
        # ends in units where everything is exactly representable
        lo, hi = c - scale * d["lo"] / 16.0, c + scale * d["hi"] / 16.0
        if not lo < hi:
            return None
        sgn = -1.0 if d["neg"] else 1.0
        y0 = lo + (hi - lo) * d["y0"] / 16.0
        rtol, atol = 10.0 ** -d["r"], 10.0 ** -d["a"]
        if f32:
            rtol, atol = max(rtol, 1e-4), max(atol, 1e-4)
        flip = "detect" if mode == "detect" else bool(d["neg"])
        key = flip
        if key not in fns:
            fns[key] = run_of(shape, flip, False, dtype)
        out = npt(lib(fns[key], y0, lo, hi, c, sgn, rtol, atol))
        v = float(out["value"])
        where = f"{shape} (root {c}, sign {sgn}) on [{lo}, {hi}] from {y0}, rtol {rtol}, atol {atol}"
        check(out["code"] == 0, lambda: f"{where}: code {out['code']} after {out['steps']} steps")
        # ulp of the interval's far end limits how well anything can be resolved
        eps = np.finfo(np.float32 if f32 else np.float64).eps
        tol = atol + rtol * abs(c) + 4 * eps * (abs(c) + abs(v))
        check(abs(v - c) <= tol * 1.001, lambda: f"{where}: returned {v}, {abs(v - c)} from the root")
        check(lo <= v <= hi, lambda: f"{where}: returned {v} outside the interval")
        need = steps_needed(hi - lo, atol, atol, lip)
        check(
            out["steps"] <= need + 1,
            lambda: f"{where}: {out['steps']} steps where {need} halvings suffice",
        )
        if d["lo"] == 0 or d["hi"] == 0:
            return "root at an end"
        return "narrow" if scale < 0.1 else "wide"

    strat = st.fixed_dictionaries(
        dict(
            scale=st.integers(-6, 4) if shape not in ("cubic", "expm1") else st.integers(-6, -1),
            c=st.integers(-40, 40), far=st.integers(0, 3),
            lo=st.integers(0, 16), hi=st.integers(0, 16), y0=st.integers(0, 16),
            neg=st.booleans(), r=st.integers(2, 9), a=st.integers(2, 9),
        )
    )
    nm = f"contained/{shape}/{mode}/{'f32' if f32 else 'f64'}"
    return Cell(nm, strat, judge, examples)


def multi_cell(mode, examples=15):
    """Several roots: some sign change inside the interval is found."""
    fns = {}

    def build(flip):
        @eqx.filter_jit
        def run(y0, lo, hi, rs, sgn, r, a):
            f = lambda y, p: sgn * jnp.prod(jnp.tanh(y - rs))
            sol = optx.root_find(
                f, optx.Bisection(r, a, flip=flip), y0, None,
                options=dict(lower=lo, upper=hi), max_steps=500, throw=False)
            return V.summary(sol)

        return Lazy(lambda: run)

    def judge(d):
        rs = np.cumsum(np.array([d["r0"]] + [g + 1 for g in d["gaps"]])) / 4.0
        if len(rs) % 2 == 0:
            rs = rs[:-1]
        rs3 = np.concatenate([rs, [rs[-1] + 100, rs[-1] + 101]]) if len(rs) == 1 else rs
        lo, hi = rs[0] - (d["lo"] + 1) / 8.0, rs[-1] + (d["hi"] + 1) / 8.0
        y0 = lo + (hi - lo) * d["y0"] / 16.0
        sgn = -1.0 if d["neg"] else 1.0
        flip = "detect" if mode == "detect" else bool(d["neg"])
        if flip not in fns:
            fns[flip] = build(flip)
        tol = 10.0 ** -d["a"]
        out = npt(lib(fns[flip], y0, lo, hi, rs3, sgn, tol, tol))
        v = float(out["value"])
        where = f"roots {rs} on [{lo}, {hi}] from {y0}"
        check(out["code"] == 0, lambda: f"{where}: code {out['code']}")
        dist = np.min(np.abs(rs - v))
        check(dist <= tol * (1 + np.max(np.abs(rs))) * 1.01,
              lambda: f"{where}: returned {v}, {dist} from the nearest root")
        check(lo <= v <= hi, lambda: f"{where}: returned {v} outside")
        return f"{len(rs)} roots"

    strat = st.fixed_dictionaries(
        dict(r0=st.integers(-20, 20), gaps=st.lists(st.integers(0, 8), min_size=2, max_size=2),
             lo=st.integers(0, 12), hi=st.integers(0, 12), y0=st.integers(0, 16),
             neg=st.booleans(), a=st.integers(2, 8))
    )
    return Cell(f"several/{mode}", strat, judge, examples)


def absent_cell(shape, examples=12):
    """No sign change: detection raises."""
    fn = run_of(shape, "detect", False, jnp.float64)

    def judge(d):
        c = d["c"] / 8.0
        gap, width = d["gap"] / 16.0 + 0.01, d["width"] / 8.0 + 0.05
        lo, hi = (c + gap, c + gap + width) if d["right"] else (c - gap - width, c - gap)
        sgn = -1.0 if d["neg"] else 1.0
        exc = raises(fn, lo + (hi - lo) * d["y0"] / 16.0, lo, hi, c, sgn, 1e-4, 1e-4)
        check(exc is not None, lambda: f"{shape} (root {c}, sign {sgn}) on [{lo}, {hi}]: no error")
        return "raised"

    strat = st.fixed_dictionaries(
        dict(c=st.integers(-40, 40), gap=st.integers(0, 30), width=st.integers(0, 30),
             right=st.booleans(), neg=st.booleans(), y0=st.integers(0, 16))
    )
    return Cell(f"absent/{shape}", strat, judge, examples)


def expand_cell(shape, examples=12):
    fn = run_of(shape, "detect", True, jnp.float64, budget=800)

    def judge(d):
        c = d["c"] / 8.0
        width = d["width"] / 8.0 + 0.05
        lo = c + d["off"] / 8.0
        if shape in ("expm1", "cubic"):
            lo = c + np.clip(d["off"] / 8.0, -6, 6)
        hi = lo + width
        sgn = -1.0 if d["neg"] else 1.0
        y0 = lo + width * d["y0"] / 16.0
        tol = 10.0 ** -d["a"]
        out = npt(lib(fn, y0, lo, hi, c, sgn, tol, tol))
        v = float(out["value"])
        where = f"{shape} (root {c}, sign {sgn}) expanding [{lo}, {hi}] from {y0}"
        check(out["code"] == 0, lambda: f"{where}: code {out['code']} after {out['steps']} steps")
        check(abs(v - c) <= 1.01 * tol * (1 + abs(c)), lambda: f"{where}: returned {v}")
        return "inside" if lo <= c <= hi else ("left" if c < lo else "right")

    strat = st.fixed_dictionaries(
        dict(c=st.integers(-40, 40), off=st.integers(-80, 80), width=st.integers(0, 30),
             neg=st.booleans(), y0=st.integers(0, 16), a=st.integers(2, 8))
    )
    return Cell(f"expand/{shape}", strat, judge, examples)


def cells(tier):
    out = []
    for shape in SHAPES:
        for mode in ("detect", "given"):
            out.append(contained_cell(shape, mode, jnp.float64))
        out.append(contained_cell(shape, "detect", jnp.float32))
        if shape in MONOTONE:
            out.append(absent_cell(shape))
        if shape in ("linear", "tanh", "cubic", "skew", "expm1"):
            out.append(expand_cell(shape))
    out += [multi_cell("detect"), multi_cell("given")]
    return out
