"""C18: golden-section search finds the minimum inside its interval."""

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optimistix as optx
from hypothesis import strategies as st

from . import problems as P, solvers as V
from .common import Lazy, npt
from .core import Cell, check, lib

# unimodal shapes with minimiser at u = 0, and how fast they leave it (flatness limits
# how well the minimiser can be located from function values)
SHAPES = {
    "quadratic": (lambda u: u**2, 2e-8),
    "abs": (jnp.abs, 1e-14),
    "skew": (lambda u: jnp.where(u > 0, 4 * u, -0.5 * u), 1e-14),
    "logcosh": (lambda u: jnp.log(jnp.cosh(u)), 5e-8),
    "huber": (lambda u: jnp.sqrt(1 + u**2) - 1, 5e-8),
    "sqrt": (lambda u: jnp.sqrt(jnp.abs(u) + 1e-3), 1e-14),
    "exp": (lambda u: jnp.exp(0.5 * u) - 0.5 * u, 5e-8),
    "saturating": (lambda u: 1 - 1 / (1 + u**2), 5e-8),
}


def problem(shape, record=None, f32=False):
    g = SHAPES[shape][0]
    dtype = jnp.float32 if f32 else jnp.float64

    def f(y, p):
        if record is not None:
            jax.debug.callback(lambda z: record.append(float(z)), y)
        c, k, off, mirror = (x.astype(dtype) for x in p)
        return k * g(mirror * (y - c)) + off

    return f


def run_of(shape, record=None, f32=False):
    dtype = jnp.float32 if f32 else jnp.float64

    def build():
        @eqx.filter_jit
        def run(y0, lo, hi, p, r, a):
            f = problem(shape, record, f32)
            cast = lambda x: x.astype(dtype)
            sol = optx.minimise(
                f, optx.GoldenSearch(r, a), cast(y0), p,
                options=dict(lower=cast(lo), upper=cast(hi)), max_steps=300, throw=False)
            return V.summary(sol)

        return run

    return Lazy(build)


def setup(d, f32):
    c = d["c"] / 8.0 * (1.0 if f32 else 10.0 ** d["far"])
    w = 2.0 ** d["scale"]
    lo, hi = c - w * d["lo"] / 16.0, c + w * d["hi"] / 16.0
    tol = (10.0 ** -d["r"], 10.0 ** -d["a"])
    if f32:
        tol = tuple(max(t, 1e-2) for t in tol)
    return c, lo, hi, tol


def strategy(f32=False):
    return st.fixed_dictionaries(
        dict(
            c=st.integers(-40, 40), far=st.integers(0, 2), scale=st.integers(-4, 4),
            lo=st.integers(-12, 16), hi=st.integers(-12, 16), k=st.integers(2, 20),
            off=st.integers(-4, 4), y0=st.integers(-20, 40), y1=st.integers(-20, 40),
            r=st.integers(2, 5), a=st.integers(2, 5),
        )
    )


def params(d, c, mirror=1.0):
    return tuple(np.float64(x) for x in (c, d["k"] / 4.0, d["off"] / 4.0, mirror))


def tolerance(shape, tol, c, lo, hi, d, f32):
    flat = SHAPES[shape][1] * (2.5e4 if f32 else 1.0)
    x = max(abs(lo), abs(hi))
    # the last interval is at most 1/0.236 times the distance the criterion looks at
    return 4.4 * (tol[1] + tol[0] * x) + 4 * flat * (1 + abs(d["off"])) + 1e-12 * x


def find_cell(shape, f32, examples=20):
    record = []
    fn = run_of(shape, record, f32)

    def judge(d):
        c, lo, hi, tol = setup(d, f32)
        if not hi - lo > 1e-3:
            return None
        y0 = lo + (hi - lo) * d["y0"] / 20.0
        record.clear()
        out = npt(lib(fn, y0, lo, hi, params(d, c), *tol))
        jax.effects_barrier()
        v = float(out["value"])
        best = min(max(c, lo), hi)
        where = f"{shape} (minimum {best}) on [{lo}, {hi}], start {y0}, tolerances {tol}"
        check(out["code"] == 0, lambda: f"{where}: code {out['code']} after {out['steps']} steps")
        eps = (1e-6 if f32 else 1e-14) * (abs(lo) + abs(hi))
        check(lo - eps <= v <= hi + eps, lambda: f"{where}: returned {v} outside the interval")
        t = tolerance(shape, tol, c, lo, hi, d, f32)
        check(abs(v - best) <= t, lambda: f"{where}: returned {v}, off by {abs(v - best)} > {t}")
        bad = [x for x in record if not lo - eps <= x <= hi + eps]
        check(not bad, lambda: f"{where}: evaluated outside the interval at {bad[:3]}")
        need = np.log(max((hi - lo) / (0.2 * tol[1]), 1)) / np.log(1.618) + 8
        # the function value must settle too
        check(out["steps"] <= 2.2 * need + 20, lambda: f"{where}: {out['steps']} steps")
        return "at an end" if best != c else "interior"

    return Cell(f"find/{shape}/{'f32' if f32 else 'f64'}", strategy(f32), judge, examples)


def guess_cell(shape, examples=10):
    """The answer does not depend on the initial guess."""
    fn = run_of(shape)

    def judge(d):
        c, lo, hi, tol = setup(d, False)
        if not hi - lo > 1e-3:
            return None
        ys = [lo + (hi - lo) * d[k] / 20.0 for k in ("y0", "y1")]
        a, b = (npt(lib(fn, y, lo, hi, params(d, c), *tol)) for y in ys)
        check(
            a["value"] == b["value"] and a["steps"] == b["steps"],
            lambda: f"{shape} on [{lo}, {hi}]: from {ys[0]}: {a}, from {ys[1]}: {b}",
        )
        return "two guesses" if ys[0] != ys[1] else None

    return Cell(f"guess/{shape}", strategy(), judge, examples)


def move_cell(shape, examples=12):
    """Shifting or mirroring the problem shifts or mirrors the answer."""
    fn = run_of(shape)

    def judge(d):
        c, lo, hi, tol = setup(dict(d, far=0), False)
        if not hi - lo > 1e-3:
            return None
        s = d["y1"] / 4.0
        y0 = (lo + hi) / 2
        v = [
            float(npt(lib(fn, y, l, h, params(d, cc, m), *tol))["value"])
            for y, l, h, cc, m in (
                (y0, lo, hi, c, 1.0), (y0 + s, lo + s, hi + s, c + s, 1.0),
                (-y0, -hi, -lo, -c, -1.0),
            )
        ]
        t = tolerance(shape, tol, c, lo, hi, d, False) + tolerance(
            shape, tol, c + s, lo + s, hi + s, d, False)
        check(abs(v[1] - s - v[0]) <= t, lambda: f"{shape}: {v[0]}, shifted by {s}: {v[1]}")
        check(abs(-v[2] - v[0]) <= t, lambda: f"{shape}: {v[0]}, mirrored: {v[2]}")
        return "moved"

    return Cell(f"move/{shape}", strategy(), judge, examples)


def cells(tier):
    out = []
    for shape in SHAPES:
        out.append(find_cell(shape, False))
        out.append(find_cell(shape, True, 10))
        out.append(guess_cell(shape))
        out.append(move_cell(shape))
    return out
