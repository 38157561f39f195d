"""C13: line-search and trust-region solvers never go uphill."""

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optimistix as optx
from hypothesis import strategies as st

from . import catalog as C, problems as P, solvers as V
from .common import Lazy, npt
from .core import Cell, check, lib
from .rough import data, objective, params, residual
from .stepper import Stepper

STEPS = 30
FACTOR = 2


def cell(kind, name, make, shape, wallkind, lay, examples=8):
    n = lay.n
    raw = objective(shape, wallkind) if kind == "min" else residual(shape, wallkind, n)
    out = P.Layout("out", (P.S(n), {"q": P.S(3), "t": P.S()}))
    loss = raw if kind == "min" else (lambda z, p: 0.5 * jnp.sum(raw(z, p) ** 2))
    holder = {}

    def build():
        def fn(y, p):
            r = raw(lay.flat(y), p)
            return (r if kind == "min" else out.unflat(r)), None

        stepper = Stepper(lambda c: make(1e-7, 1e-7), fn)

        @eqx.filter_jit
        def solve(y0, p):
            sol = C.ENTRY[kind](
                fn, make(1e-7, 1e-7), lay.unflat(y0), p, has_aux=True, max_steps=STEPS,
                throw=False,
            )
            return V.summary(sol), loss(lay.flat(sol.value), p)

        return stepper, jax.jit(jax.value_and_grad(loss)), solve

    def judge(d):
        if not holder:
            holder["x"] = build()
        stepper, value, solve = holder["x"]
        p = params(n, d)
        z0 = np.array(d["y"]) / 4.0
        f0, g0 = npt(value(z0, p))
        if not np.isfinite(f0) or not np.all(np.isfinite(g0)) or abs(f0) > 1e6:
            return None
        y, dyn, done, code = lib(stepper.start, lay.np_unflat(z0), p)
        cur, moves, stalls = float(f0), 0, 0
        for i in range(STEPS):
            new, dyn, _, (done, code), _ = lib(stepper.step, y, dyn, p)
            z = lay.np_flat(new)
            v = float(value(z, p)[0])
            check(
                np.all(np.isfinite(z)) and np.isfinite(v),
                lambda: f"{name}: step {i} moved to {z} where the objective is {v}",
            )
            check(
                v <= cur + 1e-11 * (1 + abs(cur)),
                lambda: f"{name}: step {i} went uphill from {cur} to {v}",
            )
            if np.array_equal(z, lay.np_flat(y)):
                stalls += i > 0
            else:
                moves += 1
            y, cur = new, v
            if done or code:
                break
        if np.linalg.norm(g0) > 0.1 and code == 0:
            check(
                cur < f0,
                lambda: f"{name}: no progress in {i + 1} steps from {z0}, objective {f0}, "
                f"gradient {g0} (done={done})",
            )
        s, vs = npt(lib(solve, z0, p))
        check(
            vs <= f0 + 1e-11 * (1 + abs(f0)),
            lambda: f"{name}: solve returned {s['value']} with objective {vs}, start had {f0}",
        )
        if moves == 0:
            return None
        return "with rejections" if stalls else "all accepted"

    return Cell(f"{name}/{shape}/{wallkind}/{lay.name}", data(n), judge, examples)


def solvers():
    for name, make in {**V.QN, **V.CG, **V.MIN_CUSTOM}.items():
        yield "min", name, make
    for name, make in {**V.LSQ, **V.LSQ_CUSTOM}.items():
        if name != "GaussNewton":
            yield "lsq", name, make
    yield "min", "BestBFGS", C.MIN["BestBFGS"]
    yield "lsq", "BestLM", C.LSQ["BestLM"]


def cells(tier):
    L = P.LAYOUTS
    combos = [
        ("wavy", "nan", "pair"), ("valley", "inf", "vec2"), ("wavy", "log", "dict"),
        ("valley", "exp", "pair"), ("wavy", "none", "scalar"), ("valley", "nan", "vec2"),
        ("wavy", "exp", "vec2"), ("valley", "log", "pair"), ("wavy", "inf", "pair"),
        ("valley", "none", "dict"),
    ]
    out = []
    for i, (kind, name, make) in enumerate(solvers()):
        for k in range(3 if tier == "quick" else 10):
            shape, w, lay = combos[(3 * i + k) % 10]
            out.append(cell(kind, name, make, shape, w, L[lay]))
    return out
