"""C19: box bounds of Newton and Chord are respected at every iterate."""

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optimistix as optx
from hypothesis import strategies as st

from . import catalog as C, problems as P, solvers as V
from .common import Lazy, close, npt
from .core import Cell, check, lib

BUDGETS = (1, 2, 3, 5, 8)
TOLS = (1e-9, 1e-3, 1e-2, 0.1, 0.4, 1.0)
CLS = dict(Newton=optx.Newton, Chord=optx.Chord)


def wild(z, p):
    """A nonlinear system whose Newton iteration jumps about."""
    e = z - p["c"]
    return p["A"] @ e + p["k"] * jnp.sin(2 * e[::-1]) + 0.2 * p["k"] * e**3


def box(lay, d, z0):
    """Bounds around the start, given in full or one number per leaf."""
    lo = z0 - np.array(d["lo"]) / 8.0
    hi = z0 + np.array(d["hi"]) / 8.0
    return lo, hi


def leafwise(lay, z, how, op):
    """One bound per leaf: the loosest of the coordinates'."""
    tree = lay.np_unflat(z)
    if how == "full":
        return tree
    return jax.tree_util.tree_map(lambda l: np.asarray(op(l)), tree)


def iterate_cell(name, problem, how, sides, entry, lay, examples=10):
    n = lay.n
    fam = C.Family("root", lay)
    base = wild if problem == "wild" else fam.raw
    # rows of very different size: near a bound the residual is small, the step is not
    raw = base if problem != "rows" else (lambda z, p: p["rows"] * base(z, p))
    cauchy = how == "full"

    def fn(y, p):
        z = lay.flat(y)
        r = raw(z, p)
        # as a fixed-point map the root is a fixed point of y + r
        return lay.unflat(z + r) if entry == "fixed_point" else lay.unflat(r)

    def build():
        @eqx.filter_jit
        def run(y0, p, lo, hi, rtol, atol):
            opts = {}
            if "l" in sides:
                opts["lower"] = lo
            if "u" in sides:
                opts["upper"] = hi
            out = []
            for b in BUDGETS:
                solver = CLS[name](rtol, atol, cauchy_termination=cauchy)
                sol = getattr(optx, entry)(
                    fn, solver, y0, p, options=opts, max_steps=b, throw=False)
                out.append((lay.flat(sol.value), V.rcode(sol.result), sol.stats["num_steps"]))
            return out

        return run, jax.jit(lambda z, p: (raw(z, p), jax.jacfwd(raw)(z, p)))

    holder = {}

    def judge(d):
        if not holder:
            holder["x"] = build()
        run, both = holder["x"]
        p = fam.params(d["base"])
        p["k"] = np.float64(0.3 + d["k"] / 5.0)
        p["rows"] = 10.0 ** -np.array(d["rows"], float)
        z0 = P.start(d["base"])
        if name == "Chord":
            z0 = p["c"] + 0.2 * (z0 - p["c"])
        lo, hi = box(lay, d, z0)
        tlo, thi = leafwise(lay, lo, how, np.min), leafwise(lay, hi, how, np.max)
        # what the bounds amount to, coordinate by coordinate
        full = jax.tree_util.tree_map(lambda b, l: np.broadcast_to(b, l.shape), tlo, lay.np_unflat(lo))
        lo = lay.np_flat(full) if "l" in sides else np.full(n, -np.inf)
        full = jax.tree_util.tree_map(lambda b, l: np.broadcast_to(b, l.shape), thi, lay.np_unflat(hi))
        hi = lay.np_flat(full) if "u" in sides else np.full(n, np.inf)
        rtol, atol = TOLS[d["r"]], TOLS[d["a"]]
        got = npt(lib(run, lay.np_unflat(z0), p, tlo, thi, np.float64(rtol), np.float64(atol)))
        z, zs, jac, clipped, stop, near = z0, [z0], None, False, None, False
        for _ in range(max(BUDGETS)):
            f, J = npt(both(z, p))
            jac = J if jac is None or name == "Newton" else jac
            if np.linalg.cond(jac / np.abs(jac).sum(1, keepdims=True)) > 1e6:
                return None
            new = z - np.linalg.solve(jac, f)
            last, z = z, np.clip(new, lo, hi)
            clipped |= bool(np.any(new != z))
            worst = max(np.max(np.abs(z - last) / (atol + rtol * np.abs(last))),
                        np.max(np.abs(f)) / atol)
            near |= stop is None and abs(worst - 1) < 1e-5
            if stop is None and worst < 1:
                stop = len(zs)
            if not np.max(np.abs(z)) < 1e3:
                break  # diverging: rounding and overflow take over
            zs.append(z)
        for b, (v, code, steps) in zip(BUDGETS, got):
            if steps >= len(zs):
                break
            where = f"{name}/{entry}, bounds [{lo}, {hi}], {steps} steps from {z0}"
            check(
                np.all(v >= lo) and np.all(v <= hi), lambda: f"{where}: {v} is out of bounds"
            )
            want = zs[int(steps)]
            check(
                np.allclose(v, want, rtol=1e-6, atol=1e-7 * (1 + np.max(np.abs(want)))),
                lambda: f"{where}: at {v}, the clipped iteration is at {want}",
            )
            if cauchy and not near:
                # the change that counts is the one after clipping
                late = stop is None or stop > b
                check(
                    (code, steps) == ((1, b) if late else (0, stop)),
                    lambda: f"{where}, rtol {rtol}, atol {atol}, budget {b}: code {code}, "
                    f"the criterion first holds after {stop} steps",
                )
        return "clipped" if clipped else "never clipped"

    strat = st.fixed_dictionaries(
        dict(base=fam.strategy, lo=P.ints(n, 0, 24), hi=P.ints(n, 0, 24), k=st.integers(0, 10),
             rows=P.ints(n, 0, 6), r=st.integers(0, len(TOLS) - 1), a=st.integers(0, len(TOLS) - 1))
    )
    nm = f"{name}/{problem}/{how}/{sides}/{entry}/{lay.name}"
    return Cell(nm, strat, judge, examples)


def inactive_cell(name, lay, examples=10):
    """Bounds that never bind change nothing."""
    n = lay.n
    fam = C.Family("root", lay)

    def build():
        @eqx.filter_jit
        def run(y0, p, lo, hi):
            out = []
            for opts in ({}, dict(lower=lo, upper=hi), dict(lower=lo), dict(upper=hi)):
                sol = optx.root_find(
                    fam.fn, CLS[name](1e-8, 1e-8), y0, p, options=opts, max_steps=60,
                    throw=False)
                out.append(V.summary(sol))
            return out

        return run

    fn = Lazy(build)

    def judge(d):
        p = fam.params(d["base"])
        y0 = fam.start(d["base"], p, name)
        far = 100.0 + d["far"]
        free, *rest = npt(lib(fn, lay.np_unflat(y0), p, lay.np_unflat(np.full(n, -far)),
                              lay.np_unflat(np.full(n, far))))
        for r in rest:
            check(close(r, free, 1e-9, 1e-10), lambda: f"{name}: unbounded {free}, loosely bounded {r}")
        return "inactive"

    strat = st.fixed_dictionaries(dict(base=fam.strategy, far=st.integers(0, 50)))
    return Cell(f"inactive/{name}/{lay.name}", strat, judge, examples)


def cells(tier):
    L = P.LAYOUTS
    out = []
    lays = ("pair", "vec2", "dict", "scalar", "mat22")
    i = 0
    for name in CLS:
        for problem in ("mild", "wild", "rows"):
            for how in ("full", "leaf"):
                for sides in ("lu", "l", "u"):
                    entry = "fixed_point" if i % 4 == 3 else "root_find"
                    out.append(iterate_cell(name, problem, how, sides, entry, L[lays[i % 5]]))
                    i += 1
        out.append(inactive_cell(name, L["pair"]))
        out.append(inactive_cell(name, L["dict"]))
    return out
