"""C33: solves transform with the coordinates.

Each problem is solved twice for the same number of steps: as it is, and in other
coordinates w = A z + t, with the function transformed accordingly. The second run must
be the image of the first.
"""

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optax
import optimistix as optx
from hypothesis import strategies as st

from . import catalog as C, problems as P, solvers as V
from .common import Lazy, close, npt, offset, robust
from .core import Cell, check, lib
from .rough import Rough

TINY = 1e-200  # tolerances nothing but an exact hit can meet

# Which changes of coordinates a solver must follow.
#   shift: w = z + t         units: w = 2^k z       turn: w = R z, R orthogonal
#   linear: w = A z for any invertible A
#   out: an orthogonal map of the residuals only
ALL = ("shift", "units", "turn")


def amount(name):
    """Scale of the function when y is scaled by s: residuals by s, objectives by s^2."""
    return {"min": 2}.get(name, 1)


def transform(n, m, how, d):
    """(A, t, O, s): unknowns w = A z + t, residuals O r, objective s^2 f."""
    A, t, O, s = np.eye(n), np.zeros(n), np.eye(m), 1.0
    if how == "shift":
        t = np.array(d["t"]) / 4.0
    elif how == "units":
        s = 2.0 ** d["k"]
        A, O = s * A, s * O
    elif how == "turn":
        A = P.rotation(n, d["a"])
        if d["flip"]:
            A = A * np.where(np.arange(n) == 0, -1.0, 1.0)
    elif how == "linear":
        A = P.rotation(n, d["a"]) @ np.diag(2.0 ** np.array(d["e"])) @ P.rotation(n, d["b"])
    if how in ("out", "linear"):
        O = P.rotation(m, d["o"]) @ O
    return A, t, O, s


def data(n, m):
    return st.fixed_dictionaries(dict(
        t=P.ints(n, -20, 20), k=st.integers(-8, 24), a=P.angles(n), b=P.angles(n),
        o=P.angles(m), e=P.ints(n, -1, 1), flip=st.booleans()))


def moved(kind, raw, A, t, O, s):
    """The transformed function of w, given raw(z, p)."""
    back = lambda w: jnp.linalg.solve(A, w - t)
    if kind == "min":
        return lambda w, p: s**2 * raw(back(w), p)
    if kind == "fp":
        return lambda w, p: A @ raw(back(w), p) + t
    return lambda w, p: O @ raw(back(w), p)


def run_cell(kind, name, make, how, n, budgets, rough=None, examples=4):
    """make(rtol, atol, s): s is the unit, for solvers that have a length as parameter."""
    fam = C.Family(kind, P.Layout("vec", P.S(n))) if rough is None else Rough(
        kind, P.Layout("vec", P.S(n)), *rough)
    m = fam.out.n if rough and kind == "lsq" else getattr(fam, "m", n)

    def build(b):
        @eqx.filter_jit
        def run(z0, p, A, t, O, s):
            one = C.ENTRY[kind](fam.raw, make(TINY, TINY, 1.0), z0, p, max_steps=b, throw=False)
            two = C.ENTRY[kind](moved(kind, fam.raw, A, t, O, s), make(TINY, TINY, s),
                                A @ z0 + t, p, max_steps=b, throw=False)
            return one.value, two.value, V.rcode(one.result), V.rcode(two.result)

        return run

    runs = {b: Lazy(lambda b=b: build(b)) for b in budgets}

    def compare(d, e):
        p = fam.params(d["base"])
        z0 = offset(fam.start(d["base"], p, name), e)
        A, t, O, s = transform(n, m, how, d["tr"])
        b = budgets[d["i"] % len(budgets)]
        z, w, c1, c2 = npt(lib(runs[b], z0, p, A, t, O, np.float64(s)))
        if not np.all(np.isfinite(z)) or np.abs(z).max() > 1e6:
            return None
        want = A @ z + t
        size = np.abs(want).max() + np.abs(A).max() * np.abs(z0).max() + np.abs(t).max()
        tol = 1e-6
        check(np.all(np.abs(w - want) <= tol * (size + s)), lambda: (
            f"{name} after {b} steps from {z0}: {z}; with {how} {transform(n, m, how, d['tr'])}"
            f" {w}, expected {want}"))
        moving = np.abs(z - z0).max() > 1e-3
        trivial = np.allclose(A, np.eye(n)) and np.allclose(O, np.eye(m)) and not np.any(t)
        return how if moving and not trivial else None

    strat = st.fixed_dictionaries(dict(base=fam.strategy, tr=data(n, m), i=st.integers(0, 5)))
    label = "" if rough is None else "/" + "-".join(rough)
    return Cell(f"{how}/{kind}/{name}/{n}{label}", strat, robust(compare), examples)


def stop_cell(kind, name, make, n, examples=6):
    """In other units, with atol in those units, the solve stops at the same step."""
    fam = C.Family(kind, P.Layout("vec", P.S(n)))
    m = getattr(fam, "m", n)

    def build():
        @eqx.filter_jit
        def run(z0, p, s, tol):
            A, t, O = s * jnp.eye(n), jnp.zeros(n), s * jnp.eye(m)
            one = C.ENTRY[kind](fam.raw, make(tol, tol, 1.0), z0, p, throw=False)
            two = C.ENTRY[kind](moved(kind, fam.raw, A, t, O, s), make(tol, tol * s, s),
                                s * z0, p, throw=False)
            return V.summary(one), V.summary(two)

        return run

    run = Lazy(build)

    def compare(d, e):
        p = fam.params(d["base"])
        z0 = offset(fam.start(d["base"], p, name), e)
        s = 2.0 ** d["k"]
        one, two = npt(lib(run, z0, p, np.float64(s), np.float64(10.0 ** -d["tol"])))
        same = (close(two["value"] / s, one["value"], 1e-6, 1e-8)
                and int(one["steps"]) == int(two["steps"])
                and int(one["code"]) == int(two["code"]))
        check(same, lambda: f"{name}, units {s}: {one}; in these units {two}")
        return "stop" if d["k"] and one["steps"] > 1 else None

    strat = st.fixed_dictionaries(dict(
        base=fam.strategy, k=st.integers(-8, 24), tol=st.integers(2, 6)))
    return Cell(f"stop/{kind}/{name}/{n}", strat, robust(compare), examples)


def bracket_cell(kind, name, cls, examples=20):
    """The scalar-only solvers: shifts (with rtol zero), units and reflections."""

    def build():
        def raw(z, c):
            u = z - c
            return jnp.tanh(u) + 0.25 * u if kind == "root" else jnp.sqrt(1 + u * u) + 0.1 * u

        @eqx.filter_jit
        def run(z0, lo, hi, c, a, t, tol):
            s = jnp.abs(a)
            one = C.ENTRY[kind](raw, cls(0.0, tol), z0, c, throw=False, max_steps=60,
                                options=dict(lower=lo, upper=hi))
            g = lambda w, c: s * raw((w - t) / a, c)
            ends = jnp.sort(jnp.stack([a * lo + t, a * hi + t]))
            two = C.ENTRY[kind](g, cls(0.0, tol * s), a * z0 + t, c, throw=False, max_steps=60,
                                options=dict(lower=ends[0], upper=ends[1]))
            return V.summary(one), V.summary(two)

        return run

    run = Lazy(build)

    def judge(d):
        c, tol = d["c"] / 7.0, 10.0 ** -d["tol"]
        lo, hi = c - 1 - d["l"] / 5.0, c + 1 + d["u"] / 5.0
        a, t = 2.0 ** d["k"] * (-1 if d["flip"] else 1), d["t"] / 4.0
        z0 = lo + (hi - lo) * d["z"] / 10
        one, two = npt(lib(run, *map(np.float64, (z0, lo, hi, c, a, t, tol))))
        want = a * one["value"] + t
        check(int(one["code"]) == int(two["code"]), lambda: f"{name}: {one}, moved {two}")
        # midpoints of a reflected golden section differ, so only the answer is compared
        slack = 3 * tol * abs(a) if d["flip"] else 1e-6 * abs(a)
        check(abs(float(two["value"]) - want) <= slack + 1e-9 * (abs(want) + abs(t)),
              lambda: f"{name}: {one}, with w = {a} z + {t}: {two}")
        return "flip" if d["flip"] else "same"

    return Cell(f"bracket/{name}", st.fixed_dictionaries(dict(
        c=st.integers(-20, 20), l=st.integers(0, 10), u=st.integers(0, 10),
        k=st.integers(-8, 16), t=st.integers(-20, 20), flip=st.booleans(),
        z=st.integers(1, 9), tol=st.integers(2, 6))), judge, examples)


plain = lambda make: lambda r, a, s: make(r, a)

ROOTS = {n: plain(C.ROOT[n]) for n in ("Newton", "Chord", "NewtonQR")}
FPS = {n: plain(C.FP[n]) for n in ("FPI", "FPIdamp")}
LSQS = {n: plain(C.LSQ[n]) for n in (
    "GaussNewton", "LevenbergMarquardt", "IndirectLM", "Dogleg", "GN+Newton+Armijo",
    "GN+Damped+LTR", "GN+Dogleg+LTR", "GN+Newton+CTR")}
MINS = {n: plain(C.MIN[n]) for n in (
    "BFGS", "BFGSdirect", "DFP", "DFPdirect", "LBFGS", "LBFGSdirect", "LBFGS2",
    "CG-polak_ribiere", "CG-fletcher_reeves", "CG-hestenes_stiefel", "CG-dai_yuan",
    "GradientDescent", "OptaxSGD", "BFGS+Dogleg+CTR", "BFGS+Damped+CTR", "DFP+Dogleg+CTR",
    "GD+Steepest+Armijo", "CG+PR+LTR", "BFGS+Indirect+CTR")}
MINS["NelderMead"] = lambda r, a, s: optx.NelderMead(r, a, rdelta=0.0, adelta=0.25 * s)


ROUGH_LSQ = ("LevenbergMarquardt", "IndirectLM", "Dogleg", "GN+Newton+Armijo",
             "GN+Dogleg+LTR", "GN+Newton+CTR")
ROUGH_MIN = ("BFGS", "DFP", "LBFGSdirect", "CG-polak_ribiere", "CG-hestenes_stiefel",
             "CG-dai_yuan", "BFGS+Dogleg+CTR", "BFGS+Damped+CTR", "CG+PR+LTR")


def cells(tier):
    out = []
    k = 0
    for name, make in ROOTS.items():
        for how in ALL + ("linear",):
            k += 1
            out.append(run_cell("root", name, make, how, 2 + k % 2, (1, 3, 5)))
        out.append(stop_cell("root", name, make, 2))
    for name, make in FPS.items():
        for how in ALL + ("linear",):
            k += 1
            out.append(run_cell("fp", name, make, how, 2 + k % 2, (1, 4, 12)))
        out.append(stop_cell("fp", name, make, 3))
    for name, make in LSQS.items():
        hows = ALL + ("out",)
        if name == "GaussNewton":
            hows += ("linear",)
        if "Indirect" in name:
            hows = ("shift", "turn", "out")  # its inner root find has absolute tolerances
        for how in hows:
            k += 1
            out.append(run_cell("lsq", name, make, how, 2 + k % 2, (2, 4, 6)))
        if "Indirect" not in name:
            out.append(stop_cell("lsq", name, make, 2))
    for name, make in MINS.items():
        hows = ("shift", "units") if name == "NelderMead" else ALL
        if "Indirect" in name:
            hows = ("shift", "turn")
        for how in hows:
            k += 1
            out.append(run_cell("min", name, make, how, 2 + k % 2, (3, 6, 9)))
    for kind, names in (("lsq", ROUGH_LSQ), ("min", ROUGH_MIN)):
        for j, name in enumerate(names):
            make = (LSQS if kind == "lsq" else MINS)[name]
            shape = ("wavy", "none") if j % 2 else ("valley", "exp")
            for how in ("units", "turn") if "Indirect" not in name else ("turn",):
                out.append(run_cell(kind, name, make, how, 2, (4, 8), shape, examples=6))
    out.append(bracket_cell("root", "Bisection", optx.Bisection))
    out.append(bracket_cell("min", "GoldenSearch", optx.GoldenSearch))
    return out
