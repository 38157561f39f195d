"""C12: best-so-far wrappers return the best point seen."""

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optax
import optimistix as optx
from hypothesis import strategies as st

from . import catalog as C, problems as P, rough, solvers as V
from .common import close, npt, offset, robust, same, steps_bucket
from .core import Cell, check, lib
from .stepper import Stepper

BUDGETS = (1, 3, 7, 20)

WRAP = dict(
    min=optx.BestSoFarMinimiser, lsq=optx.BestSoFarLeastSquares,
    root=optx.BestSoFarRootFinder, fp=optx.BestSoFarFixedPoint,
)
SOLVERS = dict(
    min={
        "BFGS": lambda: optx.BFGS(1e-6, 1e-6),
        "LBFGS": lambda: optx.LBFGS(1e-6, 1e-6),
        "CG": lambda: optx.NonlinearCG(1e-6, 1e-6),
        "GDsmall": lambda: optx.GradientDescent(0.05, 1e-6, 1e-6),
        "GDbig": lambda: optx.GradientDescent(0.9, 1e-6, 1e-6),
        "Adam": lambda: optx.OptaxMinimiser(optax.adam(0.7), 1e-6, 1e-6),
        "SGD": lambda: optx.OptaxMinimiser(optax.sgd(0.4, momentum=0.8), 1e-6, 1e-6),
        "NelderMead": lambda: optx.NelderMead(1e-4, 1e-4),
        "Golden": lambda: optx.GoldenSearch(1e-4, 1e-4),
    },
    lsq={
        "GaussNewton": lambda: optx.GaussNewton(1e-6, 1e-6),
        "LM": lambda: optx.LevenbergMarquardt(1e-6, 1e-6),
        "Dogleg": lambda: optx.Dogleg(1e-6, 1e-6),
        "GN+Indirect+Armijo": lambda: V.LSQ_CUSTOM["GN+Indirect+Armijo"](1e-6, 1e-6),
    },
    root={
        "Newton": lambda: optx.Newton(1e-6, 1e-6),
        "NewtonNC": lambda: optx.Newton(1e-6, 1e-6, cauchy_termination=False),
        "Chord": lambda: optx.Chord(1e-6, 1e-6),
        "Bisection": lambda: optx.Bisection(1e-4, 1e-4, flip=False),
    },
    fp={
        "FPI": lambda: optx.FixedPointIteration(1e-6, 1e-6),
        "FPIdamp": lambda: optx.FixedPointIteration(1e-6, 1e-6, damp=0.4),
    },
)


def wild_root(z, p):
    """Newton's method wanders on this one."""
    e = z - p["c"]
    lin = p["A"] @ e + jnp.sum(p["a"] * jnp.sin(p["W"] @ z + p["b"])) * p["u"]
    return lin + 0.8 * jnp.sin(2 * e[::-1])


def wild_map(z, p):
    """Contracts, expands or oscillates depending on k in [0.1, 4]."""
    e = z - p["c"]
    return p["c"] + 0.35 * p["k"] * jnp.sin(e[::-1] + 0.3 * p["u"]) - 0.1 * p["k"] * e


@jax.custom_jvp
def quantised(x):
    """Rounded to halves, with the derivative of x: distinct points tie exactly."""
    return jnp.round(2 * x) / 2


@quantised.defjvp
def _(primals, tangents):
    return quantised(*primals), tangents[0]


def family(kind, wallkind, n):
    if wallkind == "ties":
        raw, out = family(kind, "none", n)
        return (lambda z, p: quantised(raw(z, p))), out
    if kind == "min":
        return rough.objective("wavy", wallkind), None
    if kind == "lsq":
        return rough.residual("wavy", wallkind, n), P.Layout(
            "out", (P.S(n), {"q": P.S(3), "t": P.S()}))
    if kind == "root":
        return (lambda z, p: wild_root(z, p) + rough.wall(wallkind, z, p)), P.Layout("out", [P.S(n)])
    return (lambda z, p: wild_map(z, p) + rough.wall(wallkind, z, p)), None


def cell(kind, name, wallkind, lay, examples=10):
    n = lay.n
    raw, out = family(kind, wallkind, n)
    if kind == "fp":
        out = lay
    make = SOLVERS[kind][name]
    bracket = name in ("Golden", "Bisection")
    holder = {}

    def loss(z, p):
        r = raw(z, p)
        if kind == "min":
            return r
        return jnp.sum((r - z if kind == "fp" else r) ** 2)

    def aux_of(y, z):
        return dict(y=y, tag=jnp.sum(z * (2 + jnp.arange(n))), k=jnp.floor(3 * z[0]).astype(int))

    def fn(y, p):
        z = lay.flat(y)
        r = raw(z, p)
        r = r if kind == "min" else (r[0] if name == "Bisection" else out.unflat(r))
        return r, aux_of(y, z)

    def options(o):
        return dict(lower=o[0], upper=o[1]) if bracket else {}

    def build():
        def solver(wrapped, b):
            @eqx.filter_jit
            def run(y0, p, o):
                s = WRAP[kind](make()) if wrapped else make()
                sol = C.ENTRY[kind](
                    fn, s, lay.unflat(y0), p, has_aux=True, max_steps=b, throw=False,
                    options=options(o),
                )
                consistent = aux_of(sol.aux["y"], lay.flat(sol.aux["y"]))
                return V.summary(sol), sol.aux, consistent

            return run

        solves = {(w, b): solver(w, b) for w in (True, False) for b in BUDGETS}
        return Stepper(lambda c: make(), fn, options), jax.jit(loss), solves

    def compare(d, e):
        if not holder:
            holder["x"] = build()
        stepper, losses, solves = holder["x"]
        p = rough.params(n, d["base"])
        z0 = offset(np.array(d["base"]["y"]) / 4.0, e)
        b = BUDGETS[d["b"]]
        o = None
        if bracket:
            o = (np.float64(z0[0] - 1 - d["lo"] / 3.0), np.float64(z0[0] + 1 + d["hi"] / 3.0))
        best, baux, consistent = npt(lib(solves[True, b], z0, p, o))
        plain, _, _ = npt(lib(solves[False, b], z0, p, o))
        check(
            best["code"] == plain["code"] and best["steps"] == plain["steps"],
            lambda: f"{name}: wrapped code {best['code']} after {best['steps']} steps, "
            f"unwrapped {plain['code']} after {plain['steps']}",
        )
        # what the unwrapped solver reports, step by step
        y, dyn, done, code = lib(stepper.start, lay.np_unflat(z0), p, None, o)
        seen = []
        for _ in range(int(plain["steps"])):
            y, dyn, aux, _, _ = lib(stepper.step, y, dyn, p, None, o)
            seen.append(lay.np_flat(npt(aux["y"])))
        vals = [float(losses(z, p)) for z in seen]
        finite = [v for v in vals if np.isfinite(v)]
        if not finite:
            return None
        zb = lay.np_flat(best["value"])
        vb = float(losses(zb, p))
        tol = 1e-7 * (1 + abs(min(finite)))
        check(
            vb <= min(finite) + tol,
            lambda: f"{name}: returned {zb} with loss {vb}; losses seen: {vals}",
        )
        check(
            any(np.allclose(zb, z, rtol=1e-6, atol=1e-7) for z in seen),
            lambda: f"{name}: returned {zb}, not among the points evaluated {seen}",
        )
        check(
            same(baux["y"], best["value"]),
            lambda: f"{name}: value {zb}, but aux belongs to {lay.np_flat(baux['y'])}",
        )
        check(close(baux, consistent, 1e-9, 1e-9),
              lambda: f"{name}: aux {baux} mixes points; at its y it would be {consistent}")
        if len(set(vals)) < 2:
            return None
        last = vals[-1]
        return "best was not last" if not last <= min(finite) + tol else "best was last"

    strat = st.fixed_dictionaries(
        dict(base=rough.data(n), b=st.integers(0, len(BUDGETS) - 1), lo=st.integers(0, 9),
             hi=st.integers(0, 9))
    )
    return Cell(f"{kind}/{name}/{wallkind}/{lay.name}", strat, robust(compare), examples)


def all_nan_cell(kind, examples=6):
    """Nothing finite ever seen: the wrapper still reports the solver's failure."""
    lay = P.LAYOUTS["vec2"]
    name = next(iter(SOLVERS[kind]))
    holder = {}

    def build():
        @eqx.filter_jit
        def run(y0, w):
            f = lambda y, _: (jnp.nan * (jnp.sum(y) if kind == "min" else y))
            mk = SOLVERS[kind][name]
            res = []
            for s in (mk(), WRAP[kind](mk())):
                sol = C.ENTRY[kind](f, s, y0, None, max_steps=9, throw=False)
                res.append(V.summary(sol))
            return res

        return run

    def judge(d):
        if not holder:
            holder["x"] = build()
        a, b = npt(lib(holder["x"], np.array(d["y"]) / 4.0, 0.0))
        check(
            a["code"] == b["code"] and a["steps"] == b["steps"] and b["code"] != 0,
            lambda: f"{kind}: NaN everywhere: plain {a}, wrapped {b}",
        )
        return "all NaN"

    return Cell(f"nan/{kind}", st.fixed_dictionaries(dict(y=P.vec(2))), judge, examples)


def tolerance_cell(kind, examples=10):
    """A wrapper answers for the tolerances and the norm of what it wraps."""
    makers = dict(
        min=(lambda r, a, n: optx.BFGS(r, a, n), lambda r, a, n: optx.NelderMead(r, a, n)),
        lsq=(lambda r, a, n: optx.GaussNewton(r, a, n), lambda r, a, n: optx.Dogleg(r, a, n)),
        root=(lambda r, a, n: optx.Newton(r, a, n), lambda r, a, n: optx.Chord(r, a, n)),
        fp=(lambda r, a, n: optx.FixedPointIteration(r, a, n),) * 2,
    )[kind]
    norms = (optx.max_norm, optx.two_norm, optx.rms_norm)

    def judge(d):
        r, a, n = d["r"] / 64, d["a"] / 64, norms[d["n"]]
        w = lib(lambda: WRAP[kind](makers[d["k"]](r, a, n)))
        got = lib(lambda: (w.rtol, w.atol, w.norm))
        check(got == (r, a, n), lambda: f"{type(w).__name__}: {got}, wrapped solver has {(r, a, n)}")
        return "tolerances" if r != a else None

    return Cell(f"tolerances/{kind}", st.fixed_dictionaries(dict(
        r=st.integers(1, 64), a=st.integers(1, 64), n=st.integers(0, 2), k=st.integers(0, 1))),
        judge, examples)


CONVERSIONS = (
    ("fp", "root", "Newton"), ("fp", "root", "Chord"), ("root", "lsq", "GaussNewton"),
    ("root", "lsq", "LM"), ("fp", "lsq", "Dogleg"), ("lsq", "min", "BFGS"),
    ("lsq", "min", "Adam"), ("root", "min", "GDbig"), ("root", "min", "Adam"),
    ("fp", "min", "CG"), ("fp", "min", "SGD"),
)


def converted_cell(entry, kind, name, lay, examples=10):
    """A wrapped solver of one kind given to the entry point of another."""
    n = lay.n
    raw, out = family(entry, "none", n)
    out = lay if entry == "fp" else out
    make = SOLVERS[kind][name]
    steps = range(1, 8)
    holder = {}

    def loss(z, p):
        r = raw(z, p)
        r = r - z if entry == "fp" else r
        # a minimiser brings down the norm it was given (here the largest entry)
        by_norm = kind == "min" and entry != "lsq"
        return jnp.max(jnp.abs(r)) if by_norm else jnp.sum(r**2)

    def fn(y, p):
        return out.unflat(raw(lay.flat(y), p)), dict(y=y, two=2 * lay.flat(y)[0])

    def solver(wrapped, b):
        @eqx.filter_jit
        def run(y0, p):
            s = WRAP[kind](make()) if wrapped else make()
            sol = C.ENTRY[entry](
                fn, s, lay.unflat(y0), p, has_aux=True, max_steps=b, throw=False)
            return V.summary(sol), sol.aux

        return run

    def compare(d, e):
        if not holder:
            holder["x"] = {(w, b): solver(w, b) for w in (True, False) for b in steps}
            holder["l"] = jax.jit(loss)
        p = rough.params(n, d["base"])
        z0 = offset(np.array(d["base"]["y"]) / 4.0, e)
        plain = [npt(lib(holder["x"][False, b], z0, p)) for b in steps[: d["b"]]]
        best, baux = npt(lib(holder["x"][True, d["b"]], z0, p))
        sol = plain[-1][0]
        check(best["code"] == sol["code"] and best["steps"] == sol["steps"],
              lambda: f"{name} through {entry}: wrapped {best}, unwrapped {sol}")
        seen = [lay.np_flat(aux["y"]) for _, aux in plain]
        vals = [float(holder["l"](z, p)) for z in seen]
        zb = lay.np_flat(best["value"])
        vb = float(holder["l"](zb, p))
        tol = 1e-7 * (1 + min(vals))
        check(vb <= min(vals) + tol, lambda: (
            f"{name} through {entry}: returned {zb}, loss {vb}; losses seen: {vals}"))
        check(any(np.allclose(zb, z, rtol=1e-6, atol=1e-7) for z in seen),
              lambda: f"{name} through {entry}: {zb} not among the points evaluated {seen}")
        check(same(baux["y"], best["value"]) and np.isclose(baux["two"], 2 * zb[0]),
              lambda: f"{name} through {entry}: value {zb}, aux {baux}")
        if len(set(vals)) < 2:
            return None
        return "best was last" if vals[-1] <= min(vals) + tol else "best was not last"

    strat = st.fixed_dictionaries(dict(base=rough.data(n), b=st.integers(1, len(steps))))
    return Cell(f"through/{entry}/{name}/{lay.name}", strat, robust(compare), examples)


def cells(tier):
    L = P.LAYOUTS
    out = []
    i = 0
    for kind, group in SOLVERS.items():
        for name in group:
            if name in ("Golden", "Bisection"):
                lays = ("scalar",)
            elif name == "NelderMead":
                lays = ("scalars2", "scalars3")
            else:
                lays = ("vec2", "pair", "dict")
            for wallkind in ("none", "nan", "ties"):
                if name in ("NelderMead", "Golden", "Bisection") and wallkind == "nan":
                    continue
                out.append(cell(kind, name, wallkind, L[lays[i % len(lays)]]))
                i += 1
        out.append(all_nan_cell(kind))
        out.append(tolerance_cell(kind))
    for j, (entry, kind, name) in enumerate(CONVERSIONS):
        out.append(converted_cell(entry, kind, name, L[("vec2", "pair", "dict")[j % 3]]))
    return out
