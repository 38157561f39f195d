"""C25: malformed problems are rejected with an error, their valid neighbours accepted."""

import jax
import jax.numpy as jnp
import lineax as lx
import numpy as np
import optimistix as optx
from hypothesis import strategies as st

from . import catalog as C, problems as P, solvers as V
from .core import Cell, check, lib, raises

FACTOR = 3
F = optx.FunctionInfo


def good_quadratic(y, p):
    return sum(jnp.sum((l - 1) ** 2) for l in jax.tree_util.tree_leaves(y))


def pair(name, strat, bad, good, examples=8):
    """bad(d) and good(d) are calls; the first must raise and the second must not."""

    def judge(d):
        err = raises(lambda: jax.block_until_ready(jax.tree_util.tree_leaves(bad(d))))
        check(err is not None, lambda: f"{name}: {d} was accepted")
        lib(lambda: jax.block_until_ready(jax.tree_util.tree_leaves(good(d))))
        return "rejected"

    return Cell(name, strat, judge, examples)


def objective_cells():
    out = []
    bad_out = {
        "vector": lambda v, k: jnp.ones(k) * v, "matrix": lambda v, k: jnp.ones((1, 1)) * v,
        "tuple": lambda v, k: (v,), "dict": lambda v, k: {"f": v, "g": v}, "none": lambda v, k: None,
        "complex": lambda v, k: v + 0j, "one": lambda v, k: v[None], "list": lambda v, k: [v] * k,
        "empty": lambda v, k: jnp.zeros((0,)),
    }
    solvers = ("BFGS", "DFPdirect", "LBFGS", "CG-polak_ribiere", "GradientDescent", "OptaxAdam",
               "NelderMead", "BestBFGS")
    for i, name in enumerate(solvers):
        make = C.MIN[name]
        lay = P.LAYOUTS["scalars2" if name == "NelderMead" else ("vec2", "pair", "dict")[i % 3]]

        def bad(d, make=make, lay=lay):
            y0 = lay.np_unflat(np.array(d["y"][: lay.n]) / 4.0)
            f = lambda y, p: bad_out[d["out"]](good_quadratic(y, p), d["k"])
            if d["aux"]:
                g, f = f, lambda y, p: (g(y, p), {"a": jnp.array(1.0)})
            return optx.minimise(f, make(1e-2, 1e-2), y0, has_aux=d["aux"], max_steps=3,
                                 throw=False).value

        def good(d, make=make, lay=lay):
            y0 = lay.np_unflat(np.array(d["y"][: lay.n]) / 4.0)
            f = good_quadratic
            if d["aux"]:
                f = lambda y, p: (good_quadratic(y, p), {"a": jnp.array(1.0)})
            return optx.minimise(f, make(1e-2, 1e-2), y0, has_aux=d["aux"], max_steps=3,
                                 throw=False).value

        out.append(pair(f"objective/{name}", st.fixed_dictionaries(dict(
            y=P.vec(4), out=st.sampled_from(sorted(bad_out)), k=st.integers(2, 4),
            aux=st.booleans())), bad, good, 4))
    return out


def scalar_cells():
    """Scalar-only solvers: the unknown, the bounds and the output must be scalars."""
    out = []
    where = st.sampled_from(["y", "y1", "lower", "upper", "out", "ytuple", "outtuple", "nolower",
                             "noupper", "nooptions"])
    strat = st.fixed_dictionaries(dict(where=where, n=st.integers(1, 3), c=st.integers(-8, 8)))

    def call(entry, solver, d, broken, f):
        w = d["where"] if broken else None
        c = d["c"] / 4.0
        y0 = jnp.array(c + 0.1)
        options = dict(lower=c - 2.0, upper=c + 3.0)
        g = lambda y, p: f(y - c)
        if w in ("y", "y1"):
            y0 = jnp.full((d["n"],) if w == "y" else (1, 1), y0)
            g = lambda y, p: f(jnp.sum(y) - c) if w == "y" else f(y[0, 0] - c)
        elif w in ("lower", "upper"):
            options[w] = jnp.full((d["n"],), options[w])
        elif w == "out":
            g = lambda y, p: jnp.full((d["n"],), f(y - c))
        elif w == "ytuple":
            y0, g = (y0, y0), lambda y, p: f(y[0] - c)
        elif w == "outtuple":
            g = lambda y, p: (f(y - c), f(y - c))
        elif w in ("nolower", "noupper"):
            del options[w[2:]]
        elif w == "nooptions":
            options = None
        return entry(g, solver(), y0, options=options, max_steps=8, throw=False).value

    for name, entry, solver, f in (
        ("Bisection", optx.root_find, lambda: optx.Bisection(1e-2, 1e-2), lambda e: e + 0.3 * e**3),
        ("BisectionDown", optx.root_find, lambda: optx.Bisection(1e-2, 1e-2, flip=True),
         lambda e: -e),
        ("BestBisection", optx.root_find,
         lambda: optx.BestSoFarRootFinder(optx.Bisection(1e-2, 1e-2)), lambda e: jnp.sinh(e)),
        ("GoldenSearch", optx.minimise, lambda: optx.GoldenSearch(1e-2, 1e-2), lambda e: e**2),
        ("BestGolden", optx.minimise, lambda: optx.BestSoFarMinimiser(optx.GoldenSearch(1e-2, 1e-2)),
         lambda e: jnp.cosh(e)),
    ):
        out.append(pair(
            f"scalar/{name}", strat,
            lambda d, a=(entry, solver, f): call(a[0], a[1], d, True, a[2]),
            lambda d, a=(entry, solver, f): call(a[0], a[1], d, False, a[2]), 7))

    # a bracket without a root
    def bracket(d, bad):
        c = d["c"] / 4.0
        lo, hi = (c + 0.5, c + 0.5 + d["w"] / 4.0) if bad else (c - d["w"] / 8.0, c + 0.5)
        if d["left"]:
            lo, hi = 2 * c - hi, 2 * c - lo
        return optx.root_find(lambda y, p: (y - c) * d["s"], optx.Bisection(1e-2, 1e-2),
                              jnp.array((lo + hi) / 2), options=dict(lower=lo, upper=hi),
                              max_steps=20, throw=False).value

    out.append(pair("scalar/no-root", st.fixed_dictionaries(dict(
        c=st.integers(-8, 8), w=st.integers(1, 12), s=st.sampled_from([1.0, -1.0, 3.0]),
        left=st.booleans())), lambda d: bracket(d, True), lambda d: bracket(d, False), 8))
    return out


def fixed_point_cells():
    out = []
    changes = {
        "shape": lambda y: jnp.concatenate([y, y]), "drop": lambda y: y[:-1],
        "tuple": lambda y: (y,), "dict": lambda y: {"y": y}, "scalar": lambda y: jnp.sum(y),
        "extra": lambda y: y[None], "f32": lambda y: y.astype(jnp.float32), "none": lambda y: None,
        "complex": lambda y: y + 0j,
    }
    solvers = {"FPI": C.FP["FPI"], "damped": C.FP["FPIdamp"], "Best": C.FP["BestFPI"],
               "Newton": C.ROOT["Newton"], "LM": C.LSQ["LevenbergMarquardt"], "BFGS": C.MIN["BFGS"]}
    for name, make in solvers.items():
        def call(d, bad, make=make):
            y0 = jnp.array(d["y"]) / 4.0
            f = lambda y, p: 0.3 * y + 1.0
            if bad:
                f = lambda y, p: changes[d["how"]](0.3 * y + 1.0)
            return optx.fixed_point(f, make(1e-2, 1e-2), y0, max_steps=4, throw=False).value

        out.append(pair(f"fixed-point/{name}", st.fixed_dictionaries(dict(
            y=P.vec(2), how=st.sampled_from(sorted(changes)))),
            lambda d, call=call: call(d, True), lambda d, call=call: call(d, False), 5))
    return out


WRONG = ("forward", "FWD", "rev", "", "jvp", None, 1, "bwd ", True, "detect")


def mode_cells():
    out = []
    i = st.integers(0, len(WRONG) - 1)
    for name in ("GaussNewton", "LevenbergMarquardt", "IndirectLM", "Dogleg", "BestGN"):
        make = C.LSQ[name]

        def call(d, mode, make=make):
            return optx.least_squares(lambda y, p: y**2 - 1, make(1e-2, 1e-2),
                                      jnp.array(d["y"]) / 4.0 + 0.6, options=dict(jac=mode),
                                      max_steps=2, throw=False).value

        out.append(pair(f"jac/{name}", st.fixed_dictionaries(dict(y=P.vec(2), i=i)),
                        lambda d, call=call: call(d, WRONG[d["i"]]),
                        lambda d, call=call: call(d, ("fwd", "bwd")[d["i"] % 2]), 4))
    for name in ("BFGS", "DFP", "LBFGS", "CG-dai_yuan", "GradientDescent", "BestBFGS"):
        make = C.MIN[name]

        def call(d, mode, make=make):
            return optx.minimise(good_quadratic, make(1e-2, 1e-2), jnp.array(d["y"]) / 4.0,
                                 options=dict(autodiff_mode=mode), max_steps=2, throw=False).value

        out.append(pair(f"autodiff/{name}", st.fixed_dictionaries(dict(y=P.vec(2), i=i)),
                        lambda d, call=call: call(d, WRONG[d["i"]]),
                        lambda d, call=call: call(d, ("fwd", "bwd")[d["i"] % 2]), 4))
    bad_verbose = (frozenset({"loss"}), "yes", None, 1, ["step"], frozenset(), 0)
    for cls in (optx.GaussNewton, optx.LevenbergMarquardt, optx.IndirectLevenbergMarquardt,
                optx.Dogleg, optx.BFGS, optx.DFP, optx.LBFGS):
        out.append(pair(f"verbose/{cls.__name__}", st.fixed_dictionaries(
            dict(i=st.integers(0, len(bad_verbose) - 1))),
            lambda d, cls=cls: [cls(1e-3, 1e-3, verbose=bad_verbose[d["i"]]), None][1],
            lambda d, cls=cls: [cls(1e-3, 1e-3, verbose=(True, False, print)[d["i"] % 3]), None][1]))
    flips = ("Detect", "auto", None, 2, "true", "")

    def flip(d, f):
        return optx.root_find(lambda y, p: y - 1.0, optx.Bisection(1e-2, 1e-2, flip=f),
                              jnp.array(0.5), options=dict(lower=-1.0, upper=3.0), max_steps=20,
                              throw=False).value

    out.append(pair("flip", st.fixed_dictionaries(dict(i=st.integers(0, len(flips) - 1))),
                    lambda d: flip(d, flips[d["i"]]), lambda d: flip(d, (False, "detect")[d["i"] % 2])))
    return out


def parameter_cells():
    out = []
    k = st.integers(1, 40)

    def armijo(d, bad):
        good = dict(decrease_factor=d["k"] / 41.0, slope=d["j"] / 41.0, step_init=d["k"] / 4.0)
        if bad:
            field, wrong = {
                0: ("decrease_factor", -d["k"] / 4.0), 1: ("decrease_factor", 1.0 + (d["k"] - 1) / 4.0),
                2: ("slope", -d["k"] / 4.0), 3: ("slope", 1.0 + (d["k"] - 1) / 4.0),
                4: ("step_init", -d["k"] / 4.0), 5: ("step_init", 0.0),
                6: ("decrease_factor", 0.0), 7: ("slope", 0.0),
            }[d["which"]]
            good[field] = jnp.asarray(wrong) if d["arr"] else wrong
        return jnp.asarray(optx.BacktrackingArmijo(**good).step_init)

    out.append(pair("parameters/Armijo", st.fixed_dictionaries(
        dict(k=k, j=k, which=st.integers(0, 7), arr=st.booleans())),
        lambda d: armijo(d, True), lambda d: armijo(d, False), 30))
    for cls in (optx.ClassicalTrustRegion, optx.LinearTrustRegion):
        def region(d, bad, cls=cls):
            lo, gap = d["k"] / 50.0, d["j"] / 50.0
            kw = dict(low_cutoff=lo, high_cutoff=lo + gap, low_constant=d["k"] / 41.0,
                      high_constant=1.0 + d["j"] / 4.0)
            if bad:
                if d["which"] == 0:
                    kw["low_cutoff"], kw["high_cutoff"] = kw["high_cutoff"], kw["low_cutoff"]
                elif d["which"] == 1:
                    kw["low_constant"] = -kw["low_constant"]
                else:
                    kw["high_constant"] = -kw["high_constant"]
                if d["arr"]:
                    kw = {a: jnp.asarray(b) for a, b in kw.items()}
            return jnp.asarray(cls(**kw).high_constant)

        out.append(pair(f"parameters/{cls.__name__}", st.fixed_dictionaries(
            dict(k=k, j=k, which=st.integers(0, 2), arr=st.booleans())),
            lambda d, region=region: region(d, True), lambda d, region=region: region(d, False), 20))
    return out


def infos(n, seed):
    r = np.random.default_rng(seed)
    A = r.normal(size=(n, n))
    H = jnp.asarray(A @ A.T + np.eye(n))
    J = jnp.asarray(r.normal(size=(n + 1, n)))
    g, f, res = jnp.asarray(r.normal(size=n)), jnp.array(1.3), jnp.asarray(r.normal(size=n + 1))
    psd = lambda m: lx.MatrixLinearOperator(m, lx.positive_semidefinite_tag)
    return {
        "Eval": F.Eval(f), "EvalGrad": F.EvalGrad(f, g), "EvalGradHessian": F.EvalGradHessian(f, g, psd(H)),
        "EvalGradHessianInv": F.EvalGradHessianInv(f, g, psd(jnp.linalg.inv(H))),
        "ResidualJac": F.ResidualJac(res, lx.MatrixLinearOperator(J)), "Residual": F.Residual(res),
    }


def info_cells():
    """Searches and descents given function information they cannot use."""
    out = []
    every = ("Eval", "EvalGrad", "EvalGradHessian", "EvalGradHessianInv", "ResidualJac", "Residual")
    grad = every[1:5]
    can = {
        "SteepestDescent": (optx.SteepestDescent(), grad),
        "CG": (optx.NonlinearCGDescent(optx.polak_ribiere), grad),
        "Newton": (optx.NewtonDescent(), ("EvalGradHessian", "EvalGradHessianInv", "ResidualJac")),
        "Damped": (optx.DampedNewtonDescent(), ("EvalGradHessian", "ResidualJac")),
        "Dogleg": (optx.DoglegDescent(), ("EvalGradHessian", "ResidualJac")),
        "Indirect": (optx.IndirectDampedNewtonDescent(), ("EvalGradHessian", "ResidualJac")),
    }
    for name, (descent, ok) in can.items():
        bad = tuple(k for k in every if k not in ok)

        def call(d, kind, descent=descent):
            n = d["n"]
            info = infos(n, d["seed"])[kind]
            y = jnp.zeros(n)
            state = descent.query(y, info, descent.init(y, info))
            return descent.step(jnp.array(d["s"] / 4.0), state)[0]

        out.append(pair(f"info/{name}", st.fixed_dictionaries(
            dict(n=st.integers(1, 4), seed=st.integers(0, 50), s=st.integers(1, 8), i=st.integers(0, 11))),
            lambda d, call=call, bad=bad: call(d, bad[d["i"] % len(bad)]),
            lambda d, call=call, ok=ok: call(d, ok[d["i"] % len(ok)]), 8))
    searches = {
        "Armijo": (optx.BacktrackingArmijo(), grad),
        "Linear": (optx.LinearTrustRegion(high_cutoff=0.4), grad),
        "Classical": (optx.ClassicalTrustRegion(), ("EvalGradHessian", "ResidualJac")),
    }
    for name, (search, ok) in searches.items():
        bad = tuple(k for k in every if k not in ok and k != "EvalGradHessianInv")

        def call(d, kind, search=search):
            n = d["n"]
            info = infos(n, d["seed"])[kind]
            y = jnp.zeros(n)
            ev = F.Residual(jnp.ones(n + 1)) if "Res" in kind else F.Eval(jnp.array(0.7))
            state = search.init(y, info)
            return search.step(jnp.array(False), y, y + 0.1 * d["s"], info, ev, state)[0]

        out.append(pair(f"info/{name}", st.fixed_dictionaries(
            dict(n=st.integers(1, 4), seed=st.integers(0, 50), s=st.integers(1, 8), i=st.integers(0, 11))),
            lambda d, call=call, bad=bad: call(d, bad[d["i"] % len(bad)]),
            lambda d, call=call, ok=ok: call(d, ok[d["i"] % len(ok)]), 8))
    return out


def simplex_cell():
    def call(d, bad):
        n, m = d["n"], d["n"] + 1
        r = np.random.default_rng(d["seed"])
        split = d["split"] and n > 1
        wrong = m + (d["off"] if d["off"] else 1)
        if not bad:
            wrong = m
        if split:
            a = r.normal(size=(wrong, n - 1))
            b = r.normal(size=(m if d["uneven"] and bad else wrong,))
            y0 = {"a": jnp.asarray(a), "b": jnp.asarray(b)}
            if d["uneven"] and bad:
                pass
        else:
            y0 = jnp.asarray(r.normal(size=(wrong, n)))
        f = lambda y, p: good_quadratic(y, p)
        step = optx.NelderMead(1e-3, 1e-3).init(
            f, y0, None, {"y0_simplex": True}, jax.ShapeDtypeStruct((), jnp.float64), None, frozenset())
        return jax.tree_util.tree_leaves(step)[0]

    return pair("simplex", st.fixed_dictionaries(dict(
        n=st.integers(1, 4), seed=st.integers(0, 20), off=st.sampled_from([-1, 1, 2]),
        split=st.booleans(), uneven=st.booleans())), lambda d: call(d, True), lambda d: call(d, False), 20)


def cells(tier):
    return (objective_cells() + scalar_cells() + fixed_point_cells() + mode_cells()
            + parameter_cells() + info_cells() + [simplex_cell()])
