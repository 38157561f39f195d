"""C28: nonlinear CG uses the textbook beta rules and descent directions."""

import equinox as eqx
import jax
import jax.numpy as jnp
import lineax as lx
import numpy as np
import optimistix as optx
from hypothesis import strategies as st

from . import problems as P
from .common import Lazy, npt
from .core import Cell, check, lib

FI = optx.FunctionInfo
METHODS = {
    "PR": optx.polak_ribiere,
    "FR": optx.fletcher_reeves,
    "HS": optx.hestenes_stiefel,
    "DY": optx.dai_yuan,
}


def ref_beta(name, g, gp, dp):
    """The textbook rule; 0 where its denominator vanishes."""
    num = {
        "PR": g @ (g - gp), "FR": g @ g, "HS": g @ (g - gp), "DY": g @ g,
    }[name]
    den = {
        "PR": gp @ gp, "FR": gp @ gp, "HS": dp @ (g - gp), "DY": dp @ (g - gp),
    }[name]
    if abs(den) < 1e-14:
        return 0.0
    b = num / den
    return max(b, 0.0) if name == "PR" else b


def vecs(n):
    return st.fixed_dictionaries(
        dict(
            g=P.vec(n, 12), gp=P.vec(n, 12), dp=P.vec(n, 12),
            kind=st.sampled_from(["any"] * 6 + ["first", "converged", "same", "tiny"]),
        )
    )


def triple(d):
    g, gp, dp = (np.array(d[k]) / 4.0 for k in ("g", "gp", "dp"))
    if d["kind"] == "first":
        gp, dp = 0 * gp, 0 * dp
    elif d["kind"] == "converged":
        g = 0 * g
    elif d["kind"] == "same":
        gp = g
    elif d["kind"] == "tiny":
        g, gp, dp = 1e-3 * g, 1e-3 * gp, 1e-3 * dp
    return g, gp, dp


def beta_cell(name, lay, examples=30):
    def build():
        @eqx.filter_jit
        def run(g, gp, dp):
            return METHODS[name](lay.unflat(g), lay.unflat(gp), lay.unflat(dp))

        return run

    fn = Lazy(build)

    def judge(d):
        g, gp, dp = triple(d)
        got = float(npt(lib(fn, g, gp, dp)))
        want = ref_beta(name, g, gp, dp)
        check(np.isfinite(got), f"{name}: beta is {got} for {d}")
        check(np.isclose(got, want, rtol=1e-9, atol=1e-12),
              lambda: f"{name}: beta {got}, textbook {want} (g={g}, previous {gp}, direction {dp})")
        return d["kind"] if np.any(g) else None

    return Cell(f"beta/{name}/{lay.name}", vecs(lay.n), judge, examples)


def make_info(kind, lay, g):
    struct = jax.eval_shape(lambda: lay.unflat(g))
    eye = lx.IdentityLinearOperator(struct)
    f = jnp.array(0.0)
    gt = lay.unflat(g)
    return {
        "EvalGrad": lambda: FI.EvalGrad(f, gt),
        "EvalGradHessian": lambda: FI.EvalGradHessian(f, gt, eye),
        "EvalGradHessianInv": lambda: FI.EvalGradHessianInv(f, gt, eye),
        # J = 2 I, r = g / 2
        "ResidualJac": lambda: FI.ResidualJac(
            lay.unflat(g / 2), lx.FunctionLinearOperator(
                lambda v: lay.unflat(2 * lay.flat(v)), struct)
        ),
    }[kind]()


def direction_cell(name, info, lay, examples=20):
    """Sequences of gradients, with several steps asked for between queries."""
    n = lay.n

    def build():
        @eqx.filter_jit
        def run(gs, sizes):
            desc = optx.NonlinearCGDescent(METHODS[name])
            y = lay.unflat(0 * gs[0])
            state = desc.init(y, eqx.filter_eval_shape(lambda: make_info(info, lay, gs[0])))
            out = []
            for g, s in zip(gs, sizes):
                state = desc.query(y, make_info(info, lay, g), state)
                # asking twice (as after a rejection) must not disturb the direction
                a, ra = desc.step(s, state)
                b, rb = desc.step(0.5 * s, state)
                ok = (ra == optx.RESULTS.successful) & (rb == optx.RESULTS.successful)
                out.append((lay.flat(a), lay.flat(b), ok))
            return out

        return run

    fn = Lazy(build)

    def judge(d):
        gs = [np.array(g) / 4.0 for g in d["gs"]]
        sizes = [np.float64(s / 8.0) for s in d["s"]]
        got = npt(lib(fn, gs, sizes))
        gp, dp = np.zeros(n), np.zeros(n)
        labels = set()
        for i, (g, s, (a, b, ok)) in enumerate(zip(gs, sizes, got)):
            den = abs(dp @ (g - gp))
            if name in ("HS", "DY") and den < 1e-9 and np.any(dp) and np.any(g - gp):
                return None  # zero or not is decided by rounding
            beta = ref_beta(name, g, gp, dp)
            dn = -g + beta * dp
            slope = g @ dn
            if abs(slope) < 1e-9 and np.any(np.abs(dn + g) > 1e-9):
                return None  # descent or not is decided by rounding
            if not slope < 0:
                dn = -g
                labels.add("restarted")
            elif beta != 0:
                labels.add("conjugate")
            check(ok, f"{name}: not successful")
            tol = dict(rtol=1e-8, atol=1e-10 * (1 + np.max(np.abs(dn))))
            check(np.allclose(a, s * dn, **tol),
                  lambda: f"{name}/{info}, query {i}, step size {s}: step {a}, expected {s * dn}")
            check(np.allclose(b, 0.5 * s * dn, **tol),
                  lambda: f"{name}/{info}, query {i}, half step: {b}, expected {0.5 * s * dn}")
            gp, dp = g, dn
        return "+".join(sorted(labels)) or None

    strat = st.fixed_dictionaries(
        dict(gs=st.lists(P.vec(n, 12), min_size=5, max_size=5), s=P.ints(5, 1, 16))
    )
    return Cell(f"direction/{name}/{info}/{lay.name}", strat, judge, examples)


# Pairs of gradients (of length scale 1) after which the rule's direction is exactly
# orthogonal to the new gradient, hence not one of descent. All dyadic: no rounding.
ORTHOGONAL = {
    "FR": [((1, 0), (-1, m)) for m in (0, 0.5, 1, -2)] + [((0, 2), (1, -2)), ((0, 2), (4, -2))],
    "PR": [((1, 0), (-0.5, 0.5)), ((0, 2), (-1, -1)), ((-4, 0), (2, 2)), ((0, -1), (0.5, 0.5))],
    "HS": [((1, 0), (-1, 0)), ((1, 0), (0.5, 0)), ((0, 2), (0, -6)), ((0, 2), (0, 6))],
}


def orthogonal_cell(name, info, lay, examples=15):
    n = lay.n

    def build():
        @eqx.filter_jit
        def run(g0, g1):
            desc = optx.NonlinearCGDescent(METHODS[name])
            y = lay.unflat(0 * g0)
            state = desc.init(y, eqx.filter_eval_shape(lambda: make_info(info, lay, g0)))
            for g in (g0, g1):
                state = desc.query(y, make_info(info, lay, g), state)
            return lay.flat(desc.step(jnp.array(1.0), state)[0])

        return run

    fn = Lazy(build)

    def judge(d):
        pair = ORTHOGONAL[name][d["i"] % len(ORTHOGONAL[name])]
        order = np.argsort(np.array(d["p"]), kind="stable")[:2]
        g0, g1 = np.zeros(n), np.zeros(n)
        for g, v in zip((g0, g1), pair):
            g[order] = np.array(v) * 2.0 ** d["k"] * (-1 if d["neg"] else 1)
        got = npt(lib(fn, g0, g1))
        check(np.array_equal(got, -g1), lambda: (
            f"{name}: gradients {g0}, then {g1}: the rule's direction is not one of descent, "
            f"so {-g1} is due, not {got}"))
        return "orthogonal"

    return Cell(f"orthogonal/{name}/{info}/{lay.name}", st.fixed_dictionaries(dict(
        i=st.integers(0, 5), k=st.integers(-6, 6), neg=st.booleans(), p=P.ints(n, 0, 5))),
        judge, examples)


def quadratic_cell(lay, examples=15):
    """Exact line search on an SPD quadratic: n steps, and all rules agree."""
    n = lay.n

    def build():
        @eqx.filter_jit
        def run(A, y0):
            out = {}
            for name, method in METHODS.items():
                desc = optx.NonlinearCGDescent(method)
                y = y0
                mk = lambda y: FI.EvalGrad(0.5 * y @ A @ y, lay.unflat(A @ y))
                state = desc.init(lay.unflat(y), eqx.filter_eval_shape(lambda: mk(y)))
                ys = [y]
                for _ in range(n):
                    g = A @ y
                    state = desc.query(lay.unflat(y), mk(y), state)
                    p = lay.flat(desc.step(jnp.array(1.0), state)[0])
                    den = p @ A @ p
                    alpha = jnp.where(den > 1e-24, -(g @ p) / jnp.where(den > 1e-24, den, 1), 0)
                    y = y + alpha * p
                    ys.append(y)
                out[name] = jnp.stack(ys)
            return out

        return run

    fn = Lazy(build)

    def judge(d):
        A = P.spd(n, d["A"])
        y0 = np.array(d["y"]) / 4.0
        got = npt(lib(fn, A, y0))
        # linear CG
        y, r = y0.copy(), -A @ y0
        p = r.copy()
        want = [y]
        for _ in range(n):
            if r @ r > 1e-20:
                a = (r @ r) / (p @ A @ p)
                y = y + a * p
                rn = r - a * A @ p
                p = rn + (rn @ rn) / (r @ r) * p
                r = rn
            want.append(y)
        for name, ys in got.items():
            for k in range(n + 1):
                check(
                    np.allclose(ys[k], want[k], rtol=1e-6, atol=1e-6 * (1 + np.max(np.abs(y0)))),
                    lambda: f"{name}: iterate {k} is {ys[k]}, linear CG has {want[k]}",
                )
            check(np.max(np.abs(ys[-1])) <= 1e-6 * (1 + np.max(np.abs(y0))),
                  lambda: f"{name}: after {n} exact steps still at {ys[-1]}")
        return "exact" if np.any(y0) else None

    strat = st.fixed_dictionaries(dict(A=P.spd_data(n), y=P.vec(n)))
    return Cell(f"quadratic/{lay.name}", strat, judge, examples)


def solver_cell(name, lay, examples=15):
    """The solver itself, with a learning rate: its iterates are the textbook ones."""
    n = lay.n
    steps = 5

    def build():
        @eqx.filter_jit
        def run(A, c, rate, y0):
            f = lambda y, a: 0.5 * (lay.flat(y) - c) @ A @ (lay.flat(y) - c) + jnp.sum(
                jnp.cos(lay.flat(y)))
            solver = optx.NonlinearCG(
                1e-12, 1e-12, method=METHODS[name], search=optx.LearningRate(rate))
            out = []
            for k in range(1, steps + 1):
                sol = optx.minimise(f, solver, lay.unflat(y0), max_steps=k, throw=False)
                out.append(lay.flat(sol.value))
            return out

        return run

    fn = Lazy(build)

    def judge(d):
        A = P.spd(n, d["A"]) + 1.5 * np.eye(n)
        c, y0 = np.array(d["c"]) / 4.0, np.array(d["y"]) / 4.0
        rate = d["rate"] / 40.0
        got = npt(lib(fn, A, c, rate, y0))
        grad = lambda y: A @ (y - c) - np.sin(y)
        y, gp, dp = y0, np.zeros(n), np.zeros(n)
        pts = [y0]
        for _ in range(steps):
            g = grad(y)
            if name in ("HS", "DY") and abs(dp @ (g - gp)) < 1e-6 and np.any(dp):
                return None
            b = ref_beta(name, g, gp, dp)
            dn = -g + b * dp
            if abs(g @ dn) < 1e-9 * (1 + g @ g) or np.max(np.abs(g)) < 1e-6:
                return None
            if not g @ dn < 0:
                dn = -g
            y = y + rate * dn
            gp, dp = g, dn
            pts.append(y)
            if np.max(np.abs(y)) > 1e3:
                return None
        # after k steps the solver stands at its (k-1)th move
        for k, v in enumerate(got):
            check(
                np.allclose(v, pts[k], rtol=1e-6, atol=1e-6),
                lambda: f"NonlinearCG({name}) with rate {rate}: after {k + 1} steps at {v}, "
                f"textbook iterates {pts}",
            )
        return "iterates"

    strat = st.fixed_dictionaries(
        dict(A=P.spd_data(n), c=P.vec(n), y=P.vec(n), rate=st.integers(2, 16))
    )
    return Cell(f"solver/{name}/{lay.name}", strat, judge, examples)


def cells(tier):
    L = P.LAYOUTS
    out = []
    for name in ORTHOGONAL:
        for info, lay in (("EvalGrad", "pair"), ("ResidualJac", "vec2")):
            out.append(orthogonal_cell(name, info, L[lay]))
    for name in METHODS:
        for lay in ("vec3", "dict", "scalar", "none"):
            out.append(beta_cell(name, L[lay]))
        for info, lay in (
            ("EvalGrad", "pair"), ("EvalGradHessian", "dict"), ("EvalGradHessianInv", "vec2"),
            ("ResidualJac", "pair"), ("EvalGrad", "mat22"), ("EvalGrad", "scalar"),
        ):
            out.append(direction_cell(name, info, L[lay]))
        out.append(solver_cell(name, L["pair"]))
    for lay in ("scalar", "vec2", "pair", "dict"):
        out.append(quadratic_cell(L[lay]))
    return out
