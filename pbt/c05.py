"""C05: failures are reported, budgets respected."""

import equinox as eqx
import jax
import jax.numpy as jnp
import lineax as lx
import numpy as np
import optax
import optimistix as optx
from hypothesis import strategies as st

from . import problems as P, solvers as V
from .common import Guard, Lazy, npt
from .core import Cell, Violation, check, lib, raises

ROOTS = {**V.ROOT, **V.ROOT_NC}
FPS = {
    "FPI": lambda r, a: optx.FixedPointIteration(r, a),
    "FPIdamp": lambda r, a: optx.FixedPointIteration(r, a, damp=0.3),
    "BestFPI": lambda r, a: optx.BestSoFarFixedPoint(optx.FixedPointIteration(r, a)),
}
MINS = {
    **V.QN, **V.CG,
    "GradientDescent": lambda r, a: optx.GradientDescent(0.1, r, a),
    "Optax": lambda r, a: optx.OptaxMinimiser(optax.adam(0.1), r, a),
    "NelderMead": lambda r, a: optx.NelderMead(r, a),
    "BestBFGS": lambda r, a: optx.BestSoFarMinimiser(optx.BFGS(r, a)),
    "BFGS+Dogleg+CTR": V.MIN_CUSTOM["BFGS+Dogleg+CTR"],
}
LSQS = {
    **V.LSQ,
    "BestLM": lambda r, a: optx.BestSoFarLeastSquares(optx.LevenbergMarquardt(r, a)),
    "GN+Newton+CTR": V.LSQ_CUSTOM["GN+Newton+CTR"],
}
ENTRY = dict(root=optx.root_find, fp=optx.fixed_point, lsq=optx.least_squares,
             min=optx.minimise)
LAY = P.Layout("tree", (P.S(), {"a": P.S(1)}))


def problem(kind):
    """Two-unknown problems on a tree of two scalars, parametrised by small integers."""
    def g(z, k):
        return jnp.stack([
            k[0] + k[1] * z[0] + k[2] * jnp.tanh(z[1]) + k[3] * jnp.sin(z[0]),
            k[4] + k[5] * z[1] + k[6] * jnp.tanh(z[0] * z[1]) + k[7] * z[0],
        ])

    if kind in ("root", "lsq"):
        return lambda y, k: LAY.unflat(g(LAY.flat(y), k))
    if kind == "fp":
        return lambda y, k: LAY.unflat(0.2 * g(LAY.flat(y), k))
    return lambda y, k: jnp.sum(g(LAY.flat(y), k) ** 2) + 0.1 * jnp.sum(LAY.flat(y) ** 2)


def all_solvers():
    for kind, group in (("root", ROOTS), ("fp", FPS), ("lsq", LSQS), ("min", MINS)):
        for name, make in group.items():
            yield kind, name, make
    for name in ("Newton", "LevenbergMarquardt", "BFGS"):
        yield "fp", name, {**ROOTS, **LSQS, **MINS}[name]
    for name in ("GaussNewton", "Dogleg", "BFGS", "NelderMead"):
        yield "root", name, {**LSQS, **MINS}[name]
    for name in ("LBFGS", "Optax"):
        yield "lsq", name, MINS[name]


KY = st.fixed_dictionaries(
    dict(k=P.ints(8, -6, 6), y=P.ints(2, -8, 8), i=st.integers(0, 8))
)


def budget_cell(kind, name, make, examples=12):
    """Budget N suffices exactly when it is at least the number of steps the unlimited
    run takes; shorter budgets report the maximum-steps failure after exactly that many
    steps. Also: success is never paired with a non-finite value."""
    budgets = (0, 1, 2, 4, 8, 20, 60)
    fn = problem(kind)

    def build():
        count = {"n": 0}
        guard = Guard(5000)
        inner = guard.wrap(fn)

        def bump():
            count["n"] += 1

        def counted(y, k):
            jax.debug.callback(bump)
            return inner(y, k)

        def make_run(m):
            @eqx.filter_jit
            def run(y0, k):
                sol = ENTRY[kind](
                    counted, make(1e-5, 1e-5), LAY.unflat(y0), k, max_steps=m,
                    throw=False,
                )
                return V.summary(sol)

            return run

        runs = [make_run(m) for m in budgets]
        base = make_run(300)

        def go(i, y0, k):
            count["n"] = guard.n = 0
            full = npt(base(y0, k))
            jax.effects_barrier()
            full["evals"] = count["n"]
            count["n"] = guard.n = 0
            part = npt(runs[i % len(runs)](y0, k))
            jax.effects_barrier()
            part["evals"] = count["n"]
            return full, part

        return go

    holder = {}

    def judge(d):
        if "go" not in holder:
            holder["go"] = build()
        k, y0, i = np.array(d["k"]) / 4.0, np.array(d["y"]) / 4.0, d["i"]
        m = budgets[i % len(budgets)]
        full, part = lib(holder["go"], i, y0, k)
        for s, lim in ((full, 300), (part, m)):
            check(s["steps"] <= lim, lambda: f"{s['steps']} steps with max_steps={lim}")
            fin = all(np.all(np.isfinite(l)) for l in jax.tree_util.tree_leaves(s["value"]))
            check(fin or s["code"] != 0, lambda: f"success with value {s['value']}")
            # Nelder-Mead may re-evaluate its whole simplex (here three vertices).
            per = 5 if "NelderMead" in name else 1
            check(
                s["evals"] <= per * s["steps"] + 2,
                lambda: f"{s['evals']} evaluations in {s['steps']} steps",
            )
            check(s["evals"] >= min(s["steps"], 1), "no evaluation at all")
        if full["code"] == 1:
            check(full["steps"] == 300, lambda: f"max steps after {full['steps']} steps")
        if m < full["steps"]:
            check(
                part["code"] == 1 and part["steps"] == m,
                lambda: f"budget {m} of {full['steps']}: code {part['code']}, "
                f"{part['steps']} steps",
            )
        else:
            check(
                part["code"] == full["code"] and part["steps"] == full["steps"],
                lambda: f"budget {m} vs 300: {part} vs {full}",
            )
        side = "short" if m < full["steps"] else "enough"
        return f"{side}, code {part['code']}"

    return Cell(f"budget/{kind}/{name}", KY, judge, examples)


def throw_cell(kind, name, make, examples=8):
    fn = problem(kind)

    def build():
        def run(y0, k, throw):
            return V.summary(
                ENTRY[kind](
                    fn, make(1e-5, 1e-5), LAY.unflat(y0), k, max_steps=6, throw=throw
                )
            )

        return eqx.filter_jit(lambda y0, k: run(y0, k, False)), eqx.filter_jit(
            lambda y0, k: run(y0, k, True)
        )

    holder = {}

    def judge(d):
        if not holder:
            holder["r"] = build()
        quiet, loud = holder["r"]
        k, y0 = np.array(d["k"]) / 4.0, np.array(d["y"]) / 4.0
        if d["i"] == 0:
            y0 = y0 * np.nan
        s = npt(lib(quiet, y0, k))
        box = {}

        def call():
            box["s"] = npt(jax.block_until_ready(loud(y0, k)))

        err = raises(call)
        if s["code"] == 0:
            check(err is None, lambda: f"successful, yet throw=True raised {err!r}")
            same = jax.tree_util.tree_map(np.array_equal, box["s"]["value"], s["value"])
            check(all(jax.tree_util.tree_leaves(same)), "throw changed the value")
        else:
            check(err is not None, lambda: f"code {s['code']}, yet throw=True returned")
        return f"code {s['code']}"

    return Cell(f"throw/{kind}/{name}", KY, judge, examples)


def nonfinite_cell(kind, name, make, examples=10):
    """Non-finite starts, and functions that are NaN everywhere or beyond a radius."""
    base = problem(kind)

    def build():
        def fn(y, p):
            k, mode, R = p
            z = LAY.flat(y)
            bad = jnp.where(mode == 0, False, jnp.where(mode == 1, True, jnp.max(jnp.abs(z)) > R))
            fill = jnp.where(mode == 3, jnp.inf, jnp.nan)
            return jax.tree_util.tree_map(lambda o: jnp.where(bad, fill, o), base(y, k))

        @eqx.filter_jit
        def run(y0, p):
            sol = ENTRY[kind](
                fn, make(1e-5, 1e-5), LAY.unflat(y0), p, max_steps=60, throw=False
            )
            return V.summary(sol), fn(sol.value, p)

        return run

    run = Lazy(build)

    def judge(d):
        k, y0 = np.array(d["k"]) / 4.0, np.array(d["y"]) / 4.0
        start = d["start"]
        if start == 1:
            y0[d["i"] % 2] = np.nan
        elif start == 2:
            y0[d["i"] % 2] = np.inf if d["i"] < 4 else -np.inf
        s, f = npt(lib(run, y0, (k, np.array(d["mode"]), np.array(d["R"] / 2.0))))
        fin = all(np.all(np.isfinite(l)) for l in jax.tree_util.tree_leaves(s["value"]))
        check(fin or s["code"] != 0, lambda: f"success with value {s['value']}")
        if start:
            check(
                s["code"] == 3,
                lambda: f"non-finite start reported as code {s['code']}",
            )
            return f"start {'nan' if start == 1 else 'inf'}"
        if d["mode"] == 1:
            check(s["code"] != 0, "success although the function is NaN everywhere")
            return "nan everywhere"
        if d["mode"] == 0:
            return None
        if kind != "min" and s["code"] == 0 and name not in ("NewtonNC", "ChordNC", "NelderMead"):
            ok = all(np.all(np.isfinite(l)) for l in jax.tree_util.tree_leaves(f))
            check(ok, lambda: f"success at {s['value']} where the function is not finite")
        return f"wall, code {s['code']}"

    strat = st.fixed_dictionaries(
        dict(
            k=P.ints(8, -6, 6), y=P.ints(2, -8, 8), i=st.integers(0, 8),
            start=st.sampled_from([0, 0, 0, 1, 2]),
            mode=st.sampled_from([2, 1, 3, 0]), R=st.integers(1, 6),
        )
    )
    return Cell(f"nonfinite/{kind}/{name}", strat, judge, examples)


def noroot_cell(name, make, shape, examples=15, kind="root"):
    def fn(y, p):
        z = LAY.flat(y)
        u = z - p["c"]
        if kind == "fp":
            # a translation in a nonlinear coordinate: no fixed point
            return LAY.unflat(z + p["g"] * (1 + p["s"] * jnp.tanh(u) ** 2))
        if shape == "square":
            r = p["g"] + p["s"] * u**2
        elif shape == "exp":
            r = p["g"] + p["s"] * jnp.exp(u)
        elif shape == "flat":
            r = p["g"] + 0 * u
        else:  # inconsistent pair of equations, singular Jacobian
            t = u[0] + p["s"] * u[1]
            r = jnp.stack([t + p["g"], t - p["g"]])
        return LAY.unflat(r)

    def build():
        @eqx.filter_jit
        def run(y0, p):
            sol = ENTRY[kind](
                fn, make(1e-4, 1e-4), LAY.unflat(y0), p, max_steps=100, throw=False
            )
            return V.summary(sol)

        return run

    run = Lazy(build)

    def judge(d):
        p = dict(c=np.array(d["c"]) / 4.0, g=0.1 * d["g"], s=0.25 * d["s"])
        s = npt(lib(run, np.array(d["y"]) / 4.0, jax.tree_util.tree_map(np.asarray, p)))
        check(s["code"] != 0, lambda: f"success at {s['value']} without any root")
        return f"code {s['code']}"

    strat = st.fixed_dictionaries(
        dict(c=P.ints(2, -8, 8), y=P.ints(2, -12, 12), g=st.integers(1, 20),
             s=st.integers(1, 8))
    )
    return Cell(f"noroot/{kind}/{name}/{shape}", strat, judge, examples)


def bracket_budget_cell(name, examples=30):
    """The scalar solvers: budget k is the k-step prefix; num_steps counts halvings."""

    def build():
        @eqx.filter_jit
        def run(lo, hi, y0, c, tol):
            outs = []
            for m in (3, 10, 40, 256):
                if name == "Bisection":
                    sol = optx.root_find(
                        lambda y, a: jnp.tanh(y - a), optx.Bisection(tol, tol), y0, c,
                        options=dict(lower=lo, upper=hi), max_steps=m, throw=False,
                    )
                else:
                    sol = optx.minimise(
                        lambda y, a: (y - a) ** 2, optx.GoldenSearch(tol, tol), y0, c,
                        options=dict(lower=lo, upper=hi), max_steps=m, throw=False,
                    )
                outs.append(V.summary(sol))
            return outs

        return run

    run = Lazy(build)

    def judge(d):
        c = d["c"] / 4.0
        lo, hi = c - d["l"] / 4.0, c + d["u"] / 4.0
        y0 = lo + (hi - lo) * d["t"] / 10
        if d["bad"]:
            y0 = np.nan
        outs = npt(lib(run, lo, hi, y0, c, 10.0 ** -d["tol"]))
        full = outs[-1]
        if d["bad"]:
            check(all(o["code"] == 3 for o in outs), lambda: f"NaN start: {outs}")
            return "nan start"
        check(full["code"] == 0, lambda: f"{full}")
        for m, o in zip((3, 10, 40), outs):
            if m < full["steps"]:
                check(o["code"] == 1 and o["steps"] == m, lambda: f"budget {m}: {o}, {full}")
            else:
                check(
                    o["code"] == 0 and o["steps"] == full["steps"],
                    lambda: f"budget {m}: {o}, {full}",
                )
        return "ok"

    strat = st.fixed_dictionaries(
        dict(c=st.integers(-20, 20), l=st.integers(1, 40), u=st.integers(1, 40),
             t=st.integers(0, 10), tol=st.integers(2, 9), bad=st.sampled_from([False] * 5 + [True]))
    )
    return Cell(f"bracket/{name}", strat, judge, examples)


class Flaky(lx.AbstractLinearSolver):
    """Gives the answer of another solver, but reports failure on small right-hand sides."""

    solver: lx.AbstractLinearSolver
    threshold: jax.Array

    def init(self, operator, options):
        return self.solver.init(operator, options)

    def compute(self, state, vector, options):
        x, result, stats = self.solver.compute(state, vector, options)
        bad = optx.two_norm(vector) < self.threshold
        result = lx.RESULTS.where(bad, lx.RESULTS.breakdown, result)
        return x, result, stats

    def transpose(self, state, options):
        return self.solver.transpose(state, options)

    def conj(self, state, options):
        return self.solver.conj(state, options)

    def assume_full_rank(self):
        return self.solver.assume_full_rank()


LINEAR = {
    "Newton": lambda r, a, s: optx.Newton(r, a, linear_solver=s(lx.LU())),
    "Chord": lambda r, a, s: optx.Chord(r, a, linear_solver=s(lx.LU())),
    "NewtonNC": lambda r, a, s: optx.Newton(
        r, a, linear_solver=s(lx.LU()), cauchy_termination=False),
    "ChordNC": lambda r, a, s: optx.Chord(
        r, a, linear_solver=s(lx.LU()), cauchy_termination=False),
    "BestNewton": lambda r, a, s: optx.BestSoFarRootFinder(
        optx.Newton(r, a, linear_solver=s(lx.LU()))),
    "GaussNewton": lambda r, a, s: optx.GaussNewton(r, a, linear_solver=s(lx.QR())),
    "LevenbergMarquardt": lambda r, a, s: optx.LevenbergMarquardt(
        r, a, linear_solver=s(lx.QR())),
    "Dogleg": lambda r, a, s: optx.Dogleg(r, a, linear_solver=s(lx.QR())),
}


def linear_cell(kind, name, examples=12):
    """A linear solve that reports failure, at whichever step, is never passed over."""
    make = LINEAR[name]
    exact = name not in ("LevenbergMarquardt", "Dogleg")

    def fn(y, p):
        u = LAY.flat(y) - p["c"]
        return LAY.unflat(p["A"] @ u + 0.2 * jnp.tanh(u[::-1]))

    def build():
        seen = []

        def noted(y, p):
            r = fn(y, p)
            jax.debug.callback(lambda v: seen.append(float(np.linalg.norm(v))), LAY.flat(r))
            return r

        def run(f, wrap, y0, p, r, a):
            sol = ENTRY[kind](
                f, make(r, a, wrap), LAY.unflat(y0), p, max_steps=60, throw=False)
            return V.summary(sol)

        sound = eqx.filter_jit(lambda *args: run(noted, lambda s: s, *args))
        flaky = eqx.filter_jit(lambda t, *args: run(fn, lambda s: Flaky(s, t), *args))

        def go(t, *args):
            seen.clear()
            a = npt(sound(*args))
            jax.effects_barrier()
            return a, list(seen), npt(flaky(t, *args))

        return go

    go = Lazy(build)

    def judge(d):
        p = dict(A=P.matrix(2, d["A"]), c=np.array(d["c"]) / 4.0)
        y0 = np.array(d["y"]) / 4.0
        t, tol = 10.0 ** (d["t"] / 4.0), 10.0 ** -d["tol"]
        a, sizes, b = lib(go, t, y0, p, tol, tol)
        sizes = sizes[name.startswith("Chord"):]  # it first linearises at the start
        hits = [j for j, v in enumerate(sizes) if v < t]
        if any(abs(v / t - 1) < 1e-6 for v in sizes) or a["code"] != 0:
            return None
        if kind == "root" and exact and "Gauss" not in name:
            want = (4, hits[0] + 1) if hits else (0, int(a["steps"]))
        elif hits and (hits[0] < len(sizes) - 2 or hits[0] == 0):
            want = (4, hits[0] + 1 if exact else None)
        elif not hits:
            want = (0, int(a["steps"]))
        else:
            return None
        got = (int(b["code"]), int(b["steps"]) if want[1] is not None else None)
        check(got == want, lambda: (
            f"{name}: residuals {sizes}; linear solves below {t} report failure: "
            f"(code, steps) = {got}, expected {want}"))
        return ("first solve" if hits[0] == 0 else "last solve" if hits[0] == len(sizes) - 1
                else "later solve") if hits else None

    return Cell(f"linear/{kind}/{name}", st.fixed_dictionaries(dict(
        A=P.matrix_data(2), c=P.vec(2, 8), y=P.vec(2, 16), t=st.integers(-32, 6),
        tol=st.integers(1, 8))), judge, examples)


EXACT = (
    ("root", "Newton"), ("root", "NewtonNC"), ("root", "ChordNC"), ("root", "GaussNewton"),
    ("fp", "FPI"), ("fp", "BFGS"), ("lsq", "GaussNewton"), ("lsq", "LevenbergMarquardt"),
    ("min", "BFGS"), ("min", "Optax"), ("min", "GradientDescent"),
)


def exact_cell(kind, name, make, examples=10):
    """A run that ends by itself after K steps, well or badly, ends the same way with a
    budget of exactly K, and runs out of steps with K - 1."""
    base = problem(kind)

    def fn(y, p):
        k, R = p
        bad = jnp.max(jnp.abs(LAY.flat(y))) > R
        return jax.tree_util.tree_map(lambda o: jnp.where(bad, jnp.nan, o), base(y, k))

    def build(m):
        @eqx.filter_jit
        def run(y0, p):
            return V.summary(ENTRY[kind](
                fn, make(1e-2, 1e-2), LAY.unflat(y0), p, max_steps=m, throw=False))

        return run

    runs = {m: Lazy(lambda m=m: build(m)) for m in (*range(10), 60)}

    def judge(d):
        y0 = np.array(d["y"]) / 4.0
        p = np.array(d["k"]) / 4.0, np.abs(y0).max() + d["R"] / 4.0
        full = npt(lib(runs[60], y0, p))
        K = int(full["steps"])
        if K >= 10 or K == 0:
            return None
        whole = npt(lib(runs[K], y0, p))
        check(
            whole["code"] == full["code"] and whole["steps"] == K,
            lambda: f"ends after {K} steps with code {full['code']}; with max_steps={K}: "
            f"code {whole['code']} after {whole['steps']} steps",
        )
        short = npt(lib(runs[K - 1], y0, p))
        check(
            short["code"] == 1 and short["steps"] == K - 1,
            lambda: f"ends after {K} steps; with max_steps={K - 1}: code {short['code']} "
            f"after {short['steps']} steps",
        )
        return f"code {full['code']} after {K if K < 4 else '4-9'}"

    strat = st.fixed_dictionaries(
        dict(k=P.ints(8, -6, 6), y=P.ints(2, -8, 8), R=st.integers(0, 8)))
    return Cell(f"exact/{kind}/{name}", strat, judge, examples)


def default_budget_cell(kind, examples=6):
    """Without max_steps, an endless iteration is stopped after 256 steps."""

    def build():
        tiny = optx.OptaxMinimiser(optax.sgd(1e-4), 1e-13, 1e-13)
        fn, solver = dict(
            root=(lambda y, a: y**2 + a, optx.Newton(1e-13, 1e-13)),
            fp=(lambda y, a: a - y, optx.FixedPointIteration(1e-13, 1e-13)),
            lsq=(lambda y, a: y - a, tiny),
            min=(lambda y, a: (y - a) ** 2, tiny),
        )[kind]

        @eqx.filter_jit
        def run(y0, a):
            sol = ENTRY[kind](fn, solver, y0, a, throw=False)
            return V.summary(sol), sol.stats["max_steps"]

        return run

    run = Lazy(build)

    def judge(d):
        a = d["a"] / 4.0
        s, limit = npt(lib(run, np.float64(a + 1 / 3 + d["y"] / 4.0), np.float64(a)))
        if kind == "root" and s["code"] == 3:
            return None
        check(s["code"] == 1 and s["steps"] == 256 and limit == 256,
              lambda: f"{kind}: {s} with a limit of {limit} steps by default")
        return "default budget"

    strat = st.fixed_dictionaries(dict(a=st.integers(1, 20), y=st.integers(0, 20)))
    return Cell(f"default/{kind}", strat, judge, examples)


def unlimited_cell(kind, examples=4):
    """With max_steps=None a solve takes however many steps it needs."""

    def build():
        @jax.custom_jvp
        def step(u):
            return jnp.clip(u, -1.0, 1.0)

        # sent one unit closer by every Newton step
        step.defjvp(lambda p, t: (step(p[0]), t[0]))

        def huber(y, c):
            u = jnp.abs(y - c)
            return jnp.where(u < 1, 0.5 * u**2, u - 0.5)

        fn, solver = dict(
            root=(lambda y, c: step(y - c), optx.Newton(1e-9, 1e-9)),
            fp=(lambda y, c: y - step(y - c), optx.FixedPointIteration(1e-9, 1e-9)),
            lsq=(lambda y, c: step(y - c), optx.GaussNewton(1e-9, 1e-9)),
            min=(huber, optx.GradientDescent(1.0, 1e-9, 1e-9)),
        )[kind]

        @eqx.filter_jit
        def run(y0, c):
            sol = ENTRY[kind](fn, solver, y0, c, max_steps=None, throw=False)
            return V.summary(sol)

        return run

    run = Lazy(build)

    def judge(d):
        c = np.float64(d["c"])
        out = npt(lib(run, c + d["far"] * d["sign"] + 0.25, c))
        check(out["code"] == 0 and abs(out["value"] - c) < 1e-6 and (
            abs(int(out["steps"]) - d["far"]) <= 4),
              lambda: f"{kind}: {d['far']} unit steps away from {c}: {out}")
        return "unlimited"

    return Cell(f"unlimited/{kind}", st.fixed_dictionaries(dict(
        c=st.integers(-50, 50), far=st.integers(300, 40000), sign=st.sampled_from([1, -1]))),
        judge, examples)


def cells(tier):
    out = []
    for kind, name, make in all_solvers():
        out.append(budget_cell(kind, name, make))
        out.append(nonfinite_cell(kind, name, make))
    some = ("Newton", "Chord", "FPI", "BestFPI", "LevenbergMarquardt", "Dogleg", "BestLM",
            "BFGS", "LBFGS", "NelderMead", "Optax", "CG-polak_ribiere")
    for kind, name, make in all_solvers():
        if name in some:
            out.append(throw_cell(kind, name, make))
    for group in (V.ROOT, V.LSQ, V.LSQ_CUSTOM):
        for name, make in group.items():
            for shape in ("square", "exp", "flat", "inconsistent"):
                if shape == "exp" and group is not V.ROOT:
                    continue
                out.append(noroot_cell(name, make, shape))
    for name in ("BFGS", "LBFGS", "NelderMead", "CG-polak_ribiere"):
        for shape in ("square", "inconsistent"):
            out.append(noroot_cell(name, MINS[name], shape))
    for name, make in FPS.items():
        out.append(noroot_cell(name, make, "shift", kind="fp"))
    for name in ("Newton", "LevenbergMarquardt", "BFGS"):
        out.append(
            noroot_cell(name, {**ROOTS, **LSQS, **MINS}[name], "shift", kind="fp")
        )
    for kind, name, make in all_solvers():
        if (kind, name) in EXACT:
            out.append(exact_cell(kind, name, make))
    for name in ("Bisection", "GoldenSearch"):
        out.append(bracket_budget_cell(name))
    for name in LINEAR:
        if name not in ("GaussNewton", "LevenbergMarquardt", "Dogleg"):
            out.append(linear_cell("root", name))
        else:
            out.append(linear_cell("lsq", name))
    out.append(linear_cell("root", "GaussNewton"))
    for kind in ENTRY:
        out.append(unlimited_cell(kind))
        out.append(default_budget_cell(kind))
    return out
