"""C24: tolerances and norms mean what they say."""

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optax
import optimistix as optx
from hypothesis import strategies as st

from . import catalog as C, problems as P, solvers as V
from .common import Lazy, npt, offset, steps_bucket
from .core import Cell, check, lib
from .rough import Rough
from .stepper import Stepper

NORMS = {
    "max": (optx.max_norm, lambda v: np.max(np.abs(v)) if v.size else 0.0),
    "rms": (optx.rms_norm, lambda v: np.sqrt(np.mean(v**2)) if v.size else 0.0),
    "two": (optx.two_norm, lambda v: np.sqrt(np.sum(v**2))),
}
L1 = lambda t: sum(jnp.sum(jnp.abs(l)) for l in jax.tree_util.tree_leaves(t))
ALLNORMS = {**NORMS, "l1": (L1, lambda v: np.sum(np.abs(v)))}

FACTOR = 2

TREES = {
    "scalar": P.Layout("t", P.S()),
    "vec5": P.Layout("t", P.S(5)),
    "nested": P.Layout("t", {"a": (P.S(2), P.S()), "b": [P.S(1, 2), None]}),
    "emptyleaf": P.Layout("t", (P.S(0), P.S(2), {})),
    "f32": P.Layout("t", (P.S(2), P.S()), dtype=jnp.float32),
}


def norm_cell(nname, tname, examples=25):
    norm, ref = NORMS[nname]
    lay = TREES[tname]
    eps = 1e-5 if tname == "f32" else 1e-11

    def build():
        @eqx.filter_jit
        def run(u, v, k):
            one = lambda z: norm(lay.unflat(z))
            nu, g = jax.value_and_grad(one)(u)
            g0 = jax.grad(one)(0 * u)
            return nu, one(v), one(u + v), one(k * u), g, g0, one(0 * u)

        return run

    fn = Lazy(build)

    def judge(d):
        sc = 10.0 ** d["scale"]
        u, v = sc * np.array(d["u"]) / 4.0, sc * np.array(d["v"]) / 4.0
        k = d["k"] / 4.0
        nu, nv, nuv, nk, g, g0, n0 = npt(lib(fn, u, v, np.float64(k)))
        check(np.isclose(nu, ref(u), rtol=eps, atol=0),
              lambda: f"{nname} norm of {u} is {nu}, not {ref(u)}")
        check(nuv <= (nu + nv) * (1 + 10 * eps), lambda: f"{nname}: triangle inequality fails on {u}, {v}")
        check(np.isclose(nk, abs(k) * nu, rtol=10 * eps, atol=0),
              lambda: f"{nname}: scaling by {k} gives {nk}, not {abs(k) * nu}")
        check((nu > 0) == bool(np.any(u)), lambda: f"{nname}: norm {nu} of {u}")
        check(n0 == 0 and np.all(np.isfinite(g0)), lambda: f"{nname}: gradient at zero {g0}")
        check(np.all(np.isfinite(g)), lambda: f"{nname}: gradient {g} at {u}")
        top = np.abs(u) == np.max(np.abs(u)) if u.size else np.zeros(0)
        if np.any(u) and (nname != "max" or np.sum(top) == 1):
            want = {
                "two": u / ref(u), "rms": u / (u.size * ref(u)),
                "max": np.where(top, np.sign(u), 0.0),
            }[nname]
            check(np.allclose(g, want, rtol=1e3 * eps, atol=1e3 * eps),
                  lambda: f"{nname}: gradient {g} at {u}, not {want}")
        return "nonzero" if np.any(u) else "zero"

    n = lay.n
    strat = st.fixed_dictionaries(
        dict(u=P.vec(n), v=P.vec(n), k=st.integers(-9, 9), scale=st.integers(-6, 6))
    )
    return Cell(f"norm/{nname}/{tname}", strat, judge, examples)


def empty_cell():
    def judge(d):
        tree = [(), None, {"a": ()}, jnp.zeros((0,)), (jnp.zeros((0, 3)), None)][d["i"]]
        for nname, (norm, _) in NORMS.items():
            got = float(lib(norm, tree))
            check(got == 0, lambda: f"{nname} norm of {tree} is {got}")
        return f"empty {d['i']}"

    return Cell("norm/empty", st.fixed_dictionaries(dict(i=st.integers(0, 4))), judge, 10)


# ------------------------------------------------------------- when a solver stops


def scaled(x, ref, rtol, atol, norm):
    return norm(np.abs(x) / (atol + rtol * np.abs(ref)))


def verdicts(pairs):
    """True/False, or None when too close to call."""
    worst = max(pairs)
    if not np.isfinite(worst):
        return False
    return None if abs(worst - 1) < 1e-6 else worst < 1


TOLS = (3.0, 0.7, 0.2, 1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8)


def tol_strategy(base):
    k = st.integers(0, len(TOLS) - 1)
    return st.fixed_dictionaries(dict(base=base, r=k, a=k))


SEARCHING = {
    "GaussNewton": lambda r, a, n: optx.GaussNewton(r, a, norm=n),
    "LevenbergMarquardt": lambda r, a, n: optx.LevenbergMarquardt(r, a, norm=n),
    "IndirectLM": lambda r, a, n: optx.IndirectLevenbergMarquardt(r, a, norm=n),
    "Dogleg": lambda r, a, n: optx.Dogleg(r, a, norm=n),
    "GN+Newton+Armijo": lambda r, a, n: V.gn(
        optx.NewtonDescent(), optx.BacktrackingArmijo(), norm=n)(r, a),
    "BFGS": lambda r, a, n: optx.BFGS(r, a, norm=n),
    "BFGSdirect": lambda r, a, n: optx.BFGS(r, a, norm=n, use_inverse=False),
    "DFP": lambda r, a, n: optx.DFP(r, a, norm=n),
    "LBFGS": lambda r, a, n: optx.LBFGS(r, a, norm=n),
    "CG": lambda r, a, n: optx.NonlinearCG(r, a, norm=n),
    "GradientDescent": lambda r, a, n: optx.GradientDescent(0.15, r, a, norm=n),
    "GD+Steepest+LTR": lambda r, a, n: V.gd(
        optx.SteepestDescent(), optx.LinearTrustRegion(high_cutoff=0.4), norm=n)(r, a),
}
LSQ_NAMES = ("GaussNewton", "LevenbergMarquardt", "IndirectLM", "Dogleg", "GN+Newton+Armijo")
STEPS = 50


def search_stop_cell(name, nname, lay, rough=None, examples=8):
    """Solvers that propose, accept and reject: stop at the first accepted move whose
    change of y and of the function value are both within tolerance."""
    kind = "lsq" if name in LSQ_NAMES else "min"
    fam = Rough(kind, lay, *rough) if rough else C.Family(kind, lay)
    jnorm, norm = ALLNORMS[nname]
    seen = []
    holder = {}

    def build():
        def fn(y, p):
            jax.debug.callback(lambda z: seen.append(np.asarray(z)), lay.flat(y))
            return fam.fn(y, p), None

        stepper = Stepper(lambda c: SEARCHING[name](*c, jnorm), fn)
        value = jax.jit(lambda z, p: jnp.atleast_1d(fam.raw(z, p)))
        return stepper, value

    def judge(d):
        if not holder:
            holder["x"] = build()
        stepper, value = holder["x"]
        p = fam.params(d["base"])
        z = offset(fam.start(d["base"], p, name), 1e-4)
        if rough and not np.linalg.norm(value(z, p)) < 1e6:
            return None
        y = lay.np_unflat(z)
        rtol, atol = TOLS[d["r"]], TOLS[d["a"]]
        cfg = (np.float64(rtol), np.float64(atol))
        y, dyn, done, code = lib(stepper.start, y, p, cfg)
        check(not done and code == 0, f"{name}: finished before the first step")
        f_prev, stalls = None, 0
        for i in range(STEPS):
            seen.clear()
            new, dyn, _, (done, code), _ = lib(stepper.step, y, dyn, p, cfg)
            jax.effects_barrier()
            z, znew = lay.np_flat(y), lay.np_flat(new)
            check(code == 0, f"{name}: code {code}")
            tried = seen[-1]
            accepted = np.array_equal(tried, znew)
            f_new = np.asarray(value(tried, p))
            where = f"{name} ({nname} norm), rtol {rtol}, atol {atol}, step {i}"
            if i == 0:
                # nothing to compare with yet; a least-squares solver may stop at a
                # vanishing residual
                ok = scaled(f_new, f_new, rtol, atol, norm) > 1 + 1e-6 or kind == "min"
                check(not (done and ok), lambda: f"{where}: stopped at the start, residual {f_new}")
                if done:
                    return None
                f_prev = f_new
            elif accepted:
                a = scaled(tried - z, tried, rtol, atol, norm)
                b = scaled(f_new - f_prev, f_new, rtol, atol, norm)
                v = verdicts((a, b))
                if v is None:
                    return None
                check(
                    done == v,
                    lambda: f"{where}: scaled changes {a} (y), {b} (f): "
                    f"{'stopped' if done else 'went on'}",
                )
                f_prev = f_new
            else:
                stalls += 1
                check(not done, lambda: f"{where}: stopped on a rejected step to {tried} from {z}")
            y = new
            if done:
                return "stopped " + steps_bucket(i) + (", with rejections" if stalls else "")
        return "budget"

    label = f"/{fam.name}" if rough else ""
    return Cell(f"stop/{name}/{nname}/{lay.name}{label}", tol_strategy(fam.strategy), judge, examples)


def newton_stop_cell(name, nname, lay, examples=10):
    cls = dict(Newton=optx.Newton, Chord=optx.Chord)[name]
    fam = C.Family("root", lay)
    jnorm, norm = ALLNORMS[nname]

    def build():
        @eqx.filter_jit
        def run(y0, p, r, a):
            sol = optx.root_find(
                fam.fn, cls(r, a, norm=jnorm), lay.unflat(y0), p, max_steps=80, throw=False)
            return V.summary(sol)

        raw = jax.jit(lambda z, p: (fam.raw(z, p), jax.jacfwd(fam.raw)(z, p)))
        return run, raw

    holder = {}

    def judge(d):
        if not holder:
            holder["x"] = build()
        run, raw = holder["x"]
        p = fam.params(d["base"])
        z = offset(fam.start(d["base"], p, name), 1e-4)
        rtol, atol = TOLS[d["r"]], TOLS[d["a"]]
        out = npt(lib(run, z, p, np.float64(rtol), np.float64(atol)))
        jac = None
        for i in range(80):
            f, J = npt(raw(z, p))
            jac = J if jac is None or name == "Newton" else jac
            dz = -np.linalg.solve(jac, f)
            a = scaled(dz, z, rtol, atol, norm)
            b = scaled(f, 0 * f, rtol, atol, norm)
            v = verdicts((a, b))
            if v is None:
                return None
            z = z + dz
            if v:
                break
        else:
            return None
        check(
            out["code"] == 0 and out["steps"] == i + 1,
            lambda: f"{name} ({nname} norm), rtol {rtol}, atol {atol}: stopped after "
            f"{out['steps']} steps (code {out['code']}), the criterion first holds after {i + 1}",
        )
        return steps_bucket(i + 1)

    return Cell(f"stop/{name}/{nname}/{lay.name}", tol_strategy(fam.strategy), judge, examples)


def fp_stop_cell(nname, damp, lay, examples=10):
    fam = C.Family("fp", lay)
    jnorm, norm = ALLNORMS[nname]

    def build():
        @eqx.filter_jit
        def run(y0, p, r, a):
            solver = optx.FixedPointIteration(r, a, norm=jnorm, damp=damp)
            sol = optx.fixed_point(
                fam.fn, solver, lay.unflat(y0), p, max_steps=400, throw=False)
            return V.summary(sol)

        return run, jax.jit(fam.raw)

    holder = {}

    def judge(d):
        if not holder:
            holder["x"] = build()
        run, raw = holder["x"]
        p = fam.params(d["base"])
        z = offset(fam.start(d["base"], p), 1e-4)
        rtol, atol = TOLS[d["r"]], TOLS[d["a"]]
        out = npt(lib(run, z, p, np.float64(rtol), np.float64(atol)))
        for i in range(400):
            new = np.asarray(raw(z, p))
            moved = damp * z + (1 - damp) * new
            v = verdicts((scaled(moved - z, moved, rtol, atol, norm),))
            z = moved
            if v is None:
                return None
            if v:
                break
        else:
            return None
        check(
            out["code"] == 0 and out["steps"] == i + 1,
            lambda: f"fixed point ({nname} norm, damp {damp}), rtol {rtol}, atol {atol}: "
            f"{out['steps']} steps (code {out['code']}), criterion first holds after {i + 1}",
        )
        return steps_bucket(i + 1)

    return Cell(f"stop/FPI{damp}/{nname}/{lay.name}", tol_strategy(fam.strategy), judge, examples)


def wild(z, p):
    """A system whose Newton and chord iterations converge, crawl or diverge."""
    e = z - p["c"]
    return p["A"] @ e + p["k"] * jnp.sin(2 * e[::-1]) + 0.2 * p["k"] * e**3


def rate_stop_cell(name, problem, nname, lay, examples=12):
    """Newton and chord stopping by their observed rate of convergence: from the second
    step on, when the extrapolated remaining error is below kappa or the steps grow."""
    cls = dict(Newton=optx.Newton, Chord=optx.Chord)[name]
    fam = C.Family("root", lay)
    raw = fam.raw if problem == "mild" else wild
    jnorm, norm = ALLNORMS[nname]
    budget = 25

    def build():
        @eqx.filter_jit
        def run(y0, p, r, a, kappa):
            solver = cls(r, a, norm=jnorm, kappa=kappa, cauchy_termination=False)
            sol = optx.root_find(
                lambda y, p: lay.unflat(raw(lay.flat(y), p)), solver, lay.unflat(y0), p,
                max_steps=budget, throw=False)
            return V.summary(sol), sol.result == optx.RESULTS.nonlinear_divergence

        return run, jax.jit(lambda z, p: (raw(z, p), jax.jacfwd(raw)(z, p)))

    holder = {}

    def judge(d):
        if not holder:
            holder["x"] = build()
        run, both = holder["x"]
        p = fam.params(d["base"])
        p["k"] = np.float64(0.3 + d["k"] / 5.0)
        z = offset(fam.start(d["base"], p), 1e-4)
        if name == "Chord":
            z = p["c"] + 0.3 * (z - p["c"])
        rtol, atol, kappa = TOLS[d["r"]], TOLS[d["a"]], (1e-4, 1e-2, 0.3)[d["kappa"]]
        out, diverged = npt(lib(run, z, p, *map(np.float64, (rtol, atol, kappa))))
        jac = prev = None
        want = (budget, "budget")
        for i in range(budget):
            f, J = npt(both(z, p))
            jac = J if jac is None or name == "Newton" else jac
            if np.linalg.cond(jac) > 1e6:
                return None
            dz = np.linalg.solve(jac, f)
            z = z - dz
            if not np.max(np.abs(z)) < 1e4 or np.max(np.abs(dz)) < 1e-11 * (1 + np.max(np.abs(z))):
                return None  # rounding or overflow decides
            size = scaled(dz, z, rtol, atol, norm)
            if prev is not None:
                rate = size / prev
                factor = size * rate / (1 - rate)
                if min(abs(rate - 2), abs(rate - 1), abs(factor / kappa - 1)) < 1e-5:
                    return None
                if rate > 2:
                    want = (i + 1, "diverged")
                    break
                if 0 < factor < kappa:
                    want = (i + 1, "converged")
                    break
            prev = size
        code = int(out["code"])
        got = "converged" if code == 0 else "diverged" if diverged else "budget" if code == 1 else code
        check(
            (int(out["steps"]), got) == want,
            lambda: f"{name} by rate ({nname} norm), rtol {rtol}, atol {atol}, kappa {kappa}: "
            f"{got} after {out['steps']} steps, should be {want[1]} after {want[0]}",
        )
        return want[1]

    k = st.integers(0, len(TOLS) - 1)
    strat = st.fixed_dictionaries(dict(
        base=fam.strategy, r=k, a=k, kappa=st.integers(0, 2), k=st.integers(0, 12)))
    return Cell(f"rate/{name}/{problem}/{nname}/{lay.name}", strat, judge, examples)


def bracket_stop_cell(name, examples=20):
    """Bisection stops at the first midpoint where the function is within atol and the
    interval within atol + rtol |y|."""
    down = name == "down"

    def build():
        def fn(y, p):
            e = y - p["c"]
            v = p["s"] * (e + 0.3 * jnp.sin(2 * e) + p["q"] * e**3)
            return -v if down else v

        @eqx.filter_jit
        def run(y0, p, lo, hi, r, a):
            sol = optx.root_find(
                fn, optx.Bisection(r, a, flip=down), y0, p, options=dict(lower=lo, upper=hi),
                max_steps=120, throw=False)
            return V.summary(sol)

        return run, jax.jit(fn)

    holder = {}

    def judge(d):
        if not holder:
            holder["x"] = build()
        run, fn = holder["x"]
        c = d["c"] / 8.0 + 0.0123456
        lo, hi = c - d["l"] / 8.0, c + d["u"] / 8.0
        y = lo + (hi - lo) * d["t"] / 10.0
        p = dict(c=np.float64(c), s=np.float64(10.0 ** d["s"]), q=np.float64(d["q"] / 4.0))
        rtol, atol = TOLS[d["r"]], TOLS[d["a"]]
        out = npt(lib(run, np.float64(y), p, *map(np.float64, (lo, hi, rtol, atol))))
        for i in range(120):
            f = float(fn(y, p))
            if abs(f) < 1e-13 * p["s"]:
                return None  # its sign is rounding
            lo, hi = (y, hi) if (f < 0) != down else (lo, y)
            new = lo + 0.5 * (hi - lo)
            vs = {verdicts(((hi - lo) / (atol + rtol * abs(q)), abs(f) / atol)) for q in (y, new)}
            if len(vs) > 1 or None in vs:
                return None
            y = new
            if vs.pop():
                break
        else:
            return None
        check(
            out["code"] == 0 and out["steps"] == i + 1,
            lambda: f"bisection, rtol {rtol}, atol {atol}: {out['steps']} steps (code "
            f"{out['code']}), criterion first holds after {i + 1}",
        )
        check(np.isclose(out["value"], y, rtol=1e-12, atol=1e-12),
              lambda: f"bisection: returned {out['value']}, the midpoint is {y}")
        return steps_bucket(i + 1)

    k = st.integers(0, len(TOLS) - 1)
    strat = st.fixed_dictionaries(dict(
        c=st.integers(-80, 80), l=st.integers(1, 40), u=st.integers(1, 40), t=st.integers(0, 10),
        q=st.integers(0, 4), s=st.integers(-3, 3), r=k, a=k))
    return Cell(f"stop/Bisection/{name}", strat, judge, examples)


# --------------------------------------------------- tightening never reduces the steps


def mono_cell(kind, name, make, lay, examples=6):
    fam = C.Family(kind, lay)

    def build():
        @eqx.filter_jit
        def run(y0, p, r, a):
            sol = C.ENTRY[kind](
                fam.fn, make(r, a), lay.unflat(y0), p, max_steps=300, throw=False)
            return V.summary(sol)

        return run

    fn = Lazy(build)

    def judge(d):
        p = fam.params(d["base"])
        y0 = fam.start(d["base"], p, name)
        tols = [(10.0 ** -(d["r"] + i), 10.0 ** -(d["a"] + j)) for i, j in ((0, 0), (d["i"], d["j"]))]
        a, b = (npt(lib(fn, y0, p, np.float64(r), np.float64(t))) for r, t in tols)
        if {int(a["code"]), int(b["code"])} - {0, 1}:
            return None
        check(
            a["steps"] <= b["steps"],
            lambda: f"{name}: (rtol, atol) = {tols[0]} took {a['steps']} steps, {tols[1]} took {b['steps']}",
        )
        return "more steps" if a["steps"] < b["steps"] else "same steps"

    strat = st.fixed_dictionaries(
        dict(base=fam.strategy, r=st.integers(1, 6), a=st.integers(1, 6),
             i=st.integers(0, 3), j=st.integers(0, 3))
    )
    return Cell(f"mono/{kind}/{name}", strat, judge, examples)


# Exactly on the threshold: data made of few binary digits, so that the quantity that the
# stopping rule compares is exactly equal to the tolerance. Equal is not below.

EDGE = 1 + 2.0**-30

STEADY = {
    "GradientDescent": (lambda a: optx.GradientDescent(0.5, 0.0, a), 0.5),
    "OptaxSGD": (lambda a: optx.OptaxMinimiser(optax.sgd(0.5), 0.0, a), 0.5),
    "BFGS": (lambda a: optx.BFGS(0.0, a), 1.0),
    "BFGSdirect": (lambda a: optx.BFGS(0.0, a, use_inverse=False), 1.0),
    "DFP": (lambda a: optx.DFP(0.0, a), 1.0),
    "LBFGS": (lambda a: optx.LBFGS(0.0, a), 1.0),
    "CG-PR": (lambda a: optx.NonlinearCG(0.0, a), 1.0),
    "CG-DY": (lambda a: optx.NonlinearCG(0.0, a, method=optx.dai_yuan), 1.0),
}


def steady_cell(name, nname, examples=6):
    """A linear objective: every step changes y and f by the same exact amounts."""
    make, lr = STEADY[name]
    norm, ref = NORMS[nname]

    def build():
        @eqx.filter_jit
        def run(g, atol):
            solver = eqx.tree_at(lambda s: s.norm, make(atol), norm)
            sol = optx.minimise(lambda y, g: jnp.sum(g * y), solver, jnp.zeros(2), g,
                                max_steps=6, throw=False)
            return V.rcode(sol.result), sol.stats["num_steps"]

        return run

    run = Lazy(build)

    def judge(d):
        # 3-4-5 for the two-norm, equal entries for the mean square: all roots exact
        base = {"max": (3.0, -2.0), "two": (3.0, -4.0), "rms": (2.0, -2.0)}[nname]
        g = np.array(base[:: -1 if d["swap"] else 1]) * 2.0 ** (1 if d["f"] else -5)
        g = g * 2.0 ** (d["k"] if d["f"] else -d["k"])
        dy, df = lr * ref(g), lr * np.sum(g * g)
        atol = max(dy, df)
        assert (df > dy) == d["f"]
        at, above = (npt(lib(run, g, np.float64(a))) for a in (atol, atol * EDGE))
        here = lambda: f"{name} ({nname}): steps change y by {dy} and f by {df}"
        check(at[0] == 1, lambda: f"{here()}, yet it stopped at atol={atol} after {at[1]} steps")
        check(above[0] == 0, lambda: f"{here()}, yet it did not stop at atol={atol * EDGE}")
        return "f" if d["f"] else "y"

    return Cell(f"edge/{name}/{nname}", st.fixed_dictionaries(dict(
        f=st.booleans(), k=st.integers(0, 3), swap=st.booleans())), judge, examples)


def slope_fn(value, tangent):
    """y -> value*y whose derivative is declared to be `tangent`."""

    @jax.custom_jvp
    def f(y):
        return value * y

    f.defjvp(lambda p, t: (value * p[0], tangent * t[0]))
    return f


HALVING = ("Newton", "Chord", "NewtonNC", "ChordNC", "GaussNewton", "FPI", "Bisection",
           "BisectionStep")


def halving_cell(name, binding, examples=8):
    """The error halves exactly, so just above a power of two is one step less than at it."""
    value = 0.25 if binding == "y" else 4.0

    def build():
        f = slope_fn(value, 2 * value)
        root = lambda y, c: f(y - c)

        def solve(c, e, tol):
            kw = dict(max_steps=60, throw=False)
            if name in ("Newton", "Chord"):
                return optx.root_find(root, getattr(optx, name)(0.0, tol), c + e, c, **kw)
            if name in ("NewtonNC", "ChordNC"):
                cls = getattr(optx, name[:-2])
                solver = cls(0.0, 2.0**-3, kappa=tol, cauchy_termination=False)
                return optx.root_find(root, solver, c + e, c, **kw)
            if name == "GaussNewton":
                return optx.least_squares(root, optx.GaussNewton(0.0, tol), c + e, c, **kw)
            if name == "FPI":
                return optx.fixed_point(lambda y, c: c + 0.5 * (y - c),
                                        optx.FixedPointIteration(0.0, tol), c + e, c, **kw)
            g = lambda y, c: 2.0**-12 * (y - c - 0.3 * jnp.abs(e))
            if name == "BisectionStep":
                g = lambda y, c: jnp.where(y < c + 0.3 * jnp.abs(e), -tol_step, tol_step)
            return optx.root_find(
                g, optx.Bisection(0.0, tol), c, c,
                options=dict(lower=c - jnp.abs(e), upper=c + jnp.abs(e)), **kw)

        tol_step = 2.0**-4

        @eqx.filter_jit
        def run(c, e, tol):
            sol = solve(c, e, tol)
            return V.rcode(sol.result), sol.stats["num_steps"]

        return run

    run = Lazy(build)

    def judge(d):
        c, e = np.float64(d["c"] / 4.0), np.float64(d["sign"] * 2.0 ** d["e"])
        tol = 2.0 ** -d["m"] if name != "BisectionStep" else 2.0**-4
        at, above = (npt(lib(run, c, e, np.float64(a))) for a in (tol, tol * EDGE))
        here = lambda: f"{name} with error {e} halving each step: result, steps {at} at " \
                       f"tolerance {tol}, {above} just above it"
        check(above[0] == 0, here)
        if name == "BisectionStep":
            check(at[0] == 1, here)
        else:
            check(at[0] == 0 and at[1] == above[1] + 1, here)
        return "edge"

    return Cell(f"edge/{name}/{binding}", st.fixed_dictionaries(dict(
        c=st.integers(-8, 8), e=st.integers(1, 3), sign=st.sampled_from([1, -1]),
        m=st.integers(2, 8))), judge, examples)


def double_cell(name, examples=6):
    """Steps growing by a factor of exactly two have not diverged; by more, they have."""

    def build():
        @eqx.filter_jit
        def run(c, e, tangent):
            f = slope_fn(1.0, tangent)
            solver = getattr(optx, name)(0.0, 2.0**-3, cauchy_termination=False)
            sol = optx.root_find(lambda y, c: f(y - c), solver, c + e, c, max_steps=12,
                                 throw=False)
            return V.rcode(sol.result), sol.stats["num_steps"]

        return run

    run = Lazy(build)

    def judge(d):
        c, e = np.float64(d["c"] / 4.0), np.float64(d["sign"] * 2.0 ** d["e"])
        # y -> y - e/t multiplies the error by 1 - 1/t
        at = npt(lib(run, c, e, np.float64(-1.0)))
        more = npt(lib(run, c, e, np.float64(-0.5)))
        check(at[0] == 1 and at[1] == 12,
              lambda: f"{name}: steps double exactly, result {at[0]} after {at[1]}")
        check(more[0] == 2 and more[1] == 2,
              lambda: f"{name}: steps grow threefold, result {more[0]} after {more[1]}")
        return "double"

    return Cell(f"edge/double/{name}", st.fixed_dictionaries(dict(
        c=st.integers(-8, 8), e=st.integers(1, 3), sign=st.sampled_from([1, -1]))),
        judge, examples)


def at_root_cell(name, examples=6):
    """No rate can be told from one step: even a start at the root takes two."""

    def build():
        @eqx.filter_jit
        def run(c, s, far):
            solver = getattr(optx, name)(1e-3, 1e-3, cauchy_termination=False)
            sol = optx.root_find(lambda y, c: s * (y - c), solver, c + far, c, max_steps=12,
                                 throw=False)
            return V.rcode(sol.result), sol.stats["num_steps"], sol.value

        return run

    run = Lazy(build)

    def judge(d):
        c, s = np.array(d["c"]) / 4.0, 2.0 ** d["s"]
        for far in (0.0, 2.0 ** -60, 4.0):
            code, steps, y = npt(lib(run, c, s, far))
            check((int(code), int(steps)) == (0, 2) and np.array_equal(y, c), lambda: (
                f"{name} by rate on {s}(y - {c}) from {c + far}: result {code} after "
                f"{steps} steps at {y}"))
        return "at root"

    return Cell(f"edge/root/{name}", st.fixed_dictionaries(dict(
        c=P.vec(2, 8), s=st.integers(-4, 4))), judge, examples)


def near_zero_cell(name, nname, examples=12):
    """A root find through another kind of solver succeeds exactly if the smallest residual
    that can be reached is below the absolute tolerance, in the norm of the solver."""
    norm, ref = ALLNORMS[nname]

    def build():
        def fn(y, p):
            c, g = p
            return {"move": y - c, "stay": (g[0] + 0 * y[0], g[1:])}

        @eqx.filter_jit
        def run(y0, c, g, rtol, atol):
            sol = optx.root_find(fn, getattr(optx, name)(rtol, atol, norm=norm), y0, (c, g),
                                 max_steps=60, throw=False)
            return V.rcode(sol.result), sol.stats["num_steps"], sol.value

        return run

    run = Lazy(build)

    def judge(d):
        c, g = np.array(d["c"]) / 4.0, np.array(d["g"]) / 4.0
        size = ref(np.concatenate([g, np.zeros(2)]))
        atol = d["at"] / 16.0
        if not d["at"] or abs(size - atol) < 0.05 * atol:
            return None
        rtol = (1e-3, 0.5)[d["rt"]]
        code, steps, y = npt(lib(run, np.array(d["y"]) / 4.0, c, g, rtol, atol))
        want = 0 if size < atol else 1
        check(int(code) == want, lambda: (
            f"{name} ({nname} norm), rtol {rtol}, atol {atol}: the residual cannot be smaller "
            f"than {size}, result {code} after {steps} steps at {y}, {c} would be best"))
        return "success" if want == 0 else "budget"

    return Cell(f"nearzero/{name}/{nname}", st.fixed_dictionaries(dict(
        c=P.vec(2, 8), y=P.vec(2, 8), g=P.vec(3, 8), at=st.integers(1, 64),
        rt=st.integers(0, 1))), judge, examples)


def simplex_edge_cell(binding, examples=8):
    """A simplex whose spread (in y or in f) is exactly the tolerance is not yet small."""

    def build():
        def fn(y, s):
            return s * jnp.abs(y) + 1.0

        @eqx.filter_jit
        def run(a, h, s, atol):
            solver = optx.NelderMead(0.0, atol, rdelta=0.0, adelta=h)
            sol = optx.minimise(fn, solver, a, s, max_steps=100, throw=False)
            return V.rcode(sol.result), sol.stats["num_steps"]

        return run

    run = Lazy(build)

    def judge(d):
        h = 2.0 ** d["h"]
        s = 0.0 if binding == "y" else 4.0
        a = np.float64(d["a"] * h)
        tol = h * max(1.0, s)
        at, above = (npt(lib(run, a, np.float64(h), np.float64(s), np.float64(t)))
                     for t in (tol, tol * EDGE))
        check(above[0] == 0 and at[1] > above[1], lambda: (
            f"simplex {a}, {a + h} with objective {s}|y|: result, steps {at} at tolerance "
            f"{tol}, {above} just above it"))
        return binding

    return Cell(f"edge/NelderMead/{binding}", st.fixed_dictionaries(dict(
        a=st.integers(1, 6), h=st.integers(-3, 3))), judge, examples)


def cells(tier):
    L = P.LAYOUTS
    out = [empty_cell()]
    for nname in NORMS:
        for tname in TREES:
            out.append(norm_cell(nname, tname))
    lays = ("pair", "vec2", "dict", "scalar")
    i = 0
    for name in SEARCHING:
        for nname in (("max", "two") if i % 2 else ("rms", "l1")):
            out.append(search_stop_cell(name, nname, L[lays[i % 4]]))
        if name not in ("GaussNewton", "GradientDescent"):
            out.append(search_stop_cell(
                name, ("max", "rms", "two")[i % 3], L[lays[(i + 1) % 4]],
                (("wavy", "valley")[i % 2], ("nan", "log", "exp", "none")[i % 4])))
        i += 1
    for nname in ALLNORMS:
        for name in ("Newton", "Chord"):
            out.append(newton_stop_cell(name, nname, L["pair"]))
        for damp in (0.0, 0.4):
            out.append(fp_stop_cell(nname, damp, L["dict"]))
        for name in ("Newton", "Chord"):
            out.append(rate_stop_cell(name, "mild", nname, L["dict"]))
            out.append(rate_stop_cell(name, "wild", nname, L["pair"]))
    for name in ("up", "down"):
        out.append(bracket_stop_cell(name))
    for i, name in enumerate(STEADY):
        out.append(steady_cell(name, ("max", "two", "rms")[i % 3]))
        out.append(steady_cell(name, ("two", "rms", "max")[i % 3]))
    for name in HALVING:
        out.append(halving_cell(name, "y"))
        if name in ("Newton", "Chord", "GaussNewton"):
            out.append(halving_cell(name, "f"))
    for name in ("Newton", "Chord"):
        out.append(double_cell(name))
        out.append(at_root_cell(name))
    for nname in ALLNORMS:
        for name in ("GaussNewton", "LevenbergMarquardt", "Dogleg"):
            out.append(near_zero_cell(name, nname))
    out.append(near_zero_cell("BFGS", "two"))
    for binding in ("y", "f"):
        out.append(simplex_edge_cell(binding))
    for kind, name, make in C.everything():
        lay = L["scalars2"] if "NM" in name or "Nelder" in name else L["pair"]
        out.append(mono_cell(kind, name, make, lay))
    return out
