"""C20: the Optax wrapper runs exactly the given Optax optimiser."""

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optax
import optimistix as optx
from hypothesis import strategies as st

from . import catalog as C, problems as P, solvers as V
from .common import close, npt
from .core import Cell, check, lib

STEPS = 12

OPTIMS = {
    "sgd": lambda r: optax.sgd(r),
    "momentum": lambda r: optax.sgd(r, momentum=0.7),
    "nesterov": lambda r: optax.sgd(r, momentum=0.6, nesterov=True),
    "adam": lambda r: optax.adam(r),
    "adamw": lambda r: optax.adamw(r, weight_decay=0.1),
    "rmsprop": lambda r: optax.rmsprop(r),
    "schedule": lambda r: optax.sgd(optax.exponential_decay(0.4, 2, 0.7)),
    "warmup": lambda r: optax.adam(optax.linear_schedule(0.01, 0.5, 6)),
    "clip": lambda r: optax.chain(optax.clip_by_global_norm(0.8), optax.sgd(r)),
    "clipadam": lambda r: optax.chain(optax.clip(0.5), optax.adam(r), optax.scale(0.5)),
    "lbfgs": lambda r: optax.lbfgs(),
    "polyak": lambda r: optax.polyak_sgd(1.0),
    "linesearch": lambda r: optax.chain(optax.sgd(1.0), optax.scale_by_backtracking_linesearch(8)),
    "plain": lambda r: optax.scale(-r),
    "custom": lambda r: optax.GradientTransformation(
        lambda p: jnp.array(0.0),
        lambda u, s, p=None: (
            jax.tree_util.tree_map(lambda x: -r * x / (1 + s), u), s + 1.0),
    ),
    "multi": lambda r: optax.MultiSteps(optax.sgd(r), 2),
    "inject": lambda r: optax.inject_hyperparams(optax.adam)(learning_rate=r),
}


def by_hand(make, loss):
    """One Optax step written out, as in the Optax documentation."""

    def init(y, r):
        return make(r).init(y)

    def step(y, state, p, r):
        tx = make(r)
        if isinstance(tx, optax.GradientTransformation):
            tx = optax.with_extra_args_support(tx)
        f = lambda q: loss(q, p)
        v, g = jax.value_and_grad(f)(y)
        up, state = tx.update(g, state, y, value=v, grad=g, value_fn=f)
        return optax.apply_updates(y, up), state, up, v

    return jax.jit(init), jax.jit(step)


def cell(name, lay, mild, aux, examples=8):
    fam = C.Family("min", lay, mild=mild)
    make = OPTIMS[name]
    budgets = (1, 2, 5, STEPS)
    norms = {"max": (optx.max_norm, lambda v: np.max(np.abs(v))),
             "two": (optx.two_norm, lambda v: np.sqrt(np.sum(v**2)))}
    nname = "two" if aux else "max"
    jnorm, norm = norms[nname]
    holder = {}

    def build():
        def fn(y, p):
            v = fam.fn(y, p)
            return (v, dict(y=y)) if aux else v

        def solve(b):
            @eqx.filter_jit
            def run(y0, p, r, rtol, atol):
                solver = optx.OptaxMinimiser(make(r), rtol, atol, norm=jnorm)
                sol = optx.minimise(fn, solver, y0, p, has_aux=aux, max_steps=b, throw=False)
                return V.summary(sol), sol.aux

            return run

        return {b: solve(b) for b in budgets}, by_hand(make, fam.fn)

    def judge(d):
        if not holder:
            holder["x"] = build()
        solves, (init, step) = holder["x"]
        p = fam.params(d["base"])
        y0 = lay.np_unflat(P.start(d["base"]))
        r = np.float64(d["rate"] / 50.0)
        rtol, atol = np.float64(10.0 ** -d["r"]), np.float64(10.0 ** -d["a"])
        b = budgets[d["b"]]
        out, got_aux = npt(lib(solves[b], y0, p, r, rtol, atol))
        y = jax.tree_util.tree_map(jnp.asarray, y0)
        s = init(y, r)
        f_prev, code, n, last = None, 1, 0, y
        for _ in range(b):
            last = y
            z = lay.np_flat(y)
            y, s, up, v = step(y, s, p, r)
            v, n = float(v), n + 1
            if f_prev is not None:
                up = lay.np_flat(up)
                a1 = norm(np.abs(up) / (atol + rtol * np.abs(z)))
                a2 = norm(np.abs(np.array([v - f_prev])) / (atol + rtol * abs(v)))
                if abs(max(a1, a2) - 1) < 1e-6:
                    return None
                if max(a1, a2) < 1:
                    code = 0
            f_prev = v
            if not np.all(np.abs(lay.np_flat(y)) < 1e6):
                return None
            if code == 0:
                break
        where = f"{name}, rate {r}, rtol {rtol}, atol {atol}, budget {b}"
        check(
            out["steps"] == n and out["code"] == code,
            lambda: f"{where}: {out['steps']} steps, code {out['code']}; by hand {n}, code {code}",
        )
        check(
            close(out["value"], npt(y), 1e-8, 1e-9),
            lambda: f"{where}: after {n} steps at {out['value']}, Optax by hand {npt(y)}",
        )
        if aux:
            check(close(got_aux["y"], npt(last), 1e-8, 1e-9),
                  lambda: f"{where}: aux of {got_aux['y']}, last evaluation at {npt(last)}")
        return "converged" if code == 0 else "budget"

    strat = st.fixed_dictionaries(
        dict(base=fam.strategy, rate=st.integers(1, 25), r=st.integers(1, 7),
             a=st.integers(1, 7), b=st.integers(0, len(budgets) - 1))
    )
    return Cell(f"{name}/{lay.name}/{'aux' if aux else 'plain'}", strat, judge, examples)


def edge_cell(name, lay, examples=6):
    """Over the edge of the objective's domain Optax's update is passed on, not tidied up."""
    make = OPTIMS[name]
    holder = {}
    budget = 12

    def fn(y, p):
        z = lay.flat(y)
        return jnp.sum(p["s"] * z) + jnp.sqrt(p["w"] - jnp.sum(z))

    def judge(d):
        if not holder:
            @eqx.filter_jit
            def run(y0, p, r):
                solver = optx.OptaxMinimiser(make(r), 1e-9, 1e-9)
                return V.summary(optx.minimise(
                    fn, solver, y0, p, max_steps=budget, throw=False))

            holder["x"] = run, by_hand(make, fn)
        run, (init, step) = holder["x"]
        z = np.array(d["y"]) / 4.0
        p = dict(s=np.full(lay.n, -1.0), w=np.sum(z) + d["w"] / 8.0)
        y0, r = lay.np_unflat(z), np.float64(d["rate"] / 10.0)
        out = npt(lib(run, y0, p, r))
        y = jax.tree_util.tree_map(jnp.asarray, y0)
        s = init(y, r)
        broken = None
        for k in range(1, budget + 1):
            y, s, _, _ = step(y, s, p, r)
            if not np.all(np.isfinite(lay.np_flat(y))):
                broken = k
                break
        if broken is None or broken > budget - 1:
            return None
        check(out["code"] == 3 and out["steps"] in (broken, broken + 1)
              and not np.all(np.isfinite(lay.np_flat(out["value"]))), lambda: (
            f"{name} from {z}, edge at {p['w']}: Optax's iterate is not finite after {broken} "
            f"updates, got {out}"))
        return "over the edge"

    return Cell(f"edge/{name}/{lay.name}", st.fixed_dictionaries(dict(
        y=P.vec(lay.n, 8), w=st.integers(0, 8), rate=st.integers(1, 20))), judge, examples)


def reuse_cell(name, lay, examples=6):
    """The caller's optimiser and the wrapper can be reused: same answer again."""
    fam = C.Family("min", lay)
    holder = {}

    def judge(d):
        if not holder:
            tx = OPTIMS[name](0.1)
            solver = optx.OptaxMinimiser(tx, 1e-6, 1e-6)
            fields = dict(tx._asdict()) if hasattr(tx, "_asdict") else None
            run = eqx.filter_jit(lambda y, p, s: V.summary(
                optx.minimise(fam.fn, s, y, p, max_steps=7, throw=False)))
            upd = jax.jit(lambda g: tx.update(g, tx.init(g), g, value=jnp.array(1.0), grad=g,
                                              value_fn=lambda q: jnp.array(1.0))[0])
            holder["x"] = (tx, solver, fields, run, upd)
        tx, solver, fields, run, upd = holder["x"]
        p = fam.params(d["a"])
        q = fam.params(d["b"])
        ya, yb = lay.np_unflat(P.start(d["a"])), lay.np_unflat(P.start(d["b"]))
        before = npt(upd(jax.tree_util.tree_map(jnp.asarray, ya)))
        one = npt(lib(run, ya, p, solver))
        lib(run, yb, q, solver)
        two = npt(lib(run, ya, p, solver))
        after = npt(upd(jax.tree_util.tree_map(jnp.asarray, ya)))
        check(close(one, two, 0, 0), lambda: f"{name}: first {one}, after another solve {two}")
        check(close(before, after, 0, 0), lambda: f"{name}: the optimiser itself changed")
        check(fields is None or fields == tx._asdict(), f"{name}: optimiser object mutated")
        return "reused"

    return Cell(f"reuse/{name}", st.fixed_dictionaries(dict(a=fam.strategy, b=fam.strategy)),
                judge, examples)


def cells(tier):
    L = P.LAYOUTS
    lays = ("pair", "vec2", "dict", "scalar")
    out = []
    for i, name in enumerate(OPTIMS):
        out.append(cell(name, L[lays[i % 4]], True, False))
        out.append(cell(name, L[lays[(i + 1) % 4]], False, True))
    for i, name in enumerate(("sgd", "momentum", "adam", "rmsprop", "plain", "custom")):
        out.append(edge_cell(name, L[lays[i % 4]]))
    for name in ("sgd", "adam", "schedule"):
        out.append(reuse_cell(name, L["pair"]))
    return out
