"""C06: a solve equals stepping the solver by hand."""

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optimistix as optx
from hypothesis import strategies as st

from . import catalog as C, problems as P, solvers as V
from .common import close, npt, offset, robust, same, steps_bucket
from .core import Cell, check, lib
from .stepper import Stepper, finite

TOL = [1e-3, 1e-5, 1e-7]
BUDGETS = (1, 2, 4, 9, 60)


# solvers that do not evaluate the function at the point they are given
ANYWHERE = [n for k, n, m in C.everything() if "NM" in n or "Nelder" in n]


def aux_of(lay, y, p):
    z = lay.flat(y)
    return dict(
        y=y, q=(7.0 + jnp.sum(z * (1 + jnp.arange(lay.n))), jnp.array(5, jnp.int32)),
        r=z[0] > p["c"][0],
    )


def reference(stepper, y0, p, cfg, budget, opts=None):
    """Outcomes of the documented loop when termination is judged at the new iterate and
    at the previous one (the protocol leaves this open; they differ in rare cases)."""
    out = []
    for which in ("new", "old"):
        y, dyn, done, code = stepper.start(y0, p, cfg, opts)
        if not finite(y):
            code = 3
        aux, n, prev = None, 0, y
        while not done and code == 0 and n < budget:
            prev = y
            y, dyn, aux, a, b = stepper.step(y, dyn, p, cfg, opts)
            done, code = a if which == "new" else b
            if not finite(y if which == "new" else prev):
                code = 3
            n += 1
        if code == 0 and not done:
            code = 1
        raw = npt(aux)
        if n:
            y, aux = stepper.post(y, dyn, aux, p, code, cfg, opts)
        out.append((npt(y), npt(aux), code, n, npt(prev), raw))
    return out


def step_cell(kind, name, make, lay, examples=10):
    fam = C.Family(kind, lay)
    holder = {}

    def build():
        def fn(y, p):
            return fam.fn(y, p), aux_of(lay, y, p)

        stepper = Stepper(lambda c: make(*c), fn)

        def solve(budget):
            @eqx.filter_jit
            def run(y0, p, c):
                sol = C.ENTRY[kind](
                    fn, make(*c), y0, p, has_aux=True, max_steps=budget, throw=False
                )
                return V.summary(sol), sol.aux

            return run

        return stepper, {b: solve(b) for b in BUDGETS}

    def compare(d, e):
        if not holder:
            holder["x"] = build()
        stepper, solves = holder["x"]
        p = fam.params(d)
        y0 = lay.np_unflat(offset(fam.start(d, p, name), e))
        cfg = (np.float64(TOL[d["rtol"]]), np.float64(TOL[d["atol"]]))
        b = BUDGETS[d["b"]]
        s, aux = npt(lib(solves[b], y0, p, cfg))
        s2, aux2 = npt(lib(solves[b], y0, p, cfg))
        check(same((s, aux), (s2, aux2)), "repeating the solve gave different bits")
        if int(s["steps"]) == 0:
            return None
        refs = lib(reference, stepper, y0, p, cfg, b)
        # aux belongs to some evaluation of the user's function
        z = lay.np_flat(aux["y"])
        check(
            np.allclose(aux["q"][0], 7 + np.sum(z * (1 + np.arange(lay.n))))
            and aux["q"][1] == 5 and aux["q"][1].dtype == np.int32
            and bool(aux["r"]) == bool(z[0] > p["c"][0]),
            lambda: f"aux {aux} was not produced by the user's function",
        )
        if name not in ANYWHERE:
            for r in refs:
                start, raw = lay.np_flat(r[4]), lay.np_flat(r[5]["y"])
                check(close(start, raw), lambda: f"step {r[3]} from {start} gave the auxiliary "
                      f"output of {raw}")
        ok = [
            r for r in refs
            if r[2] == s["code"] and r[3] == s["steps"] and close(r[0], s["value"])
            and close(r[1], aux)
        ]
        check(
            ok,
            lambda: f"solve: value {s['value']}, code {s['code']}, steps {s['steps']}, "
            f"aux {aux}; by hand: {refs[0]}",
        )
        return f"code {s['code']}, " + steps_bucket(s["steps"])

    strat = st.builds(
        lambda d, e: dict(d, **e), fam.strategy,
        st.fixed_dictionaries(
            dict(rtol=st.integers(0, 2), atol=st.integers(0, 2),
                 b=st.integers(0, len(BUDGETS) - 1))
        ),
    )
    return Cell(f"{kind}/{name}/{lay.name}", strat, robust(compare), examples)


def bracket_cell(name, examples=30):
    holder = {}
    kind = "root" if name == "Bisection" else "min"

    def fn(y, p):
        u = y - p["c"]
        f = jnp.tanh(u) + 0.3 * u if kind == "root" else jnp.sqrt(1 + u**2)
        return f, dict(y=y, q=7 + y)

    def make(r, a):
        return optx.Bisection(r, a) if kind == "root" else optx.GoldenSearch(r, a)

    def build():
        stepper = Stepper(
            lambda c: make(*c), fn, options=lambda o: dict(lower=o[0], upper=o[1])
        )

        def solve(budget):
            @eqx.filter_jit
            def run(y0, p, c, o):
                sol = C.ENTRY[kind](
                    fn, make(*c), y0, p, has_aux=True, max_steps=budget, throw=False,
                    options=dict(lower=o[0], upper=o[1]),
                )
                return V.summary(sol), sol.aux

            return run

        return stepper, {b: solve(b) for b in BUDGETS}

    def compare(d, e):
        if not holder:
            holder["x"] = build()
        stepper, solves = holder["x"]
        p = dict(c=np.float64(d["c"] / 4.0 + e))
        o = (np.float64((d["c"] - d["l"]) / 4.0), np.float64((d["c"] + d["u"]) / 4.0))
        y0 = np.float64(o[0] + (o[1] - o[0]) * d["t"] / 10.0)
        cfg = (np.float64(TOL[d["rtol"]]), np.float64(TOL[d["atol"]]))
        b = BUDGETS[d["b"]]
        s, aux = npt(lib(solves[b], y0, p, cfg, o))
        if int(s["steps"]) == 0:
            return None
        refs = lib(reference, stepper, y0, p, cfg, b, o)
        check(np.allclose(aux["q"], 7 + aux["y"]), lambda: f"aux {aux}")
        ok = [
            r for r in refs
            if r[2] == s["code"] and r[3] == s["steps"] and close(r[0], s["value"])
            and close(r[1], aux)
        ]
        check(ok, lambda: f"solve: {s}, {aux}; by hand: {refs[0]}")
        return f"code {s['code']}, " + steps_bucket(s["steps"])

    strat = st.fixed_dictionaries(
        dict(c=st.integers(-20, 20), l=st.integers(1, 40), u=st.integers(1, 40),
             t=st.integers(0, 10), rtol=st.integers(0, 2), atol=st.integers(0, 2),
             b=st.integers(0, len(BUDGETS) - 1))
    )
    return Cell(f"bracket/{name}", strat, robust(compare), examples)


def cells(tier):
    out = []
    lays = dict(root="pair", fp="dict", lsq="pair", min="pair")
    for kind, name, make in C.everything():
        lay = P.LAYOUTS["scalars3" if "NM" in name or "Nelder" in name else lays[kind]]
        out.append(step_cell(kind, name, make, lay))
    for name in ("Bisection", "GoldenSearch"):
        out.append(bracket_cell(name))
    return out
