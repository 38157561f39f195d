"""C09: batching."""

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optimistix as optx
from hypothesis import strategies as st

from . import catalog as C, problems as P, solvers as V
from .common import close, npt, offset, robust
from .core import Cell, check, lib
from .rough import Rough

B = 4


def stack(trees):
    return jax.tree_util.tree_map(lambda *x: np.stack(x), *trees)


def member(tree, i):
    return jax.tree_util.tree_map(lambda x: x[i], tree)


def batch_cell(kind, name, make, lay, batched, budget=40, grad=False, examples=6, rough=None):
    fam = Rough(kind, lay, *rough) if rough else C.Family(kind, lay)
    holder = {}

    def build():
        def fn(y, a):
            p, bad = a
            v = fam.fn(y, p)
            # members differ widely in scale
            v = jax.tree_util.tree_map(lambda x: x * p["size"], v)
            # members with a wall: NaN once the first coordinate exceeds `bad`
            z = lay.flat(y)
            v = jax.tree_util.tree_map(lambda x: jnp.where(z[0] > bad, jnp.nan, x), v)
            return v, dict(y=y, q=jnp.sum(z) + 1)

        def solve(y0, p, bad):
            sol = C.ENTRY[kind](fn, make(1e-5, 1e-5), lay.unflat(y0), (p, bad),
                                max_steps=budget, throw=False, has_aux=True)
            return dict(V.summary(sol), aux=sol.aux)

        axes = dict(
            both=(0, 0, 0), starts=(0, None, None), args=(None, 0, 0), wall=(None, None, 0)
        )[batched]
        single = jax.jit(solve)
        many = jax.jit(jax.vmap(solve, in_axes=axes))
        if grad:
            def loss(y0, p, bad):
                return jnp.sum(jnp.sin(lay.flat(solve(y0, p, bad)["value"])))

            gs = jax.jit(jax.grad(loss, 1))
            gm = jax.jit(jax.vmap(jax.grad(loss, 1), in_axes=axes))
            return single, many, gs, gm, axes
        return single, many, None, None, axes

    def compare(d, e):
        if not holder:
            holder["x"] = build()
        single, many, gs, gm, axes = holder["x"]
        ps = [dict(fam.params(m), size=np.float64(m["size"])) for m in d["m"]]
        ys = []
        for m, p in zip(d["m"], ps):
            y = offset(fam.start(m, p, name), e)
            if m["how"] == 1:
                y = p["c"] + e
            elif m["how"] == 2:
                y = y * np.nan
            elif m["how"] == 3 and "Chord" not in name:
                y = y * 30.0
            ys.append(y)
        bads = [np.float64(m["wall"] / 4.0 if m["wall"] > -9 else np.inf) for m in d["m"]]
        for lst, ax in ((ys, axes[0]), (ps, axes[1]), (bads, axes[2])):
            if ax is None:
                lst[:] = [lst[0]] * B
        args = [stack(l) if ax == 0 else l[0]
                for l, ax in zip((ys, ps, bads), axes)]
        out = npt(lib(many, *args))
        gout = npt(lib(gm, *args)) if gm else None
        codes = set()
        for i in range(B):
            ref = npt(lib(single, ys[i], ps[i], bads[i]))
            got = member(out, i)
            codes.add(int(ref["code"]))
            check(got["code"] == ref["code"] and got["steps"] == ref["steps"],
                  lambda: f"member {i}: code {got['code']} after {got['steps']} steps in the "
                  f"batch, {ref['code']} after {ref['steps']} alone")
            check(close(got["value"], ref["value"], 1e-6, 1e-8),
                  lambda: f"member {i}: {got['value']} in the batch, {ref['value']} alone")
            if ref["steps"] > 0:
                check(close(got["aux"], ref["aux"], 1e-6, 1e-8),
                      lambda: f"member {i}: aux {got['aux']} in the batch, {ref['aux']} alone")
            if gm and ref["code"] == 0:
                g = npt(lib(gs, ys[i], ps[i], bads[i]))
                check(close(member(gout, i), g, 1e-5, 1e-7),
                      lambda: f"member {i}: gradient {member(gout, i)} vs {g} alone")
        return "codes " + ",".join(map(str, sorted(codes)))

    mem = st.builds(lambda d, e: dict(d, **e), fam.strategy, st.fixed_dictionaries(dict(
        # an implicit derivative exists for solved members only
        how=st.sampled_from([0, 0, 0, 1] if grad else [0, 0, 0, 1, 2, 3]),
        wall=st.sampled_from([-9] if grad else [-9, -9, -9, -2, 0, 2, 5]),
        size=st.sampled_from([1.0] if grad or kind == "fp" or kind == "min" else
                             [1.0, 1.0, 1e-4, 1e-3, 30.0]),
    )))
    strat = st.fixed_dictionaries(dict(m=st.lists(mem, min_size=B, max_size=B)))
    g = "/grad" if grad else f"/{fam.name}" if rough else ""
    return Cell(f"{kind}/{name}/{lay.name}/{batched}{g}", strat, robust(compare), examples)


def bounds_cell(name, examples=12):
    """Batched options: Newton and Chord bounds, bisection and golden-section intervals."""
    holder = {}

    def build():
        def solve(y0, c, lo, hi):
            o = dict(lower=lo, upper=hi)
            if name in ("Newton", "Chord"):
                cls = getattr(optx, name)
                sol = optx.root_find(lambda y, c: jnp.sinh(y - c), cls(1e-6, 1e-6), y0, c,
                                     options=o, throw=False, max_steps=30)
            elif name == "Bisection":
                sol = optx.root_find(lambda y, c: jnp.tanh(y - c), optx.Bisection(1e-6, 1e-6),
                                     y0, c, options=o, throw=False, max_steps=30)
            else:
                sol = optx.minimise(lambda y, c: jnp.sqrt(1 + (y - c) ** 2),
                                    optx.GoldenSearch(1e-4, 1e-4), y0, c, options=o,
                                    throw=False, max_steps=30)
            return V.summary(sol)

        return (jax.jit(solve), jax.jit(jax.vmap(solve)),
                jax.jit(jax.vmap(solve, in_axes=(None, None, 0, 0))))

    def compare(d, e):
        if not holder:
            holder["x"] = build()
        single, many, opts = holder["x"]
        rows = []
        for m in d["m"]:
            c = m["c"] / 4.0 + e
            lo, hi = c - m["l"] / 4.0, c + m["u"] / 4.0
            rows.append((lo + (hi - lo) * m["t"] / 10, c, lo, hi))
        for fn, fix in ((many, False), (opts, True)):
            rs = [(rows[0][0], rows[0][1], r[2], r[3]) for r in rows] if fix else rows
            if fix:
                if any(not (r[2] < r[1] < r[3] and r[2] <= r[0] <= r[3]) for r in rs):
                    continue
                out = npt(lib(fn, *map(np.float64, rs[0][:2]),
                              *(np.array([r[k] for r in rs]) for k in (2, 3))))
            else:
                out = npt(lib(fn, *(np.array([r[k] for r in rs]) for k in range(4))))
            for i, r in enumerate(rs):
                ref = npt(lib(single, *map(np.float64, r)))
                got = member(out, i)
                check(got["code"] == ref["code"] and got["steps"] == ref["steps"]
                      and close(got["value"], ref["value"], 1e-9, 1e-10),
                      lambda: f"member {i}: {got} in the batch, {ref} alone")
        return "bounds"

    mem = st.fixed_dictionaries(dict(c=st.integers(-8, 8), l=st.integers(1, 12),
                                     u=st.integers(1, 12), t=st.integers(0, 10)))
    return Cell(f"options/{name}", st.fixed_dictionaries(
        dict(m=st.lists(mem, min_size=B, max_size=B))), robust(compare), examples)


def cells(tier):
    L = P.LAYOUTS
    out = []
    for kind, name, make in C.everything():
        lay = L["scalars2" if "NM" in name or "Nelder" in name else "vec2"]
        out.append(batch_cell(kind, name, make, lay, "both"))
    some = [("root", "Newton"), ("root", "Chord"), ("fp", "FPI"), ("lsq", "LevenbergMarquardt"),
            ("lsq", "Dogleg"), ("min", "BFGS"), ("min", "LBFGS"), ("min", "NelderMead"),
            ("min", "OptaxAdam"), ("min", "CG-polak_ribiere"), ("lsq", "IndirectLM")]
    for kind, name in some:
        lay = L["scalars2" if "Nelder" in name else "pair"]
        for b in ("starts", "args", "wall"):
            out.append(batch_cell(kind, name, C.SOLVERS[kind][name], lay, b))
    i = 0
    for kind, name, make in C.everything():
        if kind in ("lsq", "min") and name != "GaussNewton" and "NM" not in name and "Nelder" not in name:
            out.append(batch_cell(
                kind, name, make, L[("vec2", "scalar", "pair")[i % 3]], "both", examples=3,
                budget=25, rough=(("wavy", "valley")[i % 2], ("nan", "log", "exp", "none")[i % 4])))
            i += 1
    for kind, name in (("root", "Newton"), ("fp", "FPI"), ("lsq", "GaussNewton"),
                       ("min", "BFGS")):
        out.append(batch_cell(kind, name, C.SOLVERS[kind][name], L["pair"], "both",
                              budget=80, grad=True))
    for name in ("Newton", "Chord", "Bisection", "GoldenSearch"):
        out.append(bounds_cell(name))
    return out
