"""C10: the pytree layout of the unknowns (and outputs) does not matter."""

import random

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optax
import optimistix as optx
from hypothesis import strategies as st

from . import catalog as C, env, problems as P, rough, solvers as V
from .common import Lazy, close, npt, offset, robust
from .core import Cell, check, lib
from .problems import S

FACTOR = 3


def random_tree(rng, n, scalars=False, extras=True):
    """A random pytree of shapes with n entries altogether."""
    sizes = []
    left = n
    while left:
        k = 1 if scalars else rng.randint(1, left)
        sizes.append(k)
        left -= k

    def leaf(k):
        options = [S(k)]
        if k == 1:
            options += [S(), S(1, 1), S()]
        if k == 4:
            options += [S(2, 2), S(2, 2)]
        if k % 2 == 0:
            options.append(S(2, k // 2))
        options.append(S(1, k))
        return rng.choice(options)

    nodes = [leaf(k) for k in sizes]
    if extras:
        for _ in range(rng.randint(0, 2)):
            nodes.insert(rng.randint(0, len(nodes)), rng.choice([None, (), {}, [None]] + ([] if scalars else [S(0), S(2, 0)])))
    while len(nodes) > 1 or (len(nodes) == 1 and rng.random() < 0.3):
        k = rng.randint(1, len(nodes))
        i = rng.randint(0, len(nodes) - k)
        group = nodes[i : i + k]
        kind = rng.choice(["tuple", "list", "dict"])
        if kind == "tuple":
            new = tuple(group)
        elif kind == "list":
            new = list(group)
        else:
            keys = rng.sample("qwertyuiop", len(group)) if len(group) <= 10 else None
            new = dict(zip(keys, group))
        nodes[i : i + k] = [new]
    return nodes[0]


def layout(rng, n, **kw):
    perm = list(range(n))
    rng.shuffle(perm)
    return P.Layout("rnd", random_tree(rng, n, **kw), perm=perm)


def show(lay):
    leaves = jax.tree_util.tree_unflatten(lay.treedef, [str(s) for s in lay.shapes])
    return f"{leaves} order {list(map(int, lay.perm))}"


def cell(name, kind, make, lay, out, n, m, budget, bounds=False, grad=False, examples=5):
    # Nelder-Mead's reference uses one scalar per unknown
    flat = P.Layout("flat", [S()] * n if "Nelder" in name or "NM" in name else S(n))
    if kind == "rough":
        raw = rough.objective("wavy", "none")
        strat, params = rough.data(n), lambda d: rough.params(n, d)
        start = lambda d, p: np.array(d["y"]) / 4.0
        entry = optx.minimise
    else:
        fam = C.Family(kind, flat, m=m) if kind == "lsq" else C.Family(kind, flat)
        raw, strat, params = fam.raw, fam.strategy, fam.params
        start = lambda d, p: np.asarray(fam.start(d, p, name))
        entry = C.ENTRY[kind]
    flat_out = P.Layout("flat", S(m)) if kind == "lsq" else flat
    if kind == "fp":
        out = lay

    def build(L, O):
        def fn(y, p):
            r = raw(L.flat(y), p)
            return r if kind in ("min", "rough") else O.unflat(r)

        @eqx.filter_jit
        def run(y0, p, tol, lo, hi, w):
            options = dict(lower=lo, upper=hi) if bounds else None

            def solve(p):
                return entry(fn, make(tol, tol), y0, p, options=options, max_steps=budget,
                             throw=False)

            o = V.summary(solve(p))
            if grad:
                o["grad"] = jax.grad(
                    lambda p: jnp.sum(L.flat(solve(p).value) * w))(p)
            return o

        return run

    runs = Lazy(lambda: build(flat, flat_out)), Lazy(lambda: build(lay, out))

    def judge(d, e):
        p = params(d["base"])
        z0 = offset(start(d["base"], p), e)
        tol = 10.0 ** -d["tol"]
        w = np.array(d["w"], float)
        lo = np.minimum(z0 - 0.3, -np.array(d["lo"]) / 4.0)
        hi = np.maximum(z0 + 0.2, np.array(d["hi"]) / 4.0)
        if not bounds:
            lo, hi = z0, z0
        a = npt(lib(runs[0], flat.np_unflat(z0), p, tol, flat.np_unflat(lo), flat.np_unflat(hi), w))
        b = npt(lib(runs[1], lay.np_unflat(z0), p, tol, lay.np_unflat(lo), lay.np_unflat(hi), w))
        here = lambda: f"{name}: flat {a}; as {show(lay)}: {b}"
        check(jax.tree_util.tree_structure(b["value"]) == lay.treedef, here)
        za, zb = flat.np_flat(a["value"]), lay.np_flat(b["value"])
        # Once at the same point to rounding, rounding decides the rest.
        at_end = close(za, zb, 1e-11, 1e-11) and 0 in (int(a["code"]), int(b["code"]))
        check(at_end or (int(a["steps"]) == int(b["steps"]) and int(a["code"]) == int(b["code"])),
              here)
        check(not np.all(np.isfinite(za)) or close(za, zb, 1e-6, 1e-7), here)
        if grad and int(a["code"]) == 0:
            check(close(a["grad"], b["grad"], 1e-4, 1e-6), here)
        return ["success", "budget", "diverged", "nonfinite", "other"][int(a["code"])]

    strat = st.fixed_dictionaries(dict(
        base=strat, tol=st.integers(3, 7), w=P.vec(n), lo=P.ints(n, 0, 12), hi=P.ints(n, 0, 12)))
    return Cell(name, strat, robust(judge), examples)


def cells(tier):
    rng = random.Random(f"layouts-{env.SEED}")
    out = []
    reps = 4 if tier == "thorough" else 1
    i = 0

    def add(name, kind, make, rep, **kw):
        nonlocal i
        i += 1
        scal = "NM" in name or "Nelder" in name
        n = rng.randint(2, 4) if scal else rng.randint(2, 6)
        if kind == "rough":
            n = rng.randint(2, 4)
        m = n + rng.randint(0, 2)
        lay = layout(rng, n, scalars=scal)
        budget = kw.pop("budget", (30, 6)[i % 2])
        out.append(cell(f"{kind}/{name}/{rep}", kind, make, lay,
                        layout(rng, m if kind == "lsq" else n, extras=False), n, m, budget, **kw))

    for rep in range(reps):
        for kind, name, make in C.everything():
            add(name, kind, make, rep, grad=name in (
                "Newton", "FPI", "LevenbergMarquardt", "BFGS", "LBFGS"),
                **(dict(budget=40) if name in ("Newton", "FPI", "LevenbergMarquardt", "BFGS", "LBFGS") else {}))
        for name, make in {**V.QN, **V.CG, **V.MIN_CUSTOM}.items():
            add(name, "rough", make, rep, budget=8)
        for name in ("Newton", "Chord"):
            add(f"{name}-bounds", "root", C.ROOT[name], rep, bounds=True)
        for entry in ("root", "fp"):
            for name in ("LevenbergMarquardt", "Dogleg", "GaussNewton"):
                add(f"via-{name}", entry, C.LSQ[name], rep)
            add("via-BFGS", entry, C.MIN["BFGS"], rep, budget=5)
        add("via-Newton", "fp", C.ROOT["Newton"], rep)
        for name in ("BFGS", "LBFGS"):
            add(f"via-{name}", "lsq", C.MIN[name], rep)
        for cls in (optx.GaussNewton, optx.LevenbergMarquardt, optx.Dogleg):
            for norm in (optx.two_norm, optx.rms_norm):
                add(f"{cls.__name__}-{norm.__name__}", "lsq",
                    lambda r, a, cls=cls, norm=norm: cls(r, a, norm=norm), rep)
        for cls in (optx.BFGS, optx.LBFGS, optx.DFP):
            for norm in (optx.two_norm, optx.rms_norm):
                add(f"{cls.__name__}-{norm.__name__}", "min",
                    lambda r, a, cls=cls, norm=norm: cls(r, a, norm=norm), rep)
        for norm in (optx.two_norm, optx.rms_norm):
            add(f"NelderMead-{norm.__name__}", "min",
                lambda r, a, norm=norm: optx.NelderMead(r, a, norm=norm), rep)
        add("clip", "min", lambda r, a: optx.OptaxMinimiser(
            optax.chain(optax.clip_by_global_norm(0.5), optax.sgd(0.2)), r, a), rep)
        add("lbfgs", "min", lambda r, a: optx.OptaxMinimiser(optax.lbfgs(), r, a), rep)
    # the layout of this one is fixed: it is a known finding
    out.append(cell("min/NelderMead-array", "min", C.MIN["NelderMead"], P.LAYOUTS["vec3"], None, 3,
                    3, 6))
    return out
