"""C08: the checkpointed adjoint differentiates the iterations taken."""

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optax
import optimistix as optx
from hypothesis import strategies as st

from . import catalog as C, problems as P, solvers as V
from .common import close, npt, offset, robust
from .core import Cell, check, lib

MAXK = 8


def hand(kind, name, raw):
    """One iteration z -> z' written out by hand, or None."""
    if name == "FPI":
        return lambda z, p, z0: raw(z, p)
    if name == "FPIdamp":
        return lambda z, p, z0: 0.3 * z + 0.7 * raw(z, p)
    if name in ("Newton", "NewtonNC"):
        return lambda z, p, z0: z - jnp.linalg.solve(jax.jacfwd(raw)(z, p), raw(z, p))
    if name == "Chord":
        return lambda z, p, z0: z - jnp.linalg.solve(jax.jacfwd(raw)(z0, p), raw(z, p))
    if name == "GradientDescent":
        return lambda z, p, z0: z - 0.1 * jax.grad(raw)(z, p)
    if name == "GaussNewton":
        def step(z, p, z0):
            J, r = jax.jacfwd(raw)(z, p), raw(z, p)
            return z - jnp.linalg.solve(J.T @ J, J.T @ r)

        return step


MAKE = {
    "OptaxPlain": lambda r, a: optx.OptaxMinimiser(optax.sgd(0.1), r, a),
    **C.ROOT, **C.FP, **C.LSQ, **C.MIN,
}


def unrolled_cell(kind, name, lay, budget, checkpoints, examples=8):
    """Solvers whose k-th returned value is the k-th (or, for solvers that only learn
    about a trial point in the following step, the (k-1)-th) hand-written iterate."""
    fam = C.Family(kind, lay)
    make = MAKE[name]
    step = hand(kind, "GradientDescent" if name == "OptaxPlain" else name, fam.raw)
    lag = 1 if name in ("GradientDescent", "GaussNewton") else 0
    holder = {}

    def build():
        def solve(y0, p, adjoint, tol):
            sol = C.ENTRY[kind](
                fam.fn, make(tol, tol), lay.unflat(y0), p, max_steps=budget,
                throw=False, adjoint=adjoint,
            )
            return lay.flat(sol.value), (V.rcode(sol.result), sol.stats["num_steps"])

        @eqx.filter_jit
        def run(y0, p, ct, tol):
            adj = optx.RecursiveCheckpointAdjoint(checkpoints)
            z, pull, info = jax.vjp(lambda y0, p: solve(y0, p, adj, tol), y0, p, has_aux=True)
            zi, infoi = solve(y0, p, optx.ImplicitAdjoint(), tol)
            return z, pull(ct), info, zi, infoi

        def unroll(k):
            @jax.jit
            def ref(y0, p, ct):
                def f(y0, p):
                    z = y0
                    for _ in range(k):
                        z = step(z, p, y0)
                    return z

                z, pull = jax.vjp(f, y0, p)
                return z, pull(ct)

            return ref

        return run, {k: unroll(k) for k in range(budget + 1)}

    def compare(d, e):
        if not holder:
            holder["x"] = build()
        run, unroll = holder["x"]
        p = fam.params(d)
        y0 = offset(fam.start(d, p, name), e)
        ct = np.array(d["ct"]) / 4.0
        tol = np.float64((1e-3, 1e-6, 1e-9)[d["tol"]])
        z, (gy, gp), info, zi, infoi = npt(lib(run, y0, p, ct, tol))
        check(close(z, zi) and info[0] == infoi[0] and info[1] == infoi[1],
              lambda: f"checkpointed {z, info}, implicit {zi, infoi}")
        k = int(info[1]) - lag
        if k < 0:
            return None
        rz, (ry, rp) = npt(unroll[k](y0, p, ct))
        check(close(z, rz, 1e-6, 1e-8), lambda: f"iterate {z}, by hand {rz}")
        check(close(gy, ry, 1e-5, 1e-7), lambda: f"derivative by y0 {gy}, by hand {ry}")
        for key in rp:
            check(close(gp[key], rp[key], 1e-5, 1e-7),
                  lambda: f"derivative by {key} {gp[key]}, by hand {rp[key]}")
        if not np.any(ct) or k == 0:
            return None
        return f"code {info[0]}"

    strat = st.builds(lambda d, e: dict(d, **e), fam.strategy, st.fixed_dictionaries(
        dict(ct=P.ints(lay.n, -4, 4), tol=st.integers(0, 2))))
    return Cell(f"{kind}/{name}/{lay.name}/k{budget}/c{checkpoints}", strat,
                robust(compare), examples)


def stepped_cell(kind, name, lay, budget, checkpoints, examples=5):
    """Any solver: against reverse-mode through its own public step function, unrolled."""
    fam = C.Family(kind, lay)
    make = MAKE[name]
    holder = {}

    def build():
        def fn(y, p):
            return fam.fn(y, p), None

        def solve(y0, p, adjoint):
            sol = C.ENTRY[kind](
                fam.fn, make(1e-13, 1e-13), lay.unflat(y0), p, max_steps=budget,
                throw=False, adjoint=adjoint,
            )
            return lay.flat(sol.value), sol.stats["num_steps"]

        @eqx.filter_jit
        def run(y0, p, ct):
            adj = optx.RecursiveCheckpointAdjoint(checkpoints)
            z, pull, n = jax.vjp(lambda y0, p: solve(y0, p, adj), y0, p, has_aux=True)

            def f(y0, p):
                solver = make(1e-13, 1e-13)
                y = lay.unflat(y0)
                cfn = eqx.filter_closure_convert(fn, y, p)
                fs, axs = cfn.out_struct
                state = solver.init(cfn, y, p, {}, fs, axs, frozenset())
                for _ in range(budget):
                    y, state, aux = solver.step(cfn, y, p, {}, state, frozenset())
                y, *_ = solver.postprocess(
                    cfn, y, aux, p, {}, state, frozenset(), optx.RESULTS.successful
                )
                return lay.flat(y)

            rz, rpull = jax.vjp(f, y0, p)
            return z, pull(ct), n, rz, rpull(ct)

        return run

    def compare(d, e):
        if not holder:
            holder["x"] = build()
        p = fam.params(d)
        y0 = offset(fam.start(d, p, name), e)
        ct = np.array(d["ct"]) / 4.0
        z, g, n, rz, rg = npt(lib(holder["x"], y0, p, ct))
        if n < budget:
            return None
        check(close(z, rz, 1e-6, 1e-8), lambda: f"value {z}, unrolled {rz}")
        # Solves at the limit of precision amplify rounding; judge the scale.
        check(close(g, rg, 1e-4, 1e-5), lambda: f"derivatives {g}, unrolled {rg}")
        return "stepped" if np.any(ct) else None

    strat = st.builds(lambda d, e: dict(d, ct=e), fam.strategy, P.ints(lay.n, -4, 4))
    return Cell(f"stepped/{kind}/{name}/{lay.name}/k{budget}/c{checkpoints}", strat,
                robust(compare), examples)


def agree_cell(kind, name, lay, examples=10):
    """At convergence of a quadratically convergent method both adjoints agree."""
    fam = C.Family(kind, lay)
    make = MAKE[name]
    holder = {}

    def build():
        def solve(y0, p, adjoint):
            sol = C.ENTRY[kind](fam.fn, make(1e-11, 1e-11), lay.unflat(y0), p,
                                throw=False, adjoint=adjoint, max_steps=64)
            return lay.flat(sol.value), V.rcode(sol.result)

        @eqx.filter_jit
        def run(y0, p, ct):
            out = []
            for adj in (optx.RecursiveCheckpointAdjoint(), optx.ImplicitAdjoint()):
                z, pull, code = jax.vjp(lambda p: solve(y0, p, adj), p, has_aux=True)
                out.append((z, pull(ct)[0], code))
            return out

        return run

    def judge(d):
        if not holder:
            holder["x"] = build()
        p = fam.params(d)
        ct = np.array(d["ct"]) / 4.0
        (z, g, c), (z2, g2, c2) = npt(lib(holder["x"], fam.start(d, p, name), p, ct))
        check(close(z, z2) and c == c2, "primal differs")
        if c != 0:
            return None
        if np.abs(fam.start(d, p, name) - p["c"]).max() < 1e-8:
            return None  # started at the solution: no iteration to differentiate
        check(close(g, g2, 1e-4, 1e-5), lambda: f"checkpointed {g}, implicit {g2}")
        return "agree" if np.any(ct) else None

    strat = st.builds(lambda d, e: dict(d, ct=e), fam.strategy, P.ints(lay.n, -4, 4))
    return Cell(f"agree/{kind}/{name}/{lay.name}", strat, judge, examples)


def cells(tier):
    L = P.LAYOUTS
    out = []
    plain = [("fp", "FPI"), ("fp", "FPIdamp"), ("root", "Newton"), ("root", "NewtonNC"),
             ("root", "Chord"), ("min", "GradientDescent"), ("min", "OptaxPlain"),
             ("lsq", "GaussNewton")]
    for kind, name in plain:
        for lay, k, c in (("scalar", 1, None), ("pair", 3, None), ("dict", 8, None),
                          ("pair", 8, 1), ("scalar", 7, 3), ("pair", 5, 20)):
            out.append(unrolled_cell(kind, name, L[lay], k, c))
    stepped = [("lsq", "LevenbergMarquardt"), ("lsq", "GN+Newton+Armijo"), ("min", "BFGS"),
               ("min", "DFPdirect"), ("min", "LBFGS"), ("min", "CG-polak_ribiere"),
               ("min", "OptaxAdam"), ("min", "BFGS+Newton+LTR"), ("root", "Newton"),
               ("root", "BestNewton"), ("fp", "BestFPI"), ("min", "BestOptax")]
    for kind, name in stepped:
        for k, c in ((2, None), (4, 2)):
            out.append(stepped_cell(kind, name, L["pair"], k, c))
    for kind, name in (("root", "Newton"), ("lsq", "GaussNewton")):
        for lay in ("scalar", "dict"):
            out.append(agree_cell(kind, name, L[lay]))
    return out
