"""C16: quasi-Newton approximations satisfy their defining equations.

The approximations are observed from outside: a descent of our own (public interface) is
put into the solver and writes down the operator it is given at every accepted point.
"""

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optimistix as optx
from hypothesis import strategies as st

from . import catalog as C, problems as P, solvers as V
from .common import Lazy, close, npt, offset, robust
from .core import Cell, check, lib
from .stepper import Stepper

STEPS = 9
FI = optx.FunctionInfo


class SpyState(eqx.Module):
    matrix: jax.Array
    y: jax.Array
    grad: jax.Array
    count: jax.Array


def ravel(tree):
    return jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(tree)])


class Spy(optx.AbstractDescent):
    """Steps along -M g, where M is the symmetric positive definite `pre`: the pairs it
    creates do not depend on the approximation being observed."""

    pre: jax.Array
    unravel: object = eqx.field(static=True)

    def init(self, y, f_info_struct):
        n = ravel(y).size
        z = jnp.zeros(n)
        return SpyState(jnp.zeros((n, n)), z, z, jnp.array(0))

    def query(self, y, f_info, state):
        if isinstance(f_info, FI.EvalGradHessian):
            op = f_info.hessian
        else:
            op = f_info.hessian_inv
        return SpyState(op.as_matrix(), ravel(y), ravel(f_info.grad), state.count + 1)

    def step(self, step_size, state):
        step = -step_size * (self.pre @ state.grad)
        return self.unravel(step), optx.RESULTS.successful


def spy_of(dyn):
    found = [
        x
        for x in jax.tree_util.tree_leaves(dyn, is_leaf=lambda x: isinstance(x, SpyState))
        if isinstance(x, SpyState)
    ]
    assert len(found) == 1
    return npt(found[0])


def bfgs_inv(H, s, y):
    r = 1 / (s @ y)
    E = np.eye(len(s)) - r * np.outer(s, y)
    return E @ H @ E.T + r * np.outer(s, s)


def dfp_inv(H, s, y):
    return H - np.outer(H @ y, H @ y) / (y @ H @ y) + np.outer(s, s) / (s @ y)


def bfgs_dir(B, s, y):
    return B - np.outer(B @ s, B @ s) / (s @ B @ s) + np.outer(y, y) / (s @ y)


def dfp_dir(B, s, y):
    r = 1 / (s @ y)
    E = np.eye(len(s)) - r * np.outer(y, s)
    return E @ B @ E.T + r * np.outer(y, y)


UPDATE = {
    ("BFGS", True): bfgs_inv, ("BFGS", False): bfgs_dir,
    ("DFP", True): dfp_inv, ("DFP", False): dfp_dir,
}


def reference(name, inverse, pairs, n, history):
    """The approximation after the given pairs (all with positive curvature)."""
    if name != "LBFGS":
        M = np.eye(n)
        for s, y in pairs:
            M = UPDATE[name, inverse](M, s, y)
        return M
    pairs = pairs[-history:]
    H = np.eye(n)
    if pairs:
        s, y = pairs[-1]
        H = (s @ y) / (y @ y) * np.eye(n)
    for s, y in pairs:
        H = bfgs_inv(H, s, y)
    return H if inverse else np.linalg.inv(H)


def objective(shape):
    def convex(z, p):
        e = z - p["c"]
        return 0.5 * e @ p["A"] @ e + 0.3 * jnp.sum(jnp.sqrt(1 + (p["W"] @ e) ** 2))

    def wavy(z, p):
        e = z - p["c"]
        return 0.1 * e @ p["A"] @ e + jnp.sum(jnp.sin(p["W"] @ e + 0.4))

    return dict(convex=convex, wavy=wavy)[shape]


def observe_cell(name, inverse, history, shape, search, lay, examples=12):
    n = lay.n
    f = objective(shape)
    holder = {}

    def build():
        unravel = lambda z: lay.unflat(z[lay.inv])  # raw leaf order -> tree

        def make(cfg):
            desc = Spy(cfg["pre"], unravel)
            srch = {
                "rate": lambda: optx.LearningRate(cfg["rate"]),
                "armijo": lambda: optx.BacktrackingArmijo(step_init=cfg["rate"] * 8),
            }[search]()
            if name == "LBFGS":
                return V.lbfgs(desc, srch, inverse, history)(0.0, 0.0)
            cls = dict(BFGS=V._BFGS, DFP=V._DFP)[name]
            return V.bfgs(desc, srch, inverse, cls=cls)(0.0, 0.0)

        fn = lambda y, p: (f(lay.flat(y), p), None)
        return Stepper(make, fn), jax.jit(jax.grad(f))

    def judge(d):
        if not holder:
            holder["x"] = build()
        stepper, gradf = holder["x"]
        p = dict(
            A=P.spd(n, d["A"]), c=np.array(d["c"]) / 4.0,
            W=P.rotation(n, d["w"]) * (0.5 + d["k"] / 10.0),
        )
        pre = P.spd(n, d["pre"])
        cfg = dict(pre=pre, rate=np.float64(d["rate"] / 16.0))
        z0 = np.array(d["y"]) / 4.0
        y, dyn, _, _ = lib(stepper.start, lay.np_unflat(z0), p, cfg)
        prev, pairs, labels = None, [], set()
        where = f"{name} ({'inverse' if inverse else 'direct'})"
        for i in range(STEPS):
            y, dyn, _, (_, code), _ = lib(stepper.step, y, dyn, p, cfg)
            if code:
                return None
            spy = spy_of(dyn)
            if prev is not None and spy.count == prev.count:
                labels.add("rejections")
                check(np.array_equal(spy.matrix, prev.matrix), f"{where}: changed on rejection")
                continue
            # the gradient handed over is the gradient at that point
            g = np.asarray(gradf(spy.y[lay.inv], p))[lay.perm]
            check(np.allclose(spy.grad, g, rtol=1e-9, atol=1e-9),
                  lambda: f"{where}: gradient {spy.grad} at {spy.y}, not {g}")
            if not np.all(np.abs(spy.y) < 1e3):
                return None
            if prev is not None:
                s, t = spy.y - prev.y, spy.grad - prev.grad
                inner = s @ t
                big = 1e-8 * (1 + np.linalg.norm(s) * np.linalg.norm(t))
                if abs(inner) < big or np.linalg.norm(s) < 1e-5:
                    return "+".join(sorted(labels)) or None
                if inner > 0:
                    pairs.append((s, t))
                    labels.add("positive")
                    # the equations degrade with the curvature of the pair
                    sharp = max(1.0, np.linalg.norm(s) * np.linalg.norm(t) / inner)
                else:
                    labels.add("skipped")
            else:
                s = None
            want = reference(name, inverse, pairs, n, history)
            M = spy.matrix
            scale = np.max(np.abs(want))
            cond = np.linalg.cond(want)
            if cond > 1e7:
                return "+".join(sorted(labels)) or None
            tol = 1e-9 * cond * scale + 1e-9
            check(
                np.max(np.abs(M - want)) <= tol,
                lambda: f"{where}, history {history}, after {len(pairs)} pairs "
                f"({i + 1} steps): got\n{M}\nthe textbook update gives\n{want}",
            )
            check(np.max(np.abs(M - M.T)) <= tol, lambda: f"{where}: not symmetric: {M}")
            eig = np.linalg.eigvalsh((M + M.T) / 2)
            check(eig[0] > 0, lambda: f"{where}: not positive definite: {eig}")
            if s is not None and inner > 0:
                a, b = (M @ t, s) if inverse else (M @ s, t)
                check(
                    np.linalg.norm(a - b) <= tol * 10 * (1 + np.linalg.norm(s) + np.linalg.norm(t)),
                    lambda: f"{where}: secant equation violated: {a} vs {b}",
                )
            prev = spy
        if history and len(pairs) > history:
            labels.add("history full")
        return "+".join(sorted(labels)) or None

    strat = st.fixed_dictionaries(
        dict(
            A=P.spd_data(n), c=P.vec(n, 8), w=P.angles(n), k=st.integers(0, 15),
            pre=P.spd_data(n, 10), rate=st.integers(2, 12), y=P.vec(n),
        )
    )
    form = "inverse" if inverse else "direct"
    nm = f"observe/{name}{history or ''}/{form}/{shape}/{search}/{lay.name}"
    return Cell(nm, strat, judge, examples)


def same_iterates_cell(name, makes, lay, mild, examples=10):
    """Direct and inverse variants generate the same iterates."""
    fam = C.Family("min", lay, mild=mild)
    budgets = (2, 4, 7, 12)

    def build():
        @eqx.filter_jit
        def run(y0, p):
            out = []
            for make in makes:
                vals = []
                for b in budgets:
                    sol = optx.minimise(
                        fam.fn, make(1e-7, 1e-7), lay.unflat(y0), p, max_steps=b, throw=False)
                    vals.append(lay.flat(sol.value))
                out.append(vals)
            return out

        return run

    fn = Lazy(build)

    def compare(d, e):
        p = fam.params(d)
        a, b = npt(lib(fn, offset(fam.start(d, p), e), p))
        for bud, x, z in zip(budgets, a, b):
            check(
                close(x, z, 1e-5, 1e-6),
                lambda: f"{name}: after {bud} steps direct and inverse forms are at {x} and {z}",
            )
        return "compared"

    tag = "mild" if mild else "quadratic"
    return Cell(f"iterates/{name}/{tag}/{lay.name}", fam.strategy, robust(compare), examples)


def cells(tier):
    L = P.LAYOUTS
    out = []
    lays = ("vec3", "pair", "dict", "vec2", "scalar", "none")
    i = 0
    for name, hist in (("BFGS", 0), ("DFP", 0), ("LBFGS", 1), ("LBFGS", 2), ("LBFGS", 3), ("LBFGS", 10)):
        for inverse in (True, False):
            for shape, search in (("convex", "rate"), ("wavy", "rate"), ("wavy", "armijo")):
                if name == "LBFGS" and hist in (1, 10) and search == "armijo":
                    continue
                out.append(observe_cell(name, inverse, hist, shape, search, L[lays[i % 6]]))
                i += 1
    for name, hist in (("BFGS", 0), ("DFP", 0), ("LBFGS", 4), ("LBFGS", 12)):
        for inverse in (True, False):
            out.append(observe_cell(name, inverse, hist, "wavy", "armijo" if hist else "rate", L["wide"]))
    pairs = {
        "BFGS": (V.QN["BFGS"], V.QN["BFGSdirect"]), "DFP": (V.QN["DFP"], V.QN["DFPdirect"]),
        "LBFGS": (V.QN["LBFGS"], V.QN["LBFGSdirect"]),
        "LBFGS2": (V.QN["LBFGS2"], V.QN["LBFGSdirect2"]),
        # a long history is plain BFGS up to the initial scaling: only self-compared
    }
    for name, makes in pairs.items():
        out.append(same_iterates_cell(name, makes, L["pair"], False))
        out.append(same_iterates_cell(name, makes, L["vec3"], True))
    return out
