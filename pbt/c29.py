"""C29: solves compose with jit, closures, control flow and one another."""

import copy
import functools as ft

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optimistix as optx
from hypothesis import strategies as st

from . import catalog as C, problems as P, solvers as V
from .common import Lazy, close, npt, offset, robust, same
from .core import Cell, check, lib

tmap = jax.tree_util.tree_map
leaves = jax.tree_util.tree_leaves


class Callable(eqx.Module):
    fam: object = eqx.field(static=True)
    shift: object
    fixed: object = None

    def __call__(self, y, p):
        p = self.fixed if p is None else p
        return tmap(lambda x: x + 0 * self.shift, self.fam.fn(y, p))

    def method(self, y, p):
        return self(y, p)


class Plain:
    def __init__(self, fam):
        self.fam = fam

    def method(self, y, p):
        return self.fam.fn(y, p)


def ways(fam, entry, mk, budget):
    """name -> function of (y0, p, rtol, atol) giving a summary."""

    def call(fn, y0, p, r, a, **kw):
        return V.summary(entry(fn, mk(r, a), y0, p, max_steps=budget, throw=False, **kw))

    plain = lambda y0, p, r, a: call(fam.fn, y0, p, r, a)

    def closure(y0, p, r, a):
        return call(lambda y, _: fam.fn(y, p), y0, None, r, a)

    def scan(y0, p, r, a):
        # a sequence of solves, the wanted one second; the others start elsewhere
        def body(c, s):
            out = plain(tmap(lambda x: x + s, y0), p, r, a)
            return c + 1, out

        _, outs = jax.lax.scan(body, 0, jnp.array([0.25, 0.0, -0.1]))
        return tmap(lambda x: x[1], outs)

    def cond(y0, p, r, a):
        q = leaves(p)[0].ravel()[0]
        far = tmap(lambda x: x + 1.0, y0)
        return jax.lax.cond(q == q, lambda: plain(y0, p, r, a), lambda: plain(far, p, r, a))

    def fori(y0, p, r, a):
        first = tmap(jnp.zeros_like, eqx.filter_eval_shape(plain, y0, p, r, a))
        first = tmap(lambda x: jnp.zeros(x.shape, x.dtype), first)
        return jax.lax.fori_loop(0, 2, lambda i, c: plain(y0, p, r, a), first)

    def partial(y0, p, r, a):
        return call(ft.partial(lambda k, y, q: fam.fn(y, q[0]), 3), y0, (p, "static"), r, a)

    def eqx_partial(y0, p, r, a):
        return call(eqx.Partial(lambda q, y, _: fam.fn(y, q), p), y0, None, r, a)

    def jax_partial(y0, p, r, a):
        return call(jax.tree_util.Partial(lambda q, y, _: fam.fn(y, q), p), y0, None, r, a)

    def module(y0, p, r, a):
        return call(Callable(fam, jnp.array(1.0), p), y0, None, r, a)

    def method(y0, p, r, a):
        return call(Callable(fam, jnp.array(1.0)).method, y0, p, r, a)

    def bound(y0, p, r, a):
        return call(Plain(fam).method, y0, p, r, a)

    def jitted(y0, p, r, a):
        return call(jax.jit(fam.fn), y0, p, r, a)

    def filter_jitted(y0, p, r, a):
        return call(eqx.filter_jit(lambda y, q: fam.fn(y, q[0])), y0, (p, fam.fn), r, a)

    def remat(y0, p, r, a):
        return call(jax.checkpoint(fam.fn), y0, p, r, a)

    def with_aux(y0, p, r, a):
        return call(lambda y, q: (fam.fn(y, q), dict(s=leaves(y)[0] * 2, t=None)), y0, p, r, a,
                    has_aux=True)

    def in_solver(y0, p, r, a):
        # tolerances as traced arrays rather than numbers
        return call(fam.fn, y0, p, jnp.asarray(r), jnp.asarray(a))

    def nested_jit(y0, p, r, a):
        return jax.jit(lambda: jax.jit(plain)(y0, p, r, a))()

    return dict(closure=closure, scan=scan, cond=cond, fori=fori, partial=partial,
                eqx_partial=eqx_partial, jax_partial=jax_partial, module=module, method=method,
                bound=bound, jitted=jitted, filter_jitted=filter_jitted, remat=remat,
                with_aux=with_aux, in_solver=in_solver, nested_jit=nested_jit), plain


def way_cell(kind, name, make, lay, names, eager=False, budget=30, examples=4):
    fam = C.Family(kind, lay)
    alt, plain = ways(fam, C.ENTRY[kind], make, budget)
    ref = Lazy(lambda: jax.jit(plain))
    others = {w: Lazy(lambda w=w: jax.jit(alt[w])) for w in names}
    if eager:
        others["eager"] = Lazy(lambda: plain)
        others["eager-closure"] = Lazy(lambda: alt["closure"])

    def judge(d, e):
        p = fam.params(d["base"])
        y0 = lay.np_unflat(offset(fam.start(d["base"], p, name), e))
        tol = np.float64(10.0 ** -d["tol"])
        a = npt(lib(ref, y0, p, tol, tol))
        for w, fn in others.items():
            b = npt(lib(fn, y0, p, tol, tol))
            ok = close(a["value"], b["value"], 1e-8, 1e-9) and (
                int(a["code"]) == int(b["code"]) and int(a["steps"]) == int(b["steps"]))
            check(ok, lambda: f"{name} called as {w}: {b}; plainly jitted {a}")
        return ["success", "budget", "diverged", "nonfinite", "other"][int(a["code"])]

    tag = "eager" if eager else "+".join(n[:4] for n in names)
    return Cell(f"{kind}/{name}/{tag}/{lay.name}", st.fixed_dictionaries(
        dict(base=fam.strategy, tol=st.integers(3, 7))), robust(judge), examples)


def reuse_cell(kind, name, make, lay, examples=3):
    """Inputs, solver, function and options come out of a solve as they went in, and
    solving again, with other problems in between, gives the same answer."""
    fam = C.Family(kind, lay)
    options = dict(autodiff_mode="bwd") if kind == "min" else {}
    if kind == "lsq":
        options = dict(jac="fwd")
    held = {}

    def judge(d):
        p = fam.params(d["base"])
        y0 = lay.np_unflat(fam.start(d["base"], p, name))
        if "solver" not in held:
            held.update(solver=make(1e-5, 1e-5), fn=Callable(fam, np.array(1.0)), first=None)
            held["before"] = copy.deepcopy((leaves(held["solver"]), leaves(held["fn"])))
            held["treedef"] = jax.tree_util.tree_structure((held["solver"], held["fn"]))

        def go(y0, p):
            mine = dict(options)
            keep = copy.deepcopy((y0, p))
            sol = lib(C.ENTRY[kind], held["fn"], held["solver"], y0, p, options=mine, max_steps=12,
                      throw=False)
            check(same(keep[0], y0) and same(keep[1], p), f"{name}: inputs changed by the solve")
            check(mine == options, lambda: f"{name}: options changed to {mine}")
            return npt(V.summary(sol))

        out = go(y0, p)
        if held["first"] is None:
            held["first"] = (y0, p, out)
        y1, p1, was = held["first"]
        now = go(y1, p1)
        check(close(was, now, 0, 0) or same(was, now), lambda: f"{name}: {was}, later {now}")
        after = (leaves(held["solver"]), leaves(held["fn"]))
        check(len(after[0]) == len(held["before"][0]) and all(
            np.array_equal(np.asarray(x), np.asarray(y)) if hasattr(x, "shape") else x == y or x is y
            for x, y in zip(leaves(held["before"]), leaves(after))), f"{name}: solver changed")
        check(jax.tree_util.tree_structure((held["solver"], held["fn"])) == held["treedef"],
              f"{name}: solver structure changed")
        return "same"

    return Cell(f"reuse/{kind}/{name}/{lay.name}", st.fixed_dictionaries(dict(base=fam.strategy)),
                judge, examples)


# Inner problems with a closed-form solution h = 0.5*tanh(y*k) + tanh(s), elementwise.
def closed(z, q):
    return 0.5 * jnp.tanh(z * q["k"]) + jnp.tanh(q["s"])


def gentle(x):
    return x + 0.3 * jnp.sin(x)


def inner(kind, adjoint=None):
    kw = {} if adjoint is None else dict(adjoint=adjoint)

    def solve(z, q):
        tol = 1e-11
        start = jnp.zeros_like(z) + 0.1
        if kind == "root":
            fn = lambda x, a: gentle(x) - gentle(closed(*a))
            sol = optx.root_find(fn, optx.Newton(tol, tol), start, (z, q), max_steps=60, **kw)
        elif kind == "fp":
            fn = lambda x, a: closed(*a) + 0.2 * jnp.sin(x - closed(*a))
            sol = optx.fixed_point(fn, optx.FixedPointIteration(tol, tol), start, (z, q),
                                   max_steps=60, **kw)
        elif kind == "lsq":
            fn = lambda x, a: dict(u=gentle(x) - gentle(closed(*a)))
            sol = optx.least_squares(fn, optx.LevenbergMarquardt(tol, tol), start, (z, q),
                                     max_steps=200, **kw)
        elif kind == "bisect":
            def one(zi, si):
                fn = lambda x, a: gentle(x) - gentle(closed(*a))
                return optx.root_find(fn, optx.Bisection(1e-13, 1e-13), 0.1,
                                      (zi, dict(k=q["k"], s=si)),
                                      options=dict(lower=-3.0, upper=3.3), max_steps=80, **kw).value

            return jax.vmap(one)(z, q["s"])
        else:
            # quasi-Newton methods reach half the digits, so polish is left to the tolerance
            fn = lambda x, a: jnp.sum(0.5 * (x - closed(*a)) ** 2)
            sol = optx.minimise(fn, optx.BFGS(tol, tol), start, (z, q), max_steps=200, **kw)
        return sol.value

    return solve


def nested_cell(kind, name, make, lay, inside, mode, grad, examples=3):
    """An outer solve whose function solves an inner problem, against the same outer
    solve with the inner solution written out."""
    fam = C.Family(kind, lay)

    def build(h):
        def fn(y, a):
            p, q = a
            z = lay.flat(y)
            if kind == "fp":
                w = fam.raw(z + 0.1 * (h(z, q) - closed(jnp.zeros_like(z), q)), p)
                return lay.unflat(w)
            if kind == "min":
                return fam.raw(z, p) + 0.1 * jnp.sum((h(z, q) - 1.0) ** 2)
            r = fam.raw(z, p)
            extra = 0.1 * h(z, q)
            extra = jnp.concatenate([extra, jnp.zeros(r.size - extra.size)])
            return fam.out.unflat(r + extra)

        def solve(y0, p, q, tol):
            return C.ENTRY[kind](fn, make(tol, tol), y0, (p, q), max_steps=60, throw=False)

        if not grad:
            return jax.jit(lambda y0, p, q, w: V.summary(solve(y0, p, q, 1e-5)))

        def loss(y0, pq, w):
            sol = solve(y0, *pq, 1e-9)
            return jnp.sum(lay.flat(sol.value) * w), V.rcode(sol.result)

        if mode == "rev":
            return jax.jit(lambda y0, p, q, w: jax.value_and_grad(
                lambda pq: loss(y0, pq, w), has_aux=True)((p, q)))

        def forward(y0, p, q, w):
            t = tmap(jnp.ones_like, (p, q))
            (v, c), (dv, _) = jax.jvp(lambda pq: loss(y0, pq, w), ((p, q),), (t,))
            return (v, c), dv

        return jax.jit(forward)

    a, b = Lazy(lambda: build(inner(inside))), Lazy(lambda: build(closed))

    def judge(d, e):
        p = fam.params(d["base"])
        y0 = lay.np_unflat(offset(fam.start(d["base"], p, name), e))
        q = dict(k=np.float64(d["k"]), s=np.array(d["s"], float) / 2)
        w = np.array(d["w"], float)
        x, y = (npt(lib(f, y0, p, q, w)) for f in (a, b))
        here = lambda: f"{name} around a nested {inside} solve: {x}; with its closed form {y}"
        if not grad:
            # the inner solve is exact to 1e-13 or so, which may decide whether a search
            # accepts a step that hardly moves
            converged = kind in ("min", "lsq") and int(x["code"]) == int(y["code"]) == 0
            check(converged or (int(x["steps"]) == int(y["steps"])
                                and int(x["code"]) == int(y["code"])), here)
            check(close(x["value"], y["value"], 1e-6, 1e-6), here)
            return "solve"
        if int(x[0][1]) != 0 or int(y[0][1]) != 0:
            return None
        check(close(x[0][0], y[0][0], 1e-5, 1e-6) and close(x[1], y[1], 1e-4, 1e-5), here)
        return "grad"

    tag = mode if grad else "solve"
    return Cell(f"nested/{kind}/{name}/{inside}/{tag}/{lay.name}", st.fixed_dictionaries(
        dict(base=fam.strategy, k=st.sampled_from([0.5, 1.0, -0.7, 0.3]), s=P.vec(lay.n),
             w=P.vec(lay.n))), robust(judge), examples)


def second_cell(kind, name, make, lay, examples=4):
    """Second derivatives through a solve equal derivatives of the exact first ones
    (for a solve with a closed-form solution)."""

    def h(q):
        return closed(jnp.ones(lay.n), q)

    def solve(q):
        H = lambda: h(q)
        if kind == "root":
            sol = optx.root_find(lambda y, a: lay.unflat(gentle(lay.flat(y)) - gentle(H())),
                                 make(1e-11, 1e-11), lay.unflat(jnp.full(lay.n, 0.1)), max_steps=100)
        elif kind == "fp":
            sol = optx.fixed_point(
                lambda y, a: lay.unflat(H() + 0.2 * jnp.sin(lay.flat(y) - H())),
                make(1e-11, 1e-11), lay.unflat(jnp.full(lay.n, 0.1)), max_steps=100)
        elif kind == "lsq":
            sol = optx.least_squares(
                lambda y, a: dict(u=gentle(lay.flat(y)) - gentle(H())),
                make(1e-11, 1e-11), lay.unflat(jnp.full(lay.n, 0.1)), max_steps=300)
        else:
            sol = optx.minimise(lambda y, a: jnp.sum(jnp.cosh(lay.flat(y) - H())),
                                make(1e-11, 1e-11), lay.unflat(jnp.full(lay.n, 0.1)), max_steps=300)
        return lay.flat(sol.value)

    def build(f):
        def loss(q, w):
            return jnp.sum(jnp.sin(f(q)) * w)

        return jax.jit(lambda q, w: (jax.hessian(loss)(q, w),
                                     jax.jacrev(jax.grad(loss))(q, w)))

    a, b = Lazy(lambda: build(solve)), Lazy(lambda: build(h))

    def judge(d):
        q = dict(k=np.float64(d["k"]), s=np.array(d["s"], float) / 2)
        w = np.array(d["w"], float)
        x, y = (npt(lib(f, q, w)) for f in (a, b))
        check(close(x, y, 1e-4, 1e-5), lambda: f"{name}: second derivatives {x}, exact {y}")
        return "second"

    return Cell(f"second/{kind}/{name}/{lay.name}", st.fixed_dictionaries(
        dict(k=st.sampled_from([0.5, 1.0, -0.7, 0.3]), s=P.vec(lay.n), w=P.vec(lay.n))),
        judge, examples)


def cells(tier):
    L = P.LAYOUTS
    lays = ("pair", "vec2", "dict", "vec3", "none", "scalar")
    out = []
    i = 0

    def lay(name=""):
        nonlocal i
        i += 1
        if "NelderMead" in name or "NM" in name:
            return L[("scalars2", "scalars3")[i % 2]]
        return L[lays[i % 6]]

    groups = [("closure", "scan", "partial"), ("cond", "eqx_partial", "remat"),
              ("fori", "module", "with_aux"), ("jax_partial", "bound", "in_solver"),
              ("method", "jitted", "filter_jitted", "nested_jit")]
    for k, (kind, name, make) in enumerate(C.everything()):
        light = kind in ("root", "fp") or "+" not in name
        mine = groups if tier != "quick" else [groups[(2 * k) % 5], groups[(2 * k + 1) % 5]][: 1 + light]
        for g in mine:
            out.append(way_cell(kind, name, make, lay(name), g, examples=4))
    for kind, name in (("root", "Newton"), ("fp", "FPI"), ("lsq", "LevenbergMarquardt"),
                       ("lsq", "Dogleg"), ("min", "BFGS"), ("min", "NelderMead"), ("min", "LBFGS"),
                       ("min", "GradientDescent"), ("min", "OptaxAdam")):
        out.append(way_cell(kind, name, C.SOLVERS[kind][name], lay(name), (), eager=True, examples=1))
        out.append(reuse_cell(kind, name, C.SOLVERS[kind][name], lay(name), examples=1))
    outer = [("root", "Newton"), ("root", "Chord"), ("fp", "FPI"), ("lsq", "LevenbergMarquardt"),
             ("lsq", "Dogleg"), ("min", "BFGS"), ("min", "LBFGS")]
    inside = ("root", "fp", "lsq", "min", "bisect")
    small = ("vec2", "scalar", "pair")
    for k, (kind, name) in enumerate(outer):
        mk = C.SOLVERS[kind][name]
        for m, ins in enumerate(inside):
            ly = L[small[(k + m) % 3]]
            out.append(nested_cell(kind, name, mk, ly, ins, "", False, examples=2))
            mode = ("rev", "fwd")[(k + m) % 2]
            if name not in ("Chord", "LBFGS"):
                out.append(nested_cell(kind, name, mk, ly, ins, mode, True, examples=2))
    for kind, name in (("root", "Newton"), ("root", "Chord"), ("fp", "FPI"),
                       ("lsq", "LevenbergMarquardt"), ("min", "BFGS"), ("min", "LBFGS")):
        out.append(second_cell(kind, name, C.SOLVERS[kind][name], lay(), examples=3))
    return out
