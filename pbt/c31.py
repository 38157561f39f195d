"""C31: complex holomorphic problems are solved as their real and imaginary parts would be."""

import warnings

import jax
import jax.numpy as jnp
import lineax as lx
import numpy as np
import optimistix as optx
from hypothesis import strategies as st

from . import problems as P, solvers as V
from .common import Lazy, close, npt, offset, robust
from .core import Cell, check, lib

tmap = jax.tree_util.tree_map
L = {k: P.Layout(k, v) for k, v in dict(
    scalar=P.S(), vec2=P.S(2), vec3=P.S(3), pair=(P.S(), P.S(2)), dict={"b": P.S(1), "a": [P.S(1, 2), None]},
).items()}
for lay in L.values():
    lay.dtype = jnp.complex128

SOLVERS = {
    "Newton": ("root", lambda r, a, m: optx.Newton(r, a, norm=m)),
    "NewtonNC": ("root", lambda r, a, m: optx.Newton(r, a, norm=m, cauchy_termination=False)),
    "NewtonLU": ("root", lambda r, a, m: optx.Newton(r, a, norm=m, linear_solver=lx.LU())),
    "Chord": ("root", lambda r, a, m: optx.Chord(r, a, norm=m)),
    "ChordNC": ("root", lambda r, a, m: optx.Chord(r, a, norm=m, cauchy_termination=False)),
    "FPI": ("fp", lambda r, a, m: optx.FixedPointIteration(r, a, norm=m)),
    "FPIdamp": ("fp", lambda r, a, m: optx.FixedPointIteration(r, a, norm=m, damp=0.25)),
}


def problem(kind, shape):
    """Holomorphic in z; p is real."""

    def curve(e):
        if shape == "cubic":
            return e + 0.2 * e**2 + 0.1j * e**3
        if shape == "sin":
            return e + 0.25 * jnp.sin(e)
        return e + 0.15 * jnp.exp(0.5 * e) - 0.15

    def fn(z, p):
        e = z - (p["c"] + 1j * p["d"])
        M = p["A"] + 1j * p["B"]
        if kind == "root":
            return M @ curve(e)
        return p["c"] + 1j * p["d"] + 0.35 * (M / 3) @ curve(e)

    return fn


def params(n, d):
    A = np.asarray(d["A"], float).reshape(n, n) / 16
    B = np.asarray(d["B"], float).reshape(n, n) / 16
    # diagonally dominant
    s = 1 + np.abs(A).sum(1) + np.abs(B).sum(1)
    return dict(A=(A + np.diag(s)) / s[:, None] * 1.3, B=B / s[:, None], c=np.asarray(d["c"], float) / 8,
                d=np.asarray(d["d"], float) / 8)


def strategy(n):
    return dict(A=P.vec(n * n, 8), B=P.vec(n * n, 8), c=P.vec(n, 8), d=P.vec(n, 8), u=P.vec(n, 6),
                v=P.vec(n, 6))


def start(d):
    return (np.asarray(d["c"]) / 8 + np.asarray(d["u"]) / 16.0,
            np.asarray(d["d"]) / 8 + np.asarray(d["v"]) / 16.0)


def solves(kind, make, shape, lay, norm, **kw):
    f = problem(kind, shape)
    entry = optx.root_find if kind == "root" else optx.fixed_point

    def whole(yr, yi, p, r, a):
        fn = lambda y, q: lay.unflat(f(lay.flat(y), q))
        sol = entry(fn, make(r, a, norm), lay.unflat(yr + 1j * yi), p, throw=False, **kw)
        z = lay.flat(sol.value)
        return dict(V.summary(sol), value=(z.real, z.imag)), sol.value

    def split(yr, yi, p, r, a):
        def fn(y, q):
            z = f(y[0] + 1j * y[1], q)
            return z.real, z.imag

        sol = entry(fn, make(r, a, norm), (yr, yi), p, throw=False, **kw)
        return V.summary(sol)

    return whole, split


def solve_cell(name, shape, lay, budget, batch=False, examples=10):
    kind, make = SOLVERS[name]
    whole, split = solves(kind, make, shape, lay, optx.two_norm, max_steps=budget)

    def run(yr, yi, p, r, a):
        if not batch:
            return whole(yr, yi, p, r, a)[0]
        s = jnp.array([0.3, 0.0, -0.2])
        out = jax.vmap(lambda s: whole(yr + s, yi - s, p, r, a)[0])(s)
        return tmap(lambda x: x[1], out)

    A, B = Lazy(lambda: jax.jit(run)), Lazy(lambda: jax.jit(split))

    def judge(d, e):
        p = params(lay.n, d)
        yr, yi = start(d)
        yr = offset(yr, e)
        # a relative scale would be taken per coordinate, which differs between the two
        r, a = np.float64(1e-15), np.float64(10.0 ** -d["a"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            x = npt(lib(A, yr, yi, p, r, a))
            y = npt(lib(B, yr, yi, p, r, a))
        ok = int(x["code"]) == int(y["code"]) and int(x["steps"]) == int(y["steps"])
        check(ok and close(x["value"], y["value"], 1e-8, 1e-9),
              lambda: f"{name}: complex {x}, real and imaginary parts {y}")
        if int(x["code"]) == 0 and d["a"] >= 5:
            z = np.stack(x["value"])
            err = np.max(np.abs(z - np.stack([p["c"], p["d"]]))) if shape != "exp" else 0.0
            check(err < 1e-2, lambda: f"{name}: success at distance {err}")
        return ["success", "budget", "diverged", "nonfinite", "other"][int(x["code"])]

    return Cell(f"solve/{name}/{shape}/{lay.name}/{budget}" + ("/batch" if batch else ""),
                st.fixed_dictionaries(dict(strategy(lay.n), a=st.integers(2, 8))),
                robust(judge), examples)


NORMS = {
    "max": (optx.max_norm, lambda v: np.max(np.abs(v))),
    "rms": (optx.rms_norm, lambda v: np.sqrt(np.mean(np.abs(v) ** 2))),
    "two": (optx.two_norm, lambda v: np.sqrt(np.sum(np.abs(v) ** 2))),
}


def stop_cell(name, nname, shape, lay, examples=12):
    """Stops at the step at which the moduli of the changes come within tolerance."""
    kind, make = SOLVERS[name]
    jnorm, norm = NORMS[nname]
    f = problem(kind, shape)
    whole, _ = solves(kind, make, shape, lay, jnorm, max_steps=60)
    run = Lazy(lambda: jax.jit(lambda *a: whole(*a)[0]))
    raw = Lazy(lambda: jax.jit(lambda z, p: (f(z, p), jax.jacfwd(
        lambda z: f(z, p), holomorphic=True)(z))))

    def judge(d):
        p = params(lay.n, d)
        yr, yi = start(d)
        z = yr + 1j * yi + 3e-4
        r, a = 10.0 ** -d["r"], 10.0 ** -d["a"]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = npt(lib(run, z.real, z.imag, p, np.float64(r), np.float64(a)))
        jac = None
        for i in range(60):
            v, J = npt(raw(z, p))
            if kind == "fp":
                damp = 0.25 if name == "FPIdamp" else 0.0
                new = (1 - damp) * v + damp * z
                worst = norm((new - z) / (a + r * np.abs(new)))
            else:
                jac = J if jac is None or name == "Newton" else jac
                new = z - np.linalg.solve(jac, v)
                worst = max(norm((new - z) / (a + r * np.abs(z))), norm(v / a))
            if abs(worst - 1) < 1e-6:
                return None
            z = new
            if worst < 1:
                break
        else:
            return None
        check(int(out["code"]) == 0 and int(out["steps"]) == i + 1
              and close(out["value"], (z.real, z.imag), 1e-7, 1e-8),
              lambda: f"{name} ({nname} norm), rtol {r}, atol {a}: {out}, expected {z} after {i + 1}")
        return f"{min(i + 1, 9)} steps"

    return Cell(f"stop/{name}/{nname}/{lay.name}", st.fixed_dictionaries(
        dict(strategy(lay.n), r=st.integers(0, 6), a=st.integers(1, 8))), judge, examples)


def blow_cell(name, which, examples=6):
    """An iterate that stops being finite, in either part, is reported."""
    kind, make = SOLVERS[name]
    entry = optx.root_find if kind == "root" else optx.fixed_point

    def run(k, w):
        def fn(y, _):
            bad = jnp.where(w == 0, jnp.nan, jnp.where(w == 1, jnp.inf, -jnp.inf))
            bad = jnp.where(jnp.abs(y["a"]) > k, bad, 0.0)
            g = 0.5 * y["a"] - 1.0  # moves away step by step
            if which == "imag":
                g = jax.lax.complex(g.real, g.imag + bad)
            else:
                g = jax.lax.complex(g.real + bad, g.imag)
            if kind == "fp":
                g = y["a"] + 1.0 + (g - 0.5 * y["a"] + 1.0)
            return dict(a=g, b=0.5 * y["b"])

        y0 = dict(a=jnp.asarray(0j), b=jnp.asarray([0.1 + 0.2j]))
        sol = entry(fn, make(1e-6, 1e-6, optx.max_norm), y0, max_steps=20, throw=False)
        return V.summary(sol)

    fn = Lazy(lambda: jax.jit(run))

    def judge(d):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = npt(lib(fn, np.float64(d["k"] / 4), np.asarray(d["w"])))
        finite = all(np.all(np.isfinite(x)) for x in jax.tree_util.tree_leaves(out["value"]))
        check(finite or int(out["code"]) != 0, lambda: f"{name}: success with {out['value']}")
        if not finite:
            check(int(out["code"]) in (1, 2, 3, 4) and int(out["steps"]) < 20,
                  lambda: f"{name}: carried on to {out['steps']} steps with {out['value']}")
        return "nonfinite" if not finite else None

    return Cell(f"blow/{name}/{which}", st.fixed_dictionaries(
        dict(k=st.integers(0, 24), w=st.integers(0, 2))), judge, examples)


def grad_cell(name, shape, lay, mode, examples=5):
    kind, make = SOLVERS[name]
    whole, split = solves(kind, make, shape, lay, optx.two_norm, max_steps=200)
    zero = jnp.zeros(lay.n)

    def diff(f):
        def loss(p, w, yr, yi):
            v = f(yr, yi, p, 1e-11, 1e-11)
            v = v[0] if isinstance(v, tuple) else v
            re, im = v["value"]
            return jnp.sum(w * jnp.sin(re)) + jnp.sum(jnp.flip(w) * im) + re[0] * im[-1]

        if mode == "rev":
            return jax.jit(jax.grad(loss))
        return jax.jit(jax.jacfwd(loss))

    A, B = Lazy(lambda: diff(whole)), Lazy(lambda: diff(split))

    def judge(d):
        p = params(lay.n, d)
        yr, yi = start(d)
        w = np.asarray(d["w"], float)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            x, y = npt(lib(A, p, w, yr, yi)), npt(lib(B, p, w, yr, yi))
        check(close(x, y, 1e-6, 1e-7), lambda: f"{name} {mode}: derivative {x}, by parts {y}")
        return mode

    return Cell(f"grad/{name}/{shape}/{lay.name}/{mode}", st.fixed_dictionaries(
        dict(strategy(lay.n), w=P.vec(lay.n))), judge, examples)


def warn_cell(name, examples=6):
    kind, make = SOLVERS[name]
    entry = optx.root_find if kind == "root" else optx.fixed_point

    def judge(d):
        c = d["c"] / 8.0
        mk = make(1e-3, 1e-3, optx.max_norm)
        for y0, expect in ((np.asarray(c + 0.1), False), (np.asarray(c + 0.1 + 0.1j), True)):
            y0 = {"s": y0, "t": np.asarray(0.1 * y0)} if d["tree"] else y0
            fn = (lambda y, a: tmap(lambda x: 0.5 * (x - c) if kind == "root" else c + 0.5 * (x - c), y))
            with warnings.catch_warnings(record=True) as got:
                warnings.simplefilter("always")
                lib(entry, fn, mk, y0, max_steps=30, throw=False)
            seen = any("complex" in str(w.message).lower() for w in got)
            check(seen == expect, lambda: f"{name}, start {y0}: warned {[str(w.message) for w in got]}")
        return "tree" if d["tree"] else "leaf"

    return Cell(f"warn/{name}", st.fixed_dictionaries(
        dict(c=st.integers(-8, 8), tree=st.booleans())), judge, examples)


def norm_cell(lay, examples=30):
    fns = Lazy(lambda: jax.jit(lambda y: (optx.two_norm(y), optx.rms_norm(y), optx.max_norm(y))))

    def judge(d):
        z = (np.asarray(d["c"]) + 1j * np.asarray(d["d"])) * 10.0 ** d["k"]
        got = npt(lib(fns, lay.np_unflat(z)))
        m = np.abs(z)
        exp = np.sqrt(np.sum(m**2)), np.sqrt(np.mean(m**2)), np.max(m)
        check(close(got, exp, 1e-12, 0) and all(np.isrealobj(x) for x in got),
              lambda: f"norms of {z}: {got}, expected {exp}")
        return "zero" if not np.any(z) else "norm"

    return Cell(f"norm/{lay.name}", st.fixed_dictionaries(
        dict(c=P.vec(lay.n), d=P.vec(lay.n), k=st.integers(-6, 6))), judge, examples)


def info_cell(lay, examples=15):
    """Objective and gradient of a complex residual."""
    FI = optx.FunctionInfo

    def run(y, p):
        f = problem("root", "cubic")
        r = lambda z: lay.unflat(f(lay.flat(z), p))
        jac = lx.JacobianLinearOperator(lambda z, _: r(z), y)
        jac = lx.linearise(jac)
        a = FI.ResidualJac(r(y), jac)
        value, grad = jax.value_and_grad(
            lambda z: 0.5 * sum(jnp.sum(jnp.abs(x) ** 2) for x in jax.tree_util.tree_leaves(r(z))))(y)
        return (a.as_min(), FI.Residual(r(y)).as_min()), a.compute_grad(), value, grad

    fn = Lazy(lambda: jax.jit(run))

    def judge(d):
        p = params(lay.n, d)
        yr, yi = start(d)
        (m1, m2), g, value, grad = npt(lib(fn, lay.np_unflat(yr + 1j * yi), p))
        check(close((m1, m2), (value, value), 1e-10, 1e-12) and np.isrealobj(m1),
              lambda: f"value {m1}, {m2}, expected {value}")
        check(close(g, grad, 1e-9, 1e-11), lambda: f"gradient {g}, expected {grad}")
        return "info"

    return Cell(f"info/{lay.name}", st.fixed_dictionaries(strategy(lay.n)), judge, examples)


def cells(tier):
    out = []
    names = list(L)
    shapes = ("cubic", "sin", "exp")
    i = 0
    for name in SOLVERS:
        for budget in ((60, 2) if tier == "quick" else (60, 1, 2, 3, 5)):
            out.append(solve_cell(name, shapes[i % 3], L[names[i % 5]], budget, batch=i % 3 == 2))
            i += 1
        for mode in ("rev", "fwd"):
            out.append(grad_cell(name, shapes[i % 3], L[names[i % 5]], mode))
            i += 1
        out.append(warn_cell(name, 3))
        for w in ("real", "imag"):
            out.append(blow_cell(name, w, 4))
    for name in ("Newton", "Chord", "FPI", "FPIdamp"):
        for nname in NORMS:
            out.append(stop_cell(name, nname, shapes[i % 3], L[names[i % 5]]))
            i += 1
    for lay in L.values():
        out.append(norm_cell(lay))
        out.append(info_cell(lay))
    return out
