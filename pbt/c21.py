"""C21: compat.minimize returns a consistent result."""

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optimistix as optx
from hypothesis import strategies as st
from optimistix import compat

from . import catalog as C, problems as P, rough, solvers as V
from .common import Lazy, close, npt
from .core import Cell, check, lib, raises

ITERS = ((1, 4, None), (2, 15), (3, 60), (6, 9, None))
NORMS = {"default": None, "max": optx.max_norm, "rms": optx.rms_norm, "two": optx.two_norm,
         "own": lambda x: jnp.sum(jnp.abs(x))}
ARGS = ("none", "one", "two", "tree")


def split(kind, p, fn):
    """The objective as fun(x, *args) together with its args tuple."""
    if kind == "none":
        return (lambda x: fn(x, p)), lambda p: ()
    if kind == "one":
        return (lambda x, q: fn(x, q)), lambda p: (p,)
    if kind == "two":
        return (lambda x, a, q: fn(x, q) * a), lambda p: (jnp.array(1.0), p)
    return (lambda x, q, *more: fn(x, q["p"][0]) + 0 * more[1]), (
        lambda p: (dict(p=(p, None)), "label", jnp.array(2.0)))


def convex(n):
    fam = C.Family("min", P.LAYOUTS[f"vec{n}"])
    return fam.strategy, fam.params, P.start, fam.fn


def wavy(n):
    return (
        rough.data(n), lambda d: rough.params(n, d), lambda d: np.array(d["y"]) / 4.0,
        rough.objective("wavy" if n % 2 else "valley", "none"),
    )


def cell(n, source, norm, args, jit, iters, notol, examples=6):
    strat, params, start, fn = source(n)
    holder = {}

    def call(f, x, a, tol, maxiter):
        options = {}
        if maxiter is not None:
            options["maxiter"] = maxiter
        if NORMS[norm] is not None:
            options["norm"] = NORMS[norm]
        kw = {}
        if options or maxiter is not None:
            kw["options"] = options
        if tol is not None:
            kw["tol"] = tol
        if args != "none":
            kw["args"] = a
        return compat.minimize(f, x, method=["BFGS", "bfgs"][n % 2], **kw)

    def make(m, notol):
        def run(x, p, tol):
            f, pack = split(args, p, fn)
            out = call(f, x, pack(p), None if notol else tol, m)
            g = lambda y: f(y, *pack(p))
            tol = 1e-5 if notol else tol
            solver = optx.BFGS(rtol=tol, atol=tol, norm=NORMS[norm] or optx.max_norm)
            ref = optx.minimise(lambda y, _: g(y), solver, x, max_steps=m, throw=False)
            return out, jax.value_and_grad(g)(out.x), V.summary(ref)

        return jax.jit(run) if jit else run

    def judge(d):
        key = (iters[d["m"]], notol)
        if key not in holder:
            holder[key] = make(*key)
        p = params(d["base"])
        x0 = jnp.asarray(start(d["base"]))
        tol = jnp.asarray(10.0 ** -d["tol"])
        out, (f, g), ref = lib(holder[key], x0, p, tol)
        out, f, g, ref = npt((out._asdict(), f, g, ref))
        m = key[0]
        says = lambda t: lambda: f"{t} (maxiter {m}, tol {None if key[1] else tol}): {out}"
        check(out["x"].shape == (n,) and out["jac"].shape == (n,)
              and out["hess_inv"].shape == (n, n) and out["fun"].shape == (), says("shapes"))
        check(close(out["fun"], f, 1e-10, 1e-12), says(f"fun is not f(x)={f}"))
        check(close(out["jac"], g, 1e-8, 1e-10), says(f"jac is not the gradient {g}"))
        h = out["hess_inv"]
        size = np.max(np.abs(h))
        check(np.all(np.isfinite(h)) and np.max(np.abs(h - h.T)) <= 1e-8 * size,
              says("hess_inv is not symmetric"))
        eig = np.linalg.eigvalsh((h + h.T) / 2)
        check(eig[0] > -1e-8 * size, says("hess_inv is not positive definite"))
        check(bool(out["success"]) == (int(out["status"]) == 0), says("success vs status"))
        check(int(out["status"]) in (0, 1, 3), says("unknown status"))
        nit, njev, nfev = (int(out[k]) for k in ("nit", "njev", "nfev"))
        check(0 <= nit <= nfev and 0 <= njev <= nfev, says("counts"))
        check(m is None or nfev <= m, says("more evaluations than maxiter"))
        check(int(out["status"]) != 1 or nfev == m, says("limit not reached"))
        want = {0: 0, 1: 1}.get(int(ref["code"]), 3)
        check(int(out["status"]) == want and nfev == int(ref["steps"])
              and close(out["x"], ref["value"], 1e-9, 1e-10),
              says(f"BFGS itself gives {ref}"))
        return "converged" if out["success"] else "budget"

    strat = st.fixed_dictionaries(dict(
        base=strat, tol=st.integers(2, 9), m=st.integers(0, len(iters) - 1)))
    return Cell(f"{source.__name__}/{n}/{norm}/{args}/{'jit' if jit else 'plain'}", strat, judge,
                examples)


def broken_cell(n, examples=6):
    """A function without a finite gradient at the start fails, and says so."""
    strat, params, _, fn = convex(n)
    holder = {}

    def judge(d):
        key = d["nan"], d["limit"]
        if key not in holder:
            def run(x, p, tol):
                f = lambda y: fn(y, p) + (jnp.nan if d["nan"] else jnp.linalg.norm(y - x))
                out = compat.minimize(f, x, method="BFGS", tol=tol,
                                      options=dict(maxiter=d["limit"]))
                ref = optx.minimise(lambda y, _: f(y), optx.BFGS(tol, tol), x,
                                    max_steps=d["limit"], throw=False)
                return out._asdict(), V.summary(ref)

            holder[key] = jax.jit(run).lower(jnp.zeros(n), params(d["base"]), 1.0).compile()
        x0 = np.array(P.start(d["base"]))
        if d["start"]:
            x0[d["tol"] % n] = [np.nan, np.inf][d["start"] - 1]
        out, ref = npt(lib(holder[key], jnp.asarray(x0), params(d["base"]),
                           jnp.asarray(10.0 ** -d["tol"])))
        check(not bool(out["success"]) and int(out["status"]) != 0,
              lambda: f"reported as a success: {out}")
        want = {0: 0, 1: 1}.get(int(ref["code"]), 3)
        check(int(out["status"]) == want, lambda: f"status {out}, BFGS {ref}")
        check(int(out["nfev"]) <= d["limit"], lambda: f"counts {out}")
        full = int(out["nfev"]) == d["limit"]
        return f"status{out['status']}" + (" at the limit" if full else "")

    return Cell(f"broken/{n}", st.fixed_dictionaries(
        dict(base=strat, tol=st.integers(2, 9), nan=st.booleans(), start=st.integers(0, 2),
             limit=st.sampled_from([200, 0, 1, 2]))), judge, examples)


def far_cell(examples=4):
    """Iterations are unlimited unless asked: a long way down a constant slope is walked."""

    def build():
        def fn(x, c):
            u = jnp.abs(x[0] - c)
            return jnp.where(u < 1, 0.5 * u**2, u - 0.5)

        def run(x, c, tol):
            return compat.minimize(fn, x, (c,), method="bfgs", tol=tol)._asdict()

        return eqx.filter_jit(run)

    run = Lazy(build)

    def judge(d):
        c = np.float64(d["c"])
        out = npt(lib(run, jnp.asarray([d["c"] - d["far"] - 0.5]), c, jnp.asarray(1e-6)))
        check(bool(out["success"]) and abs(out["x"][0] - c) < 1e-4
              and int(out["nfev"]) >= d["far"], lambda: (
            f"minimum {d['far']} unit steps away: {out}"))
        return "far"

    return Cell("far", st.fixed_dictionaries(dict(
        c=st.integers(-50, 50), far=st.integers(4500, 30000))), judge, examples)


def rejects():
    f = lambda x, *a: jnp.sum((x - 1) ** 2)
    x = jnp.array([0.5, 2.0])
    NAMES = ("Nelder-Mead", "cg", "L-BFGS-B", "newton-cg", "b", "", "bfgs ", "l-bfgs", "BFGS2")
    BADX = (lambda: 1.0, lambda: jnp.array(1.0), lambda: jnp.ones((2, 2)), lambda: [1.0, 2.0],
            lambda: (jnp.ones(2),), lambda: dict(x=jnp.ones(2)), lambda: jnp.ones((1, 2)),
            lambda: None)
    BADARGS = (lambda: [1.0], lambda: 1.0, lambda: jnp.ones(2), lambda: {"a": 1}, lambda: "ab")
    KEYS = ("gtol", "maxfev", "disp", "Maxiter", "eps", "return_all", "max_steps", "rtol", "Norm")

    def judge(d):
        k, i = d["kind"], d["i"]
        good = dict(fun=f, x0=x, args=(), method="BFGS", tol=1e-6, options=dict(maxiter=40))
        bad = dict(good)
        if k == "method":
            bad["method"] = NAMES[i % len(NAMES)]
            good["method"] = ("bfgs", "BFGS", "Bfgs")[i % 3]
            kinds = (ValueError,)
        elif k == "x0":
            bad["x0"] = BADX[i % len(BADX)]()
            good["x0"] = jnp.ones(1 + i % 4) * 3
            kinds = (ValueError,)
        elif k == "args":
            bad["args"] = BADARGS[i % len(BADARGS)]()
            good["args"] = ((), (1.0,), ("s", None), ({"a": jnp.ones(2)},))[i % 4]
            kinds = (TypeError,)
        else:
            bad["options"] = {KEYS[i % len(KEYS)]: 3, **({"maxiter": 30} if i % 2 else {})}
            good["options"] = (None, {}, {"maxiter": 30}, {"norm": optx.two_norm})[i % 4]
            kinds = (ValueError,)
        run = lambda kw: compat.minimize(kw["fun"], kw["x0"], **{
            a: b for a, b in kw.items() if a not in ("fun", "x0")})
        err = raises(run, bad)
        check(err is not None, lambda: f"{k} {bad} was accepted")
        check(isinstance(err, kinds), lambda: f"{k} {bad} raised {type(err)}")
        before = None if good["options"] is None else dict(good["options"])
        out = lib(run, good)
        check(bool(out.success) and close(npt(out.x), np.ones(out.x.shape), 0, 1e-3),
              lambda: f"valid call failed: {out}")
        check(good["options"] == before, "the caller's options were changed")
        return k

    return Cell("rejected", st.fixed_dictionaries(dict(
        kind=st.sampled_from(["method", "x0", "args", "options"]), i=st.integers(0, 40))), judge, 14)


def cells(tier):
    out = [far_cell()]
    i = 0
    norms = list(NORMS)
    for n in (1, 2, 3, 4):
        for source in (convex, wavy):
            for k in range(4):
                out.append(cell(n, source, norms[i % 5], ARGS[(k + n) % 4], i % 9 != 3,
                                [m for m in ITERS[(i // 3) % 4] if m or source is convex],
                                i % 5 == 2))
                i += 1
    out += [rejects(), broken_cell(1), broken_cell(3)]
    return out
