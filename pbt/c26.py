"""C26: solving through another problem kind equals the manual reformulation."""

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optimistix as optx
from hypothesis import strategies as st

from . import catalog as C, problems as P, solvers as V
from .common import Lazy, close, npt, offset, robust
from .core import Cell, check, lib, raises

tmap = jax.tree_util.tree_map
leaves = jax.tree_util.tree_leaves


def half_squares(r):
    return 0.5 * sum(jnp.sum(l**2) for l in leaves(r))


def manual(entry, kind):
    """(entry point, reformulation) equivalent to giving a solver of `kind` to `entry`."""
    def resid(fn):
        if entry != "fp":
            return fn
        return lambda y, p: tmap(lambda a, b: a - b, fn(y, p), y)

    if kind == "root":
        return optx.root_find, lambda fn, norm: resid(fn)
    if kind == "lsq":
        return optx.least_squares, lambda fn, norm: resid(fn)
    if entry == "lsq":
        return optx.minimise, lambda fn, norm: lambda y, p: half_squares(fn(y, p))
    return optx.minimise, lambda fn, norm: lambda y, p: norm(resid(fn)(y, p))


def cell(entry, kind, name, make, lay, norm, budgets, exact, options=None, examples=5):
    """`exact`: the conversion also stops at the same step with the same result.
    Otherwise it asks for a small residual as well, so runs are compared that neither
    side may end."""
    fam = C.Family(entry, lay)
    into, reform = manual(entry, kind)

    def build(b, by_hand):
        def fn(y, p):
            out = fam.fn(y, p)
            return out, dict(y=y, n=jnp.array(7), f=out)

        @eqx.filter_jit
        def run(y0, p, rtol, atol):
            solver = make(rtol, atol)
            if by_hand:
                g = reform(fam.fn, norm)
                sol = into(g, solver, y0, p, options=options, max_steps=b, throw=False)
                return V.summary(sol), None
            sol = C.ENTRY[entry](fn, solver, y0, p, has_aux=True, options=options, max_steps=b,
                                 throw=False)
            return V.summary(sol), sol.aux

        return run

    runs = {(b, h): Lazy(lambda b=b, h=h: build(b, h)) for b in budgets for h in (False, True)}
    fval = Lazy(lambda: jax.jit(fam.fn))
    nrm = Lazy(lambda: jax.jit(lambda y, p: norm(reform_resid(y, p))))

    def reform_resid(y, p):
        out = fam.fn(y, p)
        return tmap(lambda a, b: a - b, out, y) if entry == "fp" else out

    def judge(d, e):
        p = fam.params(d["base"])
        y0 = lay.np_unflat(offset(fam.start(d["base"], p, name), e))
        b = budgets[d["b"] % len(budgets)]
        tol = 10.0 ** -d["tol"] if exact else 1e-15
        (a, aux), (m, _) = (npt(lib(runs[b, h], y0, p, tol, tol)) for h in (False, True))
        here = lambda: f"{name} through {entry}, budget {b}, tol {tol}: {a}; by hand {m}"
        check(jax.tree_util.tree_structure(a["value"]) == lay.treedef, here)
        if exact:
            at_end = close(a["value"], m["value"], 1e-11, 1e-11)
            check(at_end or (int(a["steps"]) == int(m["steps"]) and int(a["code"]) == int(m["code"])),
                  here)
            check(close(a["value"], m["value"], 1e-7, 1e-8), here)
        elif int(m["steps"]) == int(a["steps"]) or int(m["code"]) == 1:
            check(close(a["value"], m["value"], 1e-7, 1e-8), here)
        # aux is that of the user's own function
        check(int(aux["n"]) == 7 and close(aux["f"], npt(fval(aux["y"], p)), 1e-9, 1e-10),
              lambda: f"{here()}: aux {aux}")
        return ["success", "budget", "diverged", "nonfinite", "other"][int(a["code"])]

    return Cell(f"{entry}/{name}/{lay.name}", st.fixed_dictionaries(
        dict(base=fam.strategy, b=st.integers(0, 5), tol=st.integers(3, 7))), robust(judge), examples)


def success_cell(entry, kind, name, make, lay, norm, examples=5):
    """Success means a residual below atol, whatever the solver's own criterion."""
    fam = C.Family(entry, lay)

    @eqx.filter_jit
    def run(y0, p, rtol, atol):
        sol = C.ENTRY[entry](fam.fn, make(rtol, atol), y0, p, max_steps=300, throw=False)
        out = fam.fn(sol.value, p)
        if entry == "fp":
            out = tmap(lambda a, b: a - b, out, sol.value)
        return V.summary(sol), norm(out)

    def judge(d):
        p = fam.params(d["base"])
        y0 = lay.np_unflat(fam.start(d["base"], p, name))
        # a loose rtol would satisfy the solver itself almost at once
        rtol, atol = np.float64(10.0 ** -d["r"]), np.float64(10.0 ** -d["a"])
        s, r = npt(lib(run, y0, p, rtol, atol))
        if int(s["code"]) != 0:
            return None
        # the last step improves on the point whose residual was tested
        check(float(r) < 2 * atol, lambda: (
            f"{name} through {entry}, rtol {rtol}, atol {atol}: success with residual {r} ({s})"))
        return "success"

    return Cell(f"success/{entry}/{name}/{lay.name}", st.fixed_dictionaries(
        dict(base=fam.strategy, r=st.integers(0, 4), a=st.integers(3, 8))), judge, examples)


def grad_cell(entry, name, make, lay, ref, examples=4):
    """Derivatives of the converted solve equal those of the natural solver."""
    fam = C.Family(entry, lay)

    def build(mk):
        @eqx.filter_jit
        def run(y0, p, w):
            def loss(p):
                sol = C.ENTRY[entry](fam.fn, mk(1e-8, 1e-8), y0, p, max_steps=2000, throw=False)
                return jnp.sum(lay.flat(sol.value) * w), V.rcode(sol.result)

            return jax.value_and_grad(loss, has_aux=True)(p)

        return run

    runs = Lazy(lambda: build(make)), Lazy(lambda: build(ref))

    def judge(d):
        p = fam.params(d["base"])
        y0 = lay.np_unflat(fam.start(d["base"], p, name))
        w = np.array(d["w"], float)
        ((v, c), g), ((v2, c2), g2) = (npt(lib(r, y0, p, w)) for r in runs)
        if int(c) != 0 or int(c2) != 0:
            return None
        check(close(v, v2, 1e-4, 1e-5) and close(g, g2, 1e-3, 1e-4),
              lambda: f"{name} through {entry}: {v}, {g}; natural solver {v2}, {g2}")
        return "grad"

    return Cell(f"grad/{entry}/{name}/{lay.name}", st.fixed_dictionaries(
        dict(base=fam.strategy, w=P.vec(lay.n))), judge, examples)


def invalid_cell(entry, name, make, key, value, lay, examples=3):
    """An option the solver refuses on its own is refused through the conversion too."""
    kind = entry
    fam = C.Family(kind, lay)

    def judge(d):
        p = fam.params(d)
        y0 = lay.np_unflat(fam.start(d, p, name))
        go = lambda v: C.ENTRY[entry](fam.fn, make(1e-4, 1e-4), y0, p, options={key: v},
                                      max_steps=2, throw=False)
        lib(go, value)
        check(raises(go, "sideways") is not None,
              lambda: f"{name} through {entry} accepted {key}='sideways'")
        return "refused"

    return Cell(f"invalid/{entry}/{name}", fam.strategy, judge, examples)


def cells(tier):
    L = P.LAYOUTS
    lays = ("pair", "vec2", "dict", "vec3", "none", "scalar")
    out = []
    i = 0

    def lay(nm=False):
        nonlocal i
        i += 1
        return L[("scalars2", "scalars3")[i % 2]] if nm else L[lays[i % 6]]

    mx, two = optx.max_norm, optx.two_norm
    for name in ("Newton", "NewtonQR", "Chord", "NewtonNC", "BestNewton"):
        out.append(cell("fp", "root", name, C.ROOT[name], lay(), mx, (2, 40), True))
    for entry in ("root", "fp"):
        for name, make in {**C.LSQ}.items():
            out.append(cell(entry, "lsq", name, make, lay(), mx, (1, 3, 7), False))
        for name in ("BFGS", "LBFGS", "DFPdirect", "CG-polak_ribiere", "GradientDescent",
                     "OptaxAdam", "NelderMead", "BFGS+Dogleg+CTR", "BestBFGS"):
            out.append(cell(entry, "min", name, C.MIN[name], lay(name == "NelderMead"), mx, (1, 3, 6),
                            False, examples=4))
        for cls in (optx.BFGS, optx.DFP):
            out.append(cell(entry, "min", f"{cls.__name__}-two",
                            lambda r, a, cls=cls: cls(r, a, norm=two), lay(), two, (1, 4, 8), False))
        for name in C.LSQ:
            out.append(success_cell(entry, "lsq", name, C.LSQ[name], lay(), mx))
        for cls in (optx.LevenbergMarquardt, optx.Dogleg):
            out.append(success_cell(entry, "lsq", f"{cls.__name__}-two",
                                    lambda r, a, cls=cls: cls(r, a, norm=two), lay(), two))
        for name in ("BFGS", "LBFGS", "NelderMead", "BestBFGS"):
            out.append(success_cell(entry, "min", name, C.MIN[name], lay(name == "NelderMead"), mx))
        nat = C.ROOT["Newton"]
        for name in ("LevenbergMarquardt", "Dogleg", "GaussNewton"):
            out.append(grad_cell(entry, name, C.LSQ[name], lay(), nat))
        out.append(grad_cell(entry, "BFGS-two", lambda r, a: optx.BFGS(r, a, norm=two), lay(), nat))
    out.append(grad_cell("fp", "Newton", C.ROOT["Newton"], lay(), C.FP["FPI"]))
    for name, make in C.MIN.items():
        if "Best" in name and name != "BestBFGS":
            continue
        out.append(cell("lsq", "min", name, make, lay(name == "NelderMead"), mx,
                        (3, 40) if "+" not in name else (9,), True, examples=4))
    out.append(grad_cell("lsq", "BFGS", C.MIN["BFGS"], lay(), C.LSQ["LevenbergMarquardt"]))
    out.append(grad_cell("lsq", "LBFGS", C.MIN["LBFGS"], lay(), C.LSQ["Dogleg"]))
    # options reach the solver
    for entry in ("root", "fp"):
        out.append(cell(entry, "lsq", "LM-bwd", C.LSQ["LevenbergMarquardt"], lay(), mx, (3, 6), False,
                        options=dict(jac="bwd")))
    out.append(cell("fp", "root", "Newton-bounds", C.ROOT["Newton"], L["scalar"], mx, (2, 30), True,
                    options=dict(lower=-0.5, upper=0.6)))
    for flip in (True, False, "detect"):
        out.append(cell("fp", "root", f"Bisection-{flip}",
                        lambda r, a, flip=flip: optx.Bisection(r, a, flip=flip), L["scalar"], mx,
                        (3, 30), True, options=dict(lower=-20.0, upper=20.0)))
    for entry in ("root", "fp"):
        for name in ("GaussNewton", "LevenbergMarquardt", "Dogleg", "BestLM"):
            out.append(invalid_cell(entry, name, C.LSQ[name], "jac", "bwd", L["pair"]))
    for entry in ("root", "fp", "lsq"):
        for name in ("BFGS", "LBFGS", "GradientDescent", "CG-dai_yuan", "BestBFGS"):
            out.append(invalid_cell(entry, name, C.MIN[name], "autodiff_mode", "fwd", L["pair"]))
    out.append(cell("lsq", "min", "BFGS-fwd", C.MIN["BFGS"], lay(), mx, (3, 40), True,
                    options=dict(autodiff_mode="fwd")))
    return out
