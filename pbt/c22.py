"""C22: execution options change how, not what, is computed."""

import contextlib
import io

import equinox as eqx
import jax
import jax.numpy as jnp
import lineax as lx
import numpy as np
import optax
import optimistix as optx
from hypothesis import strategies as st

from . import catalog as C, problems as P, solvers as V
from .rough import Rough
from .common import Lazy, close, npt, offset, robust
from .core import Cell, check, lib

BUDGETS = (4, 40)


def noaux(fn):
    return lambda y, p: fn(y, p)


class Variant:
    """One way of running a solve: solver, keyword arguments, and the user function."""

    def __init__(self, label, make, fn=None, options=None, entry=None, grad=False, **kw):
        self.label, self.make, self.fn, self.kw = label, make, fn, kw
        self.options, self.entry = options, entry


def run_variant(fam, v, budget, grad):
    entry = C.ENTRY[v.entry or fam.kind]
    fn = fam.fn if v.fn is None else v.fn

    @eqx.filter_jit
    def run(y0, p, w, rtol, atol):
        def solve(p):
            return entry(fn, v.make(rtol, atol), y0, p, options=v.options,
                         max_steps=budget, **{"throw": False, **v.kw})

        out = V.summary(solve(p))
        if grad:
            def loss(p):
                z = fam.lay.flat(solve(p).value)
                return jnp.sum(w * z)

            out["grad"] = jax.grad(loss)(p)
        return out

    return run


def compare(name, fam, variants, examples=4, budgets=BUDGETS, grad=False, strict=False):
    """All variants take the same steps, to the same place, with the same result. Unless
    strict, they may part company once they are at the same point to rounding."""
    runs = {
        (i, b): Lazy(lambda v=v, b=b: run_variant(fam, v, b, grad))
        for i, v in enumerate(variants) for b in budgets
    }

    def judge(d, e):
        p = fam.params(d["base"])
        y0 = fam.lay.np_unflat(offset(fam.start(d["base"], p, name), e))
        b = budgets[d["b"]]
        rtol = atol = 10.0 ** -d["tol"]
        w = np.array(d["w"], float)
        outs = [npt(lib(runs[i, b], y0, p, w, rtol, atol)) for i in range(len(variants))]
        for v, out in zip(variants[1:], outs[1:]):
            here = lambda: (
                f"{name}, budget {b}, tol {rtol}: {variants[0].label} gives {outs[0]}, "
                f"{v.label} gives {out}"
            )
            at_end = not strict and close(out["value"], outs[0]["value"], 1e-10, 1e-10)
            check(at_end or (int(out["steps"]) == int(outs[0]["steps"])
                             and int(out["code"]) == int(outs[0]["code"])), here)
            check(close(out["value"], outs[0]["value"], 1e-6, 1e-7), here)
            if grad and int(out["code"]) == 0:
                check(close(out["grad"], outs[0]["grad"], 1e-4, 1e-5), here)
        return "success" if int(outs[0]["code"]) == 0 else "budget"

    strat = st.fixed_dictionaries(dict(
        base=fam.strategy, b=st.integers(0, len(budgets) - 1), tol=st.integers(3, 7),
        w=P.vec(fam.n)))
    return Cell(name, strat, robust(judge), examples)


# ---------------------------------------------------------------------------------------
# Structured Jacobians and Hessians, for tags


class Structured:
    """A root, fixed-point, residual or objective with a structured derivative."""

    def __init__(self, kind, lay, shape):
        self.kind, self.lay, self.shape = kind, lay, shape
        n = self.n = lay.n
        self.out = None if kind == "min" else lay
        self.strategy = st.fixed_dictionaries(
            dict(A=P.ints(n * n, -6, 6), c=P.vec(n), s=P.ints(n, 1, 8), y0=P.vec(n, 16)))

    def params(self, d):
        n = self.n
        M = np.array(d["A"], float).reshape(n, n) / 6.0
        shape = self.shape
        if shape in ("sym", "psd", "nsd"):
            M = (M + M.T) / (4.0 * n)
        elif shape == "diag":
            M = np.diag(np.diag(M)) / 2.0
        elif shape == "lower":
            M = np.tril(M) / (2.0 * n)
        elif shape == "upper":
            M = np.triu(M) / (2.0 * n)
        elif shape == "tri":
            M = np.triu(np.tril(M, 1), -1) / 4.0
        else:
            M = M / (2.0 * n)
        sign = -1.0 if shape == "nsd" and self.kind != "fp" else 1.0
        return dict(A=sign * (M + 1.5 * np.eye(n)), c=np.array(d["c"]) / 4.0,
                    s=np.array(d["s"]) / 10.0)

    def raw(self, z, p):
        e = z - p["c"]
        sign = -1.0 if self.shape == "nsd" and self.kind != "fp" else 1.0
        if self.kind == "min":
            return 0.5 * e @ p["A"] @ e + jnp.sum(p["s"] * (jnp.sqrt(1 + z**2) - 1))
        r = p["A"] @ e + sign * p["s"] * jnp.tanh(z)
        if self.kind == "fp":
            # the tag describes f(y) - y = -0.4 r
            return z - 0.4 * r
        return r

    def fn(self, y, p):
        r = self.raw(self.lay.flat(y), p)
        return r if self.out is None else self.lay.unflat(r)

    def start(self, d, p, name=""):
        y0 = np.array(d["y0"]) / 4.0
        return p["c"] + 0.1 * (y0 - p["c"]) if "Chord" in name else y0


TAG = dict(
    sym=lx.symmetric_tag, psd=lx.positive_semidefinite_tag, nsd=lx.negative_semidefinite_tag,
    diag=lx.diagonal_tag, lower=lx.lower_triangular_tag, upper=lx.upper_triangular_tag,
    tri=lx.tridiagonal_tag,
)


def tag_cells():
    L = P.LAYOUTS
    out = []

    def add(kind, sname, make, shape, lay, entry=None):
        fam = Structured(kind, L[lay], shape)
        tags = frozenset({TAG[shape]})
        out.append(compare(
            f"tags/{kind}/{sname}/{shape}/{lay}", fam,
            [Variant("no tags", make, entry=entry), Variant(f"tagged {shape}", make, entry=entry, tags=tags)],
            grad=True, budgets=(40,), examples=3,
        ))

    for shape, lay in (("sym", "pair"), ("psd", "dict"), ("nsd", "vec3"), ("diag", "vec3"),
                       ("lower", "vec3"), ("upper", "vec2"), ("tri", "vec4")):
        add("root", "Newton", C.ROOT["Newton"], shape, lay)
        add("root", "Chord", C.ROOT["Chord"], shape, lay)
    for shape in ("psd", "diag", "lower"):
        add("root", "LevenbergMarquardt", C.LSQ["LevenbergMarquardt"], shape, "vec3")
        add("root", "GaussNewton", C.LSQ["GaussNewton"], shape, "vec2")
    for shape, lay in (("nsd", "pair"), ("sym", "vec3"), ("diag", "vec3"), ("lower", "vec3")):
        add("fp", "FPI", C.FP["FPI"], shape, lay)
    for shape, lay in (("psd", "pair"), ("sym", "vec3"), ("diag", "vec2")):
        add("min", "BFGS", C.MIN["BFGS"], shape, lay)
        add("min", "LBFGS", C.MIN["LBFGS"], shape, lay)
    for shape, lay in (("psd", "vec3"), ("sym", "pair"), ("diag", "vec3")):
        add("lsq", "LevenbergMarquardt", C.LSQ["LevenbergMarquardt"], shape, lay)
        add("lsq", "GaussNewton", C.LSQ["GaussNewton"], shape, lay)
        add("lsq", "Dogleg", C.LSQ["Dogleg"], shape, lay)
    return out


# ---------------------------------------------------------------------------------------
# Verbosity


VERBOSE = {
    "GaussNewton": ("lsq", lambda r, a, v: optx.GaussNewton(r, a, verbose=v)),
    "LevenbergMarquardt": ("lsq", lambda r, a, v: optx.LevenbergMarquardt(r, a, verbose=v)),
    "IndirectLM": ("lsq", lambda r, a, v: optx.IndirectLevenbergMarquardt(r, a, verbose=v)),
    "Dogleg": ("lsq", lambda r, a, v: optx.Dogleg(r, a, verbose=v)),
    "BFGS": ("min", lambda r, a, v: optx.BFGS(r, a, verbose=v)),
    "DFP": ("min", lambda r, a, v: optx.DFP(r, a, verbose=v)),
    "LBFGS": ("min", lambda r, a, v: optx.LBFGS(r, a, verbose=v)),
    "Optax": ("min", lambda r, a, v: optx.OptaxMinimiser(optax.adam(0.2), r, a, verbose=v)),
}


def verbose_cell(name, lay, budget, examples=4, rough=None):
    kind, make = VERBOSE[name]
    fam = Rough(kind, lay, *rough) if rough else C.Family(kind, lay, mild=False)
    log = []

    def record(**kw):
        names = {}

        def store(**vals):
            log.append((names, npt(vals)))

        for k, pair in kw.items():
            names[k] = pair[0] if isinstance(pair, tuple) and len(pair) == 2 else pair
        jax.debug.callback(store, **{k: v[1] for k, v in kw.items()})

    def build(v):
        @eqx.filter_jit
        def run(y0, p, rtol, atol):
            sol = C.ENTRY[kind](fam.fn, make(rtol, atol, v), y0, p, max_steps=budget, throw=False)
            return V.summary(sol)

        return run

    runs = [Lazy(lambda v=v: build(v)) for v in (False, True, record)]
    loss = Lazy(lambda: jax.jit(lambda y, p: fam.loss(lay.flat(y), p)))

    def judge(d):
        p = fam.params(d["base"])
        z0 = fam.start(d["base"], p)
        y0 = lay.np_unflat(z0)
        if rough and not abs(float(loss(y0, p))) < 1e6:
            return None
        tol = 10.0 ** -d["tol"]
        outs, texts = [], []
        log.clear()
        for r in runs:
            text = io.StringIO()
            with contextlib.redirect_stdout(text):
                outs.append(npt(lib(r, y0, p, tol, tol)))
                jax.effects_barrier()
            texts.append(text.getvalue())
        for o in outs[1:]:
            check(int(o["steps"]) == int(outs[0]["steps"]) and int(o["code"]) == int(outs[0]["code"])
                  and close(o["value"], outs[0]["value"], 1e-7, 1e-8),
                  lambda: f"{name}: quiet {outs[0]}, verbose {o}")
        n = int(outs[0]["steps"])
        check(texts[0] == "" and texts[2] == "", lambda: f"{name}: printed {texts[0] or texts[2]!r}")
        check(texts[1].strip() != "", f"{name}: verbose=True printed nothing")
        check(len(log) == n, lambda: f"{name}: {n} steps, {len(log)} calls of verbose")
        seen = []
        for i, (names, v) in enumerate(log):
            check(all(isinstance(t, str) and t for t in names.values()),
                  lambda: f"{name}: labels {names}")
            check({"loss_this_step", "y"} <= set(v), lambda: f"{name}: reported {sorted(v)}")
            if i == 0:
                check(close(v["y"], y0, 1e-12, 1e-12), lambda: f"{name}: first y {v['y']}, start {y0}")
            check(close(v["loss_this_step"], npt(loss(v["y"], p)), 1e-9, 1e-11),
                  lambda: f"{name}, step {i}: loss {v['loss_this_step']} is not that of y {v['y']}")
            if "num_steps" in v:
                check(int(v["num_steps"]) == i, lambda: f"{name}: step {i} called {v['num_steps']}")
            seen.append(v["y"])
            if "y_last_accepted_step" in v:
                acc = v["y_last_accepted_step"]
                check(any(close(acc, s, 1e-12, 1e-12) for s in seen),
                      lambda: f"{name}, step {i}: accepted point {acc} was never tried")
                if i:
                    prev = log[i - 1][1]["y_last_accepted_step"]
                    check(close(acc, prev, 0, 0) or close(acc, v["y"], 0, 0),
                          lambda: f"{name}, step {i}: accepted point jumped to {acc}")
                    here = [float(loss(q, p)) for q in (prev, acc)]
                    check(name in ("GaussNewton", "Optax") or here[1] <= here[0] + 1e-11 * (1 + abs(here[0])),
                          lambda: f"{name}, step {i}: accepted {acc}, uphill from {prev}")
                    got = float(v["loss_last_accepted_step"])
                    check(any(np.isclose(got, h, 1e-9, 1e-11) for h in here),
                          lambda: f"{name}, step {i}: accepted loss {got}, points have {here}")
                if i == n - 1:
                    check(close(acc, outs[2]["value"], 1e-12, 1e-12),
                          lambda: f"{name}: last accepted {acc}, returned {outs[2]['value']}")
            if "accepted_steps" in v:
                a, s = int(v["accepted_steps"]), int(v["steps_since_acceptance"])
                moved = sum(
                    1 for j in range(i)
                    if close(log[j][1]["y"], log[j][1]["y_last_accepted_step"], 0, 0))
                check(a == moved, lambda: f"{name}, step {i}: accepted {a}, counted {moved}")
                back = 0
                while back < i and not close(
                    log[i - 1 - back][1]["y"], log[i - 1 - back][1]["y_last_accepted_step"], 0, 0
                ):
                    back += 1
                check(s == back, lambda: f"{name}, step {i}: {s} since acceptance, counted {back}")
            if "step_size" in v:
                check(np.all(np.isfinite(v["step_size"])) and float(v["step_size"]) > 0,
                      lambda: f"{name}, step {i}: step size {v['step_size']}")
        stalls = sum("y_last_accepted_step" in v and not close(v["y"], v["y_last_accepted_step"], 0, 0)
                     for _, v in log)
        return f"{min(n, 10)}+ steps" + (", with rejections" if stalls else "")

    label = f"/{fam.name}" if rough else ""
    return Cell(f"verbose/{name}/{lay.name}{label}", st.fixed_dictionaries(
        dict(base=fam.strategy, tol=st.integers(3, 7))), judge, examples)


# ---------------------------------------------------------------------------------------
# Functions that only support one mode of differentiation


def backward_only(fn):
    """The same function, with a custom_vjp: forward mode raises."""

    @jax.custom_vjp
    def g(y, p):
        return fn(y, p)

    def fwd(y, p):
        out, pull = jax.vjp(fn, y, p)
        return out, pull

    g.defvjp(fwd, lambda pull, ct: pull(ct))
    return g


def forward_only(fn):
    """The same function, through a while loop: reverse mode raises."""

    def g(y, p):
        out = fn(y, p)

        def body(c):
            return c[0] + 1, jax.tree_util.tree_map(lambda a, b: a + b, c[1], fn(y, p))

        zero = jax.tree_util.tree_map(jnp.zeros_like, out)
        # the bound is traced, so this is a genuine while loop
        first = jax.tree_util.tree_leaves(y)[0]
        bound = jnp.where(jnp.isnan(jnp.sum(jax.lax.stop_gradient(first))), 0, 1)
        return jax.lax.while_loop(lambda c: c[0] < bound, body, (jnp.array(0), zero))[1]

    return g


def cells(tier):
    L = P.LAYOUTS
    lays = ("pair", "vec2", "dict", "vec3")
    out = []
    i = 0

    def lay():
        nonlocal i
        i += 1
        return L[lays[i % 4]]

    lsq = {**C.LSQ}
    for name, make in lsq.items():
        fam = C.Family("lsq", lay())
        out.append(compare(f"jac/{name}/{fam.lay.name}", fam, [
            Variant("default", make), Variant("fwd", make, options=dict(jac="fwd")),
            Variant("bwd", make, options=dict(jac="bwd"))], budgets=(15,)))
    for entry in ("root", "fp"):
        make = C.LSQ["LevenbergMarquardt"]
        fam = C.Family(entry, lay())
        out.append(compare(f"jac/{entry}-LevenbergMarquardt", fam, [
            Variant("default", make), Variant("bwd", make, options=dict(jac="bwd"))]))
    grads = {**V.QN, **V.CG, **V.MIN_CUSTOM, "GradientDescent": C.MIN["GradientDescent"],
             "BestBFGS": C.MIN["BestBFGS"]}
    for name, make in grads.items():
        fam = C.Family("min", lay())
        out.append(compare(f"mode/{name}/{fam.lay.name}", fam, [
            Variant("default", make), Variant("fwd", make, options=dict(autodiff_mode="fwd")),
            Variant("bwd", make, options=dict(autodiff_mode="bwd"))], examples=3,
            budgets=BUDGETS if name in ("BFGS", "LBFGS", "DFPdirect") else (15,)))
    for j, name in enumerate(VERBOSE):
        out.append(verbose_cell(name, lay(), 40))
        out.append(verbose_cell(name, L["scalar" if j % 2 else "none"], 6, examples=3))
        if name not in ("GaussNewton", "Optax"):
            out.append(verbose_cell(name, lay(), 25, rough=(("wavy", "valley")[j % 2],
                                                            ("nan", "log", "none")[j % 3])))
    for kind, name, make in C.everything():
        if "NM" in name or name == "NelderMead":
            fam = C.Family(kind, L["scalars3"])
        else:
            fam = C.Family(kind, lay())
        aux = lambda y, p, fam=fam: (fam.fn(y, p), dict(y=y, k=jnp.array(3), s=None))
        out.append(compare(f"aux/{kind}/{name}", fam, [
            Variant("without aux", make), Variant("with aux", make, fn=aux, has_aux=True),
            Variant("throw, explicit defaults", make, options={}, adjoint=optx.ImplicitAdjoint()),
        ], examples=4, budgets=(9,) if i % 3 else (30,), strict=True))
    out += tag_cells()

    solvers = dict(auto=lx.AutoLinearSolver(well_posed=None), posed=lx.AutoLinearSolver(well_posed=True),
                   ill=lx.AutoLinearSolver(well_posed=False), LU=lx.LU(), QR=lx.QR(), SVD=lx.SVD(),
                   normal=lx.Normal(lx.Cholesky()))
    for cname, cls in dict(Newton=optx.Newton, Chord=optx.Chord).items():
        fam = C.Family("root", lay())
        out.append(compare(f"linear/{cname}", fam, [
            Variant(k, lambda r, a, s=s, cls=cls: cls(r, a, linear_solver=s))
            for k, s in solvers.items()], budgets=(40,)))
    rect = {k: solvers[k] for k in ("auto", "ill", "QR", "SVD", "normal")}
    for cname, cls in dict(
        GaussNewton=optx.GaussNewton, LevenbergMarquardt=optx.LevenbergMarquardt,
        Indirect=optx.IndirectLevenbergMarquardt, Dogleg=optx.Dogleg,
    ).items():
        fam = C.Family("lsq", lay())
        out.append(compare(f"linear/{cname}", fam, [
            Variant(k, lambda r, a, s=s, cls=cls: cls(r, a, linear_solver=s))
            for k, s in rect.items()], budgets=(40,)))
        for dname, d in dict(
            newton=optx.NewtonDescent, damped=optx.DampedNewtonDescent, dogleg=optx.DoglegDescent
        ).items():
            if cname != "Dogleg":
                continue
            fam = C.Family("min", lay())
            out.append(compare(f"linear/BFGS-{dname}", fam, [
                Variant(k, V.bfgs(d(linear_solver=s), optx.ClassicalTrustRegion()))
                for k, s in dict(auto=solvers["auto"], chol=lx.Cholesky(), QR=lx.QR(),
                                 LU=lx.LU(), SVD=lx.SVD()).items()], budgets=(12,)))
    for cname, cls in dict(BFGS=optx.BFGS, DFP=optx.DFP, LBFGS=optx.LBFGS).items():
        for k in range(2):
            fam = C.Family("min", lay(), mild=bool(k))
            extra = dict(history_length=3) if cname == "LBFGS" and k else {}
            out.append(compare(f"storage/{cname}/{fam.lay.name}/{k}", fam, [
                Variant(str(inv), lambda r, a, inv=inv, cls=cls, extra=extra: cls(
                    r, a, use_inverse=inv, **extra)) for inv in (True, False)]))

    one = C.Family("lsq", lay())
    for name in C.LSQ:
        make = C.LSQ[name]
        out.append(compare(f"backward-only/{name}", one, [
            Variant("plain", make),
            Variant("custom_vjp, bwd", make, fn=backward_only(one.fn), options=dict(jac="bwd"))],
            budgets=(12,)))
    fmin = C.Family("min", lay())
    for name in ("BFGS", "DFP", "LBFGS", "BFGSdirect", "CG-polak_ribiere", "GradientDescent",
                 "GD+Steepest+Armijo"):
        make = C.MIN[name]
        out.append(compare(f"forward-only/{name}", fmin, [
            Variant("plain", make),
            Variant("loop, fwd", make, fn=forward_only(fmin.fn),
                    options=dict(autodiff_mode="fwd"))], budgets=(12,)))
    fm = C.Family("min", L["scalars2"])
    for name, fam in dict(OptaxAdam=fmin, NelderMead=fm).items():
        make = C.MIN[name]
        wrap = backward_only if name == "OptaxAdam" else (
            lambda f: backward_only(forward_only(f)))
        out.append(compare(f"own-mode/{name}", fam, [
            Variant("plain", make), Variant("restricted", make, fn=wrap(fam.fn))], budgets=(12,)))
    froot = C.Family("root", lay())
    for name in ("Newton", "Chord"):
        out.append(compare(f"forward-only/{name}", froot, [
            Variant("plain", C.ROOT[name]),
            Variant("loop", C.ROOT[name], fn=forward_only(froot.fn))], budgets=(12,)))
    return out
