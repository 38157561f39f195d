"""C32: JAX's global modes (64-bit off, strict promotion, no jit) do not change a solve."""

import contextlib

import jax
import jax.numpy as jnp
import numpy as np
import optax
import optimistix as optx
from hypothesis import strategies as st

from . import catalog as C, problems as P, solvers as V
from .common import close, npt, offset, robust
from .core import Cell, check, lib

tmap = jax.tree_util.tree_map
leaves = jax.tree_util.tree_leaves


@contextlib.contextmanager
def strict():
    with jax.numpy_dtype_promotion("strict"), jax.numpy_rank_promotion("raise"):
        yield


@contextlib.contextmanager
def narrow():
    with jax.enable_x64(False):
        yield


@contextlib.contextmanager
def narrow_strict():
    with narrow(), strict():
        yield


MODES = dict(strict=strict, x32=narrow, x32strict=narrow_strict, nojit=jax.disable_jit)
SHAPES = dict(
    scalar=P.S(), vec2=P.S(2), vec3=P.S(3), pair=(P.S(), P.S(2)),
    dict={"b": P.S(1), "a": [P.S(2), {"c": P.S()}]}, mat=P.S(2, 2), none=(P.S(2), None, {"x": P.S(1)}),
    scalars2=[P.S(), P.S()], scalars3={"a": P.S(1), "b": (P.S(), P.S(1, 1))},
)


class Plain(P.Layout):
    """Leaves in order: JAX caches index arrays across its modes."""

    def unflat(self, z):
        out, i = [], 0
        for shape, size in zip(self.shapes, self.sizes):
            out.append(jnp.reshape(z[i : i + size], shape).astype(self.dtype))
            i += size
        return jax.tree_util.tree_unflatten(self.treedef, out)

    def flat(self, y):
        return jnp.concatenate([jnp.reshape(x, (-1,)) for x in leaves(y)])


def layout(name, dtype):
    return Plain(name, SHAPES[name], dtype=dtype)


class Under:
    """A function compiled once per mode, called in it."""

    def __init__(self, fn, mode, dtype):
        self.fn, self.mode, self.dtype, self.jitted = fn, mode, dtype, None

    def __call__(self, *args):
        with MODES[self.mode]() if self.mode else contextlib.nullcontext():
            args = tmap(lambda x: jnp.asarray(x, self.dtype if np.asarray(x).dtype.kind == "f" else None), args)
            if self.jitted is None:
                self.jitted = self.fn if self.mode == "nojit" else jax.jit(self.fn)
            return npt(self.jitted(*args))


def typed(fam, lay):
    """The family's function in the layout's dtype under any promotion rule."""

    def fn(y, p):
        with jax.numpy_dtype_promotion("standard"), jax.numpy_rank_promotion("allow"):
            out = fam.fn(y, p)
        return tmap(lambda x: x.astype(lay.dtype), out)

    return fn


def agree(name, mode, a, b, dtype, what="value"):
    tol = 2e-4 if dtype == jnp.float32 else 1e-9
    check(int(a["code"]) == int(b["code"]) and int(a["steps"]) == int(b["steps"])
          and close(a[what], b[what], tol, tol),
          lambda: f"{name} under {mode}: {a}; in the default mode {b}")
    for x in leaves(a[what]):
        check(x.dtype == jnp.dtype(dtype), lambda: f"{name} under {mode}: {what} has dtype {x.dtype}")


def solve_cell(kind, name, make, mode, lname, budget=25, aux=False, batch=False, examples=4):
    dtype = jnp.float32 if "x32" in mode else jnp.float64
    if "x32" in mode:
        budget = min(budget, 7)  # before single-precision rounding decides anything
    lay = layout(lname, dtype)
    fam = C.Family(kind, lay, out=None if kind != "lsq" else Plain(
        "out", {"u": P.S(lay.n), "v": P.S()}, dtype=dtype))
    fn = typed(fam, lay)

    def run(y0, p, r, a):
        def one(y0):
            f = (lambda y, q: (fn(y, q), dict(k=tmap(lambda x: x * 2, y), n=3))) if aux else fn
            sol = C.ENTRY[kind](f, make(r, a), y0, p, max_steps=budget, throw=False, has_aux=aux)
            out = V.summary(sol)
            return dict(out, aux=sol.aux["k"]) if aux else out

        if not batch:
            return one(y0)
        s = jnp.asarray([0.25, 0.0], dtype)
        out = jax.vmap(lambda s: one(tmap(lambda x: x + s, y0)))(s)
        return tmap(lambda x: x[1], out)

    A, B = Under(run, mode, dtype), Under(run, None, dtype)

    def judge(d, e):
        p = fam.params(d["base"])
        y0 = lay.np_unflat(offset(fam.start(d["base"], p, name), e))
        tol = 10.0 ** -(2 + d["tol"])
        a = lib(A, y0, p, tol, tol)
        b = B(y0, p, tol, tol)
        agree(name, mode, a, b, dtype)
        if aux:
            agree(name, mode, a, b, dtype, "aux")
        return ["success", "budget", "diverged", "nonfinite", "other"][int(b["code"])]

    return Cell(f"solve/{mode}/{kind}/{name}/{lname}" + ("/aux" if aux else "") + (
        "/batch" if batch else ""), st.fixed_dictionaries(
            dict(base=fam.strategy, tol=st.integers(0, 1 if "x32" in mode else 4))),
        robust(judge), examples)


def grad_cell(kind, name, make, mode, lname, rev=True, unrolled=False, examples=3):
    dtype = jnp.float32 if "x32" in mode else jnp.float64
    lay = layout(lname, dtype)
    fam = C.Family(kind, lay, out=None if kind != "lsq" else Plain(
        "out", {"u": P.S(lay.n), "v": P.S()}, dtype=dtype))
    fn = typed(fam, lay)
    adj = optx.RecursiveCheckpointAdjoint() if unrolled else optx.ImplicitAdjoint()
    tol = 1e-4 if "x32" in mode else 1e-9

    def run(y0, p, w):
        def loss(q):
            sol = C.ENTRY[kind](fn, make(tol, tol), y0, q, max_steps=3 if unrolled else 60,
                                throw=False, adjoint=adj)
            with jax.numpy_dtype_promotion("standard"):
                return jnp.sum(lay.flat(sol.value) * w), V.summary(sol)

        if rev:
            g, s = jax.grad(loss, has_aux=True)(p)
        else:
            g, s = jax.jacfwd(loss, has_aux=True)(p)
        return dict(s, grad=g)

    A, B = Under(run, mode, dtype), Under(run, None, dtype)

    def judge(d):
        p = tmap(np.asarray, fam.params(d["base"]))
        y0 = lay.np_unflat(np.asarray(fam.start(d["base"], p, name), float))
        w = np.asarray(d["w"], float) / 8
        a = lib(A, y0, p, w)
        b = B(y0, p, w)
        if int(b["code"]) != 0 and not unrolled:
            return None
        loose = 2e-2 if dtype == jnp.float32 else 1e-7
        check(close(a["grad"], b["grad"], loose, loose),
              lambda: f"{name} under {mode}: derivative {a['grad']}; in the default mode {b['grad']}")
        for x in leaves(a["grad"]):
            check(x.dtype == jnp.dtype(dtype), lambda: f"{name} under {mode}: dtype {x.dtype}")
        return "unrolled" if unrolled else "implicit"

    return Cell(f"grad/{mode}/{kind}/{name}/{lname}/{'rev' if rev else 'fwd'}" + (
        "/unrolled" if unrolled else ""),
        st.fixed_dictionaries(dict(base=fam.strategy, w=P.vec(lay.n))), judge, examples)


def options_cell(which, mode, examples=8):
    """Options given as Python numbers, ints or arrays."""
    dtype = jnp.float32 if "x32" in mode else jnp.float64

    def forms(v, k):
        return [v, np.float32(v) if "x32" in mode else np.float64(v), jnp.asarray(v, dtype)][k]

    def call(d):
        c = d["c"] / 8.0
        lo, hi = forms(-2.5, d["k"]), forms(3.25, d["k"])
        if d["k"] == 0 and d["int"]:
            lo, hi = -3, 4
        y0 = jnp.asarray(0.5, dtype)
        C_ = jnp.asarray(c, dtype)
        if which == "Bisection":
            sol = optx.root_find(lambda y, a: (y - a) * 2, optx.Bisection(1e-3, 1e-3), y0, C_,
                                 options=dict(lower=lo, upper=hi), throw=False)
        elif which == "Golden":
            sol = optx.minimise(lambda y, a: (y - a) ** 2, optx.GoldenSearch(1e-3, 1e-3), y0, C_,
                                options=dict(lower=lo, upper=hi), throw=False)
        else:
            cls = dict(Newton=optx.Newton, Chord=optx.Chord)[which]
            lo, hi = jnp.asarray(lo, dtype), jnp.asarray(hi, dtype)
            sol = optx.root_find(lambda y, a: (y - a) * 2 + (y - a) ** 3 / 8, cls(1e-3, 1e-3), y0, C_,
                                 options=dict(lower=lo, upper=hi), throw=False)
        return V.summary(sol)

    def judge(d):
        with MODES[mode]():
            a = npt(lib(call, d))
        b = npt(call(d))
        agree(which, mode, a, b, dtype)
        return "ints" if d["int"] else "numbers"

    return Cell(f"options/{mode}/{which}", st.fixed_dictionaries(
        dict(c=st.integers(-15, 15), k=st.integers(0, 2), int=st.booleans())), judge, examples)


def compat_cell(mode, examples=4):
    dtype = jnp.float32 if "x32" in mode else jnp.float64

    def run(y0, p):
        def f(y, A, c):
            e = y - c
            return (e @ (A @ e)).astype(dtype)

        out = optx.compat.minimize(f, y0, (p["A"], p["c"]), method="bfgs", tol=1e-3)
        return dict(value=out.x, code=out.status, steps=out.nit)

    A, B = Under(run, mode, dtype), Under(run, None, dtype)

    def judge(d, e):
        A_ = np.eye(2) + np.outer(d["v"], d["v"]) / 64.0
        y0 = offset(np.asarray(d["y"]) / 4.0, e)
        p = dict(A=A_, c=np.asarray(d["c"]) / 4.0)
        agree("compat.minimize", mode, lib(A, y0, p), B(y0, p), dtype)
        return "compat"

    return Cell(f"compat/{mode}", st.fixed_dictionaries(dict(v=P.vec(2, 8), y=P.vec(2), c=P.vec(2))),
                robust(judge), examples)


def plain_cell(kind, name, make, examples=2):
    """Starts and data as a user in the default 32-bit mode writes them."""

    def judge(d):
        c = d["c"] / 8.0
        y0 = [0.5, 1, np.float32(0.25), jnp.asarray(0.75)][d["k"]]
        with narrow():
            f = dict(root=lambda y, a: 2 * (y - a) + 0.1 * jnp.sin(y - a),
                     fp=lambda y, a: a + 0.4 * (y - a), lsq=lambda y, a: (2 * (y - a), jnp.sin(y - a)),
                     min=lambda y, a: (y - a) ** 2)[kind]
            sol = lib(C.ENTRY[kind], f, make(1e-3, 1e-3), y0, c, throw=False, max_steps=512)
        v = np.asarray(sol.value)
        check(v.dtype == np.float32 and v.shape == (), lambda: f"{name}: {v.dtype} {v.shape}")
        check(int(V.rcode(sol.result)) == 0, lambda: f"{name}: {sol.result} from {y0!r}, solution {c}")
        check(abs(v - c) < 3e-2, lambda: f"{name}: {v} from {y0!r}, solution {c}")
        return type(y0).__name__

    return Cell(f"plain/{kind}/{name}", st.fixed_dictionaries(
        dict(c=st.integers(-12, 12), k=st.integers(0, 3))), judge, examples)


def cells(tier):
    full = tier != "quick"
    out = []
    names = ("pair", "vec2", "dict", "vec3", "none", "scalar", "mat")
    i = 0

    def lname(name):
        nonlocal i
        i += 1
        if "NM" in name or "NelderMead" in name:
            return ("scalars2", "scalars3")[i % 2]
        if "Indirect" in name and names[i % len(names)] == "scalar":
            return "vec2"  # Lineax cannot differentiate one-element single-precision solves in 64-bit mode
        return names[i % len(names)]

    for k, (kind, name, make) in enumerate(C.everything()):
        own = "Optax" in name and "SGD" not in name  # Optax itself needs the usual promotion
        modes = [m for m in ("strict", "x32", "x32strict") if not (own and "strict" in m)]
        if not full:
            modes = [m for j, m in enumerate(modes) if m == "x32" or (k + j) % 2 == 0]
        for m in modes:
            out.append(solve_cell(kind, name, make, m, lname(name), aux=i % 3 == 0,
                                  batch=i % 4 == 1 and "+" not in name))
    eager = [("root", "Newton"), ("fp", "FPI"), ("lsq", "GaussNewton"), ("lsq", "Dogleg"), ("min", "BFGS"),
             ("min", "NelderMead"), ("min", "CG-polak_ribiere"), ("min", "OptaxSGD"), ("root", "Chord"),
             ("min", "BestBFGS")]
    for kind, name in eager:
        out.append(solve_cell(kind, name, C.SOLVERS[kind][name], "nojit", lname(name), budget=5,
                              examples=1))
    grads = [("root", "Newton"), ("root", "Chord"), ("fp", "FPI"), ("lsq", "LevenbergMarquardt"),
             ("lsq", "Dogleg"), ("min", "BFGS"), ("min", "LBFGS"), ("min", "CG-polak_ribiere")]
    for k, (kind, name) in enumerate(grads):
        for j, m in enumerate(("strict", "x32", "x32strict")):
            if full or (k + j) % 2 == 0:
                out.append(grad_cell(kind, name, C.SOLVERS[kind][name], m, lname(name), rev=(k + j) % 4 != 0))
    for k, (kind, name) in enumerate((("root", "Newton"), ("fp", "FPIdamp"), ("lsq", "GaussNewton"),
                                      ("min", "GradientDescent"))):
        out.append(grad_cell(kind, name, C.SOLVERS[kind][name], ("strict", "x32", "x32strict", "x32")[k],
                             lname(name), unrolled=True))
    for m in ("strict", "x32", "x32strict"):
        for which in ("Bisection", "Golden", "Newton", "Chord"):
            out.append(options_cell(which, m, 5 if not full else 15))
        out.append(compat_cell(m))
    for kind, name, make in C.everything():
        if kind == "min" and ("Optax" in name or "OptaxAdam" in name):
            continue
        if full or "+" not in name and "Best" not in name:
            out.append(plain_cell(kind, name, make))
    return out
