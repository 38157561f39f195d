"""C27: function information computes objectives, gradients and predictions right."""

import equinox as eqx
import jax
import jax.numpy as jnp
import lineax as lx
import numpy as np
import optimistix as optx
from hypothesis import strategies as st

from . import problems as P
from .common import Lazy, npt
from .core import Cell, check, lib

FI = optx.FunctionInfo
OUT = {
    1: P.Layout("out1", P.S()),
    2: P.Layout("out2", (P.S(), P.S(1)), perm=[1, 0]),
    4: P.Layout("out4", {"u": P.S(1), "v": (P.S(3), None)}, perm=[2, 3, 0, 1]),
    5: P.Layout("out5", (P.S(2, 2), P.S())),
}


def dense_pytree(lay, out, J):
    """The matrix as a pytree of blocks, one per (output leaf, input leaf)."""
    struct = jax.eval_shape(lambda: out.unflat(jnp.zeros(out.n)))
    y = lay.unflat(jnp.zeros(lay.n))
    return lx.PyTreeLinearOperator(
        jax.jacfwd(lambda v: out.unflat(J @ lay.flat(v)))(y), struct
    )


def operator(kind, lay, out, J):
    y0 = lay.unflat(jnp.ones(lay.n))
    f = lambda v, _=None: out.unflat(J @ lay.flat(v))
    struct = jax.eval_shape(lambda: y0)
    if kind == "fn":
        return lx.FunctionLinearOperator(f, struct)
    if kind == "jac-fwd":
        return lx.JacobianLinearOperator(f, y0, jac="fwd")
    if kind == "jac-bwd":
        return lx.JacobianLinearOperator(f, y0, jac="bwd")
    if kind == "pytree":
        return dense_pytree(lay, out, J)
    if kind == "linearize":
        _, lin = jax.linearize(f, y0)
        return lx.FunctionLinearOperator(lin, struct)
    raise AssertionError(kind)


def resid_cell(kind, lay, m, examples=25):
    out = OUT[m]

    def build():
        @eqx.filter_jit
        def run(J, r, v):
            info = FI.ResidualJac(out.unflat(r), operator(kind, lay, out, J))
            grad = info.compute_grad()
            same = jax.tree_util.tree_structure(grad) == lay.treedef
            return (
                info.as_min(), lay.flat(grad), info.compute_grad_dot(lay.unflat(v)),
                FI.Residual(out.unflat(r)).as_min(), jnp.asarray(same),
            )

        return run

    fn = Lazy(build)

    def judge(d):
        J = np.array(d["J"]).reshape(m, lay.n) / 4.0
        r, v = np.array(d["r"]) / 4.0, np.array(d["v"]) / 4.0
        val, grad, dot, val2, same = npt(lib(fn, J, r, v))
        want = 0.5 * float(r @ r)
        check(val == want and val2 == want,
              lambda: f"value {val} (without Jacobian {val2}), half the sum of squares is {want}")
        check(same, "gradient has another structure than y")
        check(np.allclose(grad, J.T @ r, rtol=1e-12, atol=1e-12),
              lambda: f"gradient {grad}, J^T r = {J.T @ r}")
        check(np.isclose(dot, (J.T @ r) @ v, rtol=1e-12, atol=1e-12),
              lambda: f"directional derivative {dot}, expected {(J.T @ r) @ v}")
        return "non-zero" if np.any(J.T @ r) and np.any(v) else None

    strat = st.fixed_dictionaries(
        dict(J=P.ints(m * lay.n, -12, 12), r=P.vec(m), v=P.vec(lay.n))
    )
    return Cell(f"resid/{kind}/{lay.name}/{m}", strat, judge, examples)


def grad_cell(kind, lay, examples=25):
    n = lay.n

    def build():
        @eqx.filter_jit
        def run(f, g, H, v):
            struct = jax.eval_shape(lambda: lay.unflat(g))
            op = lx.FunctionLinearOperator(lambda u: lay.unflat(H @ lay.flat(u)), struct)
            info = {
                "EvalGrad": lambda: FI.EvalGrad(f, lay.unflat(g)),
                "EvalGradHessian": lambda: FI.EvalGradHessian(f, lay.unflat(g), op),
                "EvalGradHessianInv": lambda: FI.EvalGradHessianInv(f, lay.unflat(g), op),
            }[kind]()
            return info.as_min(), info.compute_grad_dot(lay.unflat(v)), FI.Eval(f).as_min()

        return run

    fn = Lazy(build)

    def judge(d):
        f = np.float64(d["f"] / 4.0)
        g, v = np.array(d["g"]) / 4.0, np.array(d["v"]) / 4.0
        H = np.array(d["H"]).reshape(n, n) / 4.0
        val, dot, val2 = npt(lib(fn, f, g, H, v))
        check(val == f and val2 == f, lambda: f"value {val}/{val2}, given {f}")
        check(np.isclose(dot, g @ v, rtol=1e-12, atol=1e-12),
              lambda: f"directional derivative {dot}, gradient.v = {g @ v}")
        return "non-zero" if np.any(g) and np.any(v) else None

    strat = st.fixed_dictionaries(
        dict(f=st.integers(-40, 40), g=P.vec(n), v=P.vec(n), H=P.ints(n * n, -8, 8))
    )
    return Cell(f"{kind}/{lay.name}", strat, judge, examples)


def agree_cell(lay, m, phi, examples=15):
    """Both descriptions of one least-squares function, at a random point."""
    out = OUT[m]
    f = P.PHI[phi]

    def build():
        @eqx.filter_jit
        def run(A, b, y, v):
            resid = lambda u, _=None: out.unflat(A @ f(lay.flat(u)) + b)
            loss = lambda u: 0.5 * jnp.sum(out.flat(resid(u)) ** 2)
            yt = lay.unflat(y)
            one = FI.ResidualJac(resid(yt), lx.JacobianLinearOperator(resid, yt))
            two = FI.EvalGrad(*jax.value_and_grad(loss)(yt))
            vt = lay.unflat(v)
            return (
                (one.as_min(), lay.flat(one.compute_grad()), one.compute_grad_dot(vt)),
                (two.as_min(), lay.flat(two.grad), two.compute_grad_dot(vt)),
            )

        return run

    fn = Lazy(build)

    def judge(d):
        A = np.array(d["A"]).reshape(m, lay.n) / 4.0
        a, b = npt(lib(fn, A, np.array(d["b"]) / 4.0, np.array(d["y"]) / 4.0, np.array(d["v"]) / 4.0))
        for x, z, what in zip(a, b, ("value", "gradient", "directional derivative")):
            check(np.allclose(x, z, rtol=1e-10, atol=1e-10),
                  lambda: f"{what}: residual information {x}, gradient information {z}")
        return "non-zero" if np.any(a[1]) else None

    strat = st.fixed_dictionaries(
        dict(A=P.ints(m * lay.n, -12, 12), b=P.vec(m), y=P.vec(lay.n), v=P.vec(lay.n))
    )
    return Cell(f"agree/{phi}/{lay.name}/{m}", strat, judge, examples)


def cells(tier):
    L = P.LAYOUTS
    out = []
    for kind in ("fn", "jac-fwd", "jac-bwd", "pytree", "linearize"):
        for lay, m in (("pair", 4), ("dict", 2), ("scalar", 5), ("mat22", 1), ("none", 4)):
            out.append(resid_cell(kind, L[lay], m))
    for kind in ("EvalGrad", "EvalGradHessian", "EvalGradHessianInv"):
        for lay in ("pair", "dict", "scalar", "mat22", "none"):
            out.append(grad_cell(kind, L[lay]))
    for phi in ("tanh", "sin"):
        for lay, m in (("pair", 4), ("dict", 5), ("scalar", 2), ("none", 1)):
            out.append(agree_cell(L[lay], m, phi))
    return out
