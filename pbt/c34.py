"""C34: step lengths, projections and selections for box constraints."""

import equinox as eqx
import jax
import jax.numpy as jnp
import lineax as lx
import numpy as np
from hypothesis import strategies as st
from optimistix._misc import feasible_step_length, tree_clip, tree_where
from optimistix._solver.cauchy_point import cauchy_point

from . import problems as P
from .common import Lazy, npt
from .core import Cell, Violation, check, lib

LIMIT = 400  # products with the Hessian; a search over n <= 5 coordinates needs ~10


def side(n):
    """Distances to a bound: 0 (on it), positive, or none (no bound)."""
    return st.lists(
        st.one_of(st.integers(0, 12), st.sampled_from([0, 40, None])), min_size=n, max_size=n
    )


def dist(x):
    return np.array([np.inf if v is None else v / 4.0 for v in x])


# ---------------------------------------------------------------------- step lengths


def step_cell(lay, dtype, offset, examples=60):
    n = lay.n

    def build():
        @eqx.filter_jit
        def run(x, dx, lo, up, off):
            tree = lambda v: jax.tree_util.tree_map(lambda a: a.astype(dtype), lay.unflat(v))
            kw = dict(offset=off.astype(dtype)) if offset else {}
            out = feasible_step_length(tree(x), tree(dx), tree(lo), tree(up), **kw)
            good = jax.tree_util.tree_structure(out) == jax.tree_util.tree_structure(tree(x))
            return lay.flat(out), jnp.array(good)

        return run

    fn = Lazy(build)
    eps = float(jnp.finfo(dtype).eps)

    def judge(d):
        x, dx = np.array(d["x"]) / 4.0, np.array(d["dx"]) / 4.0
        lo, up = x - dist(d["lo"]), x + dist(d["up"])
        # some points start outside the box, by a quarter to three
        out_lo = (np.array(d["out"]) < 0) & np.isfinite(lo)
        out_up = (np.array(d["out"]) > 0) & np.isfinite(up)
        shift = np.abs(np.array(d["out"])) / 4.0
        lo = np.where(out_lo, x + shift, lo)
        up = np.where(out_lo, np.maximum(up, lo + 1), up)
        up = np.where(out_up, x - shift, up)
        lo = np.where(out_up, np.minimum(lo, up - 1), lo)
        off = d["off"] / 16.0 if offset else 0.0
        t, good = npt(lib(fn, x, dx, lo, up, np.float64(off)))
        check(good, "step lengths come in another structure")
        labels = set()
        for i in range(n):
            bound = up[i] if dx[i] > 0 else lo[i]
            room = (bound - x[i]) if dx[i] > 0 else (x[i] - bound)
            where = (f"element {i}: at {x[i]}, step {dx[i]}, box [{lo[i]}, {up[i]}], "
                     f"offset {off}: fraction {t[i]}")
            check(0 <= t[i] <= 1, lambda: where + ", not in [0, 1]")
            if dx[i] == 0 or np.isinf(bound):
                want, label = 1.0, "free"
            elif room <= 0:
                want, label = 0.0, "blocked"
            else:
                want = min(1.0, (1 - off) * room / abs(dx[i]))
                label = "cut" if want < 1 else "full"
            labels.add(label)
            check(abs(t[i] - want) <= 8 * eps, lambda: where + f", expected {want}")
        return "+".join(sorted(labels & {"cut", "blocked", "full"})) or None

    strat = st.fixed_dictionaries(dict(
        x=P.vec(n, 12), dx=P.vec(n, 16), lo=side(n), up=side(n), off=st.integers(0, 15),
        out=st.lists(st.sampled_from([0, 0, 0, 0, -1, -12, 1, 12]), min_size=n, max_size=n)))
    name = f"step/{lay.name}/{jnp.dtype(dtype).name}" + ("/offset" if offset else "")
    return Cell(name, strat, judge, examples)


def batch_cell(lay, examples=30):
    """Step lengths element by element: any batch equals its members."""
    n = lay.n

    def build():
        @eqx.filter_jit
        def run(x, dx, lo, up):
            one = lambda *a: lay.flat(feasible_step_length(*(lay.unflat(v) for v in a)))
            return jax.vmap(one)(x, dx, lo, up), [one(*v) for v in zip(x, dx, lo, up)]

        return run

    fn = Lazy(build)

    def judge(d):
        x, dx = (np.array([m[k] for m in d]) / 4.0 for k in ("x", "dx"))
        lo = x - np.array([dist(m["lo"]) for m in d])
        up = x + np.array([dist(m["up"]) for m in d])
        many, single = npt(lib(fn, x, dx, lo, up))
        check(np.allclose(many, np.array(single), rtol=1e-14, atol=1e-15),
              lambda: f"batched step lengths {many}, one by one {single}")
        return "batch" if np.any(many < 1) else None

    return Cell(f"step-batch/{lay.name}", st.lists(st.fixed_dictionaries(dict(
        x=P.vec(n, 12), dx=P.vec(n, 16), lo=side(n), up=side(n))), min_size=3, max_size=3),
        judge, examples)


# ------------------------------------------------------------- clipping and selecting


def clip_cell(lay, examples=40):
    n = lay.n

    def build():
        return eqx.filter_jit(lambda x, lo, up: lay.flat(
            tree_clip(lay.unflat(x), lay.unflat(lo), lay.unflat(up))))

    fn = Lazy(build)

    def judge(d):
        x = np.array(d["x"]) / 4.0
        lo, up = -dist(d["lo"]) + d["m"] / 4.0, dist(d["up"]) + d["m"] / 4.0
        got = npt(lib(fn, x, lo, up))
        want = np.minimum(np.maximum(x, lo), up)
        check(np.array_equal(got, want),
              lambda: f"clipping {x} to [{lo}, {up}]: {got}, expected {want}")
        return "clipped" if np.any(want != x) else None

    return Cell(f"clip/{lay.name}", st.fixed_dictionaries(dict(
        x=P.vec(n, 24), lo=side(n), up=side(n), m=st.integers(-8, 8))),
        judge, examples)


def where_cell(examples=40):
    """Selection with any prefix of the tree as the condition."""
    tree = lambda v: {"a": (v[0], v[1:3]), "b": [v[3], {"c": v[4:6].reshape(1, 2)}]}
    flat = lambda t: np.concatenate([np.ravel(l) for l in jax.tree_util.tree_leaves(t)])

    def prefix(kind, p):
        p = np.array(p)
        if kind == "all":
            return np.bool_(p[0]), np.full(6, p[0])
        if kind == "branch":
            return {"a": np.bool_(p[0]), "b": np.bool_(p[1])}, np.repeat([p[0], p[1]], [3, 3])
        if kind == "mixed":
            return ({"a": (np.bool_(p[0]), p[1:3]), "b": np.bool_(p[3])},
                    np.array([p[0], p[1], p[2], p[3], p[3], p[3]]))
        return tree(p), p

    run = eqx.filter_jit(lambda p, a, b: tree_where(p, a, b))

    def judge(d):
        a, b = np.array(d["a"]) / 4.0, np.array(d["b"]) / 4.0
        pred, full = prefix(d["kind"], d["p"])
        got = flat(npt(lib(run, pred, tree(a), tree(b))))
        want = np.where(full, a, b)
        check(np.array_equal(got, want), lambda: f"selecting by {pred}: {got}, expected {want}")
        return d["kind"] if np.any(want != a) and np.any(want != b) else None

    return Cell("where", st.fixed_dictionaries(dict(
        a=P.vec(6), b=P.vec(6), p=st.lists(st.booleans(), min_size=6, max_size=6),
        kind=st.sampled_from(["all", "branch", "mixed", "leaves"]))), judge, examples)


# ------------------------------------------------------------- projected gradient point


def cauchy_data(n):
    return st.fixed_dictionaries(dict(
        y=P.vec(n, 12), g=P.vec(n, 12), lo=side(n), up=side(n),
        H=P.spd_data(n), k=st.integers(-8, 6)))


def cauchy_problem(n, d):
    y, g = np.array(d["y"]) / 4.0, np.array(d["g"]) / 4.0
    lo, up = dist(d["lo"]), dist(d["up"])
    up = np.where((lo == 0) & (up == 0), 1.0, up)  # the bounds must differ
    return y, y - lo, y + up, g, P.spd(n, d["H"]) * 2.0 ** d["k"]


class Guarded:
    """The search for a point, with the products with the Hessian counted so that a
    search that does not end is stopped."""

    def __init__(self, lay):
        self.lay = lay
        self.count = 0
        self.fn = None

    def bump(self, v):
        self.count += 1
        if self.count > LIMIT:
            raise RuntimeError("too many")
        return np.zeros_like(v)

    def build(self):
        lay = self.lay

        @eqx.filter_jit
        def run(y, lo, up, g, H):
            struct = jax.eval_shape(lambda: lay.unflat(y))

            def mv(v):
                v = lay.flat(v)
                zero = jax.pure_callback(
                    self.bump, jax.ShapeDtypeStruct(v.shape, v.dtype), v,
                    vmap_method="sequential")
                return lay.unflat(H @ v + zero)

            op = lx.FunctionLinearOperator(mv, struct, lx.positive_semidefinite_tag)
            out = cauchy_point(*(lay.unflat(v) for v in (y, lo, up, g)), op)
            return lay.flat(out)

        return run

    def __call__(self, *case):
        if self.fn is None:
            self.fn = self.build()
        self.count = 0
        try:
            return np.asarray(self.fn(*case))
        except Exception as e:
            if self.count > LIMIT:
                raise Violation(f"the search for the projected point does not end: {case}") from e
            return lib(self._again, e)

    def _again(self, e):
        raise e


def fraction(y, lo, up, g, r, tol):
    """A t in [0, 1] with r = clip(y - t g), or None."""
    cands = [0.0, 1.0] + [(y[j] - r[j]) / g[j] for j in range(len(y)) if g[j] != 0]
    for t in cands:
        if -tol <= t <= 1 + tol and np.all(np.abs(np.clip(y - t * g, lo, up) - r) <= tol):
            return t
    return None


def point_cell(lay, examples=60):
    n = lay.n
    fn = Guarded(lay)

    def judge(d):
        y, lo, up, g, H = case = cauchy_problem(n, d)
        r = fn(*case)
        text = lambda: f"from {y}, gradient {g}, box [{lo}, {up}]: {r}"
        check(np.all(np.isfinite(r)), lambda: text() + ", not finite")
        check(np.all(r >= lo - 1e-12) and np.all(r <= up + 1e-12),
              lambda: text() + ", outside the box")
        t = fraction(y, lo, up, g, r, 1e-9)
        check(t is not None, lambda: text() + ", not on the projected gradient path")
        full = y - g
        if np.all(full > lo) and np.all(full < up):
            check(np.allclose(r, full, rtol=0, atol=1e-12),
                  lambda: text() + ", though the whole gradient step stays inside")
            return "full step"
        if np.all(g == 0):
            check(np.array_equal(r, y), lambda: text() + ", though the gradient is zero")
        return "stays" if t == 0 else ("at a bound" if np.any((r == lo) | (r == up)) else "inside")

    return Cell(f"point/{lay.name}", cauchy_data(n), judge, examples)


def weak_cell(lay, examples=40):
    """With hardly any curvature the model falls along the whole path, so from a point
    strictly inside the box the path is followed up to its last bend."""
    n = lay.n
    fn = Guarded(lay)

    def judge(d):
        y, lo, up, g, H = cauchy_problem(n, d)
        lo, up = np.where(lo == y, y - 0.125, lo), np.where(up == y, y + 0.375, up)
        H = H * 2.0**-40
        r = fn(y, lo, up, g, H)
        with np.errstate(divide="ignore", invalid="ignore"):
            bends = np.where(g > 0, (y - lo) / g, np.where(g < 0, (y - up) / g, np.inf))
        bends = bends[(bends > 0) & (bends < 1)]
        if len(bends) == 0:
            return None
        # a bend at or past the end of the step counts as its end
        with np.errstate(divide="ignore", invalid="ignore"):
            late = np.where(g > 0, (y - lo) / g, np.where(g < 0, (y - up) / g, np.inf))
        last = 1.0 if np.any(np.isfinite(late) & (late >= 1)) else bends.max()
        want = np.clip(y - last * g, lo, up)
        check(np.allclose(r, want, rtol=0, atol=1e-9), lambda: (
            f"from {y}, gradient {g}, box [{lo}, {up}], no curvature: {r}, expected {want}"))
        return f"{min(len(set(bends)), 3)} bends"

    return Cell(f"weak/{lay.name}", cauchy_data(n), judge, examples)


def same_cell(kind, a, b, examples=40):
    """Other layouts, orders and batches give the same point."""
    n = a.n
    one = Guarded(a)
    if kind in ("layout", "order"):
        other = Guarded(b)
    else:
        def build():
            @eqx.filter_jit
            @jax.vmap
            def run(y, lo, up, g, H):
                op = lx.MatrixLinearOperator(H, lx.positive_semidefinite_tag)
                return cauchy_point(y, lo, up, g, op)

            return run

        other = Lazy(build)

    def judge(d):
        cases = [cauchy_problem(n, m) for m in d["m"]]
        singles = [one(*c) for c in cases]
        p = np.argsort(np.array(d["p"]), kind="stable")
        if kind == "layout":
            gots = [other(*c) for c in cases]
        elif kind == "order":
            gots = [other(*(v[p] for v in c[:4]), c[4][np.ix_(p, p)])[np.argsort(p)]
                    for c in cases]
        else:
            gots = list(npt(lib(other, *(np.stack(v) for v in zip(*cases)))))
        for c, s, g in zip(cases, singles, gots):
            check(np.allclose(s, g, rtol=1e-9, atol=1e-11), lambda: (
                f"projected point from {c}: {s}; {kind} ({p if kind == 'order' else b.name}): {g}"))
        return "moved" if any(np.any(s != c[0]) for s, c in zip(singles, cases)) else None

    size = 3 if kind == "batch" else 2
    return Cell(f"{kind}/{a.name}-{b.name}", st.fixed_dictionaries(dict(
        m=st.lists(cauchy_data(n), min_size=size, max_size=size), p=P.ints(n, 0, 9))),
        judge, examples)


def cells(tier):
    L = P.LAYOUTS
    out = []
    for lay in ("scalar", "vec3", "dict", "none", "mat22", "pair"):
        out.append(step_cell(L[lay], jnp.float64, False))
        out.append(step_cell(L[lay], jnp.float64, True))
        out.append(clip_cell(L[lay]))
        out.append(point_cell(L[lay]))
    for lay in ("vec2", "vec4"):
        out.append(step_cell(L[lay], jnp.float32, False))
        out.append(step_cell(L[lay], jnp.float32, True))
        out.append(batch_cell(L[lay]))
        out.append(point_cell(L[lay]))
    out.append(where_cell())
    for lay in ("scalar", "vec2", "vec4", "dict"):
        out.append(weak_cell(L[lay]))
    for a, b in (("vec4", "dict"), ("vec4", "mat22"), ("vec3", "none"), ("vec3", "pair")):
        out.append(same_cell("layout", L[a], L[b]))
    for lay in ("vec2", "vec3", "vec4"):
        out.append(same_cell("order", L[lay], L[lay]))
        out.append(same_cell("batch", L[lay], L[lay]))
    return out
