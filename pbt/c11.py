"""C11: structure, shape, dtype, args and aux pass through unchanged."""

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optimistix as optx
from hypothesis import strategies as st

from . import catalog as C, problems as P, solvers as V
from .common import Lazy, close, npt
from .core import Cell, check, lib

tmap = jax.tree_util.tree_map
leaves = jax.tree_util.tree_leaves
structure = jax.tree_util.tree_structure


def solver_kinds():
    for kind, name, make in C.everything():
        yield kind, kind, name, make
    for entry in ("root", "fp"):
        for name in ("LevenbergMarquardt", "GaussNewton"):
            yield entry, entry, name, C.LSQ[name]
        yield entry, entry, "BFGS", C.MIN["BFGS"]
    yield "fp", "fp", "Newton", C.ROOT["Newton"]
    for name in ("BFGS", "NelderMead", "OptaxAdam"):
        yield "lsq", "lsq", name, C.MIN[name]


# ---------------------------------------------------------------------------- dtypes


# name -> (leaf conversion, expected dtype)
DTYPES = {
    "f32": (lambda x: jnp.asarray(x, jnp.float32), np.float32),
    "np32": (lambda x: np.asarray(x, np.float32), np.float32),
    "np64": (lambda x: np.asarray(x, np.float64), np.float64),
    "int32": (lambda x: jnp.asarray(np.round(x), jnp.int32), np.float64),
    "npint": (lambda x: np.asarray(np.round(x), np.int64), np.float64),
    "pyfloat": (lambda x: float(x), np.float64),
    "pyint": (lambda x: int(round(float(x))), np.float64),
    "half": (lambda x: jnp.asarray(x, jnp.float16), np.float16),
    "bf16": (lambda x: jnp.asarray(x, jnp.bfloat16), jnp.bfloat16),
    "f16int": (lambda x: np.asarray(np.round(x), np.int8), np.float64),
}


def dtype_cell(entry, kind, name, make, lay, dt, jit, examples=2):
    conv, want = DTYPES[dt]
    fam = C.Family(kind, lay)
    single = want != np.float64
    cast = (lambda t: tmap(lambda x: np.asarray(x, want), t)) if single else (lambda t: t)
    tol = {"f32": 1e-3, "np32": 1e-3, "half": 5e-2, "bf16": 5e-2}.get(dt, 1e-5)
    seen = []

    def fn(y, p):
        seen.append([(jnp.shape(l), jnp.result_type(l)) for l in leaves(y)])
        return fam.fn(y, p) if not single else tmap(
            lambda x: x.astype(want), fam.fn(y, p))

    def call(y0, p):
        sol = C.ENTRY[entry](fn, make(tol, tol), y0, p, max_steps=40, throw=False)
        return sol.value, V.rcode(sol.result), sol.stats["num_steps"]

    runs = Lazy(lambda: jax.jit(call) if jit else call)

    def judge(d):
        p = cast(fam.params(d["base"]))
        z = np.round(np.array(d["z"])) / (1.0 if "int" in dt else 4.0)
        y0 = tmap(conv, lay.np_unflat(z))
        seen.clear()
        if jit:
            val, code, steps = lib(runs, y0, p)
        else:
            val, code, steps = lib(call, y0, p)
        here = lambda: f"{name} from {y0!r} ({dt}): {val!r}"
        check(structure(val) == structure(y0), here)
        for v, o in zip(leaves(val), leaves(y0)):
            check(isinstance(v, jax.Array) and v.shape == np.shape(o) and v.dtype == want, here)
        shapes = [(np.shape(o), np.dtype(want)) for o in leaves(y0)]
        check(all([(s, np.dtype(t)) for s, t in rec] == shapes for rec in seen),
              lambda: f"{here()}; the function was called on {seen}")
        # the same solve from a double-precision array
        ref = lib(C.ENTRY[entry], fam.fn, make(tol, tol), tmap(
            lambda x: jnp.asarray(x, jnp.float64), y0), fam.params(d["base"]), max_steps=40,
            throw=False) if d["ref"] else None
        if ref is not None and not single:
            check(int(ref.stats["num_steps"]) == int(steps) and close(
                npt(ref.value), npt(val), 1e-9, 1e-9),
                lambda: f"{here()}, from a double array {ref.value!r}")
        return f"code{int(code)}"

    return Cell(f"dtype/{entry}/{name}/{dt}/{lay.name}", st.fixed_dictionaries(
        dict(base=fam.strategy, z=P.vec(lay.n, 8 if "int" not in dt else 3), ref=st.booleans())),
        judge, examples)


# ------------------------------------------------------------------------------ args


def marker(x):
    return x * 2.0


class Holder(eqx.Module):
    w: jax.Array
    label: str = eqx.field(static=True)

    def __call__(self, x):
        return self.w * x


ARGS = st.recursive(
    st.sampled_from(["str", "none", "fn", "module", "farr", "iarr", "barr", "f32", "pyfloat",
                     "pyint", "pybool", "carr", "npstr", "empty"]),
    lambda sub: st.one_of(
        st.lists(sub, max_size=3).map(lambda x: ["L", *x]),
        st.lists(sub, min_size=1, max_size=3).map(lambda x: ["T", *x]),
        st.lists(sub, max_size=3).map(lambda x: ["D", *x])),
    max_leaves=7)


def build(spec, k=None):
    k = [0] if k is None else k
    if isinstance(spec, str):
        k[0] += 1
        i = k[0]
        return {
            "str": f"text{i}", "none": None, "fn": marker, "module": Holder(jnp.array(1.0 + i), "h"),
            "farr": jnp.arange(3.0) + i, "iarr": jnp.arange(4).reshape(2, 2) * i,
            "barr": jnp.array([True, False]), "f32": jnp.asarray(0.5 * i, jnp.float32),
            "pyfloat": 1.5 * i, "pyint": 7 * i, "pybool": bool(i % 2), "carr": jnp.array(1j * i),
            "npstr": np.arange(2.0) - i, "empty": (),
        }[spec]
    kind, *rest = spec
    parts = [build(r, k) for r in rest]
    if kind == "L":
        return parts
    if kind == "T":
        return tuple(parts)
    return {f"k{j}": v for j, v in enumerate(parts)}


def is_array(x):
    return isinstance(x, (jax.Array, np.ndarray, np.generic))


def args_cell(entry, kind, name, make, lay, examples=2):
    """Whatever the caller passes as args is what the function sees."""
    fam = C.Family(kind, lay)

    def judge(d):
        p = fam.params(d["base"])
        extra = build(d["extra"])
        given = (extra, p)
        seen = []
        values = []

        def fn(y, args):
            seen.append(args)
            got, q = args
            num = [l for l in leaves(got) if is_array(l) or isinstance(l, (int, float))]
            jax.debug.callback(lambda *v: values.append([np.asarray(u) for u in v]), *num)
            return fam.fn(y, q)

        y0 = lay.np_unflat(fam.start(d["base"], p, name))
        before = structure(given)
        sol = lib(C.ENTRY[entry], fn, make(1e-4, 1e-4), y0, given, max_steps=6, throw=False)
        jax.effects_barrier()
        ref = lib(C.ENTRY[entry], fam.fn, make(1e-4, 1e-4), y0, p, max_steps=6, throw=False)
        check(close(npt(sol.value), npt(ref.value), 1e-9, 1e-9),
              lambda: f"{name}: args {extra!r} changed the answer")
        check(structure(given) == before, f"{name}: the caller's args were changed")
        for got, _ in seen:
            check(structure(got) == structure(extra),
                  lambda: f"{name}: args {extra!r} arrived as {got!r}")
            for a, b in zip(leaves(extra), leaves(got)):
                if is_array(a):
                    check(jnp.shape(b) == a.shape and jnp.result_type(b) == a.dtype,
                          lambda: f"{name}: array {a!r} arrived as {b!r}")
                elif isinstance(a, (str,)) or callable(a):
                    check(a is b or a == b, lambda: f"{name}: {a!r} arrived as {b!r}")
                else:
                    check(jnp.shape(b) == (), lambda: f"{name}: {a!r} arrived as {b!r}")
        want = [np.asarray(l) for l in leaves(extra) if is_array(l) or isinstance(l, (int, float))]
        check(len(values) > 0 and all(
            len(v) == len(want) and all(np.array_equal(x, y) for x, y in zip(v, want))
            for v in values), lambda: f"{name}: args {want} seen as {values[:2]}")
        return "args"

    return Cell(f"args/{entry}/{name}/{lay.name}", st.fixed_dictionaries(
        dict(base=fam.strategy, extra=ARGS)), judge, examples)


# ------------------------------------------------------------------------------- aux


AUX = st.recursive(
    st.sampled_from(["none", "y", "y32", "int", "bool", "complex", "args", "pyfloat", "pyint",
                     "mat", "half", "empty", "uint", "np"]),
    lambda sub: st.one_of(
        st.lists(sub, max_size=3).map(lambda x: ["L", *x]),
        st.lists(sub, min_size=1, max_size=3).map(lambda x: ["T", *x]),
        st.lists(sub, max_size=3).map(lambda x: ["D", *x])),
    max_leaves=6)


def make_aux(spec, z, p, k=None):
    k = [0] if k is None else k
    if isinstance(spec, str):
        k[0] += 1
        i = k[0]
        s = jnp.sum(z)
        return {
            "none": lambda: None, "y": lambda: z * i, "y32": lambda: (z + i).astype(jnp.float32),
            "int": lambda: jnp.floor(s * 10).astype(jnp.int32), "bool": lambda: z > 0.1 * i,
            "complex": lambda: s + 1j * i, "args": lambda: tmap(lambda x: x * i, p),
            "pyfloat": lambda: 2.5 * i, "pyint": lambda: 3 * i, "mat": lambda: jnp.outer(z, z) * i,
            "half": lambda: s.astype(jnp.float16), "empty": lambda: (),
            "uint": lambda: jnp.asarray(i, jnp.uint8), "np": lambda: np.arange(3) * i,
        }[spec]()
    kind, *rest = spec
    parts = [make_aux(r, z, p, k) for r in rest]
    if kind == "L":
        return parts
    if kind == "T":
        return tuple(parts)
    return {f"k{j}": v for j, v in enumerate(parts)}


def aux_cell(entry, kind, name, make, lay, budget, examples=2):
    """Aux comes back with the structure, dtypes and values the function gave it."""
    fam = C.Family(kind, lay)

    def judge(d):
        p = fam.params(d["base"])
        spec = d["aux"]

        def fn(y, q):
            z = lay.flat(y)
            return fam.fn(y, q), (z, make_aux(spec, z, q))

        y0 = lay.np_unflat(fam.start(d["base"], p, name))
        sol = lib(C.ENTRY[entry], fn, make(1e-4, 1e-4), y0, p, has_aux=True, max_steps=budget,
                  throw=False)
        ref = lib(C.ENTRY[entry], fam.fn, make(1e-4, 1e-4), y0, p, max_steps=budget, throw=False)
        check(int(sol.stats["num_steps"]) == int(ref.stats["num_steps"])
              and close(npt(sol.value), npt(ref.value), 1e-9, 1e-9)
              and int(V.rcode(sol.result)) == int(V.rcode(ref.result)),
              lambda: f"{name}: with aux {sol.value}, without {ref.value}")
        check(ref.aux is None, f"{name}: aux without has_aux is {ref.aux!r}")
        z, aux = sol.aux
        want = make_aux(spec, z, p)
        check(structure(aux) == structure(want), lambda: f"{name}: aux {aux!r}, made {want!r}")
        for a, b in zip(leaves(aux), leaves(want)):
            check(jnp.shape(a) == jnp.shape(b) and jnp.result_type(a) == jnp.asarray(b).dtype,
                  lambda: f"{name}: aux leaf {a!r}, made {b!r}")
            exact = jnp.result_type(b).kind in "iub"
            # an integer made from y by rounding down may sit on the edge
            near = close(npt(a), np.asarray(b), 1e-5, 1e-6) if not exact else bool(
                np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <= (
                    0 if jnp.result_type(b) == bool else 1)))
            check(near or jnp.result_type(b) == jnp.float16, lambda: f"{name}: aux leaf {a!r}, made {b!r}")
        return f"code{int(V.rcode(sol.result))}"

    return Cell(f"aux/{entry}/{name}/{lay.name}", st.fixed_dictionaries(
        dict(base=fam.strategy, aux=AUX)), judge, examples)


# JAX has no dense linear algebra in half precision, so only solvers without it.
HALF = ("half", "bf16")


WITHOUT = {"BFGS", "DFP", "LBFGS", "LBFGS2", "BFGS+Newton+LTR", "CG+PR+LTR", "NelderMead",
           "GradientDescent", "OptaxAdam", "OptaxSGD", "BestBFGS", "BestNM", "BestOptax"}


def half_kinds():
    for kind, name, make in C.everything():
        if kind == "fp" or name in WITHOUT or name.startswith(("CG-", "GD+")):
            yield kind, name, make


def bracket_cell(entry, name, cls, dt, examples=4):
    """The scalar-only solvers, which take their interval as an option."""
    conv, want = DTYPES[dt]
    tol = {"f32": 1e-3, "np32": 1e-3, "half": 5e-2, "bf16": 5e-2}.get(dt, 1e-5)
    seen = []

    def fn(y, c):
        seen.append((jnp.shape(y), jnp.result_type(y)))
        u = y - c
        v = u + 0.25 * u * u * u if entry == "root" else u * u + jnp.abs(u) * 0.25
        return v, dict(u=u, k=jnp.floor(u).astype(jnp.int32), s=())

    def judge(d):
        c = np.asarray(d["c"] / 4.0, want)
        lo, hi = d["c"] / 4.0 - 1 - d["l"] / 4.0, d["c"] / 4.0 + 1 + d["u"] / 4.0
        if d["b"] == "int":
            lo, hi = int(np.floor(lo)), int(np.ceil(hi))
        elif d["b"] == "np":
            lo, hi = np.float32(lo), np.float32(hi)
        elif d["b"] == "jnp":
            lo, hi = jnp.asarray(lo, want), jnp.asarray(hi, want)
        y0 = conv(np.float64(d["c"] / 4.0 + 0.5))
        seen.clear()
        sol = lib(C.ENTRY[entry], fn, cls(tol, tol), y0, c, options=dict(lower=lo, upper=hi),
                  throw=False, max_steps=200, has_aux=True)
        here = lambda: f"{name} from {y0!r} on {lo!r}, {hi!r} ({dt}): {sol.value!r}"
        check(isinstance(sol.value, jax.Array) and sol.value.shape == ()
              and sol.value.dtype == want, here)
        check(all(s == () and np.dtype(t) == np.dtype(want) for s, t in seen),
              lambda: f"{here()}; the function was called on {seen}")
        check(set(sol.aux) == {"u", "k", "s"} and sol.aux["u"].dtype == want
              and sol.aux["k"].dtype == np.int32 and sol.aux["s"] == (),
              lambda: f"{here()}; aux {sol.aux!r}")
        code = int(V.rcode(sol.result))
        if code == 0:
            check(abs(float(sol.value) - float(c)) <= 4 * tol * (1 + abs(float(c))), here)
        return f"code{code}"

    return Cell(f"dtype/{entry}/{name}/{dt}", st.fixed_dictionaries(dict(
        c=st.integers(-12, 12), l=st.integers(0, 6), u=st.integers(0, 6),
        b=st.sampled_from(["float", "int", "np", "jnp"]))), judge, examples)


def cells(tier):
    L = P.LAYOUTS
    lays = ("pair", "vec2", "dict", "none", "mat22", "scalar")
    dts = [dt for dt in DTYPES if dt not in HALF]
    out = []
    for i, (entry, kind, name, make) in enumerate(solver_kinds()):
        nm = name in ("NelderMead", "BestNM")
        pick = lambda j: L[("scalars2", "scalars3")[j % 2]] if nm else L[lays[(i + j) % 6]]
        scal = L["scalar"] if i % 2 else P.Layout("pyscalars", {"a": P.S(), "b": (P.S(), None)})
        # assembled solvers share code with the named ones: one kind of check each
        only = i % 3 if "+" in name and tier == "quick" else None
        for dt in ("f32", dts[1 + i % 7]):
            if dt != "f32" and only not in (None, 0):
                continue
            lay = scal if dt.startswith("py") else pick(0)
            out.append(dtype_cell(entry, kind, name, make, lay, dt, dt == "f32",
                                  examples=3 if dt == "f32" else 1))
        if only in (None, 1):
            out.append(args_cell(entry, kind, name, make, pick(1), examples=1))
        if only in (None, 2):
            out.append(aux_cell(entry, kind, name, make, pick(2), (1, 4, 30)[i % 3], examples=1))
    for i, (kind, name, make) in enumerate(half_kinds()):
        nm = name in ("NelderMead", "BestNM")
        lay = L["scalars2"] if nm else L[lays[i % 6]]
        for dt in HALF:
            out.append(dtype_cell(kind, kind, name, make, lay, dt, False, examples=1))
    for dt in DTYPES:
        out.append(bracket_cell("root", "Bisection", optx.Bisection, dt))
        out.append(bracket_cell("min", "GoldenSearch", optx.GoldenSearch, dt))
    return out
