"""C15: descents return the step of dense linear algebra."""

import equinox as eqx
import jax
import jax.numpy as jnp
import lineax as lx
import numpy as np
import optimistix as optx
from hypothesis import strategies as st

from . import problems as P
from .common import Lazy, npt
from .core import Cell, check, lib

FI = optx.FunctionInfo
NORMS = {"two": optx.two_norm, "max": optx.max_norm, "rms": optx.rms_norm}
NPNORM = {
    "two": lambda v: np.sqrt(np.sum(v**2)),
    "max": lambda v: np.max(np.abs(v)),
    "rms": lambda v: np.sqrt(np.mean(v**2)),
}
OUT = {
    1: P.Layout("out1", P.S()),
    2: P.Layout("out2", (P.S(), P.S(1)), perm=[1, 0]),
    3: P.Layout("out3", [P.S(2), P.S()], perm=[2, 0, 1]),
    4: P.Layout("out4", {"u": P.S(1), "v": P.S(3)}),
    5: P.Layout("out5", (P.S(2, 2), P.S())),
    13: P.Layout("out13", (P.S(2, 5), {"a": P.S(3)})),
}


def info_of(kind, lay, m, d, tag=True, opkind="fn"):
    struct = jax.eval_shape(lambda: lay.unflat(d["g"]))

    def op(mat, out=lay, tags=()):
        return lx.FunctionLinearOperator(
            lambda v: out.unflat(mat @ lay.flat(v)), struct, tags
        )

    g = lay.unflat(d["g"])
    psd = lx.positive_semidefinite_tag if tag else ()
    if kind == "grad":
        return FI.EvalGrad(d["f"], g)
    if kind == "hess":
        if opkind == "mat":
            return FI.EvalGradHessian(d["f"], g, lx.MatrixLinearOperator(d["H"], psd))
        return FI.EvalGradHessian(d["f"], g, op(d["H"], tags=psd))
    if kind == "inv":
        return FI.EvalGradHessianInv(d["f"], g, op(d["Hi"], tags=psd))
    if opkind == "jac":
        # the operator the library itself uses: a Jacobian of a function
        fn = lambda y, _: OUT[m].unflat(d["J"] @ lay.flat(y) + d["r"])
        zero = lay.unflat(0 * d["g"])
        return FI.ResidualJac(OUT[m].unflat(d["r"]), lx.JacobianLinearOperator(fn, zero, jac="fwd"))
    return FI.ResidualJac(OUT[m].unflat(d["r"]), op(d["J"], OUT[m]))


class Model:
    """The dense quadratic model behind a piece of function information."""

    def __init__(self, info, J, r, H, g):
        self.resid = info == "resid"
        if self.resid:
            self.g, self.H = J.T @ r, J.T @ J
            self.newton = -np.linalg.pinv(J) @ r
        else:
            self.g, self.H = g, H
            self.newton = -np.linalg.solve(H, g)

    def damped(self, lam):
        return -np.linalg.solve(self.H + lam * np.eye(len(self.g)), self.g)

    @property
    def cauchy(self):
        den = self.g @ self.H @ self.g
        return -(self.g @ self.g) / den * self.g if den > 0 else 0 * self.g


def descend(make, info, lay, m, tag, opkind):
    def build():
        @eqx.filter_jit
        def run(s, y, d):
            fi = info_of(info, lay, m, d, tag, opkind)
            desc = make()
            state = desc.init(lay.unflat(y), eqx.filter_eval_shape(lambda: fi))
            state = desc.query(lay.unflat(y), fi, state)
            step, result = desc.step(s, state)
            return lay.flat(step), result == optx.RESULTS.successful

        return run

    return Lazy(build)


def data(lay, m, d, scaled=True):
    n = lay.n
    H = P.spd(n, d["H"])
    u = 2.0 ** d["unit"] if scaled else 1.0
    g = np.array(d["g"]) / 4.0 * u
    J = P.tall(m, n, d["J"]) if m >= n else P.tall(n, m, d["J"]).T
    r = np.array(d["r"]) / 4.0 * u
    return dict(g=g, H=H, Hi=np.linalg.inv(H), J=J, r=r, f=np.float64(d["f"]))


def data_strategy(lay, m, sizes):
    n = lay.n
    return st.fixed_dictionaries(
        dict(
            H=P.spd_data(n), g=P.vec(n), J=P.tall_data(max(m, n), min(m, n)),
            r=P.vec(m), f=st.integers(-3, 3), y=P.vec(n), s=sizes,
            special=st.sampled_from([0] * 7 + [1, 2]),
            unit=st.sampled_from([0] * 4 + [-16, -8, 8, 16]),
        )
    )


def simple_cell(name, make, info, lay, m, expect, tag=True, opkind="fn", examples=12):
    """Descents with a closed-form step."""
    fn = descend(make, info, lay, m, tag, opkind)

    def judge(d):
        x = data(lay, m, d)
        s = np.float64(10.0 ** (d["s"] / 10.0))
        mod = Model(info, x["J"], x["r"], x["H"], x["g"])
        if np.linalg.norm(mod.g) < 1e-9:
            return None
        unit = 2.0 ** d["unit"]
        got, ok = npt(lib(fn, s, np.array(d["y"]) / 4.0, x))
        want = expect(mod, s)
        check(ok, lambda: f"{name}: result not successful at step size {s}")
        check(
            np.allclose(got, want, rtol=1e-7, atol=1e-9 * (min(unit, 1) * s + np.max(np.abs(want)))),
            lambda: f"{name}: step size {s}: got {got}, dense linear algebra gives {want}",
        )
        return "damped regime" if s < 1 else "newton regime"

    strat = data_strategy(lay, m, st.integers(-40, 40))
    nm = f"{name}/{info}{m if info == 'resid' else ''}/{lay.name}/{'tag' if tag else 'notag'}/{opkind}"
    return Cell(nm, strat, judge, examples)


def dogleg_path(mod, s, norm):
    """(point, regime, tolerance vector length) on the Cauchy-Newton path."""
    nn, cn = norm(mod.newton), norm(mod.cauchy)
    rad = s * nn
    if cn > rad:
        return mod.cauchy / cn * rad, "cauchy"
    if s >= 1:
        return mod.newton, "newton"
    d = mod.newton - mod.cauchy
    lo, hi = 0.0, 1.0
    for _ in range(200):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if norm(mod.cauchy + mid * d) < rad else (lo, mid)
    return mod.cauchy + lo * d, "interpolated"


def off_leg(p, a, b):
    """Distance of p from the segment from a to b."""
    d = b - a
    t = np.clip((p - a) @ d / max(d @ d, 1e-300), 0, 1)
    return np.linalg.norm(p - a - t * d)


def special_size(mod, norm, which):
    """Step sizes at which the intersection formulas have special cases."""
    c, n = mod.cauchy, mod.newton
    if which == 1:
        return np.linalg.norm(2 * c - n) / max(np.linalg.norm(n), 1e-12)
    return norm(c) / max(norm(n), 1e-12)


def trust_cell(kind, info, lay, m, nname, tag=True, opkind="fn", rf=None, examples=12):
    norm = NPNORM[nname]

    def make():
        if kind == "dogleg":
            if nname == "two":
                return optx.DoglegDescent(linear_solver=lx.AutoLinearSolver(well_posed=None))
            return optx.DoglegDescent(
                linear_solver=lx.AutoLinearSolver(well_posed=None),
                trust_region_norm=NORMS[nname],
            )
        kw = dict(trust_region_norm=NORMS[nname])
        if rf == "tight":
            kw["root_finder"] = optx.Newton(1e-9, 1e-9)
        return optx.IndirectDampedNewtonDescent(**kw)

    fn = descend(make, info, lay, m, tag, opkind)

    # (the other paths end in a root find to an absolute tolerance)
    scaled = kind == "dogleg" and nname == "two"

    def judge(d):
        x = data(lay, m, d, scaled)
        unit = 2.0 ** d["unit"] if scaled else 1.0
        mod = Model(info, x["J"], x["r"], x["H"], x["g"])
        if np.linalg.norm(mod.g) < 0.05 * unit:
            return None
        s = 1.0 if d["s"] == 100 else 0.01 * d["s"]
        if d["special"]:
            s = special_size(mod, norm, d["special"])
            # (the indirect method does not look for damping below 1e-5)
            if not 0.01 < s < (2 if kind == "dogleg" else 0.99):
                return None
        rad = s * norm(mod.newton)
        got, ok = npt(lib(fn, np.float64(s), np.array(d["y"]) / 4.0, x))
        where = f"{kind}/{info} ({nname} norm), step size {s}"
        check(ok or kind == "indirect" and rf != "tight", f"{where}: result not successful")
        check(np.all(np.isfinite(got)), lambda: f"{where}: step {got}")
        scale = unit + np.linalg.norm(mod.newton)
        if kind == "dogleg":
            want, regime = dogleg_path(mod, s, norm)
            tol = (1e-6 if nname == "two" else 4e-3) * scale
            if nname == "max":
                # Not a smooth norm: the path may cross the radius more than once, and
                # the Cauchy point may be longer than the Newton point.
                on = norm(got) >= rad - tol or s >= 1
                off = min(off_leg(got, 0 * got, mod.cauchy), off_leg(got, mod.cauchy, mod.newton))
                check(
                    on and off <= tol,
                    lambda: f"{where}: got {got}, {off} off the path, length {norm(got)}, radius {rad}",
                )
            else:
                check(
                    np.linalg.norm(got - want) <= tol,
                    lambda: f"{where}: got {got}; the dogleg point ({regime}) is {want}",
                )
            check(
                norm(got) <= max(rad, 0) * (1 + 1e-7) + (tol if nname != "two" else 1e-9 * unit),
                lambda: f"{where}: length {norm(got)} beyond the radius {rad}",
            )
            return regime
        if s >= 1:
            check(
                np.allclose(got, mod.newton, rtol=1e-7, atol=1e-9 * scale),
                lambda: f"{where}: got {got}, Newton step {mod.newton}",
            )
            return "newton"
        if rf == "tight":
            lo, hi = 0.0, 1e9
            for _ in range(300):
                mid = (lo + hi) / 2
                lo, hi = (mid, hi) if norm(mod.damped(mid)) > rad else (lo, mid)
            want = mod.damped(lo)
            check(
                np.linalg.norm(got - want) <= 1e-5 * scale,
                lambda: f"{where}: got {got}; the damped step of length {rad} is {want}",
            )
            return "damped"
        # default root finder: 1e-2 in the length, and still a damped step
        check(
            norm(got) <= rad + 2e-2,
            lambda: f"{where}: length {norm(got)} exceeds the radius {rad} by more than 2e-2",
        )
        if ok:
            check(
                abs(norm(got) - rad) <= 2e-2,
                lambda: f"{where}: length {norm(got)}, radius {rad}",
            )
        # (H + lam I) got = -g for some lam >= 0
        res = -(mod.g + mod.H @ got)
        lam = res @ got / (got @ got)
        check(
            lam > -1e-6 and np.linalg.norm(res - lam * got) <= 1e-6 * scale,
            lambda: f"{where}: {got} is not a damped Newton step",
        )
        return "damped"

    sizes = st.one_of(st.integers(2, 99), st.sampled_from([100, 101, 130, 350, 1000]))
    strat = data_strategy(lay, m, sizes)
    nm = (
        f"{kind}{'-' + rf if rf else ''}/{nname}/{info}{m if info == 'resid' else ''}/"
        f"{lay.name}/{'tag' if tag else 'notag'}/{opkind}"
    )
    return Cell(nm, strat, judge, examples)


def agree_cell(name, make, lay, m, examples=12):
    """Residual information and gradient/Hessian information of one model."""
    fr = descend(make, "resid", lay, m, True, "fn")
    fh = descend(make, "hess", lay, m, True, "fn")

    def judge(d):
        x = data(lay, m, d, False)
        x["H"], x["g"] = x["J"].T @ x["J"], x["J"].T @ x["r"]
        if np.linalg.norm(x["g"]) < 0.05:
            return None
        s = np.float64(0.01 * d["s"])
        y = np.array(d["y"]) / 4.0
        (a, oka), (b, okb) = npt(lib(fr, s, y, x)), npt(lib(fh, s, y, x))
        check(oka and okb, f"{name}: step size {s}: unsuccessful")
        tol = 1e-7 if name != "indirect" else 1e-5
        check(
            np.allclose(a, b, rtol=tol, atol=tol * (1 + np.max(np.abs(b)))),
            lambda: f"{name}, step size {s}: residual information gives {a}, gradient information {b}",
        )
        return "agree"

    strat = data_strategy(lay, m, st.integers(2, 180))
    return Cell(f"agree/{name}/{lay.name}", strat, judge, examples)


def requery_cell(name, make, info, lay, m, examples=8):
    """A descent queried at one point and then at another steps from the latter."""

    def build():
        @eqx.filter_jit
        def run(s, y, d1, d2):
            desc = make()
            f1, f2 = (info_of(info, lay, m, d) for d in (d1, d2))
            state = desc.init(lay.unflat(y), eqx.filter_eval_shape(lambda: f1))
            state = desc.query(lay.unflat(y), f1, state)
            desc.step(s, state)
            state = desc.query(lay.unflat(y), f2, state)
            a = desc.step(s, state)[0]
            fresh = desc.init(lay.unflat(y), eqx.filter_eval_shape(lambda: f2))
            b = desc.step(s, desc.query(lay.unflat(y), f2, fresh))[0]
            return lay.flat(a), lay.flat(b)

        return run

    fn = Lazy(build)

    def judge(d):
        x1, x2 = data(lay, m, d["a"], False), data(lay, m, d["b"], False)
        if min(np.linalg.norm(x["g"]) for x in (x1, x2)) < 0.05:
            return None
        s = np.float64(0.01 * d["a"]["s"])
        a, b = npt(lib(fn, s, np.array(d["a"]["y"]) / 4.0, x1, x2))
        check(np.allclose(a, b, rtol=1e-9, atol=1e-10),
              lambda: f"{name}: after an earlier query the step is {a}, from a fresh state {b}")
        return "requeried"

    one = data_strategy(lay, m, st.integers(2, 180))
    return Cell(f"requery/{name}/{info}", st.fixed_dictionaries(dict(a=one, b=one)), judge, examples)


def cells(tier):
    L = P.LAYOUTS
    out = []
    unit = lambda v, nm: v / NPNORM[nm](v)
    lays = {"grad": ("dict", "scalar"), "hess": ("pair", "scalar"), "inv": ("dict",)}
    for nm in (None, "two", "max", "rms"):
        make = lambda nm=nm: optx.SteepestDescent(norm=None if nm is None else NORMS[nm])
        expect = lambda mod, s, nm=nm: -s * (mod.g if nm is None else unit(mod.g, nm))
        for info, ls in (("grad", ("dict", "scalar")), ("hess", ("pair",)), ("inv", ("vec2",))):
            for lay in ls:
                out.append(simple_cell(f"steepest-{nm}", make, info, L[lay], 3, expect))
        out.append(simple_cell(f"steepest-{nm}", make, "resid", L["pair"], 4, expect, opkind="jac"))
        make = lambda nm=nm: optx.NewtonDescent(norm=None if nm is None else NORMS[nm])
        expect = lambda mod, s, nm=nm: s * (mod.newton if nm is None else unit(mod.newton, nm))
        out.append(simple_cell(f"newton-{nm}", make, "hess", L["dict"], 3, expect))
        out.append(simple_cell(f"newton-{nm}", make, "inv", L["pair"], 3, expect))
        out.append(simple_cell(f"newton-{nm}", make, "resid", L["pair"], 5, expect))
    expect = lambda mod, s: s * mod.newton
    newton = lambda: optx.NewtonDescent()
    out.append(simple_cell("newton", newton, "hess", L["scalar"], 3, expect, tag=False))
    out.append(simple_cell("newton", newton, "hess", L["vec3"], 3, expect, tag=False, opkind="mat"))
    out.append(simple_cell("newton", newton, "resid", L["pair"], 3, expect, opkind="jac"))
    out.append(simple_cell("newton", newton, "resid", L["dict"], 2, expect, opkind="jac"))
    out.append(
        simple_cell("newton-qr", lambda: optx.NewtonDescent(linear_solver=lx.QR()), "resid", L["pair"], 4, expect)
    )
    damped = lambda: optx.DampedNewtonDescent()
    expect = lambda mod, s: mod.damped(1 / s)
    for lay, m, tag, op in (
        ("pair", 5, True, "fn"), ("dict", 4, True, "jac"), ("dict", 2, True, "fn"),
        ("scalar", 3, True, "jac"),
    ):
        out.append(simple_cell("damped", damped, "resid", L[lay], m, expect, tag, op))
    for lay, tag, op in (("dict", True, "fn"), ("pair", False, "fn"), ("vec3", True, "mat"), ("scalar", False, "fn")):
        out.append(simple_cell("damped", damped, "hess", L[lay], 3, expect, tag, op))
    for nname in ("two", "max", "rms"):
        for lay, info, m, op in (
            ("pair", "resid", 5, "fn"), ("dict", "resid", 4, "jac"), ("dict", "hess", 3, "fn"),
            ("scalar", "hess", 3, "fn"), ("vec2", "resid", 3, "fn"),
        ):
            out.append(trust_cell("dogleg", info, L[lay], m, nname, True, op))
        if nname == "max":
            continue
        for rf in (None, "tight"):
            for lay, info, m, op in (
                ("pair", "resid", 5, "fn"), ("dict", "hess", 3, "fn"), ("scalar", "resid", 2, "jac"),
            ):
                out.append(trust_cell("indirect", info, L[lay], m, nname, True, op, rf))
    out.append(trust_cell("dogleg", "resid", L["dict"], 2, "two"))
    out.append(simple_cell("damped", damped, "resid", L["wide"], 13, lambda mod, s: mod.damped(1 / s)))
    out.append(simple_cell("newton", newton, "hess", L["wide"], 3, lambda mod, s: s * mod.newton))
    for which in ("dogleg", "indirect"):
        out.append(trust_cell(which, "resid", L["wide"], 13, "two", True, "jac"))
    dog = lambda: optx.DoglegDescent(linear_solver=lx.AutoLinearSolver(well_posed=None))
    ind = lambda: optx.IndirectDampedNewtonDescent(root_finder=optx.Newton(1e-9, 1e-9))
    steep = lambda: optx.SteepestDescent()
    for name, make in (("steepest", steep), ("newton", newton), ("damped", damped), ("dogleg", dog), ("indirect", ind)):
        out.append(agree_cell(name, make, L["pair"], 4))
        out.append(requery_cell(name, make, "hess", L["pair"], 4))
        out.append(requery_cell(name, make, "resid", L["vec2"], 3))
    return out
