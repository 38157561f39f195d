"""C14: searches follow their documented rule.

Random sequences of function information are fed to each search; a numpy model says what
it should do. All data are dyadic rationals, so both sides compute exactly and ties at
the cutoffs are decided cases rather than rounding.
"""

import equinox as eqx
import jax
import jax.numpy as jnp
import lineax as lx
import numpy as np
import optimistix as optx
from hypothesis import strategies as st

from . import problems as P
from .common import Lazy, npt
from .core import Cell, check, lib

STEPS = 7
FI = optx.FunctionInfo


def build_info(kind, lay, olay, d):
    """Function information at the current point; `d` holds flat arrays."""
    struct = jax.eval_shape(lambda: lay.unflat(d["g"]))

    def op(mat, out=lay):
        return lx.FunctionLinearOperator(
            lambda v: out.unflat(mat @ lay.flat(v)), struct
        )

    g = lay.unflat(d["g"])
    if kind == "EvalGrad":
        return FI.EvalGrad(d["f"], g)
    if kind == "EvalGradHessian":
        return FI.EvalGradHessian(d["f"], g, op(d["H"]))
    if kind == "EvalGradHessianInv":
        return FI.EvalGradHessianInv(d["f"], g, op(d["H"]))
    if kind == "ResidualJac":
        return FI.ResidualJac(olay.unflat(d["r"]), op(d["J"], olay))
    raise AssertionError(kind)


def build_eval(kind, lay, olay, d):
    if kind == "Eval":
        return FI.Eval(d["fe"])
    if kind == "EvalGrad":
        return FI.EvalGrad(d["fe"], lay.unflat(d["g"]))
    if kind == "Residual":
        return FI.Residual(olay.unflat(d["re"]))
    if kind == "ResidualJac":
        struct = jax.eval_shape(lambda: lay.unflat(d["g"]))
        return FI.ResidualJac(
            olay.unflat(d["re"]),
            lx.FunctionLinearOperator(lambda v: olay.unflat(d["J"] @ lay.flat(v)), struct),
        )
    raise AssertionError(kind)


def predicted(search, info, d):
    """(prediction, value before, value after) of the documented models."""
    s = d["ye"] - d["y"]
    if info == "ResidualJac":
        before, after = 0.5 * np.sum(d["r"] ** 2), 0.5 * np.sum(d["re"] ** 2)
        lin = d["r"] @ (d["J"] @ s)
        quad = lin + 0.5 * np.sum((d["J"] @ s) ** 2)
    else:
        before, after = d["f"], d["fe"]
        lin = d["g"] @ s
        quad = lin + 0.5 * s @ (d["H"] @ s)
    return (quad if search == "Classical" else lin), before, after


def search_cell(search, info, evalinfo, lay, examples=25):
    olay = P.Layout("out", [P.S(1), P.S(2)])
    n, m = lay.n, 3

    def make(p):
        if search == "Armijo":
            return optx.BacktrackingArmijo(
                decrease_factor=p["dec"], slope=p["slope"], step_init=p["init"]
            )
        cls = dict(Classical=optx.ClassicalTrustRegion, Linear=optx.LinearTrustRegion)
        return cls[search](
            high_cutoff=p["hc"], low_cutoff=p["lc"], high_constant=p["hk"],
            low_constant=p["lk"],
        )

    def build():
        @eqx.filter_jit
        def run(p, seq):
            s = make(p)
            f0 = build_info(info, lay, olay, seq[0])
            state = s.init(lay.unflat(seq[0]["y"]), eqx.filter_eval_shape(lambda: f0))
            out = []
            for i, d in enumerate(seq):
                size, accept, result, state = s.step(
                    jnp.array(i == 0), lay.unflat(d["y"]), lay.unflat(d["ye"]),
                    build_info(info, lay, olay, d), build_eval(evalinfo, lay, olay, d),
                    state,
                )
                out.append((size, accept, result == optx.RESULTS.successful))
            return out

        return run

    fn = Lazy(build)

    def judge(d):
        p = {k: np.float64(v) for k, v in params(d).items()}
        seq = [step_data(n, m, x, p) for x in d["seq"]]
        got = npt(lib(fn, p, seq))
        size = p["init"] if search == "Armijo" else 1.0
        seen = set()
        for i, (x, (gs, ga, gok)) in enumerate(zip(seq, got)):
            pred, before, after = predicted(search, info, x)
            diff = after - before
            first = i == 0
            where = f"step {i} of {search}/{info}: params {p}, prediction {pred}, change {diff}"
            check(gok, where + ": result not successful")
            if search == "Armijo":
                accept = first or (bool(diff <= p["slope"] * pred) and bool(pred <= 0))
                size = p["init"] if accept else p["dec"] * size
            else:
                if not first and pred > 0:
                    # A model predicting an increase: the rule assumes a reduction, so
                    # only ask that the objective does not go up. Go on from here.
                    check(not (ga and not diff <= 0), lambda: f"{where}: accepted an increase")
                    size = float(gs)
                    continue
                accept = first or bool(diff <= p["lc"] * pred)
                good = not first and bool(diff < p["hc"] * pred) and pred < 0
                size = size * ((p["hk"] if good else 1.0) if accept else p["lk"])
            check(
                bool(ga) == accept,
                lambda: f"{where}: {'accepted' if ga else 'rejected'}",
            )
            if not first and np.isnan(after) or after == np.inf and not first:
                check(not ga, lambda: f"{where}: accepted a non-finite trial")
            check(
                np.allclose(gs, size, rtol=1e-12, atol=0),
                lambda: f"{where}: accept={accept}, step size {gs}, documented {size}",
            )
            seen.add(accept)
        return f"{len(seen)} outcomes" if len(seen) > 1 else None

    def params(d):
        lc = d["lc"] / 16.0
        return dict(
            dec=d["dec"] / 8.0, slope=d["slope"] / 8.0, init=d["init"] / 4.0, lc=lc,
            hc=lc + d["dh"] / 16.0, hk=d["hk"] / 4.0, lk=d["lk"] / 8.0,
        )

    step = st.fixed_dictionaries(
        dict(
            y=P.ints(n, -4, 4), s=P.ints(n, -3, 3), g=P.ints(n, -4, 4),
            H=P.ints(n * n, -2, 3), J=P.ints(m * n, -2, 2), r=P.ints(m, -3, 3),
            re=P.ints(m, -3, 3), f=st.integers(-8, 8),
            # the trial value: a multiple of the prediction (so ties happen), or anything
            q=st.integers(-4, 24), e=st.sampled_from([0, 0, 0, 1, -1, 3]),
            bad=st.sampled_from([0] * 9 + [1, 2]),
            # units of the objective (a power of two), and a constant added to it
            unit=st.sampled_from([0] * 5 + [-24, -8, 10, 24]),
            base=st.sampled_from([0] * 4 + [-1, 1]),
            # or a trial value at a cutoff, or a hair off it
            at=st.sampled_from([None] * 4 + ["slope", "lc", "hc"]),
            hair=st.sampled_from([0, 1, -1]),
        )
    )

    def step_data(n, m, x, p):
        y = np.array(x["y"]) / 2.0
        g = np.array(x["g"]) / 2.0
        s = np.array(x["s"]) / 2.0
        H = np.array(x["H"]).reshape(n, n) / 2.0
        H = (H + H.T) / 2
        J = np.array(x["J"]).reshape(m, n) / 2.0
        r, re = np.array(x["r"]) / 2.0, np.array(x["re"]) / 2.0
        unit, base = 2.0 ** x["unit"], 2.0**20 * x["base"]
        if base:
            unit = max(unit, 2.0**-8)
        root = 2.0 ** (x["unit"] // 2)
        g, H, J, r, re = g * unit, H * unit, J * root, r * root, re * root
        f = np.float64(x["f"] / 4.0 * unit + base)
        out = dict(y=y, ye=y + s, g=g, H=H, J=J, r=r, re=re, f=f)
        pred, before, _ = predicted(search, info, dict(out, fe=0.0))
        fe = out["f"] + x["q"] / 16.0 * pred + x["e"] / 64.0 * unit
        if x["at"]:
            # still exact: at most 50 bits
            hair = 2.0**-24 * (max(unit, 2.0**-4) if base else unit)
            fe = out["f"] + p[x["at"]] * pred + x["hair"] * hair
        if x["bad"]:
            fe = np.nan if x["bad"] == 1 else np.inf
            out["re"] = re * np.nan if x["bad"] == 1 else re + np.inf
        return dict(out, fe=np.float64(fe))

    strat = st.fixed_dictionaries(
        dict(
            seq=st.lists(step, min_size=STEPS, max_size=STEPS),
            dec=st.integers(1, 7), slope=st.integers(1, 7), init=st.integers(1, 12),
            lc=st.integers(0, 8), dh=st.integers(0, 12), hk=st.integers(4, 16),
            lk=st.integers(1, 7),
        )
    )
    return Cell(f"{search}/{info}/{evalinfo}/{lay.name}", strat, judge, examples)


def default_cell(search, examples=15):
    """The documented default parameters."""
    lay = P.LAYOUTS["vec2"]

    def build():
        @eqx.filter_jit
        def run(y, ye, f, g, H, fes):
            s = dict(
                Armijo=optx.BacktrackingArmijo, Classical=optx.ClassicalTrustRegion,
                Linear=optx.LinearTrustRegion,
            )[search]()
            eye = lx.MatrixLinearOperator(H)
            state = s.init(y, eqx.filter_eval_shape(lambda: FI.EvalGradHessian(f, g, eye)))
            out = []
            info = FI.EvalGradHessian(f, g, eye)
            _, _, _, state = s.step(jnp.array(True), y, y, info, FI.Eval(f), state)
            for fe in fes:
                size, acc, _, state = s.step(jnp.array(False), y, ye, info, FI.Eval(fe), state)
                out.append((size, acc))
            return out

        return run

    fn = Lazy(build)

    def judge(d):
        y, s, g = (np.array(d[k]) / 4.0 for k in "ysg")
        H = np.diag(0.5 + np.array(d["h"]) / 4.0)
        lin = g @ s
        pred = lin + 0.5 * s @ H @ s if search == "Classical" else lin
        if not pred < -1e-3:
            return None
        f = 1.0
        ratios = [q / 1000.0 for q in d["q"]]
        fes = [np.float64(f + q * pred) for q in ratios]
        got = npt(lib(fn, y, y + s, np.float64(f), g, H, fes))
        size = 1.0
        for q, (gs, ga) in zip(ratios, got):
            if search == "Armijo":
                accept = q > 0.1
                size = 1.0 if accept else 0.5 * size
            else:
                accept = q > 0.01
                size *= (3.5 if q > 0.99 else 1.0) if accept else 0.25
            check(bool(ga) == accept, lambda: f"{search}: ratio {q}: accept={ga}")
            check(np.isclose(gs, size, rtol=1e-12),
                  lambda: f"{search}: ratio {q}, accept={ga}: step size {gs}, not {size}")
        return "defaults"

    # ratios off the cutoffs 0.01, 0.1, 0.99
    q = st.sampled_from([-1000, -50, 0, 3, 9, 11, 20, 95, 105, 300, 700, 985, 995, 1500, 4000])
    strat = st.fixed_dictionaries(
        dict(y=P.ints(2, -8, 8), s=P.ints(2, -8, 8), g=P.ints(2, -8, 8), h=P.ints(2, 0, 8),
             q=st.lists(q, min_size=6, max_size=6))
    )
    return Cell(f"defaults/{search}", strat, judge, examples)


def rate_cell(examples=10):
    lay = P.LAYOUTS["pair"]

    def build():
        @eqx.filter_jit
        def run(rate, y, ye, f, fe, g, first):
            s = optx.LearningRate(rate)
            info = FI.EvalGrad(f, lay.unflat(g))
            state = s.init(lay.unflat(y), eqx.filter_eval_shape(lambda: info))
            out = []
            for i in range(3):
                size, acc, res, state = s.step(
                    first if i == 0 else jnp.array(False), lay.unflat(y), lay.unflat(ye),
                    info, FI.Eval(fe), state)
                out.append((size, acc, res == optx.RESULTS.successful))
            return out

        return run

    fn = Lazy(build)

    def judge(d):
        rate = np.float64(d["rate"] / 10.0)
        fe = np.float64(np.nan if d["bad"] else d["fe"])
        got = npt(lib(fn, rate, np.array(d["y"]) / 4.0, np.array(d["ye"]) / 4.0,
                      np.float64(d["f"]), fe, np.array(d["g"]) / 4.0, np.asarray(d["first"])))
        for size, acc, ok in got:
            check(size == rate and acc and ok,
                  lambda: f"learning rate {rate}: step size {size}, accepted {acc}, ok {ok}")
        return "rate"

    strat = st.fixed_dictionaries(
        dict(rate=st.integers(1, 40), y=P.ints(3, -8, 8), ye=P.ints(3, -8, 8),
             g=P.ints(3, -8, 8), f=st.integers(-4, 4), fe=st.integers(-4, 4),
             first=st.booleans(), bad=st.booleans())
    )
    return Cell("LearningRate", strat, judge, examples)


def cells(tier):
    L = P.LAYOUTS
    out = []
    infos = ("EvalGrad", "EvalGradHessian", "EvalGradHessianInv", "ResidualJac")
    for search in ("Armijo", "Classical", "Linear"):
        for info in infos:
            if search == "Classical" and info in ("EvalGrad", "EvalGradHessianInv"):
                continue
            evs = ("Residual", "ResidualJac") if info == "ResidualJac" else ("Eval", "EvalGrad")
            for ev, lay in zip(evs, ("pair", "dict")):
                out.append(search_cell(search, info, ev, L[lay]))
        out.append(search_cell(search, "ResidualJac", "ResidualJac", L["scalar"]))
        out.append(search_cell(search, "EvalGradHessian", "Eval", L["scalar"]))
        out.append(default_cell(search))
    out.append(rate_cell())
    return out
