"""C07: implicit differentiation."""

import equinox as eqx
import jax
import jax.numpy as jnp
import lineax as lx
import numpy as np
import optax
import optimistix as optx
from hypothesis import strategies as st

from . import catalog as C, problems as P, solvers as V
from .common import Lazy, close, npt
from .core import Cell, check, lib, raises

# Parametrised problems. theta = (t, b): t scales the nonlinearity, b shifts (one entry
# per unknown, entering differently from the way y does).


def raw_of(kind, n, m):
    root, con, lsq, cvx = (
        P.root_fn("tanh"), P.contraction_fn("sin"), P.lsq_fn("tanh"), P.convex_fn("sqrt")
    )

    def raw(z, p, th):
        t, b = th["t"], th["b"]
        if kind == "root":
            u = z - p["c"]
            s = p["W"] @ jnp.tanh(p["W"].T @ u)
            return p["A"] @ u + p["e"] * (1 + 0.5 * jnp.sin(t)) * s - b * (1 + 0.2 * t)
        if kind == "fp":
            return p["c"] + jnp.cos(t) * (p["M"] @ jnp.sin(p["Q"] @ (z - p["c"]))) + b * t
        if kind == "lsq":
            u = z - p["c"] - jnp.sin(b)
            extra = p["e"] * (1 + 0.5 * jnp.sin(t)) * (p["V"] @ jnp.tanh(p["W"] @ u))
            return p["A"] @ u + extra + p["r0"] * (1 + t)
        u = z - p["c"]
        return (
            0.5 * u @ (p["H"] @ u)
            + (p["e"] + 0.1) * jnp.exp(0.3 * t) * jnp.sum(jnp.sqrt(1 + (p["W"] @ u + b) ** 2))
            - jnp.sum(jnp.sin(b) * z)
        )

    return raw


def condition(kind, raw):
    """The map whose root the solution is."""
    if kind == "root":
        return raw
    if kind == "fp":
        return lambda z, p, th: raw(z, p, th) - z
    if kind == "lsq":
        return lambda z, p, th: jax.grad(lambda q: 0.5 * jnp.sum(raw(q, p, th) ** 2))(z)
    return lambda z, p, th: jax.grad(lambda q: raw(q, p, th))(z)


def strategy(kind, n, m):
    base = dict(
        root=lambda: P.root_data(n),
        fp=lambda: P.contraction_data(n, 80),
        lsq=lambda: P.lsq_data(m, n, True, True),
        min=lambda: P.convex_data(n),
    )[kind]()
    return st.builds(
        lambda d, e: dict(d, **e), base,
        st.fixed_dictionaries(
            dict(t=st.integers(-6, 6), b=P.ints(n, -4, 4), dt=st.integers(-4, 4),
                 db=P.ints(n, -4, 4), ct=P.ints(n, -4, 4))
        ),
    )


def params(kind, n, m, d):
    if kind == "root":
        return P.root_params(n, d)
    if kind == "fp":
        return P.contraction_params(n, d)
    if kind == "lsq":
        p = P.lsq_params(m, n, d)
        return dict(p, r0=0.2 * p["r0"])
    return P.convex_params(n, d)


def theta(d):
    return dict(t=np.float64(d["t"] / 4.0), b=np.array(d["b"]) / 8.0)


def solve_cell(kind, entry, name, make, lay, *, how="args", tags=frozenset(),
               linear=None, max_steps=400, examples=8, m=None, out=None, rtol=1e-4,
               options=None):
    n = lay.n
    m = (n if kind != "lsq" else n + 2) if m is None else m
    raw = raw_of(kind, n, m)
    cond = condition(kind, raw)
    if kind == "lsq":
        out = P.Layout("o", {"u": P.S(m - 1), "v": P.S()})
    elif kind == "min":
        out = None
    else:
        out = out or lay
    adjoint = optx.ImplicitAdjoint() if linear is None else optx.ImplicitAdjoint(linear)

    def build():
        def fn(y, args):
            p, th = args
            r = raw(lay.flat(y), p, th)
            v = r if out is None else out.unflat(r)
            return v, dict(first=jax.tree_util.tree_leaves(y)[0] * th["t"])

        def solve(th, p, y0, opt=None):
            if how == "closure":
                f, args = lambda y, _: fn(y, (p, th)), None
            elif how == "mixed":
                f, args = lambda y, a: fn(y, (p, dict(t=th["t"], b=a))), th["b"]
            else:
                f, args = fn, (p, th)
            sol = entry(
                f, make(1e-10, 1e-10), lay.unflat(y0), args, max_steps=max_steps,
                throw=False, adjoint=adjoint, tags=tags, has_aux=True, options=opt,
            )
            return lay.flat(sol.value), sol

        @eqx.filter_jit
        def run(p, th, dth, ct, y0):
            f = lambda th: solve(th, p, y0)[0]
            z, tang = jax.jvp(f, (th,), (dth,))
            z2, pull = jax.vjp(f, th)
            (cot,) = pull(ct)
            # second solve batch: derivative under vmap
            ths = jax.tree_util.tree_map(lambda x: jnp.stack([x, x * 1.0]), th)
            vt = jax.vmap(lambda th: jax.jvp(f, (th,), (dth,))[1])(ths)
            gy0 = jax.vjp(lambda y0: solve(th, p, y0)[0], y0)[1](ct)[0]
            ty0 = jax.jvp(lambda y0: solve(th, p, y0)[0], (y0,), (ct,))[1]
            taux = jax.jvp(lambda th: solve(th, p, y0)[1].aux["first"], (th,), (dth,))[1]
            J = jax.jacfwd(cond)(z, p, th)
            _, jth = jax.jvp(lambda th: cond(z, p, th), (th,), (dth,))
            lam = jnp.linalg.solve(J.T, ct)
            ref_t = -jnp.linalg.solve(J, jth)
            ref_c = jax.tree_util.tree_map(
                lambda x: -x, jax.vjp(lambda th: cond(z, p, th), th)[1](lam)[0]
            )
            code = V.rcode(solve(th, p, y0)[1].result)
            res = jnp.max(jnp.abs(cond(z, p, th)))
            return dict(z=z, z2=z2, tang=tang, cot=cot, vt=vt, gy0=gy0, ty0=ty0, taux=taux,
                        ref_t=ref_t, ref_c=ref_c, code=code, res=res)

        return run

    run = Lazy(build)

    def judge(d):
        p, th = params(kind, n, m, d), theta(d)
        dth = dict(t=np.float64(d["dt"] / 4.0), b=np.array(d["db"]) / 4.0)
        ct = np.array(d["ct"]) / 4.0
        y0 = P.start(d)
        if "Chord" in name:
            y0 = p["c"] + 0.05 * (y0 - p["c"])
        r = npt(lib(run, p, th, dth, ct, y0))
        if r["code"] not in (0, 1) or r["res"] > 1e-6:
            return None
        tol = dict(rtol=rtol, atol=rtol)
        check(close(r["z"], r["z2"]), "primal value differs between modes")
        check(close(r["tang"], r["ref_t"], **tol),
              lambda: f"forward derivative {r['tang']}, implicit function theorem {r['ref_t']}")
        check(close(r["cot"], r["ref_c"], **tol),
              lambda: f"reverse derivative {r['cot']}, implicit function theorem {r['ref_c']}")
        check(close(r["vt"], np.stack([r["ref_t"]] * 2), **tol),
              lambda: f"derivative under vmap {r['vt']}, expected {r['ref_t']}")
        check(not np.any(r["gy0"]) and not np.any(r["ty0"]),
              lambda: f"derivative by the initial guess {r['gy0']}, {r['ty0']}")
        check(not np.any(r["taux"]), lambda: f"aux has derivative {r['taux']}")
        if not (np.any(r["ref_t"]) and np.any(ct)):
            return None
        return kind

    tag = "" if not tags else "/tags"
    ls = "" if linear is None else "/" + type(linear).__name__
    en = entry.__name__
    return Cell(f"{en}/{kind}/{name}/{lay.name}/{how}{tag}{ls}/{m}",
                strategy(kind, n, m), judge, examples)


def bracket_cell(examples=20):
    """Bisection and golden section: derivative by args, zero by start and interval."""

    def build():
        def f(y, th):
            t, b = th
            return jnp.tanh(y - b) + 0.3 * (y - b) + 0.1 * t

        def F(y, th):
            t, b = th
            return jnp.sqrt(1 + (y - b) ** 2) + 0.1 * t * y

        @eqx.filter_jit
        def run(th, dth, y0, lo, hi):
            outs = []
            for entry, fn, solver, g in (
                (optx.root_find, f, optx.Bisection(1e-11, 1e-11), f),
                (optx.minimise, F, optx.GoldenSearch(1e-9, 1e-9), jax.grad(F)),
            ):
                def s(th, y0, lo, hi):
                    return entry(fn, solver, y0, th, options=dict(lower=lo, upper=hi),
                                 throw=False, max_steps=500).value

                z, tang = jax.jvp(lambda th: s(th, y0, lo, hi), (th,), (dth,))
                cot = jax.grad(s)(th, y0, lo, hi)
                others = jax.grad(s, (1, 2, 3))(th, y0, lo, hi)
                J = jax.grad(g)(z, th)
                gth = jax.grad(g, 1)(z, th)
                ref_t = -sum(a * b for a, b in zip(gth, dth)) / J
                ref_c = tuple(-a / J for a in gth)
                outs.append((z, tang, cot, others, ref_t, ref_c))
            return outs

        return run

    run = Lazy(build)

    def judge(d):
        th = (d["t"] / 4.0, d["b"] / 4.0)
        th = tuple(map(np.float64, th))
        dth = (np.float64(d["dt"] / 4.0), np.float64(d["db"] / 4.0))
        lo, hi = th[1] - 3 - d["l"] / 4, th[1] + 3 + d["u"] / 4
        y0 = lo + (hi - lo) * d["s"] / 10
        for z, tang, cot, others, ref_t, ref_c in npt(lib(run, th, dth, y0, lo, hi)):
            check(close(tang, ref_t, 1e-4, 1e-5), lambda: f"forward {tang}, expected {ref_t}")
            check(close(cot, ref_c, 1e-4, 1e-5), lambda: f"reverse {cot}, expected {ref_c}")
            check(not np.any(others), lambda: f"derivative by start/interval {others}")
        return "bracket" if d["dt"] or d["db"] else None

    return Cell("bracket", st.fixed_dictionaries(dict(
        t=st.integers(-6, 6), b=st.integers(-20, 20), dt=st.integers(-4, 4),
        db=st.integers(-4, 4), l=st.integers(0, 8), u=st.integers(0, 8),
        s=st.integers(0, 10))), judge, examples)


def options_cell(name, cls, examples=10):
    """Newton/Chord bounds carry no derivative, whether or not they are active early."""

    def build():
        @eqx.filter_jit
        def run(p, y0, lo, hi, ct):
            f = P.root_fn("tanh")
            s = lambda lo, hi, p: optx.root_find(
                f, cls(1e-10, 1e-10), y0, p, options=dict(lower=lo, upper=hi), throw=False
            ).value
            g = jax.vjp(s, lo, hi, p)[1](ct)
            return g[0], g[1], g[2]["c"], s(lo, hi, p)

        return run

    run = Lazy(build)

    def judge(d):
        p = P.root_params(2, d)
        y0 = p["c"] + 0.05 * (P.start(d) - p["c"])
        lo = np.minimum(p["c"], y0) - 0.5
        hi = np.maximum(p["c"], y0) + 0.5
        ct = np.array(d["ct"]) / 4
        g0, g1, gc, z = npt(lib(run, p, y0, lo, hi, ct))
        if np.abs(z - p["c"]).max() > 1e-6:
            return None
        check(not np.any(g0) and not np.any(g1), lambda: f"bounds have derivative {g0} {g1}")
        check(close(gc, ct, 1e-5, 1e-6), lambda: f"derivative by c {gc}, expected {ct}")
        return "options" if np.any(ct) else None

    strat = st.builds(lambda d, c: dict(d, ct=c), P.root_data(2), P.ints(2, -4, 4))
    return Cell(f"options/{name}", strat, judge, examples)


def second_cell(kind, entry, name, make, lay, *, how="args", max_steps=2000, examples=6):
    """Second derivatives, in the three mode orders, against the twice-refined root."""
    n = lay.n
    m = n if kind != "lsq" else n + 2
    raw = raw_of(kind, n, m)
    cond = condition(kind, raw)
    out = P.Layout("o", {"u": P.S(m - 1), "v": P.S()}) if kind == "lsq" else lay
    out = None if kind == "min" else out

    def build():
        def fn(y, args):
            p, th = args
            r = raw(lay.flat(y), p, th)
            return r if out is None else out.unflat(r)

        def solve(th, p, y0):
            f, args = (fn, (p, th)) if how == "args" else (lambda y, _: fn(y, (p, th)), None)
            sol = entry(f, make(1e-11, 1e-11), lay.unflat(y0), args, max_steps=max_steps,
                        throw=False)
            return lay.flat(sol.value), V.rcode(sol.result)

        def dot(a, b):
            parts = jax.tree_util.tree_map(lambda u, v: jnp.sum(u * v), a, b)
            return sum(jax.tree_util.tree_leaves(parts))

        @eqx.filter_jit
        def run(p, th, dth, ct, y0):
            phi = lambda th: jnp.sum(ct * solve(th, p, y0)[0])
            z, code = solve(th, p, y0)

            def refined(th):
                # Two Newton steps from a constant have the right second derivative.
                q = z
                for _ in range(2):
                    q = q - jnp.linalg.solve(jax.jacfwd(cond)(q, p, th), cond(q, p, th))
                return jnp.sum(ct * q)

            along = lambda g: lambda th: jax.jvp(g, (th,), (dth,))[1]
            fr = along(jax.grad(phi))(th)
            ff = along(along(phi))(th)
            rr = jax.grad(lambda th: dot(jax.grad(phi)(th), dth))(th)
            ref = along(jax.grad(refined))(th)
            return dict(fr=fr, ff=ff, rr=rr, ref=ref, refs=dot(ref, dth), code=code,
                        res=jnp.max(jnp.abs(cond(z, p, th))))

        return run

    run = Lazy(build)

    def judge(d):
        p, th = params(kind, n, m, d), theta(d)
        dth = dict(t=np.float64(d["dt"] / 4.0), b=np.array(d["db"]) / 4.0)
        ct = np.array(d["ct"]) / 4.0
        r = npt(lib(run, p, th, dth, ct, P.start(d)))
        if r["code"] not in (0, 1) or r["res"] > 1e-8:
            return None
        tol = dict(rtol=1e-4, atol=1e-4)
        for mode, key in (("forward over reverse", "fr"), ("reverse over reverse", "rr")):
            check(close(r[key], r["ref"], **tol),
                  lambda: f"second derivative, {mode}: {r[key]}, expected {r['ref']}")
        check(close(r["ff"], r["refs"], **tol),
              lambda: f"second derivative, forward over forward: {r['ff']}, expected {r['refs']}")
        return kind if abs(r["refs"]) > 1e-3 else None

    return Cell(f"second/{kind}/{name}/{how}", strategy(kind, n, m), judge, examples)


def cells(tier):
    L = P.LAYOUTS
    out = []
    R, F, S, M = optx.root_find, optx.fixed_point, optx.least_squares, optx.minimise
    two = optx.two_norm
    lin_all = [lx.LU(), lx.QR(), lx.SVD(), lx.AutoLinearSolver(well_posed=True)]
    for name in ("Newton", "Chord", "NewtonNC", "BestNewton"):
        out.append(solve_cell("root", R, name, C.ROOT[name], L["pair"]))
        out.append(solve_cell("fp", F, name, C.ROOT[name], L["pair"]))
    for name in ("GaussNewton", "LevenbergMarquardt", "Dogleg", "IndirectLM", "BestLM"):
        out.append(solve_cell("root", R, name, C.LSQ[name], L["vec2"]))
        out.append(solve_cell("lsq", S, name, C.LSQ[name], L["pair"]))
    for name in ("LevenbergMarquardt", "Dogleg"):
        out.append(solve_cell("fp", F, name, C.LSQ[name], L["scalar"]))
    for name in ("BFGS", "DFPdirect", "LBFGS", "CG-dai_yuan", "GradientDescent",
                 "BFGS+Dogleg+CTR", "BestBFGS"):
        out.append(solve_cell("min", M, name, C.MIN[name], L["pair"], max_steps=2000))
    for name in ("BFGS", "LBFGSdirect", "BestBFGS"):
        out.append(solve_cell("lsq", S, name, C.MIN[name], L["pair"], max_steps=2000))
    nm = C.MIN["NelderMead"]
    out.append(solve_cell("min", M, "NelderMead", nm, L["scalars2"], max_steps=2000))
    out.append(solve_cell("root", R, "NelderMead", nm, L["scalars2"], max_steps=2000))
    mins = {
        "BFGSmax": lambda r, a: optx.BFGS(r, a),
        "BFGStwo": lambda r, a: optx.BFGS(r, a, norm=two),
        "LBFGStwo": lambda r, a: optx.LBFGS(r, a, norm=two),
    }
    for name, make in mins.items():
        out.append(solve_cell("root", R, name, make, L["vec2"], max_steps=2000))
        out.append(solve_cell("fp", F, name, make, L["scalar"], max_steps=2000))
    for name in ("FPI", "FPIdamp", "BestFPI"):
        for l in ("scalar", "dict"):
            out.append(solve_cell("fp", F, name, C.FP[name], L[l], max_steps=2000))
    for how in ("closure", "mixed"):
        out.append(solve_cell("root", R, "Newton", C.ROOT["Newton"], L["dict"], how=how,
                              out=P.LAYOUTS["vec4"]))
        out.append(solve_cell("fp", F, "FPI", C.FP["FPI"], L["pair"], how=how,
                              max_steps=2000))
        out.append(solve_cell("lsq", S, "LevenbergMarquardt", C.LSQ["LevenbergMarquardt"],
                              L["dict"], how=how))
        out.append(solve_cell("min", M, "BFGS", C.MIN["BFGS"], L["dict"], how=how))
    for linear in lin_all:
        out.append(solve_cell("root", R, "Newton", C.ROOT["Newton"], L["pair"], linear=linear))
        out.append(solve_cell("lsq", S, "GaussNewton", C.LSQ["GaussNewton"], L["pair"],
                              linear=linear))
        out.append(solve_cell("min", M, "LBFGS", C.MIN["LBFGS"], L["pair"], linear=linear))
        out.append(solve_cell("fp", F, "FPI", C.FP["FPI"], L["pair"], linear=linear,
                              max_steps=2000))
    psd = frozenset({lx.positive_semidefinite_tag})
    sym = frozenset({lx.symmetric_tag})
    for tags, linear in ((psd, None), (sym, None), (psd, lx.Cholesky()),
                         (psd, lx.CG(1e-9, 1e-9))):
        out.append(solve_cell("min", M, "BFGS" if tags is psd else "DFP", C.MIN["BFGS"],
                              L["pair"], tags=tags, linear=linear))
        out.append(solve_cell("lsq", S, "LevenbergMarquardt" if tags is psd else "GaussNewton",
                              C.LSQ["LevenbergMarquardt"], L["pair"], tags=tags,
                              linear=linear))
    out.append(solve_cell("root", R, "Newton", C.ROOT["Newton"], L["wide"], out=L["vec11"]))
    out.append(solve_cell("fp", F, "FPI", C.FP["FPI"], L["wide"], max_steps=2000))
    out.append(solve_cell("lsq", S, "Dogleg", C.LSQ["Dogleg"], L["wide"]))
    out.append(solve_cell("min", M, "LBFGS", C.MIN["LBFGS"], L["wide"]))
    out.append(bracket_cell())
    out.append(options_cell("Newton", optx.Newton))
    out.append(options_cell("Chord", optx.Chord))
    for kind, entry, name, make in (
        ("root", R, "Newton", C.ROOT["Newton"]),
        ("root", R, "LevenbergMarquardt", C.LSQ["LevenbergMarquardt"]),
        ("fp", F, "FPI", C.FP["FPI"]),
        ("fp", F, "Newton", C.ROOT["Newton"]),
        ("lsq", S, "Dogleg", C.LSQ["Dogleg"]),
        ("lsq", S, "BFGS", C.MIN["BFGS"]),
        ("min", M, "BFGS", C.MIN["BFGS"]),
        ("min", M, "CG-polak_ribiere", C.MIN["CG-polak_ribiere"]),
    ):
        out.append(second_cell(kind, entry, name, make, L["pair"]))
    out.append(second_cell("root", R, "Newton", C.ROOT["Newton"], L["vec2"], how="closure"))
    out.append(second_cell("min", M, "LBFGS", C.MIN["LBFGS"], L["vec2"], how="closure"))
    return out
