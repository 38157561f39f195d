"""C23: Nelder-Mead maintains a proper simplex and its best vertex."""

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optimistix as optx
from hypothesis import strategies as st

from . import catalog as C, problems as P, rough, solvers as V
from .common import Lazy, close, npt
from .core import Cell, check, lib
from .stepper import Stepper

STEPS = 40
MOVES = dict(reflect=2.0, expand=3.0, outer=1.5, inner=0.5)
NORMS = dict(max=(optx.max_norm, lambda v: np.max(np.abs(v))),
             two=(optx.two_norm, lambda v: np.sqrt(np.sum(v**2))),
             rms=(optx.rms_norm, lambda v: np.sqrt(np.mean(v**2))))


def objective(shape, n):
    """-> strategy, params, f(z, p), start"""
    if shape == "convex":
        fam = C.Family("min", P.LAYOUTS[f"vec{n}"], mild=False)
        return fam.strategy, fam.params, fam.raw, lambda d: np.asarray(P.start(d))
    f = rough.objective(shape, "none")
    return rough.data(n), lambda d: rough.params(n, d), f, lambda d: np.array(d["y"]) / 4.0


def documented(y0, rdelta, adelta):
    return np.concatenate([y0[None], y0[None] + np.diag(adelta + rdelta * y0)])


def pack(lay, S):
    """A simplex of flat vertices as a pytree with a leading vertex axis."""
    return jax.tree_util.tree_map(
        lambda *x: np.stack(x), *[lay.np_unflat(v) for v in S])


def unpack(lay, tree, m):
    return np.stack([
        lay.np_flat(jax.tree_util.tree_map(lambda x: np.asarray(x)[i], tree)) for i in range(m)])


def classify(S, fS, f):
    """The move prescribed from a simplex with values fS: (move, new simplex), or None if
    a comparison is too close to call."""
    m = len(S)
    order = np.argsort(fS, kind="stable")
    b, w, sw = order[0], order[-1], order[-2]
    gap = 1e-9 * (1 + np.max(np.abs(fS)))
    if m > 2 and fS[w] - fS[sw] < gap:
        return None
    if fS[order[1]] - fS[b] < gap:
        return None
    d = np.sum(S - S[w], 0) / (m - 1)
    trial = lambda t: S[w] + t * d
    fr = f(trial(2.0))
    for v in (fS[b], fS[sw], fS[w]):
        if abs(fr - v) < gap:
            return None
    if fr < fS[b]:
        move = "expand"
    elif fr > fS[w]:
        move = "inner"
    elif fr > fS[sw]:
        move = "outer"
    else:
        move = "reflect"
    new = trial(MOVES[move])
    fn = f(new)
    if abs(fn - fS[w]) < gap:
        return None
    out = np.array(S)
    if fn > fS[w]:
        return move, True, S[b] + 0.5 * (S - S[b])
    out[w] = new
    return move, False, out


def step_cell(shape, lay, given, norm, examples=5):
    """Follows a run vertex by vertex."""
    n = lay.n
    strat, params, raw, start = objective(shape, n)
    jnorm, nnorm = NORMS[norm]
    fn = lambda y, p: (raw(lay.flat(y), p), None)
    make = lambda c: optx.NelderMead(c["rtol"], c["atol"], jnorm, c["rdelta"], c["adelta"])
    plain = Stepper(make, fn)
    simplex_stepper = Stepper(make, fn, options=lambda o: {"y0_simplex": True})

    # With a simplex for y, the function structure is that at one vertex.
    def closed(y, args):
        one = jax.tree_util.tree_map(lambda x: x[0], y)
        return eqx.filter_closure_convert(fn, one, args)

    simplex_stepper._closed = closed
    holder = {}

    def judge(d):
        if not holder:
            holder["f"] = jax.jit(raw)
            holder["fs"] = jax.jit(jax.vmap(raw, in_axes=(0, None)))
        p = params(d["base"])
        f = lambda z: float(holder["f"](z, p))
        y0 = start(d["base"])
        cfg = dict(rtol=np.float64(10.0 ** -d["tol"]), atol=np.float64(10.0 ** -d["tol"]),
                   rdelta=np.float64(d["rd"] / 20.0), adelta=np.float64(d["ad"] / 200.0))
        S = documented(y0, cfg["rdelta"], cfg["adelta"])
        if given:
            # a simplex of the caller's own, away from any coordinate alignment
            S = y0 + (S - y0) @ P.rotation(n, d["rot"]) if n > 1 else S
        if np.min(np.linalg.svd((S[1:] - S[0]).reshape(n, n), compute_uv=False)) < 1e-5:
            return None
        m = n + 1
        tree = pack(lay, S)
        ys, dyn, _, _ = lib(simplex_stepper.start, tree, p, cfg)
        track = None
        if not given:
            track = lib(plain.start, lay.np_unflat(y0), p, cfg)[:2]
        moves = dict(reflect=0, expand=0, outer=0, inner=0, shrink=0)
        best_before = None
        for k in range(STEPS):
            ys, dyn, _, (done, code), _ = lib(simplex_stepper.step, ys, dyn, p, cfg)
            got = unpack(lay, npt(ys), m)
            where = f"{shape}/{lay.name}, step {k}, from {y0}"
            if k == 0:
                check(np.allclose(got, S, 1e-13, 1e-13),
                      lambda: f"{where}: first simplex {got}, should be {S}")
            else:
                want = classify(S, fS, f)
                if want is not None:
                    move, shrink, exp = want
                    moves[move] += 1
                    moves["shrink"] += shrink
                    check(np.allclose(got, exp, 1e-9, 1e-11), lambda: (
                        f"{where}: {S} with values {fS} should {move}"
                        f"{' and shrink' if shrink else ''} to {exp}, became {got}"))
                else:
                    moves["tie"] = 1
            S = got
            fS = np.asarray(holder["fs"](S, p))
            # the best value never gets worse
            best = np.min(fS)
            check(best_before is None or best <= best_before + 1e-12 * abs(best_before),
                  lambda: f"{where}: best value rose from {best_before} to {best}")
            best_before = best
            if track is not None:
                y, t = track
                y, t, _, (pdone, pcode), _ = lib(plain.step, y, t, p, cfg)
                track = (y, t)
                z = lay.np_flat(npt(y))
                check(np.min(np.max(np.abs(S - z), 1)) < 1e-9 and abs(f(z) - best) <= 1e-9 * (1 + abs(best)),
                      lambda: f"{where}: returned {z}, simplex {S} values {fS}")
                check(pdone == done and pcode == code,
                      lambda: f"{where}: {(pdone, pcode)} from a point, {(done, code)} from its simplex")
            if not np.all(np.isfinite(S)) or np.max(np.abs(S)) > 1e6:
                return None
            # success exactly when simplex and values are within tolerance
            bz = S[np.argmin(fS)]
            e1 = nnorm(np.abs(S - bz) / (cfg["atol"] + cfg["rtol"] * np.abs(bz)))
            e2 = nnorm(np.abs(fS - best) / (cfg["atol"] + cfg["rtol"] * abs(best)))
            if abs(max(e1, e2) - 1) < 1e-6:
                return None
            check(done == (max(e1, e2) < 1),
                  lambda: f"{where}: finished={done}, simplex error {e1}, value error {e2}")
            check(code == 0, lambda: f"{where}: result {code}")
            if done:
                break
        return "converged" if done else "running"

    s = dict(base=strat, tol=st.integers(1, 6), rd=st.integers(1, 12), ad=st.integers(1, 100))
    if given and n > 1:
        s["rot"] = P.angles(n)
    return Cell(f"follow/{shape}/{lay.name}/{'given' if given else 'point'}/{norm}",
                st.fixed_dictionaries(s), judge, examples)


def solve_cell(shape, lay, budgets, examples=5):
    """Counts of moves, the reported best, and convergence on convex functions."""
    n = lay.n
    strat, params, raw, start = objective(shape, n)
    holder = {}

    def build(b):
        @eqx.filter_jit
        def run(y0, p, rtol, atol):
            sol = optx.minimise(lambda y, p: raw(lay.flat(y), p), optx.NelderMead(rtol, atol),
                                y0, p, max_steps=b, throw=False)
            stats = {k: v for k, v in sol.stats.items() if k.startswith("num_")}
            return V.summary(sol), stats

        return run

    def judge(d):
        if not holder:
            holder.update({b: Lazy(lambda b=b: build(b)) for b in budgets})
            holder["f"] = jax.jit(raw)
        p = params(d["base"])
        y0 = start(d["base"])
        tol = 10.0 ** -d["tol"]
        prev = float(holder["f"](y0, p))
        first = prev
        for b in budgets:
            out, stats = npt(lib(holder[b], lay.np_unflat(y0), p, tol, tol))
            k = int(out["steps"])
            c = {s: int(stats[f"num_{s}"]) for s in (
                "reflections", "inner_contractions", "outer_contractions", "expansions",
                "shrinkages")}
            here = lambda: f"{shape}/{lay.name}, budget {b}, from {y0}: {out}, {stats}"
            check(all(v >= 0 for v in c.values()), here)
            shrinks = c.pop("shrinkages")
            check(sum(c.values()) == max(k - 1, 0) and shrinks <= max(k - 1, 0), here)
            now = float(holder["f"](lay.np_flat(out["value"]), p))
            check(now <= prev + 1e-10 * (1 + abs(prev)), lambda: (
                f"best value {now} after {b} steps, {prev} before: {here()}"))
            prev = now
        if shape == "convex" and int(out["code"]) == 0:
            z, c0 = lay.np_flat(out["value"]), np.asarray(p["c"])
            ref = float(holder["f"](c0, p))
            check(now - ref <= 2e-2 * (first - ref) + 30 * tol * (1 + abs(ref)),
                  lambda: f"success at {z} with {now}; the minimum is {ref} at {c0}; {here()}")
        return "converged" if int(out["code"]) == 0 else "budget"

    return Cell(f"solve/{shape}/{lay.name}", st.fixed_dictionaries(
        dict(base=strat, tol=st.integers(4, 8))), judge, examples)


def layout_cell(lay, examples=4):
    """The first simplex is the documented one for any layout of the unknowns."""
    n = lay.n

    def judge(d):
        seen = []

        def fn(y, p):
            jax.debug.callback(lambda v: seen.append(np.asarray(v)), lay.flat(y))
            return jnp.sum((lay.flat(y) - 50.0) ** 2)

        y0 = np.array(d["y"]) / 4.0 + 0.1
        rd, ad = d["rd"] / 20.0, d["ad"] / 200.0
        lib(optx.minimise, fn, optx.NelderMead(1e-6, 1e-6, rdelta=rd, adelta=ad), lay.np_unflat(y0),
            max_steps=1, throw=False)
        jax.effects_barrier()
        want = documented(y0, rd, ad)
        got = np.unique(np.round(np.stack(seen).reshape(-1, n), 9), axis=0)
        for v in want:
            check(np.min(np.max(np.abs(got - v), 1)) < 1e-8,
                  lambda: f"{lay.name}: vertex {v} missing from the first simplex {got}")
        return "simplex"

    return Cell(f"layout/{lay.name}", st.fixed_dictionaries(
        dict(y=P.vec(n), rd=st.integers(1, 12), ad=st.integers(1, 100))), judge, examples)


def infinite_cell(lay, where, examples=6):
    """A best vertex without a finite value is a divergence; other vertices may be without."""
    L = P.LAYOUTS[lay]
    n = L.n

    def build():
        def fn(y, p):
            z = L.flat(y) - p["c"]
            f = jnp.sum(z**2)
            if where == "everywhere":
                return f + jnp.inf
            # beyond a wall through the far side of the start
            wall = (-jnp.inf if where == "pit" else jnp.inf)
            return jnp.where(z[0] * p["s"] > p["w"], wall, f)

        @eqx.filter_jit
        def run(y0, p, tol):
            solver = optx.NelderMead(tol, tol, rdelta=0.0, adelta=0.5)
            return V.summary(optx.minimise(
                fn, solver, L.unflat(y0), p, max_steps=300, throw=False))

        return run

    run = Lazy(build)

    def judge(d):
        s = float(d["s"])
        p = dict(c=np.array(d["c"]) / 4.0, s=s, w=0.25)
        y0 = p["c"] + np.array(d["y"]) / 8.0
        # the pit lies right next to the minimum, the first simplex on either side of it
        out = npt(lib(run, y0, p, 10.0 ** -d["tol"]))
        inside = s * (y0[0] - p["c"][0]) > 0.25
        added = s * (y0[0] + 0.5 - p["c"][0]) > 0.25
        if where == "everywhere" or where == "pit" and (inside or added):
            check(out["code"] == 2 and out["steps"] <= 2, lambda: (
                f"no finite best value ({where}) from {y0}: {out}"))
            return "at once"
        if where == "pit":
            return None
        if n == 1 and inside and added or n > 1 and inside:
            return None
        check(out["code"] != 2 and np.all(np.isfinite(L.np_flat(out["value"]))), lambda: (
            f"wall of infinite values, finite ones at the start {y0}: {out}"))
        return "partly"

    return Cell(f"infinite/{where}/{lay}", st.fixed_dictionaries(dict(
        c=P.vec(n, 8), y=P.vec(n, 12), s=st.sampled_from([1, -1]), tol=st.integers(1, 6))),
        judge, examples)


def cells(tier):
    L = P.LAYOUTS
    out = []
    i = 0
    norms = list(NORMS)
    for shape in ("convex", "wavy", "valley"):
        for name in ("scalar", "scalars2", "scalars3", "scalars4"):
            out.append(step_cell(shape, L[name], False, norms[i % 3]))
            i += 1
        for name in ("vec2", "pair", "dict", "vec1", "mat22"):
            out.append(step_cell(shape, L[name], True, norms[i % 3]))
            i += 1
        for name in ("scalar", "scalars2", "scalars3", "scalars4"):
            out.append(solve_cell(shape, L[name], (1, 2, 5, 20, 150)))
    for name in ("scalar", "scalars2", "scalars3", "scalars4", "vec1", "vec3"):
        out.append(layout_cell(L[name]))
    for lay in ("scalar", "pair"):
        for where in ("everywhere", "pit", "wall"):
            out.append(infinite_cell(lay, where))
    return out
