"""C30: solvers, searches, descents and adjoints written by a user are driven as documented."""

import equinox as eqx
import jax
import jax.numpy as jnp
import lineax as lx
import numpy as np
import optimistix as optx
from hypothesis import strategies as st

from . import catalog as C, problems as P, solvers as V
from .common import Lazy, close, npt, same
from .core import Cell, check, lib

tmap = jax.tree_util.tree_map
leaves = jax.tree_util.tree_leaves
R = optx.RESULTS
BASE = dict(root=optx.AbstractRootFinder, fp=optx.AbstractFixedPointSolver,
            lsq=optx.AbstractLeastSquaresSolver, min=optx.AbstractMinimiser)
SLOTS = 8


def spec(tree):
    flat, treedef = jax.tree_util.tree_flatten(tree)
    return treedef, [(tuple(x.shape), jnp.dtype(x.dtype)) for x in flat]


class Told(Exception):
    pass


def must(ok, what):
    """Judged while the library traces a user's method: a wrong argument."""
    if not ok:
        raise Told(what)


# ------------------------------------------------------------------- user-written solvers


class Mem(eqx.Module):
    count: jax.Array
    trail: jax.Array  # the iterate each step was given
    outs: object  # the last function value, in the structure of `f_struct`
    auxs: object
    note: str = eqx.field(static=True)
    other: object  # a non-array, non-static leaf


class Expect:
    """What the methods should be given; compared by identity of this object."""

    def __init__(self):
        self.out = self.aux = self.args = self.opts = self.tags = None
        self.calls = []

    def common(self, where, y, args, options, tags):
        self.calls.append(where)
        must(spec(y) == self.y, f"{where}: y {spec(y)}, expected {self.y}")
        must(spec(args) == self.args, f"{where}: args {spec(args)}, expected {self.args}")
        must(set(options) == self.opts and options["word"] == "hello",
             f"{where}: options {options}")
        if self.tags is not None:
            must(tags == self.tags, f"{where}: tags {tags}, expected {self.tags}")


def make_solver(kind, lay, move):
    """One step moves to `move(fn, y, args, rate)`; when to stop, and how, is in the
    options."""

    class Mine(BASE[kind]):
        expect: object = eqx.field(static=True)
        rtol: float = 1e-3
        atol: float = 1e-3
        norm: object = optx.max_norm

        def init(self, fn, y, args, options, f_struct, aux_struct, tags):
            E = self.expect
            E.common("init", y, args, options, tags)
            must(spec(f_struct) == E.out, f"init: f_struct {f_struct}, expected {E.out}")
            must(spec(aux_struct) == E.aux, f"init: aux_struct {aux_struct}, expected {E.aux}")
            zero = lambda t: tmap(lambda x: jnp.zeros(x.shape, x.dtype), t)
            return Mem(jnp.array(0), jnp.full((SLOTS, lay.n), -99.0), zero(f_struct),
                       zero(aux_struct), "note", len)

        def step(self, fn, y, args, options, state, tags):
            self.expect.common("step", y, args, options, tags)
            must(state.note == "note" and state.other is len, "step: state not as returned")
            out, aux = fn(y, args)
            new = move(fn, y, args, options["rate"])
            k = state.count
            return new, Mem(k + 1, state.trail.at[k].set(lay.flat(y)), out, aux, "note", len), (
                tmap(lambda x: x + 1, aux))

        def terminate(self, fn, y, args, options, state, tags):
            self.expect.common("terminate", y, args, options, tags)
            fail = state.count >= options["fail"]
            return state.count >= options["stop"], R.where(
                fail, R.where(options["how"] == 0, R.nonlinear_divergence, R.singular),
                R.successful)

        def postprocess(self, fn, y, aux, args, options, state, tags, result):
            self.expect.common("postprocess", y, args, options, tags)
            y = tmap(lambda x: 2 * x + state.count, y)
            aux = dict(was=aux, seen=V.rcode(result))
            return y, aux, dict(mine=state.count * 10, code=V.rcode(result))

    return Mine


def movers(kind, lay):
    """(for the library, as a function of flat y and the flat raw function)."""
    if kind == "min":
        def move(fn, y, args, rate):
            g = jax.grad(lambda z: fn(z, args)[0])(y)
            return tmap(lambda a, b: a - rate * b, y, g)

        return move, lambda f, z, rate: z - rate * jax.grad(f)(z)
    if kind == "fp":
        return (lambda fn, y, args, rate: tmap(lambda a, b: a + rate * (b - a), y, fn(y, args)[0]),
                lambda f, z, rate: z + rate * (f(z) - z))
    if kind == "root":
        return (lambda fn, y, args, rate: tmap(lambda a, b: a - rate * b, y, fn(y, args)[0]),
                lambda f, z, rate: z - rate * f(z))

    def move(fn, y, args, rate):
        r, pull = jax.vjp(lambda z: fn(z, args)[0], y)
        return tmap(lambda a, b: a - rate * b, y, pull(r)[0])

    return move, lambda f, z, rate: z - rate * jax.grad(lambda x: 0.5 * jnp.sum(f(x) ** 2))(z)


def solver_parts(kind, lay, tags=None):
    fam = C.Family(kind, lay)
    move, flat_move = movers(kind, lay)
    Mine = make_solver(kind, lay, move)

    def fn(y, args):
        p, extra = args["p"], args["extra"]
        return fam.fn(y, p), dict(first=leaves(y)[0] * 3.0, sum=(jnp.sum(lay.flat(y)) + extra[0],))

    def call(y0, p, o, extra, max_steps, adjoint=None, value_only=False):
        E = Expect()
        args = dict(p=p, extra=(extra, None))
        y0 = tmap(jnp.asarray, y0)
        E.y, E.args, E.opts = spec(y0), spec(args), {"rate", "stop", "fail", "how", "word"}
        out, aux = jax.eval_shape(fn, y0, args)
        E.out, E.aux, E.tags = spec(out), spec(aux), tags
        kw = {} if adjoint is None else dict(adjoint=adjoint)
        if tags is not None:
            kw["tags"] = tags
        sol = C.ENTRY[kind](fn, Mine(E), y0, args, dict(o, word="hello"), has_aux=True,
                            max_steps=max_steps, throw=False, **kw)
        must({"init", "step", "terminate", "postprocess"} <= set(E.calls), f"called {E.calls}")
        if value_only:
            return sol.value
        must(set(sol.stats) == {"num_steps", "max_steps", "mine", "code"}, f"stats {sol.stats}")
        must(isinstance(sol.state, Mem) and sol.state.note == "note" and sol.state.other is len,
             f"state {sol.state}")
        must(sol.stats["max_steps"] == max_steps, f"max_steps {sol.stats['max_steps']}")
        dyn = (sol.state.count, sol.state.trail, sol.state.outs, sol.state.auxs)
        stats = {k: jnp.asarray(v) for k, v in sol.stats.items() if k != "max_steps"}
        return dict(value=sol.value, aux=sol.aux, stats=stats, dyn=dyn,
                    code=V.rcode(sol.result), singular=sol.result == R.singular)

    return fam, fn, flat_move, call


def solver_strategy(fam):
    return st.fixed_dictionaries(dict(
        base=fam.strategy, stop=st.integers(0, 9).map(lambda k: 9 - k), fail=st.integers(0, 12).map(lambda k: 12 - k), how=st.integers(0, 1),
        rate=st.sampled_from([0.5, 0.125, 0.25]), extra=st.integers(-5, 5)))


def solver_cell(kind, lay, max_steps, tags=None, batch=False, examples=12):
    fam, fn, flat_move, call = solver_parts(kind, lay, tags)
    move = Lazy(lambda: jax.jit(lambda z, p, r: (flat_move(lambda x: fam.raw(x, p), z, r),
                                                 fam.raw(z, p))))
    one = lambda y0, p, o, e: call(y0, p, o, e, max_steps)

    def run(y0, p, o, e):
        if not batch:
            return one(y0, p, o, e)
        # the case among others that stop elsewhere
        os = dict(o, stop=jnp.stack([o["stop"] + 2, o["stop"], jnp.asarray(1)]),
                  fail=jnp.stack([jnp.asarray(20), o["fail"], o["fail"] + 1]),
                  rate=jnp.broadcast_to(o["rate"], (3,)), how=jnp.broadcast_to(o["how"], (3,)))
        out = jax.vmap(lambda oo: one(y0, p, oo, e))(os)
        return tmap(lambda x: x[1], out)

    solve = Lazy(lambda: jax.jit(run))

    def judge(d):
        p = fam.params(d["base"])
        z = np.asarray(P.start(d["base"]), float)
        extra = np.float64(d["extra"])
        top = SLOTS if max_steps is None else max_steps
        stop = min(d["stop"], SLOTS)
        o = dict(rate=np.float64(d["rate"]), stop=np.asarray(stop), fail=np.asarray(d["fail"]),
                 how=np.asarray(d["how"]))
        got = npt(lib(solve, lay.np_unflat(z), p, o, extra))
        trail, k, last = np.full((SLOTS, lay.n), -99.0), 0, None
        while k < stop and k < d["fail"] and k < top:
            new, raw = npt(move(z, p, o["rate"]))
            trail[k], last = z, raw
            z, k = new, k + 1
        code = 1
        if stop <= k:
            code = 0
        if d["fail"] <= k:
            code = 2 if d["how"] == 0 else 4
        where = f"{kind}, stop {stop}, fail {d['fail']}/{d['how']}, max_steps {max_steps}: "
        check(int(got["code"]) == code and bool(got["singular"]) == (code == 4),
              lambda: where + f"result code {got['code']}, expected {code}")
        check(int(got["stats"]["num_steps"]) == k and int(got["stats"]["mine"]) == 10 * k
              and int(got["stats"]["code"]) == code and int(got["aux"]["seen"]) == code,
              lambda: where + f"stats {got['stats']}, {got['aux']['seen']}, expected {k} steps, {code}")
        check(close(lay.np_flat(got["value"]), 2 * z + k, 1e-9, 1e-9),
              lambda: where + f"value {got['value']}, expected {2 * z + k}")
        count, tr, outs, auxs = got["dyn"]
        check(int(count) == k and close(tr, trail, 1e-9, 1e-9),
              lambda: where + f"state after {count} steps {tr}, expected {trail}")
        if k:
            flat = outs if fam.out is None else fam.out.np_flat(outs)
            check(close(flat, last, 1e-9, 1e-9), lambda: where + f"{outs} in state, expected {last}")
            exp = npt(fn(lay.unflat(trail[k - 1]), dict(p=p, extra=(extra, None)))[1])
            check(close(auxs, exp, 1e-9, 1e-9) and
                  close(got["aux"]["was"], tmap(lambda x: x + 1, exp), 1e-9, 1e-9),
                  lambda: where + f"aux {got['aux']['was']}, state {auxs}, from {exp}")
        return ["stopped", "budget", "failed", "", "failed"][code] + ("" if k else " at once")

    name = f"solver/{kind}/{lay.name}/{max_steps}" + ("/batch" if batch else "") + (
        "/tags" if tags else "")
    return Cell(name, solver_strategy(fam), judge, examples)


def unrolled_cell(kind, lay, examples=5):
    """Reverse mode through the steps of a user's solver is that of the unrolled loop."""
    fam, fn, flat_move, call = solver_parts(kind, lay)

    def through(w, y0, p, o, e):
        def loss(p, rate, y0):
            v = call(y0, p, dict(o, rate=rate), e, SLOTS, optx.RecursiveCheckpointAdjoint(), True)
            return jnp.sum(lay.flat(v) * w)

        return jax.grad(loss, argnums=(0, 1, 2))(p, o["rate"], y0)

    def by_hand(k, w, y0, p, o):
        def loss(p, rate, y0):
            z = lay.flat(y0)
            for _ in range(k):
                z = flat_move(lambda x: fam.raw(x, p), z, rate)
            return jnp.sum((2 * z + k) * w)

        return jax.grad(loss, argnums=(0, 1, 2))(p, o["rate"], y0)

    solve = Lazy(lambda: jax.jit(through))
    hand = {}

    def judge(d):
        p = tmap(np.asarray, fam.params(d["base"]))
        y0 = lay.np_unflat(np.asarray(P.start(d["base"]), float))
        w = np.asarray(d["w"], float)
        stop = 1 + d["stop"] % 4
        k = min(stop, d["fail"])
        o = dict(rate=np.float64(d["rate"]), stop=np.asarray(stop), fail=np.asarray(d["fail"]),
                 how=np.asarray(d["how"]))
        if k not in hand:
            hand[k] = jax.jit(lambda *a: by_hand(k, *a))
        got = npt(lib(solve, w, y0, p, o, np.float64(d["extra"])))
        exp = npt(hand[k](w, y0, p, o))
        check(close(got, exp, 1e-8, 1e-9),
              lambda: f"{kind}: derivative through {k} steps {got}, of the unrolled loop {exp}")
        return f"{k} steps"

    strat = st.tuples(solver_strategy(fam), P.vec(lay.n)).map(lambda t: dict(t[0], w=t[1]))
    return Cell(f"unrolled/{kind}/{lay.name}", strat, judge, examples)


def make_oracle(kind):
    """A solver that is told the answer: derivatives must not depend on how it was found."""

    class Oracle(BASE[kind]):
        rtol: float = 1e-3
        atol: float = 1e-3
        norm: object = optx.max_norm

        def init(self, fn, y, args, options, f_struct, aux_struct, tags):
            return jnp.array(False)

        def step(self, fn, y, args, options, state, tags):
            return options["answer"], jnp.array(True), fn(y, args)[1]

        def terminate(self, fn, y, args, options, state, tags):
            return state, R.successful

        def postprocess(self, fn, y, aux, args, options, state, tags, result):
            return y, aux, {}

    return Oracle()


def oracle_cell(kind, lay, mode, adjoint=None, examples=5):
    """y = h(q) is the answer by construction; the derivative is that of h."""
    n = lay.n
    M = np.eye(n) * 1.5 + 0.3 * np.tri(n)
    kw = {} if adjoint is None else dict(adjoint=adjoint)

    def h(q):
        return jnp.tanh(q["s"]) * q["k"] + jnp.sum(q["s"] ** 2) * 0.1

    def problem(y, q):
        e = lay.flat(y) - h(q)
        g = e + 0.2 * jnp.sin(e)
        if kind == "root":
            return lay.unflat(jnp.asarray(M) @ g)
        if kind == "fp":
            return lay.unflat(h(q) + 0.4 * jnp.asarray(M) @ g / n)
        if kind == "lsq":
            return dict(u=jnp.asarray(M) @ g, v=jnp.sum(g))
        return 0.5 * jnp.sum((jnp.asarray(M) @ g) ** 2) + jnp.sum(jnp.cosh(e))

    def solve(q):
        answer = jax.lax.stop_gradient(lay.unflat(h(q)))
        sol = C.ENTRY[kind](problem, make_oracle(kind), lay.unflat(jnp.zeros(n)), q,
                            dict(answer=answer), **kw)
        return lay.flat(sol.value)

    def diff(f):
        if mode == "rev":
            return jax.jit(jax.jacrev(f))
        if mode == "fwd":
            return jax.jit(jax.jacfwd(f))
        return jax.jit(jax.jacfwd(jax.jacrev(f)))

    a, b = Lazy(lambda: diff(solve)), Lazy(lambda: diff(h))

    def judge(d):
        q = dict(k=np.float64(d["k"] / 4), s=np.asarray(d["s"], float) / 8)
        x, y = npt(lib(a, q)), npt(b(q))
        check(close(x, y, 1e-7, 1e-8), lambda: f"{kind} {mode}: derivative {x}, exact {y}")
        return mode

    return Cell(f"oracle/{kind}/{lay.name}/{mode}" + (f"/{type(adjoint).__name__}" if adjoint else ""),
                st.fixed_dictionaries(dict(k=st.integers(-8, 8), s=P.vec(n))), judge, examples)


# -------------------------------------------------------- user-written searches and descents


class SearchMem(eqx.Module):
    k: jax.Array
    first: jax.Array
    y: jax.Array
    y_eval: jax.Array
    f: jax.Array
    f_eval: jax.Array
    grad: jax.Array


class DescentMem(eqx.Module):
    queries: jax.Array
    y: jax.Array
    f: jax.Array
    grad: jax.Array
    steps: jax.Array


def gradient(info):
    return info.grad if hasattr(info, "grad") else info.compute_grad()


class Scripted(optx.AbstractSearch):
    """Accepts and steps by a script, whatever the function does."""

    accept: jax.Array
    size: jax.Array
    fail: jax.Array
    lay: object = eqx.field(static=True)
    kinds: tuple = eqx.field(static=True)

    def init(self, y, f_info_struct):
        must(type(f_info_struct) is self.kinds[0], f"search init given {type(f_info_struct)}")
        must(spec(y) == spec(tmap(jnp.asarray, y)), "search init: y")
        z = jnp.zeros(SLOTS)
        zz = jnp.zeros((SLOTS, self.lay.n))
        return SearchMem(jnp.array(0), z, zz, zz, z, z, zz)

    def step(self, first_step, y, y_eval, f_info, f_eval_info, state):
        must(type(f_info) is self.kinds[0] and type(f_eval_info) is self.kinds[1],
             f"search given {type(f_info)}, {type(f_eval_info)}")
        k = state.k
        lay = self.lay
        new = SearchMem(
            k + 1, state.first.at[k].set(first_step), state.y.at[k].set(lay.flat(y)),
            state.y_eval.at[k].set(lay.flat(y_eval)), state.f.at[k].set(f_info.as_min()),
            state.f_eval.at[k].set(f_eval_info.as_min()),
            state.grad.at[k].set(lay.flat(gradient(f_info))))
        result = R.where(k == self.fail, R.nonlinear_divergence, R.successful)
        return self.size[k], self.accept[k] | first_step, result, new


class Linear(optx.AbstractDescent):
    """-size * pre @ gradient."""

    pre: jax.Array
    fail: jax.Array
    lay: object = eqx.field(static=True)
    kind: object = eqx.field(static=True)

    def init(self, y, f_info_struct):
        must(type(f_info_struct) is self.kind, f"descent init given {type(f_info_struct)}")
        z = jnp.zeros(self.lay.n)
        return DescentMem(jnp.array(0), z, jnp.array(0.0), z, jnp.array(0))

    def query(self, y, f_info, state):
        must(type(f_info) is self.kind, f"descent given {type(f_info)}")
        flat = self.lay.flat
        return DescentMem(state.queries + 1, flat(y), f_info.as_min(), flat(gradient(f_info)),
                          state.steps)

    def step(self, step_size, state):
        move = -step_size * (self.pre @ state.grad)
        # the number of queries so far decides when it gives up
        result = R.where(state.queries > self.fail, R.singular, R.successful)
        return self.lay.unflat(move), result


FI = optx.FunctionInfo
METHODS = {
    "GD": ("min", FI.EvalGrad, FI.Eval, V.gd),
    "BFGS": ("min", FI.EvalGradHessian, FI.Eval, V.bfgs),
    "BFGSinv": ("min", FI.EvalGradHessianInv, FI.Eval, lambda d, s: V.bfgs(d, s, inverse=True)),
    "DFP": ("min", FI.EvalGradHessian, FI.Eval, lambda d, s: V.bfgs(d, s, cls=V._DFP)),
    "LBFGS": ("min", FI.EvalGradHessian, FI.Eval, V.lbfgs),
    "LBFGSinv": ("min", FI.EvalGradHessianInv, FI.Eval, lambda d, s: V.lbfgs(d, s, inverse=True)),
    "GN": ("lsq", FI.ResidualJac, FI.ResidualJac, V.gn),
}


def found(tree, cls):
    got = [x for x in leaves(tree, is_leaf=lambda x: isinstance(x, cls)) if isinstance(x, cls)]
    must(len(got) == 1, f"{len(got)} states of {cls.__name__}")
    return got[0]


def script_cell(method, lay, jac=None, batch=False, via=None, examples=10):
    kind, K1, K2, assemble = METHODS[method]
    fam = C.Family(via or kind, lay)
    n = lay.n
    if via == "root":
        loss = lambda z, p: 0.5 * jnp.sum(fam.raw(z, p) ** 2)
    elif kind == "lsq":
        loss = lambda z, p: 0.5 * jnp.sum(fam.raw(z, p) ** 2)
    else:
        loss = fam.raw
    options = {} if jac is None else {("jac" if kind == "lsq" else "autodiff_mode"): jac}

    def one(y0, p, s):
        solver = assemble(Linear(s["pre"], s["quit"], lay, K1),
                          Scripted(s["accept"], s["size"], s["fail"], lay, (K1, K2)))(1e-15, 1e-15)
        sol = C.ENTRY[via or kind](
            lambda y, q: (fam.fn(y, q), tmap(lambda x: x * 2, y)), solver, y0, p, options,
            has_aux=True, max_steps=SLOTS, throw=False)
        return dict(V.summary(sol), aux=sol.aux, singular=sol.result == R.singular,
                    search=found(sol.state, SearchMem), descent=found(sol.state, DescentMem))

    def run(y0, p, s):
        if not batch:
            return one(y0, p, s)
        ss = dict(s)
        ss["accept"] = jnp.stack([~s["accept"], s["accept"], jnp.roll(s["accept"], 1)])
        ss["fail"] = jnp.stack([s["fail"] + 1, s["fail"], jnp.asarray(30)])
        out = jax.vmap(one, in_axes=(None, None, dict(pre=None, quit=None, accept=0, size=None,
                                                      fail=0)))(y0, p, ss)
        return tmap(lambda x: x[1], out)

    solve = Lazy(lambda: jax.jit(run))
    value = Lazy(lambda: jax.jit(jax.value_and_grad(loss)))

    def judge(d):
        p = fam.params(d["base"])
        z0 = np.asarray(P.start(d["base"]), float)
        pre = np.eye(n) + np.outer(d["u"], d["v"]) / 64.0
        s = dict(accept=np.asarray(d["accept"], bool), size=np.asarray(d["size"]) / 16.0,
                 pre=pre, fail=np.asarray(d["fail"]), quit=np.asarray(d["quit"]))
        got = npt(lib(solve, lay.np_unflat(z0), p, s))
        y, y_eval, old = z0, z0, z0
        f = g = None
        queries, k, code = 0, 0, 1
        h = dict(y=[], y_eval=[], f=[], f_eval=[], grad=[])
        while k < SLOTS and code == 1:
            fe, ge = npt(value(y_eval, p))
            h["y"].append(y), h["y_eval"].append(y_eval), h["f_eval"].append(fe)
            h["f"].append(f), h["grad"].append(g)
            old = y
            if k == 0 or d["accept"][k]:
                if k and np.max(np.abs(y_eval - y)) < 1e-9 or kind == "lsq" and fe < 1e-18:
                    return None  # so small a step or residual ends the solve
                y, f, g = y_eval, fe, ge
                queries += 1
            y_eval = y - s["size"][k] * (pre @ g)
            if k == d["fail"]:
                code = 2
            elif queries > d["quit"]:
                code = 4
            k += 1
        where = f"{method}, {k} steps, accept {d['accept']}: "
        if not np.all(np.isfinite(np.concatenate([np.ravel(x) for x in h["y_eval"]]))) or np.max(
                np.abs(np.concatenate(h["y_eval"]))) > 1e6:
            return None  # the script ran away
        check(int(got["code"]) == code and int(got["steps"]) == k
              and bool(got["singular"]) == (code == 4),
              lambda: where + f"result {got['code']} after {got['steps']} steps, expected {code}")
        S, D = got["search"], got["descent"]
        check(int(S.k) == k and np.array_equal(S.first[:k], [1.0] + [0.0] * (k - 1)),
              lambda: where + f"search called {S.k} times, first {S.first}")
        ok = close(S.y_eval[:k], np.array(h["y_eval"]), 1e-8, 1e-9) and close(
            S.f_eval[:k], np.array(h["f_eval"]), 1e-8, 1e-9)
        check(ok, lambda: where + f"search was shown {S.y_eval[:k]} / {S.f_eval[:k]}, "
              f"expected {h['y_eval']} / {h['f_eval']}")
        # on the first step the accepted point is documented to be meaningless
        ok = k == 1 or (close(S.y[1:k], np.array(h["y"][1:]), 1e-8, 1e-9)
                        and close(S.f[1:k], np.array(h["f"][1:]), 1e-8, 1e-9)
                        and close(S.grad[1:k], np.array(h["grad"][1:]), 1e-7, 1e-8))
        check(ok, lambda: where + f"accepted points {S.y[1:k]} / {S.f[1:k]} / {S.grad[1:k]}, "
              f"expected {h['y'][1:]} / {h['f'][1:]} / {h['grad'][1:]}")
        check(int(D.queries) == queries and close(D.y, y, 1e-8, 1e-9) and close(D.f, f, 1e-8, 1e-9)
              and close(D.grad, g, 1e-7, 1e-8),
              lambda: where + f"descent queried {D.queries} times, last {D}, expected {queries} "
              f"at {y}, {f}, {g}")
        check(close(lay.np_flat(got["value"]), y, 1e-8, 1e-9),
              lambda: where + f"value {got['value']}, expected {y}")
        check(close(lay.np_flat(got["aux"]), 2 * old, 1e-8, 1e-9),
              lambda: where + f"aux {got['aux']}, expected {2 * old}")
        return f"{queries} accepted, code {code}"

    bits = st.lists(st.booleans(), min_size=SLOTS, max_size=SLOTS)
    return Cell(f"script/{method}/{lay.name}" + (f"/{jac}" if jac else "") + (
        "/batch" if batch else "") + (f"/{via}" if via else ""), st.fixed_dictionaries(dict(
            base=fam.strategy, accept=bits, size=st.lists(st.integers(1, 8), min_size=SLOTS, max_size=SLOTS),
            u=P.vec(n, 4), v=P.vec(n, 4), fail=st.sampled_from([20, 20, 20, 20, 20, 5, 3, 2, 1, 0]),
            quit=st.sampled_from([20, 20, 20, 20, 20, 4, 2, 1, 0]))), judge, examples)


# ------------------------------------------------------------------- user-written adjoints


class Wrapped(optx.AbstractAdjoint):
    """Delegates, having looked at what it was given."""

    inner: optx.AbstractAdjoint
    tags: object = eqx.field(static=True)
    seen: object = eqx.field(static=True)

    def apply(self, primal_fn, rewrite_fn, inputs, tags):
        self.seen.append(tags)
        must(tags == self.tags, f"adjoint given tags {tags}, expected {self.tags}")
        root, residual = self.inner.apply(primal_fn, rewrite_fn, inputs, tags)
        return tmap(lambda x: 3 * x, root), residual


def adjoint_cell(kind, name, lay, inner, tags, grad, examples=4):
    """A user's adjoint runs the solve: what it returns is the solution."""
    fam = C.Family(kind, lay)
    make = C.SOLVERS[kind][name]

    def run(y0, p, wrapped):
        seen = []
        adj = Wrapped(inner, tags, seen) if wrapped else inner

        def f(q):
            sol = C.ENTRY[kind](fam.fn, make(1e-8, 1e-8), y0, q, adjoint=adj, tags=tags,
                                throw=False, max_steps=60)
            scale = 1.0 if wrapped else 3.0
            return scale * lay.flat(sol.value), (V.rcode(sol.result), sol.stats["num_steps"])

        if grad:
            g, aux = jax.jacrev(f, has_aux=True)(p)
            out = g, aux
        else:
            out = f(p)
        must(not wrapped or len(seen) == 1, f"adjoint applied {len(seen)} times")
        return out

    a, b = (Lazy(lambda w=w: jax.jit(lambda y, p: run(y, p, w))) for w in (True, False))

    def judge(d):
        p = tmap(np.asarray, fam.params(d))
        y0 = lay.np_unflat(np.asarray(fam.start(d, p, name), float))
        x, y = npt(lib(a, y0, p)), npt(b(y0, p))
        check(close(x, y, 1e-9, 1e-9), lambda: f"{name} with a wrapping adjoint {x}, expected {y}")
        return "grad" if grad else "value"

    return Cell(f"adjoint/{kind}/{name}/{type(inner).__name__}/{lay.name}" + ("/grad" if grad else ""),
                fam.strategy, judge, examples)


# ------------------------------------------------------------------------ implicit_jvp itself


def _primal_chain(inputs):
    a, q, k = inputs
    x = jnp.cbrt(a["x"]) * q
    y = x[0] + a["y"] ** 2
    return (x, dict(y=y)), (jnp.sin(x), k + 1, a["y"])


def _rewrite_chain(root, residual, inputs):
    x, y = root[0], root[1]["y"]
    a, q, _ = inputs
    # the residual enters as a constant
    c = residual[2]
    return dict(u=(x / q) ** 3 - a["x"], v=(y - x[0] - a["y"] ** 2) * (1 + c**2))


def _exact_chain(a, q):
    x = jnp.cbrt(a["x"]) * q
    return x, x[0] + a["y"] ** 2


def _primal_const(inputs):
    return inputs["b"] / inputs["d"], inputs["d"] * inputs["s"]


def _rewrite_const(root, residual, inputs):
    # through the residual, d is held fixed
    return residual / jax.lax.stop_gradient(inputs["s"]) * root - inputs["b"]


def jvp_cell(which, mode, solver=None, examples=12):
    from optimistix.internal import implicit_jvp

    tags = frozenset()
    ls = solver or lx.AutoLinearSolver(well_posed=None)
    if which == "diag":
        tags = frozenset({lx.diagonal_tag})

    if which == "chain":
        def f(q):
            (x, y), res = implicit_jvp(_primal_chain, _rewrite_chain,
                                       (dict(x=q["x"], y=q["y"]), q["q"], q["k"]), tags, ls)
            return x, y["y"], jnp.sum(res[0]), res[1]

        def g(q):
            x, y = _exact_chain(dict(x=q["x"], y=q["y"]), q["q"])
            return x, y, jax.lax.stop_gradient(jnp.sum(jnp.sin(x))), q["k"] + 1
    else:
        def f(q):
            root, res = implicit_jvp(_primal_const, _rewrite_const,
                                     dict(b=q["x"], d=1.5 + q["y"] ** 2 + 0 * q["x"], s=q["q"]),
                                     tags, ls)
            return root, res

        def g(q):
            d = 1.5 + q["y"] ** 2 + 0 * q["x"]
            return q["x"] / jax.lax.stop_gradient(d), jax.lax.stop_gradient(d * q["q"])

    def diff(fn):
        def go(q, t):
            k = q["k"]
            rest = {a: b for a, b in q.items() if a != "k"}
            full = lambda r: fn(dict(r, k=k))
            floats = lambda r: full(r)[:2]
            if mode == "fwd":
                # forward mode gives the residual's tangent, documented to be nothing
                def two(r):
                    out = full(r)
                    return [o for o in out if jnp.issubdtype(o.dtype, jnp.floating)]
                return full(rest), jax.jvp(two, (rest,), (t,))
            if mode == "rev":
                def loss(r):
                    x, y = full(r)[:2]
                    return jnp.sum(jnp.sin(x)) + (jnp.sum(y) if which == "chain" else 0.0)
                return full(rest), jax.grad(loss)(rest)
            if mode == "vmap":
                shift = jnp.array([0.0, 0.5, 1.25])
                return jax.vmap(lambda s: jax.jvp(floats, (dict(rest, x=rest["x"] + s),), (t,)))(shift)
            def loss(r):
                x, y = full(r)[:2]
                return jnp.sum(jnp.sin(x)) + (jnp.sum(y**2) if which == "chain" else 0.0)
            return jax.hessian(loss)(rest)

        return jax.jit(go)

    a, b = Lazy(lambda: diff(f)), Lazy(lambda: diff(g))

    def judge(d):
        q = dict(x=2.0 + np.asarray(d["x"], float) / 16, y=np.float64(d["y"] / 8),
                 q=np.float64(1 + d["q"] / 8), k=np.asarray(d["k"]))
        t = dict(x=np.asarray(d["tx"], float), y=np.float64(d["ty"]), q=np.float64(d["tq"]))
        x, y = npt(lib(a, q, t)), npt(b(q, t))
        check(close(x, y, 1e-8, 1e-9), lambda: f"implicit_jvp {which} {mode}: {x}, exact {y}")
        return mode

    return Cell(f"implicit/{which}/{mode}" + (f"/{type(solver).__name__}" if solver else ""),
                st.fixed_dictionaries(dict(
                    x=P.vec(3), y=st.integers(-8, 8), q=st.integers(0, 8), k=st.integers(0, 3),
                    tx=P.vec(3, 4), ty=st.integers(-4, 4), tq=st.integers(-4, 4))), judge, examples)


def cells(tier):
    L = P.LAYOUTS
    full = tier != "quick"
    names = ("pair", "vec3", "dict", "none", "scalar", "mat22")
    out = []
    for i, kind in enumerate(BASE):
        for j, ms in enumerate((3, None, 6) if not full else (0, 1, 2, 3, None, 6)):
            out.append(solver_cell(kind, L[names[(i + j) % 6]], ms))
        out.append(solver_cell(kind, L[names[(i + 3) % 6]], 6, batch=True))
        out.append(unrolled_cell(kind, L[names[(i + 4) % 6]]))
        for j, mode in enumerate(("rev", "fwd", "second")):
            out.append(oracle_cell(kind, L[names[(i + j + 1) % 6]], mode))
        out.append(oracle_cell(kind, L[names[(i + 2) % 6]], "rev",
                               optx.ImplicitAdjoint(linear_solver=lx.LU())))
    out.append(solver_cell("root", L["vec2"], 5, frozenset({lx.positive_semidefinite_tag})))
    for i, method in enumerate(METHODS):
        mine = ("bwd", "fwd")[i % 2]
        out.append(script_cell(method, L[names[i % 6]]))
        out.append(script_cell(method, L[names[(i + 2) % 6]], jac=mine))
        out.append(script_cell(method, L[names[(i + 3) % 6]], batch=True))
        if full:
            for n in names:
                out.append(script_cell(method, L[n], jac=("fwd", "bwd")[i % 2]))
    out.append(script_cell("GN", L["pair"], via="root"))
    for i, (kind, name) in enumerate((("root", "Newton"), ("fp", "FPI"), ("lsq", "LevenbergMarquardt"),
                                      ("min", "BFGS"))):
        none = frozenset()
        out.append(adjoint_cell(kind, name, L[names[i]], optx.ImplicitAdjoint(), none, True))
        out.append(adjoint_cell(kind, name, L[names[i + 1]], optx.RecursiveCheckpointAdjoint(), none,
                                kind in ("root", "fp")))
    out.append(adjoint_cell("min", "BFGS", L["vec2"], optx.ImplicitAdjoint(),
                            frozenset({lx.positive_semidefinite_tag}), True))
    for mode in ("fwd", "rev", "vmap", "second"):
        out.append(jvp_cell("chain", mode))
        out.append(jvp_cell("diag", mode))
    out.append(jvp_cell("chain", "rev", lx.LU()))
    out.append(jvp_cell("chain", "fwd", lx.QR()))
    return out
