"""Drives a solver through the documented init / step / terminate / postprocess protocol.

Only the public solver interface is used. State is treated as opaque: it is split into
arrays and everything else at the jit boundary and put back together unchanged.
"""

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optimistix as optx

from .solvers import rcode


class Stepper:
    """`make(cfg)` builds the solver from a pytree of arrays; `fn(y, args) -> (out, aux)`
    is the user function."""

    def __init__(self, make, fn, options=None, tags=frozenset()):
        self.make, self.fn, self.tags = make, fn, tags
        self.options = (lambda o: {} if o is None else o) if options is None else options
        self.static = None
        self._init = jax.jit(self._init_impl)
        self._step = jax.jit(self._step_impl)
        self._post = jax.jit(self._post_impl)

    def _closed(self, y, args):
        return eqx.filter_closure_convert(self.fn, y, args)

    def _split(self, state):
        dyn, self.static = eqx.partition(state, eqx.is_array)
        return dyn

    def _init_impl(self, y, args, cfg, opts):
        fn = self._closed(y, args)
        f_struct, aux_struct = fn.out_struct
        solver = self.make(cfg)
        o = self.options(opts)
        state = solver.init(fn, y, args, o, f_struct, aux_struct, self.tags)
        done, res = solver.terminate(fn, y, args, o, state, self.tags)
        return self._split(state), done, rcode(res)

    def _step_impl(self, y, dyn, args, cfg, opts):
        fn = self._closed(y, args)
        solver = self.make(cfg)
        o = self.options(opts)
        state = eqx.combine(dyn, self.static)
        new_y, new_state, aux = solver.step(fn, y, args, o, state, self.tags)
        done, res = solver.terminate(fn, new_y, args, o, new_state, self.tags)
        done2, res2 = solver.terminate(fn, y, args, o, new_state, self.tags)
        dyn, _ = eqx.partition(new_state, eqx.is_array)
        return new_y, dyn, aux, (done, rcode(res)), (done2, rcode(res2))

    def _post_impl(self, y, dyn, aux, args, cfg, opts, code):
        fn = self._closed(y, args)
        solver = self.make(cfg)
        o = self.options(opts)
        R = optx.RESULTS
        result = R.where(
            code == 0, R.successful,
            R.where(code == 1, R.nonlinear_max_steps_reached,
                    R.where(code == 2, R.nonlinear_divergence, R.nonfinite)),
        )
        state = eqx.combine(dyn, self.static)
        return solver.postprocess(fn, y, aux, args, o, state, self.tags, result)[:2]

    def start(self, y, args, cfg=None, opts=None):
        y = jax.tree_util.tree_map(jnp.asarray, y)
        dyn, done, code = self._init(y, args, cfg, opts)
        return y, dyn, bool(done), int(code)

    def step(self, y, dyn, args, cfg=None, opts=None):
        """-> y, state, aux, (done, code) judged at the new y, and at the previous y."""
        y, dyn, aux, (d, c), (d2, c2) = self._step(y, dyn, args, cfg, opts)
        return y, dyn, aux, (bool(d), int(c)), (bool(d2), int(c2))

    def post(self, y, dyn, aux, args, code, cfg=None, opts=None):
        return self._post(y, dyn, aux, args, cfg, opts, jnp.asarray(code))

    def run(self, y, args, n, cfg=None, opts=None):
        """Steps until termination or `n` steps. Returns a list of records with the
        iterate before and after each step."""
        y, dyn, done, code = self.start(y, args, cfg, opts)
        hist = []
        while not done and code == 0 and len(hist) < n:
            new, dyn, aux, (done, code), old = self.step(y, dyn, args, cfg, opts)
            hist.append(dict(y=y, new=new, dyn=dyn, aux=aux, done=done, code=code, old=old))
            y = new
        return hist


def finite(tree):
    return all(np.all(np.isfinite(np.asarray(l))) for l in jax.tree_util.tree_leaves(tree))
