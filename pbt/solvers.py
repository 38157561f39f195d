"""Catalogues of solver configurations, each a function of (rtol, atol)."""

import equinox as eqx
import jax
import jax.numpy as jnp
import lineax as lx
import numpy as np
import optax
import optimistix as optx


def rcode(result):
    """successful 0, max steps 1, divergence 2, nonfinite 3, anything else 4."""
    R = optx.RESULTS
    out = jnp.array(4)
    for i, r in enumerate(
        (R.successful, R.nonlinear_max_steps_reached, R.nonlinear_divergence, R.nonfinite)
    ):
        out = jnp.where(result == r, i, out)
    return out


def summary(sol):
    return dict(
        value=sol.value,
        code=rcode(sol.result),
        steps=jnp.asarray(sol.stats["num_steps"]),
    )


# Public solvers assembled from the public building blocks, as the documentation invites.


class _GD(optx.AbstractGradientDescent):
    rtol: float
    atol: float
    norm: object
    descent: optx.AbstractDescent
    search: optx.AbstractSearch


class _BFGS(optx.AbstractBFGS):
    rtol: float
    atol: float
    norm: object
    use_inverse: bool
    descent: optx.AbstractDescent
    search: optx.AbstractSearch
    verbose: object


class _DFP(optx.AbstractDFP):
    rtol: float
    atol: float
    norm: object
    use_inverse: bool
    descent: optx.AbstractDescent
    search: optx.AbstractSearch
    verbose: object


class _LBFGS(optx.AbstractLBFGS):
    rtol: float
    atol: float
    norm: object
    use_inverse: bool
    history_length: int
    descent: optx.AbstractDescent
    search: optx.AbstractSearch
    verbose: object


class _GN(optx.AbstractGaussNewton):
    rtol: float
    atol: float
    norm: object
    descent: optx.AbstractDescent
    search: optx.AbstractSearch
    verbose: object


def quiet(**kw):
    pass


def gd(descent, search, norm=optx.max_norm):
    return lambda rtol, atol: _GD(rtol, atol, norm, descent, search)


def bfgs(descent, search, inverse=False, norm=optx.max_norm, cls=_BFGS):
    return lambda rtol, atol: cls(rtol, atol, norm, inverse, descent, search, quiet)


def lbfgs(descent, search, inverse=False, history=4, norm=optx.max_norm):
    return lambda rtol, atol: _LBFGS(
        rtol, atol, norm, inverse, history, descent, search, quiet
    )


def gn(descent, search, norm=optx.max_norm):
    return lambda rtol, atol: _GN(rtol, atol, norm, descent, search, quiet)


ROOT = {
    "Newton": lambda r, a: optx.Newton(r, a),
    "NewtonTwoNorm": lambda r, a: optx.Newton(r, a, norm=optx.two_norm),
    "NewtonLU": lambda r, a: optx.Newton(r, a, linear_solver=lx.LU()),
    "NewtonQR": lambda r, a: optx.Newton(r, a, linear_solver=lx.QR()),
    "Chord": lambda r, a: optx.Chord(r, a),
    "ChordRms": lambda r, a: optx.Chord(r, a, norm=optx.rms_norm),
}
ROOT_NC = {
    "NewtonNC": lambda r, a: optx.Newton(r, a, cauchy_termination=False),
    "ChordNC": lambda r, a: optx.Chord(r, a, cauchy_termination=False),
}
LSQ = {
    "GaussNewton": lambda r, a: optx.GaussNewton(r, a),
    "LevenbergMarquardt": lambda r, a: optx.LevenbergMarquardt(r, a),
    "IndirectLM": lambda r, a: optx.IndirectLevenbergMarquardt(r, a),
    "Dogleg": lambda r, a: optx.Dogleg(r, a),
}
LSQ_CUSTOM = {
    "GN+Newton+Armijo": gn(optx.NewtonDescent(), optx.BacktrackingArmijo()),
    "GN+Newton+CTR": gn(optx.NewtonDescent(), optx.ClassicalTrustRegion()),
    "GN+Damped+LTR": gn(
        optx.DampedNewtonDescent(), optx.LinearTrustRegion(high_cutoff=0.4)
    ),
    "GN+Dogleg+LTR": gn(optx.DoglegDescent(), optx.LinearTrustRegion(high_cutoff=0.4)),
    "GN+DoglegMax+CTR": gn(
        optx.DoglegDescent(trust_region_norm=optx.max_norm), optx.ClassicalTrustRegion()
    ),
    "GN+Indirect+Armijo": gn(
        optx.IndirectDampedNewtonDescent(), optx.BacktrackingArmijo()
    ),
}
QN = {
    "BFGS": lambda r, a: optx.BFGS(r, a),
    "BFGSdirect": lambda r, a: optx.BFGS(r, a, use_inverse=False),
    "DFP": lambda r, a: optx.DFP(r, a),
    "DFPdirect": lambda r, a: optx.DFP(r, a, use_inverse=False),
    "LBFGS": lambda r, a: optx.LBFGS(r, a),
    "LBFGSdirect": lambda r, a: optx.LBFGS(r, a, use_inverse=False),
    "LBFGS2": lambda r, a: optx.LBFGS(r, a, history_length=2),
    "LBFGSdirect2": lambda r, a: optx.LBFGS(r, a, use_inverse=False, history_length=2),
}
CG = {
    f"CG-{m.__name__}": (lambda r, a, m=m: optx.NonlinearCG(r, a, method=m))
    for m in (
        optx.polak_ribiere,
        optx.fletcher_reeves,
        optx.hestenes_stiefel,
        optx.dai_yuan,
    )
}
MIN_CUSTOM = {
    "BFGS+Newton+LTR": bfgs(
        optx.NewtonDescent(), optx.LinearTrustRegion(high_cutoff=0.4), inverse=True
    ),
    "BFGS+Damped+CTR": bfgs(optx.DampedNewtonDescent(), optx.ClassicalTrustRegion()),
    "BFGS+Indirect+CTR": bfgs(
        optx.IndirectDampedNewtonDescent(), optx.ClassicalTrustRegion()
    ),
    "BFGS+Dogleg+CTR": bfgs(optx.DoglegDescent(), optx.ClassicalTrustRegion()),
    "BFGS+Dogleg+LTR": bfgs(
        optx.DoglegDescent(), optx.LinearTrustRegion(high_cutoff=0.4)
    ),
    "DFP+Dogleg+CTR": bfgs(optx.DoglegDescent(), optx.ClassicalTrustRegion(), cls=_DFP),
    "LBFGS+Newton+CTR": lbfgs(optx.NewtonDescent(), optx.ClassicalTrustRegion()),
    "GD+Steepest+Armijo": gd(optx.SteepestDescent(), optx.BacktrackingArmijo()),
    "GD+Steepest+LTR": gd(
        optx.SteepestDescent(), optx.LinearTrustRegion(high_cutoff=0.4)
    ),
    "CG+PR+LTR": gd(
        optx.NonlinearCGDescent(optx.polak_ribiere),
        optx.LinearTrustRegion(high_cutoff=0.4),
    ),
}
