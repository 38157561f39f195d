"""Non-triviality rules (written into the evidence) and standing assumptions."""

ASSUMPTIONS = [
    "CPU backend, double precision unless the case says otherwise, one thread per worker",
    "problems are well-scaled: data of order 1, condition numbers of order 10",
    "Hypothesis draws every case from a stream fixed by VERIF_SEED, the property and the "
    "cell name",
]

RULES = {
    "C01": "distinct generated systems whose start is not already a root to within "
    "tolerance (or, for arbitrary systems, on which success was reported) and whose "
    "returned value was compared with the known root or the residual bound",
    "C02": "distinct generated maps whose start is not already the fixed point (or, for "
    "arbitrary maps, on which success was reported)",
    "C03": "distinct generated problems whose start is not already the minimiser and on "
    "which success was reported",
    "C04": 'distinct generated objectives whose start is not already the minimiser and on which success was reported',
    "C05": 'distinct generated solves in which a failure, a budget or a non-finite value was actually in play (cases with neither are not counted)',
    "C06": 'distinct generated solves of at least one step whose value, aux, result and step count were compared with the hand-driven loop',
    "C07": 'distinct generated parametrised problems solved to a residual below 1e-6 with a non-zero expected derivative',
    "C08": 'distinct generated solves of at least one iteration with a non-zero cotangent',
    "C09": 'distinct generated batches (four members mixing ordinary, already solved, far, NaN-start and NaN-wall problems) compared member by member with single solves',
    "C14": 'distinct generated sequences of seven trials (plus default-parameter and learning-rate cases) in which both an acceptance and a rejection occurred, or in which every documented outcome was compared',
    "C15": 'distinct generated pieces of function information with a non-zero gradient whose step was compared with the dense reference (trust-region descents: counted per regime of the path)',
    "C27": 'distinct generated residual/Jacobian or value/gradient data with a non-zero gradient and direction',
    "C28": 'distinct generated gradient sequences, quadratics or solves in which a conjugate or restarted direction was compared with the textbook one',
    "C24": 'distinct generated pytrees for the norms (zero included); distinct solves replayed against the criterion whose stopping step was unambiguous (no scaled change within 1e-6 of one); pairs of solves at looser and tighter tolerances',
    "C13": 'distinct generated nonconvex problems on which the solver moved at least once and every step of the run was compared with the objective before it',
    "C12": 'distinct generated runs reporting at least two different losses, at least one finite, whose returned point, loss and aux were compared with the hand-driven record',
    "C16": 'distinct generated runs with at least one accepted pair (positive curvature updated, or non-positive curvature skipped) compared with the dense recursion, or pairs of direct/inverse runs',
    "C17": 'distinct generated functions and intervals (root inside, at an end, outside, or several) on which the outcome was compared with the known root or the expected error',
    "C18": 'distinct generated unimodal functions and intervals of non-zero width whose minimiser (interior or at an end) was compared with the answer',
    "C19": 'distinct generated systems and boxes whose first eight iterates were compared with the clipped iteration (classes: bounds active or not)',
    "C20": 'distinct generated objectives, rates, tolerances and budgets whose iterate, step count and result were compared with the Optax loop written by hand',
    "C21": 'distinct generated objectives, tolerances, norms, limits and argument forms whose result fields were checked against each other, the objective and BFGS; plus malformed calls',
    "C22": 'distinct generated problems solved under every variant of an execution option and compared, including each reported verbose value',
    "C23": 'distinct generated objectives, starts, simplices and tolerances whose every move, best vertex, stopping decision and move counts were compared with a reference Nelder-Mead',
    "C10": 'distinct generated problems solved flat and under a random pytree layout and compared',
    "C11": 'distinct generated guesses of each dtype and layout, args of random structure and aux of random structure and dtype, followed through a solve',
    "C25": 'distinct generated malformed calls that were rejected while a valid neighbour of the same call was accepted',
    "C26": 'distinct generated problems solved through another problem kind and by the hand-written reformulation and compared; plus success criteria and derivatives of converted solves',
    "C29": 'distinct generated problems on which every way of calling in the cell was compared with the plain jitted call; nested solves compared with the closed form of the inner solution',
    "C30": 'distinct scripted runs (user-written solver, search, descent or adjoint) whose every recorded call was compared with the run worked out by hand; derivative cases compared with closed forms',
    "C31": 'distinct generated complex problems compared with their real and imaginary parts (iterates, result, step count, derivatives), norms and objectives compared with NumPy',
    "C32": 'distinct generated problems solved under a global JAX mode and compared (value, dtype, result, step count or derivative) with the default mode',
    "C33": 'a violation only if the transformed run differs from the image of the original run beyond 1e-6 relative to the unit, at the start and at two small shifts of it',
    "C34": 'a case counts when a step is cut or blocked, a value is clipped, both sides of a selection are used, or the projected point differs from the start or lies at a bend; distinct by generated data',
}

SOUND = (
    "Searches generated inputs only: says nothing about inputs outside the stated "
    "generators. Trusts NumPy, JAX, Lineax, Equinox, Optax and Hypothesis. "
)

# property -> (technique, level note)
CHECKS = {
    "C01": (
        "property-based testing: generated systems with a known root, residual and "
        "distance oracles",
        SOUND + "Liveness is claimed only for systems whose Newton map is a global "
        "contraction; on arbitrary systems only soundness of success is judged.",
    ),
    "C02": (
        "property-based testing: generated contractions with a known fixed point, "
        "residual and distance oracles, iterates recomputed in NumPy",
        SOUND + "Liveness is claimed for contraction factors up to 0.85 only.",
    ),
    "C03": (
        "property-based testing: generated full-rank problems with a known minimiser",
        SOUND + "Accuracy bounds are a fixed multiple of the tolerances.",
    ),
    "C04": (
        'property-based testing: generated strongly convex objectives with a known minimiser',
        SOUND + 'Accuracy is judged against a fixed multiple of the tolerances (plus a floor for rounding of the objective), so a slightly early stop is left to C24.',
    ),
    "C05": (
        'property-based testing: generated solvable, unsolvable and non-finite problems under varying budgets; prefix, exception-equivalence and evaluation-count oracles',
        SOUND + 'A hang would be seen as an exhausted time budget (inconclusive), not as a violation.',
    ),
    "C06": (
        'property-based differential testing: entry points against the public init/step/terminate/postprocess protocol',
        SOUND + 'Whether termination is judged at the new or the previous iterate is left open; mismatches are confirmed at perturbed starts.',
    ),
    "C07": (
        'property-based testing: forward and reverse derivatives against a dense implicit-function-theorem oracle',
        SOUND + 'The oracle differentiates the generated function with JAX and solves densely; Hessians are non-singular by construction.',
    ),
    "C08": (
        'property-based differential testing: reverse-mode derivatives against hand-written unrolled iterations and against unrolled public steps',
        SOUND + 'Unrolled references go up to 8 iterations; memory use of the checkpointing is not judged.',
    ),
    "C09": (
        'property-based differential testing: vmap against one-at-a-time solves',
        SOUND + 'Agreement is up to rounding; mismatches are confirmed at perturbed starts.',
    ),
    "C14": (
        "property-based model testing: an exact dyadic-rational model of each search's documented rule",
        SOUND + 'Cases in which a trust-region model predicts an increase are fed but not judged.',
    ),
    "C15": (
        'property-based model testing: dense linear algebra written with NumPy',
        SOUND + 'Trust-radius steps with the default root finder are judged to its tolerance (1e-2 in length).',
    ),
    "C27": (
        'property-based model testing: dense NumPy formulas',
        SOUND + 'Real-valued data only.',
    ),
    "C28": (
        'property-based model testing: textbook formulas and linear CG written with NumPy',
        SOUND + 'Directions whose descent test is decided by rounding are skipped.',
    ),
    "C24": (
        'property-based testing: norm axioms and NumPy formulas; replay of the stopping rule from observed iterates and evaluations',
        SOUND + 'Least-squares solvers may stop on the very first evaluation when the residual vanishes to tolerance.',
    ),
    "C13": (
        'property-based testing: monotonicity oracle evaluated at every hand-driven step',
        SOUND + 'Starts are points where the function and its gradient are finite.',
    ),
    "C12": (
        'property-based differential testing: wrapped solves against the record of the unwrapped solver driven by hand',
        SOUND + 'Agreement with the record is up to rounding, confirmed at perturbed starts.',
    ),
    "C16": (
        'property-based model testing: approximations observed through a user-written descent, dense recursions in NumPy',
        SOUND + 'Pairs whose curvature is zero to rounding end the comparison; approximations of condition number above 1e7 are not judged.',
    ),
    "C17": (
        'property-based testing: known roots, halving-count bound, expected errors',
        SOUND + 'Function slopes are bounded; expansion is judged for monotone functions only.',
    ),
    "C18": (
        'property-based testing: known minimisers, recorded evaluation points, metamorphic shifts, mirrors and guesses',
        SOUND + 'Accuracy is judged to 4.4 times the tolerance plus what the flatness of the function allows.',
    ),
    "C19": (
        'property-based model testing: the clipped Newton and Chord iterations written with NumPy',
        SOUND + 'Starts lie in the box; iterations through nearly singular Jacobians are not judged.',
    ),
    "C20": (
        'property-based differential testing: the wrapper against a hand-written Optax loop',
        SOUND + 'Runs whose stopping decision is within 1e-6 of the threshold are skipped.',
    ),
    "C21": (
        'property-based testing of the result record against the objective, its gradient and a BFGS reference, with generated malformed calls',
        SOUND + 'The exact Hessian is not compared, only symmetry and definiteness of the estimate.',
    ),
    "C22": (
        'property-based differential testing between configurations of the same solve',
        SOUND + 'A difference counts only if it survives two small shifts of the start, so ties decided by rounding are not reported.',
    ),
    "C23": (
        'model-based property testing: each step of the simplex against a reference implementation of the moves',
        SOUND + 'Steps decided by a near-tie of values are accepted as they come. Runs start from scalar leaves or an explicit simplex; the first simplex for array leaves is a known finding.',
    ),
    "C10": (
        'metamorphic property-based testing: flat vector against a randomly generated layout, relabelled',
        SOUND + 'Layouts are drawn from the seed: different seeds use different layouts. A difference counts only if it survives two small shifts of the start.',
    ),
    "C11": (
        'property-based testing of what goes in and comes out of each solver',
        SOUND + 'All leaves of a guess share one dtype; the values of aux are checked against the point it says it was computed at.',
    ),
    "C25": (
        'property-based negative testing: generated malformed inputs, each paired with a valid one',
        SOUND + 'The type and text of the error are not judged, only that there is one.',
    ),
    "C26": (
        'property-based differential testing: conversion against manual reformulation',
        SOUND + 'Where the conversion adds the residual test, iterates are compared with termination disabled and the test itself is checked separately.',
    ),
    "C29": (
        'property-based metamorphic testing over calling contexts',
        SOUND + 'Seventeen calling contexts over all solvers; nested solves of every kind inside every kind, with first derivatives; second derivatives on closed-form solutions.',
    ),
    "C30": (
        'property-based testing against a model: user-written components record what they are given',
        SOUND + 'User-written solvers of all four kinds with generated stop, failure and step-limit scripts; generated accept/reject and step-size scripts for seven search-based methods; custom adjoints; direct use of the implicit derivative rule.',
    ),
    "C31": (
        'property-based differential testing: complex problem against its real split',
        SOUND + 'Holomorphic problems only, root finding and fixed points by the solvers that do not need an inner product of gradients; complex least squares and minimisation are documented as work in progress and not claimed.',
    ),
    "C32": (
        'property-based metamorphic testing over global JAX modes',
        SOUND + 'Strict dtype and rank promotion, 64-bit mode off, both together, and jit disabled; not the NaN-debugging or tracer-leak modes. Adaptive Optax optimisers are left out of strict promotion because Optax itself needs the usual rules.',
    ),
    "C33": (
        'property-based metamorphic testing over changes of coordinates',
        SOUND + 'Shifts, units from 2^-8 to 2^24, rotations and reflections of the unknowns and of the residuals, and general invertible maps for the solvers that ought to follow them. Solvers with a fixed length or tolerance inside them are left out of the changes of unit.',
    ),
    "C34": (
        'property-based testing against the definition, plus metamorphic testing over layouts, orders and batches',
        SOUND + 'That the returned point minimises the quadratic model along the path is documented but contradicted by the existing tests, and not claimed.',
    ),
}

NOT_APPLICABLE = {}

NOTES = (
    "All checks are Hypothesis-driven; each run is fixed by VERIF_SEED. "
    "`run.py <ID> --replay <file>` re-judges a recorded failing case."
)
