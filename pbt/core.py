"""The engine: cells, generation, judging, shrinking, evidence.

A check is a list of cells.  A cell fixes everything static (solver, pytree layout,
problem family), compiles its solve once, and has a Hypothesis strategy for everything
numeric.  `run(data)` judges one generated case: it raises `Violation` when the property
is broken and otherwise returns a label describing what the case exercised (or None when
the case was trivial for the property).
"""

from __future__ import annotations

import hashlib
import json
import os
import time
import traceback
from collections import Counter
from typing import Any, Callable


class Violation(Exception):
    """The property under test does not hold for the current case."""


class _StopShrinking(BaseException):
    pass


def check(cond, msg: Callable[[], str] | str):
    if not bool(cond):
        raise Violation(msg() if callable(msg) else msg)


def lib(fn, *args, **kwargs):
    """Calls into the library under test on input the property says is valid. Any
    exception escaping from it is a violation rather than an error of the harness."""
    try:
        return fn(*args, **kwargs)
    except Violation:
        raise
    except Exception as e:
        text = "".join(traceback.format_exception_only(type(e), e)).strip()
        raise Violation(f"library raised {type(e).__name__}: {text[:600]}") from e


def raises(fn, *args, **kwargs):
    """Calls into the library; returns the exception it raised, or None."""
    try:
        fn(*args, **kwargs)
        return None
    except Exception as e:
        return e


class Cell:
    def __init__(self, name: str, strategy, run: Callable[[Any], Any], examples=20):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.examples = examples


def stable_seed(*parts) -> int:
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def canon(data) -> str:
    return json.dumps(data, sort_keys=True, separators=(",", ":"))


class CellResult:
    def __init__(self):
        self.evaluations = 0
        self.seen = set()
        self.nontrivial = set()
        self.labels = Counter()
        self.sample = None
        self.failure = None  # (data, message)
        self.wall = 0.0


def run_cell(
    prop: str, cell: Cell, seed: int, factor: float, shrink_budget=150
) -> CellResult:
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    res = CellResult()
    t0 = time.time()
    best: dict = {}
    after = [0]

    def judge(data):
        res.evaluations += 1
        key = canon(data)
        if best:
            after[0] += 1
            if after[0] > shrink_budget:
                raise _StopShrinking()
        try:
            label = cell.run(data)
        except Violation as v:
            if not best or (len(key), key) < (len(best["key"]), best["key"]):
                best.update(key=key, data=data, message=str(v))
            raise
        res.seen.add(key)
        if label is not None:
            res.nontrivial.add(key)
            res.labels[str(label)] += 1
            if res.sample is None:
                res.sample = data
        return label

    n = max(1, int(round(cell.examples * factor)))
    st = settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        print_blob=False,
    )

    @hypothesis.seed(stable_seed(prop, cell.name, seed))
    @st
    @hypothesis.given(cell.strategy)
    def test(data):
        judge(data)

    try:
        test()
    except _StopShrinking:
        pass
    except Violation:
        pass
    except hypothesis.errors.Flaky:
        if not best:
            raise
    except BaseExceptionGroup as g:
        if not best:
            raise g
    if best:
        # Confirm on the smallest case before believing it.
        confirmed = None
        for _ in range(2):
            try:
                cell.run(best["data"])
            except Violation as v:
                confirmed = str(v)
        if confirmed is None:
            raise RuntimeError(
                f"unreproducible failure in {prop}/{cell.name}: {best['message']}"
            )
        res.failure = (best["data"], confirmed)
    res.wall = time.time() - t0
    return res


def replay_path(verif: str, prop: str, cell: str) -> str:
    d = os.path.join(verif, "replays")
    os.makedirs(d, exist_ok=True)
    safe = "".join(c if c.isalnum() or c in "-_." else "_" for c in cell)[:80]
    tag = hashlib.sha256(cell.encode()).hexdigest()[:8]
    return os.path.join(d, f"{prop}-{safe}-{tag}.json")
