"""The committed list of known findings (known_findings.jsonl) and of fixed defects.

A finding names one property and one cell (solver / call site) together with the
specific failing input. Only that cell of that property is affected, and only while the
recorded input still fails; `fixed` lines suppress nothing.
"""

import json
import os

from . import env
from .core import Violation

PATH = os.path.join(env.VERIF, "known_findings.jsonl")


def load():
    out = []
    if os.path.exists(PATH):
        with open(PATH) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("fixed:"):
                    out.append(json.loads(line))
    return out


def known_cell(prop, cell):
    for k in load():
        if k["property"] == prop and k["cell"] == cell:
            return k
    return None


def still_fails(cell, finding):
    try:
        cell.run(finding["data"])
    except Violation:
        return True
    return False
