"""Writes MANIFEST.json from `meta`:  python -m pbt.mkmanifest"""

import json
import os

from . import meta
from .env import VERIF

PY = "/opt/venv/bin/python"


def main():
    checks = []
    for prop in sorted(meta.CHECKS):
        technique, note = meta.CHECKS[prop]
        checks.append(
            dict(
                property=prop,
                quick_cmd=f"{PY} run.py {prop}",
                thorough_cmd=f"VERIF_TIER=thorough {PY} run.py {prop}",
                evidence_file=f"evidence/{prop}.json",
                technique=technique,
                level="exploration",
                level_note=note,
            )
        )
    m = dict(
        version=1,
        setup_cmd="bash setup.sh",
        checks=checks,
        not_applicable=[
            dict(property=p, reason=r) for p, r in sorted(meta.NOT_APPLICABLE.items())
        ],
        notes=meta.NOTES,
    )
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
