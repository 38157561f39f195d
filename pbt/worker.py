"""One shard of one check: `python -m pbt.worker <ID> <shard> <of> <out.json>`."""

import importlib
import json
import sys
import time
import traceback

from . import env


def main():
    prop, shard, of, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    env.setup_jax()
    from . import core, findings

    mod = importlib.import_module(f"pbt.{prop.lower()}")
    cells = mod.cells(env.TIER)
    quick = getattr(mod, "FACTOR", 3)
    factor = quick * (10 if env.TIER == "thorough" else 1)
    only = None
    record = dict(cells=[], failure=None, error=None, known=[], total=len(cells))

    def flush():
        with open(out + ".tmp", "w") as f:
            json.dump(record, f)
        import os

        os.replace(out + ".tmp", out)

    names = [c.name for c in cells]
    if len(set(names)) != len(names):
        record["error"] = "duplicate cell names"
        flush()
        return
    try:
        for i, cell in enumerate(cells):
            if i % of != shard or (only and cell.name not in only):
                continue
            t0 = time.time()
            skip = findings.known_cell(prop, cell.name)
            if skip is not None:
                # A known finding: probe it, report it, and do not explore further.
                if findings.still_fails(cell, skip):
                    record["known"].append([i, skip["what"]])
                continue
            try:
                r = core.run_cell(prop, cell, env.SEED, factor)
            finally:
                import jax

                jax.clear_caches()
            record["cells"].append(
                dict(
                    index=i,
                    name=cell.name,
                    evaluations=r.evaluations,
                    distinct=len(r.seen),
                    nontrivial=len(r.nontrivial),
                    labels=dict(r.labels),
                    sample=r.sample,
                    wall=round(time.time() - t0, 2),
                )
            )
            if r.failure is not None:
                data, message = r.failure
                record["failure"] = dict(
                    index=i, cell=cell.name, data=data, message=message
                )
                break
            flush()
    except Exception:
        record["error"] = traceback.format_exc()[-4000:]
    record["done"] = True
    flush()


if __name__ == "__main__":
    main()
