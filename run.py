"""Runs one check:  run.py <ID> [--replay FILE] [--jobs N] [--cell NAME ...]

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: the check
itself failed.  Exit 3: ran out of its time budget (inconclusive).
"""

import argparse
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from pbt import env  # noqa: E402


BUDGET = float(
    os.environ.get("VERIF_BUDGET_S", "840" if env.TIER == "quick" else "36000")
)


def write_evidence(prop, seed, records, wall, violations, rule, assumptions):
    cells = sorted((c for r in records for c in r["cells"]), key=lambda c: c["index"])
    labels = {}
    for c in cells:
        for k, v in c["labels"].items():
            labels[k] = labels.get(k, 0) + v
    samples = [dict(cell=c["name"], data=c["sample"]) for c in cells if c["sample"]]
    step = max(1, len(samples) // 6)
    ev = dict(
        property=prop,
        tier=env.TIER,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=sum(c["evaluations"] for c in cells),
            distinct_nontrivial=sum(c["nontrivial"] for c in cells),
            rule=rule,
            samples=samples[::step][:8],
            cells_explored=len(cells),
            case_classes=dict(sorted(labels.items())),
        ),
        assumptions=assumptions,
        wall_s=round(wall, 2),
        violations=violations,
    )
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)


def replay(prop, path):
    env.setup_jax()
    from pbt import core

    with open(path) as f:
        rec = json.load(f)
    mod = importlib.import_module(f"pbt.{prop.lower()}")
    for tier in (env.TIER, "thorough"):
        for cell in mod.cells(tier):
            if cell.name == rec["cell"]:
                try:
                    label = cell.run(rec["data"])
                except core.Violation as v:
                    print(f"{rec['cell']}: {v}")
                    print(f"VIOLATION property={prop} replay={path}")
                    return 1
                print(f"{rec['cell']}: holds ({label})")
                return 0
    print(f"no such cell: {rec['cell']}", file=sys.stderr)
    return 2


def failed(path):
    try:
        with open(path) as f:
            return bool(json.load(f).get("failure"))
    except (OSError, ValueError):
        return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--timing", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    if a.replay:
        sys.exit(replay(prop, a.replay))

    signal.signal(signal.SIGTERM, lambda *_: sys.exit(3))  # stops the workers too
    t0 = time.time()
    # A fixed number of shards keeps the run independent of the machine.
    shards = 8
    jobs = a.jobs or min(shards, os.cpu_count() or 1)
    e = dict(os.environ)
    e.update(env.ENV)
    e["VERIF_SEED"] = str(env.SEED)
    e["VERIF_TIER"] = env.TIER
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        pending = list(range(shards))
        running = {}
        timed_out = False
        deadline = t0 + BUDGET
        outs = [os.path.join(tmp, f"{s}.json") for s in range(shards)]
        errs = [os.path.join(tmp, f"{s}.err") for s in range(shards)]
        try:
            while pending or running:
                while pending and len(running) < jobs:
                    s = pending.pop(0)
                    running[s] = subprocess.Popen(
                        [sys.executable, "-m", "pbt.worker"]
                        + [prop, str(s), str(shards), outs[s]],
                        cwd=HERE,
                        env=e,
                        stdout=subprocess.DEVNULL,
                        stderr=open(errs[s], "w"),
                        start_new_session=True,
                    )
                for s, p in list(running.items()):
                    if p.poll() is not None:
                        del running[s]
                        if failed(outs[s]):
                            # no need to wait for shards that may never end
                            deadline = min(deadline, time.time() + 150)
                if time.time() > deadline:
                    timed_out = True
                    break
                time.sleep(0.05)
        finally:
            for p in running.values():
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        records, errors = [], []
        for s in range(shards):
            rec = None
            if os.path.exists(outs[s]):
                with open(outs[s]) as f:
                    rec = json.load(f)
                records.append(rec)
            if rec is None or rec.get("error") or not rec.get("done"):
                tail = "not started"
                if os.path.exists(errs[s]):
                    with open(errs[s]) as f:
                        tail = f.read()[-3000:]
                errors.append(f"shard {s}: {(rec or {}).get('error') or tail}")

    wall = time.time() - t0
    from pbt import meta

    failures = sorted(
        (r["failure"] for r in records if r.get("failure")), key=lambda f: f["index"]
    )
    write_evidence(
        prop,
        env.SEED,
        records,
        wall,
        len(failures),
        meta.RULES[prop],
        meta.ASSUMPTIONS,
    )
    if a.timing:
        for c in sorted((c for r in records for c in r["cells"]), key=lambda c: c["wall"]):
            print(c["wall"], c["name"], c["evaluations"], c["nontrivial"], c["labels"])
    known = sorted(k for r in records for k in map(tuple, r.get("known", [])))
    for _, what in known:
        print(f"KNOWN-FINDING: property={prop} {what}")
    if failures:
        from pbt import core

        for f in failures:
            path = core.replay_path(HERE, prop, f["cell"])
            with open(path, "w") as fh:
                json.dump(dict(property=prop, seed=env.SEED, **f), fh, indent=1)
            print(f"{prop} {f['cell']}: {f['message']}")
            print(f"VIOLATION property={prop} replay={path}", flush=True)
        sys.exit(1)
    if errors and not timed_out:
        print("\n".join(errors), file=sys.stderr)
        sys.exit(2)
    n = sum(c["evaluations"] for r in records for c in r["cells"])
    if timed_out:
        print(f"{prop}: time budget reached after {n} cases, inconclusive")
        sys.exit(3)
    total = {r["total"] for r in records}
    done = sum(len(r["cells"]) for r in records)
    print(f"{prop}: held on {n} cases in {done} cells of {max(total)} ({wall:.1f} s)")
    sys.exit(0)


if __name__ == "__main__":
    main()
