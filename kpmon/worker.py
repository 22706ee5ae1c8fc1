"""Runs a share of one property's cases in a process of its own."""

import argparse
import contextlib
import faulthandler
import io
import json
import os
import sys
import tempfile
import time
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--out", required=True)
    ap.add_argument("--only", default=None, help="case[:index]")
    ap.add_argument("--budget", type=float, default=1e9)
    a = ap.parse_args()
    faulthandler.enable()
    from kpmon import numba_stamp

    numba_stamp.install()
    # keep only our own verdicts on stdout
    real_out = os.dup(1)
    os.dup2(2, 1)
    warnings.simplefilter("ignore")
    from kpmon import core

    mod = core.load_check(a.pid)
    import kikuchipy

    where = os.path.realpath(kikuchipy.__file__)
    if not where.startswith(core.SRC):
        raise SystemExit(f"kikuchipy imported from {where}, not from {core.SRC}")
    jobs = core.jobs_of(mod, a.tier)
    w, n = map(int, a.shard.split("/"))
    mine = [j for k, j in enumerate(jobs) if k % n == w]
    if a.only:
        nm, _, ix = a.only.partition(":")
        mine = [j for j in jobs if j[0] == nm] or [(nm, 0)]
        if ix:
            mine = [(nm, int(ix))]
    t0 = time.time()
    skipped = 0
    import dask

    with open(a.out, "w") as out:

        def emit(d):
            out.write(json.dumps(d) + "\n")
            out.flush()

        for name, index in mine:
            if time.time() - t0 > a.budget:
                skipped += 1
                continue
            emit({"start": [name, index]})
            with tempfile.TemporaryDirectory(prefix="case_") as tmp:
                sink = io.StringIO()
                with contextlib.redirect_stdout(sink):
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        with dask.config.set(num_workers=4):
                            ctx, err, wall = core.run_case(
                                mod, name, index, a.tier, a.seed, tmp
                            )
            import matplotlib.pyplot as plt

            plt.close("all")
            emit(
                {
                    "done": [name, index],
                    "wall": wall,
                    "evaluations": ctx.evaluations,
                    "counters": ctx.counters,
                    "keys": sorted(ctx.keys),
                    "samples": ctx.samples,
                    "violations": ctx.violations,
                    "error": err,
                }
            )
        emit({"end": True, "skipped": skipped})


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    sys.stderr.flush()
    # skip interpreter teardown of compiled libraries
    os._exit(0)
