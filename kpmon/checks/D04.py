"""Refinement of each pattern does not depend on anything else going on."""

import copy
import sys

import dask
import numpy as np

from kpmon.checks import D03
from kpmon.core import case
from kpmon.sched import Scheduler

PROPERTY = "D04"
RULE = ("what a pattern is refined to depends on that pattern and its starting point "
        "only: not on other patterns, chunks, threads, the order in which delayed "
        "results are computed or refinements run before, and what was passed in is "
        "left as it was")
REQUIRED = {"alone": 60, "schedules": 60, "threads": 12, "delayed": 30, "unchanged": 12,
            "reused": 10, "points": 500, "integer": 6, "basinhopping": 3, "nlopt": 10}
ASSUMPTIONS = [
    "results are compared to 1e-6: the optimizers are deterministic, but may amplify "
    "rounding in the last place",
    "the stochastic optimizers are given a seed",
    "NLopt is not installed in this sandbox: a stand-in with its interface is run",
]
WORKERS = 6
warm = D03.warm
NAMES = {"ori": "refine_orientation", "pc": "refine_projection_center",
         "both": "refine_orientation_projection_center"}


def flat(kind, out):
    """One row of numbers per point: score, evaluations, orientation, PC."""
    if kind == "ori":
        out = (out, None)
    if kind == "pc":
        sc, det, ev = out
        return np.column_stack([sc.ravel(), ev.ravel(), det.pc_flattened])
    xm, det = out
    cols = [np.asarray(xm.prop["scores"]), np.asarray(xm.prop["num_evals"]),
            xm.rotations.data.reshape(-1, 4)]
    if "pseudo_symmetry_index" in xm.prop:
        cols.append(np.asarray(xm.prop["pseudo_symmetry_index"]))
    if det is not None:
        cols.append(det.pc_flattened)
    return np.column_stack(cols)


def go(p, kind, kw, scheduler="sync", later=False):
    with D03.quiet(), dask.config.set(scheduler=scheduler):
        return getattr(p.s, NAMES[kind])(**kw, **({"compute": False} if later else {}))


def finish(p, kind, kw, res, scheduler="sync"):
    import kikuchipy as kp

    a = dict(results=res, xmap=kw["xmap"], navigation_mask=kw.get("navigation_mask"))
    ps = dict(pseudo_symmetry_checked="pseudo_symmetry_ops" in kw)
    with D03.quiet(), dask.config.set(scheduler=scheduler):
        if kind == "ori":
            return kp.indexing.compute_refine_orientation_results(
                master_pattern=kw["master_pattern"], **a, **ps)
        if kind == "pc":
            return kp.indexing.compute_refine_projection_center_results(
                detector=kw["detector"], **a)
        return kp.indexing.compute_refine_orientation_projection_center_results(
            detector=kw["detector"], master_pattern=kw["master_pattern"], **a, **ps)


def options(ctx, p, kind, trust=None, pseudo=True):
    from orix.quaternion import Rotation

    r = ctx.rng
    kw = dict(xmap=p.xmap, detector=p.det, master_pattern=p.mp, energy=p.energy)
    m = ctx.choice(["default", "Nelder-Mead", "Powell", "nlopt", "basinhopping"])
    if m in ("Nelder-Mead", "Powell"):
        kw["method_kwargs"] = dict(method=m, options={"maxfev": 80})
    elif m == "default":
        kw["method_kwargs"] = dict(options={"maxfev": 80})
    elif m == "nlopt":
        kw["method"] = "LN_NELDERMEAD"
        kw["maxeval"] = 80
        ctx.count("nlopt")
    else:
        kw["method"] = "basinhopping"
        kw["method_kwargs"] = dict(niter=1, rng=5, minimizer_kwargs=dict(
            method="Nelder-Mead", options={"maxfev": 60}))
        ctx.count("basinhopping")
    if trust or (trust is None and r.random() < 0.6 and m != "basinhopping"):
        kw["trust_region"] = D03.trusted(r, kind)
    if kind != "pc" and pseudo and r.random() < 0.25:
        kw["pseudo_symmetry_ops"] = Rotation.from_axes_angles(
            r.normal(size=(2, 3)), [40, 120], degrees=True)
    ctx.note(kind=kind, method=m, nav=p.nav, sig=p.sig, varying=p.varying, lazy=p.lazy,
             rpp=p.rpp, dtype=p.dtype, trust=str(kw.get("trust_region")),
             pseudo="pseudo_symmetry_ops" in kw)
    ctx.distinct(kind, m, p.nav, p.varying, p.lazy, "trust_region" in kw)
    return kw


def setup(ctx, **kw):
    kind = ctx.choice(["ori", "ori", "pc", "both"])
    p = D03.problem(ctx.rng, **{**dict(deg=1.0, shift=0.01), **kw})
    return kind, p


def same(ctx, got, want, key, msg):
    ctx.count("points", len(want))
    if not ctx.check(got.shape == want.shape, f"shape:{key}",
                     f"{msg}: {got.shape}, not {want.shape}"):
        return
    bad = abs(got - want).max(axis=1) > 1e-6
    ctx.check(not bad.any(), key, f"{msg}: {bad.sum()} of {len(bad)} points differ, by "
              f"up to {abs(got - want).max():.3g} (scores by {abs(got - want)[:, 0].max():.3g})")


@case(24)
def alone(ctx):
    """Each pattern on its own, and in another order."""
    import kikuchipy as kp
    from orix.crystal_map import CrystalMap

    r = ctx.rng
    kind, p = setup(ctx, lazy=False)
    kw = options(ctx, p, kind)
    kw["chunk_kwargs"] = {"chunk_shape": int(r.integers(1, 5))}
    whole = flat(kind, go(p, kind, kw))
    del kw["chunk_kwargs"]

    def part(idx):
        d = p.patterns.reshape((p.n,) + p.sig)[idx]
        q = D03.Problem()
        q.s = kp.signals.EBSD(d)
        det = p.det.deepcopy()
        if p.varying:
            det.pc = p.det.pc.reshape(-1, 3)[idx]
        rot = p.xmap.rotations[idx]
        q.xmap = CrystalMap(rotations=rot, phase_id=p.xmap.phase_id[idx],
                            phase_list=p.xmap.phases, x=np.arange(len(idx)))
        return flat(kind, go(q, kind, {**kw, "xmap": q.xmap, "detector": det}))

    order = r.permutation(p.n)
    same(ctx, part(order), whole[order], "order", f"{kind} in another order")
    for i in r.choice(p.n, 2, replace=False):
        if p.n < 3:
            break
        some = np.array([i, (i + 1) % p.n])
        same(ctx, part(some), whole[some], "alone", f"{kind} of two patterns")
        ctx.count("alone", 2)


@case(30)
def schedules(ctx):
    """Chunks, threads and order of computation."""
    r = ctx.rng
    kind, p = setup(ctx)
    kw = options(ctx, p, kind)
    want = flat(kind, go(p, kind, {**kw, "rechunk": False}))
    for _ in range(2):
        how = ctx.choice(["deep", "wide", "random"])
        sch = Scheduler(int(r.integers(2**31)), how)
        k = dict(kw)
        if r.random() < 0.7:
            k["chunk_kwargs"] = {"chunk_shape": int(r.integers(1, 4))}
        got = flat(kind, go(p, kind, k, sch))
        same(ctx, got, want, f"schedule:{kind}", f"{kind}, {how}")
        ctx.count("schedules")
    # Threads taking turns as often as possible
    was = sys.getswitchinterval()
    try:
        sys.setswitchinterval(1e-6)
        with dask.config.set(num_workers=6):
            got = flat(kind, go(p, kind, {**kw, "chunk_kwargs": {"chunk_shape": 1}},
                                "threads"))
    finally:
        sys.setswitchinterval(was)
    same(ctx, got, want, f"threads:{kind}", f"{kind}, one pattern per chunk in threads")
    ctx.count("schedules")


@case(6)
def threads(ctx):
    """Many patterns in threads, each with bounds of its own."""
    r = ctx.rng
    kind, p = setup(ctx, nav=(int(r.integers(4, 7)), 6), sig=(6, 7), n=15, lazy=False)
    kw = options(ctx, p, kind, trust=True, pseudo=False)
    if kw.get("method") != "LN_NELDERMEAD":
        kw.pop("method", None)
        kw["method_kwargs"] = dict(method="Nelder-Mead", options={"maxfev": 12})
    t = np.array(kw["trust_region"]) * 0.05  # which bite
    kw["trust_region"] = t
    want = flat(kind, go(p, kind, dict(kw)))
    was = sys.getswitchinterval()
    for _ in range(4):
        try:
            sys.setswitchinterval(1e-7)
            with dask.config.set(num_workers=8):
                got = flat(kind, go(p, kind, {**kw, "chunk_kwargs": {"chunk_shape": 1}},
                                    "threads"))
        finally:
            sys.setswitchinterval(was)
        same(ctx, got, want, f"threads:{kind}", f"{kind} in 8 threads")
        ctx.count("threads")


@case(24)
def delayed(ctx):
    """Results asked for later are those of when they were asked for."""
    r = ctx.rng
    jobs = []
    for _ in range(3):
        kind, p = setup(ctx, nav=(int(r.integers(2, 5)),), sig=(6, 7), n=15)
        kw = options(ctx, p, kind)
        jobs.append((kind, p, kw))
    if r.random() < 0.5:  # all with NLopt
        for _, p, kw in jobs:
            kw.pop("method_kwargs", None)
            kw["method"] = "LN_NELDERMEAD"
            kw["maxeval"] = 60
    later = [go(p, kind, dict(kw), later=True) for kind, p, kw in jobs]
    now = [flat(kind, go(p, kind, dict(kw))) for kind, p, kw in jobs]
    for j in r.permutation(3):
        kind, p, kw = jobs[j]
        got = flat(kind, finish(p, kind, kw, later[j]))
        same(ctx, got, now[j], f"delayed:{kind}", f"{kind}, computed later")
        ctx.count("delayed")


def snapshot(kw, p):
    xm, det = p.xmap, p.det
    keep = {k: copy.deepcopy(kw[k]) for k in ("method_kwargs", "trust_region",
                                              "chunk_kwargs") if k in kw}
    return keep, {
        "rotations": xm.rotations.data.copy(), "phase_id": np.array(xm.phase_id),
        "in_data": np.array(xm.is_in_data), "scores": np.array(xm.prop["scores"]),
        "pc": det.pc.copy(), "patterns": np.asarray(p.s.data).copy(),
        "mp": np.asarray(p.mp.data).copy(),
        "ops": (kw["pseudo_symmetry_ops"].data.copy() if "pseudo_symmetry_ops" in kw
                else 0),
        "mask": np.array(kw.get("navigation_mask", 0)),
        "signal_mask": np.array(kw.get("signal_mask", 0)),
    }


@case(24)
def unchanged(ctx):
    r = ctx.rng
    kind, p = setup(ctx)
    kw = options(ctx, p, kind)
    if r.random() < 0.5:
        kw["chunk_kwargs"] = ctx.choice([{}, {"chunk_shape": 2}])
    if r.random() < 0.5:
        kw["navigation_mask"] = np.arange(p.n).reshape(p.nav) == 1
        kw["signal_mask"] = r.random(p.sig) < 0.3
    if "method_kwargs" in kw and r.random() < 0.5 and "method" not in kw:
        kw["method_kwargs"].pop("method", None)
    opts, arrays = snapshot(kw, p)
    go(p, kind, kw)
    opts2, arrays2 = snapshot(kw, p)
    for k, v in arrays.items():
        ctx.equal(arrays2[k], v, f"changed:{k}", f"{kind} changed {k}")
    for k, v in opts.items():
        ctx.check(repr(v) == repr(opts2[k]), f"changed:{k}",
                  f"{kind} changed {k} from {v} to {opts2[k]}")
    ctx.count("unchanged")


@case(16)
def reused(ctx):
    """The same options used again, with other data in between."""
    r = ctx.rng
    kind, p = setup(ctx, lazy=False)
    kw = options(ctx, p, kind)
    if r.random() < 0.5:
        kw["chunk_kwargs"] = {}
    first = flat(kind, go(p, kind, copy.deepcopy(
        {k: v for k, v in kw.items() if k in ("method_kwargs", "trust_region",
                                              "chunk_kwargs")}) | {
        k: v for k, v in kw.items() if k not in ("method_kwargs", "trust_region",
                                                 "chunk_kwargs")}))
    q = D03.problem(r, nav=(2,), lazy=False)
    other = {**kw, "xmap": q.xmap, "detector": q.det, "master_pattern": q.mp,
             "energy": q.energy}
    go(q, kind, other)
    # and without a trust region
    other.pop("trust_region", None)
    go(q, kind, other)
    same(ctx, flat(kind, go(p, kind, kw)), first, f"reused:{kind}",
         f"{kind} with options used before")
    kw2 = {k: v for k, v in kw.items() if k != "trust_region"}
    fresh = copy.deepcopy({k: v for k, v in kw2.items() if k == "method_kwargs"})
    if fresh:
        fresh["method_kwargs"].pop("bounds", None)
    same(ctx, flat(kind, go(p, kind, kw2)), flat(kind, go(p, kind, {**kw2, **fresh})),
         f"leftover:{kind}", f"{kind} without a trust region, after one with")
    ctx.count("reused")


@case(8)
def integers(ctx):
    """Whole numbers are as good as others."""
    r = ctx.rng
    kind, p = setup(ctx, lazy=False)
    kw = options(ctx, p, kind, trust=False)
    n = 6 if kind == "both" else 3
    t = [int(v) for v in r.integers(1, 3, n)]
    a = flat(kind, go(p, kind, {**kw, "trust_region": t}))
    b = flat(kind, go(p, kind, {**kw, "trust_region": [float(v) for v in t]}))
    same(ctx, a, b, f"integer:{kind}", f"{kind} with trust region {t}")
    ctx.count("integer")
