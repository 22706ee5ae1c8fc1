"""Dictionary indexing."""

import contextlib
import io

import dask.array as da
import numpy as np

from kpmon import gen
from kpmon.core import case
from kpmon.sched import Scheduler

PROPERTY = "D01"
RULE = ("dictionary indexing returns, for every pattern of the map that is not masked, "
        "the n best of all dictionary patterns by the metric, best first, with their "
        "scores, indices and orientations, however the dictionary is split up")
REQUIRED = {"indexed": 400, "comparisons": 8000, "masked-maps": 15, "masked-pixels": 15,
            "iterations": 60, "custom": 10, "uneven": 10, "one-best": 8, "lazy": 20,
            "self": 40, "rejected": 20, "reused": 6}
ASSUMPTIONS = [
    "no pattern is constant within the signal mask (its correlation with anything is not "
    "defined)",
    "ties within float precision of the scores may be ranked either way",
]
WORKERS = 4


def warm():
    import kikuchipy as kp
    from orix.crystal_map import CrystalMap, PhaseList

    r = np.random.default_rng(0)
    rot = gen.rotations(r, 4)
    for dt in ["uint8", "float32"]:
        d = gen.patterns(r, (4,), (5, 6), dt)
        sd = kp.signals.EBSD(d, xmap=CrystalMap(rotations=rot,
                                                phase_list=PhaseList(gen.phase())))
        for m in ["ncc", "ndp"]:
            for t in ["float32", "float64"]:
                with contextlib.redirect_stdout(io.StringIO()), \
                        contextlib.redirect_stderr(io.StringIO()):
                    kp.signals.EBSD(d).dictionary_indexing(sd, metric=m, dtype=t,
                                                           n_per_iteration=2)


def ncc(a, b):
    a = a - a.mean(axis=1, keepdims=True)
    b = b - b.mean(axis=1, keepdims=True)
    return ndp(a, b)


def ndp(a, b):
    return (a / np.linalg.norm(a, axis=1, keepdims=True)) @ (
        b / np.linalg.norm(b, axis=1, keepdims=True)).T


def ssd(a, b):
    return ((a[:, None] - b[None]) ** 2).sum(axis=-1)


def metrics():
    from kikuchipy.indexing import SimilarityMetric

    class Base(SimilarityMetric):
        _allowed_dtypes = [np.float32, np.float64]

        def _mask(self, p):
            p = p.reshape((p.shape[0], -1))
            return p if self.signal_mask is None else p[:, ~self.signal_mask.ravel()]

        def prepare_experimental(self, p):
            p = da.asarray(p).astype(self.dtype)
            p = p.reshape((self.n_experimental_patterns, -1))
            if self.navigation_mask is not None:
                p = p[~self.navigation_mask.ravel()]
            return self._mask(p)

        def prepare_dictionary(self, p):
            return da.asarray(self._mask(p.astype(self.dtype)))

    class Distance(Base):
        """Lower is better, from 0 upwards."""
        _sign = -1

        def match(self, e, d):
            e, d = (da.asarray(k).rechunk(-1) for k in (e, d))
            return ((e[:, None] - d[None]) ** 2).sum(axis=-1)

    class NegativeDistance(Distance):
        """Greater is better, from 0 downwards."""
        _sign = 1

        def match(self, e, d):
            return -super().match(e, d)

    return Distance, NegativeDistance


def make(ctx, metric):
    import kikuchipy as kp

    r = ctx.rng
    sig = (int(r.integers(2, 9)), int(r.integers(2, 9)))
    nav = ctx.choice([(int(r.integers(1, 9)),), (int(r.integers(1, 6)),
                                                 int(r.integers(1, 6)))])
    nd = int(r.integers(2, 41))
    dt = ctx.choice(["uint8", "uint16", "float32", "float64"])
    if metric not in ("ncc", "ndp"):
        dt = "uint8"
    e = gen.as_dtype(r, r.random(nav + sig), dt, full=True)
    d = gen.as_dtype(r, r.random((nd,) + sig), dt, full=True)
    if r.random() < 0.3:  # experiment = noisy copies of the dictionary
        pick = r.integers(0, nd, nav)
        e = d[pick].copy()
    scale = [float(ctx.choice([1.0, 0.5, 1.5])) for _ in nav]
    ax = [dict(name=n, size=k, scale=s, units="um")
          for n, k, s in zip("yx"[-len(nav):], nav, scale)]
    ax += [dict(name=n, size=k, scale=1) for n, k in zip(("dy", "dx"), sig)]
    s = kp.signals.EBSD(e, axes=ax)
    rot = gen.rotations(r, nd)
    from orix.crystal_map import CrystalMap, PhaseList

    ph = gen.phase("abc", 225)
    sd = kp.signals.EBSD(d, xmap=CrystalMap(rotations=rot, phase_list=PhaseList(ph)))
    lazy = r.random() < 0.4
    lazy_d = r.random() < 0.5
    if lazy:
        s = s.as_lazy()
        s.data = s.data.rechunk(gen.chunks_for(r, nav + sig))
        ctx.count("lazy")
    if lazy_d:
        sd = sd.as_lazy()
        k = int(r.integers(1, nd + 1))
        sd.data = sd.data.rechunk((k,) + sig)
    ctx.note(sig=sig, nav=nav, n_dictionary=nd, dtype=dt, lazy=lazy,
             lazy_dictionary=sd.data.chunks[0] if lazy_d else None, scale=scale)
    ctx.distinct(sig, nav, nd, dt, lazy, lazy_d)
    return s, sd, e, d, rot, nav, sig, nd, scale, dt


def index(ctx, s, sd, **kw):
    import dask

    how = ctx.choice([None, Scheduler(int(ctx.rng.integers(2**31)),
                                      ctx.choice(["deep", "wide", "random"]))])
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), \
            dask.config.set(scheduler=how):
        return s.dictionary_indexing(sd, **kw)


def judge(ctx, xmap, e, d, rot, nav, scale, keep_n, fn, sign, nmask, smask, tol, key):
    n = int(np.prod(nav))
    E = e.reshape(n, -1).astype(float)
    D = d.reshape(len(d), -1).astype(float)
    if smask is not None:
        E, D = E[:, ~smask.ravel()], D[:, ~smask.ravel()]
    todo = np.ones(n, bool) if nmask is None else ~nmask.ravel()
    want = fn(E[todo], D)
    k = min(keep_n, len(D))
    ctx.equal(np.asarray(xmap.is_in_data), todo, f"in-data:{key}", "points in the data")
    ctx.check(xmap.rotations_per_point == k, f"keep-n:{key}",
              f"{xmap.rotations_per_point} orientations per point, not {k}")
    idx = np.asarray(xmap.prop["simulation_indices"]).reshape(-1, k)
    sc = np.asarray(xmap.prop["scores"]).reshape(-1, k)
    if not ctx.check(idx.shape == want.shape[:1] + (k,), f"shape:{key}", f"{idx.shape}"):
        return
    ctx.check(idx.min() >= 0 and idx.max() < len(D), f"index-range:{key}",
              f"{idx.min()}..{idx.max()} of {len(D)}")
    idx = np.clip(idx, 0, len(D) - 1)
    ctx.check(all(len(set(i)) == k for i in idx), f"repeated:{key}",
              "a dictionary pattern is listed twice for a point")
    true = np.take_along_axis(want, idx, axis=1)
    ctx.close(sc, true, f"scores:{key}", "scores of the listed patterns", rtol=tol,
              atol=tol)
    diff = np.diff(sign * sc, axis=1)
    ctx.check(diff.size == 0 or diff.max() <= 0, f"order:{key}", "scores not sorted")
    # Nothing better was left out
    best = -np.sort(-sign * want, axis=1)[:, :k]
    span = max(np.ptp(want), 1) if want.size else 1
    lost = best - sign * true
    ctx.check(lost.max() <= tol * span * 4, f"not-best:{key}",
              f"{np.count_nonzero(lost > tol * span * 4)} of {lost.size} listed patterns "
              f"are not the best: by up to {lost.max():.4g}")
    ctx.close(xmap.rotations.data.reshape(-1, k, 4), rot.data[idx], f"rotations:{key}",
              "orientations of the listed patterns", 0, 1e-12)
    # Where in the map
    y, x = np.indices((1,) * (2 - len(nav)) + nav).reshape(2, -1)
    sy, sx = (1.0,) * (2 - len(nav)) + tuple(scale)
    for nm, v, st in [("x", x, sx), ("y", y, sy)]:
        got = getattr(xmap, nm)
        if got is not None and (v.max() > 0):
            ctx.close(got, (v * st)[todo], f"coordinates:{key}", f"{nm} of points", 0,
                      1e-9)
    ctx.check(xmap.phases_in_data.names == ["abc"], f"phase:{key}",
              f"{xmap.phases_in_data.names}")
    ctx.check(xmap.scan_unit == "um", f"unit:{key}", xmap.scan_unit)
    ctx.count("indexed", int(todo.sum()))
    ctx.count("comparisons", want.size)
    if k == 1:
        ctx.count("one-best")


def masks(ctx, nav, sig):
    r = ctx.rng
    nm = sm = None
    if r.random() < 0.5:
        nm = r.random(nav) < r.uniform(0, 0.9)
        nm.flat[int(r.integers(nm.size))] = False
        ctx.count("masked-maps")
    if r.random() < 0.4 and np.prod(sig) > 4:
        sm = r.random(sig) < r.uniform(0, 0.8)
        sm.flat[:3] = False
        ctx.count("masked-pixels")
    return nm, sm


def tolerance(dt, mdt):
    return 2e-5 if mdt == "float32" else 1e-9


@case(60)
def builtin(ctx):
    r = ctx.rng
    metric = ctx.choice(["ncc", "ndp"])
    s, sd, e, d, rot, nav, sig, nd, scale, dt = make(ctx, metric)
    nm, sm = masks(ctx, nav, sig)
    kw = {}
    keep = 20
    if r.random() < 0.9:
        keep = kw["keep_n"] = int(ctx.choice([1, 1, 2, 5, 20, nd, int(r.integers(1, 9))]))
    if r.random() < 0.6:
        kw["n_per_iteration"] = int(r.integers(1, nd + 3))
        ctx.count("iterations", -(-nd // kw["n_per_iteration"]))
        if nd % kw["n_per_iteration"]:
            ctx.count("uneven")
    mdt = ctx.choice(["float32", "float64", None])
    if mdt:
        kw["dtype"] = mdt
    if nm is not None:
        kw["navigation_mask"] = nm
    if sm is not None:
        kw["signal_mask"] = sm
    kw["rechunk"] = bool(r.random() < 0.5)
    ctx.note(metric=metric, options={k: str(v) for k, v in kw.items()})
    before = e.copy(), d.copy()
    xmap = index(ctx, s, sd, metric=metric, **kw)
    key = metric + (":iter" if "n_per_iteration" in kw else "")
    judge(ctx, xmap, e, d, rot, nav, scale, keep, {"ncc": ncc, "ndp": ndp}[metric], 1,
          nm, sm, tolerance(dt, mdt or "float32"), key)
    ctx.equal(e, before[0], "experiment-changed", "experimental patterns changed")
    ctx.equal(d, before[1], "dictionary-changed", "dictionary patterns changed")


@case(24)
def custom(ctx):
    """Metrics of one's own, of either sign and any range of scores."""
    r = ctx.rng
    cls = ctx.choice(metrics())
    m = cls()
    if r.random() < 0.5:
        m.dtype = "float64"
    s, sd, e, d, rot, nav, sig, nd, scale, dt = make(ctx, m)
    nm, sm = masks(ctx, nav, sig)
    keep = int(r.integers(1, 9))
    kw = {"keep_n": keep}
    if r.random() < 0.6:
        kw["n_per_iteration"] = int(r.integers(1, nd + 3))
    if nm is not None:
        kw["navigation_mask"] = nm
    if sm is not None:
        kw["signal_mask"] = sm
    ctx.note(metric=cls.__name__, options={k: str(v) for k, v in kw.items()})
    xmap = index(ctx, s, sd, metric=m, **kw)
    fn = ssd if m.sign == -1 else (lambda a, b: -ssd(a, b))
    judge(ctx, xmap, e, d, rot, nav, scale, keep, fn, m.sign, nm, sm, 1e-5,
          f"{cls.__name__}{':iter' if 'n_per_iteration' in kw else ''}")
    ctx.count("custom")


@case(12)
def reused(ctx):
    """A metric used before indexes like a new one."""
    import kikuchipy as kp

    r = ctx.rng
    m = ctx.choice([kp.indexing.NormalizedCrossCorrelationMetric,
                    kp.indexing.NormalizedDotProductMetric])()
    fn = ncc if "Cross" in type(m).__name__ else ndp
    for turn in range(2):
        s, sd, e, d, rot, nav, sig, nd, scale, dt = make(ctx, "ncc")
        nm, sm = masks(ctx, nav, sig) if turn == 0 else (None, None)
        kw = {k: v for k, v in [("navigation_mask", nm), ("signal_mask", sm)]
              if v is not None}
        if r.random() < 0.3 and turn == 0:
            kw["dtype"] = "float64"
        xmap = index(ctx, s, sd, metric=m, keep_n=3, **kw)
        judge(ctx, xmap, e, d, rot, nav, scale, 3, fn, 1, nm, sm, 2e-5, f"reused{turn}")
    ctx.count("reused")


@case(12)
def itself(ctx):
    """Patterns out of the dictionary are matched to themselves."""
    s, sd, e, d, rot, nav, sig, nd, scale, dt = make(ctx, "ncc")
    import kikuchipy as kp

    order = ctx.rng.permutation(nd)
    s = kp.signals.EBSD(d[order])
    kw = {"n_per_iteration": int(ctx.rng.integers(1, nd + 1))}
    metric = ctx.choice(["ncc", "ndp"])
    xmap = index(ctx, s, sd, metric=metric, keep_n=1, **kw)
    D = d.reshape(nd, -1).astype(float)
    w = {"ncc": ncc, "ndp": ndp}[metric](D, D)
    idx = np.asarray(xmap.prop["simulation_indices"]).reshape(nd)
    for i, j in zip(order, idx):
        ctx.check(w[i, j] > 1 - 1e-5, "self", f"pattern {i} matched to {j}: {w[i, j]}")
        ctx.count("self")


@case(10)
def direct(ctx):
    """Metrics called directly."""
    import kikuchipy as kp

    r = ctx.rng
    cls = ctx.choice([kp.indexing.NormalizedCrossCorrelationMetric,
                      kp.indexing.NormalizedDotProductMetric])
    ne, nd, n = (int(k) for k in r.integers(1, 20, 3))
    n += 3
    e, d = r.random((ne, n)).astype("float32"), r.random((nd, n)).astype("float32")
    keep = e.copy(), d.copy()
    m = cls(n_experimental_patterns=ne, n_dictionary_patterns=nd)
    a, b = e, d
    if r.random() < 0.5:
        a, b = da.from_array(e), da.from_array(d)
    got = np.asarray(m(a, b))
    want = (ncc if "Cross" in cls.__name__ else ndp)(e.astype(float), d.astype(float))
    ctx.close(got, want, f"direct:{cls.__name__}", "similarities", 1e-4, 2e-5)
    ctx.equal(e, keep[0], "direct-experiment-changed", "patterns changed")
    ctx.equal(d, keep[1], "direct-dictionary-changed", "patterns changed")


@case(8)
def rejected(ctx):
    import kikuchipy as kp

    r = ctx.rng
    s, sd, e, d, rot, nav, sig, nd, scale, dt = make(ctx, "ncc")
    bad = np.zeros(nav + (2,), bool)
    ctx.raises(ValueError, lambda: index(ctx, s, sd, navigation_mask=bad), "mask shape")
    ctx.raises(ValueError, lambda: index(ctx, s, sd, navigation_mask=np.ones(nav, bool)),
               "everything masked")
    ctx.raises(ValueError, lambda: index(ctx, s, sd, signal_mask=[[True]]), "signal mask")
    ctx.raises(ValueError, lambda: index(ctx, s, sd, metric="no"), "unknown metric")
    ctx.raises(ValueError, lambda: index(ctx, s, sd, dtype="float16"), "data type")
    other = kp.signals.EBSD(np.zeros((nd,) + (sig[0] + 1, sig[1])), xmap=sd.xmap)
    ctx.raises(ValueError, lambda: index(ctx, s, other), "signal shapes")
    nox = kp.signals.EBSD(d)
    ctx.raises(ValueError, lambda: index(ctx, s, nox), "dictionary without orientations")
    ctx.count("rejected", 7)
