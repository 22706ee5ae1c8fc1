"""Models rebuilt from decompositions."""

import os

import dask.array as da
import numpy as np

from kpmon import gen, refs
from kpmon.core import case

PROPERTY = "A07"
RULE = ("one evaluation = one model signal (in memory, lazy or written to file) compared "
        "with the truncated singular value decomposition of the patterns, or the signal "
        "and its learning results compared with what they were; distinct = components x "
        "map dimension x laziness x data type x centring")
REQUIRED = {"models": 25, "lazy_models": 6, "written": 8, "best_rank": 10, "kept": 25}
ASSUMPTIONS = ["HyperSpy's decomposition() stores the factors and loadings it documents"]


def warm():
    import kikuchipy as kp

    s = kp.data.nickel_ebsd_small()
    s.change_dtype("float32")
    s.rescale_intensity(dtype_out="uint8", relative=True)


def make(ctx, lazy=False):
    r = ctx.rng
    nav = gen.nav_shape(r, (1, 2, 2))
    nav = nav if int(np.prod(nav)) > 3 else (int(r.integers(4, 9)),)
    sig = gen.sig_shape(r, 5, 12)
    dt = str(r.choice(["float32", "float64"]))
    p = gen.patterns(r, nav, sig, dt)
    s = gen.signal(r, nav, sig, dt, lazy, data=p.copy())
    s.static_background = r.random(sig).astype(dt)
    return s, p, nav, sig, dt


def pick(r, n):
    k = r.random()
    if k < 0.25:
        return None, list(range(n))
    if k < 0.6:
        c = int(r.integers(1, n + 1))
        return c, list(range(c))
    c = sorted(int(q) for q in r.choice(n, int(r.integers(1, n + 1)), replace=False))
    if r.random() < 0.5:
        r.shuffle(c)
        c = [int(q) for q in c]
    return c, c


def frozen(s):
    lr = s.learning_results
    return {k: np.array(getattr(lr, k)) for k in ("factors", "loadings")
            if getattr(lr, k) is not None} | {
                "patterns": np.array(s.data), "pc": np.array(s.detector.pc),
                "background": np.array(s.static_background)}


def whole(s, m):
    """With what was taken off before the decomposition."""
    if s.learning_results.mean is not None:
        m = m + np.asarray(s.learning_results.mean, float).reshape(-1, 1)
    return m


def like(ctx, s2, s, key):
    ctx.check([(a.size, a.name, a.units) for a in s2.axes_manager._axes]
              == [(a.size, a.name, a.units) for a in s.axes_manager._axes], key + "-axes",
              "axes of the model")
    ctx.close([[a.scale, a.offset] for a in s2.axes_manager._axes],
              [[a.scale, a.offset] for a in s.axes_manager._axes], key + "-axes",
              "scales and offsets of the model")
    ctx.close(s2.detector.pc, s.detector.pc, key + "-detector", "PCs of the model")
    ctx.check(s2.detector.shape == s.detector.shape, key + "-detector",
              "detector shape of the model")
    ctx.close(np.asarray(s2.static_background), np.asarray(s.static_background),
              key + "-background", "static background of the model")
    if s.xmap is not None:
        ctx.check(s2.xmap is not None and np.allclose(
            s2.xmap.rotations.data, s.xmap.rotations.data), key + "-xmap",
            "crystal map of the model")


@case(quick=50)
def model(ctx):
    r = ctx.rng
    s, p, nav, sig, dt = make(ctx)
    n = min(int(np.prod(nav)), int(np.prod(sig)))
    centre = "signal" if r.random() < 0.25 else None
    s.decomposition(centre=centre, print_info=False)
    was = frozen(s)
    n = was["factors"].shape[1]
    for _ in range(2):
        comp, idx = pick(r, n)
        out = str(r.choice(["float32", "float32", "float64"]))
        s2 = s.get_decomposition_model(components=comp, dtype_out=out)
        got = np.asarray(s2.data)
        f, ld = was["factors"].astype(float), was["loadings"].astype(float)
        want = whole(s, ld[:, idx] @ f[:, idx].T)
        scale = np.abs(p).max()
        tol = dict(rtol=0, atol=2e-4 * scale)
        ctx.close(got, want.reshape(p.shape), "model",
                  f"model of components {comp} of {n}, centre={centre}", **tol)
        ctx.check(got.dtype == np.dtype(out) or centre is not None, "dtype",
                  f"{got.dtype}, {out}")
        if centre is None and (comp is None or isinstance(comp, int)):
            d = p.reshape(int(np.prod(nav)), -1).astype(float)
            u, w, v = np.linalg.svd(d, full_matrices=False)
            k = len(idx)
            if k == n or w[k - 1] - w[k] > 1e-3 * w[0]:
                best = (u[:, :k] * w[:k]) @ v[:k]
                ctx.close(got, best.reshape(p.shape), "best",
                          f"best approximation by {k} components", rtol=0,
                          atol=2e-3 * scale)
                ctx.count("best_rank")
        ctx.check(type(s2).__name__ == "EBSD", "class", type(s2).__name__)
        ctx.check(s2.learning_results.factors is None, "results-dropped",
                  "learning results of the model")
        like(ctx, s2, s, "model")
        now = frozen(s)
        for k_ in was:
            ctx.equal(now[k_], was[k_], "kept", f"{k_} of the signal")
        ctx.count("kept")
        ctx.count("models")
        ctx.distinct("model", type(comp).__name__, len(nav), dt, out, centre)
    ctx.raises((IndexError, ValueError), lambda: s.get_decomposition_model([0, n + 3]),
               "refused", "components that are not there")
    now = frozen(s)
    for k_ in was:
        ctx.equal(now[k_], was[k_], "kept-refused", f"{k_} after a refusal")


def fit_lazy(r, s):
    nav, sig = s.data.shape[:-2], s.data.shape[-2:]
    n = min(int(np.prod(nav)), int(np.prod(sig)))
    centre = "signal" if r.random() < 0.3 else None
    # (HyperSpy wants three components or more here)
    s.decomposition(output_dimension=int(r.integers(3, n + 1)), centre=centre,
                    print_info=False)
    return centre


@case(quick=20)
def lazy_model(ctx):
    r = ctx.rng
    s, p, nav, sig, dt = make(ctx, lazy=True)
    centre = fit_lazy(r, s)
    if r.random() < 0.5:
        lr = s.learning_results
        for k in ("factors", "loadings"):
            a = np.asarray(getattr(lr, k))
            setattr(lr, k, da.from_array(a, chunks=gen.chunks_for(
                r, a.shape, sig_whole=False)))
    was = frozen(s)
    comp, idx = pick(r, was["factors"].shape[1])
    s2 = s.get_decomposition_model(components=comp, dtype_out="float32")
    f, ld = was["factors"].astype(float), was["loadings"].astype(float)
    ctx.check(type(s2).__name__ == "LazyEBSD", "class", type(s2).__name__)
    ctx.close(np.asarray(s2.data), whole(s, ld[:, idx] @ f[:, idx].T).reshape(p.shape),
              "lazy-model", f"lazy model of components {comp}", rtol=0,
              atol=2e-4 * np.abs(p).max())
    like(ctx, s2, s, "lazy-model")
    now = frozen(s)
    for k in was:
        ctx.equal(now[k], was[k], "kept", f"{k} of the lazy signal")
    ctx.count("lazy_models")
    ctx.count("kept")
    ctx.distinct("lazy", type(comp).__name__, len(nav), dt, centre)


@case(quick=24)
def write(ctx):
    import hyperspy.api as hs
    import kikuchipy as kp

    r = ctx.rng
    s, p, nav, sig, dt = make(ctx, lazy=True)
    centre = fit_lazy(r, s)
    out = str(r.choice(["uint8", "uint8", "uint16", "float32"]))
    s.change_dtype(out)
    was = frozen(s)
    comp, idx = pick(r, was["factors"].shape[1])
    kw = {}
    if r.random() < 0.6:
        # Learning results of more than a chunk
        kw["mbytes_chunk"] = float(r.choice([1e-3, 3e-4, 1e-2, 1]))
    learn = str(r.choice(["float32", "float64"]))
    name = "model." + str(r.choice(["h5", "hspy"]))
    other = os.path.join(ctx.tmp, "other.h5")
    with open(other, "wb") as fh:
        fh.write(b"mine")
    s.get_decomposition_model_write(comp, dtype_learn=learn, dir_out=ctx.tmp,
                                    fname_out=name, **kw)
    left = sorted(os.listdir(ctx.tmp))
    ctx.check(left == sorted(["other.h5", name]), "files", f"{left} in the directory")
    load = kp.load if name.endswith("h5") else hs.load
    s2 = load(os.path.join(ctx.tmp, name))
    got = np.asarray(s2.data)
    f, ld = was["factors"].astype(float), was["loadings"].astype(float)
    part = (ld[:, idx] @ f[:, idx].T).reshape(p.shape)
    lo, hi = gen.RANGES[out]
    mag = np.abs(p).max()

    def off(ref):
        """How far the patterns written are from a model stretched"""
        want = refs.stretch(ref, ref.min(), ref.max(), lo, hi)
        return np.abs(got - want).max() / (hi - lo)

    ref = whole(s, part.reshape(-1, f.shape[0])).reshape(p.shape)
    if np.ptp(ref) > 1e-3 * mag and np.ptp(part) > 1e-3 * mag:
        tol = 1e-4 * mag / np.ptp(ref) + (1.01 / (hi - lo) if out[0] == "u" else 0)
        d = off(ref)
        if s.learning_results.mean is not None and d > tol and off(part) <= (
                1e-4 * mag / np.ptp(part) + (1.01 / (hi - lo) if out[0] == "u" else 0)):
            ctx.fail("written-uncentred", "model written without the mean taken off "
                     f"before the decomposition: {d:.3g} of the range off")
        else:
            ctx.check(d <= tol, "written", f"components {comp} written ({kw}, "
                      f"centre={centre}): {d:.3g} of the range off, {tol:.3g} allowed")
        ctx.check(got.dtype == np.dtype(out), "written-dtype", f"{got.dtype}, {out}")
    if name.endswith("h5"):
        ctx.close(s2.detector.pc, s.detector.pc, "written-detector", "PCs written")
    now = frozen(s)
    for k in was:
        ctx.equal(now[k], was[k], "kept-write", f"{k} after writing")
    ctx.count("written")
    ctx.distinct("write", type(comp).__name__, len(nav), out, bool(kw), name,
                 centre)
