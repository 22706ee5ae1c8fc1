"""Reference models in double precision, written from the documentation."""

import numpy as np
from scipy.ndimage import correlate, gaussian_filter

from kpmon.gen import RANGES

EPS32 = float(np.finfo(np.float32).eps)


def stretch(p, imin, imax, omin, omax):
    p = np.asarray(p, np.float64)
    return (p - imin) / (imax - imin) * (omax - omin) + omin


def gaussian_window(shape, std):
    v = [np.exp(-0.5 * ((np.arange(n) - (n - 1) / 2) / std) ** 2) for n in shape]
    return np.multiply.outer(*v) if len(v) == 2 else v[0]


def corr_edge(p, w):
    """Spatial correlation, pixels outside the image taken as the nearest edge
    pixel; the window's origin is at n // 2 along each axis."""
    return correlate(np.asarray(p, np.float64), np.asarray(w, np.float64),
                     mode="nearest")


def dynamic_background(p, domain, std, truncate):
    p = np.asarray(p, np.float64)
    if domain == "spatial":
        return gaussian_filter(p, sigma=std, truncate=truncate)
    w = gaussian_window((int(truncate * std),) * 2, std)
    return corr_edge(p, w / w.sum())


def remove_bg(p, bg, operation, dtype):
    """Reference pattern (double) and the tolerance float32 arithmetic needs, in
    output units; None where the result has no defined contrast."""
    p = np.asarray(p, np.float64)
    bg = np.asarray(bg, np.float64)
    omin, omax = RANGES[np.dtype(dtype).name]
    with np.errstate(all="ignore"):
        d = p - bg if operation == "subtract" else p / bg
    if not np.all(np.isfinite(d)):
        return None, None
    span = d.max() - d.min()
    if operation == "subtract":
        mag = np.abs(p).max() + np.abs(bg).max()
    else:
        mag = np.abs(d).max() * (1 + np.abs(bg).max() / max(np.abs(bg).min(), 1e-300))
    err = 64 * EPS32 * mag
    if span <= 50 * err:
        return None, None
    ref = stretch(d, d.min(), d.max(), omin, omax)
    return ref, (omax - omin) * (4 * err / span + 4 * EPS32)


def close_px(ctx, got, ref, tol, dtype, key, msg="", **data):
    """Pixels of *dtype* agree with *ref*: within one grey level for integers
    (how a value between two levels is stored is not prescribed)."""
    dtype = np.dtype(dtype)
    ctx.evaluations += 1
    got = np.asarray(got)
    if got.dtype != dtype:
        ctx.fail(key + ":dtype", f"{msg}: dtype {got.dtype}, expected {dtype}", **data)
        return False
    if got.shape != ref.shape:
        ctx.fail(key + ":shape", f"{msg}: shape {got.shape}, expected {ref.shape}", **data)
        return False
    slack = tol + (1.0 if dtype.kind in "iu" else 0.0)
    with np.errstate(all="ignore"):
        diff = np.abs(got.astype(np.float64) - ref)
        bad = ~(diff <= slack)
    if dtype.kind in "iu" and dtype.itemsize == 4 and bad.any():
        # known: the float32 top of a 32-bit integer range wraps to its bottom
        lo, hi = RANGES[dtype.name]
        wrap = bad & (ref >= hi - 2e-6 * (hi - lo)) & (got == lo)
        if wrap.any():
            ctx.fail("wrap32", f"{msg}: brightest pixel stored as {lo} in {dtype}")
            bad &= ~wrap
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        ctx.fail(key, f"{msg}: {bad.sum()} of {bad.size} pixels off, worst "
                      f"{np.nanmax(diff):.4g} (allowed {slack:.3g}), at {i}: "
                      f"{got[i]!r}, expected {ref[i]:.6g}", **data)
        return False
    return True
