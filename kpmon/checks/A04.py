"""Map-neighbourhood quantities equal their definitions at every map point."""

import numpy as np

from kpmon import gen, refs
from kpmon.core import case

PROPERTY = "A04"
RULE = ("one evaluation = one map point's pattern, dot product matrix, average or "
        "quality compared with a point-by-point reference; distinct = quantity x "
        "window kind and shape x map dimension x dtype x options")
REQUIRED = {"averaged_patterns": 500, "dp_points": 400, "adp_points": 400,
            "quality_points": 60, "fractional_windows": 3, "even_windows": 20}
ASSUMPTIONS = ["a window's origin is at n // 2 along each axis",
               "points whose averaged pattern has no contrast are outside the property"]


def warm():
    import kikuchipy as kp

    s = kp.data.nickel_ebsd_small()
    for dt in ("uint8", "uint16", "float32"):
        for s2 in (s.inav[:2, :2].deepcopy(), s.inav[:2, 0].deepcopy()):
            s2.change_dtype(dt)
            n = s2.axes_manager.navigation_dimension
            for z in (s2, s2.as_lazy()):
                z.average_neighbour_patterns("rectangular", (2,) * n, inplace=False,
                                             show_progressbar=False, lazy_output=False)
            s2.get_image_quality(show_progressbar=False)
            kp.pattern.get_image_quality(s2.data[(0,) * n])


def window_of(ctx, nav):
    """(arguments for averaging, the window as an array)"""
    import kikuchipy as kp

    rng = ctx.rng
    nd = len(nav)
    if nd == 2 and rng.random() < 0.2:
        nd = 1  # along the map's columns only
    shape = tuple(int(x) for x in rng.integers(1, 6, nd))
    if max(shape) == 1:
        shape = (3,) * nd
    kind = ctx.choice(["circular", "rectangular", "gaussian", "custom", "fraction",
                       "window"])
    if kind == "gaussian":
        std = float(rng.uniform(0.7, 3))
        w = refs.gaussian_window(shape, std)
        return kind, dict(window="gaussian", window_shape=shape, std=std), w
    if kind in ("circular", "rectangular"):
        w = np.ones(shape)
        if kind == "circular" and nd == 2:
            o = [n // 2 for n in shape]
            y, x = np.ogrid[: shape[0], : shape[1]]
            w[np.hypot(y - o[0], x - o[1]) > max(o)] = 0
        return kind, dict(window=kind, window_shape=shape), w
    w = rng.uniform(0.5, 3, shape)
    if kind == "fraction":
        w = rng.uniform(0.02, 0.2, shape)
        ctx.count("fractional_windows")
        return kind, dict(window=w.copy()), w
    if kind == "custom":
        w = np.round(w)
        return kind, dict(window=w.astype(ctx.choice([int, float]))), w
    return kind, dict(window=kp.filters.Window(w.copy())), w


def neighbours(nav, shape):
    """Index arrays: for each point, its window cell and the map point there."""
    o = [n // 2 for n in shape]
    for i in np.ndindex(nav):
        cells = []
        for k in np.ndindex(shape):
            j = tuple(a + b - c for a, b, c in zip(i, k, o))
            if all(0 <= a < n for a, n in zip(j, nav)):
                cells.append((k, j))
        yield i, cells


@case(quick=60)
def average(ctx):
    rng = ctx.rng
    nav = gen.nav_shape(rng, (1, 2, 2), big=True)
    sig = gen.sig_shape(rng, 4, 9)
    dtype = ctx.choice(["uint8", "uint16", "float32"])
    lazy = bool(rng.random() < 0.4)
    s = gen.signal(rng, nav, sig, dtype, lazy=lazy)
    kind, kw, w = window_of(ctx, nav)
    if w.ndim < len(nav):
        w = w[:, None]
    if any(n % 2 == 0 for n in w.shape):
        ctx.count("even_windows")
    ctx.note(nav=nav, sig=sig, dtype=dtype, window=kind, shape=w.shape, lazy=lazy)
    data = np.asarray(s.data).astype(np.float64)
    out = s.average_neighbour_patterns(inplace=False, show_progressbar=False,
                                       lazy_output=False, **kw)
    ctx.distinct("average", kind, w.shape, len(nav), dtype, lazy)
    lo, hi = gen.RANGES[dtype]
    for i, cells in neighbours(nav, w.shape):
        tot = sum(w[k] for k, _ in cells)
        if tot <= 0:
            continue
        avg = sum(w[k] * data[j] for k, j in cells) / tot
        span, mag = np.ptp(avg), np.abs(avg).max()
        if span < 1e-3 * mag:
            continue
        ref = refs.stretch(avg, avg.min(), avg.max(), lo, hi)
        tol = (hi - lo) * 128 * refs.EPS32 * (1 + mag / span)
        ctx.count("averaged_patterns")
        refs.close_px(ctx, out.data[i], ref, tol, dtype, f"average:{kind}",
                      f"average with {kind} window {w.shape} at {i} of {nav}")


@case(quick=10)
def average_trivial(ctx):
    """A one-point window averages each pattern with nothing; the caller still gets
    what was asked for."""
    rng = ctx.rng
    nav = gen.nav_shape(rng, (1, 2))
    s = gen.signal(rng, nav, gen.sig_shape(rng, 4, 9), "uint8",
                   lazy=bool(rng.random() < 0.5))
    before = np.asarray(s.data).copy()
    out = s.average_neighbour_patterns("rectangular", (1,) * len(nav), inplace=False,
                                       show_progressbar=False)
    ctx.distinct("trivial", len(nav), s._lazy)
    if ctx.check(out is not None, "trivial-window:none",
                 "averaging with a one-point window and inplace=False returned None"):
        ctx.check(out is not s, "trivial-window:same")
        ctx.equal(np.asarray(out.data), before, "trivial-window:data")
    ctx.equal(np.asarray(s.data), before, "trivial-window:input")


@case(quick=60)
def dot_products(ctx):
    import kikuchipy as kp

    rng = ctx.rng
    nav = gen.nav_shape(rng, (1, 2, 2), big=True)
    sig = gen.sig_shape(rng, 4, 9)
    dtype = ctx.choice(["uint8", "uint16", "float32"])
    lazy = bool(rng.random() < 0.5)
    s = gen.signal(rng, nav, sig, dtype, lazy=lazy)
    zm, nm = bool(rng.random() < 0.7), bool(rng.random() < 0.7)
    dt = ctx.choice(["float32", "float64"])
    default = rng.random() < 0.2
    if default:
        win, shape = None, (3,) * len(nav)
        w = np.ones(shape)
        if len(nav) == 2:
            w[::2, ::2] = 0
    else:
        shape = tuple(int(x) for x in rng.integers(2, 6, len(nav)))
        w = np.ones(shape)
        if rng.random() < 0.5:
            w = (rng.random(shape) < 0.7).astype(float) * rng.uniform(0.3, 2, shape)
            w[tuple(n // 2 for n in shape)] = 1
        win = kp.filters.Window(w.copy())
    if any(n % 2 == 0 for n in shape):
        ctx.count("even_windows")
    ctx.note(nav=nav, sig=sig, dtype=dtype, shape=shape, zero_mean=zm, normalize=nm,
             lazy=lazy, chunks=getattr(s.data, "chunks", None))
    kw = dict(window=win, zero_mean=zm, normalize=nm, dtype_out=dt,
              show_progressbar=False)
    dp = np.asarray(s.get_neighbour_dot_product_matrices(**kw))
    adp = np.asarray(s.get_average_neighbour_dot_product_map(**kw))
    adp2 = np.asarray(s.get_average_neighbour_dot_product_map(dp_matrices=dp.copy(),
                                                              **kw))
    ctx.check(dp.dtype == dt and adp.dtype == dt, "dp:dtype", f"{dp.dtype}, {adp.dtype}")
    p = np.asarray(s.data).astype(np.float64).reshape(nav + (-1,))
    mag = np.abs(p).max() ** 2 * p.shape[-1]
    if zm:
        p = p - p.mean(-1, keepdims=True)
    if nm:
        p = p / np.sqrt((p**2).sum(-1, keepdims=True))
        mag = 1.0
    tol = 2e-5 * mag
    ref = np.full(nav + shape, np.nan)
    ref_a = np.full(nav, np.nan)
    for i, cells in neighbours(nav, shape):
        vals = []
        for k, j in cells:
            if w[k] == 0:
                continue
            v = float(p[i] @ p[j])
            ref[i + k] = v
            if j != i:
                vals.append(v)
        if vals:
            ref_a[i] = np.mean(vals)
    ctx.count("dp_points", int(np.prod(nav)))
    ctx.count("adp_points", int(np.prod(nav)))
    ctx.distinct("dp", shape, zm, nm, len(nav), dtype, dt, lazy, default)
    ctx.close(dp, ref, "dp:matrices", f"dot product matrices, window {shape}",
              rtol=1e-4, atol=tol)
    ctx.close(adp, ref_a, "dp:average", f"average dot product map, window {shape}",
              rtol=1e-4, atol=tol)
    ctx.close(adp2, ref_a, "dp:average-from-matrices",
              f"average dot product map from matrices, window {shape}",
              rtol=1e-4, atol=tol)


def iq_reference(p, normalize):
    p = p.astype(np.float64)
    if normalize:
        p = (p - p.mean()) / p.std()
    r, c = p.shape
    spec = np.abs(np.fft.fft2(p))
    import kikuchipy as kp

    f = kp.pattern.fft_frequency_vectors((r, c))
    return 1 - (spec * f).sum() / spec.sum() / (f.sum() / (r * c))


@case(quick=30)
def image_quality(ctx):
    import kikuchipy as kp

    rng = ctx.rng
    nav = gen.nav_shape(rng, (0, 1, 2))
    sig = gen.sig_shape(rng, 6, 24)
    dtype = ctx.choice(["uint8", "uint16", "float32"])
    lazy = bool(rng.random() < 0.4)
    s = gen.signal(rng, nav, sig, dtype, lazy=lazy)
    norm = bool(rng.random() < 0.6)
    ctx.note(nav=nav, sig=sig, dtype=dtype, normalize=norm)
    q = np.asarray(s.get_image_quality(normalize=norm, show_progressbar=False))
    data = np.asarray(s.data)
    ctx.check(q.size == int(np.prod(nav)) if nav else q.size == 1, "iq:shape",
              f"{q.shape} for map {nav}")
    q = q.reshape(nav)
    ctx.distinct("iq", norm, dtype, len(nav), sig)
    for i in np.ndindex(nav):
        ref = iq_reference(data[i], norm)
        ctx.count("quality_points")
        ctx.close(q[i], ref, "iq", f"image quality at {i}", rtol=1e-4, atol=2e-4)
        ctx.close(kp.pattern.get_image_quality(data[i], normalize=norm), ref,
                  "iq:function", f"image quality function at {i}", rtol=1e-4, atol=2e-4)
    if nav:
        # every pattern is judged on its own
        i = tuple(int(rng.integers(n)) for n in nav)
        one = kp.signals.EBSD(data[i].copy())
        ctx.close(np.asarray(one.get_image_quality(normalize=norm)).ravel()[0], q[i],
                  "iq:alone", rtol=1e-5, atol=1e-6)
