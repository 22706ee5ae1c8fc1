"""Fourier transforms, filters, binning and the functions for single patterns."""

import dask.array as da
import numpy as np

from kpmon import gen, refs
from kpmon.core import case

PROPERTY = "A05"
RULE = ("one evaluation = one transform, filtered, binned or corrected pattern compared "
        "with a direct (matrix or spatial) double-precision reference, or an argument "
        "compared with its value before; distinct = operation x options x data type x "
        "parity of the shapes x kernel size class")
REQUIRED = {"fft": 100, "round_trips": 100, "frequency": 200, "spatial": 100, "binned": 120,
            "functions": 50, "larger_kernels": 10, "untouched": 350}
ASSUMPTIONS = [
    "patterns without contrast after filtering are outside the property",
    "how a value between two grey levels is stored (truncated or rounded) is left open",
]

DT = ("uint8", "uint8", "uint16", "int16", "float32", "float64")


def warm():
    import kikuchipy as kp

    s = kp.data.nickel_ebsd_small().inav[:1, :1]
    for dt in sorted(set(DT)):
        s2 = s.deepcopy()
        s2.change_dtype(dt)
        p = s2.data[0, 0]
        s3 = s2.deepcopy()
        s3.downsample(2)
        for op in ("subtract", "divide"):
            for dom in ("frequency", "spatial"):
                kp.pattern.remove_dynamic_background(p, op, dom, std=1)
        kp.pattern.fft_spectrum(kp.pattern.fft(p))
        kp.pattern.rescale_intensity(p, dtype_out="uint8")
        kp.pattern.normalize_intensity(p)


def dft(p, sign=-1):
    """Two-dimensional DFT by its definition."""
    p = np.asarray(p, complex)
    e = [np.exp(sign * 2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n)
         for n in p.shape]
    return e[0] @ p @ e[1]


def centred(a):
    """Frequency k (negative ones from the end) placed at k + n // 2."""
    out = np.empty_like(a)
    n, m = a.shape
    for i in range(n):
        for j in range(m):
            f, g = (i if i < (n + 1) // 2 else i - n), (j if j < (m + 1) // 2 else j - m)
            out[f + n // 2, g + m // 2] = a[i, j]
    return out


def uncentred(a):
    out = np.empty_like(a)
    n, m = a.shape
    for i in range(n):
        for j in range(m):
            out[(i - n // 2) % n, (j - m // 2) % m] = a[i, j]
    return out


def untouched(ctx, key, **pairs):
    for name, (now, was) in pairs.items():
        ctx.equal(np.asarray(now), was, "untouched-" + key, f"{name} after the call")
        ctx.count("untouched")


def one(ctx, lo=4, hi=20):
    r = ctx.rng
    sig = gen.sig_shape(r, lo, hi)
    if r.random() < 0.3:
        sig = (sig[0], sig[0])
    dt = str(r.choice(DT))
    return gen.patterns(r, (), sig, dt), dt, sig


@case(quick=90)
def transforms(ctx):
    import kikuchipy as kp

    r = ctx.rng
    p, dt, (n, m) = one(ctx)
    was = p.copy()
    win = None
    if r.random() < 0.4:
        win = r.random((n, m))
        if r.random() < 0.5:
            win = kp.filters.Window(win)
        win_was = np.array(win)
    shift = bool(r.random() < 0.5)
    q = p.astype(float) * (1 if win is None else np.asarray(win_was))
    ref = dft(q)
    tol = dict(rtol=0, atol=(1e-4 if p.dtype == np.float32 else 1e-8) * np.abs(ref).max())
    got = kp.pattern.fft(p, apodization_window=win, shift=shift)
    ctx.close(np.asarray(got), centred(ref) if shift else ref, "fft",
              f"FFT (shift={shift}, {dt}, {p.shape})", **tol)
    spec = kp.pattern.fft_spectrum(np.asarray(got))
    ctx.close(spec, np.abs(centred(ref) if shift else ref), "spectrum", "spectrum", **tol)
    half = kp.pattern.fft(p, apodization_window=win, real_fft_only=True)
    ctx.close(np.asarray(half), ref[:, :m // 2 + 1], "rfft", "half of the FFT", **tol)
    untouched(ctx, "fft", pattern=(p, was))
    if win is not None:
        untouched(ctx, "fft", window=(win, win_was))
    ctx.count("fft", 3)
    # Back
    a = np.asarray(got).copy()
    kw = {}
    if r.random() < 0.4:
        kw = [dict(workers=1), dict(norm="backward"), dict(s=(n, m))][r.integers(0, 3)]
    back = kp.pattern.ifft(np.asarray(got), shift=shift, **kw)
    tolb = dict(rtol=0, atol=1e-4 * (1 + np.abs(q).max()))
    ctx.close(back, q, "ifft", f"back again (shift={shift}, {kw})", **tolb)
    ctx.check(np.isrealobj(back), "ifft-real", f"{back.dtype}")
    untouched(ctx, "ifft", spectrum=(got, a))
    # A spectrum of its own, not one of a pattern
    z = r.normal(size=(n, m)) + 1j * r.normal(size=(n, m))
    ctx.close(kp.pattern.ifft(z, shift=shift),
              (dft(uncentred(z) if shift else z, 1) / (n * m)).real, "ifft-any",
              f"inverse of a spectrum, shift={shift}", rtol=0, atol=1e-9)
    sh = bool(r.random() < 0.5)
    b = kp.pattern.ifft(
        kp.pattern.fft(p, apodization_window=win, shift=sh, real_fft_only=True),
        shift=sh, real_fft_only=True, s=(n, m))
    ctx.close(b, q, "irfft", f"back from half of the FFT, shift={sh}, {p.shape}", **tolb)
    ctx.count("round_trips", 3)
    ctx.distinct("fft", dt, shift, win is None, n % 2, m % 2, bool(kw))



@case(quick=60)
def frequency(ctx):
    """Transfer functions."""
    import kikuchipy as kp

    r = ctx.rng
    nav = gen.nav_shape(r, (0, 1, 2))
    sig = gen.sig_shape(r, 4, 18)
    dt = str(r.choice(DT))
    p = gen.patterns(r, nav, sig, dt)
    lazy = bool(r.random() < 0.4)
    s = gen.signal(r, nav, sig, dt, lazy, data=p.copy())
    shift = bool(r.random() < 0.6)
    kind = str(r.choice(["random", "complex", "lowpass", "highpass", "one"]))
    if kind == "random":
        h = r.random(sig)
    elif kind == "complex":
        h = r.normal(size=sig) + 1j * r.normal(size=sig)
    elif kind == "one":
        h = np.ones(sig)
    else:
        h = kp.filters.Window(kind, cutoff=float(r.uniform(1, 6)),
                              cutoff_width=float(r.uniform(0.5, 4)), shape=sig)
    hwas = np.array(h)
    inplace = bool(r.random() < 0.5)
    out = s.fft_filter(h, "frequency", shift=shift, inplace=inplace)
    got = np.asarray((s if inplace else out).data)
    untouched(ctx, "filter", transfer=(h, hwas))
    if not inplace:
        untouched(ctx, "filter", patterns=(s.data, p))
    hh = uncentred(hwas) if shift else hwas
    w = None
    for i in np.ndindex(*nav):
        q = p[i].astype(float)
        ref = (dft(dft(q) * hh, 1) / q.size).real
        span, mag = np.ptp(ref), np.abs(q).max() * max(1.0, np.abs(hh).max())
        if span < 1e-3 * mag:
            ctx.count("flat")
            continue
        lo, hi = gen.RANGES[dt]
        want = refs.stretch(ref, ref.min(), ref.max(), lo, hi)
        refs.close_px(ctx, got[i], want, (hi - lo) * 2e-5 * mag / span, dt, "frequency",
                      f"filtered with a {kind} transfer function, shift={shift}")
        # For one pattern
        a = q.astype("float32" if r.random() < 0.5 else dt)
        awas = a.copy()
        if r.random() < 0.3:
            w = r.random(sig)
            ref = (dft(dft(q * w) * hh, 1) / q.size).real
        one_ = kp.pattern.fft_filter(a, h, apodization_window=w, shift=shift)
        ctx.close(np.asarray(one_), ref, "one", f"one pattern filtered, {kind}", rtol=0,
                  atol=1e-4 * mag)
        untouched(ctx, "one", pattern=(a, awas))
        ctx.count("frequency", 2)
        w = None
    ctx.distinct("frequency", kind, dt, shift, lazy, sig[0] % 2, sig[1] % 2, inplace)


@case(quick=60)
def spatial(ctx):
    """Kernels in the spatial domain."""
    import kikuchipy as kp

    r = ctx.rng
    nav = gen.nav_shape(r, (0, 1, 2))
    sig = gen.sig_shape(r, 4, 18)
    dt = str(r.choice(DT))
    p = gen.patterns(r, nav, sig, dt)
    lazy = bool(r.random() < 0.4)
    s = gen.signal(r, nav, sig, dt, lazy, data=p.copy())
    k = tuple(int(q) for q in r.integers(1, 9, 2))
    big = r.random() < 0.2
    if big:
        k = (sig[0] + int(r.integers(0, 5)), sig[1] + int(r.integers(-2, 5)))
    kind = str(r.choice(["random", "signed", "sobel", "gaussian"]))
    if kind == "sobel":
        w = np.array([[-1, 0, 1], [-2, 0, 2], [-1, 0, 1]], dtype=float)
        w = w.T if r.random() < 0.5 else w
    elif kind == "gaussian":
        w = kp.filters.Window("gaussian", std=float(r.uniform(0.5, 4)), shape=k)
    else:
        w = r.random(k) if kind == "random" else r.normal(size=k)
        if r.random() < 0.5:
            w = kp.filters.Window(w)
    was = np.array(w)
    out = s.fft_filter(w, "spatial", inplace=False)
    got = np.asarray(out.data)
    untouched(ctx, "kernel", kernel=(w, was), patterns=(s.data, p))
    for i in np.ndindex(*nav):
        ref = refs.corr_edge(p[i], was)
        span, mag = np.ptp(ref), np.abs(p[i]).max() * np.abs(was).sum()
        if span < 1e-3 * mag:
            ctx.count("flat")
            continue
        lo, hi = gen.RANGES[dt]
        want = refs.stretch(ref, ref.min(), ref.max(), lo, hi)
        refs.close_px(ctx, got[i], want, (hi - lo) * 2e-5 * mag / span, dt,
                      "spatial-larger" if big else "spatial",
                      f"{kind} kernel of {was.shape} on {sig}")
        ctx.count("spatial")
        ctx.count("larger_kernels", int(big))
    ctx.raises(ValueError, lambda: s.fft_filter(w, "time", inplace=False), "domain",
               "unknown domain")
    ctx.distinct("spatial", kind, dt, lazy, was.shape[0] % 2, was.shape[1] % 2, bool(big))


@case(quick=70)
def binning(ctx):
    """Downsampling: sums over blocks of pixels."""
    r = ctx.rng
    nav = gen.nav_shape(r, (0, 1, 2))
    f = int(r.integers(2, 6))
    sig = tuple(int(q) * f for q in gen.sig_shape(r, 2, 8))
    dt = str(r.choice(DT))
    out_dt = None if r.random() < 0.5 else str(r.choice(DT))
    p = gen.patterns(r, nav, sig, dt)
    lazy = bool(r.random() < 0.4)
    s = gen.signal(r, nav, sig, dt, lazy, data=p.copy())
    inplace = bool(r.random() < 0.5)
    out = s.downsample(f, dtype_out=out_dt, inplace=inplace)
    s2 = s if inplace else out
    got = np.asarray(s2.data)
    if not inplace:
        untouched(ctx, "binned", patterns=(s.data, p))
    d = out_dt or dt
    lo, hi = gen.RANGES[d]
    n, m = sig[0] // f, sig[1] // f
    for i in np.ndindex(*nav):
        q = p[i].astype(float)
        ref = np.array([[q[a * f:(a + 1) * f, b * f:(b + 1) * f].sum()
                         for b in range(m)] for a in range(n)])
        span, mag = np.ptp(ref), np.abs(q).max() * f * f
        if span < 1e-3 * mag:
            continue
        want = refs.stretch(ref, ref.min(), ref.max(), lo, hi)
        refs.close_px(ctx, got[i], want, (hi - lo) * 1e-5 * mag / span, d, "binned",
                      f"binned by {f}")
        ctx.count("binned")
    bad = [q for q in range(2, 20) if sig[0] % q or sig[1] % q]
    if bad and not inplace:
        b = int(r.choice(bad))
        ctx.raises(ValueError, lambda: s.downsample(b, inplace=False), "binned-refused",
                   f"factor {b} of {sig}")
        ctx.raises(ValueError, lambda: s.downsample(float(f), inplace=False),
                   "binned-refused", "factor that is not an integer")
    ctx.distinct("binned", f, dt, d, lazy, inplace, len(nav))


@case(quick=100)
def functions(ctx):
    """The functions for single patterns and for chunks of them."""
    import kikuchipy as kp
    from kikuchipy.pattern import chunk

    r = ctx.rng
    p, dt, sig = one(ctx, 6, 20)
    was = p.copy()
    out = None if r.random() < 0.4 else str(r.choice(DT))
    d = out or dt
    kind = str(r.choice(["dynamic", "dynamic", "rescale", "normalize", "background",
                         "chunk"]))
    lo, hi = gen.RANGES[d]
    std = float(r.uniform(1, 4))
    dom = str(r.choice(["frequency", "spatial"]))
    if kind == "dynamic":
        op = str(r.choice(["subtract", "divide"]))
        if op == "divide" and p.min() <= 0:
            op = "subtract"
        bg = refs.dynamic_background(p, dom, std, 4.0)
        want, tol = refs.remove_bg(p, bg, op, d)
        if want is None:
            return
        got = kp.pattern.remove_dynamic_background(p, op, dom, std=std, dtype_out=out)
        if dt in ("float64",):
            tol += 1e-6 * (hi - lo)
        refs.close_px(ctx, got, want, tol + 1e-5 * (hi - lo), d, "dynamic",
                      f"{op} in the {dom} domain, {dt} to {d}")
        again = kp.pattern.remove_dynamic_background(p, op, dom, std=std, dtype_out=out)
        ctx.equal(again, got, "again", "the same call again")
    elif kind == "rescale":
        kw = {}
        q = p.astype(float)
        a, b = q.min(), q.max()
        if r.random() < 0.4:
            a, b = a + 0.2 * (b - a), b - 0.3 * (b - a)
            if np.dtype(dt).kind in "iu":
                a, b = np.floor(a), np.ceil(b)
                kw["in_range"] = (int(a), int(b))
            else:
                kw["in_range"] = (a, b)
        want = refs.stretch(np.clip(q, a, b), a, b, lo, hi)
        got = kp.pattern.rescale_intensity(p, dtype_out=out, **kw)
        mag = np.abs(q).max() / (b - a)
        refs.close_px(ctx, got, want, (hi - lo) * 2e-6 * (1 + mag), d, "rescale",
                      f"rescaled {dt} to {d}, {kw}")
    elif kind == "normalize":
        k = int(r.integers(1, 4))
        q = p.astype(float)
        got = kp.pattern.normalize_intensity(p, num_std=k, dtype_out="float64")
        ctx.close(got, (q - q.mean()) / (k * q.std()), "normalize", f"{k} std", rtol=0,
                  atol=1e-4 * (1 + np.abs(q).max() / q.std()))
    elif kind == "background":
        got = kp.pattern.get_dynamic_background(p, dom, std=std)
        want = refs.dynamic_background(p, dom, std, 4.0)
        # Integers are truncated after each of the two axes in the spatial domain
        refs.close_px(ctx, got, want, 1e-5 * np.abs(p.astype(float)).max()
                      + (dom == "spatial" and np.dtype(dt).kind in "iu"), dt,
                      "background", f"background in the {dom} domain")
    else:
        nav = gen.nav_shape(r, (1, 2))
        ps = gen.patterns(r, nav, sig, dt)
        pwas = ps.copy()
        h = r.random(sig)
        hwas = h.copy()
        x = da.from_array(ps, chunks=gen.chunks_for(r, ps.shape)) \
            if r.random() < 0.5 else ps
        if isinstance(x, np.ndarray):
            got = chunk.fft_filter(x, kp.pattern.fft_filter, transfer_function=h,
                                   dtype_out=d, shift=True)
        else:
            got = x.map_blocks(chunk.fft_filter, filter_func=kp.pattern.fft_filter,
                               transfer_function=h, dtype_out=d, shift=True,
                               dtype=d).compute()
        for i in np.ndindex(*nav):
            q = ps[i].astype(float)
            ref = (dft(dft(q) * uncentred(hwas), 1) / q.size).real
            if np.ptp(ref) < 1e-3 * np.abs(q).max():
                continue
            want = refs.stretch(ref, ref.min(), ref.max(), lo, hi)
            refs.close_px(ctx, got[i], want,
                          (hi - lo) * 2e-5 * np.abs(q).max() / np.ptp(ref), d, "chunk",
                          f"pattern {i} of a chunk")
        untouched(ctx, "chunk", patterns=(ps, pwas), transfer=(h, hwas))
    untouched(ctx, kind, pattern=(p, was))
    ctx.count("functions")
    ctx.distinct("functions", kind, dt, d, dom if kind in ("dynamic", "background") else 0)
