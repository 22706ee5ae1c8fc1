"""Background removal, intensity rescaling and normalisation, pattern by pattern."""

import warnings

import numpy as np
from skimage.exposure import equalize_adapthist

from kpmon import gen, refs
from kpmon.core import case

PROPERTY = "A01"
RULE = ("one evaluation = one processed pattern compared with the double-precision "
        "reference, or one documented rejection; distinct = operation x options x "
        "dtype x map dimension x pattern shape")
REQUIRED = {"patterns_checked": 900, "static": 150, "dynamic": 150, "rescale": 150,
            "normalize": 100, "full_range_reached": 300, "rejections": 10}
ASSUMPTIONS = [
    "patterns without contrast after background removal are outside the property",
    "how a value between two grey levels is stored (truncated or rounded) is left open",
    "the Barnes filter extends the pattern by its edge pixels (its documented padding)",
]


def warm():
    import kikuchipy as kp

    s = kp.data.nickel_ebsd_small()
    for dt in ("uint8", "uint16", "float32", "int8", "float64", "int16", "int32",
               "uint32"):
        s2 = s.inav[:1, :1].deepcopy()
        s2.change_dtype(dt)
        s2.static_background = s.static_background.astype(dt)
        s3 = s2.deepcopy()
        s3.remove_static_background()
        s3.remove_dynamic_background()
        s3.remove_dynamic_background("divide")
        s3 = s2.deepcopy()
        s3.remove_static_background("divide")
        s3.normalize_intensity(dtype_out="float32")
        s3.rescale_intensity(dtype_out="uint8")


SIGNED = ("int8", "int16", "int32")


def make(ctx, dtypes, dims=(0, 1, 2), **kw):
    rng = ctx.rng
    dtype = ctx.choice(dtypes)
    nav = gen.nav_shape(rng, dims)
    sig = gen.sig_shape(rng, 6, 24)
    s = gen.signal(rng, nav, sig, dtype, **kw)
    ctx.note(dtype=dtype, nav=nav, sig=sig)
    return s, dtype, nav, sig


def reached(ctx, got, dtype, tol, key):
    lo, hi = gen.RANGES[np.dtype(dtype).name]
    if np.dtype(dtype).kind in "iu" and np.dtype(dtype).itemsize == 4:
        return  # float32 cannot hold the end of the range
    slack = tol + (1 if np.dtype(dtype).kind in "iu" else 0)
    ok = got.min() <= lo + slack and got.max() >= hi - slack
    ctx.count("full_range_reached")
    ctx.check(ok, key, f"intensities span {got.min()}..{got.max()}, not the data "
                       f"type's range {lo}..{hi}")


@case(quick=90)
def static_background(ctx):
    rng = ctx.rng
    op = ctx.choice(["subtract", "divide"])
    dts = ["uint8", "uint16", "uint32", "float32", "float64"]
    if op == "subtract":
        dts += ["int8", "int16", "int32"]
    s, dtype, nav, sig = make(ctx, dts)
    scale_bg = bool(rng.random() < 0.5)
    bg = np.asarray(s.static_background)
    if op == "divide" and np.dtype(dtype).kind == "f":
        # keep the denominator away from zero
        s.data = s.data - s.data.min() + rng.uniform(0.5, 3)
        s.data = s.data.astype(dtype)
        bg = (bg - bg.min() + rng.uniform(1, 3)).astype(dtype)
        s.static_background = bg
    elif op == "divide":
        bg = np.maximum(bg, 3).astype(dtype)
        s.data = np.maximum(s.data, 5).astype(dtype)
        s.static_background = bg
    own = rng.random() < 0.5
    how = "attribute"
    kw = {}
    if own:
        # a background passed in takes precedence over the signal's own
        other = gen.raw_patterns(rng, (), sig, "grad") * 0.5 + 0.4
        bg = np.maximum(gen.as_dtype(rng, other, dtype, True), 3).astype(dtype)
        kw["static_bg"] = bg.copy()
        how = "argument"
    ctx.note(op=op, scale_bg=scale_bg, bg=how)
    before = s.data.copy()
    out = s.remove_static_background(op, scale_bg=scale_bg, inplace=False,
                                     show_progressbar=False, **kw)
    ctx.distinct("static", op, scale_bg, how, dtype, len(nav), sig)
    for i in np.ndindex(nav):
        p, b = before[i], bg.astype(np.float64)
        if scale_bg:
            b = refs.stretch(b, b.min(), b.max(), float(p.min()), float(p.max()))
            if op == "divide" and np.abs(b).min() < 1e-3 * np.abs(b).max():
                continue
        ref, tol = refs.remove_bg(p, b, op, dtype)
        if ref is None:
            ctx.count("skipped_no_contrast")
            continue
        ctx.count("patterns_checked")
        ctx.count("static")
        refs.close_px(ctx, out.data[i], ref, tol, dtype, f"static:{op}:{scale_bg}",
                      f"static background {op}, scale_bg={scale_bg}, pattern {i}")
        reached(ctx, out.data[i], dtype, tol, f"static:range:{op}")
    ctx.sample(dict(op=op, scale_bg=scale_bg, dtype=dtype, nav=nav, sig=sig))


@case(quick=90)
def dynamic_background(ctx):
    rng = ctx.rng
    op = ctx.choice(["subtract", "divide"])
    dts = ["uint8", "uint16", "float32", "float64"]
    if op == "subtract":
        dts += ["int8", "int16"]
    s, dtype, nav, sig = make(ctx, dts)
    if op == "divide":
        s.data = (s.data - s.data.min() + max(2, 0.1 * np.ptp(s.data))).clip(
            max=gen.RANGES[dtype][1] if np.dtype(dtype).kind != "f" else None
        ).astype(dtype)
    domain = ctx.choice(["frequency", "spatial"])
    std = ctx.choice([None, float(rng.uniform(1, 5)), int(rng.integers(1, 6))])
    truncate = ctx.choice([4.0, 3, float(rng.uniform(2, 5))])
    use = sig[1] / 8 if std is None else std
    if int(truncate * use) < 2:
        std = use = 2.0
    ctx.note(op=op, domain=domain, std=std, truncate=truncate)
    which = ctx.choice(["signal", "signal", "function"])
    before = s.data.copy()
    if which == "signal":
        out = s.remove_dynamic_background(
            op, domain, std=std, truncate=truncate, inplace=False,
            show_progressbar=False).data
    else:
        import kikuchipy as kp

        out = np.empty_like(s.data)
        for i in np.ndindex(nav):
            out[i] = kp.pattern.remove_dynamic_background(
                s.data[i].astype(np.float32), op, domain, std=std, truncate=truncate,
                dtype_out=dtype)
    ctx.distinct("dynamic", which, op, domain, dtype, std is None, len(nav), sig)
    for i in np.ndindex(nav):
        bg = refs.dynamic_background(before[i], domain, use, truncate)
        ref, tol = refs.remove_bg(before[i], bg, op, dtype)
        if ref is None:
            ctx.count("skipped_no_contrast")
            continue
        ctx.count("patterns_checked")
        ctx.count("dynamic")
        refs.close_px(ctx, out[i], ref, tol, dtype, f"dynamic:{op}:{domain}",
                      f"dynamic background {op} {domain} std={std}, pattern {i}")
        reached(ctx, out[i], dtype, tol, f"dynamic:range:{op}")


@case(quick=30)
def dynamic_background_image(ctx):
    """The background itself, as a signal or from the array function."""
    import kikuchipy as kp

    rng = ctx.rng
    s, dtype, nav, sig = make(ctx, ["uint8", "uint16", "float32"])
    domain = ctx.choice(["frequency", "spatial"])
    std = ctx.choice([None, None, float(rng.uniform(1, 5))])
    truncate = ctx.choice([4.0, 3])
    dtype_out = ctx.choice([None, "float32"])
    use = sig[1] / 8 if std is None else std
    if int(truncate * use) < 2:
        std = use = 2.0
    ctx.note(domain=domain, std=std, truncate=truncate, dtype_out=dtype_out)
    if rng.random() < 0.6:
        got = s.get_dynamic_background(domain, std=std, truncate=truncate,
                                       dtype_out=dtype_out, show_progressbar=False).data
        dt = dtype_out or dtype
        who = "signal"
    else:
        dt, who = dtype, "function"
        got = np.empty(s.data.shape, dt)
        for i in np.ndindex(nav):
            got[i] = kp.pattern.get_dynamic_background(s.data[i], domain, std=std,
                                                       truncate=truncate)
    ctx.distinct("dynbg", who, domain, std is None, dtype, dt, sig)
    for i in np.ndindex(nav):
        ref = refs.dynamic_background(s.data[i], domain, use, truncate)
        tol = 64 * refs.EPS32 * np.abs(s.data[i].astype(float)).max()
        ctx.count("patterns_checked")
        # an integer pattern may be filtered in its own type by SciPy: each of the
        # two passes drops a fraction
        slack = 1.0 if np.dtype(dtype).kind in "iu" else 0.0
        refs.close_px(ctx, got[i], ref, tol + slack, dt, f"dynbg:{who}:{domain}",
                      f"dynamic background image, {who}, std={std}")


@case(quick=90)
def rescale(ctx):
    import kikuchipy as kp

    rng = ctx.rng
    kind = ctx.choice(["ebsd", "ebsd", "master", "virtual", "function"])
    dts = ["uint8", "uint16", "uint32", "int8", "int16", "int32", "float32", "float64"]
    s, dtype, nav, sig = make(ctx, dts)
    if kind == "master":
        s = gen.master_pattern(rng, 17, dtype=dtype, nenergy=3)
        nav, sig = s.data.shape[:-2], s.data.shape[-2:]
    elif kind == "virtual":
        s = kp.signals.VirtualBSEImage(s.data.copy())
    dtype_out = ctx.choice([None] + dts)
    dt = np.dtype(dtype_out or dtype)
    mode = ctx.choice(["own", "own", "relative", "in_range", "percentiles"])
    if kind == "function" and mode == "relative":
        mode = "own"
    omin, omax = gen.RANGES[dt.name]
    kw = {}
    if rng.random() < 0.3:
        a, b = np.sort(rng.uniform(omin, omax, 2))
        if dt.kind in "iu":
            a, b = int(a), int(b) + 1
        b = min(b, omax)
        a = min(a, b - 0.2 * (omax - omin))
        a = max(a, omin)
        a = int(a) if dt.kind in "iu" else a
        kw["out_range"] = (a, b)
        omin, omax = a, b
    lo, hi = float(s.data.min()), float(s.data.max())
    if mode == "relative":
        kw["relative"] = True
    elif mode == "in_range":
        a = lo + rng.uniform(-0.1, 0.3) * (hi - lo)
        b = hi - rng.uniform(-0.1, 0.3) * (hi - lo)
        if np.dtype(dtype).kind in "iu":
            L, H = gen.RANGES[dtype]
            a, b = max(int(a), L), min(int(b), H)
        kw["in_range"] = (a, b)
    elif mode == "percentiles":
        kw["percentiles"] = (float(rng.uniform(0.5, 10)), float(rng.uniform(90, 99.5)))
    before = s.data.copy()
    ctx.note(kind=kind, dtype_out=dtype_out, **kw)
    if kind == "function":
        out = np.empty(before.shape, dt)
        for i in np.ndindex(nav):
            out[i] = kp.pattern.rescale_intensity(before[i], dtype_out=dtype_out, **kw)
    else:
        res = s.rescale_intensity(dtype_out=dtype_out, inplace=False,
                                  show_progressbar=False, **kw)
        out = res.data
        ctx.check(type(res) is type(s), "rescale:type", f"returned {type(res)}")
    ctx.distinct("rescale", kind, mode, dtype, dt.name, "out_range" in kw)
    for i in np.ndindex(nav):
        p = before[i].astype(np.float64)
        if mode == "relative":
            a, b = lo, hi
        elif mode == "in_range":
            a, b = kw["in_range"]
        elif mode == "percentiles":
            a, b = np.percentile(before[i].astype(float), kw["percentiles"])
        else:
            a, b = p.min(), p.max()
        if b - a < 1e-4 * max(abs(a), abs(b)):
            continue
        ref = refs.stretch(np.clip(p, a, b), a, b, omin, omax)
        tol = (omax - omin) * 64 * refs.EPS32 * (1 + max(abs(a), abs(b)) / (b - a))
        ctx.count("patterns_checked")
        ctx.count("rescale")
        refs.close_px(ctx, out[i], ref, tol, dt, f"rescale:{kind}:{mode}",
                      f"rescale {kind} {mode} {dtype}->{dt}, image {i}")


@case(quick=40)
def normalize(ctx):
    import kikuchipy as kp

    rng = ctx.rng
    kind = ctx.choice(["ebsd", "ebsd", "master", "virtual", "function"])
    s, dtype, nav, sig = make(ctx, ["uint8", "uint16", "int16", "float32", "float64"])
    if kind == "master":
        s = gen.master_pattern(rng, 17, dtype=dtype, nenergy=3)
        nav = s.data.shape[:-2]
    elif kind == "virtual":
        s = kp.signals.VirtualBSEImage(s.data.copy())
    num_std = int(rng.integers(1, 5))
    root = bool(rng.random() < 0.5)
    dt = ctx.choice(["float32", "float64"])
    ctx.note(kind=kind, num_std=num_std, root=root, dtype_out=dt)
    before = s.data.copy()
    if kind == "function":
        out = np.empty(before.shape, dt)
        for i in np.ndindex(nav):
            out[i] = kp.pattern.normalize_intensity(before[i], num_std, root, dt)
    else:
        out = s.normalize_intensity(num_std, root, dtype_out=dt, inplace=False,
                                    show_progressbar=False).data
    ctx.distinct("normalize", kind, num_std, root, dtype, dt)
    for i in np.ndindex(nav):
        p = before[i].astype(np.float64)
        n = num_std * p.std() * (np.sqrt(p.size) if root else 1)
        ref = (p - p.mean()) / n
        tol = 64 * refs.EPS32 * (np.abs(p).max() / n + 1)
        ctx.count("patterns_checked")
        ctx.count("normalize")
        refs.close_px(ctx, out[i], ref, tol, dt, f"normalize:{kind}",
                      f"normalize {kind} num_std={num_std} root={root}")


@case(quick=14)
def equalize(ctx):
    """Adaptive histogram equalization is scikit-image's, pattern by pattern, and
    stretched to the data type's range."""
    rng = ctx.rng
    dtype = ctx.choice(["uint8", "uint16"])
    nav = gen.nav_shape(rng)
    sig = gen.sig_shape(rng, 12, 40)
    s = gen.signal(rng, nav, sig, dtype)
    k = ctx.choice([None, None, (int(rng.integers(3, 9)), int(rng.integers(3, 9))),
                    int(rng.integers(3, 9))])
    clip = float(ctx.choice([0.0, 0.01, 0.05]))
    nbins = int(ctx.choice([128, 64, 256]))
    ctx.note(nav=nav, sig=sig, dtype=dtype, kernel=k, clip=clip, nbins=nbins)
    out = s.adaptive_histogram_equalization(
        kernel_size=k, clip_limit=clip, nbins=nbins, inplace=False,
        show_progressbar=False).data
    # documented default: a quarter of the image height by a quarter of its width
    use = (sig[0] // 4, sig[1] // 4) if k is None else (k, k) if np.isscalar(k) else k
    ctx.distinct("ahe", dtype, sig, k is None, clip, nbins)
    for i in np.ndindex(nav):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            e = equalize_adapthist(s.data[i], kernel_size=use, clip_limit=clip,
                                   nbins=nbins)
        lo, hi = gen.RANGES[dtype]
        ref = refs.stretch(e, e.min(), e.max(), lo, hi)
        ctx.count("patterns_checked")
        refs.close_px(ctx, out[i], ref, 1e-6 * hi, dtype,
                      "ahe:default" if k is None else "ahe",
                      f"adaptive histogram equalization, kernel {k} of {sig}")


@case(quick=6)
def rejections(ctx):
    rng = ctx.rng
    s, dtype, nav, sig = make(ctx, ["uint8", "float32"], dims=(1, 2))
    other = "uint16" if dtype == "uint8" else "float64"
    bg = s.static_background
    before = s.data.copy()
    kw = dict(show_progressbar=False)
    tries = {
        "bg-dtype": lambda: s.remove_static_background(
            static_bg=bg.astype(other), **kw),
        "bg-shape": lambda: s.remove_static_background(static_bg=bg[:-1], **kw),
        "bg-transposed": lambda: s.remove_static_background(
            static_bg=np.ascontiguousarray(bg.T), **kw),
        "domain": lambda: s.remove_dynamic_background(filter_domain="wood", **kw),
        "lazy-inplace": lambda: s.remove_static_background(
            lazy_output=True, inplace=True, **kw),
        "lazy-inplace2": lambda: s.rescale_intensity(
            lazy_output=True, inplace=True, **kw),
        "percentiles+in_range": lambda: s.rescale_intensity(
            in_range=(1, 2), percentiles=(1, 99), **kw),
        "relative+in_range": lambda: s.rescale_intensity(
            relative=True, in_range=(1, 2), **kw),
    }
    for name, fn in tries.items():
        ctx.raises(ValueError, fn, f"reject:{name}", name)
        ctx.equal(s.data, before, f"reject-changed:{name}", name)
        ctx.count("rejections")
    s2 = s.deepcopy()
    s2._static_background = None
    ctx.raises(ValueError, lambda: s2.remove_static_background(**kw), "reject:no-bg")
    ctx.distinct("reject", dtype, len(nav))
