"""Crystal map, detector and static background follow the patterns."""

import warnings

import numpy as np

from kpmon import gen
from kpmon.core import case

PROPERTY = "G01"
RULE = ("one evaluation = one attribute (crystal map points, step sizes, projection "
        "centers, detector shape, static background, axes) of a signal after an "
        "operation compared with what the stamped pixels in its patterns say; distinct "
        "= operation x map dimension x detector navigation x laziness x slice kind")
REQUIRED = {"operations": 500, "xmaps_compared": 400, "pcs_compared": 500,
            "backgrounds_compared": 500, "chains": 25, "lazy_operations": 50}
ASSUMPTIONS = [
    "attributes may be dropped (crystal map or background None, PC reset to (0.5, 0.5, "
    "0.5)) after stepped or reversed slices, and maps of single rows, columns or "
    "points after extract_grid(), never misaligned",
]


def warm():
    pass


def stamped(rng, nav, sig, lazy=False, det_nav=None, with_xmap=True, hole=False):
    """Every pixel says which map point and which detector pixel it is."""
    import kikuchipy as kp

    n = int(np.prod(nav)) if nav else 1
    m = sig[0] * sig[1]
    data = (np.arange(n)[:, None] * m + np.arange(m)).reshape(tuple(nav) + sig)
    data = data.astype("int32")
    ax = gen.axes(rng, nav, sig)
    if det_nav is None:
        det_nav = bool(nav) and rng.random() < 0.6
    det = gen.detector(rng, sig, nav if det_nav else None)
    det.binning = int(rng.choice([1, 2, 4]))
    det.px_size = float(rng.choice([1.0, 23.5]))
    kw = {}
    in_data = None
    if with_xmap and nav:
        if hole and n > 3:
            in_data = np.ones(nav, bool)
            in_data[(1,) * len(nav)] = False
            in_data = in_data.ravel()
        kw["xmap"] = gen.xmap(rng, nav, steps=[a["scale"] for a in ax[: len(nav)]],
                              in_data=in_data)
    s = kp.signals.EBSD(data, axes=ax, detector=det,
                        static_background=np.arange(m, dtype="int32").reshape(sig), **kw)
    if lazy:
        s = s.as_lazy()
        s.data = s.data.rechunk(gen.chunks_for(rng, data.shape))
    return s


def decode(data, sig0):
    """Map index per point, and detector (row, column) per pixel."""
    m = sig0[0] * sig0[1]
    d = np.asarray(data).astype(np.int64)
    idx = d // m
    px = d % m
    return idx, px


def judge(ctx, s, ref, op, need=True):
    """*s* against the stamps; *ref* keeps the original's attributes; *need* whether
    the attributes must still be there."""
    data = np.asarray(s.data)
    sig0 = ref["sig"]
    idx, px = decode(data, sig0)
    nav = data.shape[:-2]
    flat = idx.reshape(int(np.prod(nav)) if nav else 1, -1)
    ok = ctx.check((flat == flat[:, :1]).all(), f"{op}:mixed", "patterns mixed points")
    pix = px.reshape((flat.shape[0],) + data.shape[-2:])
    ok &= ctx.check((pix == pix[:1]).all(), f"{op}:mixed-pixels", "pixels mixed")
    if not ok:
        return
    where = flat[:, 0]
    pix = pix[0]
    rows, cols = pix // sig0[1], pix % sig0[1]
    ctx.count("operations")
    ctx.equal(s.axes_manager.navigation_shape[::-1], nav, f"{op}:nav-shape", "axes")
    ctx.equal(s.axes_manager.signal_shape[::-1], data.shape[-2:], f"{op}:sig-shape",
              "axes")
    contiguous = (np.all(np.diff(rows, axis=0) == 1) and
                  np.all(np.diff(cols, axis=1) == 1))

    # Detector
    det = s.detector
    ctx.equal(det.shape, data.shape[-2:], f"{op}:detector-shape",
              "detector shape against patterns'")
    for k in ("tilt", "azimuthal", "twist", "sample_tilt", "px_size", "binning"):
        ctx.check(np.isclose(getattr(det, k), ref[k]), f"{op}:detector-{k}",
                  f"{k} {getattr(det, k)}, was {ref[k]}")
    pc = det.pc
    dn = det.navigation_shape
    n = len(where)
    if ctx.check(dn == (1,) or dn == nav or (nav == () and pc.size == 3),
                 f"{op}:pc-shape", f"PC navigation shape {dn} for map {nav}"):
        pc = np.broadcast_to(pc.reshape(-1, 3), (n, 3)) if pc.size == 3 else (
            pc.reshape(-1, 3))
        pc0 = ref["pc"]
        want = np.broadcast_to(pc0, (ref["n"], 3))[where].copy()
        if contiguous or rows.shape == sig0:
            ny, nx = data.shape[-2:]
            want[:, 0] = (want[:, 0] * sig0[1] - cols[0, 0]) / nx
            want[:, 1] = (want[:, 1] * sig0[0] - rows[0, 0]) / ny
            want[:, 2] = want[:, 2] * sig0[0] / ny
        reset = np.allclose(pc, 0.5)
        if need or not reset:
            if contiguous:
                ctx.close(pc, want, f"{op}:pc", "PCs of the points left", atol=1e-9)
                ctx.count("pcs_compared")
            else:
                # reversed or stepped pixels: no PC describes them, must be reset
                ctx.check(reset, f"{op}:pc-stepped",
                          "PC kept though pixels are not contiguous")

    # Crystal map
    if ref["tag"] is not None:
        if s.xmap is None:
            # (orix cannot always describe single points)
            ctx.check(not need or n == 1, f"{op}:xmap-lost", "crystal map dropped")
        elif nav:
            x = s.xmap
            keep = np.isin(where, ref["tag"])
            ctx.equal(x.prop["tag"].astype(int), where[keep], f"{op}:xmap",
                      "points in crystal map against patterns")
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    s.xmap = x
                    good = True
                except ValueError as e:
                    good = False
                    ctx.fail(f"{op}:xmap-incompatible", str(e))
            if good and ref["steps_ok"] and min(nav) > 1:
                ctx.check(not [i for i in w if "step size" in str(i.message)],
                          f"{op}:xmap-steps", str([str(i.message) for i in w]))
            ctx.count("xmaps_compared")
            if x.size == keep.sum() and ref.get("rot") is not None:
                ctx.close(np.atleast_2d(x.rotations.data), ref["rot"][where[keep]],
                          f"{op}:xmap-rot", "rotations")
        else:
            ctx.equal(s.xmap.prop["tag"].astype(int), where, f"{op}:xmap0", "point")

    # Static background
    bg = s.static_background
    if bg is None:
        ctx.check(not need, f"{op}:bg-lost", "static background dropped")
    else:
        ctx.equal(np.asarray(bg), pix, f"{op}:background",
                  "static background pixels against patterns'")
        ctx.count("backgrounds_compared")


def ref_of(s):
    d = s.detector
    n = int(np.prod(s.axes_manager.navigation_shape)) or 1
    x = s.xmap
    rot = None
    if x is not None:
        rot = np.zeros((n, 4))
        rot[x.prop["tag"].astype(int)] = np.atleast_2d(x.rotations.data)
    return dict(sig=s.axes_manager.signal_shape[::-1], pc=d.pc.reshape(-1, 3).copy(),
                n=n, tilt=d.tilt, azimuthal=d.azimuthal, twist=d.twist,
                sample_tilt=d.sample_tilt, px_size=d.px_size, binning=d.binning,
                tag=None if x is None else x.prop["tag"].astype(int).copy(),
                steps_ok=True, rot=rot)


def _slice(rng, n, kind):
    if kind == "int":
        return int(rng.integers(-n, n))
    if kind == "all":
        return slice(None)
    lo = int(rng.integers(0, n))
    hi = int(rng.integers(lo + 1, n + 1))
    if kind == "range":
        k = rng.integers(4)
        return [slice(lo, hi), slice(None, hi), slice(lo, None), slice(None)][k]
    if kind == "negative":
        k = rng.integers(3)
        if k == 0:
            return slice(lo - n, None)
        if k == 1:
            return slice(None, hi - n) if hi < n else slice(None)
        return slice(lo - n, hi - n) if hi < n else slice(lo - n, None)
    if kind == "over":  # past the end, as NumPy allows
        return slice(lo, n + 3)
    if kind == "step":
        return slice(None, None, int(rng.integers(2, 4)))
    if kind == "reverse":
        return slice(None, None, -1)
    raise KeyError(kind)


KINDS = ["range", "range", "negative", "int", "all", "over", "step", "reverse"]


def _float_slice(ax, sl):
    """The same slice in axis units (HyperSpy floats)."""
    lo, hi, _ = sl.indices(ax.size)
    f = lambda i: float(ax.offset + ax.scale * (i + 0.0))
    return slice(f(lo), None if hi >= ax.size else f(hi), None)


def _setup(ctx, dims=(1, 2, 2), **kw):
    rng = ctx.rng
    nav = gen.nav_shape(rng, dims)
    sig = gen.sig_shape(rng)
    lazy = bool(rng.random() < 0.35)
    s = stamped(rng, nav, sig, lazy=lazy, **kw)
    if lazy:
        ctx.count("lazy_operations")
    ctx.note(nav=nav, sig=sig, lazy=lazy, det_nav=s.detector.navigation_shape)
    ctx.sample(dict(nav=nav, sig=sig, lazy=lazy))
    return rng, nav, sig, lazy, s


@case(60)
def inav(ctx):
    rng, nav, sig, lazy, s = _setup(ctx, hole=False)
    for _ in range(3):
        kinds = [ctx.choice(KINDS) for _ in nav]
        sl = [_slice(rng, n, k) for n, k in zip(nav, kinds)]
        ref = ref_of(s)
        before = s.xmap.prop["tag"].copy()
        use_float = all(isinstance(q, slice) and q.step is None for q in sl) and (
            rng.random() < 0.3)
        q = sl
        if use_float:
            axs = s.axes_manager.navigation_axes[::-1]
            q = [_float_slice(a, i) for a, i in zip(axs, sl)]
        key = tuple(q[::-1]) if len(q) > 1 else q[0]
        ctx.note(op=f"inav[{key}]")
        r = s.inav[key]
        ctx.distinct("inav", kinds, use_float, len(nav), lazy,
                     s.detector.navigation_shape == (1,))
        # the data must be what NumPy indexing of the array gives
        ctx.equal(np.asarray(r.data), np.asarray(s.data)[tuple(sl)], "inav:data", "")
        need = all(k not in ("step", "reverse") for k in kinds)
        judge(ctx, r, ref, "inav-float" if use_float else "inav", need)
        # the original is as it was
        ctx.equal(s.xmap.prop["tag"], before, "inav:original", "xmap")
        judge(ctx, s, ref, "inav-original")


@case(60)
def isig(ctx):
    rng, nav, sig, lazy, s = _setup(ctx, dims=(0, 1, 2))
    for _ in range(3):
        kinds = [ctx.choice([k for k in KINDS if k != "int"]) for _ in sig]
        sl = [_slice(rng, n, k) for n, k in zip(sig, kinds)]
        ref = ref_of(s)
        key = tuple(sl[::-1])
        ctx.note(op=f"isig[{key}]")
        if any(len(range(*i.indices(n))) < 2 for i, n in zip(sl, sig)):
            continue  # HyperSpy makes this a Signal1D
        r = s.isig[key]
        ctx.distinct("isig", kinds, len(nav), lazy, s.detector.navigation_shape == (1,))
        ctx.equal(np.asarray(r.data), np.asarray(s.data)[(...,) + tuple(sl)],
                  "isig:data", "")
        # stepping or reversing one axis keeps the shape readable only if dropped
        need = all(k not in ("step", "reverse") for k in kinds)
        judge(ctx, r, ref, "isig", need)
        judge(ctx, s, ref, "isig-original")


@case(60)
def crop(ctx):
    rng, nav, sig, lazy, s = _setup(ctx, dims=(0, 1, 2))
    ref = ref_of(s)
    d0 = np.asarray(s.data)
    sl = [slice(None)] * d0.ndim
    ax = int(rng.integers(d0.ndim))  # array axis
    n = d0.shape[ax]
    kind = ctx.choice(["range", "negative", "start", "end"])
    if ax < len(nav):
        lo = int(rng.integers(0, n - 1))
        hi = int(rng.integers(lo + 1, n + 1))
    else:
        lo = int(rng.integers(0, n - 2))
        hi = int(rng.integers(lo + 2, n + 1))
    a, b = lo, hi
    if kind == "negative":
        a = lo - n
        b = hi - n if hi < n else None
    elif kind == "start":
        b = None
        hi = n
    elif kind == "end":
        a = None
        lo = 0
    sl[ax] = slice(lo, hi)
    which = ctx.choice(["index", "name", "float"])
    axis = s.axes_manager[
        len(nav) - 1 - ax if ax < len(nav) else len(nav) + (d0.ndim - 1 - ax)]
    ctx.check(axis.index_in_array == ax, "crop:harness", "axis")
    arg = axis.name if which == "name" else s.axes_manager._axes.index(axis)
    arg = axis.name if which == "name" else (
        len(nav) - 1 - ax if ax < len(nav) else len(nav) + (d0.ndim - 1 - ax))
    if which == "float":
        f = lambda i: None if i is None else float(axis.offset + axis.scale * i)
        if a is not None:
            a = f(lo)
        if b is not None:
            b = f(hi) if hi < n else None
    ctx.note(op=f"crop({arg!r}, {a}, {b})", array_axis=ax)
    ctx.distinct("crop", kind, which, len(nav), lazy, ax - d0.ndim,
                 s.detector.navigation_shape == (1,))
    s.crop(arg, a, b)
    ctx.equal(np.asarray(s.data), d0[tuple(sl)], "crop:data", "")
    judge(ctx, s, ref, f"crop-{which}")


@case(30)
def crop_signal(ctx):
    rng, nav, sig, lazy, s = _setup(ctx, dims=(0, 1, 2))
    ref = ref_of(s)
    d0 = np.asarray(s.data)
    out = []
    for n in sig:
        lo = int(rng.integers(0, n - 2))
        hi = int(rng.integers(lo + 2, n + 1))
        out.append((lo, hi))
    (t, b), (l, r) = out
    ctx.note(op=f"crop_signal({t}, {b}, {l}, {r})")
    if rng.random() < 0.3:
        s.crop_signal(top=t, left=l)
        b, r = sig
    else:
        s.crop_signal(t, b, l, r)
    ctx.distinct("crop_signal", len(nav), lazy, t == 0, l == 0)
    ctx.equal(np.asarray(s.data), d0[..., t:b, l:r], "crop_signal:data", "")
    judge(ctx, s, ref, "crop_signal")


@case(80)
def extract_grid(ctx):
    import kikuchipy as kp

    rng = ctx.rng
    dims = int(rng.choice([1, 2, 2]))
    nav = tuple(int(x) for x in rng.integers(3, 14, dims))
    sig = (5, 6)
    lazy = bool(rng.random() < 0.35)
    hole = bool(rng.random() < 0.2)
    s = stamped(rng, nav, sig, lazy=lazy, hole=hole, with_xmap=rng.random() < 0.9)
    ref = ref_of(s)
    grid = tuple(int(rng.integers(1, n + 1)) for n in nav)  # rows, columns
    arg = grid[::-1]
    if dims == 1 and rng.random() < 0.5:
        arg = arg[0]
    ctx.note(nav=nav, grid=grid, lazy=lazy, hole=hole)
    ctx.distinct("extract_grid", nav, grid, lazy)
    r, idx = s.extract_grid(arg, return_indices=True)
    ctx.equal(np.asarray(r.data).shape[:-2], grid, "grid:shape",
              "extracted grid against the asked shape")
    ctx.equal(idx.shape[1:], grid, "grid:indices", "indices' shape")
    if idx.shape[1:] != grid:
        return
    ctx.equal(np.asarray(r.data), np.asarray(s.data)[tuple(idx)], "grid:data", "")
    # evenly spaced, inside the map, distinct
    steps = []
    for d in range(dims):
        line = np.moveaxis(idx[d], d, 0).reshape(grid[d], -1)
        ctx.check((line == line[:, :1]).all(), "grid:regular", "indices not a grid")
        i = line[:, 0]
        ctx.check(i.min() >= 0 and i.max() < nav[d], "grid:inside", f"{i} in {nav[d]}")
        df = np.diff(i)
        ctx.check(len(df) == 0 or (df > 0).all() and len(set(df)) == 1, "grid:even",
                  f"spacing {df}")
        steps.append(int(df[0]) if len(df) else None)
        before, after = i[0], nav[d] - 1 - i[-1]
        ctx.check(abs(before - after) <= 2, "grid:centered",
                  f"{before} points before and {after} after the grid")
    ref["steps_ok"] = not hole
    # orix cannot describe axes of a single point, or missing border points
    judge(ctx, r, ref, "grid", need=min(grid) > 1 and not hole)
    for a, a0, st in zip(r.axes_manager.navigation_axes[::-1],
                         s.axes_manager.navigation_axes[::-1], steps):
        if st:
            ctx.check(np.isclose(a.scale, a0.scale * st), "grid:scale",
                      f"{a.scale}, expected {a0.scale * st}")
    judge(ctx, s, ref, "grid-original")


@case(40)
def rebin(ctx):
    """Binning the pattern pixels or the map."""
    import hyperspy.api as hs

    rng = ctx.rng
    fr, fc = int(rng.choice([1, 2, 3])), int(rng.choice([1, 2, 3]))
    nav = gen.nav_shape(rng, (0, 1, 2))
    what = ctx.choice(["signal", "signal", "map", "both"] if nav else ["signal"])
    if what == "signal" and fr == fc == 1:
        fr = 2
    if what == "map":
        fr = fc = 1
    sig = (int(rng.integers(2, 6)) * fr, int(rng.integers(2, 6)) * fc)
    fn = [1] * len(nav)
    if what != "signal":
        fn = [int(rng.choice([1, 2])) for _ in nav]
        if set(fn) == {1}:
            fn[0] = 2
        nav = tuple(n * f for n, f in zip(nav, fn))
    lazy = bool(rng.random() < 0.3)
    s = gen.signal(rng, nav, sig, "uint8", lazy=lazy)
    b0 = int(rng.choice([1, 2]))
    s.detector.binning = b0
    pc0 = s.detector.pc.copy()
    bg0 = s.static_background.copy()
    d0 = np.asarray(s.data).astype(float)
    scale = fn[::-1] + [fc, fr]
    by_shape = bool(rng.random() < 0.5)
    kw = {}
    dt = ctx.choice([None, "float32", "float64", "uint16"])
    if dt:
        kw["dtype"] = np.dtype(dt).type
    if by_shape:
        new = [n // f for n, f in zip(d0.shape[: len(nav)][::-1], fn[::-1])]
        kw["new_shape"] = new + [sig[1] // fc, sig[0] // fr]
    else:
        kw["scale"] = scale
    ctx.note(nav=nav, sig=sig, kw=kw, lazy=lazy, what=what)
    ctx.distinct("rebin", what, by_shape, dt, lazy, fr, fc, len(nav))
    r = s.rebin(**kw)
    ctx.count("operations")
    out = np.asarray(r.data)
    # sums over the bins
    want = d0
    for axis, f in enumerate(fn + [fr, fc]):
        sh = want.shape
        want = want.reshape(sh[:axis] + (sh[axis] // f, f) + sh[axis + 1:]).sum(axis + 1)
    if out.dtype.kind == "f" or want.max() < 60000:
        if out.dtype != np.uint8:
            ctx.close(out, want, "rebin:data", "sums over bins", rtol=1e-4)
    ny, nx = out.shape[-2:]
    ctx.equal(r.detector.shape, (ny, nx), "rebin:detector-shape", "")
    ctx.equal(r.axes_manager.signal_shape[::-1], (ny, nx), "rebin:axes", "")
    if fr == fc:
        ctx.check(r.detector.binning == b0 * fr, "rebin:binning",
                  f"{r.detector.binning}, expected {b0 * fr}")
    if set(fn) == {1}:
        ctx.check(r.xmap is None or (r.xmap.prop["tag"] == s.xmap.prop["tag"]).all(),
                  "rebin:xmap", "")
        ctx.check((r.xmap is None) == (s.xmap is None), "rebin:xmap-lost", "")
        ctx.close(r.detector.pc, pc0, "rebin:pc", "PC of a binned pattern")
        ctx.count("pcs_compared")
        if ctx.check(r.static_background is not None, "rebin:bg-lost", ""):
            bg = r.static_background
            ctx.equal(bg.shape, (ny, nx), "rebin:bg-shape", "")
            b = bg0.astype(float).reshape(ny, fr, nx, fc).sum((1, 3))
            if out.dtype != np.uint8 and bg.shape == b.shape:
                ctx.close(bg, b, "rebin:bg", "", rtol=1e-4)
                ctx.count("backgrounds_compared")
    else:
        ctx.check(r.detector.navigation_shape in ((1,), out.shape[:-2]),
                  "rebin:pc-shape", f"{r.detector.navigation_shape}")
        if r.xmap is not None:
            ctx.equal(r.xmap.shape, out.shape[:-2], "rebin:xmap-shape", "")
    ctx.equal(s.detector.pc, pc0, "rebin:original", "PC")
    ctx.equal(s.detector.shape, sig, "rebin:original", "detector shape")
    ctx.check(s.detector.binning == b0, "rebin:original", "binning")
    ctx.equal(s.static_background, bg0, "rebin:original", "background")


@case(50)
def chain(ctx):
    """Sequences of operations: nothing may drift."""
    rng, nav, sig, lazy, s = _setup(ctx, dims=(1, 2))
    ref = ref_of(s)
    log = []
    for _ in range(int(rng.integers(3, 7))):
        d = s.data.shape
        nd = len(d) - 2
        op = ctx.choice(["inav", "isig", "crop", "crop_signal", "deepcopy", "lazy",
                         "compute", "dtype", "save"])
        if op == "inav" and nd:
            sl = []
            for n in d[:nd]:
                lo = int(rng.integers(0, n))
                sl.append(slice(lo, int(rng.integers(lo + 1, n + 1))))
                if rng.random() < 0.2:
                    sl[-1] = int(rng.integers(0, n))
            s = s.inav[tuple(sl[::-1]) if nd > 1 else sl[0]]
            log.append(f"inav{sl}")
        elif op in ("isig", "crop_signal"):
            sl = []
            for n in d[-2:]:
                lo = int(rng.integers(0, max(n - 2, 1)))
                sl.append((lo, int(rng.integers(min(lo + 2, n), n + 1))))
            if any(b - a < 2 for a, b in sl):
                continue
            (t, b), (l, r) = sl
            if op == "isig":
                s = s.isig[l:r, t:b]
            else:
                s.crop_signal(t, b, l, r)
            log.append(f"{op}{sl}")
        elif op == "crop" and nd:
            n = d[nd - 1]
            if n < 2:
                continue
            lo = int(rng.integers(0, n - 1))
            hi = int(rng.integers(lo + 1, n + 1))
            s.crop(0, lo, hi)
            log.append(f"crop(0,{lo},{hi})")
        elif op == "deepcopy":
            old = s
            s = s.deepcopy()
            old.detector.pc = old.detector.pc * 0 + 0.11
            if old.xmap is not None:
                old.xmap.prop["tag"][...] = -1
            if isinstance(old.static_background, np.ndarray):
                old.static_background[...] = -1
            log.append(op)
        elif op == "lazy" and not s._lazy:
            s = s.as_lazy()
            log.append(op)
        elif op == "compute" and s._lazy:
            s.compute(show_progressbar=False)
            log.append(op)
        elif op == "dtype":
            s.change_dtype("int32" if s.data.dtype != np.int32 else "float64")
            log.append(op)
        else:
            continue
        ctx.note(chain=log)
        judge(ctx, s, ref, "chain")
    ctx.count("chains")
    ctx.distinct("chain", [q.split("(")[0].split("[")[0] for q in log])


@case(30)
def setters(ctx):
    """Attributes that do not fit the patterns are not accepted."""
    rng, nav, sig, lazy, s = _setup(ctx)
    det = gen.detector(rng, (sig[0] + 1, sig[1]))
    keep = s.detector
    ctx.raises(ValueError, lambda: setattr(s, "detector", det), "setter:detector-shape")
    ctx.check(s.detector is keep, "setter:detector-kept")
    if len(nav) == 2:
        det = gen.detector(rng, sig, nav[::-1])
        ctx.raises(ValueError, lambda: setattr(s, "detector", det), "setter:detector-nav")
        x = gen.xmap(rng, nav[::-1], steps=[1, 1])
    else:
        x = gen.xmap(rng, (nav[0] + 1,), steps=[1])
    keep = s.xmap
    ctx.raises(ValueError, lambda: setattr(s, "xmap", x), "setter:xmap")
    ctx.check(s.xmap is keep, "setter:xmap-kept")
    s.detector = gen.detector(rng, sig, nav if rng.random() < 0.5 else None)
    ctx.check(s.detector.shape == sig, "setter:detector-ok")
    ctx.distinct("setters", len(nav), lazy)
