"""Virtual backscatter electron images are sums over the detector regions shown."""

import warnings

import numpy as np

from kpmon import gen
from kpmon.core import case

PROPERTY = "G02"
RULE = ("one evaluation = one image (virtual image, grid of images, colour image, grid "
        "markers) of generated patterns compared to sums over detector pixels; distinct "
        "= kind x map dimension x data type x laziness x grid evenness x axes offset")
REQUIRED = {"images": 25, "rect": 12, "circle": 7, "grids": 30, "even": 12, "uneven": 12,
            "refused": 20, "rgb": 20, "markers": 200}
ASSUMPTIONS = ["HyperSpy's regions of interest are as documented"]


def warm():
    pass


def make(ctx, dtypes=("uint8", "uint8", "uint16", "float32", "int16"), dims=(0, 1, 2)):
    r = ctx.rng
    nav = gen.nav_shape(r, dims)
    sig = gen.sig_shape(r, 5, 24)
    dtype = str(r.choice(dtypes))
    lazy = bool(r.random() < 0.4)
    p = gen.patterns(r, nav, sig, dtype)
    s = gen.signal(r, nav, sig, dtype, lazy, data=p)
    for a in s.axes_manager.signal_axes:
        a.scale = float(r.uniform(0.3, 4))  # not necessarily square pixels
    off = str(r.choice(["none", "none", "sliced", "axis"]))
    if off == "sliced":
        a, b = (int(q) for q in r.integers(0, 3, 2))
        c, d = (int(r.integers(max(x + 5, n - 2), n + 1)) if x + 5 < n else n
                for x, n in ((a, sig[0]), (b, sig[1])))
        s = s.isig[b:d, a:c]
        p = p[..., a:c, b:d]
    elif off == "axis":
        for a in s.axes_manager.signal_axes:
            a.offset = float(r.uniform(-30, 30))
    return s, p, off, lazy


def rect(s, r0, r1, c0, c1):
    import hyperspy.api as hs

    x, y = s.axes_manager.signal_axes
    return hs.roi.RectangularROI(
        left=x.offset + c0 * x.scale, right=x.offset + c1 * x.scale,
        top=y.offset + r0 * y.scale, bottom=y.offset + r1 * y.scale)


def arr(x):
    x = x.data if hasattr(x, "axes_manager") else x
    return np.asarray(x)


def axes_of_map(ctx, im, s, key):
    a, b = list(im.axes_manager.signal_axes), list(s.axes_manager.navigation_axes)
    ctx.check(len(a) >= len(b), key + "-axes", "signal axes of the image")
    for q, w in zip(a, b):
        ctx.check((q.size, q.name, q.units) == (w.size, w.name, w.units)
                  and np.isclose(q.scale, w.scale) and np.isclose(q.offset, w.offset),
                  key + "-axes", f"image axis {q}, map axis {w}")


@case(quick=60)
def intensity(ctx):
    """Sum of the pixels in a rectangle (or circle) of each pattern."""
    import hyperspy.api as hs

    r = ctx.rng
    s, p, off, lazy = make(ctx)
    p0 = p.copy()
    ny, nx = p.shape[-2:]
    kind = str(r.choice(["rect", "rect", "circle"]))
    if kind == "rect":
        r0, c0 = int(r.integers(0, ny)), int(r.integers(0, nx))
        r1, c1 = int(r.integers(r0 + 1, ny + 1)), int(r.integers(c0 + 1, nx + 1))
        roi = rect(s, r0, r1, c0, c1)
        want = np.sum(p[..., r0:r1, c0:c1].astype(np.float64), axis=(-2, -1))
    else:
        x, y = s.axes_manager.signal_axes
        cy, cx = y.offset + ny * y.scale / 2.3, x.offset + nx * x.scale / 2.1
        roi = hs.roi.CircleROI(cx, cy, min(ny * y.scale, nx * x.scale) * 0.4)
        want = np.asarray(roi(s, axes=s.axes_manager.signal_axes).data, float)
        want = np.nansum(want, axis=(-2, -1))
    im = s.get_virtual_bse_intensity(roi)
    got = arr(im)
    if lazy:
        ctx.check(im._lazy, "lazy", "image of a lazy signal is lazy")
    if p.ndim == 4:
        ctx.check("VirtualBSEImage" in type(im).__name__, "class",
                  type(im).__name__)
    ctx.close(np.squeeze(got), want, "sum-" + kind, f"sum over the {kind}", rtol=2e-5,
              atol=1e-2 if p.dtype.kind == "f" else 0)
    ctx.equal(arr(s), p0, "unchanged", "patterns after imaging")
    if p.ndim > 2:
        axes_of_map(ctx, im, s, "image")
    ctx.count("images")
    ctx.count(kind)
    ctx.distinct("intensity", kind, p.ndim, str(p.dtype), lazy, off)


@case(quick=80)
def grid(ctx):
    """Tiles: each detector pixel is in exactly one of them."""
    import kikuchipy as kp

    r = ctx.rng
    s, p, off, lazy = make(ctx, dims=(1, 2, 2))
    ny, nx = p.shape[-2:]
    im = kp.imaging.VirtualBSEImager(s)
    if r.random() < 0.3:
        g = im.grid_shape
        ctx.check(tuple(g) == (min(5, ny), min(5, nx)), "default-grid", f"grid {g}")
    else:
        if r.random() < 0.5:
            dy = [k for k in range(1, ny + 1) if ny % k == 0]
            dx = [k for k in range(1, nx + 1) if nx % k == 0]
            g = (int(r.choice(dy)), int(r.choice(dx)))
        else:
            g = (int(r.integers(1, min(ny, 8) + 1)), int(r.integers(1, min(nx, 8) + 1)))
        im.grid_shape = g
    even = ny % g[0] == 0 and nx % g[1] == 0
    key = ("even" if even else "uneven") + ("" if off == "none" else "-offset")
    ctx.close(im.grid_rows, np.arange(g[0] + 1) * ny / g[0], "rows", "grid rows")
    ctx.close(im.grid_cols, np.arange(g[1] + 1) * nx / g[1], "cols", "grid columns")
    with warnings.catch_warnings():
        warnings.simplefilter("error", RuntimeWarning)
        out = im.get_images_from_grid(dtype_out="float64")
    got = arr(out)
    nav = p.shape[:-2]
    ctx.check(got.shape == tuple(g) + nav, "grid-shape", f"images of shape {got.shape}")
    pf = p.astype(np.float64)
    total = pf.sum(axis=(-2, -1))
    tol = dict(rtol=2e-5, atol=1e-2 if p.dtype.kind == "f" else 0)
    ctx.close(got.sum(axis=(0, 1)), total, "conserved-" + key,
              f"sum of the {g} tiles of ({ny}, {nx}) pixels", **tol)
    # Borders of tiles in whole pixels
    rb, cb = (np.round(np.arange(n + 1) * k / n).astype(int)
              for n, k in zip(g, (ny, nx)))
    if even:
        want = np.array([[pf[..., rb[i]:rb[i + 1], cb[j]:cb[j + 1]].sum(axis=(-2, -1))
                          for j in range(g[1])] for i in range(g[0])])
        ctx.close(got, want, "tiles-" + key, "tiles", **tol)
        ctx.count("even")
    else:
        # No tile farther than one pixel from its share of the detector
        for i, j in np.ndindex(*g):
            a = [int(np.ceil(i * ny / g[0])), int(np.floor((i + 1) * ny / g[0])),
                 int(np.ceil(j * nx / g[1])), int(np.floor((j + 1) * nx / g[1]))]
            b = [a[0] - 1, a[1] + 1, a[2] - 1, a[3] + 1]
            b = [max(b[0], 0), min(b[1], ny), max(b[2], 0), min(b[3], nx)]
            hi = pf[..., b[0]:b[1], b[2]:b[3]]
            lo = pf[..., a[0]:a[1], a[2]:a[3]]
            if pf.min() >= 0:
                v = got[i, j]
                e = 1e-4 * (1 + np.abs(v))
                ctx.check(np.all(v >= lo.sum(axis=(-2, -1)) - e)
                          and np.all(v <= hi.sum(axis=(-2, -1)) + e), "tile-" + key,
                          f"tile ({i}, {j}) holds pixels outside its share")
        ctx.count("uneven")
    if p.ndim > 2:
        axes_of_map(ctx, out, s, "grid")
    # One tile, and a block of them
    i, j = int(r.integers(0, g[0])), int(r.integers(0, g[1]))
    one = arr(s.get_virtual_bse_intensity(im.roi_from_grid((i, j))))
    ctx.close(np.squeeze(one), np.squeeze(got[i, j]), "tile-alone-" + key, "one tile",
              **tol)
    i2, j2 = int(r.integers(i, g[0])), int(r.integers(j, g[1]))
    block = [(int(a), int(b)) for a in range(i, i2 + 1) for b in range(j, j2 + 1)]
    order = r.permutation(len(block))
    block = [block[k] for k in order]
    many = arr(s.get_virtual_bse_intensity(im.roi_from_grid(block)))
    ctx.close(np.squeeze(many), got[i:i2 + 1, j:j2 + 1].sum(axis=(0, 1)),
              "block-" + key, f"tiles {block} at once", **tol)
    ctx.count("grids")
    ctx.distinct("grid", p.ndim, str(p.dtype), lazy, even, off, g[0] == 1, g[1] == 1)


@case(quick=12)
def grid_refused(ctx):
    import kikuchipy as kp

    r = ctx.rng
    s, p, off, lazy = make(ctx)
    im = kp.imaging.VirtualBSEImager(s)
    g = im.grid_shape
    ny, nx = p.shape[-2:]
    for bad in [(ny + 1, 1), (1, nx + 1), (2,), (1, 1, 1)]:
        def put(bad=bad):
            im.grid_shape = bad

        ctx.raises(ValueError, put, "grid-refused", f"grid {bad} of ({ny}, {nx})")
    ctx.check(im.grid_shape == g, "grid-kept", "grid after a refused one")
    ctx.count("refused", 4)


@case(quick=60)
def rgb(ctx):
    """Colour images: each channel from its regions, stretched as documented."""
    import kikuchipy as kp

    r = ctx.rng
    s, p, off, lazy = make(ctx, dims=(2,))
    ny, nx = p.shape[-2:]
    nav = p.shape[:-2]
    im = kp.imaging.VirtualBSEImager(s)
    dy = [k for k in range(1, ny + 1) if ny % k == 0]
    dx = [k for k in range(1, nx + 1) if nx % k == 0]
    g = (int(r.choice(dy)), int(r.choice(dx)))
    im.grid_shape = g
    th, tw = ny // g[0], nx // g[1]
    pf = p.astype(np.float64)
    args, chans = [], []
    for _ in range(3):
        k = int(r.integers(1, 4))
        img = np.zeros(nav)
        lst = []
        for _ in range(k):
            i, j = int(r.integers(0, g[0])), int(r.integers(0, g[1]))
            if r.random() < 0.5:
                lst.append((i, j))
            else:
                lst.append(rect(s, i * th, (i + 1) * th, j * tw, (j + 1) * tw))
            img = img + pf[..., i * th:(i + 1) * th, j * tw:(j + 1) * tw].sum(
                axis=(-2, -1))
        args.append(lst[0] if k == 1 and r.random() < 0.7 else lst)
        chans.append(img)
    dt = str(r.choice(["uint8", "uint8", "uint16"]))
    top = np.iinfo(dt).max
    kw = dict(dtype_out=dt)
    norm = bool(r.random() < 0.7)
    if not norm:
        kw["normalize"] = False
    bright, contrast = 0, 1.0
    if norm and r.random() < 0.5:
        bright = int(r.integers(-top // 8, top // 8))
        contrast = float(r.uniform(0.5, 1.5))
        kw.update(add_bright=bright, contrast=contrast)
    alpha = None
    if r.random() < 0.4:
        alpha = r.random(nav) * r.uniform(0.5, 30) + r.uniform(-3, 3)
        kw["alpha"] = alpha.copy()
        if r.random() < 0.4:
            kw["alpha"] = kp.signals.VirtualBSEImage(alpha.copy())
    pct = None
    if r.random() < 0.4:
        pct = (float(r.uniform(0, 5)), float(r.uniform(90, 100)))
        kw["percentiles"] = pct
    want = np.zeros(nav + (3,))
    for i, c in enumerate(chans):
        if norm:
            sd = np.std(c)
            if sd < 1e-9 * (1 + abs(c).max()):
                ctx.count("flat_channels")
                return
            c = np.clip(top // 2 + bright + contrast * top * 0.3125
                        * (c - np.median(c)) / sd, 0, top)
        want[..., i] = c
    if alpha is not None:
        want *= ((alpha - alpha.min()) / np.ptp(alpha))[..., None]
    lo, hi = (np.percentile(want, pct) if pct else (want.min(), want.max()))
    if hi - lo < 1e-3 * (1 + np.abs(want).max()):
        return
    want = np.clip((want - lo) / (hi - lo), 0, 1) * top
    out = im.get_rgb_image(*args, **kw)
    got = arr(out)
    ctx.check(got.dtype.names == ("R", "G", "B"), "rgb-fields", f"{got.dtype}")
    got = np.stack([got[k] for k in "RGB"], axis=-1)
    ctx.check(got.dtype == np.dtype(dt), "rgb-dtype", f"{got.dtype}")
    if ctx.check(got.shape == want.shape, "rgb-shape", f"{got.shape}, {want.shape}"):
        ctx.close(got.astype(float), want, "rgb", f"colours ({sorted(kw)})", rtol=0,
                  atol=1 + 1e-4 * top)
    axes_of_map(ctx, out, s, "rgb")
    if alpha is not None:
        ctx.equal(arr(kw["alpha"]), alpha, "alpha-unchanged", "alpha passed")
    ctx.count("rgb")
    ctx.distinct("rgb", dt, norm, pct is None, alpha is None, lazy, len(nav), off)


@case(quick=20)
def markers(ctx):
    """The grid shown on a pattern is the grid used."""
    import kikuchipy as kp

    r = ctx.rng
    s, p, off, lazy = make(ctx, dims=(1, 2))
    ny, nx = p.shape[-2:]
    im = kp.imaging.VirtualBSEImager(s)
    dy = [k for k in range(1, ny + 1) if ny % k == 0]
    dx = [k for k in range(1, nx + 1) if nx % k == 0]
    g = (int(r.choice(dy)), int(r.choice(dx)))
    im.grid_shape = g
    th, tw = ny // g[0], nx // g[1]
    pick = [(int(r.integers(0, g[0])), int(r.integers(0, g[1]))) for _ in range(3)]
    pat = im.plot_grid(rgb_channels=pick if r.random() < 0.5 else [[q] for q in pick],
                       visible_indices=True)
    x, y = s.axes_manager.signal_axes
    ms = list(pat.metadata.Markers.as_dictionary().values()) if hasattr(
        pat.metadata, "Markers") else []
    ms = [m for _, m in pat.metadata.Markers]
    by = {}
    for m in ms:
        by.setdefault(type(m).__name__, []).append(m)
    rows = y.offset + (np.arange(g[0] + 1) * th - 0.5) * y.scale
    cols = x.offset + (np.arange(g[1] + 1) * tw - 0.5) * x.scale
    key = "" if off == "none" else "-offset"

    def offsets(m):
        return np.asarray(m.get_current_kwargs()["offsets"], float)

    h = np.asarray(by["HorizontalLines"][0].kwargs["offsets"], float).ravel()
    v = np.asarray(by["VerticalLines"][0].kwargs["offsets"], float).ravel()
    ctx.close(np.sort(h), rows, "lines" + key, "horizontal lines at tile borders")
    ctx.close(np.sort(v), cols, "lines" + key, "vertical lines at tile borders")
    t = by["Texts"][0]
    to = np.asarray(t.kwargs["offsets"], float)
    texts = list(np.asarray(t.kwargs["texts"]).ravel())
    for (cx, cy), txt in zip(to, texts):
        i, j = (int(q) for q in txt.strip("()").split(","))
        ctx.check(rows[i] - 1e-6 <= cy <= rows[i + 1] + 1e-6
                  and cols[j] - 1e-6 <= cx <= cols[j + 1] + 1e-6, "text" + key,
                  f"label {txt} at ({cx}, {cy}) not in its tile")
    for m, (i, j) in zip(by["Rectangles"], pick):
        o = np.asarray(m.kwargs["offsets"], float).ravel()
        w = float(np.ravel(m.kwargs["widths"])[0])
        hh = float(np.ravel(m.kwargs["heights"])[0])
        ctx.close([o[0] - w / 2, o[0] + w / 2, o[1] - hh / 2, o[1] + hh / 2],
                  [cols[j], cols[j + 1], rows[i], rows[i + 1]], "rectangle" + key,
                  f"rectangle of tile ({i}, {j})", rtol=1e-6, atol=1e-6)
    ctx.count("markers", 2 + len(texts) + 3)
    ctx.distinct("markers", off, g[0] == g[1])
