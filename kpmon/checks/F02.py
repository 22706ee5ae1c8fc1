"""Patterns and parameters in vendors' files are read as they were measured."""

import os
import warnings

import numpy as np

from kpmon import gen, vendors
from kpmon.checks.B01 import to_bruker
from kpmon.core import case

PROPERTY = "F02"
RULE = ("one evaluation = one part (pattern of a map point, axes, projection centers, "
        "angles, background, coordinates) of a signal read from a file written by an "
        "independent writer of the vendor's format; distinct = format x version x "
        "layout x data type x read lazily or not")
REQUIRED = {"patterns": 2200, "axes": 220, "detectors": 140, "pcs": 700, "roi": 25,
            "whole": 10, "backgrounds": 60, "several_scans": 12, "lazily_read": 120,
            "rejected": 8, "given_shape": 8, "ebsp_shuffled": 20, "ebsp_missing": 8,
            "large": 2, "directory_maps": 8, "directory_names": 5, "truncated": 15,
            "truncated_h5": 9, "calibration": 18, "maps": 20, "master_patterns": 80,
            "energies": 30}
ASSUMPTIONS = [
    "the formats are as described in the documentation and example files of the package"
]


def warm():
    pass


def load(ctx, path, *, quiet=(), **kw):
    import kikuchipy as kp

    lazy = bool(ctx.rng.random() < 0.5)
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        for m in quiet:
            warnings.filterwarnings("ignore", message=m)
        warnings.filterwarnings("ignore", category=DeprecationWarning)
        warnings.filterwarnings("ignore", category=ResourceWarning)
        s = kp.load(path, lazy=lazy, **kw)
    for q in s if isinstance(s, list) else [s]:
        ctx.check(q._lazy == lazy, "lazy", "lazy signal only if asked for")
    ctx.count("lazily_read", lazy)
    return s, lazy


def same_patterns(ctx, s, want, key, msg="patterns"):
    want = np.asarray(want)
    got = np.asarray(s.data)
    ctx.check(got.dtype == want.dtype, key + "-dtype",
              f"data type {got.dtype}, expected {want.dtype}")
    ctx.equal(got, want, key + "-patterns", msg)
    ctx.count("patterns", int(np.prod(want.shape[:-2])) if want.ndim > 2 else 1)


def same_axes(ctx, s, names, scales, key):
    ax = s.axes_manager._axes
    ctx.check([a.name for a in ax] == names, key + "-axes-names",
              f"axes {[a.name for a in ax]}, expected {names}")
    ctx.close([a.scale for a in ax], scales, key + "-axes-scales",
              f"axes scales of {names}", rtol=1e-6)
    ctx.check(len(s.axes_manager.navigation_axes) == len(names) - 2, key + "-nav",
              "number of navigation axes")
    ctx.count("axes")


def same_detector(ctx, s, key, pc, **angles):
    d = s.detector
    ctx.check(tuple(d.shape) == s.data.shape[-2:], key + "-det-shape",
              f"detector shape {d.shape}")
    if pc is not None:
        got = np.asarray(d.pc)
        pc = np.asarray(pc, float)
        ctx.check(got.size == pc.size, key + "-pc-number",
                  f"PCs of shape {got.shape}, expected {pc.shape}")
        if got.size == pc.size:
            ctx.close(got.reshape(-1, 3), pc.reshape(-1, 3), key + "-pc",
                      "projection centers in map order", rtol=1e-5, atol=1e-6)
        ctx.count("pcs", got.size // 3)
    for k, v in angles.items():
        g = getattr(d, k)
        ctx.check(np.isclose(g, v, rtol=1e-5, atol=1e-5), key + "-" + k,
                  f"detector {k} {g}, expected {v}")
    ctx.count("detectors")


def nav_steps(rng):
    k = int(rng.integers(0, 8))
    if k < 5:
        ny, nx = int(rng.integers(2, 6)), int(rng.integers(2, 6))
        if ny == nx:
            ny += 1
    elif k == 5:
        ny, nx = 1, int(rng.integers(2, 7))
    elif k == 6:
        ny, nx = int(rng.integers(2, 7)), 1
    else:
        ny = nx = 1
    dy, dx = (float(np.float32(x)) for x in rng.uniform(0.1, 3, 2))
    return ny, nx, dy, dx


def squeezed(ny, nx, dy, dx, px):
    names = (["y"] if ny > 1 else []) + (["x"] if nx > 1 else []) + ["dy", "dx"]
    scales = ([dy] if ny > 1 else []) + ([dx] if nx > 1 else []) + [px, px]
    shape = tuple(n for n in (ny, nx) if n > 1)
    return names, scales, shape


def same_map(ctx, s, ny, nx, dy, dx, key):
    x = s.xmap
    ctx.check(x.size == ny * nx, key + "-xmap", f"crystal map of {x.size} points")
    if ny > 1 and nx > 1:
        ctx.check(x.shape == (ny, nx), key + "-xmap-shape", f"crystal map {x.shape}")
        ctx.close([x.dy, x.dx], [dy, dx], key + "-xmap-step", "steps", rtol=1e-6)


def some_scans(ctx, make, prefix):
    """One to three scans in a file; which to read and how they are named."""
    r = ctx.rng
    n = int(r.choice([1, 1, 2, 3]))
    names = [f"{prefix}{i}" for i in range(n)]
    return {k: make() for k in names}


def read_scans(ctx, path, scans, **kw):
    """Read the first, a named, or several named scans."""
    r = ctx.rng
    names = list(scans)
    k = int(r.integers(0, 3))
    if k == 0:
        s, lazy = load(ctx, path, **kw)
        return [(scans[names[0]], s)], lazy
    if k == 1 or len(names) == 1:
        pick = names[int(r.integers(0, len(names)))]
        s, lazy = load(ctx, path, scan_group_names=pick, **kw)
        return [(scans[pick], s)], lazy
    pick = [names[i] for i in r.permutation(len(names))[: int(r.integers(2, len(names)
                                                                         + 1))]]
    s, lazy = load(ctx, path, scan_group_names=pick, **kw)
    ctx.check(isinstance(s, list) and len(s) == len(pick), "scans", "number of scans")
    ctx.count("several_scans")
    return list(zip([scans[p] for p in pick], s)), lazy


def pcs_of(rng, n):
    return np.column_stack([rng.uniform(0.3, 0.7, n), rng.uniform(0.1, 0.5, n),
                            rng.uniform(0.4, 0.8, n)]).astype(np.float32)


@case(quick=70)
def bruker(ctx):
    r = ctx.rng
    dtype = str(r.choice(["uint8", "uint8", "uint16"]))
    kinds = []

    def make():
        ny, nx, dy, dx = nav_steps(r)
        sig = gen.sig_shape(r, 5, 15)
        roi = str(r.choice(["whole", "roi", "roi"]))
        kinds.append(roi)
        s = dict(ny=ny, nx=nx)
        n = ny * nx
        if roi != "whole":
            oy, ox = (int(x) for x in r.integers(0, 20, 2))
            s["iy"], s["ix"] = (q.ravel() for q in np.mgrid[oy:oy + ny, ox:ox + nx])
            s["ny"], s["nx"] = oy + ny + 3, ox + nx + 2
        order = r.permutation(n) if roi != "whole" else np.arange(n)
        p = gen.patterns(r, (n,), sig, dtype)
        pc = pcs_of(r, n)
        s["map"], s["map_pc"] = p, pc
        s["patterns"], s["pcs"] = p[order], pc[order]
        if "iy" in s:
            s["iy"], s["ix"] = s["iy"][order], s["ix"][order]
        full = float(r.integers(1000, 30000))
        s["px"] = full / (2 * sig[0])
        s["header"] = dict(
            CameraTilt=float(r.uniform(-10, 15)), SampleTilt=float(r.uniform(60, 75)),
            DetectorFullHeightMicrons=np.int32(full),
            UnClippedPatternHeight=np.int32(2 * sig[0]), KV=float(r.uniform(5, 30)),
            Magnification=float(r.integers(50, 900)), WD=float(r.uniform(5, 30)),
            XSTEP=dx, YSTEP=dy, OriginalFile="/a/home/for/your/data.h5",
        )
        if r.random() < 0.7:
            s["bg"] = gen.patterns(r, (), sig, "uint16", full=True)
            if r.random() < 0.3:
                s["bg"] = s["bg"][None]  # (1, sy, sx)
        s["steps"] = (ny, nx, dy, dx)
        return s

    scans = some_scans(ctx, make, "Scan ")
    path = os.path.join(ctx.tmp, "b.h5")
    vendors.bruker(path, r, scans)
    got, lazy = read_scans(ctx, path, scans)
    for w, s in got:
        ny, nx, dy, dx = w["steps"]
        names, scales, shape = squeezed(ny, nx, dy, dx, w["px"])
        h = w["header"]
        key = "bruker-roi" if "iy" in w else "bruker"
        same_patterns(ctx, s, w["map"].reshape(shape + w["map"].shape[1:]), key)
        same_axes(ctx, s, names, scales, key)
        same_detector(ctx, s, key, w["map_pc"], tilt=h["CameraTilt"],
                      sample_tilt=h["SampleTilt"], px_size=w["px"])
        same_map(ctx, s, ny, nx, dy, dx, key)
        if w.get("bg") is not None:
            ctx.equal(np.asarray(s.static_background), np.squeeze(w["bg"]),
                      key + "-bg", "static background")
            ctx.count("backgrounds")
        else:
            ctx.check(s.static_background is None, key + "-no-bg", "background made up")
        m = s.metadata.Acquisition_instrument.SEM
        ctx.close([m.beam_energy, m.magnification, m.working_distance],
                  [h["KV"], h["Magnification"], h["WD"]], key + "-sem", "microscope")
        ctx.count("roi" if "iy" in w else "whole")
        ctx.distinct("bruker", key, dtype, lazy, len(shape))


@case(quick=8)
def bruker_unsupported(ctx):
    """Regions that are no rectangle, other grids: an error, not a wrong map."""
    import kikuchipy as kp

    r = ctx.rng
    sig = gen.sig_shape(r, 5, 9)
    ny, nx = 3, 4
    iy, ix = (q.ravel() for q in np.mgrid[2:2 + ny, 5:5 + nx])
    keep = np.ones(ny * nx, bool)
    kind = str(r.choice(["hole", "corner", "grid"]))
    if kind == "hole":
        keep[5] = False
    elif kind == "corner":
        keep[[0, 11]] = False
    n = int(keep.sum())
    s = dict(ny=9, nx=9, iy=iy[keep], ix=ix[keep], pcs=pcs_of(r, n),
             patterns=gen.patterns(r, (n,), sig, "uint8"),
             header=dict(XSTEP=1.0, YSTEP=1.0),
             grid="hexagonal" if kind == "grid" else "isometric")
    path = os.path.join(ctx.tmp, "b.h5")
    vendors.bruker(path, r, {"Scan 0": s})
    ctx.raises(OSError if kind == "grid" else ValueError, lambda: kp.load(path),
               "bruker-" + kind, f"Bruker file with {kind}")
    ctx.count("rejected")


@case(quick=40)
def edax_h5(ctx):
    r = ctx.rng
    dtype = str(r.choice(["uint8", "uint8", "uint16"]))

    def make():
        ny, nx, dy, dx = nav_steps(r)
        sig = gen.sig_shape(r, 5, 15)
        h = {"Step Y": dy, "Step X": dx, "Working Distance": r.uniform(5, 30),
             "Camera Elevation Angle": r.uniform(-10, 15),
             "Camera Azimuthal Angle": r.uniform(-10, 15),
             "Sample Tilt": r.uniform(60, 75)}
        return dict(ny=ny, nx=nx, steps=(ny, nx, dy, dx), header=h,
                    patterns=gen.patterns(r, (ny * nx,), sig, dtype),
                    pc=pcs_of(r, 1)[0], mag=int(r.integers(50, 900)))

    scans = some_scans(ctx, make, "Scan ")
    path = os.path.join(ctx.tmp, "e.h5")
    vendors.edax_h5(path, r, scans)
    got, lazy = read_scans(ctx, path, scans)
    for w, s in got:
        names, scales, shape = squeezed(*w["steps"], 1.0)
        h = w["header"]
        sig = w["patterns"].shape[1:]
        same_patterns(ctx, s, w["patterns"].reshape(shape + sig), "edax-h5")
        same_axes(ctx, s, names, scales, "edax-h5")
        same_detector(ctx, s, "edax-h5", to_bruker("tsl", w["pc"], sig, 1, 1),
                      tilt=h["Camera Elevation Angle"], sample_tilt=h["Sample Tilt"],
                      azimuthal=h["Camera Azimuthal Angle"])
        same_map(ctx, s, *w["steps"], "edax-h5")
        m = s.metadata.Acquisition_instrument.SEM
        ctx.close([m.magnification, m.working_distance],
                  [w["mag"], h["Working Distance"]], "edax-h5-sem", "microscope",
                  rtol=1e-6)
        ctx.distinct("edax_h5", dtype, lazy, len(shape))


@case(quick=50)
def oxford_h5(ctx):
    r = ctx.rng
    dtype = str(r.choice(["uint8", "uint8", "uint16"]))
    version = str(r.choice(["5.0", "6.0", "7.0", "8.1", "10.0"]))
    which = str(r.choice(["both", "both", "processed", "unprocessed"]))
    processed = True if which == "processed" else (
        False if which == "unprocessed" else bool(r.random() < 0.5))

    def make():
        ny, nx, dy, dx = nav_steps(r)
        sig = gen.sig_shape(r, 5, 15)
        n = ny * nx
        mode, binning = [("Resolution (1244x1024 px)", 1), ("Speed 1 (622x512 px)", 2),
                         ("Speed 2 (156x128 px)", 8), ("Speed 2 (156x88 px)", 8),
                         ("Fast", 1)][int(r.integers(0, 5))]
        h = {
            "Beam Voltage": float(np.float32(r.uniform(5, 30))),
            "Magnification": float(r.integers(50, 900)),
            "Working Distance": float(r.uniform(5, 30)),
            "X Step": dx, "Y Step": dy, "Tilt Angle": float(r.uniform(1.0, 1.3)),
            "Detector Orientation Euler": np.array([0.1, r.uniform(1.4, 1.8), 0.0]),
            ("Camera Mode" if float(version) >= 7 else "Camera Binning Mode"): mode,
        }
        s = dict(ny=ny, nx=nx, steps=(ny, nx, dy, dx), header=h, pcs=pcs_of(r, n),
                 binning=binning)
        for k in ("processed", "unprocessed"):
            if which in (k, "both"):
                s[k] = gen.patterns(r, (n,), sig, dtype)
        if r.random() < 0.7:
            s["bg"] = gen.patterns(r, (), sig, dtype, full=True)
        return s

    scans = some_scans(ctx, make, "")
    path = os.path.join(ctx.tmp, "o.h5oina")
    vendors.oxford_h5(path, r, scans, version)
    kw = {} if processed and r.random() < 0.5 else dict(processed=processed)
    got, lazy = read_scans(ctx, path, scans, **kw)
    for w, s in got:
        names, scales, shape = squeezed(*w["steps"], 1.0)
        h = w["header"]
        p = w["processed" if processed else "unprocessed"]
        sig = p.shape[1:]
        same_patterns(ctx, s, p.reshape(shape + sig), "oxford-h5")
        same_axes(ctx, s, names, scales, "oxford-h5")
        same_detector(
            ctx, s, "oxford-h5", to_bruker("oxford", w["pcs"], sig, 1, 1),
            tilt=np.rad2deg(h["Detector Orientation Euler"][1]) - 90,
            sample_tilt=np.rad2deg(h["Tilt Angle"]), binning=w["binning"])
        same_map(ctx, s, *w["steps"], "oxford-h5")
        if w.get("bg") is not None:
            ctx.equal(np.asarray(s.static_background), w["bg"], "oxford-h5-bg",
                      "static background")
            ctx.count("backgrounds")
        else:
            ctx.check(s.static_background is None, "oxford-h5-no-bg", "background")
        m = s.metadata.Acquisition_instrument.SEM
        ctx.close([m.beam_energy, m.magnification, m.working_distance],
                  [h["Beam Voltage"], h["Magnification"], h["Working Distance"]],
                  "oxford-h5-sem", "microscope")
        ctx.distinct("oxford_h5", dtype, lazy, len(shape), version, which)


@case(quick=50)
def edax_up(ctx):
    import kikuchipy as kp

    r = ctx.rng
    dtype = str(r.choice(["uint8", "uint16"]))
    version = int(r.choice([1, 3, 3, 3, 5]))
    ny, nx, dy, dx = nav_steps(r)
    sig = gen.sig_shape(r, 5, 15)
    n = ny * nx
    is_hex = version >= 3 and bool(r.random() < 0.25)
    if is_hex:
        n = ny * nx + ny // 2
    p = gen.patterns(r, (n,), sig, dtype)
    path = os.path.join(ctx.tmp, "p.up1" if dtype == "uint8" else "p.up2")
    vendors.edax_up(path, p, version, ny, nx, dy, dx, is_hex,
                    gap=int(r.choice([0, 0, 7, 96])))
    kw, quiet = {}, []
    shape = (ny, nx)
    if version == 1 or is_hex:
        shape = (1, n)
    if is_hex:
        quiet.append("Returned signal has one navigation dimension")
    if version == 1:
        dy = dx = 1
    if not is_hex and r.random() < 0.4:
        shape = (ny, nx) if r.random() < 0.5 else (nx, ny)
        kw["nav_shape"] = shape
        ctx.count("given_shape")
    s, lazy = load(ctx, path, quiet=quiet, **kw)
    names, scales = ["y", "x", "dy", "dx"], [dy, dx, 1, 1]
    if shape[0] == 1:
        shape, names, scales = shape[1:], names[1:], scales[1:]
    same_patterns(ctx, s, p.reshape(shape + sig), "edax-up")
    same_axes(ctx, s, names, scales, "edax-up-1d" if len(shape) == 1 else "edax-up")
    ctx.distinct("edax_up", version, is_hex, dtype, lazy, len(shape), bool(kw))
    if not is_hex:
        bad = (ny + 1, nx)
        ctx.raises(ValueError, lambda: kp.load(path, nav_shape=bad), "edax-up-shape",
                   "navigation shape of too many patterns")


@case(quick=60)
def oxford_ebsp(ctx):
    """Patterns in any order in the file, some of them not in it."""
    r = ctx.rng
    version = int(r.choice([0, 1, 2, 3, 4, 5, 6]))
    dtype = str(r.choice(["uint8", "uint8", "uint16"]))
    ny, nx, step, _ = nav_steps(r)
    sig = tuple(int(x) for x in r.integers(41, 60, 2))
    n = ny * nx
    p = gen.patterns(r, (n,), sig, dtype, kind="noise")
    kind = str(r.choice(["sorted", "shuffled", "shuffled", "swapped"]))
    order = np.arange(n)
    if kind == "shuffled":
        order = r.permutation(n)
    elif kind == "swapped" and n > 3:
        i, j = r.choice(n, 2, replace=False)
        order[[i, j]] = order[[j, i]]
    present = np.ones(n, bool)
    if n > 4 and r.random() < 0.4:
        present[r.choice(n, int(r.integers(1, n - 2)), replace=False)] = False
    origin = tuple(float(x) * step for x in r.choice([0.0, 0.5, -1.5, 0.3, 20.25], 2))
    path = os.path.join(ctx.tmp, "p.ebsp")
    f_order = vendors.oxford_ebsp(path, p, order, present, (ny, nx), step, version,
                                  origin)
    s, lazy = load(ctx, path)
    ids = np.flatnonzero(present)
    whole = present.all() and version > 0
    om = s.original_metadata
    where = np.argsort(f_order)  # position in the file, by map index
    key = "ebsp-whole" if whole else "ebsp-1d"
    if not present.all() and kind != "sorted":
        key = "ebsp-missing-unsorted"
    if whole:
        same_patterns(ctx, s, p.reshape((ny, nx) + sig), key)
        st = step if n > 1 else s.axes_manager._axes[0].scale
        same_axes(ctx, s, ["y", "x", "dy", "dx"], [st, st, 1, 1], key)
    else:
        same_patterns(ctx, s, p[ids], key)
        same_axes(ctx, s, ["x", "dy", "dx"], [1, 1, 1], key)
    ctx.equal(np.asarray(om.map1d_id), ids, key + "-ids", "map indices of the patterns")
    ctx.equal(np.asarray(om.file_order), where, key + "-order", "order in the file")
    if version > 0:
        ctx.close(np.asarray(om.beam_x), origin[1] + (ids % nx) * step, key + "-beam-x",
                  "beam x of the patterns", rtol=1e-12)
        ctx.close(np.asarray(om.beam_y), origin[0] + (ids // nx) * step, key + "-beam-y",
                  "beam y of the patterns", rtol=1e-12)
    if version > 4:
        ctx.equal(np.asarray(om.map_x), ids % nx, key + "-map-x", "column")
        ctx.equal(np.asarray(om.map_y), ids // nx, key + "-map-y", "row")
    ctx.count("ebsp_shuffled", kind != "sorted")
    ctx.count("ebsp_missing", not present.all())
    ctx.distinct("ebsp", version, dtype, kind, bool(present.all()), lazy, ny > 1, nx > 1)


@case(quick=2)
def oxford_ebsp_large(ctx):
    """A file whose pattern positions are beyond what one pattern can take up."""
    r = ctx.rng
    version = [5, 2][ctx.index % 2]
    sig = (1200, 1344)
    ny, nx = 4, 5
    n = ny * nx
    p = np.zeros((n,) + sig, np.uint16)
    p[:, ::300, ::336] = r.integers(1, 60000, (n, 4, 4))
    p[:, 0, 0] = np.arange(n) + 1
    order = r.permutation(n)
    present = np.ones(n, bool)
    present[int(r.integers(0, n))] = bool(r.random() < 0.5)
    path = os.path.join(ctx.tmp, "p.ebsp")
    vendors.oxford_ebsp(path, p, order, present, (ny, nx), 1.5, version)
    s, lazy = load(ctx, path)
    shape = (ny, nx) if present.all() else (int(present.sum()),)
    ctx.equal(np.asarray(s.data[..., ::300, ::336]),
              p[present][:, ::300, ::336].reshape(shape + (4, 4)), "ebsp-large",
              "patterns of a large file")
    os.remove(path)
    ctx.count("large")


@case(quick=30)
def directory(ctx):
    """Images named by their map coordinates, whatever order they are found in."""
    r = ctx.rng
    dtype = str(r.choice(["uint8", "uint8", "uint16"]))
    ext = str(r.choice(["tif", "png", "tif"])) if dtype == "uint16" else str(
        r.choice(["tif", "png", "bmp"]))
    ny, nx = int(r.integers(1, 5)), int(r.choice([2, 3, 11, 12]))
    sig = gen.sig_shape(r, 5, 12)
    p = gen.patterns(r, (ny * nx,), sig, dtype)
    fmt = str(r.choice(["_x{x}y{y}", "-{x}-{y}", "own", "none"]))
    oy, ox = (int(q) for q in r.choice([0, 1, 7, 95], 2))
    sy, sx = (int(q) for q in r.choice([1, 2, 10], 2))
    missing = bool(r.random() < 0.2) and ny > 1
    kw, quiet = {}, []
    d = os.path.join(ctx.tmp, "dir")
    os.makedirs(d)
    idx = [int(i) for i in r.permutation(ny * nx)]
    if missing:
        idx = [i for i in idx if i != 1]
    names = {}
    for i in idx:
        y, x = divmod(i, nx)
        y, x = oy + y * sy, ox + x * sx
        if fmt == "none":
            nm = f"pattern {i:04d}.{ext}"
        elif fmt == "own":
            nm = f"scan_col{x}_of_row{y}_end.{ext}"
            kw["xy_pattern"] = rf"_col(\d+)_of_row(\d+)_end\.{ext}"
        else:
            nm = "scan" + fmt.format(x=x, y=y) + "." + ext
        vendors.image(os.path.join(d, nm), p[i])
        names[nm] = i
    vendors.image(os.path.join(d, "other.jpg"), np.zeros((4, 4), np.uint8))
    if fmt == "none" or missing:
        quiet.append("Returned signal will have one navigation dimension")
    s, lazy = load(ctx, os.path.join(d, f"*.{ext}"), quiet=quiet, **kw)
    key = "directory"
    if quiet:
        # In the order of the names
        order = [names[k] for k in sorted(names)]
        same_patterns(ctx, s, p[order], key + "-1d", "patterns in order of names")
        same_axes(ctx, s, ["x", "dy", "dx"], [1, 1, 1], key)
        ctx.count("directory_names")
    else:
        same_patterns(ctx, s, p.reshape((ny, nx) + sig), key)
        same_axes(ctx, s, ["y", "x", "dy", "dx"], [1] * 4, key)
        ctx.count("directory_maps")
    ctx.distinct("directory", fmt, dtype, ext, lazy, missing)


@case(quick=40)
def nordif(ctx):
    r = ctx.rng
    ny, nx, step, _ = nav_steps(r)
    step = round(step, 3)
    sig = gen.sig_shape(r, 5, 15)
    p = gen.patterns(r, (ny * nx,), sig, "uint8")
    a = dict(kv=float(r.integers(5, 30)), mag=int(r.integers(50, 900)),
             wd=round(float(r.uniform(5, 30)), 1), tilt=round(float(r.uniform(60, 75)),
                                                              1),
             azimuthal=round(float(r.uniform(-10, 10)), 1),
             elevation=float(r.choice([0, 3.5, -7.0])))
    d = os.path.join(ctx.tmp, "nordif")
    os.makedirs(d)
    path = os.path.join(d, "Pattern.dat")
    p.tofile(path)
    kw, quiet = {}, []
    own = str(r.choice(["beside", "given", "none", "sizes"]))
    setting = os.path.join(d, "Setting.txt" if own != "given" else "Other.txt")
    if own != "none":
        vendors.nordif_setting(setting, *sig, ny, nx, step, **a)
    shape = (ny, nx)
    if own == "given":
        kw["setting_file"] = setting
    elif own == "none":
        kw = dict(scan_size=(nx, ny), pattern_size=sig[::-1])
        quiet.append("Could not calibrate scan dimensions")
    elif own == "sizes":
        shape = (nx, ny)
        kw["scan_size"] = shape[::-1]
    bg = None
    if r.random() < 0.7:
        bg = gen.patterns(r, (), sig, "uint8", full=True)
        vendors.image(os.path.join(d, "Background acquisition pattern.bmp"), bg)
    else:
        quiet.append("Could not read static background pattern")
    s, lazy = load(ctx, path, quiet=quiet, **kw)
    key = "nordif"
    st = step if own != "none" else 1
    names, scales, nav = squeezed(*shape, st, st, 1.0)
    same_patterns(ctx, s, p.reshape(nav + sig), key)
    same_axes(ctx, s, names, scales, key)
    same_map(ctx, s, *shape, st, st, key)
    if bg is not None:
        ctx.equal(np.asarray(s.static_background), bg, key + "-bg", "background")
        ctx.count("backgrounds")
    else:
        ctx.check(s.static_background is None, key + "-no-bg", "background made up")
    if own != "none":
        same_detector(ctx, s, key, None, tilt=-a["elevation"], sample_tilt=a["tilt"],
                      azimuthal=a["azimuthal"])
        m = s.metadata.Acquisition_instrument.SEM
        ctx.close([m.beam_energy, m.magnification, m.working_distance],
                  [a["kv"], a["mag"], a["wd"]], key + "-sem", "microscope")
    ctx.distinct("nordif", own, lazy, len(nav), bg is None)


@case(quick=15)
def nordif_truncated(ctx):
    """An interrupted acquisition: what was acquired, then black patterns."""
    r = ctx.rng
    ny, nx = int(r.integers(2, 6)), int(r.integers(2, 6))
    sig = gen.sig_shape(r, 5, 15)
    p = gen.patterns(r, (ny * nx,), sig, "uint8")
    left = int(r.integers(1, p.size))
    path = os.path.join(ctx.tmp, "Pattern.dat")
    p.ravel()[:left].tofile(path)
    s, lazy = load(ctx, path, scan_size=(nx, ny), pattern_size=sig[::-1],
                   quiet=["Could not", "Pattern size and scan size"])
    want = np.zeros(p.size, np.uint8)
    want[:left] = p.ravel()[:left]
    same_patterns(ctx, s, want.reshape((ny, nx) + sig), "nordif-truncated")
    ctx.count("truncated")
    ctx.distinct("truncated", lazy)


@case(quick=15)
def nordif_calibration(ctx):
    r = ctx.rng
    ny, nx, step, _ = nav_steps(r)
    step = round(step, 3)
    sig = gen.sig_shape(r, 5, 15)
    n = int(r.integers(1, 6))
    yx = [(int(a), int(b)) for a, b in zip(r.choice(900, n, replace=False),
                                           r.choice(900, n, replace=False))]
    p = gen.patterns(r, (n,), sig, "uint8")
    d = os.path.join(ctx.tmp, "cal")
    os.makedirs(d)
    for (y, x), q in zip(yx, p):
        vendors.image(os.path.join(d, f"Calibration ({x},{y}).bmp"), q)
    a = dict(tilt=round(float(r.uniform(60, 75)), 1),
             azimuthal=round(float(r.uniform(-10, 10)), 1),
             elevation=float(r.choice([0, 3.5, -7.0])))
    path = os.path.join(d, "Setting.txt")
    vendors.nordif_setting(path, 200, 300, ny, nx, step, cal=yx, cal_shape=sig, **a)
    bg = gen.patterns(r, (), sig, "uint8", full=True)
    vendors.image(os.path.join(d, "Background calibration pattern.bmp"), bg)
    s, lazy = load(ctx, path)
    same_patterns(ctx, s, p, "nordif-cal")
    ctx.equal(np.asarray(s.original_metadata.calibration_patterns.indices), yx,
              "nordif-cal-indices", "(row, column) of the calibration patterns")
    same_detector(ctx, s, "nordif-cal", None, tilt=-a["elevation"],
                  sample_tilt=a["tilt"], azimuthal=a["azimuthal"])
    ctx.equal(np.asarray(s.static_background), bg, "nordif-cal-bg", "background")
    ctx.count("calibration", n)


@case(quick=20)
def emsoft_ebsd(ctx):
    r = ctx.rng
    sig = gen.sig_shape(r, 5, 15)
    ny, nx = int(r.integers(1, 5)), int(r.integers(2, 6))
    n = ny * nx
    dtype = str(r.choice(["uint8", "float32"]))
    p = gen.patterns(r, (n,), sig, dtype)
    b = int(r.choice([1, 2, 4]))
    nml = dict(numsx=sig[1], numsy=sig[0], delta=float(r.uniform(20, 80)), binning=b,
               thetac=float(r.uniform(-10, 10)), xpc=float(r.uniform(-9, 9)),
               ypc=float(r.uniform(-9, 9)), L=float(r.uniform(500, 20000)),
               energymax=float(r.uniform(10, 30)), energymin=5.0)
    euler = r.uniform(0, 1, (n, 3)) * [2 * np.pi, np.pi, 2 * np.pi]
    path = os.path.join(ctx.tmp, "sim.h5")
    vendors.emsoft_ebsd(path, r, p, euler, nml)
    kw, shape = {}, (n,)
    k = int(r.integers(0, 3))
    if k == 1:
        kw["scan_size"] = n
    elif k == 2:
        shape = (ny, nx)
        kw["scan_size"] = shape
    s, lazy = load(ctx, path, **kw)
    same_patterns(ctx, s, p.reshape(shape + sig), "emsoft-ebsd")
    px = nml["delta"]
    same_axes(ctx, s, ["y", "x", "dy", "dx"][-len(shape) - 2:],
              [1] * len(shape) + [px, px], "emsoft-ebsd")
    pc = to_bruker("emsoft5", [nml["xpc"], nml["ypc"], nml["L"]], sig, b, px)
    same_detector(ctx, s, "emsoft-ebsd", pc, tilt=nml["thetac"], binning=b, px_size=px)
    from orix.quaternion import Rotation

    if s.xmap is not None:
        q = Rotation.from_euler(euler)
        ctx.close(np.abs(np.sum(q.data * s.xmap.rotations.data, axis=1)), np.ones(n),
                  "emsoft-ebsd-rot", "rotations of the patterns", rtol=1e-7)
        ctx.check(s.xmap.phases[0].name == "ni", "emsoft-ebsd-phase",
                  f"phase {s.xmap.phases[0].name}")
        ctx.count("maps")
    ctx.distinct("emsoft_ebsd", dtype, lazy, k)


@case(quick=60)
def emsoft_mp(ctx):
    """Master patterns: hemispheres, projections and energies asked for."""
    r = ctx.rng
    kind = str(r.choice(["EBSD", "EBSD", "TKD", "ECP"]))
    npx = int(r.integers(4, 12))
    n = 2 * npx + 1
    e0, de = float(r.integers(5, 15)), float(r.choice([0.5, 1.0, 2.0]))
    ne = int(r.choice([1, 2, 5, 9]))
    en = (e0 + de * np.arange(ne)).astype(np.float32)
    numset = 1 if kind == "ECP" else int(r.choice([1, 2, 3]))
    d = {}
    for h in "NS":
        lp = r.random((numset, ne, n, n)).astype(np.float32)
        d[f"mLP{h}H"] = lp[0] if kind == "ECP" else lp
        d[f"masterSP{h}H"] = r.random((ne, n, n)).astype(np.float32)
    path = os.path.join(ctx.tmp, "mp.h5")
    vendors.emsoft_mp(path, r, kind, en, d, numset, bool(r.random() < 0.3))
    proj = str(r.choice(["lambert", "stereographic"]))
    hemi = str(r.choice(["upper", "lower", "both"]))
    kw = dict(projection=proj, hemisphere=hemi)
    if proj == "stereographic" and r.random() < 0.5:
        kw.pop("projection")
    if hemi == "upper" and r.random() < 0.5:
        kw.pop("hemisphere")
    k = str(r.choice(["all", "one", "range"]))
    sel = slice(None)
    if k == "one":
        i = int(r.integers(0, ne))
        kw["energy"] = float(en[i] + de * r.uniform(-0.4, 0.4))
        sel = slice(i, i + 1)
    elif k == "range":
        i, j = sorted(int(x) for x in r.integers(0, ne, 2))
        kw["energy"] = (float(en[i] - de * r.uniform(0, 0.4)),
                        float(en[j] + de * r.uniform(0, 0.4)))
        sel = slice(i, j + 1)
    s, lazy = load(ctx, path, **kw)
    out = []
    for h in {"upper": "N", "lower": "S", "both": "NS"}[hemi]:
        if proj == "stereographic":
            q = d[f"masterSP{h}H"][sel][:, ::-1]
        else:
            q = d[f"mLP{h}H"]
            if kind != "ECP":
                q = q.astype(np.float64).sum(axis=0)
            q = q[sel]
        out.append(q)
    want = np.stack(out).astype(np.float64)
    hs, es = want.shape[:2]
    want = want.reshape(tuple(m for m in (hs, es) if m > 1) + (n, n))
    got = np.asarray(s.data)
    ctx.check(got.dtype == np.float32, "mp-dtype", f"data type {got.dtype}")
    ctx.close(got, want, "mp-patterns", f"{kind} {proj} {hemi} {k}", rtol=1e-5)
    ax = s.axes_manager._axes
    names = (["hemisphere"] if hs > 1 else []) + (["energy"] if es > 1 else []) + [
        "height", "width"]
    ctx.check([a.name for a in ax] == names, "mp-axes", f"axes {[a.name for a in ax]}")
    if es > 1 and "energy" in [a.name for a in ax]:
        a = s.axes_manager["energy"]
        ctx.close(a.offset + a.scale * np.arange(a.size), en[sel], "mp-energies",
                  "energies", rtol=1e-6)
        ctx.count("energies", es)
    ctx.check(s.projection == proj and s.hemisphere == hemi, "mp-kind",
              f"{s.projection} {s.hemisphere}")
    ctx.check(type(s).__name__.endswith({"EBSD": "EBSDMasterPattern",
                                         "TKD": "EBSDMasterPattern",
                                         "ECP": "ECPMasterPattern"}[kind]),
              "mp-class", f"{type(s).__name__}")
    ph = s.phase
    ctx.check(ph.space_group.number == 140 and len(ph.structure) == 2, "mp-phase",
              "space group and atoms")
    ctx.close(ph.structure.lattice.abcABG(), [0.5949, 0.5949, 0.5821, 90, 90, 90],
              "mp-lattice", "lattice")
    ctx.count("master_patterns", hs * es)
    ctx.distinct("mp", kind, proj, hemi, k, lazy, numset > 1, ne > 1)


@case(quick=18)
def h5_truncated(ctx):
    """Interrupted acquisitions in HDF5 files: what was acquired, then black."""
    r = ctx.rng
    ny, nx, dy, dx = nav_steps(r)
    n = ny * nx
    sig = gen.sig_shape(r, 5, 12)
    p = gen.patterns(r, (n,), sig, "uint8")
    left = int(r.integers(1, n)) if n > 1 else 1
    kind = str(r.choice(["bruker", "edax", "oxford"]))
    path = os.path.join(ctx.tmp, "t.h5oina" if kind == "oxford" else "t.h5")
    s = dict(ny=ny, nx=nx, patterns=p[:left], processed=p[:left], pcs=pcs_of(r, n),
             pc=pcs_of(r, 1)[0])
    if kind == "bruker":
        s["header"] = dict(XSTEP=dx, YSTEP=dy)
        vendors.bruker(path, r, {"Scan 0": s})
    elif kind == "edax":
        s["header"] = {"Step X": dx, "Step Y": dy}
        vendors.edax_h5(path, r, {"Scan 1": s})
    else:
        s["header"] = {"X Step": dx, "Y Step": dy}
        vendors.oxford_h5(path, r, {"1": s})
    got, lazy = load(ctx, path, quiet=["Signal shape"])
    names, scales, shape = squeezed(ny, nx, dy, dx, 1.0)
    want = np.zeros_like(p)
    want[:left] = p[:left]
    same_patterns(ctx, got, want.reshape(shape + sig), "h5-truncated")
    same_axes(ctx, got, names, scales, "h5-truncated")
    ctx.count("truncated_h5", left < n)
    ctx.distinct("h5_truncated", kind, lazy, len(shape))
