"""What is saved is what is loaded: patterns, axes, map, detector, background."""

from contextlib import contextmanager
import os
from pathlib import Path
import threading
import warnings

import numpy as np

from kpmon import gen
from kpmon.core import case

PROPERTY = "F01"
RULE = ("one evaluation = one part (patterns, axes, crystal map, detector, background, "
        "metadata) of a signal written and read again compared with the original; "
        "distinct = format x dtype x map dimension x lazy writing x lazy reading x "
        "map and detector kind")
REQUIRED = {"patterns": 1200, "detectors": 200, "maps": 90, "backgrounds": 120,
            "no_background": 50, "lazily_read": 100, "lazily_written": 60, "cycles": 50,
            "scans": 35, "slices": 15, "metadata": 100, "destinations": 15,
            "map_many": 8, "map_in_data": 8, "map_not_indexed": 7, "waits_watched": 120}
ASSUMPTIONS = ["files are written and read by the same version of the package"]


def warm():
    pass


@contextmanager
def hdf5_lock_watched(ctx, key):
    """Is h5py's lock free whenever a thread waits for tasks it started? If not, a
    task freeing any HDF5 object, or a garbage collection in its thread, never ends."""
    import dask
    from dask import threaded
    from h5py._objects import phil

    def get(dsk, keys, **kw):
        free = []

        def probe():
            free.append(phil.acquire(False))
            if free[0]:
                phil.release()

        t = threading.Thread(target=probe)
        t.start()
        t.join()
        ctx.count("waits_watched")
        if not ctx.check(free[0], key, "tasks are waited for with the lock of h5py "
                         "held, so that they may never end"):
            return dask.get(dsk, keys)
        return threaded.get(dsk, keys, num_workers=4)

    with dask.config.set(scheduler=get):
        yield


def same_axes(ctx, s2, s, key, scales=True, names=True):
    a2, a = s2.axes_manager, s.axes_manager
    ctx.equal([x.size for x in a2._axes], [x.size for x in a._axes], key + "-shape",
              "axes sizes")
    ctx.check([len(a2.navigation_axes), len(a2.signal_axes)]
              == [len(a.navigation_axes), len(a.signal_axes)], key + "-dims",
              "navigation and signal dimensions")
    if scales:
        ctx.close([x.scale for x in a2._axes], [x.scale for x in a._axes],
                  key + "-scales", "axes scales", rtol=1e-12)
    if names:
        ctx.check([x.name for x in a2._axes] == [x.name for x in a._axes],
                  key + "-names", f"axes names {[x.name for x in a2._axes]}, expected "
                  f"{[x.name for x in a._axes]}")


def same_detector(ctx, d2, d, key):
    ctx.equal(d2.pc, d.pc, key + "-pc", "projection centers")
    for k in ("shape", "px_size", "binning", "tilt", "azimuthal", "twist",
              "sample_tilt"):
        ctx.check(getattr(d2, k) == getattr(d, k), key + "-" + k,
                  f"detector {k} {getattr(d2, k)}, expected {getattr(d, k)}")
    ctx.count("detectors")


def same_xmap(ctx, x2, x, key):
    ctx.check(x2 is not None, key + "-none", "crystal map lost")
    if x2 is None:
        return
    ctx.check(x2.shape == x.shape and x2.size == x.size, key + "-shape",
              f"map shape {x2.shape} ({x2.size}), expected {x.shape} ({x.size})")
    if x2.size != x.size:
        return
    ctx.equal(x2.is_in_data, x.is_in_data, key + "-in-data", "is_in_data")
    ctx.close(x2.rotations.data, x.rotations.data, key + "-rotations", "rotations",
              rtol=0, atol=1e-12)
    ctx.equal(x2.phase_id, x.phase_id, key + "-phase-id", "phase IDs")
    for c in ("x", "y"):
        u, v = getattr(x2, c), getattr(x, c)
        if v is None or u is None:
            ctx.check(u is None and v is None, key + "-coordinates", f"{c} coordinate")
        else:
            ctx.close(u, v, key + "-coordinates", f"{c} coordinates")
    ctx.check(x2.scan_unit == x.scan_unit, key + "-unit", x2.scan_unit)
    ctx.check(set(x2.prop) == set(x.prop), key + "-props",
              f"{set(x2.prop)}, expected {set(x.prop)}")
    for k in set(x2.prop) & set(x.prop):
        ctx.equal(x2.prop[k], x.prop[k], key + "-prop", f"property {k}")
    ctx.check(x2.phases.ids == x.phases.ids, key + "-phases",
              f"{x2.phases.ids}, expected {x.phases.ids}")
    for i in x.phases.ids:
        p2, p = x2.phases[i], x.phases[i]
        sg = [None if q.space_group is None else q.space_group.number for q in (p2, p)]
        ctx.check(p2.name == p.name and sg[0] == sg[1] and p2.color == p.color,
                  key + "-phase", f"{p2!r}, expected {p!r}")
        ctx.close(p2.structure.lattice.abcABG(), p.structure.lattice.abcABG(),
                  key + "-lattice", "lattice parameters")
    ctx.count("maps")


def same_background(ctx, s2, s, key):
    a, b = s2.static_background, s.static_background
    if b is None:
        ctx.check(a is None, key + "-none", f"no background came back as {a!r}")
        ctx.count("no_background")
    else:
        if ctx.equal(a, b, key, "static background"):
            ctx.check(a.dtype == b.dtype, key + "-dtype", f"{a.dtype} {b.dtype}")
        ctx.count("backgrounds")


def same_data(ctx, s2, want, key, lazy):
    ctx.check(s2._lazy == lazy, key + "-lazy", f"lazy is {s2._lazy}, asked for {lazy}")
    got = s2.data
    ctx.check(got.dtype == want.dtype, key + "-dtype", f"{got.dtype}, {want.dtype}")
    if lazy:
        ctx.count("lazily_read")
        got = got.compute()
    ctx.equal(got, want, key, "patterns")
    ctx.count("patterns", int(np.prod(want.shape[:-2])))


def make(ctx, nav=None, dtype=None, sig=None):
    """A signal to save, and its patterns."""
    rng = ctx.rng
    nav = gen.nav_shape(rng) if nav is None else nav
    sig = sig or gen.sig_shape(rng, 4, 14)
    dtype = dtype or ctx.choice(["uint8", "uint8", "uint16", "float32", "float64",
                                 "uint32", "int16", "int8"])
    data = gen.patterns(rng, nav, sig, dtype)
    with_bg = rng.random() < 0.7
    s = gen.signal(rng, nav, sig, dtype, data=data, with_bg=with_bg,
                   with_xmap=False)
    s.detector.px_size = s.axes_manager.signal_axes[0].scale
    kind = "none"
    if nav:
        kind = ctx.choice(["none", "plain", "phases", "not_indexed", "many", "in_data"])
        steps = [a.scale for a in s.axes_manager.navigation_axes[::-1]]
        kw = {}
        if kind in ("phases", "not_indexed"):
            kw["phases"] = [gen.phase("ni", 225), gen.phase("al", 221, "tab:orange")]
        if kind == "not_indexed":
            kw["not_indexed"] = True
        if kind == "many":
            kw["rpp"] = int(rng.integers(2, 5))
        if kind == "in_data":
            m = rng.random(int(np.prod(nav))) < 0.7
            # Keep the corners, so that the extent stays
            m[0] = m[-1] = True
            if len(nav) == 2:
                m = m.reshape(nav)
                m[:, 0] = m[0] = m[-1] = m[:, -1] = True
                m = m.ravel()
            kw["in_data"] = m
        if kind != "none":
            s.xmap = gen.xmap(rng, nav, steps=steps, **kw)
    ctx.count("map_" + kind)
    if nav and kind != "in_data" and rng.random() < 0.3:
        # A part of the map, down to a line or a single pattern
        sl = tuple(
            int(rng.integers(n)) if rng.random() < 0.4
            else slice(int(rng.integers(0, n - 1)), n) for n in nav
        )
        s = s.inav[sl[::-1]]
        data = data[sl]
        ctx.count("slices")
    if rng.random() < 0.6:
        md = dict(beam_energy=float(rng.uniform(5, 30)),
                  magnification=int(rng.integers(10, 5000)),
                  microscope=ctx.choice(["Hitachi SU-6600", "Zeiss Ultra 55 µm", ""]),
                  working_distance=float(rng.uniform(5, 30)))
        s.metadata.add_dictionary({"Acquisition_instrument": {"SEM": md}})
    if rng.random() < 0.5:
        s = s.as_lazy()
        s.data = s.data.rechunk(gen.chunks_for(rng, data.shape, rng.random() < 0.6))
        ctx.count("lazily_written")
    return s, data, kind


def same_signal(ctx, s2, s, data, lazy, key="h5"):
    same_data(ctx, s2, data, key + "-patterns", lazy)
    same_axes(ctx, s2, s, key + "-axes")
    same_detector(ctx, s2.detector, s.detector, key + "-detector")
    if s.xmap is not None:
        same_xmap(ctx, s2.xmap, s.xmap, key + "-map")
    same_background(ctx, s2, s, key + "-background")
    if s.metadata.has_item("Acquisition_instrument.SEM"):
        want = s.metadata.Acquisition_instrument.SEM.as_dictionary()
        got = s2.metadata.Acquisition_instrument.SEM.as_dictionary()
        ctx.check({k: got.get(k) for k in want} == want, key + "-metadata",
                  f"{got}, expected {want}")
        ctx.count("metadata")


@case(quick=120)
def h5ebsd(ctx):
    """Written to and read from the package's own HDF5 format."""
    import kikuchipy as kp

    rng = ctx.rng
    s, data, kind = make(ctx)
    ext = ctx.choice(["", ".h5", ".hdf5", ".h5ebsd", ".H5"])
    f = os.path.join(ctx.tmp, "patterns a" + ext)
    kw = ctx.choice([{}, {}, dict(compression="gzip"), dict(compression=None)])
    ctx.note(shape=data.shape, dtype=data.dtype, kind=kind, ext=ext, lazy=s._lazy,
             pc=s.detector.pc.shape)
    with hdf5_lock_watched(ctx, "h5-lock"):
        s.save(f if rng.random() < 0.5 else Path(f), **kw)
    f = f if ext else f + ".h5"
    ctx.check(os.path.isfile(f), "h5-file", f"no file {os.path.basename(f)}")
    for lazy in (False, True):
        s2 = kp.load(f, lazy=lazy)
        same_signal(ctx, s2, s, data, lazy)
        ctx.distinct("h5", data.dtype.name, data.ndim, s._lazy, lazy, kind,
                     s.detector.navigation_shape != (1,), s.static_background is None)
    # Once more from what was read
    g = os.path.join(ctx.tmp, "again.h5")
    with hdf5_lock_watched(ctx, "h5-lock-again"):
        s2.save(g)
    s3 = kp.load(g)
    same_signal(ctx, s3, s, data, False, "h5-again")
    ctx.count("cycles")


@case(quick=30)
def scans(ctx):
    """Several scans in one file, each with its own name."""
    import kikuchipy as kp

    rng = ctx.rng
    f = os.path.join(ctx.tmp, "scans.h5")
    n = int(rng.integers(2, 5))
    numbers = [int(x) for x in rng.choice(np.arange(1, 14), n, replace=False)]
    made = {}
    for i, k in enumerate(numbers):
        s, data, kind = make(ctx)
        with hdf5_lock_watched(ctx, "scans-lock"):
            s.save(f, add_scan=None if i == 0 else True, scan_number=k)
        made[f"Scan {k}"] = (s, data)
    ctx.note(numbers=numbers)
    order = [f"Scan {k}" for k in rng.permutation(numbers)]
    lazy = bool(rng.random() < 0.5)
    out = kp.load(f, scan_group_names=order, lazy=lazy)
    ctx.check(len(out) == n, "scans-number", f"{len(out)} of {n}")
    for name, s2 in zip(order, out):
        same_signal(ctx, s2, *made[name], lazy, key="scans")
        ctx.count("scans")
        t = s2.tmp_parameters
        ctx.check([t.get_item("folder"), t.get_item("filename"), t.get_item("extension")]
                  == [ctx.tmp, "scans", "h5"], "scans-origin",
                  f"a signal read from {f} says it came from {t.as_dictionary()}")
    one = order[int(rng.integers(n))]
    same_signal(ctx, kp.load(f, scan_group_names=one), *made[one], False, key="scans-one")
    ctx.raises(IOError, lambda: kp.load(f, scan_group_names="Scan 99"), "scans-missing")
    ctx.distinct("scans", n, lazy, tuple(order))


@case(quick=60)
def nordif(ctx):
    """Written to and read from NORDIF's binary format, which has the patterns."""
    import kikuchipy as kp

    rng = ctx.rng
    s, data, kind = make(ctx, dtype="uint8")
    f = os.path.join(ctx.tmp, "Pattern.dat")
    s.save(f)
    ctx.equal(np.fromfile(f, "uint8"), data.ravel(), "nordif-bytes", "file contents")
    nav, sig = data.shape[:-2], data.shape[-2:]
    nx, ny = (nav[1], nav[0]) if len(nav) == 2 else (nav[0] if nav else 1, 1)
    if len(nav) == 1 and s.axes_manager.navigation_axes[0].name == "y":
        nx, ny = 1, nx
    size = nx if ny == 1 and rng.random() < 0.5 else (nx, ny)
    chunks = ctx.choice(["auto", (1, 1) + sig, (1, "auto", sig[0], sig[1])])
    for lazy in (False, True):
        kw = dict(chunks=chunks) if lazy else {}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s2 = kp.load(f, scan_size=size, pattern_size=sig[::-1], lazy=lazy, **kw)
        ctx.note(shape=data.shape, size=size, lazy=lazy, chunks=chunks)
        same_data(ctx, s2, data, "nordif-patterns", lazy)
        same_axes(ctx, s2, s, "nordif-axes", scales=False)
        ctx.check(s2.xmap.size == np.prod(nav) and s2.xmap.shape == nav, "nordif-map",
                  f"map shape {s2.xmap.shape} of {nav}")
        ctx.distinct("nordif", data.ndim, s._lazy, lazy, chunks)


@case(quick=24)
def hyperspy_file(ctx):
    """Written in HyperSpy's own format and read with its reader."""
    import hyperspy.api as hs

    rng = ctx.rng
    s, data, kind = make(ctx)
    f = os.path.join(ctx.tmp, "patterns.hspy")
    s.save(f)
    lazy = bool(rng.random() < 0.5)
    s2 = hs.load(f, signal_type="EBSD", lazy=lazy)
    ctx.check("EBSD" in type(s2).__name__, "hspy-class", type(s2).__name__)
    same_data(ctx, s2, data, "hspy-patterns", lazy)
    same_axes(ctx, s2, s, "hspy-axes")
    ctx.distinct("hspy", data.dtype.name, data.ndim, s._lazy, lazy)


@case(quick=40)
def destinations(ctx):
    """The file and format asked for are the ones written."""
    import kikuchipy as kp

    rng = ctx.rng
    s, data, kind = make(ctx, dtype="uint8")
    kind = ctx.index % 4
    ctx.note(kind=kind)
    sub = os.path.join(ctx.tmp, "new", "folder")
    f = os.path.join(sub, "p.h5")
    if kind == 0:
        # Folders are made; a signal read from a file goes back there
        s.save(f)
        s2 = kp.load(f)
        s2.data[...] = data.max() - data
        s2.save(overwrite=True)
        same_data(ctx, kp.load(f), s2.data, "back-patterns", False)
        ctx.check(sorted(os.listdir(sub)) == ["p.h5"], "back-files", os.listdir(sub))
    elif kind == 1:
        # The format can be given on its own
        ext = ctx.choice(["h5", "dat", "hspy", "h5ebsd"])
        s.save(os.path.join(ctx.tmp, "q"), extension=ext)
        ctx.check(os.listdir(ctx.tmp) == ["q." + ext], "extension-files",
                  f"{os.listdir(ctx.tmp)}, asked for q and {ext}")
        if ext == "dat":
            ctx.equal(np.fromfile(os.path.join(ctx.tmp, "q.dat"), "uint8"),
                      data.ravel(), "extension-dat") if os.path.isfile(
                          os.path.join(ctx.tmp, "q.dat")) else None
    elif kind == 2:
        # Without a file name, the one it came from, in the format asked for
        s.save(f)
        s2 = kp.load(f)
        s2.save(extension="dat")
        ctx.check(sorted(os.listdir(sub)) == ["p.dat", "p.h5"], "format-files",
                  f"{os.listdir(sub)}")
    else:
        for bad in ("p.txt", "p.up1", "p.xyz"):
            ctx.raises(ValueError, lambda: s.save(os.path.join(ctx.tmp, bad)),
                       "unsupported-format")
            ctx.check(not os.path.exists(os.path.join(ctx.tmp, bad)),
                      "unsupported-file", bad)
    ctx.distinct("destination", kind, data.ndim, s._lazy)
    ctx.count("destinations")
