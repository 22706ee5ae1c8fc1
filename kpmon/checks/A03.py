"""Calls leave what they are given alone, and do not remember earlier ones."""

import copy
import os
import pickle
import struct
import sys
import tempfile
import traceback

import numpy as np

from kpmon import gen
from kpmon.core import SRC, Inconclusive, case

PROPERTY = "A03"
RULE = ("one evaluation = one call in a random history of calls on shared objects: its "
        "result compared with that of the same call alone in a fresh process, and all "
        "objects and the process' settings compared with what they were before it; "
        "distinct = call x laziness x map dimension x place in the history")
REQUIRED = {"calls": 300, "fresh": 300, "objects_compared": 4000, "settings_compared": 300,
            "histories": 50, "lazy": 80, "operations": 250, "parted": 70}
ASSUMPTIONS = ["results in the same state are the same to 1e-6 (threads may add in another "
               "order)", "setters and calls asked to work in place are left out"]
WORKERS = 6


# ----------------------------------------------------------------- fingerprints
def fp(o, depth=0):
    """What can be seen of an object, as plain nested data"""
    import dask.array as da
    from orix.crystal_map import CrystalMap, Phase, PhaseList
    from orix.vector import Vector3d

    if depth > 7:
        return "..."
    d = depth + 1
    if o is None or isinstance(o, (bool, int, float, str, bytes, complex)):
        return o
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ma.MaskedArray):
        return ["masked", np.array(o.filled(0)), np.array(np.ma.getmaskarray(o))]
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ["objects", list(o.shape)] + [fp(x, d) for x in o.ravel()]
        return np.array(o)
    if isinstance(o, da.Array):
        return ["dask", np.asarray(o.compute(scheduler="sync"))]
    if isinstance(o, dict):
        return {str(k): fp(v, d) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [fp(v, d) for v in o]
    if isinstance(o, slice):
        return str(o)
    n = type(o).__name__
    if isinstance(o, Phase):
        st = o.structure
        return [n, o.name, str(o.color), o.space_group.number if o.space_group else None,
                o.point_group.name if o.point_group else None,
                np.array(st.lattice.abcABG()), [[str(a.element), np.array(a.xyz)]
                                                for a in st]]
    if isinstance(o, PhaseList):
        return [n] + [[i, fp(p, d)] for i, p in o]
    if isinstance(o, CrystalMap):
        return [n, np.array(o._rotations.data), np.array(o._phase_id),
                np.array(o.is_in_data), {k: np.array(o.prop[k]) for k in o.prop},
                [np.array(c) if c is not None else None for c in (o._x, o._y)],
                o.scan_unit, fp(o.phases, d)]
    if n in ("ReciprocalLatticeVector", "Miller"):
        extra = []
        for k in ("structure_factor", "theta"):
            try:
                extra.append(np.array(getattr(o, k)))
            except Exception:
                extra.append(None)
        return [n, np.array(o.data), fp(o.phase, d)] + extra
    if isinstance(o, Vector3d) or hasattr(o, "to_euler"):
        sym = getattr(o, "symmetry", None)
        return [n, np.array(o.data), getattr(sym, "name", None)]
    if n == "EBSDDetector":
        return [n, np.array(o.pc), list(o.shape), o.binning, o.px_size, o.sample_tilt,
                o.tilt, o.azimuthal, o.twist, list(o.navigation_shape)]
    if n == "Window":
        return [n, fp(o.data if hasattr(o, "data") and isinstance(o.data, np.ndarray)
                      else np.asarray(o), d), o.name, bool(o.is_valid)]
    if hasattr(o, "axes_manager"):  # a signal
        ax = [[str(a.name), a.size, float(a.scale), float(a.offset), str(a.units),
               bool(a.navigate)] for a in o.axes_manager._axes]
        md = o.metadata.as_dictionary()
        md.get("General", {}).pop("FileIO", None)
        md.pop("_HyperSpy", None)
        md.pop("Markers", None)
        lr = o.learning_results
        return [n, fp(o.data, d), ax, fp(md, d), fp(o.original_metadata.as_dictionary(), d),
                fp(getattr(o, "xmap", None), d), fp(getattr(o, "detector", None), d),
                fp(getattr(o, "static_background", None), d),
                fp(getattr(o, "phase", None), d), getattr(o, "projection", None),
                getattr(o, "hemisphere", None), lr.factors is None]
    if n == "KikuchiPatternSimulator":
        return [n, fp(o.reflectors, d)]
    if n == "GeometricalKikuchiPatternSimulation":
        return [n, fp(o.detector, d), fp(o.rotations, d), fp(o.reflectors, d),
                [fp(m(index=i, coordinates=c), d) for i in np.ndindex(o.navigation_shape)
                 for c in ("pixel", "gnomonic")
                 for m in (o.lines_coordinates, o.zone_axes_coordinates)]]
    if n == "VirtualBSEImager":
        return [n, list(o.grid_shape), fp(o.signal, d)]
    if hasattr(o, "savefig"):  # a figure
        out = [n]
        for a in o.axes:
            out.append([a.get_title(), a.get_xlabel(), a.get_ylabel(),
                        [np.array(x.get_xydata(), float) for x in a.lines],
                        [np.array(x.get_offsets(), float) for x in a.collections],
                        [fp(np.asarray(x.get_array())) for x in a.images],
                        [x.get_text() for x in a.texts]])
        return out
    if hasattr(o, "metric") or "Metric" in n:
        return [n, fp({k: v for k, v in vars(o).items()}, d)]
    if n in ("RectangularROI", "CircleROI"):
        return [n, str(o)]
    return [n]


def differ(a, b, path="", tol=1e-6):
    """Where two fingerprints differ first, or None"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if type(a) is not type(b) or a.shape != b.shape or a.dtype != b.dtype:
            return f"{path}: {getattr(a, 'shape', a)!r:.60} {getattr(a, 'dtype', '')} and " \
                   f"{getattr(b, 'shape', b)!r:.60} {getattr(b, 'dtype', '')}"
        if a.dtype.kind in "fc":
            with np.errstate(all="ignore"):
                sc = np.nanmax(np.abs(a[np.isfinite(a)]), initial=0) if tol else 0
                ok = np.allclose(a, b, rtol=tol, atol=tol * sc, equal_nan=True) if tol \
                    else a.tobytes() == b.tobytes()
        elif a.dtype.names:
            ok = a.tobytes() == b.tobytes()
        elif a.dtype.kind in "iu" and tol:
            ok = not a.size or np.abs(a.astype(float) - b.astype(float)).max() <= (
                1 if a.dtype.itemsize < 4 else 0)
        else:
            ok = np.array_equal(a, b)
        return None if ok else f"{path}: values"
    if type(a) is not type(b):
        return f"{path}: {a!r:.80} and {b!r:.80}"
    if isinstance(a, dict):
        if list(sorted(a)) != list(sorted(b)):
            return f"{path}: keys {sorted(set(a) ^ set(b))}"
        for k in a:
            w = differ(a[k], b[k], f"{path}.{k}", tol)
            if w:
                return w
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} and {len(b)} parts"
        for i, (x, y) in enumerate(zip(a, b)):
            w = differ(x, y, f"{path}[{i}]", tol)
            if w:
                return w
        return None
    if isinstance(a, float):
        ok = np.isclose(a, b, rtol=tol, atol=tol, equal_nan=True) if tol else (
            a == b or (a != a and b != b))
        return None if ok else f"{path}: {a} and {b}"
    return None if a == b else f"{path}: {a!r:.80} and {b!r:.80}"


def settings():
    """The process' settings that a call has no business changing"""
    import logging
    import warnings

    import dask
    import hyperspy.api as hs
    import matplotlib as mpl

    st = np.random.get_state()
    return {
        "random": [st[0], np.array(st[1]), st[2]],
        "errstate": {k: str(v) for k, v in np.geterr().items()},
        "dask": repr(sorted(dask.config.config.items(), key=lambda x: x[0])),
        "cwd": os.getcwd(),
        "environ": repr(sorted((k, v) for k, v in os.environ.items()
                               if not k.startswith("NUMBA_"))),
        "rc": repr(sorted((k, str(v)) for k, v in mpl.rcParams.items())),
        "filters": [str(f) for f in warnings.filters],
        "log": logging.getLogger("kikuchipy").level,
        "progressbar": hs.preferences.General.show_progressbar,
        "recursion": sys.getrecursionlimit(),
        "print": repr(np.get_printoptions()),
    }


# ------------------------------------------------------------------ the objects
def pool(seed):
    """Objects shared by the calls of a history; the same for the same seed"""
    import kikuchipy as kp
    from orix.quaternion import Rotation

    r = np.random.default_rng(seed)
    p = {}
    nav = gen.nav_shape(r, (1, 2, 2))
    sig = gen.sig_shape(r, 6, 10)
    p["lazy"] = bool(r.random() < 0.4)
    dt = str(r.choice(["uint8", "uint8", "uint16", "float32"]))
    p["nav"], p["sig"], p["dt"] = nav, sig, dt
    p["s"] = gen.signal(r, nav, sig, dt, p["lazy"])
    p["sf"] = gen.signal(r, nav, sig, "float32")
    p["det"] = gen.detector(r, sig, nav if r.random() < 0.5 else None)
    p["det1"] = kp.detectors.EBSDDetector(
        shape=sig, pc=r.uniform(0.3, 0.7, 3), sample_tilt=70, tilt=float(r.choice([0, 5])))
    yy, xx = np.indices((3, 4))
    plane = np.stack([0.5 + 0.001 * xx, 0.4 + 0.002 * yy, 0.6 - 0.001 * yy], axis=-1)
    p["detp"] = kp.detectors.EBSDDetector(shape=(60, 80), pc=plane + r.normal(
        0, 1e-5, plane.shape), sample_tilt=70, px_size=70.0)
    p["outlier"] = np.zeros((3, 4), bool)
    p["outlier"][1, 2] = True
    p["mp"] = gen.master_pattern(r, 15, "both", "float32", nenergy=2)
    p["mps"] = gen.master_pattern(r, 13, "both", "float32", projection="stereographic")
    n = int(np.prod(nav))
    p["rot"] = gen.rotations(r, n)
    p["dictionary"] = gen.signal(r, (7,), sig, dt, False, with_bg=False, det_nav=False)
    p["xm"] = gen.xmap(r, nav, steps=[a.scale for a in
                                      p["s"].axes_manager._axes[:len(nav)]])
    p["xm2"] = gen.xmap(r, nav, phases=[gen.phase("al")])
    p["xm1"] = gen.xmap(r, nav)
    k = r.integers(0, 50, (n, 3))
    p["xm1"].prop["simulation_indices"] = k
    p["xmn"] = gen.xmap(r, nav, rpp=3)
    p["xmn"].prop["simulation_indices"] = k.copy()
    p["smask"] = r.random(sig) < 0.2
    p["nmask"] = np.zeros(nav, bool)
    p["nmask"].flat[0] = True
    p["window"] = kp.filters.Window("circular" if len(nav) == 2 else "rectangular",
                                    shape=(3, 3)[:len(nav)])
    p["gauss"] = kp.filters.Window("gaussian", shape=(5, 5), std=1)
    p["lowpass"] = kp.filters.Window("lowpass", shape=sig, cutoff=3, cutoff_width=1)
    p["array"] = r.random((3, 3)[:len(nav)])
    p["img"] = gen.raw_patterns(r, (), sig).astype("float32")
    p["img8"] = (gen.raw_patterns(r, (), sig) * 250).astype("uint8")
    p["simulator"] = None
    from kpmon.checks import C03

    p["simulator"] = C03.sim(r, d=2.0)
    p["trust"] = [2.0, 2.0, 2.0]
    p["kwargs"] = dict(method="Nelder-Mead", options=dict(maxfev=20))
    p["pse"] = Rotation.from_axes_angles([0, 0, 1], [90, 180], degrees=True)
    p["metric"] = kp.indexing.NormalizedCrossCorrelationMetric()
    p["imager"] = kp.imaging.VirtualBSEImager(p["s"])
    p["imager"].grid_shape = (2, 2)
    return p


RANDOM = ("det_xtilt",)  # the search for outliers draws random samples

KEEP = ("s", "sf", "det", "det1", "detp", "outlier", "mp", "mps", "rot", "dictionary", "xm",
        "xm2", "xm1", "xmn", "smask", "nmask", "window", "gauss", "lowpass", "array", "img",
        "img8", "simulator", "trust", "kwargs", "pse", "imager")


# ---------------------------------------------------------------- the operations
OPS = {}


def op(*parts):
    """parts: kinds of results that must not share memory with the objects"""
    def deco(fn):
        OPS[fn.__name__] = (fn, parts)
        return fn
    return deco


Q = dict(show_progressbar=False)


def pick(r, *a):
    return a[int(r.integers(len(a)))]


def which(p, r):
    return pick(r, p["s"], p["sf"])


@op("data")
def static(p, r):
    return which(p, r).remove_static_background(
        operation=pick(r, "subtract", "divide"), scale_bg=bool(r.random() < 0.5),
        inplace=False, **Q)


@op("data")
def dynamic(p, r):
    return which(p, r).remove_dynamic_background(
        operation=pick(r, "subtract", "divide"), filter_domain=pick(
            r, "frequency", "spatial"), inplace=False, **Q)


@op()
def background(p, r):
    return p["s"].get_dynamic_background(filter_domain=pick(r, "frequency", "spatial"), **Q)


@op("data")
def rescale(p, r):
    return which(p, r).rescale_intensity(
        relative=bool(r.random() < 0.5), dtype_out=pick(r, "float32", "uint8"),
        inplace=False, **Q)


@op("data")
def normalize(p, r):
    return which(p, r).normalize_intensity(
        num_std=2, dtype_out="float32", inplace=False, **Q)


@op("data")
def equalize(p, r):
    if p["dt"] == "float32":  # must be in the range [-1, 1]
        return None
    return p["s"].adaptive_histogram_equalization(inplace=False, **Q)


@op("data")
def average(p, r):
    w = pick(r, p["window"], p["array"], "circular")
    kw = dict(window_shape=(3, 3)[:len(p["nav"])]) if isinstance(w, str) else {}
    if isinstance(w, str) and len(p["nav"]) == 1:
        w = "rectangular"
    return which(p, r).average_neighbour_patterns(w, inplace=False, **kw, **Q)


@op("data")
def fft_filter(p, r):
    return which(p, r).fft_filter(
        pick(r, p["lowpass"], p["gauss"]) if False else p["lowpass"],
        function_domain="frequency", shift=True, inplace=False, **Q)


@op("data")
def spatial_filter(p, r):
    return which(p, r).fft_filter(p["gauss"], function_domain="spatial", inplace=False, **Q)


@op()
def quality(p, r):
    return p["s"].get_image_quality(normalize=bool(r.random() < 0.5), **Q)


@op()
def dot_matrices(p, r):
    return p["s"].get_neighbour_dot_product_matrices(pick(r, None, p["window"]), **Q)


@op()
def dot_map(p, r):
    return p["s"].get_average_neighbour_dot_product_map(pick(r, None, p["window"]), **Q)


@op("data")
def downsample(p, r):
    return which(p, r).downsample(2, inplace=False, **Q) if all(
        q % 2 == 0 for q in p["sig"]) else None


@op("data")
def grid(p, r):
    s = p["s"]
    return s.extract_grid((2,) * len(p["nav"]) if len(p["nav"]) == 2 else 2,
                          return_indices=True)


@op("data")
def copied(p, r):
    return pick(r, p["s"], p["sf"], p["mp"], p["dictionary"]).deepcopy()


@op()
def sliced(p, r):
    return p["s"].inav[:2], p["s"].isig[1:4, 2:]


@op()
def virtual(p, r):
    import hyperspy.api as hs

    sc = [a.scale for a in p["s"].axes_manager.signal_axes]
    roi = hs.roi.RectangularROI(left=0, top=0, right=3 * sc[0], bottom=4 * sc[1])
    return p["s"].get_virtual_bse_intensity(roi)


@op()
def grid_images(p, r):
    return p["imager"].get_images_from_grid()


@op()
def rgb_image(p, r):
    if len(p["nav"]) != 2:
        return None
    return p["imager"].get_rgb_image((0, 0), (0, 1), (1, 1))


@op()
def indexing(p, r):
    return p["s"].dictionary_indexing(
        p["dictionary"], metric=pick(r, p["metric"], "ncc", "ndp"),
        keep_n=int(r.integers(1, 8)), n_per_iteration=pick(r, None, 3),
        signal_mask=pick(r, None, p["smask"]), navigation_mask=pick(r, None, p["nmask"]))


@op()
def refine_orientation(p, r):
    kw = {}
    if r.random() < 0.3:
        kw["pseudo_symmetry_ops"] = p["pse"]
    if r.random() < 0.5:
        kw["trust_region"] = p["trust"]
    return p["s"].refine_orientation(
        p["xm"], p["det1"], p["mp"], energy=16, method_kwargs=p["kwargs"],
        signal_mask=pick(r, None, p["smask"]), navigation_mask=pick(r, None, p["nmask"]),
        **kw)


@op()
def refine_pc(p, r):
    return p["s"].refine_projection_center(
        p["xm"], p["det1"], p["mp"], energy=16, method_kwargs=p["kwargs"],
        signal_mask=pick(r, None, p["smask"]))


@op()
def refine_both(p, r):
    return p["s"].refine_orientation_projection_center(
        p["xm"], p["det1"], p["mp"], energy=16, method_kwargs=p["kwargs"])


@op()
def merge(p, r):
    import kikuchipy as kp

    return kp.indexing.merge_crystal_maps([p["xm1"], p["xm2"]])


@op()
def similarity(p, r):
    import kikuchipy as kp

    if len(p["nav"]) != 2:
        return None
    return kp.indexing.orientation_similarity_map(p["xmn"])


@op("data")
def project(p, r):
    s = p["mp"].get_patterns(p["rot"], p["det1"], energy=16, compute=bool(r.random() < 0.7),
                             dtype_out=pick(r, "float32", "uint8"), **Q)
    return s


@op("data")
def as_lambert(p, r):
    return p["mps"].as_lambert(**Q)


@op("data")
def mp_rescale(p, r):
    return p["mp"].rescale_intensity(dtype_out="uint8", inplace=False, **Q)


@op("data")
def mp_normalize(p, r):
    return p["mp"].normalize_intensity(inplace=False, **Q)


@op("det")
def det_crop(p, r):
    return p["det"].crop((1, 4, 0, 5))


@op("det")
def det_copy(p, r):
    return p["det"].deepcopy()


@op()
def det_coordinates(p, r):
    d = p["det"]
    return [d.to_gnomonic_coords(np.array([[1.0, 2.0], [3.0, 0.5]])),
            d.to_pixel_coords(np.array([[0.1, 0.2], [0.3, 0.5]])),
            d.gnomonic_bounds, d.r_max, d.x_range, d.pc_average, d.bounds]


@op()
def det_conventions(p, r):
    d = p["det"]
    return [d.pc_emsoft(), d.pc_emsoft(4), d.pc_tsl(), d.pc_oxford(), d.pc_bruker()]


@op("det")
def det_fit(p, r):
    return p["detp"].fit_pc(pc_indices=np.indices((3, 4)), map_indices=np.indices((3, 5)),
                            transformation=pick(r, "affine", "projective"), plot=False)


@op("det")
def det_extrapolate(p, r):
    d = p["detp"].deepcopy()
    d.pc = d.pc.reshape(-1, 3)[:2]
    return d.extrapolate_pc(pc_indices=[[0, 3], [0, 4]], navigation_shape=(4, 5),
                            step_sizes=(1.5, 1.5))


@op()
def det_xtilt(p, r):
    return p["detp"].estimate_xtilt(detect_outliers=bool(r.random() < 0.5), plot=False)


@op()
def det_xztilt(p, r):
    return p["detp"].estimate_xtilt_ztilt(is_outlier=pick(r, None, p["outlier"]))


@op()
def det_plot(p, r):
    kw = dict(coordinates=pick(r, "detector", "gnomonic"), draw_gnomonic_circles=bool(
        r.random() < 0.5), pattern=pick(r, None, p["img"]), return_figure=True)
    return p["det1"].plot(**kw)


@op()
def det_plot_pc(p, r):
    return p["detp"].plot_pc(mode=pick(r, "map", "scatter"), return_figure=True)


@op()
def simulate(p, r):
    return p["simulator"].on_detector(p["det1"], p["rot"])


@op()
def simulated_master(p, r):
    return p["simulator"].calculate_master_pattern(half_size=6)


@op()
def simulated_plot(p, r):
    g = p["simulator"].on_detector(p["det1"], p["rot"])
    return g.plot(index=0 if p["rot"].ndim == 1 else (0, 0), pattern=pick(
        r, None, p["img"]), return_figure=True)


@op()
def markers(p, r):
    g = p["simulator"].on_detector(p["det1"], p["rot"])
    return len(g.as_markers()), [len(c.get_paths()) if hasattr(c, "get_paths") else 0
                                 for c in g.as_collections(0)]


@op()
def images(p, r):
    import kikuchipy as kp

    im = pick(r, p["img"], p["img8"])
    k = int(r.integers(6))
    if k == 0:
        return kp.pattern.rescale_intensity(im, dtype_out="float32")
    if k == 1:
        return kp.pattern.normalize_intensity(im.astype("float32") if im is p["img8"] else im)
    if k == 2:
        return kp.pattern.remove_dynamic_background(im)
    if k == 3:
        return kp.pattern.get_dynamic_background(im)
    if k == 4:
        return kp.pattern.get_image_quality(im)
    f = kp.pattern.fft(im, shift=True)
    return [f, kp.pattern.fft_spectrum(f), kp.pattern.ifft(f, shift=True)]


@op()
def image_filter(p, r):
    import kikuchipy as kp

    return kp.pattern.fft_filter(p["img"], p["lowpass"], shift=True)


@op()
def windows(p, r):
    import kikuchipy as kp

    w = kp.filters.Window(p["array"])
    w2 = kp.filters.Window("gaussian", shape=(4, 5), std=2)
    return [np.asarray(w), np.asarray(w2), w2.distance_to_origin, w2.n_neighbours,
            w2.origin]


@op()
def saved(p, r):
    import kikuchipy as kp

    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, "a.h5")
        p["s"].save(f)
        s = kp.load(f)
    return s


@op()
def saved_nordif(p, r):
    import kikuchipy as kp

    if p["dt"] != "uint8":
        return None
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, "a.dat")
        p["s"].save(f)
        s = kp.load(f, scan_size=p["nav"][::-1] if len(p["nav"]) == 2 else p["nav"][0],
                    pattern_size=p["sig"][::-1] if False else p["sig"],
                    setting_file=None)
    return np.asarray(s.data)


@op("det")
def det_saved(p, r):
    import kikuchipy as kp

    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, "d.txt")
        p["det"].save(f)
        return kp.detectors.EBSDDetector.load(f)


@op()
def helpers(p, r):
    import kikuchipy as kp

    u = kp.signals.util
    return [u.get_chunking(p["s"], chunk_bytes=4000), u.get_dask_array(p["s"]),
            u.grid_indices((2, 2), (5, 6), return_spacing=True)]


@op()
def navigator(p, r):
    import kikuchipy as kp

    return kp.draw.get_rgb_navigator(np.array(
        p["xm"].rotations.data[:, :3].reshape(p["nav"] + (3,)))) if len(p["nav"]) == 2 \
        else None


@op()
def positions(p, r):
    import kikuchipy as kp

    if len(p["nav"]) != 2:
        return None
    return kp.draw.plot_pattern_positions_in_map(
        rc=np.array([[0, 0], [1, 1]]), roi_shape=p["nav"], return_figure=True)


@op()
def rejected(p, r):
    """Refused calls, half way through"""
    import kikuchipy as kp

    n = 0
    for f in (lambda: p["s"].dictionary_indexing(p["dictionary"], metric="none"),
              lambda: p["s"].remove_static_background(static_bg=np.ones((2, 2)),
                                                      inplace=False),
              lambda: p["s"].average_neighbour_patterns("none", inplace=False),
              lambda: p["s"].refine_orientation(p["xm2"][:1], p["det1"], p["mp"],
                                                energy=16),
              lambda: p["mps"].get_patterns(p["rot"], p["det1"], energy=16),
              lambda: p["det"].crop((3, 3, 1, 2)),
              lambda: kp.load("/nonexistent/file.h5")):
        try:
            f()
        except Exception as e:
            n += 1
            last = type(e).__name__
    return n, last


def call(p, name, seed):
    import dask
    import matplotlib.pyplot as plt

    r = np.random.default_rng(seed)
    with dask.config.set(scheduler="sync" if r.random() < 0.5 else "threads"):
        out = OPS[name][0](p, r)
    print(end="")
    f = fp(out)
    plt.close("all")
    return out, f


# ------------------------------------------------------------------- fresh calls
class Zygote:
    """A process forked before the first call of this one. It forks another for
    every call, which so knows nothing of any other."""

    def __init__(self):
        self.r1, w1 = os.pipe()
        r2, self.w2 = os.pipe()
        pid = os.fork()
        if pid:
            os.close(w1)
            os.close(r2)
            self.pid = pid
            return
        try:
            os.close(self.r1)
            os.close(self.w2)
            self.loop(r2, w1)
        finally:
            os._exit(0)

    @staticmethod
    def read(fd, n):
        b = b""
        while len(b) < n:
            x = os.read(fd, n - len(b))
            if not x:
                raise EOFError
            b += x
        return b

    @staticmethod
    def write(fd, b):
        b = struct.pack("<q", len(b)) + b
        while b:
            b = b[os.write(fd, b):]

    def loop(self, rd, wr):
        while True:
            try:
                n, = struct.unpack("<q", self.read(rd, 8))
            except EOFError:
                return
            args = pickle.loads(self.read(rd, n))
            pid = os.fork()
            if pid == 0:
                try:
                    seed, name, oseed = args
                    try:
                        p = pool(seed)
                        np.random.seed(oseed % 2**32)
                        out = ("ok", call(p, name, oseed)[1])
                    except Exception as e:
                        out = ("error", f"{type(e).__name__}: {e}")
                    self.write(wr, pickle.dumps(out))
                finally:
                    os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st:
                self.write(wr, pickle.dumps(("died", st)))

    def __call__(self, *args):
        self.write(self.w2, pickle.dumps(args))
        n, = struct.unpack("<q", self.read(self.r1, 8))
        return pickle.loads(self.read(self.r1, n))


Z = {}


def fresh(*args):
    return Z["z"](*args)


def load():
    """Import what calls import, and load compiled functions: other processes fork
    from here"""
    import matplotlib.pyplot  # noqa: F401
    import scipy.optimize  # noqa: F401
    import skimage.exposure  # noqa: F401
    import sklearn.linear_model  # noqa: F401

    p = pool(3)
    for k in KEEP:
        fp(p[k])


def warm():
    p = pool(3)
    for name in sorted(OPS):
        try:
            call(p, name, 1)
        except Exception:
            pass


def spoil(out):
    """Change a result in place; what it came from must not notice"""
    if isinstance(out, tuple):
        out = out[0]
    if hasattr(out, "axes_manager"):
        if isinstance(out.data, np.ndarray) and out.data.flags.writeable:
            out.data[...] = 0 if out.data.any() else 1
        out.metadata.General.title = "spoilt"
        if type(out).__name__ in ("EBSD", "LazyEBSD"):
            out.crop(out.axes_manager.signal_axes[0].index_in_axes_manager, 1, 3)
            out.crop(out.axes_manager.signal_axes[1].index_in_axes_manager, 0, 2)
            if out.axes_manager.navigation_dimension:
                out.crop(0, 0, 1)
            out.detector = out.detector.deepcopy()
            out.detector.pc[...] = 0.123
            out.set_detector_calibration(7)
        for a in out.axes_manager._axes:
            a.scale = 17.0
            a.offset = 3
    elif type(out).__name__ == "EBSDDetector":
        out.pc[...] = 0.123
        out.sample_tilt = 11.0
        out.shape = (3, 99)


@case(quick=100)
def history(ctx):
    if "z" not in Z:
        load()
        Z["z"] = Zygote()
    r = ctx.rng
    seed = int(r.integers(2**31))
    p = pool(seed)
    names = sorted(OPS)
    before = {k: fp(p[k]) for k in KEEP}
    done = []
    todo = [names[(ctx.index * 6 + j) % len(names)] if j % 2 else pick(r, *names)
            for j in range(6)]
    r.shuffle(todo)
    for name in todo:
        done.append(name)
        ctx.note(seed=seed, calls=" ".join(done))
        oseed = int(r.integers(2**31))
        np.random.seed(oseed % 2**32)
        env = settings()
        try:
            out, got = call(p, name, oseed)
            got = ("ok", got)
        except Exception as e:
            if not any(os.path.realpath(f.filename).startswith(SRC)
                       for f in traceback.extract_tb(e.__traceback__)):
                raise
            out, got = None, ("error", f"{type(e).__name__}: {e}")
        now = settings()
        if name in RANDOM:
            now["random"] = env["random"]
        w = differ(env, now, "", 0)
        ctx.check(w is None, f"settings:{name}", f"{name} changed settings: {w}")
        ctx.count("settings_compared")
        for k in KEEP:
            now = fp(p[k])
            w = differ(before[k], now, k, 0)
            if not ctx.check(w is None, f"changed:{name}:{k}", f"{name} changed {w}, after "
                             f"{done}"):
                before[k] = now
            ctx.count("objects_compared")
        ctx.count("calls")
        want = fresh(seed, name, oseed)
        if want[0] == "died":
            raise Inconclusive(f"{name} died in a fresh process ({want[1]})")
        if got[0] == "ok" and want[0] == "ok":
            w = differ(want[1], got[1], "result", 1e-6)
            ctx.check(w is None, f"history:{name}", f"{name} after {done[:-1]}: {w} (alone, "
                      "and here)")
        else:
            ctx.check(got[0] == want[0], f"history:{name}", f"{name} after {done[:-1]}: "
                      f"{str(got[1])[:200] if got[0] != 'ok' else 'fine'}, alone "
                      f"{str(want[1])[:200] if want[0] != 'ok' else 'fine'}")
            if got[0] != "ok":
                ctx.fail(f"error:{name}", str(got[1])[:300])
        ctx.count("fresh")
        if out is not None and OPS[name][1]:
            spoil(out)
            ctx.count("parted")
            for k in KEEP:
                now = fp(p[k])
                w = differ(before[k], now, k, 0)
                if not ctx.check(w is None, f"shared:{name}:{k}",
                                 f"the result of {name} shares {w}"):
                    before[k] = now
        if p["lazy"]:
            ctx.count("lazy")
        ctx.distinct(name, p["lazy"], len(p["nav"]), len(done))
        if out is not None:
            ctx.count("results")
    ctx.count("operations", len(set(done)))
    ctx.count("histories")
