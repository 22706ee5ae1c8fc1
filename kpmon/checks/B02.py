"""Pixel, gnomonic and sample coordinates of a detector."""

import numpy as np

from kpmon import gen
from kpmon.checks.B01 import nav_any
from kpmon.core import case

PROPERTY = "B02"
RULE = ("pixel and gnomonic coordinates follow from the projection center alone, are "
        "each other's inverse, and cropping, binning and tilting a detector change "
        "them exactly as the geometry says")
REQUIRED = {"ranges": 30, "converted": 80, "cropped": 60, "binned": 20, "rotations": 60,
            "tilt-effects": 60, "rejected": 20}
ASSUMPTIONS = [
    "pixel coordinates count from the upper left corner of the detector, so that a "
    "detector of n columns spans [0, n]",
    "the detector frame: X_d to the right and Y_d up as seen from the detector towards "
    "the sample, Z_d along the detector normal towards the sample",
]
WORKERS = 4


def warm():
    import kikuchipy as kp

    for nav in [(1,), (2, 3)]:
        det = kp.detectors.EBSDDetector(shape=(4, 5), pc=np.full(nav + (3,), 0.5))
        for inner in [(1,), (3,), (3, 2)]:
            for c in [np.ones(inner + (2,)), np.ones(nav + inner + (2,))]:
                det.to_pixel_coords(det.to_gnomonic_coords(c))
            c = np.ones(inner + (2,))
            pos = tuple(0 for _ in nav)
            det.to_pixel_coords(det.to_gnomonic_coords(c, pos), pos)
            c = np.ones(nav + inner + (2,))[pos]
            det.to_pixel_coords(det.to_gnomonic_coords(c, pos), pos)
        det.sample_to_detector


def make(ctx, nav=None):
    r = ctx.rng
    shape = (int(r.integers(1, 120)), int(r.integers(1, 120)))
    nav = nav or nav_any(r)
    det = gen.detector(r, shape, nav, binning=ctx.choice([1, 2, 5]),
                       px_size=r.uniform(0.5, 80), wild=True)
    det.pc = det.pc.reshape(nav + (3,))
    ctx.note(shape=shape, nav=nav, pc=det.pc)
    ctx.distinct(shape, nav)
    return det, shape, nav


def gnomonic(pc, shape, coords):
    """Pixel (y, x) to gnomonic (gy, gx), from the definitions."""
    ny, nx = shape
    x, y, z = pc
    c = np.asarray(coords, float)
    gx = (c[..., 1] / nx - x) * nx / ny / z
    gy = (y - c[..., 0] / ny) / z
    return np.stack([gy, gx], axis=-1)


@case(40)
def ranges(ctx):
    det, shape, nav = make(ctx)
    ny, nx = shape
    for i in np.ndindex(nav):
        g = gnomonic(det.pc[i], shape, [[0, 0], [ny, nx], [0, nx], [ny, 0]])
        (ymax, xmin), (ymin, xmax) = g[0], g[1]
        for nm, v in [("x_min", xmin), ("x_max", xmax), ("y_min", ymin), ("y_max", ymax)]:
            ctx.close(getattr(det, nm)[i], v, nm, f"{nm} of {i}", rtol=1e-9, atol=1e-10)
        ctx.close(det.x_range[i], [xmin, xmax], "x_range", "x_range", 1e-9, 1e-10)
        ctx.close(det.y_range[i], [ymin, ymax], "y_range", "y_range", 1e-9, 1e-10)
        ctx.close(det.gnomonic_bounds[i], [xmin, xmax, ymin, ymax], "gnomonic_bounds",
                  "gnomonic bounds", 1e-9, 1e-10)
        r = np.sqrt((g**2).sum(-1)).max()
        ctx.close(np.asarray(det.r_max).reshape(nav)[i], r, "r_max",
                  "distance from the PC to the farthest corner", 1e-9, 1e-10)
        ctx.close(det.x_scale[i], (xmax - xmin) / max(nx - 1, 1), "x_scale", "x_scale",
                  1e-9, 1e-10)
        ctx.close(det.y_scale[i], (ymax - ymin) / max(ny - 1, 1), "y_scale", "y_scale",
                  1e-9, 1e-10)
        ctx.close(np.atleast_1d(det.specimen_scintillator_distance)[i],
                  det.pc[i][2] * ny * det.binning * det.px_size, "distance",
                  "distance from specimen to scintillator", 1e-9, 1e-10)
    ctx.equal(det.bounds, [0, nx - 1, 0, ny - 1], "bounds", "detector bounds")
    b, px = det.binning, det.px_size
    ctx.close([det.height, det.width, det.px_size_binned],
              [ny * b * px, nx * b * px, b * px], "sizes", "physical sizes", 1e-12)
    ctx.check(det.unbinned_shape == (ny * b, nx * b), "unbinned_shape",
              f"{det.unbinned_shape}")
    ctx.check((det.nrows, det.ncols, det.size) == (ny, nx, ny * nx), "counts", "rows")
    ctx.close(det.aspect_ratio, nx / ny, "aspect", "aspect ratio", 1e-12)
    ctx.count("ranges")


@case(60)
def convert(ctx):
    det, shape, nav = make(ctx)
    r = ctx.rng
    ny, nx = shape
    inner = ctx.choice([(1,), (int(r.integers(2, 7)),)])
    if r.random() < 0.1:
        inner = (3, 2)
    coords = np.stack([r.uniform(-ny, 2 * ny, inner), r.uniform(-nx, 2 * nx, inner)],
                      axis=-1)
    per_point = r.random() < 0.4
    if per_point:
        coords = np.stack(
            [r.uniform(-ny, 2 * ny, nav + inner), r.uniform(-nx, 2 * nx, nav + inner)],
            axis=-1)
    keep = coords.copy()
    if not per_point and coords.ndim >= len(nav) + 2 and coords.shape[: len(nav)] == nav:
        return  # ambiguous: documented to be taken as one set per point
    got = det.to_gnomonic_coords(coords)
    ctx.equal(coords, keep, "coords-changed", "coordinates passed in changed")
    want = np.empty(nav + (coords.shape[len(nav):] if per_point else coords.shape))
    for i in np.ndindex(nav):
        want[i] = gnomonic(det.pc[i], shape, coords[i] if per_point else coords)
    ctx.close(got, want, f"to-gnomonic:{'per' if per_point else 'same'}",
              "gnomonic coordinates of pixels", 1e-7, 1e-8)
    back = det.to_pixel_coords(got)
    ctx.close(back, np.broadcast_to(coords if per_point else coords, got.shape),
              "back", "pixel -> gnomonic -> pixel", 1e-6, 1e-6)
    # One sample position at a time
    i = tuple(int(r.integers(n)) for n in nav)
    pos = i
    if len(nav) == 1 and r.random() < 0.7:
        pos = ctx.choice([i[0], np.int64(i[0])])
    c1 = coords[i] if per_point else coords
    g1 = det.to_gnomonic_coords(c1, pos)
    ctx.close(g1, want[i], "one-position", f"gnomonic coordinates at {pos}", 1e-7, 1e-8)
    ctx.close(det.to_pixel_coords(g1, pos), c1, "one-back", f"and back at {pos}",
              1e-6, 1e-6)
    ctx.count("converted", 4)
    wrong = (0,) if len(nav) == 2 else (0, 0)
    ctx.raises(ValueError, lambda: det.to_gnomonic_coords(c1, wrong), "pos-dim",
               f"position {wrong} with navigation shape {nav}")
    if len(nav) == 2:
        ctx.raises(ValueError, lambda: det.to_pixel_coords(c1, 0), "pos-int",
                   "integer position of a 2D detector")
    ctx.raises(ValueError, lambda: det.to_pixel_coords(c1, (0, 0, 0)), "pos-3",
               "position of three integers")
    ctx.raises(TypeError, lambda: det.to_pixel_coords(c1, 1.5), "pos-float",
               "position 1.5")
    ctx.raises(ValueError, lambda: det.to_pixel_coords(np.ones((2, 3))), "coords-3",
               "coordinates of three numbers")
    ctx.count("rejected", 4)


@case(60)
def crop_and_bin(ctx):
    """The same direction falls on the same physical point of the screen."""
    import kikuchipy as kp

    r = ctx.rng
    det, shape, nav = make(ctx)
    ny, nx = shape
    t, le = int(r.integers(0, ny)), int(r.integers(0, nx))
    bo, ri = int(r.integers(t + 1, ny + 1)), int(r.integers(le + 1, nx + 1))
    ext = [t, bo, le, ri]
    if r.random() < 0.3:  # beyond the detector: clipped
        ext = [t if t else -3, bo if bo < ny else ny + 5, le if le else -1,
               ri if ri < nx else nx + 2]
    ctx.note(extent=ext)
    before = det.pc.copy()
    crop = det.crop(tuple(ext) if r.random() < 0.5 else ext)
    ctx.equal(det.pc, before, "crop-changed", "cropping changed the detector")
    ctx.check(crop.shape == (bo - t, ri - le), "crop-shape", f"{crop.shape} of {ext}")
    ctx.check(crop.navigation_shape == nav, "crop-nav", f"{crop.navigation_shape}")
    for a in ["tilt", "azimuthal", "twist", "sample_tilt", "px_size", "binning"]:
        ctx.check(getattr(crop, a) == getattr(det, a), f"crop-{a}",
                  f"{a} {getattr(crop, a)} != {getattr(det, a)}")
    c = np.stack([r.uniform(0, bo - t, 5), r.uniform(0, ri - le, 5)], axis=-1)
    for i in np.ndindex(nav):
        pos = i if len(nav) == 2 else i[0]
        ctx.close(crop.to_gnomonic_coords(c, pos),
                  gnomonic(det.pc[i], shape, c + [t, le]), "crop-direction",
                  f"direction seen by pixels of the crop {ext}", 1e-7, 1e-8)
    ctx.count("cropped")
    for bad in [(bo, t, le, ri), (t, bo, ri, le), (t, t, le, ri),
                (t + 0.5, bo + 0.5, le, ri)]:
        ctx.raises(ValueError, lambda: det.crop(bad), "crop-bad", f"crop{bad}")
        ctx.count("rejected")

    # The same screen, binned: the same directions, vendor PCs in physical units
    k = ctx.choice([2, 3, 4])
    full = kp.detectors.EBSDDetector(shape=(ny * k, nx * k), pc=det.pc, px_size=7.5)
    binned = kp.detectors.EBSDDetector(shape=(ny, nx), pc=det.pc, px_size=7.5, binning=k)
    ctx.close(binned.gnomonic_bounds, full.gnomonic_bounds, "bin-bounds",
              "gnomonic bounds of a binned screen", 1e-9, 1e-10)
    ctx.close(binned.pc_emsoft(), full.pc_emsoft(), "bin-emsoft",
              "EMsoft PC (unbinned pixels, microns) of a binned screen", 1e-9, 1e-7)
    ctx.close([binned.height, binned.width], [full.height, full.width], "bin-size",
              "physical size of a binned screen", 1e-9)
    ctx.close(binned.specimen_scintillator_distance, full.specimen_scintillator_distance,
              "bin-distance", "distance to a binned screen", 1e-9)
    ctx.check(binned.unbinned_shape == full.shape, "bin-shape", "unbinned shape")
    ctx.count("binned")


def rot(axis, deg):
    from scipy.spatial.transform import Rotation as R

    return R.from_rotvec(np.deg2rad(deg) * np.asarray(axis, float)).as_matrix()


def frame(sigma, theta, omega, gamma):
    """Rows: detector axes in the sample frame."""
    m = np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]], float)
    # The sample is tilted about X_d; then the detector about its own axes
    m = m @ rot(m[0], -sigma).T
    m = m @ rot(m[0], theta).T
    m = m @ rot(m[1], -omega).T
    m = m @ rot(m[2], -gamma).T
    return m


@case(80)
def rotation(ctx):
    import kikuchipy as kp

    r = ctx.rng
    a = dict(
        sample_tilt=float(ctx.choice([70.0, 0.0, 90.0, r.uniform(-90, 120)])),
        tilt=float(ctx.choice([0.0, r.uniform(-60, 60)])),
        azimuthal=float(ctx.choice([0.0, r.uniform(-60, 60)])),
        twist=float(ctx.choice([0.0, r.uniform(-180, 180)])),
    )
    ctx.note(**a)
    det = kp.detectors.EBSDDetector(shape=(6, 8), **a)
    m = det.sample_to_detector.to_matrix().squeeze()
    ctx.close(m @ m.T, np.eye(3), "orthonormal", "sample to detector rotation", 0, 1e-9)
    ctx.close(np.linalg.det(m), 1.0, "handedness", "determinant", 0, 1e-9)
    want = frame(a["sample_tilt"], a["tilt"], a["azimuthal"], a["twist"])
    ctx.close(m, want, "frame", f"detector axes in the sample frame at {a}", 0, 1e-7)
    ctx.close(det.euler, [-a["azimuthal"], 90 + a["tilt"], -a["twist"]], "euler",
              "Euler angles", 1e-12)
    # sigma and theta act about the same axis, in opposite directions
    d2 = kp.detectors.EBSDDetector(
        shape=(6, 8), **{**a, "sample_tilt": a["sample_tilt"] - a["tilt"], "tilt": 0})
    ctx.close(d2.sample_to_detector.to_matrix().squeeze(), m, "same-axis",
              "sample and detector tilt are about the same axis", 0, 1e-7)
    ctx.count("rotations")


@case(80)
def tilt_effects(ctx):
    """Where features go when one angle grows (documented): tilt moves them up,
    azimuthal to the right, twist counter-clockwise about the PC."""
    import kikuchipy as kp

    r = ctx.rng
    base = dict(sample_tilt=float(r.uniform(50, 80)))
    det0 = kp.detectors.EBSDDetector(shape=(6, 8), **base)
    # a direction that hits the screen close to the PC
    g = r.uniform(-0.3, 0.3, 2)
    v_s = det0.sample_to_detector.to_matrix().squeeze().T @ np.array([g[0], g[1], 1])
    ang = float(r.uniform(0.5, 10))
    which = ctx.choice(["tilt", "azimuthal", "twist"])
    det = kp.detectors.EBSDDetector(shape=(6, 8), **base, **{which: ang})
    v = det.sample_to_detector.to_matrix().squeeze() @ v_s
    x, y = v[0] / v[2], v[1] / v[2]
    ctx.note(which=which, angle=ang, gnomonic=g)
    if which == "tilt":
        ctx.check(y > g[1], "effect:tilt", "features do not move up with the tilt")
        # the angle to the X_d axis stays
        ctx.close(v[0], v_s @ det0.sample_to_detector.to_matrix().squeeze()[0],
                  "effect:tilt-axis", "tilt is about X_d", 0, 1e-8)
    elif which == "azimuthal":
        ctx.check(x > g[0], "effect:azimuthal", "features do not move to the right")
        ctx.close(v[1], v_s @ det0.sample_to_detector.to_matrix().squeeze()[1],
                  "effect:azimuthal-axis", "azimuthal is about Y_d", 0, 1e-8)
    else:
        want = rot([0, 0, 1], ang)[:2, :2] @ g
        ctx.close([x, y], want, "effect:twist",
                  "features do not turn counter-clockwise by the twist", 0, 1e-7)
    ctx.count("tilt-effects")
    ctx.distinct(which)
