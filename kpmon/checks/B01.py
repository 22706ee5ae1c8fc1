"""Projection center conventions and saved detectors."""

import os

import numpy as np

from kpmon import gen
from kpmon.core import case

PROPERTY = "B01"
RULE = ("a projection center given or returned in a vendor's convention is the stated "
        "formula of the internal one; all conventions, detector files and copies "
        "round trip")
REQUIRED = {"given": 100, "returned": 100, "saved": 20, "set": 20, "rejected": 20,
            "nonsquare": 40}
ASSUMPTIONS = [
    "files are written with seven decimals: PCs agree to 1e-6 of the written unit",
]
WORKERS = 4

CONV = {
    "bruker": ["bruker", "Bruker", "BRUKER"],
    "tsl": ["tsl", "edax", "amatek", "EDAX", "Tsl"],
    "oxford": ["oxford", "aztec", "Oxford", "AZtec"],
    "emsoft5": ["emsoft", "emsoft5", "EMsoft", "EMsoft5"],
    "emsoft4": ["emsoft4", "EMsoft4"],
}


def to_bruker(conv, pc, shape, b, px):
    ny, nx = shape
    x, y, z = (np.asarray(pc, float)[..., i] for i in range(3))
    if conv == "bruker":
        out = x, y, z
    elif conv == "tsl":
        out = x, 1 - y, z * min(nx, ny) / ny
    elif conv == "oxford":
        out = x, 1 - y * nx / ny, z * nx / ny
    else:
        s = -1 if conv == "emsoft4" else 1
        out = 0.5 - s * x / (nx * b), 0.5 - y / (ny * b), z / (ny * b * px)
    return np.stack(out, axis=-1)


def from_bruker(conv, pc, shape, b, px):
    ny, nx = shape
    x, y, z = (np.asarray(pc, float)[..., i] for i in range(3))
    if conv == "bruker":
        out = x, y, z
    elif conv == "tsl":
        out = x, 1 - y, z * ny / min(nx, ny)
    elif conv == "oxford":
        out = x, (1 - y) * ny / nx, z * ny / nx
    else:
        s = -1 if conv == "emsoft4" else 1
        out = s * (0.5 - x) * nx * b, (0.5 - y) * ny * b, z * ny * b * px
    return np.stack(out, axis=-1)


def nav_any(rng):
    d = int(rng.integers(0, 5))
    if d == 0:
        return (1,)
    if d == 1:
        return (int(rng.integers(2, 9)),)
    if d == 2:
        return (1, int(rng.integers(1, 5)))
    if d == 3:
        return (int(rng.integers(1, 5)), 1)
    return gen.nav_shape(rng, (2,))


def make(ctx):
    r = ctx.rng
    shape = (int(r.integers(2, 500)), int(r.integers(2, 500)))
    if r.random() < 0.2:
        shape = (shape[0],) * 2
    b = ctx.choice([1, 2, 4, 8, 10, 3])
    px = float(ctx.choice([1.0, 59.2, 70.0, r.uniform(0.5, 90)]))
    nav = nav_any(r)
    n = int(np.prod(nav))
    pc = np.column_stack([r.uniform(-0.5, 1.5, n), r.uniform(-0.5, 1.5, n),
                          r.uniform(0.2, 1.6, n)]).reshape(nav + (3,))
    ctx.note(shape=shape, binning=b, px_size=px, nav=nav)
    if shape[0] != shape[1]:
        ctx.count("nonsquare")
    ctx.distinct(shape, b, nav)
    return shape, b, px, nav, pc


@case(60)
def given(ctx):
    import kikuchipy as kp

    shape, b, px, nav, pc = make(ctx)
    for conv, names in CONV.items():
        name = ctx.choice(names)
        given_pc = from_bruker(conv, pc, shape, b, px)
        keep = given_pc.copy()
        arg = given_pc if ctx.rng.random() < 0.6 else given_pc.tolist()
        det = kp.detectors.EBSDDetector(
            shape=shape, binning=b, px_size=px, pc=arg, convention=name)
        ctx.equal(given_pc, keep, f"given-changed:{conv}", "the PCs passed in changed")
        ctx.close(det.pc, pc, f"given:{conv}", f"PC given as {name}", rtol=1e-9, atol=1e-9)
        ctx.check(det.navigation_shape == nav, f"nav:{conv}",
                  f"navigation shape {det.navigation_shape}, expected {nav}")
        ctx.count("given")
        # Stays put when the detector is asked for other conventions
        for c2 in CONV:
            got = {
                "bruker": det.pc_bruker, "tsl": det.pc_tsl, "oxford": det.pc_oxford,
                "emsoft5": lambda: det.pc_emsoft(*ctx.choice([(), (5,)])),
                "emsoft4": lambda: det.pc_emsoft(version=4),
            }[c2]()
            ctx.close(got, from_bruker(c2, pc, shape, b, px), f"returned:{c2}",
                      f"PC in {c2} of a detector made from {name}", rtol=1e-9, atol=1e-8)
            ctx.count("returned")
        ctx.close(det.pc, pc, f"moved:{conv}", "PC changed by reading conventions",
                  rtol=1e-9, atol=1e-9)
        ctx.close(det.pc_flattened, pc.reshape(-1, 3), "flattened",
                  "pc_flattened", rtol=1e-9, atol=1e-9)
        ctx.close(det.pc_average, pc.reshape(-1, 3).mean(0), "average", "pc_average",
                  rtol=1e-7, atol=1e-8)


@case(30)
def setters(ctx):
    """pcx, pcy and pcz, the navigation shape and copies."""
    import kikuchipy as kp

    shape, b, px, nav, pc = make(ctx)
    det = kp.detectors.EBSDDetector(shape=shape, binning=b, px_size=px, pc=pc)
    other = det.deepcopy()
    new = pc.copy()
    for k, nm in enumerate(["pcx", "pcy", "pcz"]):
        if ctx.rng.random() < 0.7:
            if ctx.rng.random() < 0.3:
                v = float(ctx.rng.uniform(0.1, 1))
            else:
                v = ctx.rng.uniform(0.1, 1, nav)
            setattr(det, nm, v)
            new[..., k] = v
        ctx.close(getattr(det, nm), new[..., k], f"set:{nm}", f"{nm} after setting it",
                  rtol=1e-12)
    ctx.close(det.pc, new, "set:pc", "PC after setting its coordinates", rtol=1e-12)
    ctx.close(other.pc, pc, "copy", "a deep copy's PC changed with the original's",
              rtol=1e-12)
    n = int(np.prod(nav))
    for shp in [(n,), (1, n), (n, 1)]:
        det.navigation_shape = shp
        ctx.check(det.navigation_shape == shp and det.navigation_size == n
                  and det.navigation_dimension == len(shp), "nav-set",
                  f"navigation shape {det.navigation_shape} after setting {shp}")
        ctx.close(det.pc_flattened, new.reshape(-1, 3), "nav-set:pc",
                  "PCs moved when setting the navigation shape", rtol=1e-12)
    ctx.raises(ValueError, lambda: setattr(det, "navigation_shape", (n, 1, 1)),
               "nav-3d", "three navigation dimensions")
    ctx.count("set")


@case(40)
def files(ctx):
    import kikuchipy as kp

    shape, b, px, nav, pc = make(ctx)
    r = ctx.rng
    ang = dict(
        tilt=float(ctx.choice([0.0, r.uniform(-20, 20), 1e-5, -7.0])),
        azimuthal=float(ctx.choice([0.0, r.uniform(-20, 20)])),
        twist=float(ctx.choice([0.0, r.uniform(-20, 20)])),
        sample_tilt=float(ctx.choice([70.0, r.uniform(40, 80)])),
    )
    det = kp.detectors.EBSDDetector(shape=shape, binning=b, px_size=px, pc=pc, **ang)
    conv = ctx.choice(sorted(CONV))
    name = ctx.choice(CONV[conv])
    ctx.note(convention=name, **ang)
    path = os.path.join(ctx.tmp, "det.txt")
    det.save(path, convention=name)
    ctx.close(det.pc, pc, "save-changed", "saving changed the detector", rtol=1e-12)
    got = kp.detectors.EBSDDetector.load(path)
    # Written with 7 decimals in the convention's units
    unit = np.abs(to_bruker(conv, np.ones(3), shape, b, px)
                  - to_bruker(conv, np.zeros(3), shape, b, px)).max()
    ctx.close(got.pc, pc, f"file:{conv}:pc", f"PCs after saving as {name} and loading",
              rtol=0, atol=2e-7 * max(unit, 1))
    for k, v in ang.items():
        ctx.check(getattr(got, k) == v, f"file:{k}", f"{k} {getattr(got, k)} != {v}")
    ctx.check(got.shape == shape, "file:shape", f"{got.shape} != {shape}")
    ctx.check(got.navigation_shape == nav, "file:nav",
              f"navigation shape {got.navigation_shape} != {nav}")
    ctx.check(got.binning == b and got.px_size == px, "file:size",
              f"binning {got.binning}, px_size {got.px_size}")
    # ... and a second generation is the same as the first
    path2 = os.path.join(ctx.tmp, "det2.txt")
    got.save(path2, convention=name)
    again = kp.detectors.EBSDDetector.load(path2)
    ctx.close(again.pc, got.pc, "file:again", "second save and load", rtol=0,
              atol=2e-7 * max(unit, 1))
    ctx.count("saved")


@case(8)
def rejected(ctx):
    import kikuchipy as kp

    D = kp.detectors.EBSDDetector
    bad = ctx.choice(["brukker", "tsl5", "", "emsoft6x", "bruker ", "emsofy", "ox"])
    ctx.raises(ValueError, lambda: D(shape=(3, 4), convention=bad), "convention",
               f"convention {bad!r}")
    det = D(shape=(3, 4))
    ctx.raises(ValueError,
               lambda: det.save(os.path.join(ctx.tmp, "x.txt"), convention=bad),
               "save-convention", f"save with convention {bad!r}")
    ctx.count("rejected", 2)
    for attr in ["tilt", "azimuthal", "twist", "sample_tilt", "px_size", "binning"]:
        v = ctx.choice(["a", None, [1], (2,)])
        ctx.raises(ValueError, lambda: setattr(det, attr, v), f"attr:{attr}",
                   f"{attr} = {v!r}")
        ctx.raises(ValueError, lambda: D(shape=(3, 4), **{attr: v}), f"init:{attr}",
                   f"{attr} = {v!r}")
        ctx.count("rejected", 2)
    for v in [3, (3,), (1, 2, 3), ("a", 2)]:
        ctx.raises(ValueError, lambda: setattr(det, "shape", v), "attr:shape",
                   f"shape = {v!r}")
        ctx.count("rejected")
