"""Conversion of master patterns from the stereographic to the Lambert projection."""

import warnings

import numpy as np

from kpmon import gen
from kpmon.checks.C01 import directions, rotate
from kpmon.core import case

PROPERTY = "C02"
RULE = ("a master pattern converted to the square Lambert projection holds the intensity "
        "of the same crystal direction in each pixel, for every energy and hemisphere, "
        "and patterns projected from it are those of the stereographic original")
REQUIRED = {"converted": 30, "planes": 60, "projected": 30, "outside-zero": 8,
            "copied": 8, "rejected": 4}
ASSUMPTIONS = [
    "intensities vary slowly over a pixel of the master pattern (the test functions are "
    "low order polynomials of the direction), so that interpolation errors stay below "
    "the tolerance",
    "the lower hemisphere is stored with the X and Y of the direction, seen through the "
    "sphere, as in the upper hemisphere",
]
WORKERS = 4


def warm():
    import kikuchipy as kp
    from orix.quaternion import Rotation

    mp = gen.master_pattern(np.random.default_rng(0), 5, projection="stereographic")
    mp = mp.as_lambert(show_progressbar=False)
    mp.get_patterns(Rotation.identity((2,)), kp.detectors.EBSDDetector(shape=(4, 5)),
                    compute=True, show_progressbar=False)


def lambert_directions(n):
    """Unit vectors of the upper hemisphere for pixels of an (n, n) square Lambert
    pattern: the equal area map from square to hemisphere."""
    t = np.linspace(-1, 1, n) * np.sqrt(np.pi / 2)
    X, Y = np.meshgrid(t, t)
    big, small = np.where(abs(X) > abs(Y), X, Y), np.where(abs(X) > abs(Y), Y, X)
    with np.errstate(all="ignore"):
        a = np.where(big == 0, 0, np.pi / 4 * small / big)
    q = 2 * big / np.pi * np.sqrt(np.pi - big**2)
    c, s = q * np.cos(a), q * np.sin(a)
    x = np.where(abs(X) > abs(Y), c, s)
    y = np.where(abs(X) > abs(Y), s, c)
    return np.stack([x, y, 1 - 2 * big**2 / np.pi], axis=-1)


def stereographic_directions(n):
    t = np.linspace(-1, 1, n)
    X, Y = np.meshgrid(t, t)
    r2 = X**2 + Y**2
    return np.stack([2 * X, 2 * Y, 1 - r2], axis=-1) / (1 + r2)[..., None], r2


class Function:
    """A smooth function on the sphere without symmetry."""

    def __init__(self, rng):
        self.a, self.b, self.c = rng.normal(size=(3, 3))
        self.k = rng.uniform(0.5, 1.5)

    def __call__(self, v):
        return v @ self.a + self.k * (v @ self.b) ** 2 + 0.7 * (v @ self.c) ** 3


def make(ctx, zero=False):
    import kikuchipy as kp

    r = ctx.rng
    n = int(ctx.choice([41, 61, 80, 101]))
    ne = int(ctx.choice([0, 0, 1, 2, 3]))
    hemi = ctx.choice(["upper", "lower", "both", "both"])
    cls = ctx.choice([kp.signals.EBSDMasterPattern, kp.signals.EBSDMasterPattern,
                      kp.signals.ECPMasterPattern])
    halves = {"upper": [1], "lower": [-1], "both": [1, -1]}[hemi]
    v, r2 = stereographic_directions(n)
    funcs = [Function(r) for _ in range(max(ne, 1))]
    data = np.zeros((len(halves), max(ne, 1), n, n))
    for i, sgn in enumerate(halves):
        for j, f in enumerate(funcs):
            data[i, j] = f(v * [1, 1, sgn])
    if zero:
        data[..., r2 > 1] = 0
    axes = []
    if hemi == "both":
        axes.append(dict(name="hemisphere", size=2, scale=1))
    else:
        data = data[0]
    if ne:
        axes.append(dict(name="energy", size=ne, scale=1.5, offset=12.0, units="keV"))
    else:
        data = data[..., 0, :, :]
    axes += [dict(name="height", size=n, scale=0.5, offset=-n / 2, units="px"),
             dict(name="width", size=n, scale=0.25, offset=1.0, units="px")]
    dt = ctx.choice(["float32", "float64"])
    mp = cls(data.astype(dt), axes=axes, projection="stereographic", hemisphere=hemi,
             phase=gen.phase("some", 225))
    ctx.note(n=n, energies=ne, hemisphere=hemi, dtype=dt, cls=cls.__name__)
    ctx.distinct(n, ne, hemi, dt, cls.__name__)
    return mp, funcs, halves, ne, n, dt


@case(40)
def convert(ctx):
    zero = ctx.rng.random() < 0.3
    mp, funcs, halves, ne, n, dt = make(ctx, zero)
    keep = mp.data.copy()
    out = mp.as_lambert(show_progressbar=False)
    ctx.equal(mp.data, keep, "changed", "stereographic master pattern changed")
    ctx.check(mp.projection == "stereographic", "own-projection", str(mp.projection))
    ctx.check(type(out) is type(mp), "class", type(out).__name__)
    ctx.check(out.projection == "lambert", "projection", str(out.projection))
    ctx.check(out.hemisphere == mp.hemisphere, "hemisphere", str(out.hemisphere))
    ctx.check(out.data.dtype == np.float32, "dtype", f"{out.data.dtype}")
    ctx.check(out.data.shape == mp.data.shape, "shape", f"{out.data.shape}")
    ctx.check(out.phase.name == mp.phase.name
              and out.phase.point_group == mp.phase.point_group, "phase", "phase")
    ctx.check(out.phase is not mp.phase, "phase-shared", "phase is shared")
    a, b = out.axes_manager.as_dictionary(), mp.axes_manager.as_dictionary()
    for k in b:
        for f in ["name", "scale", "offset", "units", "size"]:
            ctx.check(a[k][f] == b[k][f], f"axes-{f}", f"{k}: {a[k][f]} != {b[k][f]}")
    v = lambert_directions(n)
    got = out.data.reshape((len(halves), len(funcs), n, n))
    # Zeros outside the circle spoil interpolation only next to the equator
    use = v[..., 2] > (0.35 if zero else -1)
    for i, sgn in enumerate(halves):
        for j, f in enumerate(funcs):
            want = f(v * [1, 1, sgn])
            scale = np.ptp(want)
            e = abs(got[i, j] - want)[use].max() / scale
            ctx.check(e < 2e-3, "intensity",
                      f"hemisphere {sgn} energy {j}: off by {e:.2g} of the range")
            ctx.count("planes")
    ctx.count("converted")
    if zero:
        ctx.count("outside-zero")


@case(30)
def projected(ctx):
    """End to end: from functions on the sphere to detector pixels."""
    import kikuchipy as kp

    mp, funcs, halves, ne, n, dt = make(ctx)
    if mp.hemisphere != "both" or not isinstance(mp, kp.signals.EBSDMasterPattern):
        # One hemisphere of a function with inversion symmetry
        v, _ = stereographic_directions(n)
        w = ctx.rng.normal(size=(3, 3))
        funcs = [lambda v: (v @ w[0]) ** 2 + (v @ w[1]) * (v @ w[2])]
        which = ctx.choice(["upper", "lower"])
        mp = kp.signals.EBSDMasterPattern(
            funcs[0](v * [1, 1, {"upper": 1, "lower": -1}[which]]).astype("float32"),
            projection="stereographic", hemisphere=which, phase=gen.phase("tri", 2))
        ne = 0
    out = mp.as_lambert(show_progressbar=False)
    r = ctx.rng
    k = int(r.integers(1, 4))
    sig = (int(r.integers(3, 12)), int(r.integers(3, 12)))
    det = gen.detector(r, sig, (1,), wild=True)
    rot = gen.rotations(r, k)
    e = int(r.integers(max(ne, 1)))
    kw = {"energy": 12.0 + 1.5 * e} if ne else {}
    s = out.get_patterns(rot, det, compute=True, show_progressbar=False, **kw)
    d = directions(det).reshape(sig + (3,))
    v, _ = stereographic_directions(n)
    scale = np.ptp(funcs[e](v)) + np.ptp(funcs[e](v * [1, 1, -1]))
    for i in range(k):
        want = funcs[e](rotate(rot[i].data.ravel(), d))
        err = abs(s.data[i] - want).max() / scale
        # Bilinear interpolation of a function of second/third order
        ctx.check(err < 12 / n**2 + 1e-3, f"pattern:{mp.hemisphere}",
                  f"pattern {i} off by {err:.3g} of the range of the function")
    ctx.count("projected")


@case(10)
def already(ctx):
    mp = gen.master_pattern(ctx.rng, 11)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = mp.as_lambert(show_progressbar=False)
    ctx.check(any("Already" in str(i.message) for i in w), "no-warning",
              "no warning that the pattern already is in the Lambert projection")
    ctx.equal(out.data, mp.data, "copy", "data of the copy")
    out.data[:] = -1
    ctx.check(mp.data.min() >= 0, "copy-shared", "the copy shares its data")
    ctx.count("copied")


@case(5)
def lazy(ctx):
    mp = gen.master_pattern(ctx.rng, 11, projection="stereographic").as_lazy()
    ctx.raises(NotImplementedError, lambda: mp.as_lambert(), "lazy")
    ctx.count("rejected")
