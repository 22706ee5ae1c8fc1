"""Projection of master patterns onto detectors."""

import warnings

import numpy as np

from kpmon import gen
from kpmon.checks.B02 import frame
from kpmon.core import case

PROPERTY = "C01"
RULE = ("the intensity of every pixel of a projected pattern is the master pattern "
        "interpolated in the crystal direction which that pixel looks along, for any "
        "orientation, projection center, detector and way of computing it")
REQUIRED = {"pixels": 25000, "patterns": 250, "single-hemisphere": 20, "cropped": 6,
            "rescaled": 12, "lower-pixels": 5000, "energies": 8, "rejected": 12,
            "lazy": 20}
ASSUMPTIONS = [
    "rows and columns of a square Lambert master pattern run from Y = -1 to 1 and X = "
    "-1 to 1; an orientation takes sample directions into crystal directions",
]
WORKERS = 4
CENTRO = {"-1": 2, "2/m": 10, "mmm": 47, "-3": 147, "-3m": 162, "4/m": 83, "m-3m": 225}


def warm():
    import kikuchipy as kp
    from orix.quaternion import Rotation

    det1 = kp.detectors.EBSDDetector(shape=(4, 5))
    det2 = kp.detectors.EBSDDetector(shape=(4, 5), pc=np.full((2, 3), 0.5))
    r = np.random.default_rng(0)
    for dt in ["float32", "uint8", "float64", "uint16"]:
        mp = gen.master_pattern(r, 5, dtype=dt)
        for out in {dt, "float32", "uint8"}:
            for det in [det1, det2]:
                mp.get_patterns(Rotation.identity((2,)), det, dtype_out=out,
                                compute=True, show_progressbar=False)


def directions(det):
    """Unit vectors in the sample frame which the pixels look along, per projection
    center."""
    axes = frame(det.sample_tilt, det.tilt, det.azimuthal, det.twist)
    ny, nx = det.shape
    row, col = np.mgrid[:ny, :nx] + 0.5
    out = np.zeros(det.navigation_shape + det.shape + (3,))
    for i in np.ndindex(det.navigation_shape):
        px, py, pz = det.pc[i]
        gx = (col / nx - px) * nx / ny / pz
        gy = (py - row / ny) / pz
        d = np.stack([gx, gy, np.ones_like(gx)], axis=-1) @ axes
        out[i] = d / np.linalg.norm(d, axis=-1, keepdims=True)
    return out


def square_lambert(v):
    x, y, z = np.moveaxis(v, -1, 0)
    rho = np.sqrt(np.maximum(2 * (1 - abs(z)), 0)) * np.sqrt(np.pi) / 2
    big = np.where(abs(x) >= abs(y), x, y)
    small = np.where(abs(x) >= abs(y), y, x)
    with np.errstate(all="ignore"):
        b = np.sign(big) * rho
        s = np.where(big == 0, 0, b * 4 / np.pi * np.arctan(small / big))
    b, s = np.sqrt(2 / np.pi) * b, np.sqrt(2 / np.pi) * s
    swap = abs(x) < abs(y)
    return np.where(swap, s, b), np.where(swap, b, s)  # X, Y in [-1, 1]


def bilinear(a, X, Y):
    n = a.shape[0]
    c, r = (np.clip((q + 1) / 2 * (n - 1), 0, n - 1) for q in (X, Y))
    i, j = np.minimum(r.astype(int), n - 2), np.minimum(c.astype(int), n - 2)
    fr, fc = r - i, c - j
    a = a.astype(float)
    return ((1 - fr) * (1 - fc) * a[i, j] + fr * (1 - fc) * a[i + 1, j]
            + (1 - fr) * fc * a[i, j + 1] + fr * fc * a[i + 1, j + 1])


def rotate(rot, v):
    """Directions *v* (..., 3) in the crystal frame of quaternion *rot*, from the
    definition of the passive rotation of a vector."""
    a, b = rot[0], np.asarray(rot[1:])
    t = 2 * np.cross(b, v)
    return v + a * t + np.cross(b, t)


def look(upper, lower, rot, dirs):
    v = rotate(rot, dirs)
    X, Y = square_lambert(v)
    return np.where(v[..., 2] >= 0, bilinear(upper, X, Y), bilinear(lower, X, Y)), v


def setup(ctx, **kw):
    r = ctx.rng
    sig = (int(r.integers(1, 24)), int(r.integers(1, 24)))
    nav = ctx.choice([(1,), (int(r.integers(2, 8)),), (int(r.integers(1, 5)),
                                                       int(r.integers(1, 5)))])
    varying = r.random() < 0.4
    det = gen.detector(r, sig, nav if varying else ctx.choice([(1,), (1, 1)]),
                       binning=ctx.choice([1, 4]), px_size=20.0, wild=r.random() < 0.5)
    if not varying:
        det.pc = det.pc.reshape(ctx.choice([(1, 3), (1, 1, 3)]))
    rot = gen.rotations(r, int(np.prod(nav))).reshape(*nav)
    if r.random() < 0.2:  # orientations along symmetry directions
        from orix.quaternion import Rotation

        rot = Rotation.from_euler(
            r.choice([0, 45, 90, 180, 270], nav + (3,)), degrees=True)
    n = int(ctx.choice([5, 11, 21, 31, 40]))
    mp = gen.master_pattern(r, n, **kw)
    ctx.note(sig=sig, nav=nav, pc=det.pc, tilt=(det.sample_tilt, det.tilt,
             det.azimuthal, det.twist), n=n, rotations=rot.data)
    ctx.distinct(sig, nav, varying, n, mp.data.dtype.name)
    return mp, rot, det, nav, varying


def hemispheres(mp, e=None):
    d = np.asarray(mp.data)
    if e is not None:
        d = d[..., e, :, :]
    return d[0], d[1]


def expected(ctx, mp, rot, det, e=None, halves=None):
    up, lo = halves or hemispheres(mp, e)
    dirs = directions(det)
    nav = rot.shape
    out = np.zeros(nav + det.shape)
    for i in np.ndindex(nav):
        d = dirs[i] if det.navigation_size > 1 else dirs.reshape(det.shape + (3,))
        out[i], v = look(up, lo, rot[i].data.ravel(), d)
        ctx.count("lower-pixels", int((v[..., 2] < 0).sum()))
    ctx.count("patterns", int(np.prod(nav)))
    ctx.count("pixels", out.size)
    return out


def run(ctx, mp, rot, det, **kw):
    """Project in one of the ways which must not matter."""
    r = ctx.rng
    if r.random() < 0.4:
        kw["chunk_shape"] = int(r.integers(1, 6))
    compute = bool(r.random() < 0.6)
    s = mp.get_patterns(rot, det, compute=compute, show_progressbar=False, **kw)
    if not compute:
        ctx.check(s._lazy, "lazy", f"compute=False gave {type(s).__name__}")
        ctx.count("lazy")
        s.compute(show_progressbar=False)
    ctx.check(not s._lazy, "eager", f"{type(s).__name__}")
    return s


def attached(ctx, s, mp, rot, det, nav):
    ctx.check(s.data.shape == nav + det.shape, "shape", f"{s.data.shape}")
    ctx.close(s.xmap.rotations.data, rot.data.reshape(-1, 4), "xmap-rotations",
              "orientations in the crystal map", atol=1e-12)
    ctx.check(s.xmap.rotations_per_point == 1 and s.xmap.size == rot.size, "xmap-size",
              f"{s.xmap.size} points of {s.xmap.rotations_per_point} rotations")
    if len([k for k in nav if k > 1]) == len(nav):
        ctx.check(s.xmap.shape == nav, "xmap-shape", f"{s.xmap.shape} for {nav}")
    ctx.check(s.xmap.phases[0].name == mp.phase.name, "xmap-phase", "phase")
    ctx.equal(s.detector.pc, det.pc, "detector-pc", "PCs of the detector")
    ctx.check(s.detector.shape == det.shape, "detector-shape", f"{s.detector.shape}")


@case(50)
def project(ctx):
    dt = ctx.choice(["float32", "float64"])
    mp, rot, det, nav, varying = setup(ctx, dtype=dt)
    keep = mp.data.copy(), rot.data.copy(), det.deepcopy()
    want = expected(ctx, mp, rot, det)
    s = run(ctx, mp, rot, det, dtype_out=dt)
    ctx.check(s.data.dtype == dt, "dtype", f"{s.data.dtype}")
    ctx.close(s.data, want, f"intensity:{'varying' if varying else 'fixed'}",
              "pixels from the master pattern", rtol=1e-5, atol=2e-5)
    attached(ctx, s, mp, rot, det, nav)
    ctx.equal(mp.data, keep[0], "master-changed", "master pattern changed")
    ctx.equal(rot.data, keep[1], "rotations-changed", "rotations changed")
    ctx.equal(det.pc, keep[2].pc, "detector-changed", "detector changed")
    # One projection center given once or repeated for every pattern
    if not varying:
        d2 = det.deepcopy()
        d2.pc = np.broadcast_to(det.pc.reshape(3), nav + (3,)).copy()
        s2 = run(ctx, mp, rot, d2, dtype_out=dt)
        ctx.close(s2.data, s.data, "repeated-pc", "the same PC for every pattern",
                  rtol=1e-5, atol=2e-5)


@case(16)
def rescaled(ctx):
    dt, out = ctx.choice([("float32", "uint8"), ("uint8", "float32"),
                          ("float64", "float32"), ("uint8", "uint16"),
                          ("uint16", "uint8"), ("float32", "float64")])
    mp, rot, det, nav, varying = setup(ctx, dtype=dt)
    want = expected(ctx, mp, rot, det)
    s = run(ctx, mp, rot, det, **({} if out == "float32" else {"dtype_out": out}))
    ctx.check(s.data.dtype == out, "dtype", f"{s.data.dtype}, not {out}")
    omin, omax = gen.RANGES[out]
    for i in np.ndindex(nav):
        w = want[i]
        span = np.ptp(w)
        if span < 1e-3 * max(abs(w).max(), 1e-9):
            continue
        w = (w - w.min()) / span * (omax - omin) + omin
        tol = 1.01 if np.dtype(out).kind == "u" else (omax - omin) * 1e-5
        tol += (omax - omin) * 1e-5 * max(abs(want[i]).max(), 1) / span
        ctx.close(s.data[i], w, f"rescaled:{dt}-{out}",
                  "pixels stretched over the range of the data type", rtol=0, atol=tol)
        ctx.count("rescaled")


@case(10)
def integers(ctx):
    """Without a change of data type intensities are those of the master pattern."""
    dt = ctx.choice(["uint8", "uint16"])
    mp, rot, det, nav, _ = setup(ctx, dtype=dt)
    want = expected(ctx, mp, rot, det)
    s = run(ctx, mp, rot, det, dtype_out=dt)
    ctx.close(s.data, want, f"integers:{dt}", "integer pixels", rtol=1e-9, atol=1.0001)


@case(16)
def energies(ctx):
    ne = int(ctx.rng.integers(1, 5))
    mp, rot, det, nav, _ = setup(ctx, dtype="float32", nenergy=ne)
    e = int(ctx.rng.integers(ne))
    if ctx.rng.random() < 0.3:
        e, kw = ne - 1, {}  # documented default: highest energy
    else:
        kw = {"energy": ctx.choice([15 + e, 15.0 + e, 15 + e + 0.3, 15 + e - 0.3])}
    if kw and not 15 <= kw["energy"] <= 15 + ne - 1:
        kw = {"energy": 15 + e}
    ctx.note(energies=ne, asked=kw)
    want = expected(ctx, mp, rot, det, e)
    s = run(ctx, mp, rot, det, **kw)
    ctx.close(s.data, want, "energy", f"pattern of energy {e} of {ne} asked as {kw}",
              rtol=1e-5, atol=2e-5)
    ctx.count("energies")


@case(30)
def one_hemisphere(ctx):
    """A centrosymmetric crystal looks the same along v and -v."""
    name = ctx.choice(sorted(CENTRO))
    mp, rot, det, nav, _ = setup(ctx, dtype="float32",
                                 phase_=gen.phase("a", CENTRO[name]))
    d = mp.data
    # I(-v) = I(v) and nothing more: the equator has the symmetry too
    for k in [0, -1]:
        d[0, k], d[0, :, k] = (d[0, k] + d[0, k, ::-1]), (d[0, :, k] + d[0, ::-1, k])
    d[0, [0, -1]] = d[0, [0, -1]] + d[0, [-1, 0], ::-1]
    d[0, :, [0, -1]] = d[0, :, [0, -1]] + d[0, ::-1, [-1, 0]]
    d[0] = (d[0] - d[0].min()) / np.ptp(d[0])
    d[1] = d[0, ::-1, ::-1]
    import kikuchipy as kp

    which = ctx.choice(["upper", "lower"])
    half = kp.signals.EBSDMasterPattern(
        d[["upper", "lower"].index(which)].copy(), projection="lambert",
        hemisphere=which, phase=mp.phase)
    ctx.note(group=name, hemisphere=which)
    ctx.check(half.phase.point_group.name == name, "group", half.phase.point_group.name)
    want = expected(ctx, mp, rot, det)
    s = run(ctx, half, rot, det)
    s2 = run(ctx, mp, rot, det)
    ctx.close(s2.data, want, "both", "both hemispheres", rtol=1e-5, atol=2e-5)
    v = abs(s.data - want)
    ctx.check(v.max() < 1e-4, f"{which}-only",
              f"{name}: {np.count_nonzero(v > 1e-4)} of {v.size} pixels differ by up to "
              f"{v.max():.3g} between one and both hemispheres")
    ctx.count("single-hemisphere")


@case(16)
def cropped(ctx):
    mp, rot, det, nav, varying = setup(ctx, dtype="float32")
    ny, nx = det.shape
    if min(ny, nx) < 3:
        return
    r = ctx.rng
    t, b = sorted(r.choice(ny + 1, 2, replace=False))
    le, ri = sorted(r.choice(nx + 1, 2, replace=False))
    ctx.note(extent=(t, b, le, ri))
    full = run(ctx, mp, rot, det)
    part = run(ctx, mp, rot, det.crop((int(t), int(b), int(le), int(ri))))
    ctx.close(part.data, full.data[..., t:b, le:ri], "crop",
              "patterns on a cropped detector", rtol=1e-4, atol=1e-4)
    ctx.count("cropped")


@case(10)
def turned(ctx):
    """Turning sample and crystal together about the sample normal changes nothing;
    tilting sample and detector together neither."""
    from orix.quaternion import Rotation

    mp, rot, det, nav, varying = setup(ctx, dtype="float32")
    full = run(ctx, mp, rot, det)
    a = float(ctx.rng.uniform(-20, 20))
    d2 = det.deepcopy()
    d2.sample_tilt += a
    d2.tilt += a
    if det.azimuthal == 0 and det.twist == 0:
        ctx.close(run(ctx, mp, rot, d2).data, full.data, "tilted-together",
                  f"sample and detector both tilted {a}", rtol=1e-4, atol=1e-4)
        ctx.count("turned")
    # The sample tilt is a rotation about the sample Y, which is X_d
    d3 = det.deepcopy()
    d3.sample_tilt += a
    if det.azimuthal == 0 and det.twist == 0:
        turn = Rotation.from_axes_angles([0, 1, 0], a, degrees=True)
        want1 = run(ctx, mp, rot * turn, det)
        want2 = run(ctx, mp, rot * ~turn, det)
        got = run(ctx, mp, rot, d3).data
        e = min(abs(got - want1.data).max(), abs(got - want2.data).max())
        ctx.check(e < 1e-4, "sample-tilt", f"tilting the sample {a} degrees: {e}")


@case(12)
def rejected(ctx):
    import kikuchipy as kp

    r = ctx.rng
    mp, rot, det, nav, _ = setup(ctx, dtype="float32", phase_=gen.phase("a", 216))
    if rot.size > 1:
        wrong = det.deepcopy()
        shape = ctx.choice([(1, rot.size + 1), (rot.size + 1,), (2, rot.size), (2, 1)])
        if shape != nav:
            wrong.pc = np.full(shape + (3,), 0.5)
            ctx.raises(ValueError, lambda: mp.get_patterns(rot, wrong),
                       f"{shape} PCs for {nav} rotations")
            ctx.count("rejected")
    ctx.raises(ValueError, lambda: mp.get_patterns(rot.reshape(*((1, 1) + nav)), det),
               "rotations of more than two dimensions")
    m2 = mp.deepcopy()
    m2.projection = "stereographic"
    ctx.raises(NotImplementedError, lambda: m2.get_patterns(rot, det), "stereographic")
    m3 = kp.signals.EBSDMasterPattern(mp.data[0], projection="lambert",
                                      hemisphere=ctx.choice(["upper", "lower"]),
                                      phase=mp.phase)
    ctx.raises(AttributeError, lambda: m3.get_patterns(rot, det),
               "one hemisphere without inversion")
    m4 = mp.deepcopy()
    m4.phase = kp.signals.EBSDMasterPattern(mp.data).phase
    ctx.raises(AttributeError, lambda: m4.get_patterns(rot, det), "no point group")
    ctx.count("rejected", 4)
