"""Planes of projection centers: extrapolation, fitting and tilt estimates."""

import warnings

import numpy as np

from kpmon import gen
from kpmon.core import case

PROPERTY = "B03"
RULE = ("projection centers extrapolated or fitted over a map are those of a plane "
        "through the given ones with the detector's tilts, outliers left out")
REQUIRED = {"extrapolated": 25, "outliers-left-out": 20, "fitted": 40,
            "fit-outliers": 15, "tilts": 40, "robust": 8, "rejected": 20}
ASSUMPTIONS = [
    "the mean map position used for extrapolation is rounded to a map point",
    "a plane is recovered from exact PCs to float accuracy; noise is only used where "
    "the affine least squares solution is computed independently",
]
WORKERS = 4


def base(ctx, n=None):
    """A detector with exact PCs on a sample plane, and that plane."""
    import kikuchipy as kp

    r = ctx.rng
    shape = gen.sig_shape(r, 20, 300)
    b = ctx.choice([1, 2, 4, 8])
    px = float(r.uniform(10, 90))
    sigma = float(ctx.choice([70.0, r.uniform(50, 80)]))
    theta = float(ctx.choice([0.0, r.uniform(-8, 15)]))
    pc0 = np.array([r.uniform(0.3, 0.7), r.uniform(0.2, 0.8), r.uniform(0.4, 0.8)])
    steps = (float(r.uniform(0.5, 60)), float(r.uniform(0.5, 60)))
    det = kp.detectors.EBSDDetector(shape=shape, binning=b, px_size=px,
                                    sample_tilt=sigma, tilt=theta, pc=pc0)
    ctx.note(shape=shape, binning=b, px_size=px, sample_tilt=sigma, tilt=theta, pc=pc0,
             steps=steps)
    return det, shape, b, px, sigma, theta, pc0, steps


def plane(pc0, pos0, pos, steps, shape, b, px, sigma, theta):
    """PCs at map positions *pos* (..., 2) given the one at *pos0*."""
    a = np.deg2rad(90 - sigma + theta)
    dy = (pos0[0] - pos[..., 0]) * steps[0]
    dx = (pos0[1] - pos[..., 1]) * steps[1]
    w, h = shape[1] * b * px, shape[0] * b * px
    return np.stack([pc0[0] + dx / w, pc0[1] + dy * np.cos(a) / h,
                     pc0[2] - dy * np.sin(a) / h], axis=-1)


@case(80)
def extrapolate(ctx):
    r = ctx.rng
    det, shape, b, px, sigma, theta, pc0, steps = base(ctx)
    n = int(r.choice([1, 2, 3, 4, 5, 9, 16]))
    many = int(r.integers(2, 14))
    pos = r.integers(-5, 40, (n, 2))
    pcs = pc0 + r.normal(scale=0.01, size=(n, 3))
    nav1 = (n,)
    if n in (4, 9, 16) and r.random() < 0.4:
        nav1 = (int(n**0.5),) * 2
    det.pc = pcs.reshape(nav1 + (3,))
    nav = (int(r.integers(1, 12)), many)
    kw = {}
    out = np.zeros(n, bool)
    if n > 2 and r.random() < 0.6:
        out = r.random(n) < 0.35
        out[int(r.integers(n))] = True
        if out.all():
            out[0] = False
        m = out.reshape(nav1)
        kw["is_outlier"] = ctx.choice([m, m.tolist()] + ([tuple(out)] if len(nav1) == 1
                                                         else []))
        pcs = pcs.copy()
        pcs[out] += r.uniform(0.1, 0.3, 3)
        det.pc = pcs.reshape(nav1 + (3,))
        ctx.count("outliers-left-out")
    new = {}
    if r.random() < 0.4:
        new["shape"] = gen.sig_shape(r, 20, 300)
    if r.random() < 0.4:
        new["px_size"] = float(r.uniform(5, 100))
    if r.random() < 0.4:
        new["binning"] = int(ctx.choice([1, 3, 6]))
    pairs = n == 1 or n == 2 or r.random() < 0.6
    idx = pos if pairs else pos.T
    if n == 1:
        idx = ctx.choice([pos[0], pos[0].tolist(), tuple(pos[0].tolist()), pos])
    elif r.random() < 0.3:
        idx = idx.tolist()
    elif r.random() < 0.3:
        idx = idx.astype(float)
    before = det.pc.copy()
    try:
        got = det.extrapolate_pc(pc_indices=idx, navigation_shape=nav, step_sizes=steps,
                                 **new, **kw)
    except IndexError as e:
        if not kw:
            raise
        # known: positions as (row, column) pairs cannot be combined with outliers
        ctx.fail("pairs-with-outliers" if pairs else "rows-columns-positions",
                 f"IndexError: {e}")
        return
    ctx.equal(det.pc, before, "changed", "extrapolating changed the detector")
    s2, p2, b2 = new.get("shape", shape), new.get("px_size", px), new.get("binning", b)
    ctx.check(got.shape == tuple(s2) and got.px_size == p2 and got.binning == b2,
              "attributes", f"{got.shape}, {got.px_size}, {got.binning}, expected "
                            f"{s2}, {p2}, {b2}")
    ctx.check(got.sample_tilt == sigma and got.tilt == theta, "tilts", "tilts changed")
    ctx.check(got.navigation_shape == nav, "nav", f"{got.navigation_shape} != {nav}")
    mean = pos[~out].mean(0)
    at = np.stack(np.indices(nav), -1)
    want = plane(pcs[~out].mean(0), mean, at, steps, s2, b2, p2, sigma, theta)
    # the mean position is rounded to a map point
    half = np.abs(np.round(mean) - mean) + 1e-9
    w, h = s2[1] * b2 * p2, s2[0] * b2 * p2
    tol = np.array([half[1] * steps[1] / w, half[0] * steps[0] / h,
                    half[0] * steps[0] / h]) + 1e-9
    d = np.abs(got.pc - want)
    # known: positions given as (rows, columns), as documented, are averaged per point
    ctx.check((d <= tol).all(), "plane" if pairs else "rows-columns-positions",
              f"extrapolated PCs off by {d.reshape(-1, 3).max(0)} (allowed {tol})",
              pos=pos.tolist(), outliers=out.tolist())
    ctx.check(np.ptp((got.pc - want).reshape(-1, 3), axis=0).max() < 1e-9, "parallel",
              "the extrapolated plane is not parallel to the sample's")
    ctx.count("extrapolated")
    ctx.distinct(nav, n, bool(kw), tuple(new))


@case(60)
def fit(ctx):
    """A plane fitted to PCs on a plane is that plane; and its sample tilt."""
    r = ctx.rng
    det, shape, b, px, sigma, theta, pc0, steps = base(ctx)
    full = (int(r.integers(5, 20)), int(r.integers(5, 20)))
    at = np.stack(np.indices(full), -1).astype(float)
    # every k-th point of a larger map, of which a part is fitted
    k, off = 1, np.zeros(2)
    if r.random() < 0.5:
        k = int(r.integers(2, 50))
        off = r.integers(0, 10, 2) * float(k)
        steps = tuple(i / k for i in steps)
        ctx.count("fit-large-maps")
    at = at * k + off
    truth = plane(pc0, np.array([2.0, 3.0]), at, steps, shape, b, px, sigma, theta)
    # positions of the given PCs: a grid or scattered, possibly outside the map
    if r.random() < 0.4:
        g = np.stack(np.meshgrid(np.linspace(0, full[0] - 1, 3).round(),
                                 np.linspace(0, full[1] - 1, 3).round(),
                                 indexing="ij"), -1)
        nav1 = (3, 3)
        pos = g.reshape(-1, 2)
    else:
        nav1 = (int(r.integers(6, 15)),)
        pos = r.uniform(-2, max(full) + 2, (nav1[0], 2))
        pos[:4] = [[0, 0], [0, full[1] - 1], [full[0] - 1, 0], [full[0] - 1, full[1] - 1]]
    pos = pos * k + off
    pcs = plane(pc0, np.array([2.0, 3.0]), pos, steps, shape, b, px, sigma, theta)
    n = len(pos)
    out = None
    if n > 7 and r.random() < 0.5:
        out = np.zeros(n, bool)
        k = r.choice(np.arange(4, n), 2, replace=False)
        if nav1 == (3, 3):
            k = [4]
        out[k] = True
        pcs[out] += r.uniform(0.05, 0.2, 3)
        ctx.count("fit-outliers")
    kind = ctx.choice(["projective", "affine"])
    noise = kind == "affine" and r.random() < 0.5
    if noise:
        pcs = pcs + r.normal(scale=1e-3, size=pcs.shape)
    det.pc = pcs.reshape(nav1 + (3,))
    ctx.note(transformation=kind, nav=nav1, outliers=None if out is None else out.tolist())
    kw = {} if out is None else {"is_outlier": out.reshape(nav1)}
    flat = r.random() < 0.3
    mi = at.reshape(-1, 2).T if flat else np.moveaxis(at, -1, 0)
    before = det.pc.copy()
    got = det.fit_pc(pc_indices=pos.T.reshape((2,) + nav1), map_indices=mi,
                     transformation=kind, plot=False, **kw)
    ctx.equal(det.pc, before, "fit-changed", "fitting changed the detector")
    nav = (full[0] * full[1],) if flat else full
    ctx.check(got.navigation_shape == nav, "fit-nav", f"{got.navigation_shape} != {nav}")
    want = truth
    tol = 1e-6 * max(np.ptp(truth.reshape(-1, 3), axis=0).max(), 1e-3) + 1e-9
    if noise:
        keep = np.ones(n, bool) if out is None else ~out
        A = np.column_stack([pos[keep], np.ones(keep.sum())])
        coef = np.linalg.pinv(A) @ pcs[keep]
        want = np.column_stack([at.reshape(-1, 2), np.ones(at[..., 0].size)]) @ coef
        tol = 1e-7
    ctx.close(got.pc.reshape(-1, 3), want.reshape(-1, 3),
              f"fit:{kind}:{'noise' if noise else 'exact'}"
              f":{'outliers' if out is not None else 'all'}",
              f"{kind} fit of PCs on a plane", 0, tol)
    if not noise:
        ctx.close(got.sample_tilt, sigma, f"fit-tilt:{kind}",
                  "sample tilt from the fitted plane", 0, 1e-3)
    for a in ["tilt", "shape", "px_size", "binning"]:
        ctx.check(getattr(got, a) == getattr(det, a), f"fit-{a}", f"{a} changed")
    ctx.count("fitted")
    ctx.distinct(kind, nav1, full, noise)


@case(60)
def tilts(ctx):
    r = ctx.rng
    det, shape, b, px, sigma, theta, pc0, steps = base(ctx)
    full = (int(r.integers(5, 20)), int(r.integers(5, 20)))
    at = np.stack(np.indices(full), -1).astype(float)
    # a plane also turned about Z_d
    zt = float(ctx.choice([0.0, r.uniform(-15, 15)]))
    pcs = plane(pc0, np.array([2.0, 3.0]), at, steps, shape, b, px, sigma, theta)
    c, s = np.cos(np.deg2rad(zt)), np.sin(np.deg2rad(zt))
    R = np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])
    # isotropic PCs (fractions of width and height) for the angle to be one
    pcs = (pcs - pcs.reshape(-1, 3).mean(0)) @ R.T + pc0
    det.pc = pcs
    alpha = 90 - sigma + theta
    ctx.note(z_tilt=zt)
    deg = r.random() < 0.5
    f = (lambda x: x) if deg else np.rad2deg
    kw = {}
    x, z = det.estimate_xtilt_ztilt(degrees=deg)
    ctx.close([f(x), f(z)], [alpha, zt], "xtilt-ztilt", "estimated tilts", 0, 1e-4)
    if zt == 0:
        x1 = det.estimate_xtilt(plot=False, degrees=deg)
        ctx.close(f(x1), alpha, "xtilt", "estimated tilt about X_d", 0, 1e-5)
    ctx.close(det.pc, pcs, "tilts-changed", "estimating tilts changed the PCs", 0, 0)
    # Outliers left out
    out = r.random(full) < 0.1
    out[0, 0] = True
    bad = pcs.copy()
    bad[out] += r.uniform(0.05, 0.3, 3)
    det.pc = bad
    arg = ctx.choice([out, out.tolist(), tuple(map(tuple, out.tolist()))])
    x, z = det.estimate_xtilt_ztilt(degrees=deg, is_outlier=arg)
    ctx.close([f(x), f(z)], [alpha, zt], f"outliers:{type(arg).__name__}",
              "estimated tilts without the outliers", 0, 0.1)
    ctx.count("tilts")
    if zt == 0 and full[0] > 7 and out.mean() < 0.2:
        np.random.seed(ctx.seed % 2**31)
        bad = pcs.copy()
        # outliers far from the line through the PCs, compared with its extent
        ext = np.ptp(pcs.reshape(-1, 3), axis=0)[1:].max()
        bad[out, 1] += 30 * ext
        det.pc = bad
        x, o = det.estimate_xtilt(plot=False, degrees=deg, return_outliers=True)
        ctx.equal(o, out, "robust-outliers", "PCs off the line taken as outliers")
        ctx.close(f(x), alpha, "robust-tilt", "tilt without the outliers", 0, 1e-3)
        ctx.count("robust")
    ctx.distinct(full, zt == 0)


@case(8)
def rejected(ctx):
    det, *_ = base(ctx)
    for f in ["estimate_xtilt", "estimate_xtilt_ztilt"]:
        ctx.raises(ValueError, getattr(det, f), f"single:{f}", f"{f} of one PC")
    mi = np.indices((4, 5))
    ctx.raises(ValueError, lambda: det.fit_pc([[0], [0]], mi, plot=False), "single:fit",
               "fit_pc of one PC")
    det.pc = np.tile(det.pc, (6, 1)) + ctx.rng.normal(scale=0.01, size=(6, 3))
    pos = np.array([[0, 0, 3, 3, 1, 2], [0, 4, 0, 4, 2, 3]])
    ctx.raises(ValueError, lambda: det.fit_pc(pos.T, mi, plot=False), "fit:indices",
               "PC positions of shape (6, 2)")
    ctx.raises(ValueError, lambda: det.fit_pc(pos, mi[:1], plot=False), "fit:map",
               "map positions of shape (1, 4, 5)")
    ctx.raises(ValueError, lambda: det.fit_pc(pos, mi, plot=False,
                                              is_outlier=np.zeros(5, bool)),
               "fit:outliers", "outlier mask of another size")
    det.azimuthal = 3.0
    for nm, f in [("extrapolate", lambda: det.extrapolate_pc(pos, (3, 3), (1, 1))),
                  ("estimate_xtilt", lambda: det.estimate_xtilt(plot=False)),
                  ("fit", lambda: det.fit_pc(pos, mi, plot=False))]:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            f()
        ctx.check(any("will be" in str(x.message) and "ignored" in str(x.message)
                      for x in w), f"warn:{nm}",
                  "no warning that the azimuthal angle is not used")
    ctx.count("rejected", 6)
