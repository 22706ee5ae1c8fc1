"""Projection centers from a moving screen."""

from itertools import combinations

import numpy as np

from kpmon import gen
from kpmon.core import case

PROPERTY = "B04"
RULE = ("one evaluation = one comparison of a calibration with the source point that "
        "features in two synthetic screen positions were projected from; distinct = shape "
        "x number of features x convention x units x where the source point is")
REQUIRED = {"exact": 150, "partial": 15, "changed": 20, "drawn": 15, "moved": 30}
ASSUMPTIONS = ["features are points on rays from one source point, in pixel coordinates "
               "(x, y) as passed"]


def scene(r, n=None):
    """Features of rays from a source point on a screen in two positions"""
    ny, nx = gen.sig_shape(r, 40, 200)
    n = n or int(r.integers(2, 7))
    c = np.array([r.uniform(0.2, 0.8) * nx, r.uniform(0.15, 0.85) * ny])
    px = float(r.choice([0.07, 0.5, 70.0]))
    binning = int(r.choice([1, 1, 2, 8]))
    L = r.uniform(0.3, 1.2) * ny  # in binned pixels
    dz = r.uniform(0.05, 0.6) * L
    ang = np.sort(r.choice(24, n, replace=False)) * np.pi / 24 + r.uniform(0, 0.05)
    ang = ang + np.pi * r.integers(0, 2, n)  # no two rays in one plane
    d = np.stack([np.cos(ang), np.sin(ang)], -1) * r.uniform(0.1, 0.5, n)[:, None]
    p = r.permutation(n)
    return ny, nx, c, L, dz, px, binning, (c + L * d)[p], (c + (L + dz) * d)[p]


def make(ny, nx, pin, pout, **kw):
    import kikuchipy as kp

    img = np.ones((ny, nx), "uint8")
    return kp.detectors.PCCalibrationMovingScreen(
        img, img * 2, pin, pout, **kw)


@case(quick=160)
def exact(ctx):
    """The source point comes back, in the units and convention asked for"""
    r = ctx.rng
    ny, nx, c, L, dz, px, b, pin, pout = scene(r)
    kw, unit = {}, 1.0
    k = int(r.integers(3))
    if k == 0:  # distances in pixels, PCz too
        kw["delta_z"] = dz
        pcz = L
    elif k == 1:  # physical units
        kw["delta_z"] = dz * px * b
        pcz = L * px * b
    else:
        kw.update(delta_z=dz * px * b, px_size=px, binning=b)
        pcz = L / ny
    conv = str(r.choice(["tsl", "bruker", "default"]))
    if conv != "default":
        kw["convention"] = conv
    as_list = r.random() < 0.5
    a, o = (list(map(tuple, pin)), list(map(tuple, pout))) if as_list else (pin, pout)
    keep = [np.array(a), np.array(o)]
    cal = make(ny, nx, a, o, **kw)
    n = len(pin)
    want = np.array([c[0] / nx, c[1] / ny, pcz])
    if conv != "bruker":
        want[1] = 1 - want[1]
    ctx.note(shape=(ny, nx), n=n, kw=kw)
    ctx.close(cal.pc, want, "pc", rtol=1e-6, atol=1e-9)
    ctx.close(cal.pxy, c, "pxy", rtol=1e-6)
    m = n * (n - 1) // 2
    ctx.check(cal.pc_all.shape == (m, 3) and cal.n_lines == m and cal.n_points == n
              and cal.shape == (ny, nx) and cal.pxy_within_detector.all(), "shapes",
              f"{cal.pc_all.shape} {cal.n_lines} {cal.n_points} {cal.shape}")
    ctx.close(cal.pc_all, np.tile(want, (m, 1)), "pc-all", rtol=1e-5, atol=1e-8)
    i, j = np.array(list(combinations(range(n), 2))).T
    ctx.close(cal.line_lengths, [np.linalg.norm(q[i] - q[j], axis=1) for q in (pin, pout)],
              "line-lengths", rtol=1e-9)
    ctx.close(cal.lines, [np.hstack([q[i], q[j]]) for q in (pin, pout)], "lines",
              rtol=1e-12)
    ctx.close(cal.lines_out_in, np.hstack([pout, pin]), "lines-out-in", rtol=1e-12)
    ctx.check(np.array_equal(keep[0], np.array(a)) and np.array_equal(keep[1], np.array(o)),
              "points-changed")
    ctx.check(("(PCx, PCy, PCz) = (%.4f, %.4f, %.4f)" % tuple(cal.pc)) in repr(cal), "repr",
              repr(cal))
    ctx.count("exact")
    ctx.distinct((ny > nx) - (ny < nx), n, conv, k, as_list)


@case(quick=24)
def outside(ctx):
    """Pairs of features meeting outside the screen are left out: the others make up
    the mean"""
    r = ctx.rng
    ny, nx, c, L, dz, px, b, pin, pout = scene(r, int(r.integers(4, 7)))
    # move one feature in the second position only, so that its pairs meet elsewhere
    bad = int(r.integers(len(pin)))
    pout = pout.copy()
    v = pout[bad] - pin[bad]
    t = np.array([-v[1], v[0]]) / np.linalg.norm(v)
    pin = pin.copy()
    shift = float(r.choice([-1, 1])) * 3 * max(ny, nx)
    pin[bad] += t * shift
    pout[bad] += t * shift
    cal = make(ny, nx, pin, pout, delta_z=dz)
    pairs = list(combinations(range(len(pin)), 2))
    inside, xy, z = [], [], []
    for i, j in pairs:
        A = np.array([pout[i] - pin[i], -(pout[j] - pin[j])]).T
        s = np.linalg.solve(A, pin[j] - pin[i])
        q = pin[i] + s[0] * (pout[i] - pin[i])
        if np.min(np.abs(np.concatenate([q, q - [nx, ny]]))) < 1e-3:
            return  # on the border
        inside.append(bool((q > 0).all() and q[0] < nx and q[1] < ny))
        xy.append(q)
        z.append(dz / (np.linalg.norm(pout[i] - pout[j]) / np.linalg.norm(pin[i] - pin[j])
                       - 1))
    inside, xy, z = np.array(inside), np.array(xy), np.array(z)
    ctx.equal(cal.pxy_within_detector, inside, "within")
    ctx.close(cal.pxy_all, xy[inside], "pxy-all", rtol=1e-6)
    ctx.close(cal.pc, [xy[inside, 0].mean() / nx, 1 - xy[inside, 1].mean() / ny,
                       z[inside].mean()], "pc-partial", rtol=1e-6)
    if not inside.all():
        ctx.count("partial")
    ctx.distinct("outside", len(pin), int(inside.sum()))


@case(quick=24)
def changes(ctx):
    """What is changed afterwards counts"""
    r = ctx.rng
    ny, nx, c, L, dz, px, b, pin, pout = scene(r)
    cal = make(ny, nx, pin, pout, delta_z=dz)
    n2 = int(r.integers(2, 6))
    s2 = scene(r, n2)
    ny2, nx2, c2, L2, dz2, px2, b2, pin2, pout2 = s2
    for step in r.permutation(4):
        if step == 0:
            c, L, dz = c2 / [nx2, ny2] * [nx, ny], L2, dz2
            f = np.array([nx / nx2, ny / ny2])
            f = np.full(2, f.min())
            c, L = c2 * f, L2 * f[0]
            cal.points = np.stack([pin2 * f, pout2 * f])
            cal.make_lines()
            dz = dz2 * f[0]
            cal.delta_z = dz if cal.px_size is None else dz * cal.px_size * cal.binning
        elif step == 1:
            cal.convention = "bruker"
        elif step == 2:
            cal.px_size = px
            cal.delta_z = dz * px * cal.binning
        else:
            old = cal.binning
            cal.binning = b
            if cal.px_size is not None:
                cal.delta_z *= b / old
        want = [c[0] / nx, c[1] / ny, L if cal.px_size is None else L / ny]
        if cal.convention == "tsl":
            want[1] = 1 - want[1]
        ctx.close(cal.pc, want, "pc-changed", rtol=1e-6)
        ctx.count("moved")
    ctx.count("changed")
    ctx.distinct("changes", n2)


@case(quick=16)
def drawn(ctx):
    """The figure shows the features, lines and the source point"""
    import matplotlib.pyplot as plt

    r = ctx.rng
    ny, nx, c, L, dz, px, b, pin, pout = scene(r)
    cal = make(ny, nx, pin, pout, delta_z=dz)
    fig = cal.plot(return_figure=True)
    ax = fig.axes
    off = [[np.array(q.get_offsets()) for q in a.collections] for a in ax]

    def has(a, pts):
        return any(o.shape == pts.shape and np.allclose(o, pts) for o in off[a])

    ctx.check(has(0, pin), "drawn-in")
    ctx.check(has(1, pout), "drawn-out")
    ctx.check(has(2, pin) and has(2, pout), "drawn-both")
    for a in range(3):
        ctx.check(has(a, np.atleast_2d(cal.pxy)), "drawn-pc", f"axis {a}")
    ctx.check(np.array_equal(ax[0].images[0].get_array(), cal.patterns[0])
              and np.array_equal(ax[1].images[0].get_array(), cal.patterns[1]),
              "drawn-patterns")
    ctx.check(len(ax[0].lines) == cal.n_lines == len(ax[1].lines)
              and len(ax[2].lines) == cal.n_points, "drawn-lines")
    plt.close(fig)
    ctx.count("drawn")
    ctx.distinct("drawn", len(pin))
