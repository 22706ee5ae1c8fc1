"""What is drawn of detectors, projection centers, maps and patterns is what they are."""

import numpy as np

from kpmon import gen
from kpmon.core import case

PROPERTY = "G03"
RULE = ("one evaluation = one comparison of what is found in a figure (or a navigator) with "
        "the geometry or the data drawn; distinct = drawing x its options x map dimension")
REQUIRED = {"views": 50, "planes": 30, "pcs": 30, "positions": 20, "navigators": 20,
            "moves": 40, "plotters": 12, "overlays": 12}
ASSUMPTIONS = ["figures are read through Matplotlib's artists, not pixels",
               "the side view leaves out azimuthal and twist, the top view twist, as "
               "documented"]


def random_detector(r, nav=None, angles=True):
    import kikuchipy as kp

    if nav is None:
        nav = [(), (3,), (2, 3)][int(r.integers(3))]
    sig = gen.sig_shape(r, 8, 60)
    pc = np.stack([r.uniform(0.2, 0.8, nav), r.uniform(0.1, 0.9, nav),
                   r.uniform(0.3, 1.2, nav)], -1)
    return kp.detectors.EBSDDetector(
        shape=sig, pc=pc, px_size=float(r.choice([1, 70.0, 500.0])),
        binning=int(r.choice([1, 2, 8])), sample_tilt=float(r.uniform(40, 90)),
        tilt=float(r.choice([0, r.uniform(-30, 30)])),
        azimuthal=float(r.choice([0, r.uniform(-10, 10)])) if angles else 0.0,
        twist=float(r.choice([0, r.uniform(-5, 5)])) if angles else 0.0)


def corners(d, azimuthal):
    """Detector corners (left to right, top to bottom) and projection center in mm in
    the microscope frame: X west, Y towards the detector, Z up. From the rotation from
    the sample to the detector, which projections use."""
    import kikuchipy as kp

    # The sample's tilt moves nothing here; stay away from rotations so small that orix
    # takes them to be none
    kw = dict(shape=d.shape, sample_tilt=70 if d.tilt >= 0 else 45, pc=(0.5, 0.5, 0.5))
    m = kp.detectors.EBSDDetector(
        tilt=d.tilt, azimuthal=d.azimuthal if azimuthal else 0, **kw
    ).sample_to_detector.to_matrix()[0]
    m0 = kp.detectors.EBSDDetector(**kw).sample_to_detector.to_matrix()[0]
    ny, nx = d.shape
    u = d.px_size * d.binning * 1e-3
    pcx, pcy, pcz = np.array(d.pc).reshape(-1, 3).mean(axis=0)
    H, W, L = ny * u, nx * u, pcz * ny * u
    c = np.array([[-pcx * W, pcy * H, L], [(1 - pcx) * W, pcy * H, L],
                  [(1 - pcx) * W, -(1 - pcy) * H, L], [-pcx * W, -(1 - pcy) * H, L],
                  [0, 0, L], [0, pcy * H, L], [0, -(1 - pcy) * H, L]])
    flip = np.array([[-1, 0, 0], [0, 0, 1], [0, 1, 0]])
    return c @ m @ m0.T @ flip.T, H, W


def offsets(ax):
    return [np.array(q.get_offsets()) for q in ax.collections]


def at(ax, xy, tol=1e-6):
    """Is there a marker drawn at this point alone?"""
    return any(o.shape == (1, 2) and np.allclose(o[0], xy, rtol=tol, atol=tol)
               for o in offsets(ax))


def covered(x, y, tol=1e-4):
    """Is every point of one set (nearly) in another?"""
    if not len(x):
        return True
    return len(y) > 0 and bool(
        (np.abs(x[:, None] - y[None]).max(axis=-1).min(axis=1) < tol).all())


def pc_shown(ax, xy):
    """The projection center is drawn as a circle with a cross, labelled as such"""
    got = [np.array(q.get_offsets()) for q in ax.collections
           if str(q.get_label()).startswith("_pc")]
    if not got:
        return False
    return all(o.shape == (1, 2) and np.allclose(o[0], xy, rtol=1e-6, atol=1e-6)
               for o in got) or f"{got}"


def line(ax, label):
    return [q.get_xydata() for q in ax.lines if q.get_label() == label]


def side_ok(ctx, d, ax, key="side"):
    c, H, W = corners(d, False)
    scr = line(ax, "Detector")
    ctx.check(len(scr) == 1, f"{key}-detectors", f"{len(scr)}")
    ctx.close(scr[0], c[[5, 6]][:, 1:], f"{key}-screen", rtol=1e-6, atol=1e-9)
    ctx.check(at(ax, c[4, 1:]), f"{key}-pc", f"{c[4, 1:]} in {offsets(ax)}")
    s = line(ax, "Sample")[0]
    a = np.deg2rad(d.sample_tilt)
    v = s[1] - s[0]
    ctx.close(abs(v[0] * np.sin(a) + v[1] * np.cos(a)), 0, f"{key}-sample", atol=1e-6 * H)
    ctx.close(s.mean(axis=0), [0, 0], f"{key}-sample-middle", atol=1e-9 * H)
    ctx.check(ax.get_xlim()[0] > 0 > ax.get_xlim()[1] and ax.get_ylim()[0] < 0, f"{key}-axes")


def top_ok(ctx, d, ax, key="top"):
    c, H, W = corners(d, True)
    p = {q.get_label(): q.get_xy()[:4] for q in ax.patches}
    ctx.close(p["Detector"], c[:4, :2], f"{key}-screen", rtol=1e-6, atol=1e-9)
    ctx.check(at(ax, c[4, :2]), f"{key}-pc", f"{c[4, :2]} in {offsets(ax)}")
    ctx.check(at(ax, [0, 0]), f"{key}-beam")
    s = p["Sample"]
    ctx.close(np.ptp(s[:, 1]), np.ptp(s[:, 0]) * np.cos(np.deg2rad(d.sample_tilt)),
              f"{key}-sample", rtol=1e-6, atol=1e-6 * H)
    ctx.close(s.mean(axis=0), [0, 0], f"{key}-sample-middle", atol=1e-9 * H)


@case(quick=60)
def views(ctx):
    """Side and top views are of the detector that patterns are projected onto"""
    import matplotlib.pyplot as plt

    r = ctx.rng
    d = random_detector(r)
    kw = dict(legend=bool(r.random() < 0.5), dimensionless=bool(r.random() < 0.5))
    given = r.random() < 0.5
    for name, fn in (("side", side_ok), ("top", top_ok)):
        if given:
            _, ax = plt.subplots()
            out = getattr(d, f"plot_{name}_view")(ax=ax, **kw)
            ctx.check(out is None, f"{name}-returned", repr(out))
        else:
            ax = getattr(d, f"plot_{name}_view")(return_figure=True, **kw).axes[0]
        fn(ctx, d, ax)
        ctx.check(("[mm]" in ax.get_xlabel()) is not kw["dimensionless"], f"{name}-unit",
                  ax.get_xlabel())
        ctx.check((ax.get_legend() is not None) is kw["legend"], f"{name}-legend")
    plt.close("all")
    ctx.count("views")
    ctx.distinct("views", d.navigation_shape, given, np.sign(d.tilt), bool(d.azimuthal))


def plane_ok(ctx, d, ax, coords, zoom, show_pc, circles, angles, key="plane"):
    ny, nx = d.shape
    pcx, pcy, pcz = np.array(d.pc).reshape(-1, 3).mean(axis=0)
    if coords == "pixel":
        # from the middle of the first to the middle of the last pixel
        box = np.array([0, max(nx - 1, 1), max(ny - 1, 1), 0], float)
        pc = np.array([pcx * max(nx - 1, 1), pcy * max(ny - 1, 1)])
    else:
        k = nx / ny
        box = np.array([-k * pcx / pcz, k * (1 - pcx) / pcz, -(1 - pcy) / pcz, pcy / pcz])
        pc = np.zeros(2)
        if d.navigation_size > 1:  # the mean of bounds, not the bounds of the mean
            box = np.array(d.gnomonic_bounds).reshape(-1, 4).mean(axis=0)
    lim = np.array(ax.get_xlim() + ax.get_ylim())
    ctx.close(lim, box * zoom, f"{key}-limits", rtol=1e-6, atol=1e-9)
    ctx.check(pc_shown(ax, pc) is bool(show_pc), f"{key}-pc", f"{pc} in {offsets(ax)}")
    got = sorted(q.get_radius() for q in ax.patches if hasattr(q, "get_radius")
                 and np.allclose(q.get_center(), pc))
    if circles:
        ctx.close(got, np.sort(np.tan(np.deg2rad(angles))), f"{key}-circles", rtol=1e-6)
    else:
        ctx.check(not got, f"{key}-circles", f"{got}")
    return box


@case(quick=40)
def plane(ctx):
    """The detector plane, with a pattern, its projection center and circles"""
    import matplotlib.pyplot as plt

    r = ctx.rng
    d = random_detector(r)
    coords = str(r.choice(["pixel", "gnomonic"]))
    zoom = float(r.choice([1, 1, 2.5]))
    show = bool(r.random() < 0.7)
    circles = coords == "gnomonic" and bool(r.random() < 0.6)
    kw, angles = {}, np.linspace(10, 80, 8)
    if circles and r.random() < 0.5:
        angles = np.array([15.0, 50.0])
        kw["gnomonic_angles"] = angles
    img = None
    if r.random() < 0.6:
        img = gen.raw_patterns(r, (), d.shape).astype("float32")
        kw["pattern"] = img
    fig = d.plot(coordinates=coords, zoom=zoom, show_pc=show,
                 draw_gnomonic_circles=circles, return_figure=True, **kw)
    ax = fig.axes[0]
    box = plane_ok(ctx, d, ax, coords, zoom, show, circles, angles)
    if img is not None:
        im = ax.images[0]
        ctx.check(np.array_equal(im.get_array(), img), "plane-pattern")
        ctx.close(im.get_extent(), box, "plane-extent", rtol=1e-6, atol=1e-9)
        # the first row is at the top of the figure
        ctx.check(im.origin == "upper", "plane-origin")
    plt.close(fig)
    ctx.count("planes")
    ctx.distinct("plane", coords, zoom, show, circles, img is not None, d.navigation_shape)


@case(quick=40)
def pcs(ctx):
    """Projection centers in maps and scatter plots"""
    import matplotlib.pyplot as plt

    r = ctx.rng
    mode = str(r.choice(["map", "scatter", "3d"]))
    nav = (2, 3) if mode == "map" or r.random() < 0.5 else (4,)
    d = random_detector(r, nav)
    pc = np.array(d.pc)
    annotate = bool(r.random() < 0.5)
    fig = d.plot_pc(mode=mode, annotate=annotate, return_figure=True, orientation=str(
        r.choice(["horizontal", "vertical"])))
    flat = pc.reshape(-1, 3)
    if mode == "map":
        ims = [a.images[0] for a in fig.axes if a.images]
        ctx.check(len(ims) == 3, "map-images", f"{len(ims)}")
        for i, im in enumerate(ims):
            ctx.close(im.get_array(), pc[..., i], f"map-{i}", rtol=1e-12)
        labels = [a.get_ylabel() for a in fig.axes if not a.get_xlabel()]
        ctx.check(labels == ["PCx", "PCy", "PCz"], "map-labels", f"{labels}")
    elif mode == "scatter":
        for a in fig.axes:
            i, j = (["PCx", "PCy", "PCz"].index(q) for q in (a.get_xlabel(), a.get_ylabel()))
            ctx.close(offsets(a)[0], flat[:, [i, j]], "scatter", rtol=1e-9)
            t = [(q.get_text(), q.get_position()) for q in a.texts]
            if annotate:
                ctx.check(len(t) == len(flat) and all(np.allclose(
                    flat[int(k)][[i, j]], xy) for k, xy in t), "annotations", f"{t}")
            else:
                ctx.check(not t, "annotations")
        ctx.check(len(fig.axes) == 3, "scatter-axes")
    else:
        a = fig.axes[0]
        xyz = np.stack(a.collections[0]._offsets3d, -1)
        cols = [["PCx", "PCy", "PCz"].index(q()) for q in (a.get_xlabel, a.get_ylabel,
                                                           a.get_zlabel)]
        ctx.close(xyz, flat[:, cols], "3d", rtol=1e-9)
    plt.close(fig)
    ctx.count("pcs")
    ctx.distinct("pcs", mode, nav, annotate)


@case(quick=30)
def positions(ctx):
    """Positions of patterns are drawn where they are in the images shown"""
    import kikuchipy as kp
    import matplotlib.pyplot as plt

    r = ctx.rng
    roi = (int(r.integers(2, 12)), int(r.integers(2, 12)))
    o = (int(r.integers(0, 5)), int(r.integers(0, 5)))
    area = (roi[0] + o[0] + int(r.integers(0, 5)), roi[1] + o[1] + int(r.integers(0, 5)))
    n = int(r.integers(1, 6))
    rc = np.stack([r.integers(0, roi[0], n), r.integers(0, roi[1], n)], -1)
    if r.random() < 0.4:
        rc = rc + r.random(rc.shape)
    kw, d = {}, rc
    with_area = r.random() < 0.5
    im, big = r.random(roi), r.random(area)
    if with_area:
        kw.update(area_shape=area, roi_origin=o)
        d = rc + np.array(o)
        if r.random() < 0.5:
            kw["area_image"] = big
    elif r.random() < 0.5:
        kw["roi_origin"] = o
        d = rc + np.array(o)
    if r.random() < 0.6:
        kw["roi_image"] = im
    before = d.copy()
    fig = kp.draw.plot_pattern_positions_in_map(d, roi, return_figure=True, **kw)
    ctx.check(np.array_equal(before, d), "positions-changed", "coordinates passed changed")
    ax = fig.axes[0]
    want = (d if with_area else rc)[:, ::-1]
    got = np.vstack([x for x in offsets(ax)])
    ctx.close(got, want, "positions", rtol=1e-9, atol=1e-9)
    txt = [(t.get_text(), t.get_position()) for t in ax.texts if t.get_text().isdigit()]
    ctx.check(len(txt) == n and all(np.allclose(want[int(k)], xy) for k, xy in txt),
              "labels", f"{txt}")
    ylim = ax.get_ylim()
    ctx.check(ylim[0] > ylim[1], "rows-down", f"{ylim}")
    ctx.close(ax.get_xlim() + ylim, (0, area[1], area[0], 0) if with_area
              else (0, roi[1], roi[0], 0), "limits", atol=1e-9)
    # what the images show at the middle of each of their pixels
    shown = []
    for q in ax.images:
        a = np.asarray(q.get_array())
        x0, x1, yb, yt = q.get_extent()
        # row 0 is at 'yt' (origin upper)
        h = (yb - yt) / a.shape[0]
        w = (x1 - x0) / a.shape[1]
        shown.append({(round(yt + (i + .5) * h, 6), round(x0 + (j + .5) * w, 6)): a[i, j]
                      for i in range(a.shape[0]) for j in range(a.shape[1])})
    want = []
    if "area_image" in kw:
        want.append({(i + .5, j + .5): big[i, j] for i in range(area[0])
                     for j in range(area[1])})
    if "roi_image" in kw:
        p = o if with_area else (0, 0)
        want.append({(i + .5 + p[0], j + .5 + p[1]): im[i, j] for i in range(roi[0])
                     for j in range(roi[1])})
    ctx.check(shown == want, "images", "pixels of images are not where they should be")
    if with_area:
        q = [a for a in ax.artists + ax.patches if hasattr(a, "get_width")][0]
        ctx.check(q.get_xy() == (o[1], o[0]) and (q.get_height(), q.get_width()) == roi,
                  "roi", f"{q}")
    plt.close(fig)
    ctx.count("positions")
    ctx.distinct("positions", with_area, sorted(kw), rc.dtype)


@case(quick=30)
def navigator(ctx):
    """Colour navigators keep the colours' order and proportions, over the full range"""
    import kikuchipy as kp

    r = ctx.rng
    shape = (int(r.integers(1, 9)), int(r.integers(2, 9)), 3)
    k = int(r.integers(3))
    im = [r.random(shape), r.integers(0, 256, shape).astype("uint8"),
          r.normal(3, 10, shape).astype("float32")][k]
    dt = str(r.choice(["uint8", "uint16", "default"]))
    keep = im.copy()
    s = kp.draw.get_rgb_navigator(im, **({} if dt == "default" else {"dtype": dt}))
    name = {"uint8": "rgb8", "uint16": "rgb16", "default": "rgb16"}[dt]
    top = 255 if name == "rgb8" else 65535
    ctx.check(np.array_equal(im, keep), "image-changed")
    ctx.check(s.axes_manager.signal_shape == shape[1::-1] and
              s.axes_manager.navigation_dimension == 0 and s.data.dtype.names ==
              ("R", "G", "B"), "navigator-shape", f"{s} {s.data.dtype}")
    got = np.stack([s.data[c].astype(float) for c in "RGB"], -1)
    f = im.astype(float)
    want = (f - f.min()) / (f.max() - f.min()) * top
    ctx.close(got, want, "navigator", rtol=0, atol=1.01)
    ctx.check(got.max() == top and got.min() == 0, "navigator-range",
              f"{got.min()} {got.max()}")
    ctx.count("navigators")
    ctx.distinct("navigator", k, name)


@case(quick=16)
def plotter(ctx):
    """An interactive figure follows its controls, in any order they are moved"""
    import kikuchipy as kp
    import matplotlib.pyplot as plt
    from kpmon.checks import C03
    from orix.quaternion import Rotation

    r = ctx.rng
    d = random_detector(r, angles=bool(r.random() < 0.7))
    inplace = bool(r.random() < 0.5)
    before = (np.array(d.pc), d.tilt, d.azimuthal, d.twist, d.sample_tilt)
    rot = gen.rotations(r, 1)
    eu = rot.to_euler(degrees=True)[0]
    p = kp.draw.EBSDDetectorPlotter(d, rot, inplace=inplace)
    sim = mp = None
    k = int(r.integers(4))
    if k & 1:
        sim = C03.sim(r, d=2.0)
        p.set_geometrical_simulation(sim.reflectors)
    if k & 2:
        mp = gen.master_pattern(r, 15, "both", "float32")
        p.set_master_pattern(mp)
    coords = str(r.choice(["pixel", "gnomonic"]))
    fig, controls = p.show(coordinates=coords)
    widgets = {}

    def walk(w):
        for c in getattr(w, "children", ()):
            walk(c)
        if getattr(w, "description", "") and hasattr(w, "value"):
            widgets.setdefault(w.description, w)

    walk(controls)
    state = {"Sample tilt [\u00b0]": d.sample_tilt, "Detector tilt [\u00b0]": d.tilt,
             "Azimuthal [\u00b0]": d.azimuthal, "Twist [\u00b0]": d.twist}
    pc = before[0].reshape(-1, 3).mean(axis=0)
    state.update(zip(("PCx", "PCy", "PCz"), pc))
    if k:
        state.update(zip(("\u03c61 [\u00b0]", "\u03a6 [\u00b0]", "\u03c62 [\u00b0]"), eu))
    missing = [q for q in state if q not in widgets]
    ctx.check(not missing, "controls", f"{missing} of {sorted(widgets)}")

    def look():
        now = kp.detectors.EBSDDetector(
            shape=d.shape, px_size=d.px_size, binning=d.binning,
            sample_tilt=state["Sample tilt [\u00b0]"], tilt=state["Detector tilt [\u00b0]"],
            azimuthal=state["Azimuthal [\u00b0]"], twist=state["Twist [\u00b0]"],
            pc=[state[q] for q in ("PCx", "PCy", "PCz")])
        side, top, det = fig.axes
        side_ok(ctx, now, side, "plotter-side")
        top_ok(ctx, now, top, "plotter-top")
        box = plane_ok(ctx, now, det, coords, 1, widgets["PC"].value,
                       widgets["Gnomonic circles"].value, np.linspace(10, 80, 8),
                       "plotter-plane")
        if not k:
            return
        g = Rotation.from_euler([state[q] for q in state if "\u03c6" in q or "\u03a6" in q],
                                degrees=True)
        if mp is not None:
            shown = widgets["Simulation"].value
            ctx.check(len(det.images) == int(shown), "plotter-patterns",
                      f"{len(det.images)}, asked for: {shown}")
            if shown:
                want = mp.get_patterns(g, now, compute=True, show_progressbar=False).data
                want = np.squeeze(want).astype(float)
                want = (want - want.min()) / np.ptp(want)
                im = det.images[0]
                got = np.asarray(im.get_array(), float)
                if im.origin == "lower":
                    ext = np.array(im.get_extent())[[0, 1, 3, 2]]
                else:
                    ext = np.array(im.get_extent())
                ctx.close(ext, box, "plotter-extent", rtol=1e-6, atol=1e-9)
                ctx.close(got, want, "plotter-pattern", rtol=0, atol=2e-4)
                ctx.count("overlays")
        if sim is not None:
            segs = [np.array(s) for c in det.collections if hasattr(c, "get_segments")
                    for s in c.get_segments()]
            if widgets["Geometric"].value:
                geo = sim.on_detector(now, g)
                want = np.asarray(geo.lines_coordinates(
                    index=0, coordinates=coords)).reshape(-1, 2, 2)
                got = np.array(segs).reshape(-1, 2, 2)
                ctx.check(got.shape == want.shape, "plotter-bands",
                          f"{got.shape} and {want.shape}")
                if got.shape == want.shape:
                    ctx.close(got, want, "plotter-bands", rtol=1e-6, atol=1e-6)
                # the zone axes within the screen, once or more
                za = geo.zone_axes_coordinates(index=0, coordinates="pixel",
                                               exclude_nan=False)
                keep = ~np.isnan(za).any(axis=-1)
                if coords == "gnomonic":
                    za = geo.zone_axes_coordinates(index=0, coordinates=coords,
                                                   exclude_nan=False)
                za = np.unique(za[keep].round(5), axis=0)
                got = [np.array(c.get_offsets()) for c in det.collections
                       if not str(c.get_label()).startswith("_pc")
                       and not hasattr(c, "get_segments")]
                got = np.unique(np.vstack(got + [np.zeros((0, 2))]).round(5), axis=0)
                ctx.check(covered(za, got), "plotter-zone-axes",
                          f"{len(got)} and {len(za)}: {got[:5]} {za[:5]}")
                # ...and no others than intersections of bands
                hkl = sim.reflectors.hkl.reshape(-1, 3)
                uvw = np.cross(hkl[:, None], hkl[None]).reshape(-1, 3)
                v = uvw @ sim.phase.structure.lattice.base @ g.to_matrix()[0] @ (
                    now.sample_to_detector.to_matrix()[0].T)
                v = v[v[:, 2] > 1e-9]
                v = v[:, :2] / v[:, 2:]
                if coords == "pixel":
                    x0, x1, y0, y1 = np.ravel(now.gnomonic_bounds)
                    n = np.array(now.shape[::-1])
                    v = (v - [x0, y1]) / [x1 - x0, y0 - y1] * np.maximum(n - 1, 1)
                ctx.check(covered(got, v, 1e-3), "plotter-no-zone-axes",
                          f"{len(got)} of {len(v)}: {got[:5]}")
                ctx.count("overlays")
            else:
                ctx.check(not segs, "plotter-bands-off", f"{len(segs)}")

    look()
    for _ in range(4):
        q = str(r.choice(sorted(widgets)))
        w = widgets[q]
        if q in state:
            w.value = float(r.uniform(w.min, w.max))
            state[q] = w.value
        else:
            w.value = not w.value
        ctx.note(moved=q)
        look()
        ctx.count("moves")
    if inplace:
        ctx.close([d.sample_tilt, d.tilt, d.azimuthal, d.twist, *np.ravel(d.pc)],
                  [state[q] for q in list(state)[:7]], "inplace", rtol=1e-9)
    else:
        now = (np.array(d.pc), d.tilt, d.azimuthal, d.twist, d.sample_tilt)
        ctx.check(all(np.array_equal(x, y) for x, y in zip(before, now)), "not-inplace",
                  f"{before} {now}")
    plt.close("all")
    ctx.count("plotters")
    ctx.distinct("plotter", k, inplace, coords, d.navigation_shape)
