"""Kinematical master patterns and geometrical simulations."""

import contextlib
import io
import re

import numpy as np

from kpmon import gen
from kpmon.checks.B02 import frame
from kpmon.core import case

PROPERTY = "C03"
RULE = ("kinematical master patterns add up the reflectors whose bands hold a direction, "
        "the same on any number of threads; simulated lines and zone axes lie where the "
        "lattice planes and directions project onto the detector, and none is missing")
REQUIRED = {"masters": 14, "band-pixels": 40000, "repeated": 40, "simulations": 60,
            "lines": 1000, "zone-axes": 400, "hidden-lines": 300, "markers": 20,
            "rejected": 8}
ASSUMPTIONS = [
    "directions closer than 1e-7 rad to the edge of a band are not judged",
    "pixel coordinates of simulations run from 0 at the left or upper border of the "
    "detector to n - 1 at the opposite one",
    "zone axes between reflectors with Miller indices up to 4 are judged",
]
WORKERS = 4


def warm():
    sim(np.random.default_rng(0)).calculate_master_pattern(half_size=3)


def structures(rng):
    from diffpy.structure import Atom, Lattice, Structure
    from orix.crystal_map import Phase

    name, sg, latt, atoms = [
        ("ni", 225, (3.52, 3.52, 3.52, 90, 90, 90), [("Ni", [0, 0, 0])]),
        ("fe", 229, (2.87, 2.87, 2.87, 90, 90, 90), [("Fe", [0, 0, 0])]),
        ("ti", 194, (2.95, 2.95, 4.68, 90, 90, 120), [("Ti", [1 / 3, 2 / 3, 0.25])]),
        ("gaas", 216, (5.65, 5.65, 5.65, 90, 90, 90),
         [("Ga", [0, 0, 0]), ("As", [0.25, 0.25, 0.25])]),
        ("sn", 141, (5.83, 5.83, 3.18, 90, 90, 90), [("Sn", [0, 0, 0])]),
        ("mono", 14, (3.1, 4.2, 5.1, 90, 98.0, 90), [("Si", [0.1, 0.2, 0.3])]),
        ("tri", 2, (3.1, 3.6, 4.4, 80, 95, 102), [("Si", [0.1, 0.2, 0.3])]),
    ][int(rng.integers(7))]
    st = Structure(lattice=Lattice(*latt),
                   atoms=[Atom(a, xyz) for a, xyz in atoms])
    return Phase(name=name, space_group=sg, structure=st)


def sim(rng, full=True, d=None):
    import kikuchipy as kp
    from diffsims.crystallography import ReciprocalLatticeVector

    ph = structures(rng)
    a = max(ph.structure.lattice.abcABG()[:3])
    ref = ReciprocalLatticeVector.from_min_dspacing(ph, d or a / rng.uniform(1.8, 2.9))
    if len(ref.hkl) > 60:
        ref = ref[rng.choice(ref.size, 60, replace=False)]
    ref.sanitise_phase()
    if full:
        ref.calculate_structure_factor()
        ref.calculate_theta(float(rng.choice([5e3, 15e3, 20e3, 30e3])))
    return kp.simulations.KikuchiPatternSimulator(ref)


def direction(n, pole):
    t = np.linspace(-1, 1, n)
    X, Y = np.meshgrid(t, t)
    r2 = X**2 + Y**2
    v = np.stack([2 * X, 2 * Y, 1 - r2], axis=-1) / (1 + r2)[..., None]
    return v * [1, 1, pole], r2


@case(20)
def master(ctx):
    r = ctx.rng
    s = sim(r)
    half = int(r.integers(2, 40))
    n = 2 * half + 1
    hemi = ctx.choice(["upper", "lower", "both"])
    scaling = ctx.choice(["linear", "square", None])
    kw = {"half_size": half, "hemisphere": hemi, "scaling": scaling}
    if hemi == "upper" and scaling == "linear":
        kw = {"half_size": half}
    keep = s.reflectors.data.copy()
    mp = s.calculate_master_pattern(**kw)
    ctx.equal(s.reflectors.data, keep, "reflectors-changed", "reflectors changed")
    ctx.note(n=n, hemisphere=hemi, scaling=scaling, reflectors=s.reflectors.size,
             phase=s.phase.name)
    ctx.distinct(n, hemi, scaling, s.phase.name)
    ctx.check(mp.projection == "stereographic" and mp.hemisphere == hemi, "kind",
              f"{mp.projection} {mp.hemisphere}")
    ctx.check(mp.phase.name == s.phase.name, "phase", mp.phase.name)
    ctx.check(mp.data.shape == ((2,) if hemi == "both" else ()) + (n, n), "shape",
              f"{mp.data.shape}")
    f = np.array(s.reflectors.structure_factor)
    inten = {"linear": abs(f), "square": abs(f) ** 2, None: np.ones(f.size)}[scaling]
    g = s.reflectors.data / np.linalg.norm(s.reflectors.data, axis=1)[:, None]
    th = np.asarray(s.reflectors.theta)
    for i, pole in enumerate({"upper": [1], "lower": [-1], "both": [1, -1]}[hemi]):
        v, _ = direction(n, pole)
        ang = np.arcsin(np.clip(v @ g.T, -1, 1))  # from the plane of each reflector
        inside = (ang >= 0) & (ang <= th)
        on = abs(ang) < 1e-12
        w = np.where(on, 0.5, inside) @ inten
        edge = (((abs(ang) > 1e-12) & (abs(ang) < 2e-7))
                | (abs(ang - th) < 1e-7)).any(axis=-1)
        got = mp.data[i] if hemi == "both" else mp.data
        e = abs(got - w)[~edge] / inten.sum()
        ctx.check(e.max() < 1e-9, f"intensity:{hemi}:{scaling}",
                  f"{np.count_nonzero(e > 1e-9)} of {e.size} pixels differ, by up to "
                  f"{e.max():.3g} of the sum of intensities")
        ctx.count("band-pixels", int((~edge).sum()))
    ctx.count("masters")


@case(6)
def threads(ctx):
    """Few pixels and many reflectors, again and again on many threads."""
    import numba

    r = ctx.rng
    import kikuchipy as kp
    from diffsims.crystallography import ReciprocalLatticeVector

    ph = structures(r)
    a = max(ph.structure.lattice.abcABG()[:3])
    ref = ReciprocalLatticeVector.from_min_dspacing(ph, a / 7)
    ref.sanitise_phase()
    ref.calculate_structure_factor()
    ref.calculate_theta(20e3)
    s = kp.simulations.KikuchiPatternSimulator(ref)
    ctx.note(reflectors=s.reflectors.size)
    half = int(r.integers(2, 25))
    n0 = numba.get_num_threads()
    try:
        numba.set_num_threads(1)
        one = s.calculate_master_pattern(half_size=half, hemisphere="both").data
        top = numba.config.NUMBA_NUM_THREADS
        for k in range(12):
            numba.set_num_threads(int(max(1, min(top, [top, top, 3, 2][k % 4]))))
            many = s.calculate_master_pattern(half_size=half, hemisphere="both").data
            e = abs(one - many).max() / max(one.max(), 1e-30)
            ctx.check(e < 1e-10, "threads", f"run {k}: relative difference {e:.3g}")
            ctx.count("repeated")
        ctx.count("threads", top)
    finally:
        numba.set_num_threads(n0)


def project(ctx):
    r = ctx.rng
    s = sim(r, full=False, d=None)
    nav = ctx.choice([(1,), (int(r.integers(2, 6)),),
                      (int(r.integers(1, 4)), int(r.integers(1, 4)))])
    one = r.random() < 0.5
    sig = (int(r.integers(8, 60)), int(r.integers(8, 60)))
    det = gen.detector(r, sig, (1,) if one else nav, wild=r.random() < 0.3)
    if not one:
        det.pc = det.pc.reshape(nav + (3,))
    rot = gen.rotations(r, int(np.prod(nav))).reshape(*nav)
    ctx.note(phase=s.phase.name, nav=nav, one_pc=one, sig=sig, pc=det.pc,
             rotations=rot.data)
    ctx.distinct(s.phase.name, nav, one, sig)
    keep = det.deepcopy(), rot.data.copy()
    with contextlib.redirect_stdout(io.StringIO()):
        g = s.on_detector(det, rot)
    ctx.equal(det.pc, keep[0].pc, "detector-changed", "detector changed")
    ctx.equal(rot.data, keep[1], "rotations-changed", "rotations changed")
    ctx.check(g.navigation_shape == nav, "nav", f"{g.navigation_shape}")
    ctx.count("simulations")
    return s, g, det, rot, nav, one


def to_detector(det, rot, i, v):
    """Crystal vectors (n, 3) in the detector frame."""
    om = rot[i].to_matrix().squeeze()  # sample -> crystal
    f = frame(det.sample_tilt, det.tilt, det.azimuthal, det.twist)
    return v @ om @ f.T


def bounds(det, i):
    ny, nx = det.shape
    px, py, pz = det.pc[i if det.navigation_size > 1 else (0,) * (det.pc.ndim - 1)]
    a = nx / ny
    return -px * a / pz, (1 - px) * a / pz, -(1 - py) / pz, py / pz


def to_pixel(det, i, gx, gy):
    x0, x1, y0, y1 = bounds(det, i)
    ny, nx = det.shape
    return (gx - x0) / (x1 - x0) * (nx - 1), (y1 - gy) / (y1 - y0) * (ny - 1)


def hkl_cartesian(s, hkl):
    return np.asarray(hkl) @ s.phase.structure.lattice.recbase.T


@case(40)
def lines(ctx):
    s, g, det, rot, nav, one = project(ctx)
    hkl_all = np.round(s.reflectors.hkl).astype(int)
    hkl = np.round(g.reflectors.hkl).astype(int)
    cart = hkl_cartesian(s, hkl)
    cart_all = hkl_cartesian(s, hkl_all)
    rmax = max(np.hypot(max(abs(b[0]), abs(b[1])), max(abs(b[2]), abs(b[3])))
               for b in (bounds(det, i) for i in np.ndindex(nav)))
    shown = {tuple(k) for k in hkl}
    for i in np.ndindex(nav):
        d = to_detector(det, rot, i, cart)
        nrm = d / np.linalg.norm(d, axis=1)[:, None]
        gn = g.lines_coordinates(i, coordinates="gnomonic", exclude_nan=False)
        px = g.lines_coordinates(i, exclude_nan=False)
        ctx.check(gn.shape == px.shape == (len(hkl), 4), "lines-shape", f"{gn.shape}")
        rho = abs(nrm[:, 2]) / np.hypot(nrm[:, 0], nrm[:, 1])
        vis = (nrm[:, 2] > 1e-4) & (rho < rmax * (1 - 1e-9))
        hid = (nrm[:, 2] < -1e-4) | (rho > rmax * (1 + 1e-9))
        nan = np.isnan(gn).any(axis=1)
        ctx.check(not nan[vis].any(), "line-missing",
                  f"{i}: {hkl[vis & nan][:3].tolist()} are within {rmax}")
        ctx.check(nan[hid].all(), "line-extra", f"{i}: {hkl[hid & ~nan][:3].tolist()}")
        ctx.count("hidden-lines", int(hid.sum()))
        use = vis & ~nan
        for a in (0, 2):
            p = np.column_stack([gn[use][:, a], gn[use][:, a + 1], np.ones(use.sum())])
            dist = abs((p * nrm[use]).sum(axis=1)) / np.linalg.norm(p, axis=1)
            ctx.check(dist.size == 0 or dist.max() < 1e-6, "line-off-plane",
                      f"{i}: a line of {hkl[use][dist.argmax()] if dist.size else 0} is "
                      f"{dist.max() if dist.size else 0:.3g} from its lattice plane")
            ctx.close(np.hypot(p[:, 0], p[:, 1]), np.full(use.sum(), rmax),
                      "line-ends", "line ends on the circle around the PC", 1e-6, 1e-9)
            x, y = to_pixel(det, i, p[:, 0], p[:, 1])
            ctx.close(px[use][:, a: a + 2], np.column_stack([x, y]), "line-pixels",
                      f"{i}: pixel coordinates of line ends", 1e-6, 1e-6)
        if use.any():
            length = np.hypot(gn[use][:, 0] - gn[use][:, 2], gn[use][:, 1] - gn[use][:, 3])
            ctx.close(length, 2 * np.sqrt(np.maximum(rmax**2 - rho[use] ** 2, 0)),
                      "line-length", "chords", 1e-4, 1e-4)
        ctx.count("lines", int(use.sum()))
        # None missing
        da = to_detector(det, rot, i, cart_all)
        na = da / np.linalg.norm(da, axis=1)[:, None]
        for k in hkl_all[na[:, 2] > 1e-4]:
            ctx.check(tuple(k) in shown, "reflector-missing",
                      f"{k} faces the detector in pattern {i}, but is not simulated")
        ok = g.lines_coordinates(i)
        ctx.equal(ok, px[~np.isnan(px).any(axis=1)], "exclude-nan", "exclude_nan")
    return


@case(30)
def zone_axes(ctx):
    s, g, det, rot, nav, one = project(ctx)
    hkl = np.round(g.reflectors.hkl).astype(int)
    if len(hkl) < 3 or abs(hkl).max() > 4:
        return
    base = s.phase.structure.lattice.base
    c = np.cross(hkl[:, None], hkl[None]).reshape(-1, 3)
    c = c[(c != 0).any(axis=1)]
    c = np.unique(c // np.gcd.reduce(c, axis=1)[:, None], axis=0)
    small = abs(c).max(axis=1) < 10
    known = {tuple(k) for k in c}
    for i in np.ndindex(nav):
        det_off = 0.03 * det.nrows
        (texts,) = g.as_collections(i, lines=False, zone_axes_labels=True)
        xy = np.array([t.get_position() for t in texts]).reshape(-1, 2)
        xy[:, 1] += det_off
        plain = g.zone_axes_coordinates(i)
        ctx.close(xy, plain, "labels", "positions of labels and zone axes", 1e-9, 1e-9)
        d = to_detector(det, rot, i, c @ base)
        with np.errstate(all="ignore"):
            gx, gy = d[:, 0] / d[:, 2], d[:, 1] / d[:, 2]
        x, y = to_pixel(det, i, gx, gy)
        ny, nx = det.shape
        vis = (d[:, 2] > 1e-4) & (x > 0) & (x < nx - 1) & (y > 0) & (y < ny - 1)
        for k, xk, yk in zip(c[vis & small], x[vis & small], y[vis & small]):
            # Miller indices may be reduced with a tolerance: look for a label here
            near = np.hypot(xy[:, 0] - xk, xy[:, 1] - yk) < 1e-3 * max(ny, nx)
            ctx.check(near.any(), "zone-axis-missing",
                      f"[{k}] at {xk:.2f}, {yk:.2f} of pattern {i}")
        for t, p in zip(texts, xy):
            m = re.findall(r"-?\d", t.get_text())
            if len(m) != 3 or "".join(m) != t.get_text():
                continue
            u = np.array(m, int)
            ctx.check(tuple(u) in known, "zone-axis-unknown",
                      f"{u} is not the cross product of two visible reflectors")
            d1 = to_detector(det, rot, i, u[None] @ base)[0]
            x1, y1 = to_pixel(det, i, d1[0] / d1[2], d1[1] / d1[2])
            ctx.close(p, [x1, y1], "zone-axis-position", f"{u} in pattern {i}", 1e-5,
                      1e-4)
            ctx.check(d1[2] > 0, "zone-axis-behind", f"{u} in pattern {i}")
            ctx.check(-1.001 <= x1 <= nx + 0.001 and -1.001 <= y1 <= ny + 0.001,
                      "zone-axis-outside", f"{u} at {x1}, {y1} of {det.shape}")
            ctx.count("zone-axes")
        gn = g.zone_axes_coordinates(i, coordinates="gnomonic")
        gp = np.column_stack(to_pixel(det, i, gn[:, 0], gn[:, 1]))
        for p in plain:
            ctx.check(len(gp) and np.hypot(*(gp - p).T).min() < 1e-6, "gnomonic-zone-axis",
                      f"zone axis at {p} has no gnomonic coordinates")


@case(16)
def markers(ctx):
    s, g, det, rot, nav, one = project(ctx)
    m = g.as_markers(lines=True, zone_axes=True, zone_axes_labels=True, pc=True)
    ctx.check(len(m) == 4, "markers", f"{len(m)}")

    def at(marker, name, i):
        v = marker.kwargs[name]
        v = np.asarray(v) if v.dtype != object else v
        if v.dtype == object:
            return np.asarray(v[i[::-1]], float if name != "texts" else None)
        return v

    for i in np.ndindex(nav):
        seg = at(m[0], "segments", i).reshape(-1, 4)
        seg = seg[~np.isnan(seg).any(axis=1)]
        ctx.close(seg, g.lines_coordinates(i), "line-markers", f"markers of {i}", 0, 1e-9)
        off = at(m[1], "offsets", i).reshape(-1, 2)
        off = off[~np.isnan(off).any(axis=1)]
        ctx.close(off, g.zone_axes_coordinates(i), "zone-axis-markers", f"of {i}", 0, 1e-9)
        lab = at(m[2], "offsets", i).reshape(-1, 2)
        lab = lab[~np.isnan(lab).any(axis=1)]
        ctx.close(lab, g.zone_axes_coordinates(i), "label-markers", f"of {i}", 0, 1e-9)
        (texts,) = g.as_collections(i, lines=False, zone_axes_labels=True)
        if m[2].kwargs["texts"].dtype == object and nav != (1,):
            t = [str(k) for k in m[2].kwargs["texts"][i[::-1]]]
            ctx.check(t == [k.get_text() for k in texts], "label-texts", f"{t[:4]}")
        pc = at(m[3], "offsets", i).reshape(-1, 2)[0]
        ny, nx = det.shape
        p = det.pc[i] if not one else det.pc.reshape(3)
        ctx.close(pc, [p[0] * (nx - 1), p[1] * (ny - 1)], "pc-markers", f"PC of {i}",
                  1e-9, 1e-9)
        ctx.count("markers")


@case(8)
def rejected(ctx):
    import kikuchipy as kp

    r = ctx.rng
    s = sim(r, full=False)
    ctx.raises(ValueError, lambda: s.calculate_master_pattern(half_size=2), "no theta")
    s.reflectors.calculate_theta(20e3)
    ctx.raises(ValueError, lambda: s.calculate_master_pattern(half_size=2),
               "no structure factor")
    s.reflectors.calculate_structure_factor()
    ctx.raises(ValueError, lambda: s.calculate_master_pattern(2, scaling="cubic"),
               "unknown scaling")
    ctx.raises(ValueError, lambda: s.calculate_master_pattern(2, hemisphere="north"),
               "unknown hemisphere")
    det = kp.detectors.EBSDDetector(shape=(5, 5), pc=np.full((3, 3), 0.5))
    ctx.raises(ValueError, lambda: s.on_detector(det, gen.rotations(r, 4)),
               "three PCs for four rotations")
    ctx.count("rejected", 5)
