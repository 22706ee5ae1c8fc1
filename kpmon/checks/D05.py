"""Hough indexing."""

import numpy as np

from kpmon import gen
from kpmon.core import case

PROPERTY = "D05"
RULE = ("one evaluation = one map point, indexer attribute, projection center or argument "
        "of a Hough indexing compared with the orientation simulated, the array converted, "
        "PyEBSDIndex called by itself, or its value before; distinct = step x map "
        "dimension x phases x index x units")
REQUIRED = {"converted": 40, "points": 250, "not_indexed": 25, "indexed": 80,
            "indexers": 15, "reflectors": 12, "centers": 8, "rejected": 25,
            "single": 1, "untouched": 50}
ASSUMPTIONS = ["PyEBSDIndex finds the orientations of noise-free patterns 60 pixels wide "
               "to within 2 degrees, save for a few",
               "a signal has one indexed phase where orientations are judged"]
WORKERS = 6

DT = np.dtype([("quat", np.float64, 4), ("iq", np.float32), ("pq", np.float32),
               ("cm", np.float32), ("phase", np.int32), ("fit", np.float32),
               ("nmatch", np.int32), ("matchattempts", np.int32, 2),
               ("totvotes", np.int32)])


def warm():
    from orix.quaternion import Rotation

    # First, since Numba may crash compiling this after other libraries' functions
    r = Rotation.from_euler([0.1, 0.2, 0.3])
    ~r * r
    import kikuchipy as kp

    s = kp.data.nickel_ebsd_small()
    ix = s.detector.get_indexer(s.xmap.phases)
    s.hough_indexing(s.xmap.phases, ix, verbose=0)
    import numpy as np

    det = kp.detectors.EBSDDetector(shape=(24, 26))
    p = master().get_patterns(r, det, energy=20, compute=True, show_progressbar=False,
                              dtype_out="uint8")
    ix = det.get_indexer(s.xmap.phases)
    p.hough_indexing(s.xmap.phases, ix, verbose=0, return_band_data=True)
    off(r, r, s.xmap.phases[0])
    p.hough_indexing_optimize_pc((0.5, 0.5, 0.5), ix)


MP = {}


def master():
    import kikuchipy as kp

    if not MP:
        MP["mp"] = kp.data.nickel_ebsd_master_pattern_small(
            projection="lambert", hemisphere="both")
    return MP["mp"]


def phases(r, n):
    from diffpy.structure import Lattice, Structure
    from orix.crystal_map import Phase, PhaseList

    out = []
    for i in range(n):
        a = float(r.uniform(0.25, 0.5))
        sg = int(r.choice([225, 229]))
        out.append(Phase(f"phase{i}", space_group=sg,
                         structure=Structure(lattice=Lattice(a, a, a, 90, 90, 90))))
    return PhaseList(out)


@case(quick=120)
def convert(ctx):
    from kikuchipy.indexing import xmap_from_hough_indexing_data

    r = ctx.rng
    nav = gen.nav_shape(r, (0, 1, 2, 2))
    if r.random() < 0.15:
        nav = (1,) + nav[-1:]
    n = int(np.prod(nav)) if nav else 1
    n_ph = int(r.integers(1, 4))
    d = np.zeros((n_ph + 1, n), DT)
    q = r.normal(size=(n_ph + 1, n, 4))
    q[..., 0] = np.abs(q[..., 0]) + 0.1
    d["quat"] = q / np.linalg.norm(q, axis=-1, keepdims=True)
    for k in ("pq", "cm", "fit"):
        d[k] = r.random(d.shape)
    d["nmatch"] = r.integers(0, 12, d.shape)
    for i in range(n_ph):
        d["phase"][i] = i
    d["phase"][-1] = r.integers(0, n_ph, n)
    if r.random() < 0.6:
        lost = r.random(n) < 0.3
        if lost.all():
            lost[0] = False
        which = slice(None) if r.random() < 0.5 else -1
        d["phase"][which, lost] = -1
        # (PyEBSDIndex leaves zeros, or what the last try gave)
        if r.random() < 0.5:
            d["quat"][which, lost] = 0
    pl = phases(r, n_ph)
    kw = {}
    if nav and r.random() < 0.8:
        kw["navigation_shape"] = nav
        if r.random() < 0.7:
            kw["step_sizes"] = tuple(float(x) for x in r.uniform(0.1, 3, len(nav)))
    if r.random() < 0.5:
        kw["scan_unit"] = str(r.choice(["um", "nm", "px"]))
    idx = int(r.integers(-1, n_ph))
    if idx != -1 or r.random() < 0.3:
        kw["data_index"] = idx
    was = d.copy()
    names = pl.names
    x = xmap_from_hough_indexing_data(d, pl, **kw)
    row = was[idx]
    ctx.check(d.tobytes() == was.tobytes(), "data-untouched", "index data passed")
    ctx.check(pl.names == names, "phases-untouched", "phase list passed")
    ctx.count("untouched")
    ctx.equal(x.phase_id, row["phase"], "phase", f"phases, {kw}")
    bad = row["phase"] == -1
    want = row["quat"].copy()
    want[bad] = [1, 0, 0, 0]
    ctx.close(np.asarray(x.rotations.data), want, "rotation", "rotations", atol=1e-9)
    for k in ("fit", "cm", "pq", "nmatch"):
        ctx.equal(np.asarray(x.prop[k]), row[k], "property", k)
    shape = kw.get("navigation_shape", (n,))
    steps = kw.get("step_sizes", (1,) * len(shape))
    ij = np.indices(shape).reshape(len(shape), -1)
    for k, name in zip(range(len(shape)), "yx" if len(shape) == 2 else "x"):
        got = getattr(x, name)
        if shape[k] == 1:
            ctx.check(got is None or np.allclose(got, 0), "coordinates", f"{name} of {shape}")
        else:
            ctx.close(got, ij[k] * steps[k], "coordinates", f"{name} of {shape}, {steps}")
    if "scan_unit" in kw:
        ctx.check(x.scan_unit == kw["scan_unit"], "unit", x.scan_unit)
    for i in np.unique(row["phase"][~bad]):
        ctx.check(x.phases[int(i)].name == names[int(i)], "phase-list", f"phase {i}")
    ctx.count("points", n)
    ctx.count("not_indexed", int(bad.sum()))
    ctx.count("converted")
    ctx.distinct("convert", len(nav), n_ph, idx, bool(bad.any()), "step_sizes" in kw)


def simulated(ctx, nav, big=True, tilt_only=False):
    import kikuchipy as kp
    from orix.quaternion import Rotation

    r = ctx.rng
    sig = (60, int(r.choice([60, 66, 54]))) if big else (24, 26)
    n = int(np.prod(nav)) if nav else 1
    pc = r.uniform([0.42, 0.25, 0.5], [0.58, 0.5, 0.65])
    det = kp.detectors.EBSDDetector(
        shape=sig, pc=pc, sample_tilt=float(r.choice([70, 70, 65, 72.5])),
        tilt=float(r.choice([0, 0, 5, -4, 10])))
    q = r.normal(size=(n, 4))
    rot = Rotation(q / np.linalg.norm(q, axis=1, keepdims=True))
    mp = master()
    s = mp.get_patterns(rot, det, energy=20, compute=True, show_progressbar=False,
                        dtype_out="uint8")
    data = np.asarray(s.data).reshape(nav + sig)
    s2 = kp.signals.EBSD(data)
    for a, nm in zip(s2.axes_manager.navigation_axes, "xy"):
        a.name, a.units = nm, "um"
        a.scale = float(r.choice([0.5, 1, 2.5]))
    s2.detector = det
    return s2, rot, det


def nickel():
    from orix.crystal_map import PhaseList

    return PhaseList(master().phase)


def off(rot, got, phase):
    from orix.quaternion import Orientation

    return Orientation(got, phase.point_group).angle_with(
        Orientation(rot, phase.point_group), degrees=True)


@case(quick=24)
def index(ctx):
    r = ctx.rng
    nav = gen.nav_shape(r, (0, 1, 2, 2))
    s, rot, det = simulated(ctx, nav)
    pl = nickel()
    n = rot.size
    use = det.deepcopy()
    if nav and r.random() < 0.4:
        use.pc = np.broadcast_to(det.pc[0], nav + (3,)).copy()
    ix = use.get_indexer(pl)
    was = np.array(s.data)
    kw = dict(verbose=0)
    if r.random() < 0.6:
        kw["chunksize"] = int(r.integers(1, n + 3))
    x, d, b = s.hough_indexing(pl, ix, return_index_data=True, return_band_data=True, **kw)
    ctx.check(np.array_equal(was, s.data), "patterns-untouched", "patterns")
    ctx.close(s.detector.pc, det.pc, "detector-untouched", "PC")
    ctx.count("untouched")
    ctx.check(x.size == n, "size", f"{x.size} points of {n}")
    a = off(rot, x.rotations, master().phase)
    ctx.note(far=float(a.max()))
    ctx.check(np.mean(a < 2.5) >= 0.7, "orientation",
              f"{np.sum(a < 2.5)} of {n} orientations found ({nav})")
    ctx.close(np.asarray(x.rotations.data), d["quat"][-1], "own-data", "returned data",
              atol=1e-9)
    ctx.equal(np.asarray(x.prop["fit"]), d["fit"][-1], "own-data", "fit")
    ctx.check(b.shape[0] == n, "bands", f"bands of {b.shape[0]} patterns")
    # by itself
    d2 = ix.index_pats(patsin=was.reshape((-1,) + was.shape[-2:]), verbose=0,
                       chunksize=528)[0]
    good = np.asarray(d2["phase"][-1]) >= 0
    ctx.close(np.asarray(x.rotations.data)[good], d2["quat"][-1][good], "direct",
              f"PyEBSDIndex by itself, {kw}", atol=1e-6)
    am = s.axes_manager
    ij = np.indices(nav).reshape(len(nav), -1) if nav else []
    for k, ax in enumerate(reversed(am.navigation_axes)):
        got = getattr(x, ax.name)
        ctx.close(got, ij[k] * ax.scale, "coordinates", f"{ax.name} {nav}")
    if nav:
        ctx.check(x.scan_unit == "um", "unit", x.scan_unit)
        ctx.check(x.shape == nav, "shape", f"{x.shape} {nav}")
    else:
        ctx.count("single")
    ctx.count("indexed", n)
    ctx.distinct("index", len(nav), det.tilt, det.sample_tilt, "chunksize" in kw,
                 use.navigation_size > 1)


@case(quick=24)
def indexer(ctx):
    import kikuchipy as kp
    from diffsims.crystallography import ReciprocalLatticeVector

    r = ctx.rng
    n_ph = int(r.integers(1, 3))
    pl = phases(r, n_ph)
    nav = gen.nav_shape(r, (0, 1, 2))
    sig = gen.sig_shape(r, 12, 30)
    pc = r.uniform(0.2, 0.8, nav + (3,))
    det = kp.detectors.EBSDDetector(
        shape=sig, pc=pc, sample_tilt=float(r.uniform(60, 80)),
        tilt=float(r.uniform(-10, 20)), binning=int(r.choice([1, 2, 8])),
        px_size=float(r.uniform(0.5, 70)))
    was = det.deepcopy()
    FAM = np.array([[1, 1, 1], [2, 0, 0], [2, 2, 0], [3, 1, 1], [3, 1, 0], [2, 1, 1]])
    ref, want = [], []
    for i in range(n_ph):
        k = str(r.choice(["none", "array", "list", "rlv"]))
        h = FAM[np.sort(r.choice(6, int(r.integers(3, 6)), replace=False))]
        want.append(None if k == "none" else h)
        _, ph = list(pl)[i]
        ref.append(None if k == "none" else h if k == "array" else h.tolist()
                   if k == "list" else ReciprocalLatticeVector(ph, hkl=h).symmetrise()
                   if r.random() < 0.5 else ReciprocalLatticeVector(ph, hkl=h)
                   if k == "rlv" else None)
    kw = {}
    if any(w is not None for w in want) or r.random() < 0.3:
        kw["reflectors"] = ref
        if n_ph == 1 and want[0] is not None and not isinstance(ref[0], list) \
                and r.random() < 0.5:
            kw["reflectors"] = ref[0]
    nb = int(r.integers(6, 11))
    ix = det.get_indexer(pl, nBands=nb, **kw)
    ctx.close(np.reshape(ix.PC, (-1, 3)), pc.reshape(-1, 3), "pc", f"PCs {nav}")
    ctx.check(np.shape(ix.PC) in ((3,), (max(int(np.prod(nav)), 1), 3)), "pc-shape",
              f"{np.shape(ix.PC)} {nav}")
    ctx.check(tuple(int(q) for q in ix.bandDetectPlan.patDim) == sig, "shape",
              f"{ix.bandDetectPlan.patDim} {sig}")
    ctx.close([ix.sampleTilt, ix.camElev], [det.sample_tilt, det.tilt], "tilts", "tilts")
    ctx.check(ix.vendor.upper() == "KIKUCHIPY", "vendor", ix.vendor)
    ctx.check(ix.bandDetectPlan.nBands == nb, "passed-on", f"{nb} bands asked for")
    ctx.check(len(ix.phaselist) == n_ph, "phases", f"{len(ix.phaselist)} of {n_ph}")
    for (_, ph), got, h in zip(pl, ix.phaselist, want):
        ctx.check(got.phasename == ph.name, "phase", got.phasename)
        ctx.check(got.spacegroup == ph.space_group.number, "phase", "space group")
        # (PyEBSDIndex: degrees, and the unit of lengths does not matter)
        ctx.close(np.asarray(got.latticeparameter),
                  ph.structure.lattice.abcABG(), "phase", "lattice parameters")
        if h is not None:
            g = {tuple(sorted(np.abs(q))) for q in np.asarray(got.polefamilies)}
            ctx.check(len(g) == len(h) and g == {tuple(sorted(q)) for q in h.tolist()},
                      "reflectors",
                      f"{g} of {h.tolist()}")
            ctx.check(len(got.polefamilies) == len(h), "reflectors",
                      f"{len(got.polefamilies)} families of {len(h)}")
            ctx.count("reflectors")
    for k in ("pc", "shape", "tilt", "sample_tilt", "binning", "px_size"):
        ctx.check(np.array_equal(getattr(det, k), getattr(was, k)), "untouched", k)
    ctx.count("untouched")
    ctx.count("indexers")
    ctx.distinct("indexer", n_ph, len(nav), len(kw))


@case(quick=8)
def optimize(ctx):
    from pyebsdindex import pcopt

    r = ctx.rng
    nav = gen.nav_shape(r, (0, 1, 2, 2))
    nav = nav if int(np.prod(nav)) <= 6 else nav[:1]
    s, rot, det = simulated(ctx, nav)
    pl = nickel()
    ix = det.get_indexer(pl)
    pc0 = (det.pc[0] + r.uniform(-0.015, 0.015, 3)).tolist()
    given = [pc0, np.array(pc0), tuple(pc0), np.array([pc0])][int(r.integers(4))]
    batch = bool(r.random() < 0.6)
    was = np.array(s.data)
    det2 = s.hough_indexing_optimize_pc(given, ix, batch=batch)
    ctx.check(np.array_equal(was, s.data), "patterns-untouched", "patterns")
    ctx.close(s.detector.pc, det.pc, "detector-untouched", "PC of the signal")
    ctx.count("untouched")
    pats = was.reshape((-1,) + was.shape[-2:])
    if batch:
        want = pcopt.optimize(pats=pats, indexer=ix, PC0=list(pc0), batch=True)
        # each pattern by itself: the search is the same, its end may differ slightly
        alone = np.array([np.ravel(pcopt.optimize(pats=p[None], indexer=ix, PC0=list(pc0)))
                          for p in pats])
        ctx.close(np.asarray(det2.pc).reshape(-1, 3), alone, "centers-alone",
                  f"PCs of patterns by themselves {nav}", atol=2e-3)
    else:
        want = np.ravel(pcopt.optimize(pats=pats, indexer=ix, PC0=list(pc0)))
    ctx.close(np.asarray(det2.pc).reshape(-1, 3), want.reshape(-1, 3), "centers",
              f"PCs {nav}, batch={batch}", atol=1e-6)
    if batch and nav:
        ctx.check(det2.navigation_shape == nav, "centers-shape",
                  f"{det2.navigation_shape} {nav}")
    if not batch:
        ctx.check(det2.navigation_size == 1, "centers-shape", str(det2.navigation_shape))
    ctx.check(det2.shape == det.shape, "shape", str(det2.shape))
    ctx.close([det2.sample_tilt, det2.tilt], [det.sample_tilt, det.tilt], "tilts",
              "tilts of the detector returned")
    ctx.count("centers")
    ctx.distinct("optimize", len(nav), batch, det.tilt)


@case(quick=10)
def rejected(ctx):
    import kikuchipy as kp
    from kikuchipy.indexing import xmap_from_hough_indexing_data

    r = ctx.rng
    nav = (2, 3)
    s, rot, det = simulated(ctx, nav, big=False)
    pl = nickel()
    n = [0]

    def no(fn, what):
        ctx.raises(ValueError, fn, "rejected", what)
        ctx.count("rejected")

    d = det.deepcopy()
    d.shape = (det.shape[1], det.shape[0])
    no(lambda: s.hough_indexing(pl, d.get_indexer(pl), verbose=0), "another shape")
    d = det.deepcopy()
    d.pc = np.broadcast_to(det.pc[0], (5, 3)).copy()
    no(lambda: s.hough_indexing(pl, d.get_indexer(pl), verbose=0), "five PCs for six")
    ix = det.get_indexer(pl)
    other = phases(r, 1)
    no(lambda: s.hough_indexing(other, ix, verbose=0), "another lattice")
    no(lambda: s.hough_indexing(phases(r, 2), ix, verbose=0), "two phases for one")
    ix2 = det.get_indexer(pl)
    ix2.vendor = "EDAX"
    no(lambda: s.hough_indexing(pl, ix2, verbose=0), "another convention")
    no(lambda: s.hough_indexing_optimize_pc((0.5, 0.5), ix), "two coordinates")
    no(lambda: s.hough_indexing_optimize_pc((0.5, 0.5, 0.5), ix, method="best"), "method")
    no(lambda: s.hough_indexing_optimize_pc((0.5, 0.5, 0.5), d.get_indexer(pl)
                                            if False else ix2), "convention, optimizing")
    no(lambda: det.get_indexer(pl, reflectors=[None, None]), "reflectors of two phases")
    dat = np.zeros((2, 6), DT)
    no(lambda: xmap_from_hough_indexing_data(dat, pl, data_index=3), "no such phase")
    no(lambda: xmap_from_hough_indexing_data(dat, pl, navigation_shape=(1, 2, 3)),
       "three dimensions")
    no(lambda: xmap_from_hough_indexing_data(dat, pl, navigation_shape=(1.5, 4)),
       "a fraction of a point")
    lazy = s.as_lazy()
    if not kp._constants.pyopencl_context_available:
        no(lambda: lazy.hough_indexing(pl, ix, verbose=0), "lazy without OpenCL")
    ctx.distinct("rejected", n[0])
