"""Compiled functions stay inside the arrays they are given."""

import contextlib
import re
import traceback

import numpy as np

from kpmon import core, gen
from kpmon.core import SRC, case

PROPERTY = "E01"
RULE = ("one evaluation = one workload (a case of another check, or one of this check's "
        "own at the borders of arrays) run to its end with every index in compiled "
        "functions checked, no read or write outside arrays seen; distinct = workload x "
        "its parameters")
REQUIRED = {"workloads": 250, "edges": 40, "sanitizer_live": 300, "threads": 3}
ASSUMPTIONS = ["Numba's bounds checking (NUMBA_BOUNDSCHECK) raises for every index outside "
               "an array in compiled functions; negative indices inside are Python's"]
BOUNDSCHECK = True
CRASH_KEY = "crash"
LIVE = {}


def live(ctx):
    """The sanitizer is on in this process: a planted overflow is seen."""
    if not LIVE:
        import numba as nb

        @nb.njit
        def overflow(a, i):
            return a[i]

        try:
            overflow(np.zeros(3), 3)
        except IndexError as e:
            LIVE["msg"] = str(e)
        else:
            raise core.Inconclusive("bounds are not checked")
    ctx.count("sanitizer_live")


def outside(e):
    """An index error out of compiled code: raised below a Python frame, without
    NumPy's 'for axis'."""
    while e is not None:
        if isinstance(e, IndexError) and "index is out of bounds" in str(e):
            return e
        e = e.__cause__ or e.__context__
    return None


def where(e):
    fr = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(SRC)]
    return f"{fr[-1].filename[len(SRC):]}:{fr[-1].name}" if fr else "?"


@contextlib.contextmanager
def watched(ctx, what):
    live(ctx)
    try:
        yield
    except Exception as e:
        o = outside(e)
        if o is None:
            raise
        ctx.fail(f"outside:{where(o)}", f"{what}: index out of bounds in {where(o)}")
        raise core.Violation from None


def run_other(ctx, pid, name):
    """A case of another check: its own verdicts are its property's."""
    mod = core.load_check(pid)
    live(ctx)
    sub = core.Ctx(ctx.pid, ctx.tier, f"{pid}.{name}", ctx.index, ctx.base_seed, ctx.tmp)
    ctx.evaluations += 1
    try:
        getattr(mod, name)(sub)
    except (core.Violation, core.Inconclusive):
        pass
    except Exception as e:
        o = outside(e)
        if o is not None:
            ctx.fail(f"outside:{where(o)}", f"{pid}.{name}: index out of bounds in "
                     f"{where(o)}", traceback="".join(traceback.format_exception(o))[-1500:])
    for v in sub.violations:
        t = v["msg"] + " " + " ".join(v["data"].values())
        if re.search(r"IndexError: index is out of bounds(?! for)", t):
            ctx.fail(f"outside:{pid}.{name}", t)
    ctx.count("workloads")
    ctx.count("workload_evaluations", sub.evaluations)
    ctx.keys |= sub.keys


OTHERS = {
    "A01": {"static_background": 6, "dynamic_background": 6, "rescale": 6, "normalize": 6,
            "equalize": 3},
    "A02": {"modes": 10, "modes_split_patterns": 3},
    "A04": {"average": 12, "dot_products": 10, "image_quality": 6},
    "A05": {"transforms": 5, "frequency": 8, "spatial": 10, "binning": 10, "functions": 4},
    "A06": {"named": 8, "transfer": 6},
    "B01": {"given": 4},
    "B02": {"ranges": 6, "convert": 6, "crop_and_bin": 6, "rotation": 6},
    "C01": {"project": 16, "rescaled": 6, "integers": 5, "energies": 5,
            "one_hemisphere": 5, "cropped": 4},
    "C02": {"convert": 8, "projected": 4},
    "C03": {"master": 6, "lines": 6},
    "D01": {"builtin": 10, "custom": 4},
    "D02": {"merge": 4, "similarity": 4},
    "D03": {"orientation": 8, "center": 6, "both": 6, "pseudo": 4},
    "D04": {"alone": 3, "schedules": 4, "threads": 3},
    "G01": {"rebin": 3},
    "G02": {"intensity": 3, "grid": 3},
}


def _register():
    for pid, names in OTHERS.items():
        for name, n in names.items():
            def fn(ctx, pid=pid, name=name):
                run_other(ctx, pid, name)
                if name == "threads":
                    ctx.count("threads")
            fn.__name__ = fn.__qualname__ = f"other_{pid}_{name}"
            globals()[fn.__name__] = case(quick=2 * n)(fn)


_register()


def warm():
    pass


def special(r, n):
    """Orientations putting poles, the equator and the corners of the square Lambert
    projection on the detector's middle pixel."""
    from orix.quaternion import Rotation

    h = np.sqrt(0.5)
    base = np.array([[1, 0, 0, 0], [h, h, 0, 0], [h, 0, h, 0], [h, 0, 0, h], [0, 1, 0, 0],
                     [0, 0, 1, 0], [0, 0, 0, 1], [0.5, 0.5, 0.5, 0.5],
                     [np.cos(np.pi / 8), np.sin(np.pi / 8), 0, 0],
                     [np.cos(np.pi / 8), 0, 0, np.sin(np.pi / 8)]])
    a = Rotation(base[r.integers(0, len(base), n)])
    b = Rotation(base[r.integers(0, len(base), n)])
    c = a * b
    if r.random() < 0.5:
        c = Rotation(c.data * r.choice([1, 1, -1], n)[:, None])
    return c


def tiny_master(r):
    import kikuchipy as kp
    from orix.crystal_map import Phase

    m = int(r.choice([1, 2, 3, 3, 4, 5, 8]))
    n = m if r.random() < 0.8 else int(r.integers(2, 9))
    dt = str(r.choice(["uint8", "uint16", "float32", "float64"]))
    shape = (m, n)
    nav = ()
    if r.random() < 0.3:
        nav = (int(r.integers(1, 4)),)
    hemi = str(r.choice(["upper", "both"]))
    nav2 = ((2,) if hemi == "both" else ()) + nav
    d = (r.random(nav2 + shape) * 200).astype(dt)
    axes = [dict(name=x, size=k, scale=1, offset=0) for x, k in
            zip((["hemisphere"] if hemi == "both" else []) + (["energy"] if nav else [])
                + ["height", "width"], d.shape)]
    return kp.signals.EBSDMasterPattern(
        d, axes=axes, projection="lambert", hemisphere=hemi,
        phase=Phase(name="x", point_group=str(r.choice(["m-3m", "432", "6/mmm", "1"] if hemi == "both"
                                                      else ["m-3m", "6/mmm", "-1"]))))


@case(quick=60)
def edges(ctx):
    """Projection of pixels onto borders and corners of tiny master patterns"""
    import kikuchipy as kp

    r = ctx.rng
    mp = tiny_master(r)
    sig = [(1, 1), (1, 7), (7, 1), (2, 2), (5, 5), (3, 8)][int(r.integers(6))]
    n = int(r.integers(1, 6))
    rot = special(r, n)
    k = r.random()
    if k < 0.4:
        pc = (0.5, 0.5, float(r.choice([0.5, 1, 1e-3, 1e3])))
    elif k < 0.7:
        pc = tuple(float(x) for x in r.choice([0, 0.5, 1, -3, 4], 2)) + (
            float(r.choice([0.3, 1e-6, 50])),)
    else:
        pc = r.uniform(0, 1, (n, 3))
    det = kp.detectors.EBSDDetector(shape=sig, pc=pc, sample_tilt=float(
        r.choice([0, 70, 90, 45])), tilt=float(r.choice([0, 10, 90, -20])))
    kw = {}
    if r.random() < 0.5:
        m = r.random(sig) < 0.5
        if m.all():
            m[-1, -1] = False
        kw["signal_mask"] = m
    with watched(ctx, "get_patterns"):
        try:
            s = mp.get_patterns(rot, det, compute=False, dtype_out=str(r.choice(
                ["float32", "uint8"])), show_progressbar=False, **{
                    k_: v for k_, v in kw.items() if k_ != "signal_mask"})
            p = np.asarray(s.data)
        except (ValueError, ZeroDivisionError, NotImplementedError) as e:
            ctx.count("refused")
            ctx.distinct("edges-refused", type(e).__name__)
            ctx.check(mp.data.shape[-1] != mp.data.shape[-2], "refused-square", repr(e))
            return
    ctx.check(p.shape[-2:] == sig and p.size == n * sig[0] * sig[1], "shape",
              f"{p.shape} for {n} of {sig}")
    ctx.count("edges")
    ctx.distinct("edges", mp.data.shape[-2:], sig, np.ndim(pc), mp.hemisphere)


@case(quick=16)
def lambert(ctx):
    """Conversion between projections of tiny master patterns"""
    import kikuchipy as kp
    from orix.crystal_map import Phase

    r = ctx.rng
    m = int(r.choice([4, 5, 7, 8]))
    hemi = str(r.choice(["upper", "both"]))
    d = r.random((2, m, m) if hemi == "both" else (m, m)).astype("float32")
    axes = [dict(name=x, size=k) for x, k in zip(
        (["hemisphere"] if hemi == "both" else []) + ["height", "width"], d.shape)]
    mp = kp.signals.EBSDMasterPattern(
        d, axes=axes, projection="stereographic", hemisphere=hemi,
        phase=Phase(name="x", point_group="m-3m"))
    with watched(ctx, "as_lambert"):
        q = mp.as_lambert(show_progressbar=False)
    ctx.check(q.data.shape == d.shape and np.isfinite(q.data).all(), "lambert",
              f"{q.data.shape} for {d.shape}")
    ctx.count("edges")
    ctx.distinct("lambert", m, hemi)


@case(quick=24)
def refinement(ctx):
    """Optimizers free to wander: every direction and projection center"""
    import kikuchipy as kp
    from orix.crystal_map import CrystalMap

    r = ctx.rng
    mp = tiny_master(r)
    while mp.data.ndim > 3 or (mp.data.ndim == 3 and mp.hemisphere == "upper") \
            or mp.data.shape[-1] != mp.data.shape[-2] or mp.data.shape[-1] < 2:
        mp = tiny_master(r)
    sig = gen.sig_shape(r, 3, 7)
    n = int(r.integers(2, 4))
    s = kp.signals.EBSD((r.random((n,) + sig) * 250).astype("uint8"))
    det = kp.detectors.EBSDDetector(shape=sig, pc=(0.5, 0.5, float(r.choice([0.5, 0.05]))))
    xm = CrystalMap(special(r, n), x=np.arange(n))
    xm.phases[0].name = "x"
    xm.phases[0].point_group = mp.phase.point_group
    kw = dict(energy=20, method="minimize", method_kwargs=dict(
        method="Nelder-Mead", options=dict(maxiter=25)))
    if r.random() < 0.4:
        kw["signal_mask"] = r.random(sig) < 0.3
    if r.random() < 0.4:
        kw["trust_region"] = None
    name = str(r.choice(["refine_orientation", "refine_projection_center",
                         "refine_orientation_projection_center"]))
    kw = {k: v for k, v in kw.items() if v is not None}
    with watched(ctx, name):
        try:
            getattr(s, name)(xm, det, mp, **kw)
        except (ValueError, ZeroDivisionError) as e:
            ctx.count("refused")
            ctx.note(refused=str(e))
            return
    ctx.count("edges")
    ctx.check(True, "refined")
    ctx.distinct("refine", name, mp.data.shape)


@case(quick=16)
def detector_planes(ctx):
    """Detectors, simulations and windows of the smallest sizes"""
    import kikuchipy as kp

    r = ctx.rng
    with watched(ctx, "windows and detectors"):
        sig = [(1, 1), (1, 5), (4, 1), (2, 3)][int(r.integers(4))]
        det = kp.detectors.EBSDDetector(shape=sig, pc=r.random((2, 3, 3)))
        for k in ("gnomonic_bounds", "r_max", "x_range", "sample_to_detector",
                  "pc_average"):
            getattr(det, k)
        kp.filters.Window("circular", shape=(int(r.integers(1, 6)), int(r.integers(1, 6))))
        w = kp.filters.Window("gaussian", shape=(int(r.integers(1, 5)),), std=1)
        s = kp.signals.EBSD((r.random((3, 4) + (4, 5)) * 250).astype("uint8"))
        s.average_neighbour_patterns(w, inplace=False, show_progressbar=False)
        w2 = kp.filters.Window("rectangular", shape=tuple(int(x) for x in r.integers(1, 6, 2)))
        s.get_average_neighbour_dot_product_map(w2, show_progressbar=False)
        s.get_neighbour_dot_product_matrices(w2, show_progressbar=False)
        s.get_image_quality(show_progressbar=False)
    ctx.count("edges")
    ctx.check(True, "small")
    ctx.distinct("small", sig)


@case(quick=12)
def zero_distance(ctx):
    """Detectors through the source point, where there is no projection: refused,
    or no more than a bad guess of an optimizer"""
    import kikuchipy as kp
    from orix.crystal_map import CrystalMap, Phase

    r = ctx.rng
    m = int(r.choice([5, 8, 13]))
    mp = kp.signals.EBSDMasterPattern(
        r.random((2, m, m)).astype("float32"), projection="lambert", hemisphere="both",
        axes=[dict(name="hemisphere", size=2), dict(name="height", size=m),
              dict(name="width", size=m)], phase=Phase(name="x", point_group="m-3m"))
    sig = gen.sig_shape(r, 3, 7)
    n = int(r.integers(2, 4))
    zero = float(r.choice([0, -0.0, 1e-310]))
    pc = r.uniform(0.3, 0.7, (n, 3))
    pc[int(r.integers(n)), 2] = zero
    if r.random() < 0.4:
        pc = (0.5, 0.5, zero)
    with watched(ctx, "get_patterns at no distance"):
        try:
            mp.get_patterns(gen.rotations(r, n), kp.detectors.EBSDDetector(shape=sig, pc=pc),
                            compute=True, show_progressbar=False)
        except Exception as e:
            ctx.check(isinstance(e, (ValueError, ZeroDivisionError)), "zero-pcz", repr(e))
    s = kp.signals.EBSD((r.random((n,) + sig) * 250).astype("uint8"))
    det = kp.detectors.EBSDDetector(shape=sig, pc=(0.5, 0.5, 0.5))
    xm = CrystalMap(gen.rotations(r, n), x=np.arange(n))
    xm.phases[0].name = "x"
    xm.phases[0].point_group = mp.phase.point_group
    start = np.array([0.5, 0.5, 0.5])
    name = "refine_projection_center"
    if r.random() < 0.5:
        name = "refine_orientation_projection_center"
        start = np.append([1.0, 1, 1], start)
    simplex = start + np.vstack([np.zeros(start.size), 0.1 * np.eye(start.size)])
    simplex[int(r.integers(len(simplex))), -1] = zero
    with watched(ctx, f"{name} at no distance"):
        out = getattr(s, name)(xm, det, mp, energy=20, method="minimize", method_kwargs=dict(
            method="Nelder-Mead", options=dict(maxfev=20, initial_simplex=simplex)))
    scores = np.asarray(getattr(out[0], "scores", out[0]))
    ctx.check(np.isfinite(scores).all(), "zero-pcz-scores", f"{scores}")
    ctx.count("edges")
    ctx.distinct("zero", name, zero, np.ndim(pc))
