"""Workload generators: patterns, signals, detectors, crystal maps, files."""

import dask.array as da
import numpy as np

INT_DTYPES = ["uint8", "uint16", "uint32", "int8", "int16", "int32"]
FLOAT_DTYPES = ["float32", "float64"]
RANGES = {
    "uint8": (0, 255),
    "uint16": (0, 65535),
    "uint32": (0, 2**32 - 1),
    "int8": (-128, 127),
    "int16": (-32768, 32767),
    "int32": (-(2**31), 2**31 - 1),
    "float32": (-1.0, 1.0),
    "float64": (-1.0, 1.0),
}


def nav_shape(rng, dims=(0, 1, 2), big=False):
    d = int(rng.choice(dims))
    hi = 9 if big else 5
    if d == 2:
        a, b = rng.integers(2, hi, 2)
        if a == b:  # never square: swapped axes have to show
            b = a + 1
        return (int(a), int(b))
    if d == 1:
        return (int(rng.integers(2, hi + 4)),)
    return ()


def sig_shape(rng, lo=5, hi=18):
    a, b = (int(x) for x in rng.integers(lo, hi, 2))
    if a == b:
        b += 1
    return a, b


def raw_patterns(rng, nav, sig, kind=None):
    """Float patterns in [0, 1] with gradients, band-like edges and noise; each
    pattern of the map is different."""
    n = int(np.prod(nav)) if nav else 1
    r, c = sig
    y, x = np.mgrid[:r, :c]
    out = np.empty((n, r, c))
    for i in range(n):
        k = kind or rng.choice(["grad", "noise", "bands", "spots"])
        gx, gy = rng.uniform(-1, 1, 2)
        p = gx * x / max(c - 1, 1) + gy * y / max(r - 1, 1)
        if k == "noise":
            p = rng.random((r, c))
        elif k == "bands":
            th, d = rng.uniform(0, np.pi), rng.uniform(0, min(r, c))
            p = p + 0.8 * (np.abs(x * np.cos(th) + y * np.sin(th) - d) < 2)
        elif k == "spots":
            p = p + (rng.random((r, c)) > 0.9)
        p = p + 0.15 * rng.random((r, c))
        p -= p.min()
        p /= p.max()
        out[i] = p
    return out.reshape(tuple(nav) + tuple(sig))


def as_dtype(rng, p, dtype, full=None):
    """Patterns *p* (0..1) as *dtype*, over part or all of the range."""
    dtype = np.dtype(dtype)
    lo, hi = RANGES[dtype.name]
    if dtype.kind == "f":
        a = rng.uniform(-3, 3)
        b = a + rng.uniform(0.5, 300)
        return (a + p * (b - a)).astype(dtype)
    if dtype.itemsize == 4:
        # float32 arithmetic cannot resolve more; stay where it can
        lo, hi = max(lo, -(2**22)), min(hi, 2**22)
    if full if full is not None else rng.random() < 0.5:
        return np.round(lo + p * (hi - lo)).astype(dtype)
    a = rng.uniform(lo, lo + 0.4 * (hi - lo))
    b = rng.uniform(a + 0.3 * (hi - lo), hi)
    return np.round(a + p * (b - a)).astype(dtype)


def patterns(rng, nav, sig, dtype="uint8", kind=None, full=None):
    return as_dtype(rng, raw_patterns(rng, nav, sig, kind), dtype, full)


def chunks_for(rng, shape, sig_whole=True):
    """A random chunking of *shape*; ragged, and of the pattern axes as well if
    asked."""
    out = []
    nd = len(shape)
    for i, n in enumerate(shape):
        if i >= nd - 2 and sig_whole:
            out.append((n,))
            continue
        cuts, left = [], n
        top = int(rng.integers(1, n + 1))
        while left:
            k = int(rng.integers(1, min(top, left) + 1))
            cuts.append(k)
            left -= k
        out.append(tuple(cuts))
    return tuple(out)


def axes(rng, nav, sig, step=None):
    names = ["y", "x"][-len(nav):] if nav else []
    out = []
    for nm, n in zip(names, nav):
        out.append(dict(name=nm, size=n, units="um",
                        scale=float(step if step else rng.uniform(0.2, 3)),
                        offset=0.0))
    px = float(rng.uniform(0.5, 3))
    for nm, n in zip(["dy", "dx"], sig):
        out.append(dict(name=nm, size=n, scale=px, offset=0.0, units="um"))
    return out


def phase(name="ni", sg=225, color="tab:blue"):
    from diffpy.structure import Atom, Lattice, Structure
    from orix.crystal_map import Phase

    a = 0.35236 if name == "ni" else 0.40494
    return Phase(
        name=name,
        space_group=sg,
        color=color,
        structure=Structure(
            title=name, lattice=Lattice(a * 10, a * 10, a * 10, 90, 90, 90),
            atoms=[Atom("Ni", (0, 0, 0))],
        ),
    )


def rotations(rng, n):
    from orix.quaternion import Rotation

    q = rng.normal(size=(n, 4))
    q /= np.linalg.norm(q, axis=1)[:, None]
    q *= np.where(q[:, :1] < 0, -1, 1)
    return Rotation(q)


def xmap(rng, nav, steps=None, phases=None, rpp=1, not_indexed=False, in_data=None,
         props=True):
    """Crystal map over *nav*, with per-point rotations and a per-point property
    ("tag") identifying the point."""
    from orix.crystal_map import CrystalMap, PhaseList
    from orix.quaternion import Rotation

    if not nav:
        nav = (1,)
    n = int(np.prod(nav))
    steps = steps or [1.0] * len(nav)
    if len(nav) == 2:
        y, x = np.indices(nav).reshape(2, -1)
        coords = dict(y=y * steps[0], x=x * steps[1])
    else:
        coords = dict(x=np.arange(n) * steps[-1])
    phases = phases or [phase()]
    pid = rng.integers(0, len(phases), n) if len(phases) > 1 else np.zeros(n, int)
    if not_indexed and n > 1:
        m = rng.random(n) < 0.25
        m[0] = False
        pid = np.where(m, -1, pid)
    rot = rotations(rng, n * rpp)
    if rpp > 1:
        rot = Rotation(rot.data.reshape(n, rpp, 4))
    p = {}
    if props:
        p["tag"] = np.arange(n).astype(float)
        p["scores"] = rng.random(n) if rpp == 1 else -np.sort(-rng.random((n, rpp)))
    kw = {}
    if in_data is not None:
        kw["is_in_data"] = in_data
    return CrystalMap(
        rotations=rot, phase_id=pid, phase_list=PhaseList(phases), prop=p,
        scan_unit="um", **coords, **kw,
    )


def detector(rng, sig, nav=None, binning=1, px_size=1.0, wild=False):
    """Detector of *sig* pixels; one PC, or one per point of *nav*."""
    import kikuchipy as kp

    n = int(np.prod(nav)) if nav else 1
    if wild:
        pc = np.column_stack([rng.uniform(-0.5, 1.5, n), rng.uniform(-0.5, 1.5, n),
                              rng.uniform(0.2, 1.5, n)])
    else:
        pc = np.column_stack([rng.uniform(0.3, 0.7, n), rng.uniform(0.2, 0.8, n),
                              rng.uniform(0.4, 0.8, n)])
    pc = pc.reshape((tuple(nav) if nav else (1,)) + (3,))
    return kp.detectors.EBSDDetector(
        shape=sig,
        pc=pc,
        binning=binning,
        px_size=float(px_size),
        sample_tilt=float(rng.choice([70.0, 65.0, 72.5, rng.uniform(55, 80)])),
        tilt=float(rng.choice([0.0, 5.0, rng.uniform(-15, 20)])),
        azimuthal=float(rng.choice([0.0, 0.0, rng.uniform(-15, 15)])),
        twist=float(rng.choice([0.0, 0.0, rng.uniform(-5, 5)])),
    )


def signal(rng, nav, sig, dtype="uint8", lazy=False, sig_whole=True, data=None,
           with_xmap=True, with_bg=True, det_nav="maybe", chunks=None, kind=None,
           square_step=False):
    """EBSD signal with crystal map, detector and static background, all of which
    say where in the map and on the detector they belong."""
    import kikuchipy as kp

    if data is None:
        data = patterns(rng, nav, sig, dtype, kind)
    ax = axes(rng, nav, sig, step=1.5 if square_step else None)
    det = None
    if det_nav == "maybe":
        det_nav = bool(nav) and rng.random() < 0.5
    det = detector(rng, sig, nav if det_nav else None)
    kw = dict(axes=ax, detector=det)
    if with_bg:
        bg = raw_patterns(rng, (), sig, "grad") * 0.6 + 0.3
        kw["static_background"] = as_dtype(rng, bg, data.dtype, full=True)
    if with_xmap and nav:
        kw["xmap"] = xmap(rng, nav, steps=[a["scale"] for a in ax[: len(nav)]])
    s = kp.signals.EBSD(data.copy(), **kw)
    s.metadata.General.title = "gen"
    if lazy:
        s = s.as_lazy()
        s.data = s.data.rechunk(chunks or chunks_for(rng, data.shape, sig_whole))
    return s


def master_pattern(rng, n=31, hemisphere="both", dtype="float32", projection="lambert",
                   smooth=True, nenergy=None, phase_=None):
    """Lambert/stereographic master pattern whose upper and lower hemispheres differ
    (no symmetry: misplaced pixels have to show)."""
    import kikuchipy as kp
    from scipy.ndimage import gaussian_filter

    shape = (n, n)
    k = nenergy or 1
    h = 2 if hemisphere == "both" else 1
    d = rng.random((h, k) + shape)
    if smooth:
        d = np.stack([[gaussian_filter(q, 1.5, mode="nearest") for q in p] for p in d])
    if h == 2:
        # The two hemispheres meet at the equator: the outermost pixels agree
        if projection == "lambert":
            d[1, :, 0], d[1, :, -1] = d[0, :, 0], d[0, :, -1]
            d[1, :, :][:, 0], d[1, :, :][:, -1] = d[0, :, :][:, 0], d[0, :, :][:, -1]
    d -= d.min()
    d /= d.max()
    data = as_dtype(rng, d, dtype, full=True) if np.dtype(dtype).kind != "f" else (
        d.astype(dtype))
    ax = []
    if h == 2:
        ax.append(dict(name="hemisphere", size=2, scale=1))
    else:
        data = data[0]
    if nenergy:
        ax.append(dict(name="energy", size=k, scale=1.0, offset=15.0, units="keV"))
    else:
        data = data[:, 0] if h == 2 else data[0]
    ax += [dict(name="height", size=n, scale=1, offset=-(n // 2)),
           dict(name="width", size=n, scale=1, offset=-(n // 2))]
    return kp.signals.EBSDMasterPattern(
        data, axes=ax, projection=projection, hemisphere=hemisphere,
        phase=phase_ or phase(),
    )
