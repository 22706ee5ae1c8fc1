"""Refinement of orientations and projection centers."""

import contextlib
import io
import os
import sys
import warnings

import numpy as np

from kpmon import gen
from kpmon.checks.C01 import directions, look
from kpmon.core import case
from kpmon.sched import Scheduler

# NLopt is not installed
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(__file__)), "fakes"))

PROPERTY = "D03"
RULE = ("the score which refinement reports for a pattern is its correlation with the "
        "projection at the refined orientation and projection center, no worse than at "
        "the start, within the trust region, and placed at that pattern's point")
REQUIRED = {"refined": 400, "orientation": 150, "pc": 100, "both": 80, "masked": 20,
            "masked-pixels": 20, "trust": 40, "improved": 250, "pseudo": 15,
            "pseudo-other": 5, "varying": 20, "lazy": 15, "later": 15, "not-indexed": 8,
            "global": 4, "rejected": 20}
ASSUMPTIONS = [
    "correlations are compared to 2e-4: they are computed in single precision",
    "trust regions on Euler angles are judged where the second angle is not near 0 or "
    "180 degrees",
    "NLopt is not installed in this sandbox: a stand-in with its interface is run",
]
WORKERS = 6


def warm():
    r = np.random.default_rng(0)
    for dt in ["uint8", "float32", "float64"]:
        p = problem(r, dtype=dt, nav=(2,), sig=(5, 6), n=11)
        for fn in ["refine_orientation", "refine_projection_center",
                   "refine_orientation_projection_center"]:
            with quiet():
                getattr(p.s, fn)(xmap=p.xmap, detector=p.det, master_pattern=p.mp,
                                 energy=20, method_kwargs={"options": {"maxfev": 2}})


@contextlib.contextmanager
def quiet():
    import dask

    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), \
            warnings.catch_warnings(), dask.config.set(scheduler="threads"):
        warnings.simplefilter("ignore")
        yield


class Problem:
    pass


def small(r, n, deg):
    from orix.quaternion import Rotation

    ax = r.normal(size=(n, 3))
    ax /= np.linalg.norm(ax, axis=1)[:, None]
    h = np.deg2rad(r.uniform(0.2, 1, (n, 1)) * deg) / 2
    return Rotation(np.hstack([np.cos(h), ax * np.sin(h)]))


def problem(r, dtype=None, nav=None, sig=None, n=None, varying=None, lazy=None,
            deg=1.5, shift=0.01, noise=None, rpp=None, energies=None, two_phases=False,
            not_indexed=False):
    """Patterns projected at known orientations and projection centers, with others
    close by to start from."""
    import kikuchipy as kp
    from orix.crystal_map import CrystalMap, PhaseList
    from orix.quaternion import Rotation

    p = Problem()
    p.nav = nav = nav or [(int(r.integers(2, 7)),),
                          (int(r.integers(2, 5)), int(r.integers(2, 5)))][
        int(r.integers(2))]
    p.n = k = int(np.prod(nav))
    p.sig = sig = sig or (int(r.integers(6, 15)), int(r.integers(6, 15)))
    varying = r.random() < 0.4 if varying is None else varying
    p.varying = varying
    det = gen.detector(r, sig, nav if varying else (1,), px_size=20.0)
    n = n or int(r.choice([15, 25, 31]))
    ph = gen.phase("abc", 225)
    energies = (r.random() < 0.3) if energies is None else energies
    mp = gen.master_pattern(r, n, nenergy=3 if energies else None,
                            dtype=str(r.choice(["float32", "float32", "uint8"])),
                            phase_=ph)
    d = np.asarray(mp.data).astype(float)
    p.energy = 20
    if energies:
        e = int(r.integers(3))
        p.energy = 15 + e
        d = d[:, e]
    p.halves = d[0], d[1]
    p.mp, p.det = mp, det
    p.true = gen.rotations(r, k)
    p.start = small(r, k, deg) * p.true
    p.rpp = rpp or int(r.choice([1, 1, 3]))
    # Patterns come from projection centers a bit off those given
    td = det.deepcopy()
    td.pc = td.pc + r.uniform(-shift, shift, td.pc.shape)
    p.true_pc = td.pc
    dirs = directions(td).reshape(-1, *sig, 3)
    pats = np.stack([look(*p.halves, p.true[i].data.ravel(),
                          dirs[i if varying else 0])[0] for i in range(k)])
    noise = r.choice([0, 0.02, 0.1]) if noise is None else noise
    pats = pats + noise * np.ptp(pats) * r.random(pats.shape)
    lo = pats.min(axis=(1, 2), keepdims=True)
    pats = (pats - lo) / (pats.max(axis=(1, 2), keepdims=True) - lo)
    p.dtype = dtype = dtype or str(r.choice(["uint8", "uint16", "float32", "float64"]))
    pats = gen.as_dtype(r, pats, dtype, full=True).reshape(nav + sig)
    p.patterns = pats
    scale = [float(r.choice([1.0, 0.5, 2.0])) for _ in nav]
    p.scale = scale
    ax = [dict(name=a, size=b, scale=c, units="um")
          for a, b, c in zip("yx"[-len(nav):], nav, scale)]
    ax += [dict(name=a, size=b, scale=1) for a, b in zip(("dy", "dx"), sig)]
    s = kp.signals.EBSD(pats, axes=ax)
    p.lazy = r.random() < 0.3 if lazy is None else lazy
    if p.lazy:
        s = s.as_lazy()
        s.data = s.data.rechunk(gen.chunks_for(r, pats.shape))
    p.s = s
    q = p.start.data.reshape(k, 1, 4)
    if p.rpp > 1:
        q = np.concatenate([q] + [gen.rotations(r, k).data[:, None]
                                  for _ in range(p.rpp - 1)], axis=1)
    y, x = np.indices((1,) * (2 - len(nav)) + nav).reshape(2, -1)
    kw = {"x": x * scale[-1]}
    if len(nav) == 2:
        kw["y"] = y * scale[0]
    p.pid = int(r.integers(0, 3))
    pid = np.full(k, p.pid)
    phases = {p.pid: ph}
    p.use = np.ones(k, bool)
    if not_indexed:
        p.use = r.random(k) < 0.7
        p.use[int(r.integers(k))] = True
        pid[~p.use] = -1
    if two_phases:
        p.other = r.random(k) < 0.5
        p.other[int(r.integers(k))] = False
        pid[p.other & (pid >= 0)] = p.pid + 2
        phases[p.pid + 2] = gen.phase("def", 229)
    pl = PhaseList(list(phases.values()), ids=list(phases))
    if not_indexed:
        pl.add_not_indexed()
    p.xmap = CrystalMap(rotations=Rotation(q if p.rpp > 1 else q[:, 0]), phase_id=pid,
                        phase_list=pl, scan_unit="um",
                        prop={"scores": r.random((k, p.rpp) if p.rpp > 1 else k)}, **kw)
    return p


def ncc(a, b):
    a, b = a - a.mean(), b - b.mean()
    return float((a * b).sum() / np.sqrt((a * a).sum() * (b * b).sum()))


def score(p, i, quat, pc, pixels):
    """Correlation of pattern i with the projection."""
    d = p.det.deepcopy()
    d.pc = np.reshape(pc, (1, 3))
    sim = look(*p.halves, np.ravel(quat), directions(d).reshape(*p.sig, 3))[0]
    pat = p.patterns.reshape((p.n,) + p.sig)[i].astype(float)
    return ncc(pat[pixels], sim[pixels])


def start_pc(p, i):
    pc = p.det.pc.reshape(-1, 3)
    return pc[i if p.varying else 0]


def common(ctx, p, nav_mask=True, sig_mask=True):
    r = ctx.rng
    kw = dict(xmap=p.xmap, detector=p.det, master_pattern=p.mp, energy=p.energy)
    p.todo = p.use.copy()
    p.in_data = np.ones(p.n, bool)
    pixels = np.ones(p.sig, bool)
    if nav_mask and r.random() < 0.4:
        if r.random() < 0.5:  # a block
            m = np.ones(p.nav, bool)
            a = [sorted(r.choice(k + 1, 2, replace=False)) for k in p.nav]
            m[tuple(slice(*q) for q in a)] = False
        else:
            m = r.random(p.nav) < 0.4
        m.flat[int(np.flatnonzero(p.todo)[0])] = False
        kw["navigation_mask"] = m
        p.in_data = ~m.ravel()
        p.todo &= ~m.ravel()
        ctx.count("masked")
    if sig_mask and r.random() < 0.3:
        m = r.random(p.sig) < 0.4
        kw["signal_mask"] = m
        pixels = ~m
        ctx.count("masked-pixels")
    if r.random() < 0.3:
        kw["rechunk"] = False
    elif r.random() < 0.5:
        kw["chunk_kwargs"] = {"chunk_shape": int(r.integers(1, 5))}
    if p.lazy:
        ctx.count("lazy")
    if p.varying:
        ctx.count("varying")
    ctx.note(mp=str(p.mp.data.dtype), nav=p.nav, sig=p.sig, dtype=p.dtype, varying=p.varying, lazy=p.lazy,
             rpp=p.rpp, todo=p.todo, phase_id=p.pid, scale=p.scale,
             options={k: str(v) for k, v in kw.items() if k not in (
                 "xmap", "detector", "master_pattern")})
    ctx.distinct(p.nav, p.sig, p.dtype, p.varying, p.lazy, p.rpp)
    return kw, pixels


def method(ctx, kw):
    r = ctx.rng
    k = r.integers(6)
    if k == 0:
        kw["method_kwargs"] = dict(method="Powell", options={"maxfev": 300})
    elif k == 1:
        kw["method_kwargs"] = dict(method="L-BFGS-B")
    elif k == 2:
        kw["method_kwargs"] = dict(method="Nelder-Mead", options={"maxfev": 60})
        ctx.count("limited")
    elif k == 3:
        kw["method"] = ctx.choice(["LN_NELDERMEAD", "ln_neldermead"])
        kw["rtol"] = 1e-5
        if r.random() < 0.5:
            kw["maxeval"] = int(r.integers(20, 200))
        ctx.count("nlopt")
    return kw


def run(ctx, p, name, kw, later):
    import dask
    import kikuchipy as kp

    if ctx.rng.random() < 0.5:
        sch = Scheduler(int(ctx.rng.integers(2**31)), ctx.choice(["deep", "wide",
                                                                  "random"]))
    else:
        sch = "threads"
    with quiet(), dask.config.set(scheduler=sch):
        if not later:
            return getattr(p.s, name)(**kw)
        ctx.count("later")
        res = getattr(p.s, name)(**kw, compute=False)
        ctx.check(hasattr(res, "dask") and len(res) == p.todo.sum(), "later-shape",
                  f"{type(res)}, {getattr(res, 'shape', None)}")
        a = dict(results=res, xmap=p.xmap, navigation_mask=kw.get("navigation_mask"))
        if name == "refine_orientation":
            return kp.indexing.compute_refine_orientation_results(
                master_pattern=p.mp,
                pseudo_symmetry_checked="pseudo_symmetry_ops" in kw, **a)
        if name == "refine_projection_center":
            return kp.indexing.compute_refine_projection_center_results(
                detector=p.det, **a)
        return kp.indexing.compute_refine_orientation_projection_center_results(
            detector=p.det, master_pattern=p.mp,
            pseudo_symmetry_checked="pseudo_symmetry_ops" in kw, **a)


def layout(ctx, p, xm, key):
    """The refined map is that of the points which were to be refined."""
    ctx.equal(np.asarray(xm.is_in_data), p.in_data, f"in-data:{key}", "points in data")
    ctx.equal(np.asarray(xm.is_indexed), p.todo[p.in_data], f"indexed:{key}",
              "points indexed")
    todo = p.todo[p.in_data]
    ctx.check((xm.phase_id[todo] == p.pid).all() and xm.phases[p.pid].name == "abc",
              f"phase:{key}", f"{xm.phase_id}, {xm.phases.names}")
    ctx.check(xm.rotations_per_point == 1, f"rpp:{key}", f"{xm.rotations_per_point}")
    ctx.check(xm.scan_unit == "um", f"unit:{key}", xm.scan_unit)
    for nm in "xy":
        want = getattr(p.xmap, nm)
        if want is not None:
            ctx.close(getattr(xm, nm), np.asarray(want)[p.in_data], f"{nm}:{key}",
                      f"{nm} coordinates", 0, 1e-9)
    ctx.check(set(xm.prop) >= {"scores", "num_evals"}, f"prop:{key}", f"{set(xm.prop)}")
    # One row per point in all of the map, to look points up in
    full = np.full(p.n, np.nan), np.full((p.n, 4), np.nan), np.zeros(p.n)
    full[0][p.in_data] = xm.prop["scores"]
    full[1][p.in_data] = xm.rotations.data.reshape(-1, 4)
    full[2][p.in_data] = xm.prop["num_evals"]
    return full


def judge(ctx, p, i, got, quat, pc, pixels, key, evals, starts=None, promised=True):
    ctx.count("refined")
    have = score(p, i, quat, pc, pixels)
    ctx.close(got, have, f"score:{key}", f"score of point {i}, from where it was refined "
              "to", 0, 2e-4)
    first = max(score(p, i, q, c, pixels) for q, c in starts)
    if promised:
        ctx.check(got >= first - 2e-4, f"worse:{key}",
                  f"score of point {i} went from {first:.5f} to {got:.5f}")
    if got > first + 1e-4:
        ctx.count("improved")
    ctx.check(evals >= 1, f"evaluations:{key}", f"{evals} evaluations")


def in_angles(ctx, quat, start, trust, key):
    from orix.quaternion import Rotation

    a, b = (Rotation(np.ravel(q)).to_euler(degrees=True).ravel() for q in (quat, start))
    if not 12 < b[1] < 168 or not 12 < a[1] < 168:
        return
    d = abs((a - b + 180) % 360 - 180)
    ctx.check((d <= np.asarray(trust) + 1e-6).all(), f"outside:{key}",
              f"Euler angles {a} are {d} from {b}, allowed {trust}")
    ctx.count("trust")


def trusted(r, kind):
    ang = [float(v) for v in r.uniform(0.3, 3, 3)]
    pcs = [float(v) for v in r.uniform(0.003, 0.03, 3)]
    t = {"ori": ang, "pc": pcs, "both": ang + pcs}[kind]
    return [t, tuple(t), np.array(t)][int(r.integers(3))]


@case(40)
def orientation(ctx):
    r = ctx.rng
    ni = bool(r.random() < 0.3)
    p = problem(r, not_indexed=ni)
    if ni:
        ctx.count("not-indexed")
    kw, pixels = common(ctx, p)
    method(ctx, kw)
    if r.random() < 0.5:
        kw["trust_region"] = trusted(r, "ori")
    xm = run(ctx, p, "refine_orientation", kw, r.random() < 0.4)
    key = "orientation"
    sc, quat, ev = layout(ctx, p, xm, key)
    for i in np.flatnonzero(p.todo):
        judge(ctx, p, i, sc[i], quat[i], start_pc(p, i), pixels, key, ev[i],
              [(p.start[i].data, start_pc(p, i))])
        if "trust_region" in kw:
            in_angles(ctx, quat[i], p.start[i].data, kw["trust_region"], key)
        ctx.count("orientation")


def pcs_of(ctx, p, det, key):
    """Projection centers of the refined points, and that the shape of the map is
    kept when these make up a block."""
    n = int(p.todo.sum())
    pc = det.pc_flattened
    if not ctx.check(pc.shape == (n, 3), f"pc-shape:{key}", f"{det.pc.shape} for {n}"):
        return None
    idx = np.argwhere(p.todo.reshape(p.nav))
    ext = tuple(np.ptp(idx, axis=0) + 1)
    want = ext if np.prod(ext) == n and (p.todo == p.in_data).all() else (n,)
    ctx.check(det.navigation_shape == want, f"pc-map:{key}",
              f"{det.navigation_shape}, not {want}")
    for a in ["shape", "tilt", "sample_tilt", "azimuthal", "twist", "px_size"]:
        ctx.check(getattr(det, a) == getattr(p.det, a), f"detector:{key}", a)
    return pc


@case(30)
def center(ctx):
    r = ctx.rng
    ni = bool(r.random() < 0.2)
    p = problem(r, not_indexed=ni, deg=0.3, shift=0.02)
    kw, pixels = common(ctx, p)
    method(ctx, kw)
    if r.random() < 0.5:
        kw["trust_region"] = trusted(r, "pc")
    keep = p.det.pc.copy()
    sc, det, ev = run(ctx, p, "refine_projection_center", kw, r.random() < 0.4)
    key = "pc"
    ctx.equal(p.det.pc, keep, "detector-changed", "PCs of the detector passed")
    pc = pcs_of(ctx, p, det, key)
    n = int(p.todo.sum())
    if not ctx.check(sc.size == n and ev.size == n and sc.shape == det.navigation_shape,
                     "score-shape", f"{sc.shape} for {n}") or pc is None:
        return
    sc, ev = sc.ravel(), ev.ravel()
    for j, i in enumerate(np.flatnonzero(p.todo)):
        c = start_pc(p, i)
        judge(ctx, p, i, sc[j], p.start[i].data, pc[j], pixels, key, ev[j],
              [(p.start[i].data, c)])
        if "trust_region" in kw:
            d = abs(pc[j] - c)
            ctx.check((d <= np.asarray(kw["trust_region"]) + 1e-6).all(), "outside:pc",
                      f"projection center moved {d}, allowed {kw['trust_region']}")
            ctx.count("trust")
        ctx.count("pc")


@case(24)
def both(ctx):
    r = ctx.rng
    ni = bool(r.random() < 0.2)
    p = problem(r, not_indexed=ni, deg=1.0, shift=0.015)
    kw, pixels = common(ctx, p)
    method(ctx, kw)
    if r.random() < 0.5:
        kw["trust_region"] = trusted(r, "both")
    trust = np.array(kw.get("trust_region", 0), float)
    xm, det = run(ctx, p, "refine_orientation_projection_center", kw, r.random() < 0.4)
    key = "both"
    sc, quat, ev = layout(ctx, p, xm, key)
    pc = pcs_of(ctx, p, det, key)
    if pc is None:
        return
    for j, i in enumerate(np.flatnonzero(p.todo)):
        c = start_pc(p, i)
        judge(ctx, p, i, sc[i], quat[i], pc[j], pixels, key, ev[i],
              [(p.start[i].data, c)])
        if "trust_region" in kw:
            in_angles(ctx, quat[i], p.start[i].data, trust[:3], key)
            d = abs(pc[j] - c)
            ctx.check((d <= trust[3:] + 1e-6).all(), "outside:both",
                      f"projection center moved {d}, allowed {trust[3:]}")
        ctx.count("both")


@case(16)
def pseudo(ctx):
    """Of the orientations related by pseudo-symmetry, the best is found and told."""
    from orix.quaternion import Rotation

    r = ctx.rng
    full = r.random() < 0.4
    p = problem(r, deg=1.0, shift=0.003 if full else 0.0, noise=0.02)
    kw, pixels = common(ctx, p)
    k = int(r.integers(1, 4))
    ops = Rotation.from_axes_angles(r.normal(size=(k, 3)), r.uniform(20, 180, k),
                                    degrees=True)
    # Some points start from the wrong one
    wrong = r.integers(0, k + 1, p.n)
    q = p.start.data.copy()
    for i, w in enumerate(wrong):
        if w:
            q[i] = (~ops[w - 1] * p.start[i]).data
    p.start = Rotation(q)
    rot = p.xmap.rotations.data.copy().reshape(p.n, p.rpp, 4)
    rot[:, 0] = q
    from orix.crystal_map import CrystalMap

    kx = {a: getattr(p.xmap, a) for a in "xy" if getattr(p.xmap, a) is not None}
    p.xmap = CrystalMap(rotations=Rotation(rot if p.rpp > 1 else rot[:, 0]),
                        phase_id=p.xmap.phase_id, phase_list=p.xmap.phases,
                        scan_unit="um", **kx)
    kw["xmap"] = p.xmap
    kw["pseudo_symmetry_ops"] = ops
    trust = [3.0, 3.0, 3.0] + ([0.02] * 3 if full else [])
    if r.random() < 0.6:
        kw["trust_region"] = trust
    name = "refine_orientation" + ("_projection_center" if full else "")
    ctx.note(ops=ops.data, wrong=wrong, mode=name)
    out = run(ctx, p, name, kw, r.random() < 0.4)
    key = "pseudo" + ("-both" if full else "")
    xm, det = out if full else (out, None)
    sc, quat, ev = layout(ctx, p, xm, key)
    idx = np.full(p.n, -1)
    idx[p.in_data] = xm.prop["pseudo_symmetry_index"]
    pc = det.pc_flattened if full else None
    for j, i in enumerate(np.flatnonzero(p.todo)):
        c = start_pc(p, i)
        cand = [p.start[i].data] + [(o * p.start[i]).data for o in ops]
        judge(ctx, p, i, sc[i], quat[i], pc[j] if full else c, pixels, key, ev[i],
              [(q, c) for q in cand])
        if not ctx.check(0 <= idx[i] <= k, f"index-range:{key}", f"{idx[i]}"):
            continue
        if "trust_region" in kw:
            in_angles(ctx, quat[i], cand[idx[i]], trust[:3], key)
        ctx.count("pseudo")
        if idx[i]:
            ctx.count("pseudo-other")
        q[i] = cand[idx[i]]
    # Starting from the one said to be the best gives the same
    if (idx < 0).all() or idx.max() > k:
        return
    rot[:, 0] = q
    kw["xmap"] = CrystalMap(rotations=Rotation(rot if p.rpp > 1 else rot[:, 0]),
                            phase_id=p.xmap.phase_id, phase_list=p.xmap.phases,
                            scan_unit="um", **kx)
    del kw["pseudo_symmetry_ops"]
    again = run(ctx, p, name, kw, False)
    again = again[0] if full else again
    todo = p.todo[p.in_data]
    ctx.close(again.prop["scores"][todo], xm.prop["scores"][todo], f"index:{key}",
              "scores from the orientations whose indices are given", 0, 1e-6)


@case(6)
def globally(ctx):
    """Global methods report what they found as well."""
    r = ctx.rng
    p = problem(r, nav=(2,), sig=(6, 7), n=15)
    kw, pixels = common(ctx, p)
    m = ctx.choice(["differential_evolution", "dual_annealing", "shgo", "basinhopping"])
    kw["method"] = m
    opts = {"differential_evolution": dict(maxiter=3, popsize=4),
            "dual_annealing": dict(maxiter=3),
            "shgo": dict(sampling_method="sobol", n=8),
            "basinhopping": dict(niter=2)}[m]
    kw["method_kwargs"] = opts
    if m != "basinhopping":
        kw["trust_region"] = [2.0, 2.0, 2.0]
    ctx.note(method=m)
    xm = run(ctx, p, "refine_orientation", kw, r.random() < 0.4)
    key = m
    sc, quat, ev = layout(ctx, p, xm, key)
    for i in np.flatnonzero(p.todo):
        judge(ctx, p, i, sc[i], quat[i], start_pc(p, i), pixels, key, ev[i],
              [(p.start[i].data, start_pc(p, i))], promised=False)
        if m != "basinhopping":
            in_angles(ctx, quat[i], p.start[i].data, [2.0] * 3, key)
    ctx.count("global")


@case(10)
def two_phases(ctx):
    """With several phases in the map, the mask picks out one."""
    r = ctx.rng
    p = problem(r, two_phases=True)
    kw, pixels = common(ctx, p, nav_mask=False)
    kw["navigation_mask"] = p.other.reshape(p.nav)
    p.in_data = p.todo = ~p.other
    xm = run(ctx, p, "refine_orientation", kw, r.random() < 0.4)
    sc, quat, ev = layout(ctx, p, xm, "phases")
    for i in np.flatnonzero(p.todo):
        judge(ctx, p, i, sc[i], quat[i], start_pc(p, i), pixels, "phases", ev[i],
              [(p.start[i].data, start_pc(p, i))])
    ctx.count("phases")


@case(6)
def rejected(ctx):
    import kikuchipy as kp

    r = ctx.rng
    p = problem(r, nav=(3, 4), varying=True, two_phases=True)
    p.other[0] = True
    base = dict(xmap=p.xmap, detector=p.det, master_pattern=p.mp, energy=p.energy)

    def go(**kw):
        with quiet():
            return p.s.refine_orientation(**{**base, **kw})

    nm = np.zeros((3, 4), bool)
    if p.other.any():
        ctx.raises(ValueError, go, "several phases")
    q = problem(r, nav=(3, 4), varying=True)
    base = dict(xmap=q.xmap, detector=q.det, master_pattern=q.mp, energy=q.energy)
    p.s = q.s
    ctx.raises(ValueError, lambda: go(navigation_mask=nm[:2]), "mask shape")
    ctx.raises(ValueError, lambda: go(signal_mask=np.zeros((2, 2), bool)), "signal mask")
    ctx.raises(ValueError, lambda: go(method="no"), "method")
    bad = kp.detectors.EBSDDetector(shape=(q.sig[0] + 1, q.sig[1]))
    ctx.raises(ValueError, lambda: go(detector=bad), "detector shape")
    bad = gen.detector(r, q.sig, (4, 3))
    ctx.raises(ValueError, lambda: go(detector=bad), "detector map")
    ctx.raises(ValueError, lambda: go(xmap=gen.xmap(r, (4, 4))), "map shape")
    other = gen.master_pattern(r, 11, phase_=gen.phase("xyz", 225))
    ctx.raises(ValueError, lambda: go(master_pattern=other), "phase")
    other = gen.master_pattern(r, 11, phase_=gen.phase("abc", 225),
                               projection="stereographic")
    ctx.raises(Exception, lambda: go(master_pattern=other), "projection")
    ctx.count("rejected", 8)
