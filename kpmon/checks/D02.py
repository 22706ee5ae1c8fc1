"""Merging of crystal maps and orientation similarity maps."""

import warnings

import numpy as np

from kpmon import gen
from kpmon.core import case

PROPERTY = "D02"
RULE = ("a merged crystal map has, in every point, the phase, orientations, scores and "
        "indices of the map whose best scores are best there, and all maps' scores in "
        "order; an orientation similarity map counts common indices of neighbours")
REQUIRED = {"merged": 60, "points": 800, "masked": 20, "same-phase": 10, "renamed": 3,
            "osm": 30, "osm-points": 400, "rejected": 10, "single-point": 1,
            "lower-is-better": 10, "partly": 10}
ASSUMPTIONS = [
    "scores of different maps in a point differ (ties may go either way)",
    "orientation similarity maps are asked for two-dimensional maps",
]
WORKERS = 4


def scores(r, n, k, better):
    s = np.sort(r.random((n, k)), axis=1)
    return s[:, ::-1] if better else s


def make_map(r, shape, k, step, phase_, better, ids_from, all_=True, flat=False):
    """A crystal map as from dictionary indexing: k scores and indices per point."""
    from orix.crystal_map import CrystalMap, PhaseList

    n = int(np.prod(shape))
    y, x = np.indices((1,) * (2 - len(shape)) + tuple(shape)).reshape(2, -1)
    sc = scores(r, n, k, better)
    idx = np.stack([r.choice(200, k, replace=False) for _ in range(n)]) + ids_from
    rot = gen.rotations(r, n * k).reshape(n, k)
    kw = dict(x=x * step[1])
    if len(shape) == 2:
        kw["y"] = y * step[0]
    if k == 1 and flat:
        sc, idx, rot = sc[:, 0], idx[:, 0], rot.reshape(n)
    return CrystalMap(rotations=rot, phase_list=PhaseList(phase_),
                      prop={"scores": sc, "simulation_indices": idx}, scan_unit="um",
                      **kw), sc.reshape(n, k), idx.reshape(n, k), rot.data.reshape(n, k, 4)


@case(80)
def merge(ctx):
    import kikuchipy as kp

    r = ctx.rng
    shape = ctx.choice([(int(r.integers(2, 8)), int(r.integers(2, 8))),
                        (int(r.integers(2, 12)),)])
    if r.random() < 0.08:
        shape = ctx.choice([(1,), (1, 1), (1, 4), (4, 1)])
    n = int(np.prod(shape))
    if n == 1:
        ctx.count("single-point")
    k = int(ctx.choice([1, 2, 4, 6]))
    m = int(r.integers(2, 5))
    better = bool(r.random() < 0.7)
    n_best = int(r.integers(1, k + 1))
    step = (float(ctx.choice([1.0, 0.5, 2.0])), float(ctx.choice([1.0, 0.25, 1.5])))
    flat = r.random() < 0.5
    names = [ctx.choice("abc") for _ in range(m)] if r.random() < 0.4 else list(
        "abcd"[:m])
    groups = {c: ctx.choice([225, 229, 216]) for c in names}
    maps, S, I, R = [], [], [], []
    weight = r.uniform(0.2, 1.5, m) if r.random() < 0.5 else np.ones(m)
    for j in range(m):
        sg = groups[names[j]]
        xm, s, i, q = make_map(r, shape, k, step, gen.phase(names[j], sg), better,
                               int(r.integers(0, 50)), flat=flat)
        s = s * weight[j]
        xm.prop["scores"] = s if not (k == 1 and flat) else s[:, 0]
        maps.append(xm), S.append(s), I.append(i), R.append(q)
    # Which points each map covers
    mode = ctx.choice(["all", "all", "masks", "in-data"]) if n > 1 else "all"
    cover = np.ones((m, n), bool)
    kw, use = {}, maps
    if mode != "all":
        cover = r.random((m, n)) < r.uniform(0.3, 0.9)
        for j in range(m):
            if r.random() < 0.3:
                cover[j] = True
        cover[int(r.integers(m)), ~cover.any(axis=0)] = True
        lone = ~cover.any(axis=1)
        cover[lone, 0] = True
        ctx.count("masked")
        if not cover.all(axis=1).all():
            ctx.count("partly")
        use = [xm if c.all() else xm[c] for xm, c in zip(maps, cover)]
        if mode == "masks":
            kw["navigation_masks"] = [
                None if c.all() and r.random() < 0.7 else ~c.reshape(maps[0].shape)
                for c in cover]
    if better and r.random() < 0.5:
        args = {"mean_n_best": n_best}
    else:
        args = ctx.choice([{"mean_n_best": n_best, "greater_is_better": better},
                           {"mean_n_best": n_best if better else -n_best}])
    with_idx = r.random() < 0.7
    if with_idx:
        args["simulation_indices_prop"] = "simulation_indices"
    if not better:
        ctx.count("lower-is-better")
    ctx.note(shape=shape, k=k, maps=m, names=names, mode=mode, args=args, step=step,
             weight=weight, flat=flat, cover=cover)
    ctx.distinct(shape, k, m, tuple(names), mode)
    if mode == "in-data" and len({q.shape for q in use}) > 1:
        # Maps of different extents have to come with masks
        ctx.raises(ValueError, lambda: kp.indexing.merge_crystal_maps(use, **args),
                   "extents")
        ctx.count("extents")
        kw["navigation_masks"] = [~c.reshape(maps[0].shape) for c in cover]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = kp.indexing.merge_crystal_maps(use, **args, **kw)
    key = f"{mode}:{'n' if k > 1 else '1'}"
    # By hand
    mean = np.stack([s[:, :n_best].mean(axis=1) for s in S])
    sgn = 1 if better else -1
    mean = np.where(cover, sgn * mean, -np.inf)
    order = np.sort(mean, axis=0)
    clear = (order[-1] - order[-2]) > 1e-9
    win = mean.argmax(axis=0)
    ctx.check(out.size == n and out.is_in_data.all(), f"size:{key}",
              f"{out.size} points of {n}")
    if out.size != n:
        return
    ctx.check(out.rotations_per_point == k, f"rpp:{key}", f"{out.rotations_per_point}")
    rot = out.rotations.data.reshape(n, k, 4)
    sc = np.asarray(out.prop["scores"]).reshape(n, -1)
    msc = np.asarray(out.prop["merged_scores"]).reshape(n, -1)
    ctx.check(msc.shape[1] == m * k, f"merged-scores-shape:{key}", f"{msc.shape}")
    for p in range(n):
        w = win[p]
        if not clear[p]:
            continue
        ph = out.phases[int(out.phase_id[p])]
        ctx.check(ph.name[0] == names[w] and ph.space_group.number == groups[names[w]],
                  f"phase:{key}", f"point {p}: phase {ph.name}, map {w} ({names[w]}) has "
                  "the best score")
        ctx.close(rot[p], R[w][p], f"rotations:{key}", f"orientations of point {p}", 0,
                  1e-12)
        ctx.close(sc[p], S[w][p], f"scores:{key}", f"scores of point {p}", 1e-9, 1e-12)
        allsc = np.concatenate([S[j][p] for j in range(m) if cover[j, p]])
        want = -np.sort(-sgn * allsc) * sgn
        ctx.close(msc[p, : len(want)], want, f"merged-scores:{key}",
                  f"all scores of point {p}", 1e-9, 1e-12)
        ctx.check(np.isnan(msc[p, len(want):]).all(), f"merged-scores-rest:{key}",
                  "scores of maps that do not cover the point")
        ctx.count("points")
    if with_idx:
        idx = np.asarray(out.prop["simulation_indices"]).reshape(n, k)
        mid = np.asarray(out.prop["merged_simulation_indices"]).reshape(n, m * k)
        # The same merged index stands for the same pattern of the same map
        code = {}
        back = {}
        for p in range(n):
            if not clear[p]:
                continue
            ctx.equal(idx[p], I[win[p]][p], f"indices:{key}", f"indices of point {p}")
            src = [(j, i, s) for j in range(m) if cover[j, p]
                   for i, s in zip(I[j][p], S[j][p])]
            src.sort(key=lambda t: -sgn * t[2])
            for a, (j, i, s) in zip(mid[p], src):
                ctx.check(back.setdefault(a, (j, i)) == (j, i)
                          and code.setdefault((j, i), a) == a,
                          f"merged-indices:{key}",
                          f"{a} stands for pattern {i} of map {j} and {back.get(a)}")
    y, x = np.indices((1,) * (2 - len(shape)) + tuple(shape)).reshape(2, -1)
    if x.max() > 0:
        ctx.close(out.x, x * step[1], f"x:{key}", "x", 0, 1e-9)
    if len(shape) == 2 and y.max() > 0 and x.max() > 0:
        ctx.close(out.y, y * step[0], f"y:{key}", "y", 0, 1e-9)
    ctx.check(out.scan_unit == "um", f"unit:{key}", out.scan_unit)
    present = {names[w] for w in win[clear]}
    ctx.check(present <= {q.name[0] for _, q in out.phases_in_data}, f"phases:{key}",
              f"{out.phases_in_data.names}")
    if clear.all():
        ctx.check(len(out.phases_in_data.ids) == len(present), f"phases-twice:{key}",
                  f"{out.phases_in_data.names} for phases {sorted(present)}")
    if len(set(names)) < m:
        ctx.count("same-phase")
    ctx.count("merged")


@case(6)
def renamed(ctx):
    """Phases that only share their name are kept apart."""
    import kikuchipy as kp

    r = ctx.rng
    shape = (4, 5)
    k = int(ctx.choice([1, 3]))
    sgs = ctx.choice([(225, 216), (229, 225), (194, 225)])
    made = [make_map(r, shape, k, (1, 1), gen.phase("x", sg), True, 0) for sg in sgs]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = kp.indexing.merge_crystal_maps([q[0] for q in made])
    ctx.check(any("duplicates of phase" in str(i.message) for i in w), "no-warning", "")
    win = (made[0][1][:, 0] < made[1][1][:, 0]).astype(int)
    for p in range(out.size):
        sg = out.phases[int(out.phase_id[p])].space_group.number
        ctx.check(sg == sgs[win[p]], "renamed", f"point {p}: space group {sg}")
    ctx.count("renamed")


@case(10)
def not_indexed(ctx):
    """Points no map could index stay unindexed."""
    from orix.crystal_map import CrystalMap
    import kikuchipy as kp

    r = ctx.rng
    shape = (3, 4)
    made = [make_map(r, shape, 2, (1, 1), gen.phase(c, 225), True, 0) for c in "ab"]
    bad = r.random((2, 12)) < 0.4
    maps = []
    for (xm, s, _, _), b in zip(made, bad):
        xm.phases.add_not_indexed()
        s[b] = 1e-6 * r.random((b.sum(), 2))
        maps.append(CrystalMap(rotations=xm.rotations, phase_id=np.where(b, -1, 0),
                               x=xm.x, y=xm.y, phase_list=xm.phases,
                               prop={"scores": s}))
    out = kp.indexing.merge_crystal_maps(maps)
    ctx.equal(np.asarray(out.phase_id) == -1, bad.all(axis=0), "not-indexed",
              "points not indexed in any map")
    win = np.array([made[0][1][:, 0], made[1][1][:, 0]]).argmax(axis=0)
    for p in np.flatnonzero(~bad.all(axis=0)):
        ctx.check(out.phases[int(out.phase_id[p])].name == "ab"[win[p]], "indexed-phase",
                  f"point {p}")
    ctx.count("points", 12)


@case(40)
def similarity(ctx):
    import kikuchipy as kp

    r = ctx.rng
    shape = (int(r.integers(2, 7)), int(r.integers(2, 7)))
    k = int(r.integers(1, 8))
    pool = int(r.integers(k, 3 * k + 2))
    xm, s, idx, q = make_map(r, shape, k, (1.0, 1.0), gen.phase("a", 225), True, 0)
    n = int(np.prod(shape))
    idx = np.stack([r.choice(pool, k, replace=False) for _ in range(n)])
    name = ctx.choice(["simulation_indices", "other"])
    xm.prop[name] = idx
    kw = {} if name == "simulation_indices" else {"simulation_indices_prop": name}
    hi, lo = k, None
    if r.random() < 0.6:
        hi = kw["n_best"] = int(r.integers(1, k + 1))
    if r.random() < 0.4:
        lo = kw["from_n_best"] = int(r.integers(1, hi + 1))
    norm = r.random() < 0.5
    if norm:
        kw["normalize"] = True
    offs = [(-1, 0), (1, 0), (0, -1), (0, 1)]
    if r.random() < 0.4:
        fp = np.array(ctx.choice([
            [[1, 1, 1], [1, 1, 1], [1, 1, 1]],
            [[1, 0, 1], [0, 1, 0], [1, 0, 1]],
            [[0, 0, 0], [1, 1, 1], [0, 0, 0]],
        ]))
        kw["footprint"] = fp
        where = np.argwhere(fp)
        kw["center_index"] = int(np.flatnonzero((where == 1).all(axis=1))[0])
        offs = [tuple(w - 1) for w in where if tuple(w) != (1, 1)]
    ctx.note(shape=shape, k=k, options={a: str(b) for a, b in kw.items()})
    ctx.distinct(shape, k, sorted(kw))
    got = kp.indexing.orientation_similarity_map(xm, **kw)
    lim = range(hi, (lo or hi) - 1, -1)
    want = np.zeros(shape + (len(lim),))
    for c, nn in enumerate(lim):
        for i, j in np.ndindex(shape):
            here = set(idx[i * shape[1] + j][:nn])
            v = [len(here & set(idx[(i + a) * shape[1] + j + b][:nn])) for a, b in offs
                 if 0 <= i + a < shape[0] and 0 <= j + b < shape[1]]
            want[i, j, c] = (np.mean(v) if v else np.nan) / (nn if norm else 1)
    if lo is None:
        want = want[..., 0]
    elif len(lim) == 1 and got.ndim == 2:
        # Documented as three-dimensional, but squeezed: the same numbers
        want = want[..., 0]
    ctx.close(got, want, "osm", "orientation similarity", rtol=1e-5, atol=1e-6)
    ctx.count("osm")
    ctx.count("osm-points", n)


@case(6)
def rejected(ctx):
    import kikuchipy as kp

    r = ctx.rng
    ph = gen.phase("a", 225), gen.phase("b", 229)
    a = make_map(r, (3, 4), 3, (1, 1), ph[0], True, 0)[0]
    b = make_map(r, (3, 5), 3, (1, 1), ph[1], True, 0)[0]
    c = make_map(r, (3, 4), 2, (1, 1), ph[1], True, 0)[0]
    d = make_map(r, (3, 4), 3, (1, 1), ph[1], True, 0)[0]
    merge_ = kp.indexing.merge_crystal_maps
    ctx.raises(ValueError, lambda: merge_([a, b]), "shapes")
    ctx.raises(ValueError, lambda: merge_([a, c]), "numbers of scores")
    m = np.zeros((3, 4), bool)
    m[0] = True
    ctx.raises(ValueError, lambda: merge_([a, d], navigation_masks=[m]), "one mask")
    ctx.raises(ValueError, lambda: merge_([a, d], navigation_masks=[m, None]),
               "mask and map sizes")
    ctx.raises(ValueError, lambda: merge_([a, d], navigation_masks=[[1], None]), "list")
    ctx.raises(ValueError, lambda: kp.indexing.orientation_similarity_map(a, n_best=4),
               "n_best")
    ctx.count("rejected", 6)
