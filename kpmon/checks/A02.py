"""Pattern operations give the same answer however they are executed."""

import dask
import dask.array as da
import numpy as np

from kpmon import gen
from kpmon.core import case
from kpmon.sched import Scheduler

PROPERTY = "A02"
RULE = ("one evaluation = one result (data, axes or attribute) of an execution mode "
        "compared with the eager, out-of-place result of the same call; distinct = "
        "operation x mode x dtype x map dimension x chunk layout")
REQUIRED = {"modes_compared": 500, "multi_chunk_inputs": 120, "inplace_calls": 60,
            "lazy_results": 150, "split_pattern_inputs": 30,
            "hostile_tasks": 1500}
ASSUMPTIONS = ["neighbour averaging may differ by one grey level between chunkings"]


def warm():
    from kpmon.checks import A01

    A01.warm()


def _window(rng, nav):
    import kikuchipy as kp

    k = int(rng.integers(3))
    shape = tuple(int(x) for x in rng.integers(2, 6, len(nav)))
    if k == 0:
        return dict(window="circular", window_shape=shape)
    if k == 1:
        return dict(window="gaussian", window_shape=shape, std=float(rng.uniform(1, 3)))
    return dict(window=kp.filters.Window("rectangular", shape))


def ops(rng, s, nav, sig):
    """name -> (call(signal, **mode), takes inplace)"""
    import kikuchipy as kp

    f = next(k for k in (2, 3, 1) if sig[0] % k == 0 and sig[1] % k == 0)
    std = float(rng.uniform(1, 3))
    tf = kp.filters.Window("lowpass", sig, cutoff=3, cutoff_width=2)
    w = kp.filters.Window("gaussian", (3, 4), std=1.5)
    out = {
        "static": lambda s, **m: s.remove_static_background(scale_bg=True, **m),
        "static_divide": lambda s, **m: s.remove_static_background("divide", **m),
        "dynamic": lambda s, **m: s.remove_dynamic_background(std=std, **m),
        "dynamic_spatial": lambda s, **m: s.remove_dynamic_background(
            "subtract", "spatial", std=std, **m),
        "rescale": lambda s, **m: s.rescale_intensity(dtype_out="float32", **m),
        "rescale_relative": lambda s, **m: s.rescale_intensity(
            relative=True, dtype_out="uint8", **m),
        "rescale_percentiles": lambda s, **m: s.rescale_intensity(
            percentiles=(2, 98), **m),
        "normalize": lambda s, **m: s.normalize_intensity(
            num_std=2, dtype_out="float32", **m),
        "equalize": lambda s, **m: s.adaptive_histogram_equalization(
            kernel_size=(4, 5), **m),
        "fft_filter": lambda s, **m: s.fft_filter(tf, "frequency", shift=True, **m),
        "fft_filter_spatial": lambda s, **m: s.fft_filter(w, "spatial", **m),
    }
    if f > 1:
        out["downsample"] = lambda s, **m: s.downsample(f, **m)
    if nav:
        win = _window(rng, nav)
        out["average"] = lambda s, **m: s.average_neighbour_patterns(**win, **m)
    noinplace = {
        "dynbg": lambda s, **m: s.get_dynamic_background(std=std, **m),
        "dynbg_spatial": lambda s, **m: s.get_dynamic_background(
            "spatial", std=std, dtype_out="float32", **m),
    }
    return out, noinplace


def arrays(rng, s, nav):
    import kikuchipy as kp

    out = {"quality": lambda s: s.get_image_quality(show_progressbar=False)}
    if nav:
        shape = tuple(int(x) for x in rng.integers(2, 5, len(nav)))
        win = kp.filters.Window("rectangular", shape)
        kw = dict(window=win, zero_mean=bool(rng.random() < 0.7),
                  normalize=bool(rng.random() < 0.7), show_progressbar=False)
        out["dp_matrices"] = lambda s: s.get_neighbour_dot_product_matrices(**kw)
        out["adp"] = lambda s: s.get_average_neighbour_dot_product_map(**kw)
    return out


def axes_of(s):
    return [(a.name, a.size, round(float(a.scale), 9), round(float(a.offset), 9),
             str(a.units), a.navigate) for a in s.axes_manager._axes]


def attrs_of(s):
    d = s.detector
    x = s.xmap
    bg = s.static_background
    return dict(
        detector=(d.shape, d.binning, d.px_size, d.tilt, d.sample_tilt,
                  np.round(d.pc, 12).tolist()),
        xmap=None if x is None else (x.shape, x.prop["tag"].tolist(),
                                     np.round(x.rotations.data, 12).tolist()),
        bg=None if bg is None else np.asarray(bg).tolist(),
    )


def compare(ctx, base, got, op, mode, tol):
    ctx.count("modes_compared")
    data = got.data
    if isinstance(data, da.Array):
        ctx.count("lazy_results")
        data = data.compute()
    key = f"{op}:{mode}"
    ctx.check(data.dtype == base.data.dtype, f"dtype:{key}",
              f"{op}, {mode}: {data.dtype}, eagerly {base.data.dtype}")
    if tol:
        ctx.close(data, base.data, f"data:{key}", f"{op}, {mode}", rtol=1e-6, atol=tol)
    else:
        ctx.equal(data, base.data, f"data:{key}", f"{op}, {mode}")
    ctx.check(axes_of(got) == axes_of(base), f"axes:{key}",
              f"{op}, {mode}: axes {axes_of(got)}, eagerly {axes_of(base)}")
    a, b = attrs_of(got), attrs_of(base)
    for k in a:
        ctx.check(a[k] == b[k], f"attr:{k}:{key}", f"{op}, {mode}: {k} differs")


def make(ctx, split):
    rng = ctx.rng
    nav = gen.nav_shape(rng, (0, 1, 2, 2), big=True)
    sig = (int(rng.integers(3, 8)) * 2, int(rng.integers(3, 8)) * 2 + 6)
    dtype = ctx.choice(["uint8", "uint8", "uint16", "float32"])
    s = gen.signal(rng, nav, sig, dtype)
    if dtype == "float32":
        s.data = s.data - s.data.min() + 1
        s.static_background = s.static_background - s.static_background.min() + 2
    else:
        s.static_background = np.maximum(s.static_background, 3)
    chunks = gen.chunks_for(rng, s.data.shape, sig_whole=not split)
    ctx.note(nav=nav, sig=sig, dtype=dtype, chunks=chunks)
    return s, nav, sig, dtype, chunks


def lazy_of(s, chunks):
    z = s.as_lazy()
    z.data = z.data.rechunk(chunks)
    return z


def one(ctx, split):
    rng = ctx.rng
    s, nav, sig, dtype, chunks = make(ctx, split)
    inp, noinp = ops(rng, s, nav, sig)
    if dtype == "float32":
        inp.pop("equalize")  # scikit-image only takes floats within [-1, 1]
    names = list(inp) + list(noinp)
    op = names[(ctx.index + int(rng.integers(0, 2)) * 7) % len(names)]
    fn = {**inp, **noinp}[op]
    n_chunks = int(np.prod([len(c) for c in chunks]))
    if n_chunks > 1:
        ctx.count("multi_chunk_inputs")
    if split:
        ctx.count("split_pattern_inputs")
    tol = 0
    if op == "average":
        tol = 1 if dtype != "float32" else 1e-5
    pb = dict(show_progressbar=False)
    kw = dict(inplace=False, **pb) if op in inp else pb
    base = fn(s.deepcopy(), **kw)
    ctx.note(op=op)
    modes = []
    if op in inp:
        e = s.deepcopy()
        r = fn(e, inplace=True, **pb)
        ctx.check(r is None, f"return:{op}", f"{op} in place returned {type(r)}")
        ctx.count("inplace_calls")
        modes.append(("eager-inplace", e))
        z = lazy_of(s.deepcopy(), chunks)
        fn(z, inplace=True, **pb)
        ctx.count("inplace_calls")
        ctx.check(z._lazy and isinstance(z.data, da.Array), f"laziness:{op}:inplace",
                  f"{op} in place made the lazy signal eager")
        modes.append(("lazy-inplace", z))
    g = fn(s.deepcopy(), lazy_output=True, **kw)
    ctx.check(g._lazy and isinstance(g.data, da.Array), f"laziness:{op}:lazy_output",
              f"{op} with lazy_output=True is not lazy")
    modes.append(("eager-to-lazy", g))
    z = lazy_of(s.deepcopy(), chunks)
    g = fn(z, **kw)
    ctx.check(g._lazy, f"laziness:{op}:default", f"{op} of a lazy signal is eager")
    modes.append(("lazy", g))
    g2 = fn(z, lazy_output=False, **kw)
    ctx.check(not g2._lazy and isinstance(g2.data, np.ndarray),
              f"laziness:{op}:lazy_output=False", f"{op} with lazy_output=False is lazy")
    modes.append(("lazy-to-eager", g2))
    c = lazy_of(s.deepcopy(), chunks)
    c = fn(c, **kw)
    with dask.config.set(scheduler="synchronous"):
        c.compute(**pb)
    modes.append(("lazy-computed-sync", c))
    c = fn(lazy_of(s.deepcopy(), chunks), **kw)
    sched = Scheduler(ctx.seed, ctx.choice(["deep", "wide", "random"]))
    with dask.config.set(scheduler=sched):
        c.compute(**pb)
    ctx.count("hostile_tasks", sched.tasks)
    ctx.distinct(op, "order", sorted(sched.orders))
    modes.append(("lazy-computed-hostile", c))
    if op in inp:
        c = s.deepcopy()
        sched = Scheduler(ctx.seed, "deep")
        with dask.config.set(scheduler=sched):
            fn(c, inplace=True, **pb)
        ctx.count("hostile_tasks", sched.tasks)
        modes.append(("eager-inplace-hostile", c))
    for name, got in modes:
        ctx.distinct(op, name, dtype, len(nav), n_chunks > 1, split)
        compare(ctx, base, got, op, name + ("+split" if split else ""), tol)
    ctx.sample(dict(op=op, chunks=chunks))


@case(quick=84)
def modes(ctx):
    one(ctx, False)


@case(quick=40)
def modes_split_patterns(ctx):
    """Chunk borders run through the patterns, as they do in files whose chunks are
    not whole patterns."""
    one(ctx, True)


@case(quick=40)
def map_quantities(ctx):
    rng = ctx.rng
    split = ctx.index % 4 == 3
    s, nav, sig, dtype, chunks = make(ctx, split)
    n_chunks = int(np.prod([len(c) for c in chunks]))
    for name, fn in arrays(rng, s, nav).items():
        base = np.asarray(fn(s.deepcopy()))
        ctx.check(isinstance(fn(s.deepcopy()), np.ndarray), f"laziness:{name}")
        for sched in ("threads", "synchronous"):
            got = fn(lazy_of(s.deepcopy(), chunks))
            ctx.check(isinstance(got, da.Array), f"laziness:{name}:lazy",
                      f"{name} of a lazy signal is {type(got)}")
            ctx.count("lazy_results")
            got = got.compute(scheduler=sched)
            ctx.check(got.dtype == base.dtype, f"dtype:{name}")
            scale = max(1.0, float(np.nanmax(np.abs(base))))
            ctx.close(got, base, f"map:{name}" + (":split" if split else ""),
                      f"{name}, chunks {chunks}", rtol=1e-4, atol=2e-5 * scale)
            ctx.count("modes_compared")
            ctx.distinct(name, dtype, len(nav), n_chunks > 1, split)
    if n_chunks > 1:
        ctx.count("multi_chunk_inputs")


@case(quick=6)
def many_chunks_in_place(ctx):
    """Larger signals that the library itself splits into chunks (over 8 MB), worked
    on in place while neighbouring chunks are still being read."""
    rng = ctx.rng
    nav, sig = (int(rng.integers(30, 50)), int(rng.integers(20, 30))), (60, 60)
    dtype = ctx.choice(["float32", "uint8"])
    base = rng.random((7, 5) + sig)
    reps = (nav[0] // 7 + 1, nav[1] // 5 + 1, 1, 1)
    d = np.tile(base, reps)[: nav[0], : nav[1]]
    d = d * rng.uniform(0.5, 1, nav + (1, 1))
    d = gen.as_dtype(rng, d / d.max(), dtype, True)
    import kikuchipy as kp

    s = kp.signals.EBSD(d)
    win = dict(window="gaussian", window_shape=(5, 5), std=2)
    ref = s.average_neighbour_patterns(inplace=False, show_progressbar=False, **win)
    e = s.deepcopy()
    e.average_neighbour_patterns(show_progressbar=False, **win)
    ctx.count("modes_compared")
    ctx.count("inplace_calls")
    ctx.distinct("big", dtype, nav)
    ctx.note(nav=nav, sig=sig, dtype=dtype)
    ctx.close(e.data, ref.data, "data:average:big-inplace",
              "neighbour averaging in place", rtol=1e-5, atol=1 if dtype == "uint8" else 1e-5)
    h = s.deepcopy()
    sched = Scheduler(ctx.seed, "deep")
    with dask.config.set(scheduler=sched):
        h.average_neighbour_patterns(show_progressbar=False, **win)
    ctx.count("hostile_tasks", sched.tasks)
    ctx.close(h.data, ref.data, "data:average:big-inplace-hostile",
              "neighbour averaging in place, chunk after chunk", rtol=1e-5,
              atol=1 if dtype == "uint8" else 1e-5)
    z = s.as_lazy()
    z.average_neighbour_patterns(show_progressbar=False, **win)
    z.compute(show_progressbar=False)
    ctx.close(z.data, ref.data, "data:average:big-lazy", "neighbour averaging, lazily",
              rtol=1e-5, atol=1 if dtype == "uint8" else 1e-5)


@case(quick=12)
def dask_input(ctx):
    """Static backgrounds and windows may be dask arrays as well."""
    rng = ctx.rng
    s, nav, sig, dtype, chunks = make(ctx, False)
    bg = np.asarray(s.static_background)
    a = s.remove_static_background(static_bg=bg, inplace=False, show_progressbar=False)
    b = s.remove_static_background(static_bg=da.from_array(bg, chunks=(3, 4)),
                                   inplace=False, show_progressbar=False)
    ctx.equal(b.data, a.data, "dask-bg", "dask static background")
    z = lazy_of(s, chunks)
    z.static_background = da.from_array(bg, chunks=(4, 3))
    c = z.remove_static_background(inplace=False, show_progressbar=False)
    c.compute(show_progressbar=False)
    ctx.equal(c.data, a.data, "dask-bg-attr", "lazy static background of a lazy signal")
    ctx.check(isinstance(c.static_background, np.ndarray), "bg-computed",
              "static background stays lazy after compute()")
    ctx.count("modes_compared", 2)
    ctx.distinct("dask-input", dtype, len(nav))
