"""Windows and filter functions: values, shapes, circles and what they leave alone."""

import copy
import inspect

import dask.array as da
import numpy as np
from scipy.signal import windows as sw

from kpmon import gen
from kpmon.core import case

PROPERTY = "A06"
RULE = ("one evaluation = one window (or filter, distance map, plot) compared with its "
        "formula, or an array compared with its value before; distinct = window x "
        "dimension x parity of the shape x arguments")
REQUIRED = {"windows": 120, "filters": 60, "circular": 50, "custom": 30, "plots": 5,
            "refused": 40, "two_arguments": 8}
ASSUMPTIONS = ["SciPy's window functions, called with their own keywords, are right"]

PLAIN = ["boxcar", "triang", "parzen", "bohman", "blackman", "nuttall", "blackmanharris",
         "flattop", "bartlett", "barthann", "hamming", "cosine", "hann"]
ARGS = {
    "kaiser": {"beta": (0.5, 12)}, "gaussian": {"std": (0.4, 6)},
    "general_gaussian": {"p": (0.5, 2), "sig": (0.8, 5)},
    "general_hamming": {"alpha": (0.3, 0.9)}, "tukey": {"alpha": (0.1, 0.9)},
    "chebwin": {"at": (50, 100)}, "exponential": {"tau": (0.5, 5)},
}


def warm():
    import kikuchipy as kp

    kp.filters.modified_hann(4)


def shape_of(r):
    if r.random() < 0.3:
        return (int(r.integers(1, 12)),)
    a, b = (int(q) for q in r.integers(1, 12, 2))
    return (a, a) if r.random() < 0.3 else (a, b)


def dist(shape, origin=None):
    o = origin or tuple(n // 2 for n in shape)
    out = np.empty(shape)
    for i in np.ndindex(*shape):
        out[i] = np.sqrt(sum((a - b) ** 2 for a, b in zip(i, o)))
    return out


def circle(shape):
    """1 inside the half width of the longest axis."""
    if len(shape) == 1:
        return np.ones(shape)
    return (dist(shape) <= max(n // 2 for n in shape)).astype(float)


@case(quick=130)
def named(ctx):
    import kikuchipy as kp

    r = ctx.rng
    sh = shape_of(r)
    kind = str(r.choice(["plain", "args", "args", "two", "hann", "circular", "circular"]))
    fftbins = bool(r.random() < 0.2)
    kw = {"fftbins": True} if fftbins else {}
    extra = {}
    if kind == "plain":
        name = str(r.choice(PLAIN))
    elif kind == "args":
        name = str(r.choice([k for k, v in ARGS.items() if len(v) == 1]))
    elif kind == "two":
        name = "general_gaussian"
    else:
        name = "modified_hann" if kind == "hann" else "circular"
        kw = {}
    for k, (a, b) in ARGS.get(name, {}).items():
        extra[k] = float(r.uniform(a, b))
    names = list(extra)
    r.shuffle(names)
    kw.update({k: extra[k] for k in names})
    if name == "modified_hann":
        one = [np.cos(np.pi * (np.arange(n) - (n - 1) / 2) / n) for n in sh]
    elif name == "circular":
        one = [np.ones(n) for n in sh]
    else:
        f = getattr(sw, name)
        one = [np.asarray(f(n, sym=not kw.get("fftbins", False), **extra)) for n in sh]
    want = np.multiply.outer(*one) if len(sh) == 2 else one[0]
    if name == "circular":
        want = want * circle(sh)
    given = np.array(sh) if r.random() < 0.2 else (list(sh) if r.random() < 0.3 else sh)
    w = kp.filters.Window(name, shape=given, **kw)
    if name == "circular" and sh == (3, 3) and r.random() < 0.5:
        w = kp.filters.Window()
    ctx.check(w.shape == sh, "shape", f"{w.shape}, {sh}")
    ctx.close(np.asarray(w), want, "values", f"{name}{sh} {kw}", rtol=1e-9, atol=1e-12)
    exp = name if name != "circular" else ("circular" if len(sh) == 2 else "rectangular")
    ctx.check(w.name == exp and w.circular == (exp == "circular") and w.is_valid,
              "name", f"{w.name}, {w.circular}, {w.is_valid}; expected {exp}")
    ctx.check(w.origin == tuple(n // 2 for n in sh), "origin", f"{w.origin} of {sh}")
    ctx.close(w.distance_to_origin, dist(sh), "distance", f"distances in {sh}",
              rtol=1e-12)
    ctx.check(tuple(w.n_neighbours) == tuple(n - n // 2 - 1 for n in sh), "neighbours",
              f"{w.n_neighbours}")
    lower = dist(sh) if len(sh) == 2 else None
    w2 = copy.copy(w)
    ctx.check(w2.name == w.name and w2.circular == w.circular, "copy", "copied window")
    was = np.array(w)
    if len(sh) == 2:
        w2.make_circular()
        ctx.close(np.asarray(w2), want * (lower <= max(n // 2 for n in sh)), "circular",
                  f"{name} made circular", rtol=1e-9, atol=1e-12)
        ctx.check(w2.circular, "circular-flag", "after make_circular")
        ctx.check((w2.name == "circular") == (name in ("boxcar", "rectangular",
                                                       "circular")), "circular-name",
                  f"{w2.name} from {name}")
        ctx.count("circular")
    else:
        w2.make_circular()
        ctx.equal(np.asarray(w2), was, "circular-1d", "one axis is left alone")
    ctx.equal(np.asarray(w), was, "copy-shared", "window whose copy was made circular")
    other = tuple(int(q) for q in r.integers(1, 12, len(sh)))
    ctx.check(bool(w.shape_compatible(other)) == all(a <= b for a, b in zip(sh, other)),
              "compatible", f"{sh} in {other}")
    ctx.count("windows")
    ctx.count("two_arguments", int(len(extra) == 2))
    ctx.distinct(name, len(sh), tuple(n % 2 for n in sh), fftbins, tuple(names))


@case(quick=70)
def transfer(ctx):
    """Low and high pass functions."""
    import kikuchipy as kp

    r = ctx.rng
    sh = shape_of(r)
    c = float(r.uniform(0.5, 8)) if r.random() < 0.6 else int(r.integers(1, 9))
    cw = None if r.random() < 0.4 else float(r.uniform(0.3, 6))
    wc = c / 2 if cw is None else cw
    name = str(r.choice(["lowpass", "highpass"]))
    d = dist(sh)
    want = np.exp(-(((d - c) / (np.sqrt(2) * wc / 2)) ** 2))
    if name == "lowpass":
        want[d < c] = 1
        edge = c + 2 * wc
        want[d > edge] = 0
    else:
        want[d > c] = 1
        edge = c - 2 * wc
        want[d < edge] = 0
    sure = np.abs(d - edge) > 1e-9
    f = getattr(kp.filters, name + "_fft_filter")
    got = f(shape=sh, cutoff=c, cutoff_width=cw)
    kw = {} if cw is None else {"cutoff_width": cw}
    w = kp.filters.Window(name, cutoff=c, shape=sh, **kw)
    for q in (got, np.asarray(w)):
        ctx.close(np.where(sure, q, 0), np.where(sure, want, 0), "pass",
                  f"{name} {sh} {c} {cw}", rtol=1e-9, atol=1e-12)
    ctx.check(w.name == name and not w.circular, "pass-name", w.name)
    o = tuple(int(r.integers(0, n)) for n in sh)
    ctx.close(kp.filters.distance_to_origin(sh, o), dist(sh, o), "distance-other",
              f"distances to {o}", rtol=1e-12)
    n = int(r.integers(1, 40))
    ctx.close(kp.filters.modified_hann(n),
              np.cos(np.pi * (np.arange(n) - (n - 1) / 2) / n), "hann", f"{n} points",
              rtol=1e-9, atol=1e-12)
    ctx.count("filters")
    ctx.distinct(name, len(sh), tuple(k % 2 for k in sh), cw is None)


@case(quick=60)
def custom(ctx):
    import kikuchipy as kp

    r = ctx.rng
    sh = shape_of(r)
    a = r.random(sh) + 0.1
    dt = str(r.choice(["float64", "float32", "int64"]))
    if dt == "int64":
        a = a * 100
    a = a.astype(dt)
    was = a.copy()
    lazy = r.random() < 0.3
    w = kp.filters.Window(da.from_array(a) if lazy else a)
    ctx.equal(np.asarray(w), was, "custom", "values of a custom window")
    ctx.check(w.name == "custom" and not w.circular and w.is_valid, "custom-name", w.name)
    w.make_circular()
    if len(sh) == 2:
        ctx.equal(np.asarray(w), np.where(circle(sh) > 0, was, 0), "custom-circular",
                  f"{sh} made circular")
        ctx.check(w.circular and w.name == "custom", "custom-circular-name", w.name)
    ctx.equal(a, was, "array-kept", "array the window was made from")
    if len(sh) == 2:
        # Used, the window stays as it is
        b = np.array(w)
        if b.sum() and not lazy:
            nav = gen.nav_shape(r, (2,))
            s = gen.signal(r, nav, (6, 7), "float32")
            s.average_neighbour_patterns(window=w)
            s.fft_filter(w, "spatial")
            ctx.equal(np.asarray(w), b, "used", "window after being used")
            ctx.check(w.name == "custom" and w.circular, "used-name", w.name)
    for bad, exc in (((3, 0), ValueError), ((-1,), ValueError), ((3, 2.5), TypeError),
                     (3, TypeError)):
        ctx.raises(exc, lambda bad=bad: kp.filters.Window("boxcar", shape=bad), "refused",
                   f"shape {bad}")
        ctx.count("refused")
    ctx.raises(ValueError, lambda: kp.filters.Window(was.tolist()), "refused", "a list")
    ctx.raises(ValueError, lambda: kp.filters.Window("no window", shape=sh), "refused",
               "unknown name")
    ctx.count("refused", 2)
    three = kp.filters.Window(np.ones((2, 2, 2)))
    ctx.check(not three.is_valid, "three", "window of three axes is not valid")
    ctx.count("custom")
    ctx.distinct("custom", len(sh), dt, bool(lazy), tuple(n % 2 for n in sh))


@case(quick=12)
def plots(ctx):
    import kikuchipy as kp
    import matplotlib.pyplot as plt

    r = ctx.rng
    sh = shape_of(r)
    a = np.round(r.random(sh) * r.choice([1, 50]), 6)
    w = kp.filters.Window(a)
    fig = w.plot(return_figure=True)
    ax = fig.axes[0]
    im = ax.images[0].get_array()
    two = a.reshape(a.shape + (1,) * (2 - a.ndim))
    ctx.close(np.asarray(im), two, "plot-image", "window shown", rtol=1e-12)
    seen = {}
    for t in ax.texts:
        seen[t.get_position()] = float(t.get_text())
    ctx.check(len(seen) == two.size, "plot-values", f"{len(seen)} values of {two.size}")
    for (x, y), v in seen.items():
        ctx.check(abs(v - two[int(y), int(x)]) <= 0.51e-4 + 1e-9, "plot-values",
                  f"{v} at row {y}, column {x}: {two[int(y), int(x)]}")
    oy = a.shape[0] // 2
    lab = [int(t.get_text().replace("\u2212", "-")) for t in ax.get_yticklabels()
           if t.get_text()]
    ctx.check(lab == list(np.arange(two.shape[0]) - oy), "plot-ticks", f"{lab}")
    ctx.equal(np.asarray(w), a, "plot-kept", "window after plotting")
    plt.close("all")
    ctx.count("plots")
    ctx.distinct("plot", len(sh), two.shape[0] % 2)


assert all(set(v) <= set(inspect.signature(getattr(sw, k)).parameters)
           for k, v in ARGS.items())
