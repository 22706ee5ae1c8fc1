"""Saving keeps what is on disk already, unless told to replace it."""

import gc
import hashlib
import os
import time
from unittest import mock
import warnings

import numpy as np

from kpmon import gen
from kpmon.core import case

PROPERTY = "F03"
RULE = ("one evaluation = one file, or one scan in a file, compared with what it was "
        "before a save (refused, answered, failing, adding a scan, or from the file "
        "itself), or the saved signal compared with what it was; distinct = format x "
        "arguments x answers x fault x laziness")
REQUIRED = {"refused_saves": 40, "agreed_saves": 15, "steps": 90, "foreign_files": 15,
            "own_file_refused": 12, "own_file_saved": 8, "faults": 35,
            "lazy_signals": 120}
ASSUMPTIONS = ["a save told to overwrite may leave nothing of the old file if it fails",
               "the process is not killed while writing"]


class Fault(Exception):
    pass


def digest(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def contents(path):
    """Everything in an HDF5 file."""
    import h5py

    out = {}

    def visit(name, obj):
        if isinstance(obj, h5py.Dataset):
            out[name] = (obj.dtype.str, obj.shape,
                         hashlib.sha256(np.ascontiguousarray(obj[()]).tobytes())
                         .hexdigest() if obj.dtype.kind != "O" else str(obj[()]))

    for i in range(5):
        try:
            out.clear()
            with h5py.File(path, "r") as f:
                f.visititems(visit)
            return out
        except RuntimeError:
            # Tasks of a save that failed may still be ending
            gc.collect()
            time.sleep(0.2 * (i + 1))
    return {"": "cannot be read"}


def make(ctx, dtype="uint8", lazy=None):
    rng = ctx.rng
    lazy = rng.random() < 0.5 if lazy is None else lazy
    nav = gen.nav_shape(rng)
    s = gen.signal(rng, nav, gen.sig_shape(rng, 4, 9), dtype, lazy=lazy)
    if lazy:
        ctx.count("lazy_signals")
    return s


def snapshot(s):
    return dict(
        data=np.array(s.data), lazy=s._lazy, pc=s.detector.pc.copy(),
        xmap=None if s.xmap is None else s.xmap.rotations.data.copy(),
        bg=None if s.static_background is None else np.array(s.static_background),
        axes=[(a.name, a.size, a.scale, a.offset) for a in s.axes_manager._axes],
    )


def unchanged(ctx, s, before, key):
    now = snapshot(s)
    for k, v in before.items():
        if isinstance(v, np.ndarray):
            ctx.equal(now[k], v, f"{key}-{k}", "the saved signal's " + k)
        else:
            ctx.check(now[k] == v, f"{key}-{k}", f"the saved signal's {k} changed")


class Answers:
    """A terminal: gives the answers prepared, or none."""

    def __init__(self, answers):
        self.answers, self.asked = list(answers), 0

    def __call__(self, question=""):
        self.asked += 1
        if not self.answers:
            raise OSError("reading from stdin while output is captured")
        return self.answers.pop(0)


def terminal(*answers):
    return mock.patch("builtins.input", Answers(answers))


NAMES = {"h5": "a.h5", "hdf5": "a.hdf5", "h5ebsd": "a.h5ebsd", "dat": "a.dat",
         "hspy": "a.hspy"}


@case(quick=60)
def refused(ctx):
    """Existing files survive a save not told to overwrite them."""
    rng = ctx.rng
    ext = ctx.choice(["h5", "h5", "dat", "dat", "hdf5", "h5ebsd", "hspy"])
    f = os.path.join(ctx.tmp, NAMES[ext])
    make(ctx).save(f)
    before = digest(f)
    s = make(ctx)
    snap = snapshot(s)
    kw, answers = [
        (dict(overwrite=False), ()),
        (dict(), ()),
        (dict(), ("n", "n")),
        (dict(), ("what?", "n", "yes", "n")),
        (dict(overwrite=False), ("n",)),
        (dict(), ("N", "N")),
    ][ctx.index % 6]
    if ext in ("h5", "hdf5", "h5ebsd") and rng.random() < 0.3:
        kw = dict(kw, add_scan=False)
        if len(answers) == 4:
            answers = answers[:2]
    if ext == "hspy":
        if kw.get("overwrite") is None:
            kw = dict(overwrite=False)
        answers = ()
    ctx.note(ext=ext, kw=kw, answers=answers)
    with terminal(*answers):
        s.save(f, **kw)
    ctx.check(digest(f) == before, "refused-file",
              f"a save with {kw}, answered {answers}, changed {ext} file")
    ctx.check(os.listdir(ctx.tmp) == [NAMES[ext]], "refused-files", os.listdir(ctx.tmp))
    unchanged(ctx, s, snap, "refused-signal")
    ctx.count("refused_saves")
    ctx.distinct("refused", ext, tuple(kw.items()), answers, s._lazy)


@case(quick=24)
def agreed(ctx):
    """... and are replaced when it is, or the question answered with yes."""
    import kikuchipy as kp

    ext = ctx.choice(["h5", "dat"])
    f = os.path.join(ctx.tmp, NAMES[ext])
    make(ctx).save(f)
    s = make(ctx)
    snap = snapshot(s)
    kw, answers = [
        (dict(overwrite=True), ()),
        (dict(), ("n", "y") if ext == "h5" else ("y",)),
        (dict(), ("n", "hm", "y") if ext == "h5" else ("hm", "y")),
    ][ctx.index % 3]
    ctx.note(ext=ext, kw=kw, answers=answers)
    with terminal(*answers):
        s.save(f, **kw)
    if ext == "h5":
        s2 = kp.load(f)
        ctx.equal(s2.data, snap["data"], "agreed-patterns")
        ctx.check(not any(k.startswith("Scan 2") for k in contents(f)), "agreed-scans")
    else:
        ctx.equal(np.fromfile(f, "uint8"), snap["data"].ravel(), "agreed-bytes")
    unchanged(ctx, s, snap, "agreed-signal")
    ctx.distinct("agreed", ext, tuple(kw.items()), answers, s._lazy)
    ctx.count("agreed_saves")


def scans_of(c):
    return {k.split("/")[0] for k in c if "/" in k}


@case(quick=60)
def adding(ctx):
    """A history of scans added to a file: those in it stay as they are."""
    rng = ctx.rng
    f = os.path.join(ctx.tmp, "a.h5")
    make(ctx).save(f, scan_number=int(rng.integers(1, 4)))
    for step in range(int(rng.integers(2, 6))):
        before = contents(f)
        used = sorted(int(k.split()[1]) for k in scans_of(before))
        free = [k for k in range(1, 12) if k not in used]
        s = make(ctx, dtype=ctx.choice(["uint8", "uint16", "float32"]))
        snap = snapshot(s)
        kind = ctx.choice(["free", "free", "taken", "taken-again", "silent", "asked",
                           "asked-no"])
        number = int(rng.choice(free)) if kind in ("free", "asked", "asked-no") else (
            int(rng.choice(used)))
        other = int(rng.choice(free))
        kw, answers, want = dict(add_scan=True), (), number
        if kind == "taken":
            answers, want = (ctx.choice([(str(other),), ("first", str(other))])), other
        elif kind == "taken-again":
            answers, want = (str(int(rng.choice(used))),), None
        elif kind == "silent":
            want = None
        elif kind == "asked":
            kw, answers = {}, ("y",)
        elif kind == "asked-no":
            kw, answers, want = {}, ("n", "n"), None
        ctx.note(step=step, used=used, kind=kind, number=number, answers=answers)
        with terminal(*answers), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                s.save(f, scan_number=number, **kw)
                raised = None
            except Exception as e:
                raised = e
        ctx.check((raised is None) == (want is not None or kind == "asked-no"),
                  "adding-outcome", f"{kind}: {raised!r}")
        after = contents(f)
        ctx.check({k: after.get(k) for k in before} == before, "adding-kept",
                  f"scans {used} in the file changed when adding {number} ({kind})")
        new = scans_of(after) - scans_of(before)
        ctx.check(new == ({f"Scan {want}"} if want else set()), "adding-new",
                  f"new scans {new}, expected {want} ({kind})")
        if want:
            d = after.get(f"Scan {want}/EBSD/Data/patterns")
            got = hashlib.sha256(snap["data"].tobytes()).hexdigest()
            ctx.check(d is not None and d[2] == got and d[0] == snap["data"].dtype.str,
                      "adding-patterns")
        unchanged(ctx, s, snap, "adding-signal")
        ctx.count("steps")
        ctx.distinct("adding", kind, s._lazy, len(used))


@case(quick=24)
def others(ctx):
    """Scans are not added to files of others."""
    import h5py

    rng = ctx.rng
    f = os.path.join(ctx.tmp, "a.h5")
    kind = ["vendor", "plain", "hspy", "empty", "text"][ctx.index % 5]
    if kind == "text":
        with open(f, "w") as g:
            g.write("These are my notes\n" * 20)
    elif kind == "hspy":
        make(ctx).save(os.path.join(ctx.tmp, "a.hspy"))
        os.rename(os.path.join(ctx.tmp, "a.hspy"), f)
    else:
        with h5py.File(f, "w") as g:
            if kind == "vendor":
                g["manufacturer"], g["version"] = "Bruker Nano", "1"
                g["Scan 1/EBSD/Data/RawPatterns"] = rng.integers(0, 9, (4, 3, 3))
                g["Scan 1/EBSD/Header/NCOLS"] = 2
            elif kind == "plain":
                g["measurements"] = rng.random(5)
    is_h5 = kind != "text"
    before = contents(f) if is_h5 else digest(f)
    s = make(ctx)
    snap = snapshot(s)
    ctx.note(kind=kind)
    ctx.raises((IOError, OSError, ValueError), lambda: s.save(f, add_scan=True),
               "others-accepted")
    ctx.check((contents(f) if is_h5 else digest(f)) == before, "others-file",
              f"{kind} file changed by adding a scan to it")
    unchanged(ctx, s, snap, "others-signal")
    ctx.count("foreign_files")
    ctx.distinct("others", kind, s._lazy)


@case(quick=60)
def onto_itself(ctx):
    """A lazily read signal is saved to the file its patterns are still in."""
    import kikuchipy as kp

    rng = ctx.rng
    fmt = ctx.choice(["dat", "h5"])
    f = os.path.join(ctx.tmp, NAMES[fmt])
    s0 = make(ctx, lazy=False)
    data = np.array(s0.data)
    if ctx.index % 3 == 0:
        # ... larger than what is read or written at a time
        data = rng.integers(0, 256, (4, 5, 40, 61), dtype="uint8")
        s0 = kp.signals.EBSD(data)
    s0.save(f)
    nav, sig = data.shape[:-2], data.shape[-2:]
    kw = {}
    if fmt == "dat":
        kw = dict(scan_size=((nav[1], nav[0]) if len(nav) == 2 else (nav or (1,)) + (1,)),
                  pattern_size=sig[::-1])
        if rng.random() < 0.7:
            kw["chunks"] = (1, 1) + sig
    s = kp.load(f, lazy=True, **kw)
    change = ctx.choice(["none", "invert", "reverse"])
    want = data
    if change == "invert":
        s.data = 255 - s.data
        want = 255 - data
    elif change == "reverse" and nav:
        s.data = s.data[::-1]
        want = data[::-1]
    add = fmt == "h5" and rng.random() < 0.3
    kw2 = dict(add_scan=True, scan_number=2) if add else dict(overwrite=True)
    ctx.note(fmt=fmt, change=change, kw=kw2, shape=data.shape, chunks=kw.get("chunks"))
    try:
        s.save(f, **kw2)
        raised = None
    except OSError as e:
        raised = e
    if fmt == "dat":
        got = np.fromfile(f, "uint8")
    else:
        import h5py

        del s
        with h5py.File(f, "r") as g:
            got = g["Scan 1/EBSD/Data/patterns"][()].ravel()
            if add and raised is None:
                ctx.equal(g["Scan 2/EBSD/Data/patterns"][()].ravel(), want.ravel(),
                          "itself-added")
    if raised is not None or add:
        ctx.equal(got, data.ravel(), "itself-refused", "patterns on disk after a save "
                  "that failed")
        ctx.count("own_file_refused")
    else:
        ctx.equal(got, want.ravel(), "itself-saved", "patterns on disk after saving them "
                  "to where they were read from")
        ctx.count("own_file_saved")
    ctx.distinct("itself", fmt, change, add, "chunks" in kw, len(nav))


@case(quick=60)
def failing(ctx):
    """The patterns cannot be computed, or the arguments are wrong: the file and the
    scans in it stay."""
    import dask.array as da
    import kikuchipy as kp

    rng = ctx.rng
    kind = ctx.choice(["task-add", "task-dat", "keyword-add", "dimension", "extension",
                       "overwrite-value"])
    fmt = "dat" if kind == "task-dat" else "h5"
    f = os.path.join(ctx.tmp, NAMES[fmt])
    make(ctx).save(f)
    if fmt == "h5" and rng.random() < 0.5:
        make(ctx).save(f, add_scan=True, scan_number=3)
    before = contents(f) if fmt == "h5" else digest(f)
    s = make(ctx, lazy=kind.startswith("task") or None)
    if kind.startswith("task"):
        n = [0]
        last = int(rng.integers(0, max(1, int(np.prod(s.data.numblocks)))))

        def boom(block):
            n[0] += 1
            if n[0] > last:
                raise Fault("no patterns for you")
            return block

        s.data = s.data.map_blocks(boom, dtype=s.data.dtype, meta=np.array((), "uint8"))
    kw = {"task-add": dict(add_scan=True, scan_number=2),
          "task-dat": dict(overwrite=True),
          "keyword-add": dict(add_scan=True, scan_number=2, compression="magic"),
          "dimension": dict(overwrite=True), "extension": dict(overwrite=True),
          "overwrite-value": dict(overwrite="please")}[kind]
    if kind == "dimension":
        s = kp.signals.EBSD(rng.integers(0, 9, (2, 2, 3, 4, 5), dtype="uint8"))
    g = f
    if kind == "extension":
        g = os.path.join(ctx.tmp, "a.h5.up1")
    ctx.note(kind=kind, kw=kw)
    try:
        with terminal(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s.save(g, **kw)
        raised = None
    except (Fault, ValueError, OSError, TypeError) as e:
        raised = e
    ctx.check(raised is not None, "failing-silent", f"{kind} did not fail")
    raised = None
    after = contents(f) if fmt == "h5" else digest(f)
    if fmt == "h5":
        after = {k: after.get(k) for k in before}
    ctx.check(after == before, "failing-file", f"{kind}: what was in the file is lost")
    if kind in ("task-dat", "extension", "dimension", "overwrite-value"):
        ctx.check(os.listdir(ctx.tmp) == [NAMES[fmt]], "failing-files",
                  f"{kind} leaves {os.listdir(ctx.tmp)}")
    # The file can be used on
    if fmt == "h5":
        t = make(ctx, lazy=False)
        t.save(f, add_scan=True, scan_number=7)
        ctx.equal(kp.load(f, scan_group_names="Scan 7").data, t.data, "failing-next")
    ctx.count("faults")
    ctx.distinct("failing", kind, s._lazy)
