"""Files in the formats of vendors, written from the formats' descriptions with NumPy
and h5py only (nothing of the package under test)."""

import os

import h5py
import numpy as np


def put(g, key, val, rng=None):
    """Write a value the ways vendors do: scalars or arrays of one element."""
    if isinstance(val, str):
        val = np.bytes_(val.encode("utf-8"))
    if np.ndim(val) == 0 and (rng is None or rng.random() < 0.7):
        val = np.array([val])
    g.create_dataset(key, data=val)


def dset(g, key, data, rng):
    """Pattern dataset: contiguous, chunked or compressed."""
    k = int(rng.integers(0, 4))
    kw = {}
    if k == 1:
        kw = dict(chunks=(1,) + data.shape[1:])
    elif k == 2:
        kw = dict(chunks=tuple(int(rng.integers(1, n + 1)) for n in data.shape))
    elif k == 3:
        kw = dict(chunks=True, compression="gzip")
    g.create_dataset(key, data=data, **kw)


def bruker(path, rng, scans, where="EBSD"):
    """*scans*: dicts of patterns (n, sy, sx) in file order, ny/nx of the whole map,
    iy/ix (or None) of each pattern, pcs (n, 3) in file order and header values."""
    with h5py.File(path, "w") as f:
        put(f, "Manufacturer", "Bruker Nano")
        put(f, "Version", "Esprit 2.X")
        for name, s in scans.items():
            e = f.create_group(name).create_group("EBSD")
            d = e.create_group("Data")
            dset(d, "RawPatterns", s["patterns"], rng)
            for i, k in enumerate(("PCX", "PCY", "DD")):
                d.create_dataset(k, data=s["pcs"][:, i])
            h = e.create_group("Header")
            for k, v in s["header"].items():
                put(h, k, v, rng)
            put(h, "Grid Type", s.get("grid", "isometric"))
            sy, sx = s["patterns"].shape[1:]
            for k, v in dict(NROWS=s["ny"], NCOLS=s["nx"], PatternHeight=sy,
                             PatternWidth=sx, NPoints=len(s["patterns"])).items():
                put(h, k, np.int32(v), rng)
            if s.get("bg") is not None:
                h.create_dataset("StaticBackground", data=s["bg"])
            if s.get("iy") is not None:
                g = e.create_group("SEM")
                g.create_dataset("IX", data=np.asarray(s["ix"], np.int32))
                g.create_dataset("IY", data=np.asarray(s["iy"], np.int32))


def edax_h5(path, rng, scans):
    with h5py.File(path, "w") as f:
        put(f, " Manufacturer", "EDAX")
        put(f, " Version", "OIM Analysis 7.3.1 x64  [09-01-15]")
        for name, s in scans.items():
            e = f.create_group(name).create_group("EBSD")
            d = e.create_group("Data")
            dset(d, "Pattern", s["patterns"], rng)
            h = e.create_group("Header")
            for k, v in s["header"].items():
                put(h, k, np.float32(v))
            g = h.create_group("Pattern Center Calibration")
            for k, v in zip(("x-star", "y-star", "z-star"), s["pc"]):
                put(g, k, np.float32(v))
            put(h, "Grid Type", s.get("grid", "SqrGrid"))
            sy, sx = s["patterns"].shape[1:]
            for k, v in {"nRows": s["ny"], "nColumns": s["nx"], "Pattern Height": sy,
                         "Pattern Width": sx}.items():
                put(h, k, np.int32(v))
            if s.get("mag") is not None:
                put(f[name].create_group("SEM-PRIAS Images/Header"), "Mag",
                    np.int32(s["mag"]))


def oxford_h5(path, rng, scans, version="7.0"):
    with h5py.File(path, "w") as f:
        f.create_dataset("Format Version", data=version.encode())
        f.create_dataset("Manufacturer", data=b"Oxford Instruments")
        f.create_dataset("Software Version", data=b"6.0.8014.1")
        for name, s in scans.items():
            e = f.create_group(name).create_group("EBSD")
            d = e.create_group("Data")
            if s.get("processed") is not None:
                dset(d, "Processed Patterns", s["processed"], rng)
            if s.get("unprocessed") is not None:
                dset(d, "Unprocessed Patterns", s["unprocessed"], rng)
            for i, k in enumerate(("Pattern Center X", "Pattern Center Y",
                                   "Detector Distance")):
                d.create_dataset(k, data=s["pcs"][:, i])
            h = e.create_group("Header")
            for k, v in s["header"].items():
                if isinstance(v, str):
                    h.create_dataset(k, data=v.encode())
                else:
                    put(h, k, v, rng)
            p = s["processed"] if s.get("processed") is not None else s["unprocessed"]
            for k, v in {"Y Cells": s["ny"], "X Cells": s["nx"],
                         "Pattern Height": p.shape[1],
                         "Pattern Width": p.shape[2]}.items():
                put(h, k, np.int32(v), rng)
            if s.get("bg") is not None:
                h.create_dataset("Processed Static Background", data=s["bg"])


def edax_up(path, patterns, version=3, ny=1, nx=1, dy=1.0, dx=1.0, is_hex=False,
            gap=0, extra=0):
    sy, sx = patterns.shape[1:]
    start = (16 if version == 1 else 42) + gap
    with open(path, "wb") as f:
        np.array([version, sx, sy, start], "uint32").tofile(f)
        if version != 1:
            np.array([1], "uint8").tofile(f)
            np.array([nx, ny], "uint32").tofile(f)
            np.array([is_hex], "uint8").tofile(f)
            np.array([dx, dy], "float64").tofile(f)
        f.write(b"\x07" * gap)
        patterns.tofile(f)
        if extra:
            f.write(b"\x09" * extra)


def oxford_ebsp(path, patterns, order, present, nav, step, version, origin=(0.0, 0.0),
                compressed=False):
    """*patterns* (n, sy, sx) in map order; *order*: map indices in the order they
    are in the file; *present*: which map points are in the file."""
    n, sy, sx = patterns.shape
    ny, nx = nav
    order = [i for i in order if present[i]]
    n_bytes = patterns[0].nbytes
    head = 24 if version > 4 else 16
    foot = {0: 0, 1: 16}.get(version, 18)
    base = (0 if version == 0 else 8) + (1 if version > 3 else 0) + 8 * n
    starts = np.zeros(n, np.int64)
    for k, i in enumerate(order):
        starts[i] = base + k * (head + n_bytes + foot)
    with open(path, "wb") as f:
        if version > 0:
            np.array([-version], np.int64).tofile(f)
        if version > 3:
            np.array([1], np.uint8).tofile(f)
        starts.tofile(f)
        for i in order:
            r, c = divmod(i, nx)
            if version > 4:
                np.array([c, r], np.int32).tofile(f)
            np.array([compressed, sy, sx, n_bytes], np.int32).tofile(f)
            patterns[i].tofile(f)
            x, y = origin[1] + c * step, origin[0] + r * step
            if version > 1:
                np.array([True]).tofile(f)
            if version > 0:
                np.array([x], np.float64).tofile(f)
            if version > 1:
                np.array([True]).tofile(f)
            if version > 0:
                np.array([y], np.float64).tofile(f)
    return [int(i) for i in order]


def tree(g, d):
    for k, v in d.items():
        if isinstance(v, dict):
            tree(g.create_group(k), v)
        else:
            put(g, k, v)


CRYSTAL = dict(
    AtomData=np.array([[0.1587, 0], [0.6587, 0], [0, 0.25], [1, 1], [0.005, 0.005]],
                      np.float32),
    Atomtypes=np.array([13, 29], np.int32), CrystalSystem=2,
    LatticeParameters=np.array([0.5949, 0.5949, 0.5821, 90, 90, 90]), Natomtypes=2,
    SpaceGroupNumber=140, SpaceGroupSetting=1,
)


def emsoft_ebsd(path, rng, patterns, euler, nml, xtal="ni/ni.xtal"):
    with h5py.File(path, "w") as f:
        tree(f, dict(
            CrystalData=CRYSTAL,
            NMLparameters=dict(EBSDNameList=nml),
            EMheader=dict(EBSD=dict(ProgramName=np.array([b"EMEBSD.f90"]))),
        ))
        g = f.create_group("EMData/EBSD")
        dset(g, "EBSDPatterns", patterns, rng)
        g.create_dataset("EulerAngles", data=euler)
        g.create_dataset("xtalname", data=np.array([xtal.encode()]))


def emsoft_mp(path, rng, kind, energies, data, numset=1, opencl=False):
    """*data*: {"mLPNH", "mLPSH", "masterSPNH", "masterSPSH"} of EMsoft arrays."""
    npx = (data["masterSPNH"].shape[-1] - 1) // 2
    e = np.asarray(energies, np.float32)
    cl = "MCCLfoil" if kind == "TKD" else "MCCL"
    with h5py.File(path, "w") as f:
        tree(f, {
            "CrystalData": CRYSTAL,
            "NMLparameters": {
                f"{kind}MasterNameList": dict(dmin=0.05, npx=npx),
                f"{cl}NameList": dict(Ebinsize=float(e[1] - e[0]) if len(e) > 1 else 1.0,
                                      EkeV=float(e.max()), numsx=npx),
            },
            "EMheader": {f"{kind}master": dict(ProgramName=np.array(
                [f"EM{kind}master{'OpenCL' if opencl else ''}.f90".encode()]))},
        })
        g = f.create_group(f"EMData/{kind}master")
        g.create_dataset("EkeV" if kind == "ECP" else "EkeVs", data=e)
        g.create_dataset("numset", data=np.array([numset], np.int32))
        for k, v in data.items():
            dset(g, k, v, rng)


def nordif_setting(path, sy, sx, ny, nx, step, kv=20.0, mag=200, wd=24.7, tilt=70.0,
                   azimuthal=0.0, elevation=0.0, cal=(), cal_shape=None,
                   image=(1000, 1000)):
    c = cal_shape or (sy, sx)
    w = nx * step
    lines = f"""[NORDIF]\t\t
Software version\t3.1.2\t
\t\t
[Microscope]\t\t
Manufacturer\tHitachi\t
Model\tSU-6600\t
Magnification\t{mag}\t#
Scan direction\tDirect\t
Accelerating voltage\t{kv:g}\tkV
Working distance\t{wd:g}\tmm
Tilt angle\t{tilt:g}\t\xb0
\t\t
[Electron image]\t\t
Frame rate\t0.25\tfps
Resolution\t{image[1]}x{image[0]}\tpx
Rotation\t0\t\xb0
Flip x-axis\tFalse\t
\t\t
[Detector angles]\t\t
Euler 1\t0\t\xb0
Euler 2\t0\t\xb0
Euler 3\t0\t\xb0
Azimuthal\t{azimuthal:g}\t\xb0
Elevation\t{elevation:g}\t\xb0
\t\t
[Acquisition settings]\t\t
Frame rate\t202\tfps
Resolution\t{sx}x{sy}\tpx
Exposure time\t3500\t\xb5s
Gain\t0\t
\t\t
[Calibration settings]\t\t
Frame rate\t10\tfps
Resolution\t{c[1]}x{c[0]}\tpx
Exposure time\t99950\t\xb5s
Gain\t8\t
\t\t
[Area]\t\t
Top\t89.200 (223)\t\xb5m (px)
Left\t60.000 (150)\t\xb5m (px)
Width\t{w:.3f} ({nx})\t\xb5m (px)
Height\t{ny * step:.3f} ({ny})\t\xb5m (px)
Step size\t{step:.3f}\t\xb5m
Number of samples\t{ny}x{nx}\t#
Scan time\t00:02:30\t
\t\t
[Calibration patterns]\t\t
""".splitlines()
    lines += [f"Calibration ({x},{y})\t{x},{y}\tpx" for y, x in cal]
    with open(path, "w", encoding="latin-1", newline="") as f:
        f.write("\r\n".join(lines) + "\r\n")


def image(path, p):
    import imageio.v3 as iio

    iio.imwrite(path, p)


def size(path):
    return os.path.getsize(path)
