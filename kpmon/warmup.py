"""Import (and so compile) what the checks use, once, into the private cache."""


def run(pid=None):
    import kikuchipy as kp  # noqa: F401
    import kikuchipy.detectors
    import kikuchipy.filters
    import kikuchipy.imaging
    import kikuchipy.indexing
    import kikuchipy.pattern
    import kikuchipy.pattern.chunk
    import kikuchipy.signals
    import kikuchipy.simulations

    for name in (
        "kikuchipy.signals.ebsd",
        "kikuchipy.signals.ebsd_master_pattern",
        "kikuchipy.signals.ecp_master_pattern",
        "kikuchipy.simulations.kikuchi_pattern_simulator",
        "kikuchipy.indexing._refinement._refinement",
        "kikuchipy.indexing._hough_indexing",
        "kikuchipy.signals.virtual_bse_image",
    ):
        try:
            __import__(name)
        except ImportError:
            pass
    import importlib
    import os

    if pid:
        mods = [pid]
    else:
        here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks")
        mods = sorted(f[:-3] for f in os.listdir(here) if f[0] != "_" and f.endswith(".py"))
    for m in mods:
        mod = importlib.import_module("kpmon.checks." + m)
        if hasattr(mod, "warm"):
            mod.warm()
