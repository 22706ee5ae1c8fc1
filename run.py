#!/usr/bin/env python3
"""Decide one property: python3 run.py <id> [--tier quick|thorough] [--seed N]
or replay one recorded case: python3 run.py --replay FILE.

Exit 0: held on everything explored. Exit 1: VIOLATION line(s). Anything else:
no verdict (the harness failed or its monitors were not reached).
"""

import argparse
import importlib.util
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("KPMON_PYTHON", "/opt/venv/bin/python")
SEED_CACHE = "/opt/vp/numba-seed"
KNOWN = os.path.join(HERE, "known-findings.txt")


def env_for(tmp, cache, boundscheck=False):
    e = dict(os.environ)
    os.makedirs(os.path.join(cache, "home"), exist_ok=True)
    for k in ("PYTHONPATH", "NUMBA_BOUNDSCHECK", "NUMBA_DISABLE_JIT", "PYTHONSTARTUP"):
        e.pop(k, None)
    e.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        MPLBACKEND="agg",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        NUMBA_NUM_THREADS="2",
        LIBGL_ALWAYS_SOFTWARE="1",
        KIKUCHIPY_DATA_DIR=os.path.join(tmp, "data"),
        NUMBA_CACHE_DIR=cache,
        # (PyEBSDIndex keeps its compiled functions there)
        HOME=os.path.join(cache, "home"),
        TMPDIR=os.path.join(tmp, "tmp"),
        PYTHONPATH=os.path.join(os.environ.get("KPMON_REPO", "/repo"), "src"),
    )
    if boundscheck:
        e["NUMBA_BOUNDSCHECK"] = "1"
    return e


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == pid:
                    out.append((m.group(2), m.group(3)))
    return out


def seed_cache(dst, boundscheck):
    """A private cache: what setup compiled (content-addressed, so entries of
    changed code are never used), else the installed packages' functions."""
    kind = "bc" if boundscheck else "std"
    mine = os.path.join(HERE, ".cache", "numba-" + kind)
    if os.path.isdir(mine):
        shutil.copytree(mine, dst)
    elif not boundscheck and os.path.isdir(SEED_CACHE):
        shutil.copytree(SEED_CACHE, dst)
    else:
        os.makedirs(dst)


def warm(tmp, cache, boundscheck, pid=None):
    code = (
        "import sys; sys.path.insert(0, %r)\n"
        "from kpmon import numba_stamp; numba_stamp.install()\n"
        "from kpmon import warmup; warmup.run(%r)\n" % (HERE, pid)
    )
    return subprocess.run(
        [PY, "-c", code],
        env=env_for(tmp, cache, boundscheck),
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        timeout=600,
        cwd=tmp,
    )


def make_tmp():
    tmp = tempfile.mkdtemp(prefix="kpmon_")
    for d in ("data", "home", "tmp"):
        os.makedirs(os.path.join(tmp, d))
    return tmp


def read_out(path):
    if not os.path.exists(path):
        return []
    rows = []
    with open(path) as f:
        for line in f:
            try:
                rows.append(json.loads(line))
            except ValueError:
                pass
    return rows


def setup():
    tmp = make_tmp()
    try:
        for bc in (False, True):
            kind = "bc" if bc else "std"
            work = os.path.join(tmp, "cache-" + kind)
            if not bc and os.path.isdir(SEED_CACHE):
                shutil.copytree(SEED_CACHE, work)
            else:
                os.makedirs(work)
            r = warm(tmp, work, bc)
            if r.returncode != 0:
                sys.stdout.write(r.stdout.decode(errors="replace")[-3000:])
                return 2
            dst = os.path.join(HERE, ".cache", "numba-" + kind)
            shutil.rmtree(dst, ignore_errors=True)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copytree(work, dst)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print("setup done")
    return 0


def meta_of(pid):
    """PROPERTY-level settings, read without importing kikuchipy."""
    import ast

    path = os.path.join(HERE, "kpmon", "checks", pid + ".py")
    with open(path) as f:
        tree = ast.parse(f.read())
    out = {"BOUNDSCHECK": False, "WORKERS": 7, "REQUIRED": {}, "RULE": "",
           "ASSUMPTIONS": [], "LEVEL": "exploration", "CRASH_KEY": None}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            if node.targets[0].id in out:
                out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


def run(pid, tier, seed, only=None, limit=None):
    t0 = time.time()
    meta = meta_of(pid)
    limit = limit or float(
        os.environ.get("KPMON_LIMIT_S") or (780 if tier == "quick" else 7200)
    )
    tmp = make_tmp()
    procs, rows, broken = [], [], []
    try:
        base = os.path.join(tmp, "cache")
        seed_cache(base, meta["BOUNDSCHECK"])
        r = warm(tmp, base, meta["BOUNDSCHECK"], pid)
        if r.returncode != 0:
            print(r.stdout.decode(errors="replace")[-3000:])
            print(f"INCONCLUSIVE property={pid}: warm-up failed ({r.returncode})")
            return 2
        n = 1 if only else meta["WORKERS"]
        for w in range(n):
            cache = os.path.join(tmp, f"cache{w}")
            shutil.copytree(base, cache)
            wtmp = os.path.join(tmp, f"w{w}")
            for d in ("data", "home", "tmp"):
                os.makedirs(os.path.join(wtmp, d))
            out = os.path.join(tmp, f"out{w}.jsonl")
            log = open(os.path.join(tmp, f"log{w}.txt"), "wb")
            cmd = [PY, "-X", "faulthandler", os.path.join(HERE, "kpmon", "worker.py"),
                   pid, "--tier", tier, "--seed", str(seed), "--shard", f"{w}/{n}",
                   "--out", out, "--budget", str(limit * 0.85 - (time.time() - t0))]
            if only:
                cmd += ["--only", only]
            p = subprocess.Popen(cmd, env=env_for(wtmp, cache, meta["BOUNDSCHECK"]),
                                 stdout=log, stderr=log, cwd=wtmp,
                                 start_new_session=True)
            procs.append((p, out, log, w))
        crashed = []
        for p, out, log, w in procs:
            try:
                p.wait(max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                broken.append(f"worker {w} timed out")
            log.close()
            got = read_out(out)
            rows += got
            ended = any("end" in r for r in got)
            if not ended:
                started = [r["start"] for r in got if "start" in r]
                done = [r["done"] for r in got if "done" in r]
                last = [s for s in started if s not in done]
                text = open(os.path.join(tmp, f"log{w}.txt"), errors="replace").read()
                if p.returncode in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGFPE,
                                    -signal.SIGABRT, -signal.SIGILL) and last:
                    at = text.rfind("Fatal Python error")
                    if at < 0:
                        at = max(0, len(text) - 3000)
                    crashed.append((last[0], p.returncode, text[at:at + 3000]))
                elif not broken:
                    broken.append(f"worker {w} ended {p.returncode} in {last}: "
                                  + text[-3000:])
        counters, keys, samples, viols = {}, set(), [], []
        evals = ncases = skipped = 0
        walls = {}
        for r in rows:
            if "done" in r:
                ncases += 1
                evals += r["evaluations"]
                for k, v in r["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                keys.update(r["keys"])
                samples += r["samples"]
                viols += r["violations"]
                walls[r["done"][0]] = walls.get(r["done"][0], 0) + r["wall"]
                if r["error"]:
                    broken.append(f"case {r['done']}: {r['error']}")
            elif "end" in r:
                skipped += r["skipped"]
        for (name, index), rc, text in crashed:
            viols.append({
                "key": f"crash:{name}", "case": name, "index": index,
                "base_seed": seed, "inputs": {}, "data": {"stderr": text},
                "msg": f"the process died of signal {-rc} while running this case",
            })
        known = known_findings(pid)
        new, seen_known = [], {}
        for v in viols:
            for key, what in known:
                if v["key"] == key:
                    seen_known[key] = what
                    break
            else:
                new.append(v)
        for key, what in known:
            if not only and key in seen_known:
                print(f"KNOWN-FINDING: property={pid} {what}")
        groups = {}
        for v in new:
            groups.setdefault(v["key"], []).append(v)
        lines = []
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for key, vs in sorted(groups.items(), key=lambda kv: -len(kv[1])):
            v = vs[0]
            fn = os.path.join(
                HERE, "replays",
                f"{pid}-" + re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:80] + ".json")
            with open(fn, "w") as f:
                json.dump({"property": pid, "tier": tier, "n": len(vs), **v}, f, indent=1)
            lines.append((key, len(vs), v, fn))
        wall = time.time() - t0
        missing = []
        if not only:
            missing = [f"{k}>={m} (saw {counters.get(k, 0)})"
                       for k, m in meta["REQUIRED"].items() if counters.get(k, 0) < m]
            ev = {
                "property": pid, "tier": tier, "seed": seed, "level": meta["LEVEL"],
                "coverage": {
                    "evaluations": evals, "distinct_nontrivial": len(keys),
                    "rule": meta["RULE"], "samples": samples[:12],
                    "cases_run": ncases, "cases_skipped_for_time": skipped,
                    "monitor_counters": dict(sorted(counters.items())),
                    "wall_by_case_s": {k: round(v, 1) for k, v in sorted(walls.items())},
                    "known_findings_seen": sorted(seen_known),
                },
                "wall_s": round(wall, 1),
                "assumptions": meta["ASSUMPTIONS"],
                "violations": [
                    {"key": k, "count": c, "msg": v["msg"][:500], "replay": fn}
                    for k, c, v, fn in lines][:20],
            }
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        print(f"{pid} {tier} seed={seed}: {ncases} cases, {evals} oracle evaluations, "
              f"{len(keys)} distinct, {wall:.0f} s, {skipped} skipped")
        print("  counters: " + ", ".join(f"{k}={v}" for k, v in sorted(counters.items())))
        print("  slowest: " + ", ".join(f"{k} {v:.0f}s" for k, v in sorted(
            walls.items(), key=lambda kv: -kv[1])[:6]))
        for key, c, v, fn in lines:
            print(f"  [{key}] x{c} case {v['case']}:{v['index']} {v['msg'][:700]}")
            if os.environ.get("KPMON_VERBOSE"):
                print("     inputs:", v["inputs"], "data:", v["data"])
        if lines:
            for key, c, v, fn in lines:
                print(f"VIOLATION property={pid} replay={fn}")
            return 1
        if broken:
            for b in broken[:5]:
                print("BROKEN:", b[-3000:])
            print(f"INCONCLUSIVE property={pid}")
            return 2
        if missing:
            print(f"INCONCLUSIVE property={pid}: monitors not reached: {missing}")
            return 3
        return 0
    finally:
        for p, *_ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        return setup()
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        return run(r["property"], r["tier"], r["base_seed"],
                   only=f"{r['case']}:{r['index']}")
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    return run(a.pid, tier, seed, only=a.only)


if __name__ == "__main__":
    sys.exit(main())
