"""A hostile Dask scheduler: any order the dependencies allow may happen.

Tasks run one at a time; which ready task runs next is drawn from a seeded
stream, biased per run towards finishing single chunks early (deep first), late
(wide first) or not at all. Data results must not depend on it."""

import random

from dask._task_spec import convert_legacy_graph
from dask.core import flatten
from dask.utils import ensure_dict


class Scheduler:
    def __init__(self, seed, mode="random"):
        self.rng = random.Random(seed)
        self.mode = mode
        self.tasks = 0
        self.orders = set()

    def __call__(self, dsk, keys, **kwargs):
        if hasattr(dsk, "__dask_graph__"):
            dsk = dsk.__dask_graph__()
        dsk = convert_legacy_graph(ensure_dict(dsk))
        deps = {k: set(n.dependencies) for k, n in dsk.items()}
        rev = {k: set() for k in dsk}
        for k, ds in deps.items():
            for d in ds:
                rev[d].add(k)
        want = set(flatten([keys])) if isinstance(keys, list) else {keys}
        # only what is needed
        need, todo = set(), list(want)
        while todo:
            k = todo.pop()
            if k not in need:
                need.add(k)
                todo.extend(deps[k])
        depth = {}

        def depth_of(k):
            stack = [k]
            while stack:
                j = stack[-1]
                miss = [d for d in deps[j] if d not in depth]
                if miss:
                    stack.extend(miss)
                else:
                    depth[j] = 1 + max((depth[d] for d in deps[j]), default=0)
                    stack.pop()
            return depth[k]

        for k in need:
            depth_of(k)
        left = {k: len(deps[k]) for k in need}
        ready = sorted((k for k in need if left[k] == 0), key=str)
        values, order = {}, []
        while ready:
            if self.mode == "deep" and self.rng.random() < 0.9:
                top = max(depth[k] for k in ready)
                pool = [i for i, k in enumerate(ready) if depth[k] == top]
                i = self.rng.choice(pool)
            elif self.mode == "wide" and self.rng.random() < 0.9:
                top = min(depth[k] for k in ready)
                pool = [i for i, k in enumerate(ready) if depth[k] == top]
                i = self.rng.choice(pool)
            else:
                i = self.rng.randrange(len(ready))
            k = ready.pop(i)
            values[k] = dsk[k]({d: values[d] for d in deps[k]})
            order.append(i)
            self.tasks += 1
            for r in rev[k]:
                if r in left:
                    left[r] -= 1
                    if left[r] == 0:
                        ready.append(r)
        self.orders.add(hash(tuple(order)))

        def pick(ks):
            if isinstance(ks, list):
                return tuple(pick(k) for k in ks)
            return values[ks]

        return pick(keys)
