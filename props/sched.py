"""Dask scheduler driven by the schedules TLC generates from spec/ChunkMap.tla."""
import random
import re

import cloudpickle
import dask
from dask._task_spec import convert_legacy_graph


class Scheduler:
    """Runs the per-column tasks of every dask computation in a prescribed order. Each computation takes the next
    chunk of `chunks`; when sizes do not match (the code chunks differently), a seeded random order is used.
    isolate: every task works on its own pickled copy, as it would in another process."""

    def __init__(self, chunks=None, seed=0, isolate=False):
        self.chunks, self.rng, self.isolate = chunks or [], random.Random(seed), isolate
        self.calls = self.followed = 0

    def __call__(self, dsk, keys, **kw):
        g = dsk.__dask_graph__() if hasattr(dsk, "__dask_graph__") else dsk
        g = convert_legacy_graph(dict(g))
        idx = sorted({k[-1] for k in g if isinstance(k, tuple) and isinstance(k[-1], int)})
        order = list(idx)
        if self.chunks and len(self.chunks[self.calls % len(self.chunks)]) == len(idx):
            base = min(self.chunks[self.calls % len(self.chunks)])
            order = [idx[x - base] for x in self.chunks[self.calls % len(self.chunks)]]
            self.followed += 1
        else:
            self.rng.shuffle(order)
        self.calls += 1
        rank = {x: i for i, x in enumerate(order)}
        cache, todo = {}, dict(g)
        while todo:
            ready = [k for k, v in todo.items() if all(d in cache for d in v.dependencies)]
            ready.sort(key=lambda k: rank.get(k[-1], -1) if isinstance(k, tuple) and isinstance(k[-1], int) else -1)
            k = ready[0]
            node = todo.pop(k)
            deps = {d: cache[d] for d in node.dependencies}
            if self.isolate:
                node, deps = cloudpickle.loads(cloudpickle.dumps((node, deps)))
            cache[k] = node(deps)

        def build(x):
            return [build(y) for y in x] if isinstance(x, list) else cache[x]
        return build(keys)


def parse_schedule(line):
    """'SCHED <<<<0, 2, 1>>, <<3>>>>' -> [[0, 2, 1], [3]]"""
    return [[int(x) for x in c.split(",")] for c in re.findall(r"<<([\d, ]+)>>", line)]


def using(s):
    return dask.config.set(scheduler=s)
