"""Runs the analyser over configurations x entry points, in parallel shards."""
import json, os, threading
from core import *

# relative cost of an entry point (milliseconds, order of magnitude), only used to balance shards
def cost(n):
    p = n.split("_")
    f = p[0]
    big = {"enc": 900, "dec": 1000, "rt": 1500, "tr": 1800, "conv": 2200, "convq": 2000, "pure": 3000, "fmt": 250, "keyfmt": 60, "fmterr": 120, "mix": 60, "round": 60, "eq": 40, "slice": 60}
    c = big.get(f, 15)
    if f in ("enc", "dec", "rt", "tr", "conv", "pure"):
        w = next((x for x in p[2:] if x in ("1", "2", "4")), "1")
        c *= {"1": 1, "2": 1.5, "4": 2.2}[w]
        k = next((x for x in p[1:] if x in ("16", "24", "32")), "16")
        c *= {"16": 1, "24": 1.2, "32": 1.4}[k]
    if f == "chain":
        c = 10 + int(p[3]) * int(p[2]) * 3
    return c


GRACE = 25      # seconds left to the other processes once one has found a violation


class Runner:
    def __init__(self, work):
        self.work = work
        self.units = {}
        self.results = []      # (config name, profile, result of one analyser process)
        self.lock = threading.Lock()

    def build(self, pairs):
        """pairs: (Config, profile)"""
        todo = [p for p in pairs if (p[0].name, p[1]) not in self.units]
        setup([c.target for c, _ in todo])
        def one(p):
            return Unit(self.work, p[0], p[1]).build()
        for p, u in zip(todo, pool(one, todo)):
            self.units[(p[0].name, p[1])] = u
        return [self.units[(c.name, pr)] for c, pr in pairs]

    def analyse(self, jobs, shard_ms=6000, root_secs=240, timeout=820, env=(), alarm=None):
        """jobs: (unit, [root names]); returns {(config, profile): {root: record}}, stats"""
        tasks = []
        total = sum(cost(n) for _, ns in jobs for n in ns)
        lim = max(1500, min(shard_ms, total / (JOBS * 2)))
        for u, ns in jobs:
            ns = sorted(ns, key=cost, reverse=True)
            if not ns:
                continue
            k = max(1, min(len(ns), int(round(sum(map(cost, ns)) / lim))))
            sh_ = [[0, []] for _ in range(k)]
            for n in ns:
                s = min(sh_, key=lambda x: x[0])
                s[0] += cost(n)
                s[1].append(n)
            for i, (c, l) in enumerate(sh_):
                if l:
                    tasks.append((c, u, l, "%d" % i))
        tasks.sort(key=lambda t: -t[0])
        timer = []
        def one(t):
            r = t[1].analyse(t[2], t[3] + "-" + t[2][0], root_secs=root_secs, timeout=timeout, env=env)
            if alarm and not timer and (r.get("failed") is not None or any(alarm((t[1].cfg.name, t[1].profile), x) for x in r["roots"])):
                timer.append(halt_in(GRACE))
            return r
        try:
            res = pool(one, tasks)
        finally:
            for t in timer:
                t.cancel()
        self.halted = HALT.is_set()
        HALT.clear()
        out, stats, failed = {}, {}, []
        for t, r in zip(tasks, res):
            key = (t[1].cfg.name, t[1].profile)
            d = out.setdefault(key, {})
            for x in r["roots"]:
                d[x["root"]] = x
            if r.get("failed") is not None:
                failed.append((key, t[2], r["failed"], r.get("status")))
            s = stats.setdefault(key, {})
            for k, v in r["stats"].items():
                if isinstance(v, list):
                    s.setdefault(k, set()).update(tuple(x) if isinstance(x, list) else x for x in v)
                else:
                    s[k] = s.get(k, 0) + v
        return out, stats, failed
