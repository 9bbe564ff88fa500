"""Seeded search strategies over schedules and fault sequences."""
from .rng import Rng


class Decider:
    def __init__(self, seed, sched=None, faults=None):
        """sched: {"mode": uniform|burst|pct|phase, ...}; faults: {uid: {"kind", "at", "phase"?, "burst"?}}"""
        self.r = Rng(seed, "decide")
        self.sched = sched or {}
        self.plan = faults or {}
        self.seen = {}
        self.left = None
        self.prio = None
        self.burst = {}

    # -- schedules

    def next(self, k, cand):
        if self.sched.get("mode") == "pct":
            self._prios(k)
            return max(cand, key=lambda t: self.prio[t.tid])
        return cand[self.r.below(len(cand))]

    def _prios(self, k):
        if self.prio is None:
            tids = self.r.shuffle(sorted(k.tasks))
            self.prio = {t: i + 100 for i, t in enumerate(tids)}
            n = self.sched.get("est", 300)
            self.points = {self.r.below(n): i for i in range(self.sched.get("d", 3))}

    def preempt(self, k, task):
        m = self.sched.get("mode")
        if m is None:
            return None
        if task.took_lock:  # holding a lock: the moment others can be made to wait
            task.took_lock = False
            if m in ("uniform", "burst") and self.r.chance(0.6):
                return self._other(k, task)
        if m == "uniform":
            if not self.r.chance(self.sched["p"]):
                return None
            return self._other(k, task)
        if m == "burst":
            if self.left is None or self.left <= 0:
                self.left = 1 + self.r.below(self.sched["k"])
                return self._other(k, task)
            self.left -= 1
            return None
        if m == "pct":
            self._prios(k)
            i = self.points.get(k.steps)
            if i is not None:
                self.prio[task.tid] = i
            best = max((t for t in k.tasks.values() if not t.done and t.blocked_on is None),
                       key=lambda t: self.prio[t.tid])
            return best.tid if best is not task else None
        if m == "op":  # only between operations
            if task.n == 1 and self.r.chance(0.6):
                return self._other(k, task)
            return None
        raise AssertionError(m)

    def _other(self, k, task):
        c = [t.tid for t in k.tasks.values() if not t.done and t.blocked_on is None and t is not task]
        return c[self.r.below(len(c))] if c else None

    # -- faults

    def fault(self, k, task, n, phase, name):
        p = self.plan.get(task.uid)
        if p is None:
            return None
        if p.get("phase", "pre" if p["kind"] in ("oom", "memerr") else "post") != phase:
            return None
        c = self.seen.get(task.uid, 0)
        self.seen[task.uid] = c + 1
        if c == p["at"]:
            return p["kind"]
        if c > p["at"] and p.get("burst") and self.r.chance(p["burst"]):
            return p["kind"]
        return None
