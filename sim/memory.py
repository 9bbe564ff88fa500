"""C12: what a model holds on to must not grow with the number of calls made on it."""
import ctypes
import gc
import hashlib
import sys
import threading
import _thread

import torch

from .decide import Decider
from .kernel import Kernel


class MallInfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks",
                                               "uordblks", "fordblks", "keepcost")]


_libc = ctypes.CDLL(None)
_libc.mallinfo2.restype = MallInfo2


def reach(roots):
    """Number of objects (of any kind) that the models and the library hold on to."""
    import types

    seen, todo = set(), list(roots)
    while todo:
        o = todo.pop()
        i = id(o)
        if i in seen:
            continue
        if isinstance(o, types.ModuleType):
            if not o.__name__.split(".")[0] == "nnj":
                continue
        elif isinstance(o, (type, types.FunctionType)):
            if not str(o.__module__).split(".")[0] == "nnj":
                continue
        elif isinstance(o, (types.FrameType, types.CodeType, types.BuiltinFunctionType)):
            continue
        seen.add(i)
        todo.extend(gc.get_referents(o))
    return len(seen)


def measure(roots):
    gc.collect()
    n = b = 0
    objs = gc.get_objects()
    for o in objs:
        if issubclass(type(o), torch.Tensor):
            n += 1
            b += o.untyped_storage().nbytes() if o.layout == torch.strided else 0
    mi = _libc.mallinfo2()
    return {"tensors": n, "bytes": b, "tracked": len(objs), "heap": mi.uordblks + mi.hblkhd, "reach": reach(roots)}


def run_memory(nnj, case, codes, record):
    """The program of the case is one cycle; it is repeated and the process is measured at growing distances."""
    from .arch import Structure
    from .world import World, nnj_site

    plan = {u: p for u, p in case.get("faults", [])}
    total = {"steps": 0, "fired": {}, "sites": set()}
    trace = hashlib.sha256()
    k0 = Kernel("torch", Decider(case["seed"]), None)
    try:
        w = World(nnj, case, k0)
    except Exception as e:
        if nnj_site(e) is None and not isinstance(e, Structure):
            raise
        return None  # nothing to measure
    vary = case.get("vary", "none")
    own, nshadow, nreg = set(w.models), set(w.shadow), set(w.registry)
    rec = {"pre": [], "flt": [], "nxt": []}
    counts = {}
    start = -1 if vary == "batch" else 0

    def cycle(i, settle=False):
        # each cycle runs in threads of its own, like requests of a server
        first = i < 2
        k = Kernel("torch", Decider(case["seed"], case.get("sched"), plan) if record is None else None, record)
        k.codes = codes
        w.k = k
        if vary != "none":
            w.cycle = i
        for tid, ops in enumerate(case["phases"][0]):
            if vary == "batch" and not settle:
                ops = [{**o, "b": o["b"] + (i if i >= 0 else escalate[2])} if "b" in o else o for o in ops]
            k.spawn(tid, ops, w.body)
        k.run()
        if k.dead:
            raise RuntimeError(k.dead)
        if first and record is None:
            if i == min(0, start):
                rec["flt"], rec["pre"], rec["nxt"] = k.flt, k.pre, k.nxt
        total["steps"] += k.steps
        for a, b in k.fired.items():
            total["fired"][a] = total["fired"].get(a, 0) + b
        total["sites"] |= k.fault_sites
        if i < 3:
            trace.update(k.trace.digest())
        counts["calls"] = counts.get("calls", 0) + len(w.obs)
        w.obs.clear()
        w.violations.clear()
        w.keep.clear()
        w.fwd.clear()
        w.live_args.clear()
        w.graphs.clear()
        w.stats["combos"].clear()
        w.disk.clear()
        for mid in set(w.models) - own:  # temporary models are dropped
            del w.models[mid]
        for o in set(w.shadow) - nshadow:
            del w.shadow[o]
        for o in set(w.registry) - nreg:
            del w.registry[o]
        k.tasks.clear()
        k.by_ident.clear()

    def growth(a, b, n):
        """The resources that grew by at least a small amount in every one of the n cycles between a and b."""
        out = {}
        if b["tensors"] - a["tensors"] >= n:
            out["tensors"] = (b["tensors"] - a["tensors"]) / n
        if b["bytes"] - a["bytes"] >= 8 * n:
            out["tensor bytes"] = (b["bytes"] - a["bytes"]) / n
        if b["reach"] - a["reach"] >= 0.9 * n:
            out["objects held by the model or the library"] = (b["reach"] - a["reach"]) / n
        if b["tracked"] - a["tracked"] >= 0.9 * n:
            out["container objects"] = (b["tracked"] - a["tracked"]) / n
        if b["heap"] - a["heap"] >= 200 * n:
            out["heap bytes"] = (b["heap"] - a["heap"]) / n
        return out

    def roots():
        return [m["obj"] for m in w.models.values()] + list(w.llobjs.values()) + [
            m for n, m in sys.modules.items() if n.split(".")[0] == "nnj"]

    def mark():
        cycle(10**6 + done, True)  # what the last call left behind has the same size at every mark
        return measure(roots())

    points = case.get("points", [6, 18, 30])
    escalate = case.get("escalate", [60, 120, 180] if vary == "batch" else [100, 300, 500])
    done = 0
    marks = []
    viol = None
    if vary == "batch":
        cycle(-1)  # the largest call comes first: buffers that only grow have their final size
    for target in points:
        while done < target:
            cycle(done)
            done += 1
        marks.append((done, mark()))
    g = set(growth(marks[0][1], marks[1][1], marks[1][0] - marks[0][0])) & set(growth(marks[1][1], marks[2][1], marks[2][0] - marks[1][0]))
    escalated = bool(g)
    if g:
        marks = []
        for target in escalate:
            while done < target:
                cycle(done)
                done += 1
            marks.append((done, mark()))
        g1 = growth(marks[0][1], marks[1][1], marks[1][0] - marks[0][0])
        g2 = growth(marks[1][1], marks[2][1], marks[2][0] - marks[1][0])
        both = sorted(set(g1) & set(g2))
        if both == ["heap bytes"]:  # caches of torch itself fill up slowly: it has to go on
            last = marks[-1]
            for _ in range(2):
                while done < last[0] + (escalate[2] - escalate[1]):
                    cycle(done)
                    done += 1
                here = (done, mark())
                if not growth(last[1], here[1], here[0] - last[0]).get("heap bytes"):
                    both = []
                    break
                last = here
        if both:
            # (the size of the C heap depends on the allocator's history: it is no part of what a replay must reproduce)
            named = [f"{x} +{g2[x]:.1f} per cycle" for x in both if x != "heap bytes"] or ["heap bytes"]
            viol = "memory grows with every cycle of the same calls: " + ", ".join(named)
    v = []
    if viol:
        v.append({"prop": "C12", "cls": "growth", "uid": -1, "detail": viol, "solo": None})
    h = hashlib.sha256(trace.digest())
    return {"violations": v, "record": rec, "digest": h.hexdigest(), "ileave": None, "steps": total["steps"], "switches": 0,
            "blocked": 0, "crashes": 0, "fired": total["fired"], "sites": sorted(total["sites"]), "escalated": escalated,
            "stats": {**w.stats, "calls": counts.get("calls", 0), "judged": counts.get("calls", 0), "cycles": done, "combos": []},
            "shape": hashlib.sha256(str([m["spec"] for m in case["models"].values()]).encode()).hexdigest()[:16]}
