"""Runs one case in the current process (which is a child forked for it) and returns what happened."""
import gc
import hashlib
import pickle

import torch

from . import arch
from .decide import Decider
from .kernel import Kernel, patched_locks
from .memory import run_memory
from .world import DT, World, digest_of, judge_result, nnj_site, snap

# A mismatch counts against these properties only when the same call, made alone on a freshly built model with
# the same weights, is right: otherwise the defect is not one of sharing, histories, copies, ... (it is C01's).
RELATIVE = {"C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11"}


def reset_torch(case):
    torch.manual_seed(1234)
    import random

    random.seed(1234)
    torch.set_grad_enabled(True)
    torch.set_default_dtype(DT[case.get("defdtype", "f32")])


def shape_of(case):
    return hashlib.sha256(str([m["spec"] for m in case["models"].values()]).encode()).hexdigest()[:16]


def empty_result(case, cls, detail):
    return {"violations": [{"prop": case["prop"], "cls": cls, "uid": -1, "detail": detail, "solo": None}],
            "record": {"pre": [], "flt": [], "nxt": []}, "digest": hashlib.sha256(cls.encode()).hexdigest(), "ileave": None,
            "steps": 0, "switches": 0, "blocked": 0, "crashes": 0, "fired": {}, "sites": [],
            "stats": {"calls": 0, "skipped": 0, "undecidable": 0, "judged": 0, "raised": {}, "combos": [], "ops": 0},
            "shape": shape_of(case)}


def run_case(nnj, case, codes, record=None):
    reset_torch(case)
    if case["prop"] == "C12":
        return run_memory(nnj, case, codes, record) or {**empty_result(case, "", ""), "violations": []}
    gc.disable()
    rec = {"pre": [], "flt": [], "nxt": []}
    faults = {u: p for u, p in case.get("faults", [])}
    trace, ileave = hashlib.sha256(), hashlib.sha256()
    agg = {"steps": 0, "switches": 0, "fired": {}, "sites": set(), "blocked": 0, "crashes": 0}
    w = None
    for pi, tasks in enumerate(case["phases"]):
        k = Kernel(case.get("gran", "torch"), None if record is not None else
                   Decider(case["seed"] * 7 + pi, case.get("sched"), faults), record)
        k.codes = codes
        k.n_handover = pi * 100000
        if w is None:
            try:
                w = World(nnj, case, k)
            except Exception as e:
                site = nnj_site(e)
                if site is None and not isinstance(e, arch.Structure):
                    raise
                return empty_result(case, "construct-raised", f"building the model raised {type(e).__name__}: {str(e)[:200]} in {site}")
        w.k = k
        if case["prop"] == "C04":
            k.watch = w.watch
        for tid, ops in enumerate(tasks):
            k.spawn(tid, ops, w.body)
        k.run()
        rec["pre"] += k.pre
        rec["flt"] += k.flt
        rec["nxt"] += k.nxt
        trace.update(k.trace.digest())
        ileave.update(k.ileave.digest())
        agg["steps"] += k.steps
        agg["switches"] += k.switches
        agg["blocked"] += k.blocked_events
        agg["sites"] |= k.fault_sites
        for a, b in k.fired.items():
            agg["fired"][a] = agg["fired"].get(a, 0) + b
        if k.dead:
            if k.dead in ("deadlock", "livelock"):
                w.report(k.dead, -1, f"no task can go on ({k.dead}) after {k.steps} events")
            else:
                raise RuntimeError(k.dead)
            break
        w.all_records(-1)
        if k.crashed:  # the process is gone: only what is on the disk is left
            agg["crashes"] += 1
            w.models.clear()
            w.registry.clear()
            w.keep.clear()
            w.fwd.clear()
            w.obs[:] = [o for o in w.obs]
    reset = torch.get_default_dtype()
    w.judge_all()
    torch.set_default_dtype(reset)
    h = hashlib.sha256(trace.digest() + w.h.digest()).hexdigest()
    return {
        "violations": w.violations,
        "record": rec,
        "digest": h,
        "ileave": ileave.hexdigest()[:16] if agg["switches"] else None,
        "steps": agg["steps"],
        "switches": agg["switches"],
        "blocked": agg["blocked"],
        "crashes": agg["crashes"],
        "fired": agg["fired"],
        "sites": sorted(agg["sites"]),
        "stats": {**w.stats, "combos": sorted(map(str, w.stats["combos"]))},
        "shape": shape_of(case),
    }


def builds_unshared(nnj, case):
    """Can each of the models be built when no two places share an object?"""
    reset_torch({})
    for m in case["models"].values():
        spec, _ = arch.fresh_oids(m["spec"], [0])
        params = {l["oid"]: arch.init_params(l, 1, DT[case["dtype"]]) for l in arch.leaves(spec)}
        try:
            with patched_locks():
                arch.build(nnj, spec, params, DT[case["dtype"]], {})
        except Exception:
            return False
    return True


def run_solo(nnj, blob):
    """The call of a violation, alone, on a model that was just built with the same weights: is it right?"""
    b = pickle.loads(blob)
    op, spec, dtype = b["op"], b["spec"], b["dtype"]
    reset_torch({})
    try:
        with patched_locks():
            obj = arch.build(nnj, spec, b["params"], dtype, {})
        x, mat = b["x"], b["mat"]
        import copy

        x = x.clone()
        arg = None if mat is None else mat.clone()
        if b["kind"] == "fwd":
            r = obj(x)
        elif b["kind"] == "ll":
            ll = getattr(nnj, op["dist"])(aggregate_batch=op["agg"], metric_shape=op["ms"], metric_backprop=op["mb"])
            if op["what"] == "forward":
                r = ll(x, obj, b["tgt"])
            else:
                r = getattr(ll, op["what"])(x, obj, b["tgt"], wrt=op["wrt"])
        else:
            w = World.__new__(World)
            w.case = {"seed": b["seed"]}
            if arg is not None and op.get("aslist") and op["meth"] == "jmjTp" and op.get("wrt") == "weight" \
                    and spec["t"] == "Sequential" and arch.n_params(spec):
                arg = World.as_list(w, spec, arg, op.get("fd"), [0])
            val = obj(x).detach() if (op.get("val") == "own" or "xv" in op) else None
            r = World.invoke(obj, op, x, val, arg)
        ob = {"op": op, "spec": spec, "params": b["params"], "x": b["x"], "mat": b["mat"], "dtype": dtype, "kind": b["kind"],
              "tgt": b["tgt"], "outcome": "ok", "result": snap(r), "faults": []}
    except Exception as e:
        return {"right": False, "why": f"raised {type(e).__name__}: {e}"}
    v = judge_result(ob, {"undecidable": 0, "judged": 0, "combos": set()})
    return {"right": v is None, "why": v}
