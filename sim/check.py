"""Decides one property: seeded search over histories, schedules and fault sequences.

    python -m sim.check C01 quick|thorough
"""
import collections
import copy
import json
import os
import subprocess
import sys
import time

from . import env
from .rng import derive
from .runner import Pool, Zygote, in_child

# property: (runs quick, runs thorough)
RUNS = {"C01": (6000, 60000), "C02": (6000, 60000), "C03": (5000, 50000), "C04": (6000, 60000), "C05": (5000, 50000),
        "C06": (6000, 60000), "C07": (5000, 50000), "C08": (5500, 60000), "C09": (5000, 50000), "C10": (5500, 60000),
        "C11": (6000, 60000), "C12": (1500, 12000), "C13": (6000, 60000)}
BUDGET = {"quick": 300, "thorough": 780}   # seconds of searching, whatever the machine
RUN_LIMIT = 90                             # seconds: one run takes about a tenth of a second
DOUBLE = 53                                # every so many runs is executed twice and compared

RELATIVE = {"C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11"}


def nontrivial(prop, r):
    if prop == "C02":
        return r["switches"] > 0
    if prop == "C03":
        return bool(r["stats"]["raised"])
    return r["stats"]["calls"] > 1 or r["stats"]["ops"] > 1


def make_case(prop, seed):
    from .gen import generate

    return json.loads(json.dumps(generate(prop, seed)))


def counts(zy, prop, v, case=None):
    """Is this violation one of the property (rather than one of C01 or C10, that needs no history)?"""
    if prop not in RELATIVE:
        return True
    from .case import builds_unshared, run_solo

    if v["cls"] == "construct-raised":
        if prop != "C08" or case is None:
            return False
        s = in_child(lambda: builds_unshared(zy.nnj, case), RUN_LIMIT)
        return s[0] == "ok" and s[1]
    if v.get("solo") is None:
        return True
    s = in_child(lambda: run_solo(zy.nnj, v["solo"]), RUN_LIMIT)
    return s[0] == "ok" and s[1]["right"]


def execute(zy, case, record=None):
    from .case import run_case

    return in_child(lambda: run_case(zy.nnj, case, zy.codes, record), RUN_LIMIT)


def first_counting(zy, prop, result, cls=None, case=None):
    seen = set()
    for v in result["violations"]:
        if cls is not None and v["cls"] != cls:
            continue
        if v["cls"] in seen:
            continue
        if counts(zy, prop, v, case):
            return v
        seen.add(v["cls"])
    return None


def outcome_violation(prop, r):
    """A run that did not end by itself: the code under test hung or killed the process."""
    if r[0] == "timeout":
        return {"cls": "hang", "uid": -1, "detail": f"the run did not end within {RUN_LIMIT} s", "solo": None}
    if r[0] == "died":
        return {"cls": "died", "uid": -1, "detail": f"the process died (status {r[1]})", "solo": None}
    return None


class Worker:
    def __init__(self, zy, prop):
        self.zy, self.prop = zy, prop

    def __call__(self, seed):
        case = make_case(self.prop, seed)
        r = execute(self.zy, case)
        if r[0] in ("timeout", "died"):
            r2 = execute(self.zy, case)
            if r2[0] != r[0]:
                r = r2
        if r[0] == "timeout" and self.prop == "C12":
            return {"seed": seed, "slow": True}  # hundreds of cycles on a busy machine; a hang is for C02 to find
        if r[0] in ("timeout", "died"):
            return {"seed": seed, "bad": outcome_violation(self.prop, r)}
        if r[0] != "ok":
            return {"seed": seed, "error": str(r[1])}
        r = r[1]
        out = {"seed": seed, "r": {k: v for k, v in r.items() if k not in ("violations", "record")}}
        out["foreign"] = 0
        if r["violations"]:
            v = first_counting(self.zy, self.prop, r, case=case)
            if v is None:
                out["foreign"] = len(r["violations"])
                out["foreign_detail"] = r["violations"][0]["detail"]
            else:
                out["bad"] = {k: v[k] for k in ("cls", "uid", "detail")}
                # what a process holds is a measurement, not a result: growth counts when fresh processes measure it again
                if self.prop == "C12" and v["cls"] == "growth":
                    for _ in range(2):
                        if not violates(self.zy, self.prop, case, None, "growth"):
                            del out["bad"]
                            out["unconfirmed"] = v["detail"]
                            break
        if (seed >> 8) % DOUBLE == 0 and not r["violations"]:
            again = execute(self.zy, case, r["record"])  # the recorded decisions, not the generator
            if again[0] != "ok":
                out["error"] = f"second execution: {again[0]} {again[1]}"
            else:
                out["twice"] = again[1]["digest"] == r["digest"]
        return out


# ---------------------------------------------------------------------------------------------- minimising


def violates(zy, prop, case, record, cls):
    r = execute(zy, case, record)
    if cls in ("hang", "died"):
        v = outcome_violation(prop, r)
        return (v, None) if v is not None and v["cls"] == cls else None
    if r[0] != "ok":
        return None
    v = first_counting(zy, prop, r[1], cls, case)
    return None if v is None else (v, r[1])


def ddmin(items, test, deadline):
    n = 2
    while len(items) >= 1 and time.monotonic() < deadline:
        size = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items) and time.monotonic() < deadline:
            cand = items[:i] + items[i + size :]
            if test(cand):
                items = cand
                reduced = True
            else:
                i += size
        if not reduced:
            if size == 1:
                break
            n *= 2
    return items


def minimise(zy, prop, case, record, cls, seconds):
    deadline = time.monotonic() + seconds
    case, record = copy.deepcopy(case), json.loads(json.dumps(record))

    def ok(c, r):
        return violates(zy, prop, c, r, cls) is not None

    def with_ops(keep):
        c = copy.deepcopy(case)
        c["phases"] = [[[o for o in t if o["uid"] in keep] for t in ph] for ph in c["phases"]]
        return c

    def rec_for(keep, rec):
        k = set(keep)
        return {"pre": [p for p in rec["pre"] if p[0] in k], "flt": [f for f in rec["flt"] if f[0] in k], "nxt": rec["nxt"]}

    uids = [o["uid"] for ph in case["phases"] for t in ph for o in t]
    for _ in range(2):
        uids = ddmin(uids, lambda keep: ok(with_ops(set(keep)), rec_for(keep, record)), deadline)
        case = with_ops(set(uids))
        record = rec_for(uids, record)
        for key in ("pre", "flt", "nxt"):
            record[key] = ddmin(record[key], lambda keep: ok(case, {**record, key: keep}), deadline)
    # simpler arguments
    for ph in case["phases"]:
        for t in ph:
            for o in t:
                for key, val in (("amb", None), ("val", None), ("b", 1)):
                    if time.monotonic() < deadline and key in o and o[key] not in (val,):
                        old = o[key]
                        o[key] = val
                        if not ok(case, record):
                            o[key] = old
                for d in ("x", "mat"):
                    if isinstance(o.get(d), dict) and o[d].get("how") not in ("new", None) and time.monotonic() < deadline:
                        old = o[d]["how"]
                        o[d]["how"] = "new"
                        if not ok(case, record):
                            o[d]["how"] = old
    # models no operation uses
    used = {o.get("m") for ph in case["phases"] for t in ph for o in t}
    for mid in list(case["models"]):
        if mid not in used and len(case["models"]) > 1 and time.monotonic() < deadline:
            c = copy.deepcopy(case)
            del c["models"][mid]
            if ok(c, record):
                case = c
    case["faults"] = []  # the record holds the faults that count
    return case, record


def describe_case(case):
    from .world import brief

    lines = [f"model {m}: {brief(d['spec'])} input {d['shape']}" for m, d in case["models"].items()]
    for pi, ph in enumerate(case["phases"]):
        for ti, t in enumerate(ph):
            for o in t:
                lines.append(f"phase {pi} task {ti} op {o['uid']}: " + " ".join(
                    f"{k}={o[k]}" for k in ("k", "m", "path", "meth", "what", "how", "route", "wrt", "fd", "td", "db", "b", "i", "j", "xv", "g", "new", "name") if o.get(k) not in (None, False, [])))
    return lines


def report(zy, prop, seed, bad, known):
    """Minimises the violation of this seed, writes the replay file and prints the line.  False: not reproducible."""
    case = make_case(prop, seed)
    cls = bad["cls"]
    record = None
    if cls in ("hang", "died"):
        min_case, min_rec, v, digest, exact = case, None, bad, None, True
    else:
        hit = None
        for _ in range(4):
            hit = violates(zy, prop, case, None, cls)
            if hit:
                break
        if not hit:
            return None
        record = json.loads(json.dumps(hit[1]["record"]))
        again = violates(zy, prop, case, record, cls)
        if again is None:
            min_case, min_rec = case, None
        else:
            min_case, min_rec = minimise(zy, prop, case, record, cls, 60 if prop != "C12" else 90)
        last = violates(zy, prop, min_case, min_rec, cls) or violates(zy, prop, min_case, min_rec, cls)
        if last is None:
            min_case, min_rec = case, None
            last = hit
        v, digest = last[0], last[1]["digest"]
    where = os.path.join(env.VERIF, "replays")
    os.makedirs(where, exist_ok=True)
    path = os.path.join(where, f"{prop}-{seed:016x}.json")
    doc = {"property": prop, "seed": seed, "violation": {k: v[k] for k in ("cls", "uid", "detail")}, "digest": digest,
           "summary": describe_case(min_case), "schedule": min_rec, "case": min_case}
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "sim.replay", path], cwd=env.VERIF, capture_output=True, text=True,
                       env={**os.environ, "PYTHONHASHSEED": "0"})
    print(f"violation of {prop} ({v['cls']}): {v['detail']}")
    for l in doc["summary"]:
        print("  " + l)
    if min_rec:
        print(f"  schedule: {len(min_rec['pre'])} preemptions {min_rec['pre'][:6]}, faults {min_rec['flt'][:6]}")
    print("  replay in a fresh process: " + (p.stdout.strip().splitlines() or ["?"])[-1])
    print(f"VIOLATION property={prop} replay={path}")
    return path


# ---------------------------------------------------------------------------------------------- main


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    tier = "thorough" if tier == "thorough" else "quick"
    vseed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    zy = Zygote()
    n = RUNS[prop][0 if tier == "quick" else 1]
    n = int(os.environ.get("SIM_RUNS", n))
    workers = int(os.environ.get("SIM_WORKERS", min(8, os.cpu_count() or 1)))
    seeds = [derive(vseed, prop, tier, i) >> 16 for i in range(n)]
    agg = collections.Counter()
    raised, fired, combos, shapes, ileaves, sites = collections.Counter(), collections.Counter(), set(), set(), set(), set()
    errors, bads, unstable = [], [], []
    deciding = set()
    samples = []
    t1 = time.monotonic()
    deadline = t1 + BUDGET[tier]

    def on_result(seed, res):
        if not isinstance(res, dict):
            errors.append((seed, str(res)))
            return
        agg["runs"] += 1
        if "error" in res:
            errors.append((seed, res["error"]))
        agg["slow"] += "slow" in res
        agg["unconfirmed"] += "unconfirmed" in res
        if res.get("bad"):
            bads.append((seed, res["bad"]))
        r = res.get("r")
        if r is None:
            return
        agg["foreign"] += res["foreign"]
        if res["foreign"] and os.environ.get("SIM_DEBUG"):
            print("foreign", seed, res["foreign_detail"])
        if "twice" in res:
            agg["twice"] += 1
            if not res["twice"]:
                unstable.append(seed)
        s = r["stats"]
        for k in ("calls", "skipped", "undecidable", "judged", "ops"):
            agg[k] += s.get(k, 0)
        agg["cycles"] += s.get("cycles", 0)
        for k in ("steps", "switches", "blocked", "crashes"):
            agg[k] += r[k]
        agg["interrupted_runs"] += bool(r["fired"])
        agg["switched_runs"] += bool(r["switches"])
        raised.update(s["raised"])
        fired.update(r["fired"])
        combos.update(s["combos"])
        shapes.add(r["shape"])
        sites.update(map(tuple, r["sites"]))
        if r["ileave"]:
            ileaves.add(r["ileave"])
        if s.get("judged", 0) and nontrivial(prop, r):
            deciding.add(r["digest"])
        if len(samples) < 3 and agg["runs"] % 7 == 3:
            samples.append({"seed": seed, "program": describe_case(make_case(prop, seed)), "events": r["steps"], "faults": r["fired"],
                            "baton_handovers": r["switches"], "digest": r["digest"][:16]})

    todo = iter(seeds)
    code = None
    reported = None
    tried = 0
    while code is None:
        Pool(workers, Worker(zy, prop)).map(todo, on_result, stop=lambda: bool(bads) or len(errors) > 5 or time.monotonic() > deadline)
        searched = time.monotonic() - t1
        while bads and reported is None:
            seed, bad = bads.pop(0)
            tried += 1
            reported = report(zy, prop, seed, bad, None)
            if reported is None:
                agg["unreproduced"] += 1
        if reported is not None:
            code = 1
        elif errors or unstable:
            code = 2
        elif agg["unreproduced"] > 20 or time.monotonic() > deadline or agg["runs"] >= n:
            code = 2 if agg["unreproduced"] > 0 else 0
    wall = time.monotonic() - t0
    agg["deciding"] = len(deciding)
    write_evidence(prop, tier, vseed, n, agg, raised, fired, combos, shapes, ileaves, sites, samples, searched, wall, workers, code)
    for s, e in errors[:3]:
        print(f"HARNESS ERROR property={prop} seed={s}: " + " | ".join(e.strip().splitlines()[-3:]))
    for s in unstable[:3]:
        print(f"HARNESS ERROR property={prop} seed={s}: two executions of the same decisions differ")
    if agg["unreproduced"] and code == 2:
        print(f"HARNESS ERROR property={prop}: {agg['unreproduced']} violations that did not show again")
    print(f"{prop} {tier}: {agg['runs']} runs, {agg['judged']} results judged, {agg['steps']} events, {agg['switches']} switches, "
          f"faults {dict(fired)}, {len(ileaves)} interleavings, {agg['foreign']} results of other properties, {wall:.0f} s -> exit {code}")
    sys.stdout.flush()
    os._exit(code)


def write_evidence(prop, tier, vseed, n, agg, raised, fired, combos, shapes, ileaves, sites, samples, searched, wall, workers, code):
    from .about import ABOUT

    a = ABOUT[prop]
    doc = {
        "property": prop, "tier": tier, "seed": vseed, "level": "exploration", "wall_s": round(wall, 2),
        "violations": 1 if code == 1 else 0,
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": agg["deciding"],
            "rule": "One evaluation is one simulated run: a program of operations for one or more tasks, a schedule and a fault plan, "
                    "all derived from (VERIF_SEED, property, run number). A run is counted as distinct by the hash of its event trace and results, and as "
                    "non-trivial when at least one of its results was decided by the oracle (not all on a kink or failed) and " + a["nontrivial"] + ". " + a["rule"],
            "samples": samples,
            "planned_runs": n,
            "runs_per_hour": round(agg["runs"] / max(searched, 1e-6) * 3600),
            "seeds_per_hour": round(agg["runs"] / max(searched, 1e-6) * 3600),
            "workers": workers,
            "simulated_time": f"{agg['steps']} events of the code under test (the library has no clock or timer: logical time is the event count)",
            "results_judged": agg["judged"],
            "results_on_a_kink_not_judged": agg["undecidable"],
            "operations": agg["ops"],
            "calls": agg["calls"],
            "cycles_measured": agg["cycles"],
            "runs_given_up_as_too_slow": agg["slow"],
            "growths_a_second_process_did_not_show": agg["unconfirmed"],
            "faults_injected": dict(sorted(fired.items())),
            "runs_with_a_fault": agg["interrupted_runs"],
            "distinct_fault_sites": len(sites),
            "process_crashes": agg["crashes"],
            "exceptions_seen": dict(sorted(raised.items())),
            "baton_handovers": agg["switches"],
            "waits_on_simulated_locks": agg["blocked"],
            "runs_with_a_preemption": agg["switched_runs"],
            "distinct_interleavings": len(ileaves),
            "interleaving_measure": "hash of the sequence of (from task, to task, source line or torch call at which the baton passed)",
            "distinct_models": len(shapes),
            "distinct_call_kinds": len(combos),
            "call_kind_measure": "(method, wrt, from_diag, to_diag, diag_backprop, metric given, set of layer types)",
            "runs_executed_twice_and_equal": agg["twice"],
            "mismatches_left_to_other_properties": agg["foreign"],
            "real_components": ["every module of nnj, imported from the working tree", "torch on the CPU", "Python threads, pickle, copy"],
            "simulated_components": a["stubs"],
        },
        "assumptions": a["assumptions"],
    }
    d = os.path.join(env.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, f"{prop}.json"))


if __name__ == "__main__":
    main()
