"""Checks of the simulator itself.

    python -m sim.selftest smoke            one run of each property
    python -m sim.selftest determinism N    digests of N runs of each property (to compare between processes)
"""
import hashlib
import json
import os
import sys

from .gen import GENERATORS
from .rng import derive
from .runner import Pool, Zygote


def main():
    what = sys.argv[1]
    zy = Zygote()
    from .check import execute, make_case

    bad = 0
    if what == "smoke":
        for prop in sorted(GENERATORS):
            for i in range(2 if prop != "C12" else 1):
                r = execute(zy, make_case(prop, derive(7, prop, i) >> 16))
                if r[0] != "ok":
                    print(prop, r[0], str(r[1])[-300:])
                    bad = 1
        print("smoke", "failed" if bad else "ok")
    else:
        n, workers = int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 8
        props = sys.argv[4].split(",") if len(sys.argv) > 4 else sorted(GENERATORS)
        for prop in props:
            seeds = [derive(99, prop, i) >> 16 for i in range(n if prop != "C12" else max(1, n // 20))]
            out = {}

            def handler(seed):
                r = execute(zy, make_case(prop, seed))
                return r[1]["digest"] if r[0] == "ok" else f"{r[0]} {str(r[1])[-200:]}"

            Pool(workers, handler).map(iter(seeds), lambda j, r: out.__setitem__(j, r))
            print(prop, len(out), hashlib.sha256(json.dumps([out[s] for s in seeds]).encode()).hexdigest()[:24])
            if os.environ.get("SIM_DIGESTS"):
                with open(os.path.join(os.environ["SIM_DIGESTS"], prop), "w") as f:
                    for s in seeds:
                        f.write(f"{s} {out[s]}\n")
    sys.stdout.flush()
    os._exit(bad)


if __name__ == "__main__":
    main()
