"""Replays one violation:  python -m sim.replay replays/C02-....json   (exit 1: it shows again, exactly; 0: it does not)"""
import json
import os
import sys

from .runner import Zygote


def main():
    with open(sys.argv[1]) as f:
        doc = json.load(f)
    zy = Zygote()
    from .check import violates

    cls = doc["violation"]["cls"]
    hit = violates(zy, doc["property"], doc["case"], doc["schedule"], cls)
    if hit is None:
        print("NOT REPRODUCED")
        code = 0
    else:
        v, r = hit
        exact = r is None or (r["digest"] == doc["digest"] and v["detail"] == doc["violation"]["detail"])
        print(v["detail"])
        print(f"VIOLATION property={doc['property']} replay={os.path.abspath(sys.argv[1])}")
        print("REPRODUCED " + ("exactly" if exact else "with the same violation, other trace"))
        code = 1
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
