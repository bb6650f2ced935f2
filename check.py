#!/usr/bin/env python3
"""check.py PROPERTY            runs the check of a property (tier: VERIF_TIER)
check.py --setup             builds everything the checks use
check.py --replay FILE       runs one recorded violation again"""
import importlib, json, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import core

WHERE = {}
for mod, ids in {"tree": "P04 P05 P06 P07 P08 P09", "life": "P01 P02 P03", "faults": "P10 P11 P12 P13", "many": "P14", "capi": "P15",
                 "bindings": "P16 P17 P18", "cli": "P19", "values": "P20 P21", "fan": "P22", "poll": "P23"}.items():
    for i in ids.split():
        WHERE[i] = mod


def main(a):
    if a[:1] == ["--setup"]:
        for m in sorted(set(WHERE.values())):
            if os.path.exists(os.path.join(HERE, "checks", m + ".py")):
                mod = importlib.import_module(m)
                if hasattr(mod, "setup"):
                    mod.setup()
        return 0
    if a[:1] == ["--replay"]:
        d = json.load(open(a[1]))
        mod = importlib.import_module(WHERE[d["property"]])
        return mod.replay(d)
    return importlib.import_module(WHERE[a[0]]).check(a[0])


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except core.CheckError as e:
        print("CHECK-ERROR", e, file=sys.stderr)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 4
    finally:
        core.cleanup()
    sys.exit(rc)
