#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--cases N]"""
import argparse, importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "props")]
import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--script", action="store_true", help="with --replay: print the script and its output")
    a = ap.parse_args()
    mod = a.property.lower()
    m = importlib.import_module(mod)
    prop = m.Check()
    if a.replay:
        case = json.load(open(a.replay))["case"]
        if a.script:
            os.environ["VERIF_SHOW"] = "1"
        msg, st = core._try(prop, case)
        print(msg or "passes", st)
        if msg:
            print("VIOLATION property=%s replay=%s" % (a.property, a.replay))
        sys.exit(1 if msg else 0)
    sys.exit(core.run_check(prop, mod, a.tier, a.seed, a.cases))


if __name__ == "__main__":
    main()
