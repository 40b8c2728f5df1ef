"""python run.py <id> [quick|thorough]   |   python run.py --replay <file>"""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))


def main():
    if sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        os.environ["VERIF_TIER"], os.environ["VERIF_SEED"] = rec["tier"], str(rec["seed"])
        from mc import core
        sys.exit(core.replay(importlib.import_module("checks." + rec["property"]), rec))
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.environ["VERIF_SEED"] = str(seed)
    from mc import core
    try:
        mod = importlib.import_module("checks." + pid)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        traceback.print_exc()
        sys.exit(3)
    try:
        rc = core.run_check(mod, tier, seed)
    except core.HarnessError as e:
        print("HARNESS ERROR:", e)
        rc = 3
    sys.exit(rc)


main()
