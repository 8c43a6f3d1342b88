"""Entry point: python -m mc.main C01   |   python -m mc.main --replay FILE"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")


def setup_path():
    # the code under test, then the stand-ins for libraries that are absent
    sys.path.insert(0, os.path.join(HERE, "env"))
    sys.path.insert(0, REPO)


def main():
    setup_path()
    from mc import engine
    args = sys.argv[1:]
    if not args:
        print("usage: run.sh Cxx | --replay FILE | --all")
        return 2
    if args[0] == "--replay":
        with open(args[1]) as f:
            rec = json.load(f)
        mod = importlib.import_module("mc.checks." + rec["property"].lower())
        return engine.replay(mod.CHECK, rec)
    mod = importlib.import_module("mc.checks." + args[0].lower())
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    nproc = None
    for a in args:
        if a.startswith("--nproc="):
            nproc = int(a[8:])
    return engine.run_check(mod.CHECK, tier, seed, nproc)


if __name__ == "__main__":
    sys.stdout.flush()
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
