"""python3 -m sa.run P03 [--tier quick|thorough] [--repo /repo]"""
import argparse
import importlib
import os
import sys
import traceback

from .report import Broken, Report, finish


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    mod = importlib.import_module(f"sa.checks.{a.prop.lower()}")
    rep = Report(a.prop, a.tier, mod.RULES)
    try:
        mod.run(rep, a.repo, a.tier)
    except Broken as e:
        print(f"analysis broken: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        if rep.found:
            return finish(rep, mod.__doc__.strip(), int(os.environ.get("VERIF_SEED", "1")))
        return 2
    return finish(rep, mod.__doc__.strip(), int(os.environ.get("VERIF_SEED", "1")))


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def go():
        rc[0] = main()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc[0] is not None else 2)
