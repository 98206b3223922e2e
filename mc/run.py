import argparse
import importlib
import os
import sys
import warnings

warnings.simplefilter("ignore")
import logging
logging.disable(logging.CRITICAL)
from . import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("MC_WORKERS", "8")))
    a = ap.parse_args()
    mod = importlib.import_module(f"mc.checks.{a.prop.lower()}")
    if a.replay:
        return core.replay(mod, a.replay)
    return core.run_check(mod, a.tier, int(os.environ.get("VERIF_SEED", "1") or 1), a.workers)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
