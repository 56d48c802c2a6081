import argparse
import os
import sys
import traceback

from . import engine
from .build import HarnessError
from .props import load


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    a = ap.parse_args()
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    prop = load(a.prop)
    try:
        if a.replay:
            return engine.replay(prop, a.replay)
        return engine.main(prop, a.tier, seed)
    except HarnessError as e:
        print(f"ERROR: {a.prop}: {e}", file=sys.stderr)
        return 2
    except Exception:  # a fault of the machinery's own, never a verdict
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
