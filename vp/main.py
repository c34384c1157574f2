import argparse, os, sys
from . import engine

ap = argparse.ArgumentParser()
ap.add_argument("id")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
ap.add_argument("--replay")
a = ap.parse_args()
sys.exit(engine.main(a.id, a.tier, a.seed, a.replay))
