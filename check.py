#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vf"))
import driver, specs
def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    units = specs.units(prop, tier)
    if only:
        units = [u for u in units if only in u["name"]]
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(driver.run_property(prop, units, tier, seed, specs.META.get(prop, {})))
main()
