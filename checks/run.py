#!/usr/bin/env python3
"""run.py <property> [quick|thorough]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import properties
    c = common.Check(prop, tier, seed)
    try:
        return properties.CHECKS[prop](c)
    finally:
        import shutil
        shutil.rmtree(c.dir, ignore_errors=True)

sys.exit(main())
