"""Entry point: check.py <ID> [--tier quick|thorough] [--replay FILE]."""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument('id')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--replay')
ap.add_argument('--procs', type=int)
ap.add_argument('-v', action='store_true')
a = ap.parse_args()
sys.exit(core.main(a.id, a.tier, int(os.environ.get('VERIF_SEED', '1') or 1), a.replay, a.procs, a.v))
