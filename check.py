#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--seed N] [--runs N] [--wall S]
   check.py <property> --replay FILE        reproduces a recorded violation
   check.py <property> --determinism        runs seeds twice and compares everything"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sim import driver      # noqa

if __name__ == '__main__':
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    p.add_argument('--runs', type=int)
    p.add_argument('--wall', type=float)
    p.add_argument('--first', type=int, default=0)
    p.add_argument('--replay')
    p.add_argument('--determinism', action='store_true')
    p.add_argument('--no-shrink', action='store_true')
    sys.exit(driver.main(p.parse_args()))
