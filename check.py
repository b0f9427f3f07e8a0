#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property
check.py replay FILE                 run a saved case again"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from edv import props

if __name__ == '__main__':
    if len(sys.argv) > 2 and sys.argv[1] == 'replay':
        sys.exit(props.replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(props.check(sys.argv[1], tier))
