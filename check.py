#!/usr/bin/env python3
"""check.py <property>   decides one property on /repo's current working tree (quick or thorough by VERIF_TIER)"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import checks
sys.exit(checks.main(sys.argv[1:]))
