#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--replay FILE]
Decides one property by seeded deterministic simulation; see DESIGN.md."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import checks
sys.exit(checks.main(sys.argv[1:]))
