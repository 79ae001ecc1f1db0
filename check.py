#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]   decide one property by symbolic execution of the real code"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import run
sys.exit(run.main(sys.argv[1:]))
