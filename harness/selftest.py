#!/usr/bin/env python3
"""setup_cmd: the trusted base works here (exact rationals against integer arithmetic), and the code imports."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlc
r = tlc.model_check('MC_BigRat')
print('exact rationals:', r['states'], 'states')
