#!/usr/bin/env python3
"""C24: correct rounding. The same programs as C19, from other seeds; the observations in whose computation the
specification rounded a result or a constant are compared with the compiled program."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, cfloat

def check(c):
    vf.build_wcc()
    cfloat.check_families(c, 4000 if vf.THOROUGH else 700, vf.SEED * 1000000 + 500000, (False,))

if __name__ == '__main__': vf.main('C24', check)
