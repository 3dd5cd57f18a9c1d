#!/usr/bin/env python3
"""C19: floating-point operations on exact and special values. Programs of floating expressions over every
type and storage kind executed by spec/MCFloat.tla; the observations whose values it marks as exact
(no operation rounded) are compared with the compiled program."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, cfloat

def check(c):
    vf.build_wcc()
    cfloat.check_families(c, 4000 if vf.THOROUGH else 700, vf.SEED * 1000000, (True,))
    cfloat.check_programs(c, [cfloat.times_zero()], (True,), 'times-zero-constant')

if __name__ == '__main__': vf.main('C19', check)
