#!/usr/bin/env python3
"""C04: sequencing and count of side effects: random programs of the profile 'effects', run by spec/CMachine.tla and by wcc."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, suite, cgen

def check(c):
    vf.build_wcc()
    suite.profile(c, cgen.effects, 4000 if vf.THOROUGH else 500)

if __name__ == '__main__': vf.main('C04', check)
