#!/usr/bin/env python3
"""C03: control flow: random programs of the profile 'flow', run by spec/CMachine.tla and by wcc."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, suite, cgen

def check(c):
    vf.build_wcc()
    suite.profile(c, cgen.flow, 4000 if vf.THOROUGH else 500)

if __name__ == '__main__': vf.main('C03', check)
