#!/usr/bin/env python3
"""C05: stores to designated objects: random programs of the profile 'stores', run by spec/CMachine.tla and by wcc."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, suite, cgen

def check(c):
    vf.build_wcc()
    suite.profile(c, cgen.stores, 4000 if vf.THOROUGH else 400)

if __name__ == '__main__': vf.main('C05', check)
