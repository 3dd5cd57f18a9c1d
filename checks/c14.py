#!/usr/bin/env python3
"""C14: scopes and name spaces: random programs of the profile 'scopes', run by spec/CMachine.tla and by wcc."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, suite, cgen2

def check(c):
    vf.build_wcc()
    suite.profile(c, cgen2.scopes, 4000 if vf.THOROUGH else 500)

if __name__ == '__main__': vf.main('C14', check)
