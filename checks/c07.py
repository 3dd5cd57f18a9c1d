#!/usr/bin/env python3
"""C07: initialisers (profile 'inits'): the same initialiser of a global, a static local and an
automatic object, and run-time values in automatic ones, executed repeatedly on a dirty stack."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, suite, cgen4

def check(c):
    vf.build_wcc()
    suite.profile(c, cgen4.inits, 2500 if vf.THOROUGH else 500, variants=((), ('-fPIC',)))

if __name__ == '__main__': vf.main('C07', check)
