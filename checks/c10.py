#!/usr/bin/env python3
"""C10: programs with many simultaneously live values, under every register allocation option."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, suite, cgen

VARIANTS = ((), ('-fno-live-range-coalescing',), ('-fspill-furthest-liveness-end',), ('-fno-dont-spill-short-live-ranges',),
    ('-fno-vreg-renumbering',), ('-fno-optimize-arithmetic',), ('-fno-live-range-coalescing', '-fspill-furthest-liveness-end'),
    ('-fPIC', '-fno-vreg-renumbering', '-fno-live-range-coalescing'))
def check(c):
    vf.build_wcc()
    suite.profile(c, cgen.pressure, 3000 if vf.THOROUGH else 500, VARIANTS)

if __name__ == '__main__': vf.main('C10', check)
