#!/usr/bin/env python3
"""C16: programs that violate constraints are rejected at the place, others accepted (spec/CCheck.tla)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, ccheck

def check(c):
    vf.build_wcc()
    for j in range(8 if vf.THOROUGH else 1):
        ccheck.run_programs(c, vf.SEED * 100 + j, 5000 if vf.THOROUGH else int(os.environ.get('N', '4000')), 'p%d' % j)

if __name__ == '__main__': vf.main('C16', check)
