#!/usr/bin/env python3
"""C17: the driver. spec/CDrive.tla is explored exhaustively; the real driver is run in the configurations it
enumerates and every run must end as one of the behaviours of the specification does."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, cdrive

def check(c):
    vf.build_wcc()
    T = cdrive.tools()
    cdrive.check_family(c, 'faults', 1, T)
    cdrive.check_family(c, 'bad', 1, T)
    cdrive.check_family(c, 'faults', 2, T, None if vf.THOROUGH else 4000)
    cdrive.check_family(c, 'styles', 2, T, None if vf.THOROUGH else 2000)
    cdrive.check_family(c, 'long', 3, T, None if vf.THOROUGH else 600)

if __name__ == '__main__': vf.main('C17', check)
