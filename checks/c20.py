#!/usr/bin/env python3
"""C20: the containers. Histories of operations predicted by spec/CMaps.tla performed on the real containers, and every
path of the state graph of a small map, up to a length, in maps prepared with colliding keys, near growth, with tombstones."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, cmaps

def check(c):
    vf.build_wcc()
    cmaps.paths(c, vf.SEED, 7 if vf.THOROUGH else 5)
    for j in range(10 if vf.THOROUGH else 1):
        cmaps.run_histories(c, vf.SEED * 1000 + j, 3000 if vf.THOROUGH else 2000, 'h%d' % j)

if __name__ == '__main__': vf.main('C20', check)
