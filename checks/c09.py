#!/usr/bin/env python3
"""C09: variadic functions see exactly the promoted arguments: programs of two units (profile 'varargs'),
each unit compiled by wcc or gcc, all calls across units through the trampolines of C08."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, suite, cgen3
from c08 import pair_runner

def variants(n):
    v = [('wcc', 'wcc', 1), (('wcc', 'gcc', 1), ('gcc', 'wcc', 1))[n % 2]]
    if n % 4 == 0: v.append(('wcc', 'wcc', 0, '-fPIC'))
    if n % 4 == 2: v.append((('wcc', 'gcc', 0), ('gcc', 'wcc', 0))[n // 4 % 2])
    return v

def check(c):
    vf.build_wcc()
    suite.profile(c, cgen3.varargs, 2400 if vf.THOROUGH else 300, variants=(variants,), runner=pair_runner)

if __name__ == '__main__': vf.main('C09', check)
