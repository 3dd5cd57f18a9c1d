#!/usr/bin/env python3
"""C11: macro expansion. Random macro definitions and texts, and the enumeration of small definition
sets, expanded by spec/CPre.tla (Prosser's algorithm) and by `wcc -E`; the output is preprocessed again."""
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, cpre

def check(c):
    vf.build_wcc()
    seeds = range(vf.SEED * 1000000, vf.SEED * 1000000 + (12000 if vf.THOROUGH else 1500))
    cases = [cpre.macros(k) for k in seeds]
    small = cpre.small_macros()
    c.count('small definition sets', len(small))
    cases += small if vf.THOROUGH else random.Random(vf.SEED).sample(small, 3000)
    cpre.check_cases(c, cases, what='macros')
    c.sample(''.join(cases[0]['files'][0]['text']))

if __name__ == '__main__': vf.main('C11', check)
