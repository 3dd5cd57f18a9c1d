#!/usr/bin/env python3
"""C12: directives. Random histories of conditionals, definitions, #include and #line over several files,
executed by spec/CPre.tla and by `wcc -E`: the same tokens with the same presumed lines and files, and
rejections of what is mis-nested or malformed at the right place."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, cpre

def check(c):
    vf.build_wcc()
    n = 16000 if vf.THOROUGH else 2000
    cases = [cpre.directives(vf.SEED * 1000000 + k) for k in range(n)]
    cpre.check_cases(c, cases, what='directives')
    c.sample(''.join(cases[0]['files'][0]['text']))

if __name__ == '__main__': vf.main('C12', check)
