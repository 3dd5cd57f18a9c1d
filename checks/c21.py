#!/usr/bin/env python3
"""C21: declarators and specifiers. spec/CDecl.tla derives every declarator up to a depth and every order of the
specifier lists; each is declared in all contexts and the sizes and values along its type are observed."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, cdecl

def check(c):
    vf.build_wcc()
    specs = cdecl.derive(c, 'specifiers', 0)
    cdecl.check_specifiers(c, specs, vf.SEED)
    plain = [x for x in specs if not set(x['toks']) & set(cdecl.STORAGE)]
    cdecl.check_declarators(c, 3, None, plain, vf.SEED)
    cdecl.check_declarators(c, 4, None if vf.THOROUGH else 1500, plain, vf.SEED + 1)
    cdecl.check_const(c, 4, 5000 if vf.THOROUGH else 800, plain, vf.SEED + 3)
    if vf.THOROUGH: cdecl.check_declarators(c, 5, 9000, plain, vf.SEED + 2)

if __name__ == '__main__': vf.main('C21', check)
