#!/usr/bin/env python3
"""C13: tokens. Numbers, characters, strings and identifiers, in disguise (splices, trigraphs, comments, minimal
spacing), evaluated by spec/CLex.tla and by compiled programs; invalid tokens must be rejected where they are.
Whole programs in disguise must behave as their plain text; token soups go through `wcc -E`."""
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, clex, cgen, cgen2, suite, cpre

def check(c):
    vf.build_wcc()
    n = None if vf.THOROUGH else 700
    for tri in (False, True): clex.check_units(c, clex.units(n, vf.SEED * 1000 + tri, tri), tri, 'trigraphs' if tri else 'literals')
    fs = [cgen.expressions, cgen.effects, cgen.flow, cgen.stores, cgen2.scopes]
    k = 60 if vf.THOROUGH else 12
    items = [('%s-%d' % (f.__name__, s), f(s)) for f in fs for s in range(vf.SEED * 1000000 + 700000, vf.SEED * 1000000 + 700000 + k)]
    preds = suite.predict_all(c, [p for _, p in items])
    progs = [(key, p, e) for (key, p), (e, why) in zip(items, preds) if e is not None]
    clex.check_programs(c, progs[::2], False); clex.check_programs(c, progs[1::2], True)
    m = 6000 if vf.THOROUGH else 1200
    cpre.check_cases(c, [cpre.soup(vf.SEED * 1000000 + k) for k in range(m)], what='soup')

if __name__ == '__main__': vf.main('C13', check)
