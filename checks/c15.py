#!/usr/bin/env python3
"""C15: linkage and storage duration: programs of one to three translation units (profile
'linkage'), each unit compiled by wcc or, in part of the programs, some of them by gcc."""
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, suite, cgen2

STATIC_THEN_PLAIN = vf.OBS_DECL + 'static int f(void);\nint f(void) { return 7; }\nint main(void) { obs(1, f()); return 0; }\n'

def check(c):
    vf.build_wcc()
    def runner(key, p, flags):
        r = random.Random(key)
        n = len(p.units)
        wcc = [True] * n
        if n > 1 and r.random() < .4: wcc[r.randrange(n)] = False
        order = list(range(n)); r.shuffle(order)
        return suite.units_run(key, p, lambda u: ('wcc', flags) if wcc[u - 1] else ('gcc', ()), order=order)
    suite.profile(c, cgen2.linkage, 3000 if vf.THOROUGH else 400, runner=runner)
    # a function declared static stays so in a later declaration without a storage class
    st, x = vf.cc_run('stp', STATIC_THEN_PLAIN)
    if st != 'run' or x.out.split() != ['1', '7']:
        c.violation('static int f(void); int f(void) {...}: %s %s' % (st, x), {'t.c': STATIC_THEN_PLAIN}, key='static-then-plain-function')

if __name__ == '__main__': vf.main('C15', check)
