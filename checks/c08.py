#!/usr/bin/env python3
"""C08: calls follow the System V ABI: programs of two units (profile 'calls'), each unit compiled by
wcc or gcc, all calls across units (and of main) through trampolines that check the convention."""
import sys, os, random, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, suite, cgen3, tramp

OPTS = [(), ('-O1',), ('-O2',), ('-O3',)]
def pair_runner(key, p, flags):
    """flags: (compiler of unit 1, of unit 2, trampolines, *wcc flags)"""
    a, b, tr, *wf = flags
    r = random.Random(key + a + b)
    name = '%s-%s%s%s%s' % (key, a, b, tr, ''.join(wf))
    gf = r.choice(OPTS)
    how = lambda u: ('wcc', wf) if (a, b)[u - 1] == 'wcc' else ('gcc', gf)
    if not tr: return suite.units_run(name, p, how)
    d = os.path.join(vf.subdir('tramp'), name); os.makedirs(d, exist_ok=True)
    fs = tramp.functions(p)
    open(d + '/t.s', 'w').write(tramp.asm(fs))
    x = vf.run(['gcc', '-c', d + '/t.s', '-o', d + '/t.o'])
    if x.rc: raise vf.ToolError('trampolines: ' + x.err[:500])
    res = suite.units_run(name, p, how, ldflags=('-no-pie', *tramp.wrap_flags(fs)), objs=(d + '/t.o', tramp_c()))
    shutil.rmtree(d, ignore_errors=True)
    if res[0] == 'run' and res[1].rc == 95:
        l = [l for l in res[1].out.split('\n') if l.startswith('ABI')]
        res[1].out += '\n' + str(l)
    return res

_tc = None
def tramp_c():
    global _tc
    with vf._lock:
        if _tc is None:
            d = vf.subdir('trampc'); open(d + '/t.c', 'w').write(tramp.C)
            r = vf.run(['gcc', '-O1', '-c', d + '/t.c', '-o', d + '/t.o'])
            if r.rc: raise vf.ToolError('trampolines: ' + r.err[:500])
            _tc = d + '/t.o'
    return _tc

def variants(n):
    v = [('wcc', 'wcc', 1), (('wcc', 'gcc', 1), ('gcc', 'wcc', 1))[n % 2]]
    if n % 4 == 0: v.append(('wcc', 'wcc', 1, '-fPIC'))
    if n % 8 == 2: v.append(('wcc', 'gcc', 0))
    if n % 8 == 6: v.append(('gcc', 'wcc', 0))
    return v

def check(c):
    vf.build_wcc()
    suite.profile(c, cgen3.calls, 2400 if vf.THOROUGH else 300, variants=(variants,), runner=pair_runner)

if __name__ == '__main__': vf.main('C08', check)
