#!/usr/bin/env python3
"""C02: constant expressions. The tables of spec/MCIntOps.tla replayed in every place that takes a
constant expression, and programs of random constant expressions (profile 'consts') in all of these
places and evaluated at run time, predicted by CMachine."""
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, suite, cgen4, c01
from fntable import s64

def cells(tabs, rnd, n):
    """(expression, result word, operand types) of constant operand pairs"""
    for t in tabs:
        k, op, t1, t2 = t['kind'], t['op'], t['t1'], t['t2']
        if k not in ('bin', 'un', 'cast'): continue
        L = [(i, j) for i, row in enumerate(t['r']) for j, r in enumerate(row) if r is not None]
        for i, j in (L if len(L) <= n else rnd.sample(L, n)):
            a = c01.lit(t1, t['a'][i])
            e = '%s %s %s' % (a, op, c01.lit(t2, t['b'][j])) if k == 'bin' else '%s %s' % (op, a) if k == 'un' else '(%s) %s' % (c01.T[t2], a)
            yield e, t['r'][i][j], t['rt'], {x for x in (t1, t2) if x}, k

def literal(rt, w):
    """the literal of a result, widened to one of the 64-bit types"""
    return '%dul' % w if rt == 'ul' else c01.lit('l', w)

def unit(cs):
    """one translation unit: static initialisers, enumerators, array sizes, case labels, #if"""
    out = [vf.OBS_DECL]; main = []; exp = []
    for n, (e, w, rt, ts, k) in enumerate(cs):
        lw = literal(rt, w)
        where = n % 6
        if where == 0: out.append('long x%d = %s;' % (n, e)); main.append('obs(%d, x%d);' % (n, n)); exp.append((n, w))
        elif where == 1: main.append('{ static %s x = %s; obs(%d, x); }' % (c01.T[rt], e, n)); exp.append((n, w))
        elif where == 2: out.append('enum { e%d = (%s) == %s, f%d = sizeof(%s) };' % (n, e, lw, n, e)); main.append('obs(%d, e%d * 100 + f%d);' % (n, n, n)); exp.append((n, 100 + {'c': 1, 'uc': 1, 's': 2, 'us': 2, 'i': 4, 'u': 4, 'l': 8, 'ul': 8}[rt]))
        elif where == 3: out.append('char a%d[((%s) == %s) + 3]; struct b%d { unsigned b : (%s) == %s ? 5 : 7; };' % (n, e, lw, n, e, lw)); main.append('{ struct b%d b; b.b = 127; obs(%d, sizeof a%d * 1000 + b.b); }' % (n, n, n)); exp.append((n, 4031))
        elif where == 4: main.append('switch (%s) { case %s: obs(%d, 1); break; default: obs(%d, 0); }' % (lw, e, n, n)); exp.append((n, 1))
        elif ts <= {'l', 'ul'} and k != 'cast': main.append('\n#if (%s) == %s\nobs(%d, 1);\n#else\nobs(%d, 0);\n#endif\n' % (e, lw, n, n)); exp.append((n, 1))
        else: main.append('obs(%d, (%s) * 1l);' % (n, e)); exp.append((n, w))
    fs = ['void m%d(void) {\n%s\n}' % (k, '\n'.join(main[k * 200:k * 200 + 200])) for k in range((len(main) + 199) // 200)]
    return '\n'.join(out + fs) + '\nint main(void) { %s return 0; }\n' % ' '.join('m%d();' % k for k in range(len(fs))), exp

def check(c):
    vf.build_wcc()
    rnd = random.Random(vf.SEED)
    cs = list(cells(c01.tables(c), rnd, 400 if vf.THOROUGH else 25))
    rnd.shuffle(cs)
    c.count('operator_cells', len(cs))
    chunks = [cs[k:k + 1200] for k in range(0, len(cs), 1200)]
    def one(k):
        src, exp = unit(chunks[k])
        for _ in range(2):
            st, x = vf.cc_run('cells%d' % k, src)
            w = suite.judge(exp, st, x)
            if not w: break
        return k, src, exp, w, x
    for k, src, exp, w, x in vf.pmap(one, range(len(chunks))):
        c.traces()
        if w:
            i = w.startswith('observation') and int(w.split()[1][:-1])
            e = chunks[k][exp[i][0]][0] if type(i) == int and i < len(exp) else ''
            c.violation('constant expressions, unit %d: %s: %s' % (k, e, w), {'t.c': src, 'expected.txt': '\n'.join('%d %x' % e for e in exp)}, key='cells-%d' % k)
    for e, w, *_ in cs[:3]: c.sample('%s = %d' % (e, s64(w)))
    suite.profile(c, cgen4.consts, 4000 if vf.THOROUGH else 400)

if __name__ == '__main__': vf.main('C02', check)
