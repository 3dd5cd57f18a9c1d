#!/usr/bin/env python3
"""C01: tables of spec/MCIntOps.tla replayed into wcc-compiled functions over all operand kinds."""
import sys, os, json, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, fntable, suite, cgen
from fntable import Fn, word, s64

T = {'c': 'char', 'uc': 'unsigned char', 's': 'short', 'us': 'unsigned short', 'i': 'int', 'u': 'unsigned int', 'l': 'long', 'ul': 'unsigned long'}
TYPES = list(T)

def lit(t, w):
    v = s64(w)
    if t == 'i': return '(-2147483647-1)' if v == -2**31 else ('(%d)' % v if v < 0 else '%d' % v)
    if t == 'u': return '%du' % w
    if t == 'l': return '(-9223372036854775807l-1)' if v == -2**63 else ('(%dl)' % v if v < 0 else '%dl' % v)
    if t == 'ul': return '%dul' % w
    return '((%s)%s)' % (T[t], '(%d)' % v if v < 0 else '%d' % v)

def prelude():
    p = ''
    for t in TYPES:
        p += '%s ga_%s, gb_%s; static %s sa_%s, sb_%s; %s ra_%s[5], rb_%s[5];\n' % (T[t], t, t, T[t], t, t, T[t], t, t)
        p += 'struct S_%s { char pad[3]; %s m; char q; %s n; };\nstatic struct S_%s st_%s;\n' % (t, T[t], T[t], t, t)
        p += '%s id_%s(%s x) { return x; }\n' % (T[t], t, T[t])
    return 'static int ione; static long ltwo;\n' + p

def tables(check):
    rnd = random.Random(vf.SEED)
    extra = [[rnd.choice([0, 65535, rnd.randrange(65536)]) for _ in range(4)] for _ in range(6 if vf.THOROUGH else 2)]
    d = vf.subdir('intops'); json.dump(extra, open(vf.scratch() + '/extra.json', 'w'))
    r = vf.tlc('MCIntOps', env={'VF_EXTRA': vf.scratch() + '/extra.json', 'VF_OUT': d}, timeout=800)
    check.add_tlc(r)
    out = []
    for f in sorted(os.listdir(d), key=int):
        x = json.load(open(d + '/' + f))
        x['a'] = [word(w) for w in x['a']]; x['b'] = [word(w) for w in x['b']]
        dec = lambda w: word(w) if w else None
        x['r'] = [[dec(w) for w in row] for row in x['r']] if x['b'] else [[dec(w)] for w in x['r']]
        out.append(x)
    return out

def gen(tab, rnd):
    """All functions for one table."""
    k, op, t1, t2, A, B, R = tab['kind'], tab['op'], tab['t1'], tab['t2'], tab['a'], tab['b'] or [0], tab['r']
    c1 = T[t1]; c2 = T.get(t2, 'int')
    base = '%s %s %s,%s' % (k, op, t1, t2)
    truth = [[None if x is None else int(x != 0) for x in row] for row in R]
    not_ = [[None if x is None else int(x == 0) for x in row] for row in R]
    sizes = {'c': 1, 'uc': 1, 's': 2, 'us': 2, 'i': 4, 'u': 4, 'l': 8, 'ul': 8}
    def F(name, body, r=R, a=A, b=B):
        return Fn(base + ' ' + name, 'long {f}(%s a, %s b) { %s }' % (c1, c2, body), a, b, r)
    if k == 'bin':
        e = lambda x, y: '%s %s %s' % (x, op, y)
        yield F('param', 'return %s;' % e('a', 'b'))
        yield F('global', 'ga_%s = a; gb_%s = b; return %s;' % (t1, t2, e('ga_' + t1, 'gb_' + t2)))
        yield F('reg-mem', 'gb_%s = b; return %s;' % (t2, e('a', 'gb_' + t2)))
        yield F('mem-reg', 'sa_%s = a; return %s;' % (t1, e('sa_' + t1, 'b')))
        yield F('deref', '%s x; %s y; %s *p = &x; %s *q = &y; *p = a; *q = b; return %s;' % (c1, c2, c1, c2, e('*p', '*q')))
        yield F('element', 'int i = ione + 2; ra_%s[i] = a; rb_%s[ltwo + 1] = b; return %s;' % (t1, t2, e('ra_%s[i]' % t1, 'rb_%s[ltwo + 1]' % t2)))
        yield F('member', 'struct S_%s x; struct S_%s *p = &st_%s; x.n = a; p->m = b; return %s;' % (t1, t2, t2, e('x.n', 'p->m')))
        yield F('call', 'return %s;' % e('id_%s(a)' % t1, 'id_%s(b)' % t2))
        yield F('live', 'long r = %s; return r + (a - a) + (b ^ b);' % e('a', 'b'))
        yield F('if', 'if (%s) return 1; return 0;' % e('a', 'b'), truth)
        yield F('if-mem', 'ga_%s = a; gb_%s = b; if (%s) return 1; else return 0;' % (t1, t2, e('ga_' + t1, 'gb_' + t2)), truth)
        yield F('ternary', 'return (%s) ? 1 : 0;' % e('a', 'b'), truth)
        yield F('not', 'return !(%s);' % e('a', 'b'), not_)
        yield F('ifnot', 'if (!(%s)) return 1; return 0;' % e('a', 'b'), not_)
        yield F('and', 'return (%s) && b == b;' % e('a', 'b'), truth)
        yield F('for', 'long n = 0; for (; %s; ) { n++; break; } return n;' % e('a', 'b'), truth)
        yield F('sizeof', 'return sizeof(%s);' % e('a', 'b'), [[sizes[tab['rt']]] * len(B)] * len(A))
        if t1 == t2: yield Fn(base + ' same', 'long {f}(%s a) { return %s; }' % (c1, e('a', 'a')), A, [0], [[R[i][i]] for i in range(len(A))])
        for j, b in enumerate(B):
            col = [[row[j]] for row in R]
            if all(x[0] is None for x in col): continue
            yield F('constR %d' % s64(b), 'return %s;' % e('a', lit(t2, b)), col, A, [0])
            if rnd.random() < .3: yield F('mem-constR %d' % s64(b), 'ga_%s = a; return %s;' % (t1, e('ga_' + t1, lit(t2, b))), col, A, [0])
            if rnd.random() < .3: yield F('if-constR %d' % s64(b), 'if (%s) return 1; return 0;' % e('a', lit(t2, b)), [[None if x[0] is None else int(x[0] != 0)] for x in col], A, [0])
        for i, a in enumerate(A):
            row = R[i]
            if all(x is None for x in row): continue
            yield Fn(base + ' constL %d' % s64(a), 'long {f}(long z, %s b) { return %s; }' % (c2, e(lit(t1, a), 'b')), [0], B, [row])
            if rnd.random() < .3: yield Fn(base + ' if-constL %d' % s64(a), 'long {f}(long z, %s b) { if (%s) return 1; return 0; }' % (c2, e(lit(t1, a), 'b')), [0], B, [[None if x is None else int(x != 0) for x in row]])
    elif k == 'un':
        o = op + ' '
        yield F('param', 'return %sa;' % o)
        yield F('global', 'ga_%s = a; return %sga_%s;' % (t1, o, t1))
        yield F('deref', '%s x; %s *p = &x; *p = a; return %s*p;' % (c1, c1, o))
        yield F('member', 'struct S_%s *p = &st_%s; p->m = a; return %sp->m;' % (t1, t1, o))
        yield F('call', 'return %sid_%s(a);' % (o, t1))
        yield F('if', 'if (%sa) return 1; return 0;' % o, truth)
        yield F('twice', 'return !%sa;' % o, not_)
        yield F('sizeof', 'return sizeof(%sa);' % o, [[sizes[tab['rt']]]] * len(A))
        for i, a in enumerate(A):
            if R[i][0] is not None:
                yield Fn(base + ' const %d' % s64(a), 'long {f}(void) { return %s%s; }' % (o, lit(t1, a)), [0], [0], [R[i]])
    elif k == 'cast':
        yield F('param', 'return (%s) a;' % c2)
        yield F('assign', '%s r = a; return r;' % c2)
        yield F('assign-global', 'gb_%s = a; return gb_%s;' % (t2, t2))
        yield F('global', 'ga_%s = a; return (%s) ga_%s;' % (t1, c2, t1))
        yield F('global-global', 'ga_%s = a; gb_%s = ga_%s; return gb_%s;' % (t1, t2, t1, t2))
        yield F('arg', 'return id_%s(a);' % t2)
        yield F('deref', '%s x; %s y; %s *p = &x; %s *q = &y; *p = a; *q = *p; return *q;' % (c1, c2, c1, c2))
        yield F('member', 'struct S_%s *p = &st_%s; struct S_%s s; p->n = a; s.m = p->n; return s.m;' % (t1, t1, t2))
        yield F('element', 'ra_%s[ione + 1] = a; rb_%s[ltwo + 3] = ra_%s[ione + 1]; return rb_%s[3];' % (t1, t2, t1, t2))
        yield Fn(base + ' return', 'static %s {f}_(%s a) { return a; } long {f}(%s a) { return {f}_(a); }' % (c2, c1, c1), A, [0], R)
        yield F('ternary', 'return b ? (%s) a : (%s) a;' % (c2, c2))
        for i, a in enumerate(A):
            yield Fn(base + ' const %d' % s64(a), 'long {f}(void) { return (%s) %s; }' % (c2, lit(t1, a)), [0], [0], [R[i]])
            yield Fn(base + ' const-assign %d' % s64(a), 'long {f}(void) { %s r = %s; return r; }' % (c2, lit(t1, a)), [0], [0], [R[i]])
            yield Fn(base + ' const-static %d' % s64(a), '%s {f}_ = %s; long {f}(void) { return {f}_; }' % (c2, lit(t1, a)), [0], [0], [R[i]])
            yield Fn(base + ' const-mem %d' % s64(a), 'long {f}(void) { gb_%s = %s; return gb_%s; }' % (t2, lit(t1, a), t2), [0], [0], [R[i]])
    elif k == 'comp':
        yield F('param', 'a %s= b; return a;' % op)
        yield F('value', 'return a %s= b;' % op)
        yield F('global', 'ga_%s = a; ga_%s %s= b; return ga_%s;' % (t1, t1, op, t1))
        yield F('global-mem', 'ga_%s = a; gb_%s = b; ga_%s %s= gb_%s; return ga_%s;' % (t1, t2, t1, op, t2, t1))
        yield F('deref', '%s x; %s *p = &x; *p = a; *p %s= b; return x;' % (c1, c1, op))
        yield F('element', 'int i = ione + 1; ra_%s[i] = a; ra_%s[i] %s= b; return ra_%s[i];' % (t1, t1, op, t1))
        yield F('member', 'struct S_%s *p = &st_%s; p->m = a; p->q = 77; p->m %s= b; return p->q == 77 ? p->m : -12345;' % (t1, t1, op))
        yield F('local', '%s x; x = a; x %s= b; return x;' % (c1, op))
        for j, b in enumerate(B):
            col = [[row[j]] for row in R]
            if all(x[0] is None for x in col): continue
            yield F('const %d' % s64(b), 'a %s= %s; return a;' % (op, lit(t2, b)), col, A, [0])
            if rnd.random() < .3: yield F('const-mem %d' % s64(b), 'ga_%s = a; ga_%s %s= %s; return ga_%s;' % (t1, t1, op, lit(t2, b), t1), col, A, [0])
    elif k == 'inc':
        pre = [[None if r[0] is None else a] for a, r in zip(A, R)]
        for nm, lv, setup in (('param', 'a', ''), ('global', 'ga_' + t1, 'ga_%s = a;' % t1),
                ('deref', '*p', '%s x; %s *p = &x; *p = a;' % (c1, c1)), ('element', 'ra_%s[ione + 1]' % t1, 'ra_%s[1] = a;' % t1),
                ('member', 'p->m', 'struct S_%s *p = &st_%s; p->m = a;' % (t1, t1)), ('local', 'x', '%s x; x = a;' % c1)):
            yield F(nm + ' pre', '%s return %s%s;' % (setup, op, lv))
            yield F(nm + ' post', '%s return %s%s;' % (setup, '(%s)' % lv if lv[0] == '*' else lv, op), pre)
            yield F(nm + ' after', '%s %s%s; return %s;' % (setup, '(%s)' % lv if lv[0] == '*' else lv, op, lv))
            yield F(nm + ' preafter', '%s %s%s; return %s;' % (setup, op, lv, lv))

def check(c):
    vf.build_wcc()
    tabs = tables(c)
    rnd = random.Random(vf.SEED)
    fns = [f for t in tabs for f in gen(t, rnd)]
    c.count('operator_sites', len(tabs))
    for f in rnd.sample(fns, 4): c.sample(f.key + ': ' + f.body)
    rnd.shuffle(fns)
    if not vf.THOROUGH:       # every non-constant function, a third of the constant ones
        fns = [f for f in fns if 'const' not in f.key or rnd.random() < .34]
    fntable.run_all(c, prelude(), fns, chunk=2500)
    suite.profile(c, cgen.expressions, 4000 if vf.THOROUGH else 300)

if __name__ == '__main__':
    vf.main('C01', check)
