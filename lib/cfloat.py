"""Programs over integer and floating variables (spec/MCFloat.tla): generation, C text, prediction and replay."""
import json, os, random
import vf
from fractions import Fraction
INTS = ['c', 'uc', 's', 'us', 'i', 'u', 'l', 'ul']
FLTS = ['f', 'd', 'ld']
CN = dict(c='char', uc='unsigned char', s='short', us='unsigned short', i='int', u='unsigned int', l='long', ul='unsigned long', f='float', d='double', ld='long double')
SZ = dict(c=1, uc=1, s=2, us=2, i=4, u=4, l=8, ul=8, f=4, d=8, ld=16)
WM = (1 << 64) - 1
PREC = dict(f=24, d=53, ld=64); EMAX = dict(f=127, d=1023, ld=16383); EMIN = dict(f=-149, d=-1074, ld=-16445)
def limbs16(v): v &= WM; return [v & 65535, v >> 16 & 65535, v >> 32 & 65535, v >> 48]
def limbs12(n):
    o = []
    while n: o.append(n & 4095); n >>= 12
    return o
def from12(l): return sum(x << (12 * k) for k, x in enumerate(l))
def bits_of(t, s, m, e):
    """bits of (-1)^s m 2^e, exactly representable (m None: infinity, -1: NaN)"""
    p = PREC[t]; frac = 64 if t == 'ld' else p - 1; eb = dict(f=8, d=11, ld=15)[t]
    top = (1 << 63) if t == 'ld' else 0
    sg = s << (frac + eb)
    if m is None: return sg | ((1 << eb) - 1) << frac | top
    if m == -1: return sg | ((1 << eb) - 1) << frac | top | 1 << (p - 2)
    if m == 0: return sg
    E = e + m.bit_length() - 1
    if E >= EMIN[t] + p - 1:
        sh = p - m.bit_length()
        assert sh >= 0 or m % (1 << -sh) == 0
        mant = m << sh if sh >= 0 else m >> -sh
        return sg | (E + EMAX[t]) << frac | (mant if t == 'ld' else mant - (1 << (p - 1)))
    sh = e - EMIN[t]
    return sg | (m << sh if sh >= 0 else m >> -sh)

# ---- expressions
def var(n): return dict(k='var', n=n)
def num(t, v): return dict(k='num', t=t, v=limbs16(v), _v=v)
def fnum(t, dg, e10, text): return dict(k='fnum', t=t, dg=[int(c) for c in dg], e10=e10, _s=text)
def bits(t, b): return dict(k='bits', t=t, v=limbs12(b), _b=b)
def un(op, a): return dict(k='un', op=op, a=a)
def bi(op, a, b): return dict(k='bin', op=op, a=a, b=b)
def cast(t, a): return dict(k='cast', t=t, a=a)
def cond(c, a, b): return dict(k='cond', c=c, a=a, b=b)

def specials(t):
    p, mx, mn = PREC[t], EMAX[t], EMIN[t]
    pos = [(0, 0), (1, 0), (1, -1), (3, -1), (3, 0), (2, 0), (10, 0), (255, 0), (5, -2), ((1 << p) - 1, 0), (1 << p, 0), ((1 << (p - 1)) + 1, 0), ((1 << p) - 1, mx - p + 1), (1, mx), (1, mn), ((1 << (p - 1)) - 1, mn), (1, mn + p - 1),
           ((1 << (p - 1)) + 1, 1 - p), (1, 31), (1, 32), (1, 63), (1, 15), (1, 7), (127, 0), (32767, 0), (None, 0)]
    if p >= 32: pos += [((1 << 31) - 1, 0), ((1 << 32) - 1, 0), ((1 << 31) + 1, 0), ((1 << 32) - 1, -1)]
    else: pos += [((1 << 24) - 1, 7), ((1 << 24) - 1, 8)]
    pos += [((1 << p) - 1, 63 - p), ((1 << p) - 1, 64 - p), (1, 62), ((1 << 20) + 1, 43)]
    out = []
    for m, e in pos: out += [(0, m, e), (1, m, e)]
    return out + [(0, -1, 0)]
def int_specials(t):
    n = 8 * SZ[t]
    if t in ('c', 's', 'i', 'l'):
        v = [0, 1, -1, 2, 7, 100, -100, (1 << (n - 1)) - 1, -(1 << (n - 1)), -(1 << (n - 1)) + 1, (1 << (n - 2)) + 1]
    else: v = [0, 1, 2, 7, 100, (1 << n) - 1, 1 << (n - 1), (1 << (n - 1)) + 1, (1 << (n - 1)) - 1, (1 << n) - 2, (1 << n) - 1 - (1 << max(0, n - 25))]
    if n == 64: v += [(1 << 53) + 1, (1 << 53) - 1, (1 << 24) + 1, (1 << 62) + (1 << 38), (1 << 62) + (1 << 9), (1 << 62) + (3 << 8), 3 << 31]
    if n == 32: v += [(1 << 24) + 1, (1 << 24) + 3, (1 << 30) + 64, (1 << 30) + 192]
    if t == 'ul': v += [(1 << 63) + (1 << 39), (1 << 63) + (1 << 10), (1 << 63) + (1 << 10) + 1, (1 << 64) - (1 << 10), (1 << 63) + (3 << 10)]
    return v
def decimal_text(r, t):
    """a decimal literal: (digits, exponent, spelling)"""
    suf = dict(f=['f', 'F'], d=[''], ld=['l', 'L'])[t]
    k = r.randrange(6)
    if k == 0: a, b, x = str(r.choice([0, 1, 2, 3, 5, 8, 100, 12345, 16777217, 4294967295, 9007199254740993])), r.choice(['', '0', '5', '25', '75', '125', '0625', '1', '3']), None
    elif k == 1: a, b, x = str(r.randrange(1000)), str(r.randrange(1000)).zfill(r.randint(1, 6)), r.choice([None, 0, 1, 2, -1, -2, 5, -5])
    elif k == 2: a, b, x = '', str(r.randrange(1, 100)).zfill(r.randint(1, 4)), r.choice([None, 3, -3])
    elif k == 3: a, b, x = str(r.randrange(1, 10 ** r.randint(1, 22))), '', r.choice([0, 1, 10, 20, -10, -20, -30, 15, 7])
    elif k == 4: a, b, x = str(r.randrange(1, 10)), str(r.getrandbits(60)), r.choice([None, 0, -3, 4, 18])
    else: a, b, x = r.choice(['1', '9', '17', '2']), r.choice(['', '7', '17549', '4', '9999']), r.choice([37, -37, -44, -45, 38, 30, -30, 25] + ([300, -300, -310, 305] if t != 'f' else []))
    if x is None and not b and r.random() < .3: s = a + '.'
    else: s = a + ('.' + b if b or (x is None) else r.choice(['', '.'])) 
    if s == '.' or not (a or b): a, s = '0', '0.'
    if x is not None: s += r.choice('eE') + (r.choice(['', '+']) if x >= 0 else '-') + r.choice(['', '', '0']) + str(abs(x))
    return (a + b) or '0', (x or 0) - len(b), s + r.choice(suf)

class Gen:
    def __init__(s, seed, style=None):
        s.r = random.Random(seed * 77 + 5)
        s.vars = {}; s.store = {}; s.body = []; s.nid = 0; s.style = style
    def newvar(s, t, init):
        n = 'v%d' % (len(s.vars) + 1)
        s.vars[n] = dict(t=t, e=init)
        s.store[n] = s.r.choice(['local', 'local', 'global', 'static', 'elem', 'member', 'ptr', 'param', 'elem2'])
        return n
    def value(s, t):
        """initial value"""
        r = s.r
        if t in INTS: return num(t, r.choice(int_specials(t)) if r.random() < .7 else r.getrandbits(8 * SZ[t]) if t[0] == 'u' else r.getrandbits(8 * SZ[t]) - (1 << (8 * SZ[t] - 1)))
        k = r.random()
        if k < .45: return bits(t, bits_of(t, *r.choice(specials(t))))
        if k < .7: return bits(t, bits_of(t, r.randrange(2), r.randrange(1 << 12), -r.randrange(8)))
        p = PREC[t]
        return bits(t, bits_of(t, r.randrange(2), r.getrandbits(p) | 1 << (p - 1), r.randint(-p - 8, 10)))
    def const(s):
        r = s.r
        if r.random() < .4:
            t = r.choice(['i', 'i', 'u', 'l', 'ul'])
            v = r.choice([x for x in int_specials(t) if x >= 0])
            return num(t, v)
        t = r.choice(FLTS)
        return fnum(t, *decimal_text(r, t))
    def leaf(s):
        r = s.r
        return var(r.choice(list(s.vars))) if r.random() < .75 else s.const()
    def expr(s, d):
        r = s.r
        if d == 0 or r.random() < .15: return s.leaf()
        k = r.random()
        if k < .5: return bi(r.choice('+-*/'), s.expr(d - 1), s.expr(d - 1))
        if k < .68: return bi(r.choice(['<', '>', '<=', '>=', '==', '!=', '&&', '||']), s.expr(d - 1), s.expr(d - 1))
        if k < .78: return un(r.choice(['-', '-', '!', '+']), s.expr(d - 1))
        if k < .92: return cast(r.choice(INTS + FLTS * 2), s.expr(d - 1))
        return cond(s.expr(d - 1), s.expr(d - 1), s.expr(d - 1))
    def id(s): s.nid += 1; return s.nid
    def stmt(s):
        r = s.r; k = r.random()
        if k < .45: s.body.append(dict(k='obs', id=s.id(), e=s.expr(r.choice([1, 1, 2, 3]))))
        elif k < .6: s.body.append(dict(k='if', id=s.id(), e=s.expr(r.choice([0, 1, 2])), _k=r.randrange(4)))
        elif k < .85:
            n = r.choice(list(s.vars))
            s.body.append(dict(k='set', n=n, op=r.choice(['', '', '+', '-', '*', '/']), e=s.expr(r.choice([0, 1, 2]))))
            s.body.append(dict(k='obs', id=s.id(), e=var(n)))
        else:
            n = r.choice(list(s.vars))
            s.body.append(dict(k='inc', n=n, op=r.choice('+-'), pre=r.random() < .5, id=s.id() if r.random() < .7 else 0))
            s.body.append(dict(k='obs', id=s.id(), e=var(n)))

def program(seed):
    """random statements over a few variables of every type"""
    g = Gen(seed)
    for _ in range(g.r.randint(4, 12)):
        t = g.r.choice(INTS + FLTS * 3)
        g.newvar(t, g.value(t))
    for _ in range(30): g.stmt()
    return g

def pairs(seed, t, vals, ops, conv):
    """operators on pairs of special values; conversions of each"""
    g = Gen(seed)
    names = [g.newvar(t, v) for v in vals]
    for a in names:
        for x in conv: g.body.append(dict(k='obs', id=g.id(), e=cast(x, var(a))))
        if conv:
            g.body.append(dict(k='if', id=g.id(), e=var(a), _k=g.r.randrange(4)))
            g.body.append(dict(k='obs', id=g.id(), e=un(g.r.choice('!-'), var(a))))
        for b in names:
            for op in ops: g.body.append(dict(k='obs' if op in '+-*/' or g.r.random() < .5 else 'if', id=g.id(), e=bi(op, var(a), var(b)), _k=g.r.randrange(4)))
    return g

def exact_const(t, s, m, e):
    """the literal of a finite value, None if it is too long"""
    if m is None or m == -1 or not -1100 < e < 1100: return None
    dg, k = (m << e, 0) if e >= 0 else (m * 5 ** -e, e)
    d = str(dg)
    if len(d) > 330 and not d.rstrip('0'): return None
    if k == 0:
        z = len(d) - len(d.rstrip('0'))
        if z > 15 and m: d, k = d[:-z], z
    if len(d) > 330: return None
    txt = d + ('.' if k == 0 else 'e%d' % k) if k >= 0 or len(d) <= -k or len(d) > 40 else d[:k] + '.' + d[k:]
    x = fnum(t, d, k, txt + dict(f='f', d='', ld='l')[t])
    return un('-', x) if s else x
def isconst(e):
    if e['k'] in ('num', 'fnum'): return True
    return e['k'] in ('un', 'cast') and isconst(e['a']) or e['k'] == 'bin' and isconst(e['a']) and isconst(e['b']) or e['k'] == 'cond' and isconst(e['a']) and isconst(e['b']) and isconst(e['c'])

def consts(seed, n=60):
    """constant expressions, evaluated at run time and as static initialisers, and constants next to variables"""
    g = Gen(seed); r = g.r
    for t in FLTS: g.newvar(t, g.value(t)); g.newvar(t, g.value(t))
    g.newvar(r.choice(INTS), num('i', 0)); 
    for v in g.vars.values():
        if v['t'] in INTS: v['e'] = g.value(v['t'])
    def c():
        k = r.random()
        if k < .55:
            t = r.choice(FLTS)
            x = exact_const(t, *r.choice(specials(t)))
            return x or fnum(t, '1', 0, dict(f='1.f', d='1.', ld='1.l')[t])
        if k < .75: return g.const()
        if k < .9: return num('i', r.choice([x for x in int_specials('i') if x >= 0]))
        t = r.choice(FLTS); p = PREC[t]
        return exact_const(t, r.randrange(2), r.getrandbits(p) | 1 << (p - 1), r.randint(-p - 3, 20))
    def e(d):
        k = r.random()
        if d == 0 or k < .1: return c()
        if k < .6: return bi(r.choice('+-*/'), e(d - 1), e(d - 1))
        if k < .72: return bi(r.choice(['<', '>', '<=', '>=', '==', '!=', '&&', '||']), e(d - 1), e(d - 1))
        if k < .8: return un(r.choice('-!+'), e(d - 1))
        return cast(r.choice(INTS + FLTS * 2), e(d - 1))
    for _ in range(n):
        x = e(r.choice([0, 1, 1, 2]))
        k = r.random()
        if k < .25:
            v = var(r.choice(list(g.vars)))
            x = bi(r.choice(['+', '-', '*', '/', '<', '==', '>=']), *r.choice([(v, x), (x, v)]))
        g.body.append(dict(k='obs', id=g.id(), e=x, _static=isconst(x) and r.random() < .4))
    return g

# ---- C text
def text(e, sp):
    k = e['k']
    if k == 'var': return sp[e['n']]
    if k == 'num':
        v, t = e['_v'], e['t']
        return dict(i='%d', u='%du', l='%dl', ul='%dul')[t] % v
    if k == 'fnum': return e['_s']
    if k == 'un' and e['a']['k'] == 'fnum': return e['op'] + e['a']['_s']
    if k == 'un': return '%s(%s)' % (e['op'], text(e['a'], sp)) if e['a']['k'] != 'var' else '%s%s' % (e['op'], text(e['a'], sp))
    if k == 'bin': return '(%s) %s (%s)' % (text(e['a'], sp), e['op'], text(e['b'], sp)) if e['a']['k'] not in ('var', 'num', 'fnum') or e['b']['k'] not in ('var', 'num', 'fnum') else '%s %s %s' % (text(e['a'], sp), e['op'], text(e['b'], sp))
    if k == 'cast': return '(%s) (%s)' % (CN[e['t']], text(e['a'], sp))
    if k == 'cond': return '(%s) ? (%s) : (%s)' % (text(e['c'], sp), text(e['a'], sp), text(e['b'], sp))
def rank(t): return FLTS.index(t)
def promote(t): return t if t in FLTS or SZ[t] > 2 else 'i'
def usual(a, b):
    if a in FLTS or b in FLTS: return b if a not in FLTS else a if b not in FLTS else FLTS[max(rank(a), rank(b))]
    a, b = promote(a), promote(b)
    if a == b: return a
    big = 'ul' if 'ul' in (a, b) else 'l' if 'l' in (a, b) else 'u'
    return big
def typeof(e, vs):
    k = e['k']
    if k in ('num', 'fnum', 'cast', 'bits'): return e['t']
    if k == 'var': return vs[e['n']]['t']
    if k == 'un': return 'i' if e['op'] == '!' else promote(typeof(e['a'], vs))
    if k == 'bin': return 'i' if e['op'] in ('<', '>', '<=', '>=', '==', '!=', '&&', '||') else usual(typeof(e['a'], vs), typeof(e['b'], vs))
    return usual(typeof(e['a'], vs), typeof(e['b'], vs))
OBS = dict(f='obsf', d='obsd', ld='obsl')
def ctext(g, skip=()):
    o = [vf.OBS_DECL]
    sp = {}; params = []; args = []; loc = []; glob = []; pre = []
    for n, d in g.vars.items():
        t = d['t']; c = CN[t]
        b = (d['e']['_v'] & ((1 << 8 * SZ[t]) - 1)) if d['e']['k'] == 'num' else d['e']['_b']
        o.append('unsigned long b_%s[2] = {%dul, %dul};' % (n, b & WM, b >> 64))
        init = '*(%s *) b_%s' % (c, n)
        st = g.store[n]
        if st == 'local': loc.append('%s %s = %s;' % (c, n, init)); sp[n] = n
        elif st == 'global': glob.append('%s %s;' % (c, n)); pre.append('%s = %s;' % (n, init)); sp[n] = n
        elif st == 'static': loc.append('static %s %s;' % (c, n)); pre.append('%s = %s;' % (n, init)); sp[n] = n
        elif st == 'elem': glob.append('%s %s[3];' % (c, n)); pre.append('%s[1] = %s;' % (n, init)); sp[n] = n + '[1]'
        elif st == 'elem2': loc.append('%s %s[3]; int i%s = 2;' % (c, n, n)); pre.append('%s[i%s] = %s;' % (n, n, init)); sp[n] = '%s[i%s]' % (n, n)
        elif st == 'member': loc.append('struct { char a; %s x; char b; } %s;' % (c, n)); pre.append('%s.x = %s;' % (n, init)); sp[n] = n + '.x'
        elif st == 'ptr': loc.append('%s *%s = (%s *) b_%s;' % (c, n, c, n)); sp[n] = '(*%s)' % n
        else: params.append('%s %s' % (c, n)); args.append(init); sp[n] = n
    o += glob
    o.append('void test(%s) {' % (', '.join(params) or 'void'))
    o += loc + pre
    for k, s in enumerate(g.body):
        if k + 1 in skip: continue
        if s['k'] == 'set': o.append('%s %s= %s;' % (sp[s['n']], s['op'], text(s['e'], sp)))
        elif s['k'] == 'inc':
            x = (s['op'] * 2 + sp[s['n']]) if s['pre'] else (sp[s['n']] + s['op'] * 2)
            o.append('%s;' % x if not s['id'] else '%s(%d, %s);' % (OBS.get(g.vars[s['n']]['t'], 'obs'), s['id'], x))
        elif s['k'] == 'obs' and s.get('_static'):
            t = typeof(s['e'], g.vars)
            o.append('{ static %s x = %s; %s(%d, x); }' % (CN[t], text(s['e'], sp), OBS.get(t, 'obs'), s['id']))
        elif s['k'] == 'obs': o.append('%s(%d, %s);' % (OBS.get(typeof(s['e'], g.vars), 'obs'), s['id'], text(s['e'], sp)))
        else:
            e = text(s['e'], sp)
            o.append(['if (%s) obs(%d, 1); else obs(%d, 0);' % (e, s['id'], s['id']), 'obs(%d, (%s) ? 1 : 0);' % (s['id'], e),
                      '{ int n = 0; while (%s) { n = 1; break; } obs(%d, n); }' % (e, s['id']), 'if (!(%s)) obs(%d, 0); else obs(%d, 1);' % (e, s['id'], s['id'])][s['_k']])
    o.append('}')
    o.append('int main() { test(%s); return 0; }' % ', '.join(args))
    return '\n'.join(o) + '\n'

# ---- prediction and replay
def strip(x):
    if isinstance(x, dict): return {k: strip(v) for k, v in x.items() if k[0] != '_'}
    if isinstance(x, list): return [strip(v) for v in x]
    return x
def predict(c, gs, batch=60, par=4):
    from concurrent.futures import ThreadPoolExecutor
    def one(k):
        out = vf.subdir('flt%d' % random.getrandbits(30))
        json.dump([dict(vars=strip(g.vars), body=strip(g.body), zt=getattr(g, 'zt', False)) for g in gs[k:k + batch]], open(out + '.json', 'w'))
        r = vf.tlc('MCFloat', env=dict(VF_PROGS=out + '.json', VF_OUT=out), timeout=850, xmx='3g', workers=3)
        return r, [json.load(open('%s/%d' % (out, j + 1))) for j in range(len(gs[k:k + batch]))]
    res = []
    with ThreadPoolExecutor(par) as ex:
        for r, o in ex.map(one, range(0, len(gs), batch)):
            if c: c.add_tlc(r)
            res += o
    return res
def isnan(t, v): return (v >> (64 if t == 'ld' else PREC[t] - 1)) & ((1 << dict(f=8, d=11, ld=15)[t]) - 1) == (1 << dict(f=8, d=11, ld=15)[t]) - 1 and v & ((1 << (63 if t == 'ld' else PREC[t] - 1)) - 1) != 0
def expected(p):
    """[(id, type, value or None for NaN, exact)]"""
    return [(x['id'], x['t'], None if x['nan'] else from12(x['n']) if x['t'] in FLTS else sum(l << (16 * k) for k, l in enumerate(x['n'])), x['x']) for x in p['out']]
def judge(exp, st, x, which):
    """which: the exactness of observations to be compared"""
    if st == 'compile': return 'a valid program is rejected: rc %s %s' % (x.rc, x.err[-600:])
    if st == 'link': return 'the program does not link: ' + x.err[-600:]
    if x.timeout: return 'the program does not terminate'
    if x.rc != 0: return 'the program ends with status %s' % x.rc
    got = [l.split() for l in x.out.split('\n') if l]
    if len(got) != len(exp) or any(int(g[0]) != e[0] for g, e in zip(got, exp)): return 'the observations are not those of the program'
    for g, (i, t, v, ex) in zip(got, exp):
        if ex not in which: continue
        w = int(g[1], 16)
        if t in FLTS and isnan(t, w): w = None
        if w != v: return 'observation %d (%s): the specification gives %s, the program %s' % (i, CN[t], 'NaN' if v is None else '%x' % v, 'NaN' if w is None else g[1])
    return None
def families(n, base):
    """the programs of a run: n random ones, the special values and constants"""
    r = random.Random(base)
    gs = [('random', program(base + k)) for k in range(n)] + [('constants', consts(base + k)) for k in range(n // 4)]
    for t in FLTS:
        sp = [bits(t, bits_of(t, *x)) for x in specials(t)]
        for k in range(0, len(sp), 12): gs.append(('conversions', pairs(base + k, t, sp[k:k + 12], (), INTS + FLTS)))
        for k in range(max(6, n // 50)): gs.append(('pairs', pairs(base + 1000 + k, t, r.sample(sp, 8), ['+', '-', '*', '/', '<', '>', '<=', '>=', '==', '!=', '&&', '||'], ())))
    for t in INTS: gs.append(('conversions', pairs(base, t, [num(t, v) for v in int_specials(t)], (), INTS + FLTS)))
    return gs
def times_zero():
    """products of a constant zero: known to be wrong"""
    g = Gen(1); g.zt = True
    for t in FLTS:
        for v in ((1, 1, 0), (0, None, 0), (0, -1, 0)):
            n = g.newvar(t, bits(t, bits_of(t, *v)))
            g.body.append(dict(k='obs', id=g.id(), e=bi('*', var(n), num('i', 0))))
    return g
def check_families(c, n, base, which, cc='wcc'):
    fs = families(n, base)
    order = list(range(len(fs))); random.Random(1).shuffle(order)     # batches of similar cost
    check_programs(c, [fs[k][1] for k in order], which, [fs[k][0] for k in order], cc=cc)
def check_programs(c, gs, which, whats, flags=(), cc='wcc'):
    preds = predict(c, gs)
    def one(k):
        g, p = gs[k], preds[k]
        what = whats if isinstance(whats, str) else whats[k]
        src = ctext(g, set(p['skip'])); exp = expected(p)
        for again in (0, 1):
            st, x = vf.cc_run('%s%d' % (what, k), src, flags, cc=cc)
            bad = judge(exp, st, x, which)
            if not bad: break
        c.traces(); c.count('observations compared', sum(e[3] in which for e in exp)); c.count('undefined statements left out', len(p['skip']))
        if bad: c.violation('%s: %s' % (what, bad), {'t.c': src, 'got.txt': x.out + x.err, 'expected.txt': ''.join('%d %s %s %s\n' % (i, t, 'nan' if v is None else '%x' % v, ex) for i, t, v, ex in exp)}, key='%s-%d' % (what, k) if what != 'times-zero-constant' else what)
    vf.pmap(one, list(range(len(gs))))
