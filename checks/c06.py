#!/usr/bin/env python3
"""C06: every struct, union and packed struct of up to three members of the kinds of
spec/MCLayout.tla, and random deeply nested ones, laid out by the specification (CLayout) in TLC;
the compiler must give the same sizes, alignments, strides, member offsets and bit-field positions."""
import sys, os, random, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, suite
from cprog import CN, I, F, P, A, SU

# the member kinds of MCLayout.tla: (declaration of member number k, [names to check], kind of position)
def m(d): return lambda k: (d % ('m%d' % k) + ';', [('m%d' % k, 0)])
def bf(t, w): return lambda k: ('%s m%d : %d;' % (t, k, w), [('m%d' % k, w)])
KINDS = [m('char %s'), m('unsigned short %s'), m('int %s'), m('char *%s'), m('float %s'), m('long double %s'), m('char %s[3]'), m('short %s[2]'),
         m('struct N %s'), m('union V %s'), m('struct K %s[2]'),
         lambda k: ('struct { char a%d; short b%d; };' % (k, k), [('a%d' % k, 0), ('b%d' % k, 16)]),
         lambda k: ('union { short a%d; long b%d; };' % (k, k), [('a%d' % k, 0), ('b%d' % k, 0)]),
         bf('int', 1), bf('unsigned', 7), bf('int', 17), bf('unsigned int', 32), bf('signed int', 15),
         lambda k: ('int : 0;', []), lambda k: ('unsigned : 3;', []), m('int %s[]')]
ANON = {12: {'b': 16}, 13: {'b': 0}}
PRE = '''struct N { char a; long b; }; union V { int a; char b[5]; }; struct __attribute__((packed)) K { char a; int b; };
static char buf[8388608] __attribute__((aligned(16)));
'''.replace(' __attribute__((aligned(16)))', '')
HEAD = 'void obs(long, unsigned long);\nvoid obsb(long, void *, long);\nvoid *memset(void *, int, unsigned long);\n' + PRE

def defs_enumerated(out):
    """[(key, C definition of struct Sn, body of the observing function, expected observations)]"""
    for kind in ('struct', 'union'):
        for packed in (0, 1):
            for first in range(1, len(KINDS)):
                for l in json.load(open('%s/%s%s%d' % (out, kind, 'p' if packed else '', first))): yield kind, packed, l
def c_of(n, kind, packed, l):
    ms = [KINDS[k - 1](j) for j, k in enumerate(l['ks'])]
    tag = '%s S%d' % (kind, n)
    text = '%s%s S%d { %s };\n' % (kind, ' __attribute__((packed))' if packed else '', n, ' '.join(x[0] for x in ms))
    flex = l['ks'][-1] == len(KINDS)
    text += 'struct W%d { char c; %s x; };\n' % (n, tag)
    b, exp = [], []
    def o(e, v): b.append('obs(%d, %s);' % (n, e)); exp.append((n, v))
    o('sizeof(%s)' % tag, l['size']); o('(char *) &w->x - (char *) w', l['align']); o('(char *) (p + 1) - (char *) p', l['size'])
    for (decl, names), k, at in zip(ms, l['ks'], l['at']):
        for x, extra in names:
            if extra and k in (12, 13): o('(char *) &p->%s - (char *) p' % x, (at + extra) // 8)
            elif extra:
                b.append('memset(p, 0, %d); p->%s = -1; obsb(%d, p, %d);' % (l['size'], x, n, l['size']))
                v = ((1 << extra) - 1) << at
                exp.append((n, int.from_bytes(v.to_bytes(l['size'], 'little'), 'big')))
            else: o('(char *) &p->%s - (char *) p' % x, at // 8)
    text += 'void f%d(void) { %s *p = (%s *) buf; struct W%d *w = (struct W%d *) buf; %s }\n' % (n, tag, tag, n, n, ' '.join(b))
    return text, exp

class Rand:
    """random tag tables, nested three deep"""
    def __init__(s, r):
        s.r, s.tags, s.n = r, {}, 0
        for k in range(r.randint(2, 4)): s.tag(False)
    def ty(s):
        r = s.r
        x = r.random()
        done = [g for g in s.tags if not s.tags[g]['_anon']]
        if x < .25 and done: return SU(r.choice(done))
        if x < .4: return A(r.choice([1, 2, 3, 5, 7]), s.ty())
        if x < .5: return P(I('c'))
        return r.choice([I(n) for n in ('c', 'uc', 's', 'us', 'i', 'u', 'l', 'ul')] + [F(n) for n in ('f', 'd', 'ld')])
    def tag(s, anon, prefix='m', depth=0):
        r = s.r
        kind = r.choice(['struct', 'struct', 'union']); packed = not anon and r.random() < .2
        ms = []
        for k in range(r.randint(1, 7)):
            x = r.random()
            nm = '%s%d' % (prefix, k)
            if not packed and x < .3:
                t = r.choice(['i', 'u']); w = r.choice([1, 2, 3, 5, 8, 9, 15, 16, 17, 24, 31, 32, r.randint(1, 32)])
                ms.append(dict(x=nm, t=I(t), w=w) if r.random() < .85 else dict(x='', t=I(t), w=r.choice([0, w])))
            elif not packed and x < .42 and depth < 2: ms.append(dict(x='', t=SU(s.tag(True, nm + '_', depth + 1))))
            else: ms.append(dict(x=nm, t=s.ty()))
        if not any(m['x'] or 'w' not in m for m in ms): ms.append(dict(x=prefix + 'z', t=I('s')))
        s.n += 1
        g = 'G%d' % s.n
        s.tags[g] = dict(kind=kind, packed=packed, mem=ms, _anon=anon)
        return g
    def decl(s, t, x, sfx):
        if t['c'] == 'arr': return s.decl(t['of'], '%s[%d]' % (x, t['len']), sfx)
        if t['c'] == 'ptr': return s.decl(t['to'], '*' + x, sfx)
        if t['c'] == 'su': return '%s %s%s %s' % (s.tags[t['tag']]['kind'], t['tag'], sfx, x)
        return '%s %s' % (CN[t['n']], x)
    def define(s, g, sfx, anon=False):
        d = s.tags[g]
        ms = []
        for m in d['mem']:
            if 'w' in m: ms.append('%s %s: %d;' % (CN[m['t']['n']], m['x'], m['w']))
            elif not m['x']: ms.append(s.define(m['t']['tag'], sfx, True))
            else: ms.append(s.decl(m['t'], m['x'], sfx) + ';')
        return '%s%s %s { %s };' % (d['kind'], ' __attribute__((packed))' if d['packed'] else '', '' if anon else g + sfx, ' '.join(ms))
    def paths(s, g, lay, base=0):
        for m, at in zip(s.tags[g]['mem'], lay[g]['at']):
            if m['x']: yield m['x'], base + at, m
            elif 'w' not in m: yield from s.paths(m['t']['tag'], lay, base + at)
    def code(s, n, lay):
        text, exp = '', []
        sfx = '_%d' % n
        for g in s.tags:
            if s.tags[g]['_anon']: continue
            text += s.define(g, sfx) + '\n'
            tag = '%s %s%s' % (s.tags[g]['kind'], g, sfx)
            text += 'struct W%s%s { char c; %s x; };\n' % (g, sfx, tag)
            b = []
            def o(e, v): b.append('obs(%d, %s);' % (n, e)); exp.append((n, v))
            l = lay[g]
            o('sizeof(%s)' % tag, l['size']); o('(char *) &w->x - (char *) w', l['align']); o('(char *) (p + 1) - (char *) p', l['size']); o('sizeof(%s[3])' % tag, 3 * l['size'])
            for x, at, m in s.paths(g, lay):
                if 'w' in m:
                    b.append('memset(p, 0, %d); p->%s = -1; obsb(%d, (char *) p + %d, 8);' % (l['size'] + 8, x, n, at // 32 * 4))
                    exp.append((n, int.from_bytes((((1 << m['w']) - 1) << at % 32).to_bytes(8, 'little'), 'big')))
                else:
                    o('(char *) &p->%s - (char *) p' % x, at // 8)
                    if m['t']['c'] == 'arr' and m['t']['len'] > 1: o('(char *) &p->%s[1] - (char *) p' % x, None); exp[-1] = (n, at // 8 + s.size(m['t']['of'], lay))
                    if m['t']['c'] == 'su':
                        for y, at2, m2 in s.paths(m['t']['tag'], lay, at):
                            if 'w' not in m2: o('(char *) &p->%s.%s - (char *) p' % (x, y), at2 // 8)
            text += 'void f%d%s(void) { %s *p = (%s *) buf; struct W%s%s *w = (struct W%s%s *) buf; %s }\n' % (n, g, tag, tag, g, sfx, g, sfx, ' '.join(b))
        calls = ' '.join('f%d%s();' % (n, g) for g in s.tags if not s.tags[g]['_anon'])
        return text + 'void f%d(void) { %s }\n' % (n, calls), exp
    def size(s, t, lay):
        return t['len'] * s.size(t['of'], lay) if t['c'] == 'arr' else lay[t['tag']]['size'] if t['c'] == 'su' else 8 if t['c'] == 'ptr' else dict(c=1, uc=1, s=2, us=2, i=4, u=4, l=8, ul=8, f=4, d=8, ld=16)[t['n']]

def strip(x):
    if isinstance(x, dict): return {k: strip(v) for k, v in x.items() if k[0] != '_'}
    if isinstance(x, list): return [strip(v) for v in x]
    return x

def run_chunk(c, name, items, flags=()):
    """items: [(n, what, text, expected)]"""
    src = HEAD + ''.join(i[2] for i in items) + 'int main(void) { %s return 0; }\n' % ' '.join('f%d();' % i[0] for i in items)
    st, x = vf.cc_run(name, src, flags, timeout=60)
    if os.environ.get('VF_GCC'):
        st2, x2 = vf.cc_run(name + 'g', src, cc='gcc')
        if st2 != 'run' or x2.rc: raise vf.ToolError('gcc: ' + x2.err[:800])
        if st == 'run' and x2.out != x.out: print('gcc and wcc differ in', name)
    c.traces(len(items))
    if st != 'run' or x.rc:
        if len(items) > 1:      # find the definition it is
            h = len(items) // 2
            run_chunk(c, name + 'a', items[:h], flags); run_chunk(c, name + 'b', items[h:], flags); return
        c.violation('a valid definition is rejected or its program fails (%s, rc %s): %s\n%s' % (st, x.rc, items[0][1], x.err[-500:]), {'t.c': src}, key=items[0][1]); return
    got = {}
    for n, v in (suite.trace(x.out) or []): got.setdefault(n, []).append(v)
    for n, what, text, exp in items:
        e = [v for _, v in exp]
        c.count('positions_compared', len(e))
        if got.get(n, []) != e:
            g = got.get(n, [])
            k = next((k for k in range(max(len(e), len(g))) if k >= len(e) or k >= len(g) or e[k] != g[k]), 0)
            c.violation('layout of %s: observation %d is %s, the specification gives %s' % (what, k, hex(g[k]) if k < len(g) else None, hex(e[k]) if k < len(e) else None),
                        {'t.c': HEAD + text + 'int main(void) { f%d(); return 0; }\n' % n, 'expected.txt': '\n'.join(map(hex, e)) + '\n'}, key=what)

def check(c):
    vf.build_wcc()
    r = random.Random(vf.SEED)
    rs = [Rand(random.Random(vf.SEED * 100000 + k)) for k in range(6000 if vf.THOROUGH else 800)]
    out = vf.subdir('layouts')
    path = out + '.json'
    json.dump([strip(x.tags) for x in rs], open(path, 'w'))
    c.add_tlc(vf.tlc('MCLayout', 'MCLayoutT' if vf.THOROUGH else None, env=dict(VF_OUT=out, VF_TAGS=path), timeout=3000))
    items = []
    enum = list(defs_enumerated(out))
    c.cov['definitions_enumerated'] = len(enum)
    if vf.THOROUGH:
        small = [e for e in enum if len(e[2]['ks']) <= 3]; big = [e for e in enum if len(e[2]['ks']) > 3]
        enum = small + r.sample(big, min(len(big), 100000))
    c.cov['definitions_replayed'] = len(enum)
    for kind, packed, l in enum:
        n = len(items) + 1
        t, e = c_of(n, kind, packed, l)
        items.append((n, t.split('\n')[0].replace('S%d' % n, 'S'), t, e))
    for k, x in enumerate(rs):
        lay = json.load(open('%s/g%d' % (out, k + 1)))
        if max(l['size'] for l in lay.values()) > 4000000: continue
        n = len(items) + 1
        t, e = x.code(n, lay)
        items.append((n, 'random definitions %d' % (vf.SEED * 100000 + k), t, e))
    c.sample(items[5][1]); c.sample(items[3000][1]); c.sample(items[-1][2][:300])
    chunks = [items[k:k + 150] for k in range(0, len(items), 150)]
    opts = [(), ('-O1',), ('-fno-optimize-arithmetic',), ('-fPIC',)]
    vf.pmap(lambda kc: run_chunk(c, 'c%d' % kc[0], kc[1], opts[kc[0] % 4] if opts[kc[0] % 4] != ('-fPIC',) else ()), list(enumerate(chunks)))
    # a defect that is recorded and not repaired
    for n, d in enumerate(('unsigned short m0; char m1; unsigned int m2 : 32;', 'char m0; int m1 : 7; int m2 : 30;'), 1):
        b = 'struct __attribute__((packed)) S%d { %s };\nvoid f%d(void) { obs(%d, sizeof(struct S%d)); }\n' % (n, d, n, n, n)
        run_chunk(c, 'packedbf', [(n, 'packed-bit-fields-%d' % n, b, [(n, (7, 6)[n - 1])])])

if __name__ == '__main__': vf.main('C06', check)
