"""Programs of the abstract machine: initialisers (C07)."""
import random
from cprog import *
import cgen

class Inits(cgen.Gen):
    def __init__(g, seed):
        super().__init__(seed)
        g.targets = []     # (pointed-to type, address expression, text key)
        g.locals_ok = False
    def members(g, tag):
        d = g.p.tags[tag]
        ms = d['mem'][:1] if d['kind'] == 'union' else d['mem']     # only the initialised member of a union is read
        return [m for x in ms for m in ([x] if x['x'] else [] if 'w' in x else g.members(x['t']['tag']))]
    def scalar(g):
        r = g.r.random()
        if r < .62: return I(g.ity())
        if r < .78: return F(g.ch('f', 'd', 'ld'))
        if r < .9: return P(g.r.choice([t for t, _ in g.targets]))
        return P(I('c'))
    def otype(g, d):
        r = g.r.random()
        tags = [t for t in g.p.tags if not g.p.tags[t].get('_anon')]
        if d <= 0 or r < .3: return g.scalar()
        if r < .42: return A(g.r.randrange(1, 6), I(g.ch('c', 'uc')))
        if r < .65: return A(g.r.randrange(1, 5), g.otype(d - 1))
        return SU(g.r.choice(tags)) if tags else g.scalar()
    def mktag(g, d, anon=False):
        ms = []
        kind = g.ch('struct', 'struct', 'struct', 'union')
        packed = not anon and g.r.random() < .1
        if packed: kind = 'struct'
        for _ in range(g.r.randrange(1, 6)):
            x = g.name('m')
            r = g.r.random()
            if r < .25 and not packed:
                w = g.ch(1, 2, 3, 5, 7, 8, 9, 13, 16, 17, 24, 31, 32, g.r.randrange(1, 33))
                n = g.ch('i', 'u')
                if g.r.random() < .15: ms.append(dict(x='', t=I(n), w=g.ch(0, w)))
                else: ms.append(dict(x=x, t=I(n), w=w))
            elif r < .37 and d > 0 and not packed: ms.append(dict(x='', t=SU(g.mktag(d - 1, True))))
            else:
                t = g.otype(d)
                if packed and g.bfin(t): t = g.scalar()
                ms.append(dict(x=x, t=t))
        if not any(m['x'] for m in ms): ms.append(dict(x=g.name('m'), t=I(g.ity())))
        if kind == 'union' and not ms[0]['x']: ms[0] = dict(x=g.name('m'), t=g.scalar())
        t = g.p.tag(kind, ms, packed)
        g.p.tags[t]['_anon'] = anon
        if anon: g.p.tags[t]['_hidden'] = True
        return t
    def bfin(g, t):
        if t['c'] == 'arr': return g.bfin(t['of'])
        return t['c'] == 'su' and any('w' in m or g.bfin(m['t']) for m in g.p.tags[t['tag']]['mem'])
    def elems(g, t):
        if t['c'] == 'arr': return [t['of']] * t['len']
        d = g.p.tags[t['tag']]
        ms = [m['t'] for m in d['mem'] if m['x'] or 'w' not in m]
        return ms[:1] if d['kind'] == 'union' else ms
    # constant initialisers of scalars
    def sval(g, t):
        r = g.r.random()
        if t['c'] == 'ptr':
            if t['to'] == I('c') and r < .6:
                s = g.p.string(g.bytes(g.r.randrange(0, 6)))
                return s if g.r.random() < .7 else bi('+', s, num(g.r.randrange(0, s['len'])))
            c = [e for u, e in g.targets if u == t['to']]
            if not c or r < .2: return g.ch(num(0), cast(P(VOID), num(0)), cast(t, num(0)))
            return g.r.choice(c)
        if t['c'] == 'flt':
            return g.ch(lambda: fnum(g.r.randrange(-60, 60) or 1, g.ch('f', 'd', 'ld')), lambda: num(g.r.randrange(-50, 50)), lambda: un('-', num(g.r.randrange(1, 9))), lambda: cast(F(g.ch('f', 'd')), num(g.r.randrange(99))),
                        lambda: bi('*', fnum(g.r.randrange(1, 9)), num(g.r.randrange(1, 9))), lambda: fnum(0), lambda: num(g.r.randrange(1 << 32), 'u'))()
        return g.ch(lambda: g.const(), lambda: g.const(), lambda: num(g.r.randrange(-300, 300)), lambda: bi(g.ch('+', '-', '|', '^', '<<'), num(g.r.randrange(1, 60)), num(g.r.randrange(1, 9))), lambda: cast(I(g.ity()), g.const()),
                    lambda: soe(idn(g.r.choice(g.objs))) if g.objs else num(3), lambda: idn(g.ch('E0', 'E1', 'E2')), lambda: fnum(g.r.randrange(1, 100)), lambda: cond(bi('<', num(g.r.randrange(9)), num(5)), num(7), num(-8)),
                    lambda: sot(g.ch(I('l'), P(I('c')), A(3, I('s')))), lambda: bi('==', num(g.r.randrange(3)), num(1)))()
    def rval(g, t):
        """an initialiser evaluated at run time"""
        if t['c'] == 'flt': return g.ch(idn('q'), bi('+', idn('q'), num(1)), g.sval(t))
        if t['c'] == 'int': return g.ch(idn('a'), bi('+', idn('a'), g.const()), bi('*', bi('&', idn('a'), num(7)), num(3)), g.sval(t), cond(idn('a'), num(3), num(4)))
        return g.sval(t)
    def bytes(g, n): return [g.ch(65, 66, 97, 48, 32, 92, 34, 10, 9, 127, 37, 63, g.r.randrange(1, 128), g.r.randrange(128)) for _ in range(n)]
    def string(g, n): return g.p.string(g.bytes(g.ch(n, n, max(0, n - 1), g.r.randrange(0, n + 1))))
    def items(g, t, val, cut):
        """initialiser list for the elements of the aggregate type t"""
        es = []
        ts = g.elems(t)
        n = len(ts) if not cut or g.r.random() < .55 else g.r.randrange(1, len(ts) + 1)
        for k, u in enumerate(ts[:n]):
            last = cut and k == n - 1
            if u['c'] in ('arr', 'su'):
                if u['c'] == 'arr' and u['of'] in (I('c'), I('uc')) and g.r.random() < .6:
                    s = dict(k='e', e=g.string(u['len']))
                    es.append(dict(k='list', es=[s]) if g.r.random() < .2 else s)
                elif u['c'] == 'su' and val == g.rval and g.r.random() < .3 and u['tag'] in g.sobj: es.append(dict(k='e', e=idn(g.sobj[u['tag']])))
                elif g.r.random() < .6: es.append(dict(k='list', es=g.items(u, val, True)))
                else: es += g.flat(u, val, last)
            else:
                e = dict(k='e', e=val(u))
                es.append(dict(k='list', es=[e]) if g.r.random() < .04 else e)
        return es
    def flat(g, u, val, last):
        """the initialiser of a sub-aggregate without its braces; starting with a brace it would be that of the whole"""
        es = g.items(u, val, last)
        return es if es[0]['k'] != 'list' else [dict(k='list', es=es)]
    def init(g, t, val):
        if t['c'] == 'arr' and t['of'] in (I('c'), I('uc')) and g.r.random() < .5: return dict(k='e', e=g.string(t['len']))
        if t['c'] in ('arr', 'su'): return dict(k='list', es=g.items(t, val, True))
        e = dict(k='e', e=val(t))
        return dict(k='list', es=[e]) if g.r.random() < .1 else e
    def show(g, e, t):
        out = []
        for l, u in g.leaves(e, t):
            if u['c'] == 'int': out.append(g.p.obs(l))
            elif u['c'] == 'flt': out.append(g.p.obs(cast(I('l'), l)))
            elif u == P(I('c')): out.append(g.p.obs(cond(un('!', l), num(-1), deref(l))))
            else:
                c = [x for v, x in g.targets if v == u['to']]
                out.append(g.p.obs(bi('==', l, num(0))))
                for x in g.r.sample(c, min(2, len(c))): out.append(g.p.obs(bi('==', l, x)))
        return out
def inits(seed):
    g = Inits(seed)
    p = g.p
    g.objs = []; g.sobj = {}
    d = p.d('enum', cs=[dict(x='E0', v=limbs(0), _v=0), dict(x='E1', v=limbs(7), _v=7), dict(x='E2', v=limbs(-3), _v=-3)]); p.units[0]['ds'].append(d)
    # objects whose addresses serve as initialisers
    p.glob('ti', I('i'), dict(k='e', e=num(11))); p.glob('ta', A(5, I('s')), dict(k='list', es=[dict(k='e', e=num(k + 1)) for k in range(5)]))
    p.glob('tb', A(2, A(3, I('l'))), dict(k='list', es=[dict(k='e', e=num(9))]), sc='static')
    p.glob('tc', A(4, I('c')), dict(k='e', e=p.string([65, 66, 67])))
    g.targets += [(I('i'), addr(idn('ti'))), (I('s'), addr(idx(idn('ta'), num(2)))), (I('s'), idn('ta')), (I('s'), bi('+', idn('ta'), num(3))), (I('s'), bi('-', addr(idx(idn('ta'), num(4))), num(1))), (I('s'), addr(idx(idn('ta'), num(5)))),
                  (I('l'), addr(idx(idx(idn('tb'), num(1)), num(1)))), (I('l'), idx(idn('tb'), num(1))), (I('l'), deref(idn('tb'))), (A(3, I('l')), idn('tb')), (A(3, I('l')), bi('+', idn('tb'), num(1))),
                  (A(5, I('s')), addr(idn('ta'))), (I('c'), idn('tc')), (I('c'), addr(idx(idn('tc'), num(2)))), (I('c'), bi('+', num(1), idn('tc')))]
    p.tag('struct', [dict(x='ts1', t=I('c')), dict(x='ts2', t=A(2, I('i'))), dict(x='ts3', t=I('i'))], name='TS')
    p.glob('ts', A(2, SU('1')), dict(k='list', es=[dict(k='list', es=[dict(k='e', e=num(5))])]))
    g.targets += [(I('i'), addr(mem(idn('ts'), 'ts3', True))), (I('i'), addr(mem(idx(idn('ts'), num(1)), 'ts3'))), (I('i'), addr(idx(mem(idx(idn('ts'), num(1)), 'ts2'), num(1)))), (I('i'), mem(idx(idn('ts'), num(0)), 'ts2')),
                  (SU('1'), idn('ts')), (SU('1'), addr(idx(idn('ts'), num(1)))), (SU('1'), bi('+', idn('ts'), num(1)))]
    del p.tags['1']['mem'][3:]
    for k in range(g.r.randrange(1, 4)): g.mktag(g.ch(0, 1, 1, 2))
    # every type: global, static local, automatic with the same text, automatic with run-time values
    dirty = p.fn('dirty', FN(I('i'), [I('i')]), [('n', I('i'))], p.block([p.local('w', A(40, I('l'))), p.local('k', I('i')), p.st('for', i=asg(idn('k'), num(0)), e=bi('<', idn('k'), num(40)), st=inc(idn('k')), b=p.expr(asg(idx(idn('w'), idn('k')), num(-0x1122334455667789, 'l')))), p.ret(cast(I('i'), bi('&', idx(idn('w'), idn('n')), num(1))))]))
    body, ss = [], []
    for k in range(g.r.randrange(3, 6)):
        t = g.otype(g.ch(1, 2, 2, 3))
        i = g.init(t, g.sval)
        if len(g.leaves(idn('x'), t)) > 40: continue
        dt = t
        if t['c'] == 'arr' and g.r.random() < .25 and i['k'] == 'list' and not (len(i['es']) == 1 and t['of'] in (I('c'), I('uc')) and i['es'][0].get('e', i)['k'] == 'str'):
            # the number of elements follows from the initialiser
            n = g.r.randrange(1, 4); es = []
            for j in range(n): 
                u = t['of']
                if u['c'] in ('arr', 'su'): es += [dict(k='list', es=g.items(u, g.sval, True))] if g.r.random() < .6 else g.flat(u, g.sval, j == n - 1)
                else: es.append(dict(k='e', e=g.sval(u)))
            dt, t, i = A(-1, t['of']), A(n, t['of']), dict(k='list', es=es)
            if t['of']['c'] == 'arr' and t['of']['of'] in (I('c'), I('uc')): continue
        elif t['c'] == 'arr' and t['of'] in (I('c'), I('uc')) and i['k'] == 'e' and g.r.random() < .5: dt = A(-1, t['of']); t = A(i['e']['len'], t['of'])
        x = g.name('x')
        sc = g.ch('', 'static')
        p.glob(x, dt, i, sc); g.objs.append(x)
        if t['c'] == 'su' : g.sobj[t['tag']] = x
        ss += g.show(idn(x), t)
        if dt is not t: ss.append(p.obs(soe(idn(x))))
        y = g.name('s'); body.append(p.static(y, dt, i, 1)); z = g.name('v'); body.append(p.local(z, dt, i))
        names = [(y, t), (z, t)]
        if g.r.random() < .7: w = g.name('w'); body.append(p.local(w, dt, g.init(t, g.rval) if dt is t else i)); names.append((w, t))
        if t['c'] == 'su' and g.r.random() < .5: w = g.name('w'); body.append(p.local(w, t, dict(k='e', e=idn(g.ch(x, y, z))))); names.append((w, t))
        for nm, tt in names: body += g.show(idn(nm), tt)
        # change the automatic ones: the next execution of the declaration starts afresh
        for nm, tt in names[1:]:
            ls = [l for l, u in g.leaves(idn(nm), tt) if u['c'] == 'int']
            if ls: body.append(p.expr(asg(g.r.choice(ls), num(g.r.randrange(1, 100)))))
    # half of them in a loop
    inner = p.block(body)
    if g.r.random() < .5: inner = p.st('while', e=bi('<', inc(idn('n')), num(2)), b=inner)
    p.fn('f', FN(I('i'), [I('i'), F('d')]), [('a', I('i')), ('q', F('d'))], p.block([p.local('n', I('i'), dict(k='e', e=num(0))), inner, p.ret(num(0))]))
    ss += [p.expr(call('dirty', num(3))), p.expr(call('f', num(g.r.randrange(-9, 99)), fnum(g.r.randrange(1, 40)))), p.expr(call('dirty', num(1))), p.expr(call('f', num(g.r.randrange(-9, 99)), fnum(3)))]
    for x in ('ti',): ss.append(p.obs(idn(x)))
    return g.main(ss)

# ------------------------------------------------------------------ C02
class Undef(Exception): pass
BITS = dict(c=8, uc=8, s=16, us=16, i=32, u=32, l=64, ul=64)
def wrap(t, v):
    v &= (1 << BITS[t]) - 1
    return v - (1 << BITS[t]) if t in SIGNED and v >> (BITS[t] - 1) else v
def usual(a, b):
    a, b = [t if BITS[t] >= 32 else 'i' for t in (a, b)]
    if BITS[a] != BITS[b]: return a if BITS[a] > BITS[b] else b
    return a if a not in SIGNED else b
class Consts(cgen.Gen):
    """Integer constant expressions. ev() only tells which of them are defined and in range, the
    values compared come from the specification."""
    def __init__(g, seed):
        super().__init__(seed); g.enums = {}
    def lit(g):
        n = g.ch('i', 'i', 'i', 'u', 'l', 'ul'); b = BITS[n] - (n in SIGNED)
        v = g.ch(0, 1, 2, 3, 5, 7, 8, 31, 32, 63, 64, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, (1 << 63) - 1, g.r.randrange(1 << b), g.r.randrange(1 << (b // 2)))
        return num(v & ((1 << b) - 1), n)
    def ce(g, d, pp=False):
        r = g.r.random()
        if d <= 0 or r < .15:
            r = g.r.random()
            if pp or r < .7: return g.lit()
            if r < .8 and g.enums: return idn(g.r.choice(sorted(g.enums)))
            if r < .86: return sot(g.ch(I(g.ity()), P(I('c')), F('ld'), A(g.r.randrange(1, 9), I(g.ity()))))
            if r < .92: return soe(g.ch(g.lit(), cast(I(g.ity()), g.lit()), bi('|', num(1), g.lit()), cond(num(1), g.lit(), g.lit())))
            if r < .96: return cast(I(g.ity()), fnum(g.r.randrange(1, 127), g.ch('f', 'd', 'ld')))
            return cast(I(g.ity()), un('-', fnum(g.r.randrange(1, 100)))) if False else g.lit()
        k = g.r.random()
        a = g.ce(d - 1, pp)
        if k < .12: return un(g.ch('-', '~', '!', '+'), a)
        if k < .24 and not pp: return cast(I(g.ity()), a)
        if k < .3:    # unevaluated operands need not be defined
            bad = g.ch(bi('/', g.lit(), num(0)), bi('%', num(1), bi('-', num(3), num(3))), bi('/', num(1), g.ch(num(0, 'u'), num(0, 'l'))))
            return g.ch(lg('&&', bi('&', a, num(0)), bad), lg('||', bi('|', a, num(1)), bad), cond(bi('|', a, num(1)), g.ce(d - 1, pp), bad), cond(bi('&', a, num(0)), bad, g.ce(d - 1, pp)))
        b = g.ce(d - 1, pp)
        if k < .38: return cond(a, b, g.ce(d - 1, pp))
        if k < .46: return lg(g.ch('&&', '||'), a, b)
        if k < .54: return bi(g.ch('<<', '>>'), a, num(g.r.randrange(64), g.ch('i', 'u', 'l', 'ul')))
        if k < .7: return bi(g.ch('==', '!=', '<', '>', '<=', '>='), a, b)
        if k < .8: return bi(g.ch('&', '|', '^'), a, b)
        return bi(g.ch('+', '-', '*', '/', '%'), a, b)
    def size(g, t): return t['len'] * g.size(t['of']) if t['c'] == 'arr' else SZ.get(t.get('n'), 8)
    def ty(g, e, pp):
        k = e['k']
        if k == 'cast': return e['t']['n']
        if k in ('log', 'id') or k == 'un' and e['op'] == '!' or k == 'bin' and e['op'] in ('==', '!=', '<', '>', '<=', '>='): return 'l' if pp else 'i'
        if k in ('num', 'sizeoft', 'sizeofe'): return g.ev(e, pp)[0]
        if k == 'cond': return usual(g.ty(e['b'], pp), g.ty(e['c'], pp))
        t = g.ty(e['a'], pp)
        return usual(t, t if k == 'un' or e['op'] in ('<<', '>>') else g.ty(e['b'], pp))
    def ev(g, e, pp):
        k = e['k']
        T = (lambda t: 'l' if t in SIGNED else 'ul') if pp else (lambda t: t)
        if k == 'num': t = T(e['n']); return t, wrap(t, wrap(e['n'], e['_v']))
        if k == 'id': return 'i', g.enums[e['x']]
        if k == 'sizeoft': return 'ul', g.size(e['t'])
        if k == 'sizeofe': return 'ul', BITS[g.ev(e['a'], False)[0]] // 8
        if k == 'cast':
            if e['a']['k'] == 'fnum': return e['t']['n'], e['a']['_v']
            return e['t']['n'], wrap(e['t']['n'], g.ev(e['a'], pp)[1])
        if k == 'un':
            t, v = g.ev(e['a'], pp)
            if e['op'] == '!': return T('i'), int(v == 0)
            t = usual(t, t)
            if e['op'] == '-':
                if t in SIGNED and v == -(1 << (BITS[t] - 1)): raise Undef
                v = -v
            if e['op'] == '~': v = ~v
            return t, wrap(t, v)
        if k == 'log':
            v = g.ev(e['a'], pp)[1]
            if bool(v) == (e['op'] == '||'): return T('i'), int(e['op'] == '||')
            return T('i'), int(g.ev(e['b'], pp)[1] != 0)
        if k == 'cond':
            y, n = (e['b'], e['c']) if g.ev(e['a'], pp)[1] else (e['c'], e['b'])
            t, v = g.ev(y, pp)
            t = usual(t, g.ty(n, pp)); return t, wrap(t, v)
        op = e['op']; (t1, a), (t2, b) = g.ev(e['a'], pp), g.ev(e['b'], pp)
        if op in ('<<', '>>'):
            t = usual(t1, t1)
            if b < 0 or b >= BITS[t] or op == '<<' and t in SIGNED and (a < 0 or a << b >= 1 << (BITS[t] - 1)): raise Undef
            return t, wrap(t, a << b) if op == '<<' else a >> b
        t = usual(t1, t2); a, b = wrap(t, a), wrap(t, b)
        if op in ('==', '!=', '<', '>', '<=', '>='): return T('i'), int(eval('%d %s %d' % (a, op, b)))
        if op in '/%':
            if not b: raise Undef
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            v = q if op == '/' else a - q * b
        else: v = eval('%d %s %d' % (a, op, b))
        if t in SIGNED and v != wrap(t, v): raise Undef
        return t, wrap(t, v)
    def good(g, d, pp=False, want=None):
        while 1:
            e = g.ce(d, pp)
            try: v = g.ev(e, pp)
            except Undef: continue
            if want is None or want(v[1]): return e
    def runtime(g, e, vs):
        """the same expression with objects of the literals' types as operands"""
        k = e['k']
        if k == 'num':
            x = g.name('v'); vs.append((x, e)); return idn(x)
        if k in ('un', 'bin', 'log', 'cond') or k == 'cast' and e['a']['k'] != 'fnum': return {q: g.runtime(v, vs) if q in ('a', 'b', 'c') else v for q, v in e.items()}
        return e
def consts(seed):
    g = Consts(seed); p = g.p
    ss, gl = [], p.units[0]['ds']
    d = lambda: g.ch(1, 2, 3, 3, 4)
    fit = lambda v: -(1 << 31) <= v < 1 << 31
    # enumerators: later ones may use earlier ones
    for n in range(g.r.randrange(1, 3)):
        cs, prev = [], -1
        for k in range(g.r.randrange(1, 6)):
            x = g.name('E')
            if g.r.random() < .25 and prev < (1 << 31) - 1: cs.append(dict(x=x)); prev += 1
            else:
                e = g.good(d(), want=fit)
                cs.append(dict(x=x, e=e)); prev = g.ev(e, False)[1]
            g.enums[x] = prev
            ss.append(p.obs(idn(x)))
        gl.append(p.d('enum', cs=cs))
    # static objects
    body = []
    for k in range(12):
        t = g.ity(); e = g.good(d()); x = g.name('x')
        if k % 3 == 2: body += [p.static(x, I(t), dict(k='e', e=e), 1), p.obs(idn(x))]
        else: p.glob(x, I(t), dict(k='e', e=e), g.ch('', 'static')); ss.append(p.obs(idn(x)))
        # the size tells the type, a comparison its signedness
        ss.append(p.obs(soe(e)))
        y = g.name('x'); p.glob(y, I('i'), dict(k='e', e=bi('<', bi('-', bi('*', e, num(0)), num(1)), num(0)))); ss.append(p.obs(idn(y)))
        # at run time
        ss.append(p.obs(e))
        vs = []
        r = g.runtime(e, vs)
        for v, c in vs: p.glob(v, I(c['n']), dict(k='e', e=c))
        ss.append(p.obs(r))
    e = g.good(2, want=lambda v: abs(v) < 1 << 23); x = g.name('x'); p.glob(x, F(g.ch('f', 'd', 'ld')), dict(k='e', e=e)); ss.append(p.obs(cast(I('l'), idn(x))))
    # array sizes
    for k in range(4):
        e = g.good(d(), want=lambda v: 0 < v < 2000); x = g.name('a')
        t = dict(c='arr', len=1, of=I(g.ity()), le=e)
        if g.r.random() < .3: t = A(2, t)
        if g.r.random() < .5: p.glob(x, t); ss.append(p.obs(soe(idn(x))))
        else: body += [p.local(x, t), p.obs(soe(idn(x)))]
        body.append(p.obs(sot(dict(c='arr', len=1, of=I(g.ity()), le=g.good(d(), want=lambda v: 0 < v < 2000)))))
    # bit-field widths
    sv = dict(g.enums); g.enums.clear()      # the widths are evaluated outside of all scopes
    ms = [dict(x='b%d' % k, t=I('u'), we=g.good(d(), want=lambda v: 0 < v <= 32)) for k in range(3)]
    g.enums.update(sv)
    t = p.tag('struct', ms); p.glob('bs', SU(t)); p.tags[t]['_hidden'] = False
    for m in ms: ss += [p.expr(asg(mem(idn('bs'), m['x']), un('~', num(0)))), p.obs(mem(idn('bs'), m['x']))]
    # case labels
    for k in range(2):
        t = g.ch('i', 'u', 'l', 'ul', 'uc', 's')
        st, used = [], set(); ct = usual(t, t)
        for j in range(g.r.randrange(2, 7)):
            e = g.good(d()); v = wrap(ct, g.ev(e, False)[1])
            if v in used: continue
            used.add(v)
            st.append(p.st('case', e=e, b=p.obs(num(j)))); st.append(p.st('break'))
        if g.r.random() < .7: st.append(p.st('default', b=p.obs(num(77))))
        x = g.name('q'); body.append(p.local(x, I(t)))
        for v in g.r.sample(sorted(used), min(len(used), 3)) + [g.r.randrange(1 << 64)]:
            body.append(p.expr(asg(idn(x), cast(I(t), num(v & WM, 'ul')))))
            if 1: body.append(p.st('switch', e=idn(x), b=p.block(st)))
    # #if
    for k in range(6):
        e = g.good(d(), True)
        if g.r.random() < .5:
            v = g.ev(e, True)
            e = bi('==', e, num(v[1] if v[0] == 'ul' else abs(v[1]), 'ul' if v[0] == 'ul' else 'l')) if v[1] >= 0 else bi(g.ch('<', '>'), e, num(0))
        body.append(p.st('if', e=e, pp=1, th=p.obs(num(1)), el=p.obs(num(2))))
    p.fn('f', FN(VOID, []), [], p.block(body))
    return g.main(ss + [p.expr(call('f'))])
