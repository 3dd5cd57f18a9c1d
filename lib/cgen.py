"""Seeded random programs for the abstract machine, by profile. Programs are built so that they
mostly have specified behaviour; the machine itself decides which ones really have."""
import random
from cprog import *

class Var:
    """An object: name, type, root (the object aliased, for pointers the pointee's root)."""
    def __init__(v, x, t, tgt=None, ro=False, hi=None): v.x, v.t, v.tgt, v.ro, v.hi = x, t, tgt, ro, hi

OUT = '#out'
class Fn:
    def __init__(f, x, ret, ps, R=(), W=(), var=False): f.x, f.ret, f.ps, f.R, f.W, f.var = x, ret, ps, set(R), set(W), var

class Gen:
    # relative weights of integer expression forms
    W = dict(leaf=8, arith=8, mul=3, div=2, shift=3, bit=5, rel=4, log=2, nt=1, cond=2, comma=.5, cast=3, neg=2, call=1, asg=0, inc=0, casg=0, sizeof=.3, ptr=1, flt=.5, obsv=0)
    def __init__(g, seed, **kw):
        g.r = random.Random(seed)
        g.p = Prog(g.r)
        g.w = dict(g.W); g.w.update(kw)
        g.vars, g.fns, g.n = [], [], 0
        g.maxd = 3
    def name(g, b): g.n += 1; return '%s%d' % (b, g.n)
    def ch(g, *xs): return g.r.choice(xs)
    def pick(g, d):
        ks = [k for k in d if d[k] > 0]
        return g.r.choices(ks, [d[k] for k in ks])[0]
    def ity(g): return g.r.choice(INTS)

    # -------------------------------------------------------------- lvalues
    def path(g, e, t, v, nr, nw, d, write=False):
        """Extend the lvalue e of type t down to a scalar: (lvalue, type, R, W, root)"""
        R, W, root = set(), set(), v.x
        while True:
            c = t['c']
            # *& and &* in the middle of a designator
            if g.r.random() < .04: e = deref(addr(e))
            elif c == 'ptr' and g.r.random() < .06: e = addr(deref(e))
            if c == 'arr':
                n = t['len']
                if n <= 0: return None
                if n & (n - 1) == 0 and d > 0 and g.r.random() < .5:
                    i, r2, w2 = g.gi(d - 1, nr, nw)
                    R |= r2; W |= w2
                    i = bi('&', i, num(n - 1)) if n > 1 else bi('&', i, num(0))
                else: i = num(g.r.randrange(n))
                e = idx(i, e) if g.r.random() < .05 else idx(e, i) if g.r.random() < .85 else deref(bi('+', e, i))
                t = t['of']
            elif c == 'su':
                ms = g.members(t['tag'])
                if not ms: return None
                m = g.r.choice(ms)
                e = mem(e, m['x']); t = m['t']
                if 'w' in m: return e, t, R, W, root, m['w']
            elif c == 'ptr':
                if not v.tgt: return None
                if v.tgt.x in nr or (write and v.tgt.x in nw): return None
                R.add(root); root = v.tgt.x
                if t['to']['c'] == 'su':
                    ms = g.members(t['to']['tag'])
                    if not ms: return None
                    m = g.r.choice(ms)
                    e = mem(e, m['x'], True) if g.r.random() < .8 else mem(deref(e), m['x'])
                    t = m['t']
                    if 'w' in m: return e, t, R, W, root, m['w']
                    v = v.tgt
                else: e = deref(e) if g.r.random() < .7 else idx(e, num(0)); t = t['to']; v = v.tgt
                if t['c'] == 'ptr': return None
            else: return e, t, R, W, root, 0
    def hasbf(g, tag):
        return any('w' in m or (m['t']['c'] == 'su' and g.hasbf(m['t']['tag'])) for m in g.p.tags[tag]['mem'])
    def members(g, tag):
        out = []
        for m in g.p.tags[tag]['mem']:
            if m['x']: out.append(m)
            elif 'w' not in m: out += g.members(m['t']['tag'])
        return out
    def lv(g, d, nr, nw, write=False, kinds=('int',), bf=True):
        for _ in range(12):
            vs = [v for v in g.vars if v.x not in nr and (not write or (v.x not in nw and not v.ro))]
            if not vs: return None
            v = g.r.choice(vs)
            q = g.path(idn(v.x), v.t, v, nr, nw, d, write)
            if q and q[1]['c'] in kinds and (bf or not q[5]): return q
        return None

    # ---------------------------------------------------------- expressions
    def const(g):
        k = g.r.random()
        if k < .6: return num(g.r.randrange(0, 40))
        if k < .7: return num(g.ch(127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff, 1000, 100000))
        if k < .8: return un('-', num(g.r.randrange(1, 300)))
        if k < .87: return num(g.r.randrange(1, 1 << 32), 'u')
        if k < .94: return num(g.ch(g.r.randrange(1, 1 << 40), g.r.randrange(1 << 62)), 'l')
        return num(g.r.randrange(1 << 64), 'ul')
    def small(g, e):
        """an expression with a small nonnegative value"""
        if e['k'] == 'num' and 0 <= e['_v'] < 64: return e
        return g.ch(lambda: bi('&', e, num(g.ch(3, 7, 15, 31))), lambda: bi('%', cast(I('u'), e), num(g.r.randrange(2, 20))), lambda: cast(I('uc'), e))()
    def gi(g, d, nr=frozenset(), nw=frozenset()):
        """integer expression: (ast, names read, names written)"""
        S = set()
        if d <= 0: k = 'leaf'
        else: k = g.pick(g.w)
        two = lambda f, g1=None: g.two(f, d, nr, nw, g1)
        if k == 'leaf':
            q = g.lv(d, nr, nw) if g.r.random() < .72 else None
            if q: return q[0], q[2] | {q[4]}, q[3]
            return g.const(), S, S
        if k == 'arith':
            op = g.ch('+', '-')
            if g.r.random() < .5: return two(lambda a, b: bi(op, cast(I(g.ch('u', 'ul', 'us', 'uc')), a), b))
            return two(lambda a, b: bi(op, g.small(a), g.small(b)))
        if k == 'mul':
            if g.r.random() < .4: return two(lambda a, b: bi('*', cast(I(g.ch('u', 'ul')), a), b))
            return two(lambda a, b: bi('*', g.small(a), g.small(b)))
        if k == 'div':
            op = g.ch('/', '%')
            return two(lambda a, b: bi(op, a, g.ch(lambda: num(g.r.randrange(1, 70)), lambda: bi('+', g.small(b), num(1)), lambda: bi('|', b, num(1)), lambda: un('-', num(g.r.randrange(2, 9))), lambda: num(1 << g.r.randrange(1, 12)))()))
        if k == 'shift':
            if g.r.random() < .5: return two(lambda a, b: bi('>>', a, g.ch(num(g.r.randrange(0, 32)), bi('&', b, num(31)))))
            return two(lambda a, b: bi('<<', g.ch(cast(I(g.ch('u', 'ul')), a), g.small(a)), g.ch(num(g.r.randrange(0, 20)), bi('&', b, num(15)))))
        if k == 'bit':
            op = g.ch('&', '|', '^')
            return two(lambda a, b: bi(op, a, b))
        if k == 'rel':
            op = g.ch('<', '>', '<=', '>=', '==', '!=')
            return two(lambda a, b: bi(op, a, b))
        if k == 'log':
            a, R, W = g.gi(d - 1, nr, nw)
            b, R2, W2 = g.gi(d - 1, nr, nw)
            return lg(g.ch('&&', '||'), a, b), R | R2, W | W2
        if k == 'nt':
            a, R, W = g.gi(d - 1, nr, nw); return un('!', a), R, W
        if k == 'neg':
            a, R, W = g.gi(d - 1, nr, nw)
            return g.ch(lambda: un('~', a), lambda: un('-', g.small(a)), lambda: un('-', cast(I(g.ch('u', 'ul')), a)), lambda: un('+', a))(), R, W
        if k == 'cond':
            a, R, W = g.gi(d - 1, nr, nw)
            b, R2, W2 = g.gi(d - 1, nr, nw)
            c, R3, W3 = g.gi(d - 1, nr, nw)
            return cond(a, b, c), R | R2 | R3, W | W2 | W3
        if k == 'comma':
            a, R, W = g.gi(d - 1, nr, nw)
            b, R2, W2 = g.gi(d - 1, nr, nw)
            return comma(a, b), R | R2, W | W2
        if k == 'cast':
            a, R, W = g.gi(d - 1, nr, nw); return cast(I(g.ity()), a), R, W
        if k == 'flt':
            a, R, W = g.gf(d - 1, nr, nw); return cast(I(g.ch('c', 's', 'i', 'l')), a), R, W
        if k == 'sizeof':
            if g.r.random() < .5: return sot(g.ch(*[v.t for v in g.vars if v.t['c'] != 'fn' and v.t.get('len', 1) >= 0] or [I('i')])), S, S
            q = g.lv(1, nr, nw)
            a = q[0] if q and not q[5] else num(3)
            if q and not q[5] and g.r.random() < .4: a = g.ch(inc(a), asg(a, num(1)))   # not evaluated
            return soe(a), S, S
        if k == 'ptr':
            # comparison or difference of pointers into the same array
            vs = [v for v in g.vars if v.t['c'] == 'arr' and v.x not in nr and v.t['len'] > 0]
            if not vs: return g.const(), S, S
            v = g.r.choice(vs)
            mk = lambda: g.ch(addr(idx(idn(v.x), num(g.r.randrange(v.t['len'])))), bi('+', idn(v.x), num(g.r.randrange(v.t['len'] + 1))))
            return g.ch(bi('-', mk(), mk()), bi(g.ch('<', '==', '>=', '!='), mk(), mk()), un('!', mk()), lg('&&', mk(), num(1))), S, S
        if k == 'call':
            fs = [f for f in g.fns if f.ret['c'] == 'int' and not (f.R & nr) and not (f.W & (nr | nw)) and not f.var]
            if not fs: return g.gi(d - 1, nr, nw)
            return g.gcall(g.r.choice(fs), d, nr, nw)
        if k in ('asg', 'casg', 'inc'):
            q = g.lv(d - 1, nr, nw, True, bf=g.w.get('_bfexpr', False))
            if not q: return g.gi(d - 1, nr, nw)
            e, t, R, W, root, bw = q
            if k == 'inc': return inc(e, g.ch('++', '--'), g.r.random() < .5), R | {root}, W | {root}
            op = '' if k == 'asg' else g.ch('+', '-', '*', '&', '|', '^', '<<', '>>', '/', '%')
            # C89 leaves the read of the target by "=" out: its operands may read it only for compound ones
            b, R2, W2 = g.gi(d - 1, nr | W | {root}, nw | R | W | {root})
            if op in ('<<', '>>'): b = bi('&', b, num(7))
            if op in ('/', '%'): b = bi('+', g.small(b), num(1))
            if op in ('+', '-', '*') and SZ[t['n']] > 2: b = cast(I('ul'), b) if g.r.random() < .5 else g.small(b)
            if op == '<<' : b = bi('&', b, num(3))
            return asg(e, b, op), R | R2 | ({root} if op else set()), W | W2 | {root}
        if k == 'obsv':
            fs = [f for f in g.fns if f.x == 'tr']
            if not fs or OUT in nw or OUT in nr: return g.gi(d - 1, nr, nw)
            a, R, W = g.gi(d - 1, nr | {OUT}, nw | {OUT})
            g.p.nobs += 1
            return call('tr', num(g.p.nobs), a), R | {OUT}, W | {OUT}
        raise Exception(k)
    def two(g, f, d, nr, nw, g1=None):
        a, R, W = g.gi(d - 1, nr, nw)
        b, R2, W2 = g.gi(d - 1 if g.r.random() < .7 else 0, nr | W, nw | R | W)
        return f(a, b), R | R2, W | W2
    def gf(g, d, nr, nw):
        """floating expression with small integral value"""
        n = g.ch('f', 'd', 'd', 'ld')
        k = g.r.random()
        if d <= 0 or k < .3:
            q = g.lv(d, nr, nw, kinds=('flt',)) if g.r.random() < .7 else None
            if q: return q[0], q[2] | {q[4]}, q[3]
            return fnum(g.r.randrange(-60, 60) or 1, n), set(), set()
        if k < .55:
            a, R, W = g.gi(d - 1, nr, nw); return cast(F(n), g.small(a)), R, W
        a, R, W = g.gf(d - 1, nr, nw)
        b, R2, W2 = g.gf(d - 1, nr | W, nw | R | W)
        return bi(g.ch('+', '-', '*'), a, b), R | R2, W | W2
    def gcall(g, f, d, nr, nw):
        R, W = set(f.R), set(f.W)
        args = []
        for t in f.ps:
            a, r2, w2 = g.arg(t, d - 1, nr | W, nw | R | W)
            args.append(a); R |= r2; W |= w2
        return call(f.x, *args), R, W
    def arg(g, t, d, nr, nw):
        if t['c'] == 'int': return g.gi(d, nr, nw)
        if t['c'] == 'flt': return g.gf(d, nr, nw) if g.r.random() < .7 else g.small_i(d, nr, nw)
        if t['c'] in ('su', 'ptr'):
            vs = [v for v in g.vars if v.t == t and v.x not in nr]
            if vs:
                v = g.r.choice(vs); return idn(v.x), {v.x}, set()
            if t['c'] == 'ptr': return num(0), set(), set()
        raise Exception('arg')
    def small_i(g, d, nr, nw):
        a, R, W = g.gi(d, nr, nw); return g.small(a), R, W

    # ------------------------------------------------------------ variables
    def ival(g, t):
        """constant initialiser expression of scalar type t"""
        if t['c'] == 'flt':
            return g.ch(fnum(g.r.randrange(1, 50), g.ch('f', 'd')), num(g.r.randrange(50)))
        k = g.r.random()
        if k < .5: return num(g.r.randrange(0, 100))
        if k < .7: return num(-g.r.randrange(1, 100))
        return g.const()
    def initfor(g, t):
        if t['c'] in ('int', 'flt'): return dict(k='e', e=g.ival(t))
        if t['c'] == 'arr': return dict(k='list', es=[g.initfor(t['of']) for _ in range(t['len'])])
        if t['c'] == 'su':
            d = g.p.tags[t['tag']]
            ms = [m for m in d['mem'] if m['x'] or 'w' not in m]
            if d['kind'] == 'union': ms = ms[:1]
            return dict(k='list', es=[g.initfor(m['t']) for m in ms])
    def newtag(g, depth=1, bf=True, fl=True, union=False, packed=False):
        ms = []
        for i in range(g.r.randrange(1, 6)):
            x = 'm%d' % i
            k = g.r.random()
            if bf and k < .3:
                n = g.ch('i', 'u')
                ms.append(dict(x=x, t=I(n), w=g.r.randrange(1, 33) if g.r.random() < .3 else g.r.randrange(1, 12)))
            elif k < .75 or depth <= 0: ms.append(dict(x=x, t=I(g.ity()) if not fl or g.r.random() < .8 else F(g.ch('f', 'd'))))
            elif k < .9: ms.append(dict(x=x, t=A(g.ch(1, 2, 3, 4), I(g.ity()))))
            else:
                ts = [t for t in g.p.tags if g.p.tags[t]['kind'] == 'struct' and not (packed and g.hasbf(t))]
                if ts: ms.append(dict(x=x, t=SU(g.r.choice(ts))))
                else: ms.append(dict(x=x, t=I(g.ity())))
        return g.p.tag('union' if union else 'struct', ms, packed)
    def gvar(g, t, sc='', init=True, **kw):
        v = Var(g.name('g'), t, **kw)
        g.p.glob(v.x, t, g.initfor(t) if init else None, sc)
        g.vars.append(v); return v
    def lvar(g, t, ss, **kw):
        """a local, always initialised before use"""
        v = Var(g.name('v'), t, **kw)
        ss.append(g.p.local(v.x, t, g.initfor(t)))
        g.vars.append(v); return v
    def leaves(g, e, t, bits=0):
        """all scalar lvalues in an object"""
        if t['c'] == 'arr': return [l for i in range(t['len']) for l in g.leaves(idx(e, num(i)), t['of'])]
        if t['c'] == 'su':
            d = g.p.tags[t['tag']]
            ms = g.members(t['tag'])
            if d['kind'] == 'union': ms = ms[:1]
            return [l for m in ms for l in g.leaves(mem(e, m['x']), m['t'], m.get('w', 0))]
        return [(e, t)]
    def dump(g, vs, flt=True):
        out = []
        for v in vs:
            if v.t['c'] in ('ptr', 'fn', 'va'): continue
            for e, t in g.leaves(idn(v.x), v.t):
                if t['c'] == 'int': out.append(g.p.obs(e))
                elif t['c'] == 'flt' and flt: out.append(g.p.obs(cast(I('l'), e)))
        return out
    def tracer(g):
        """int tr(id, v): observes and returns v"""
        o = g.p.st('expr', e=dict(k='obs', id=0, n='', a=bi('+', bi('*', idn('id'), num(1 << 20, 'l')), bi('&', idn('v'), num((1 << 20) - 1)))))
        g.p.fn('tr', FN(I('l'), [I('l'), I('l')]), [('id', I('l')), ('v', I('l'))], g.p.block([o, g.p.ret(idn('v'))]))
        f = Fn('tr', I('l'), [I('l'), I('l')], {OUT}, {OUT}); g.fns.append(f); return f
    def main(g, ss):
        g.p.fn('main', FN(I('i'), []), [], g.p.block(ss + [g.p.ret(num(0))]))
        return g.p

# --------------------------------------------------------------------- C01
def expressions(seed):
    """Side-effect free expressions of every shape over objects of all kinds."""
    g = Gen(seed, flt=.3)
    if g.r.random() < .7: g.newtag()
    for t in INTS:
        if g.r.random() < .6: g.gvar(I(t))
    g.gvar(A(4, I(g.ity())))
    for tg in g.p.tags: g.gvar(SU(tg))
    ss = []
    for t in INTS:
        if g.r.random() < .5: g.lvar(I(t), ss)
    a = g.lvar(A(4, I(g.ity())), ss)
    x = g.name('p'); ss.append(g.p.local(x, P(a.t['of']), dict(k='e', e=addr(idx(idn(a.x), num(1)))))); g.vars.append(Var(x, P(a.t['of']), tgt=a))
    for _ in range(10):
        e, R, W = g.gi(g.ch(2, 3, 3, 4))
        k = g.r.random()
        if k < .6: ss.append(g.p.obs(e))
        elif k < .8:
            ss.append(g.p.if_(e, g.p.obs(num(1)), g.p.obs(num(0))))
        else:
            x = g.name('v'); ss.append(g.p.local(x, I(g.ity()), dict(k='e', e=e))); ss.append(g.p.obs(idn(x)))
    return g.main(ss)

# --------------------------------------------------------------------- C04
def effects(seed):
    g = Gen(seed, asg=4, inc=4, casg=4, obsv=5, call=3, log=4, cond=4, comma=3, flt=.2, leaf=7, sizeof=.6)
    if g.r.random() < .7: g.newtag(bf=False)
    g.tracer()
    for _ in range(3): g.gvar(I(g.ity()))
    g.gvar(A(4, I(g.ity())))
    for tg in g.p.tags: g.gvar(SU(tg))
    gl = list(g.vars)
    # a function with an effect on a global
    for _ in range(2):
        v = g.r.choice([v for v in gl if v.t['c'] == 'int'])
        x = g.name('f'); t = I(g.ity())
        g.p.fn(x, FN(t, [I('i')]), [('a', I('i'))], g.p.block([g.p.expr(asg(idn(v.x), bi('&', idn('a'), num(63)), g.ch('', '+', '^'))), g.p.ret(bi(g.ch('+', '^'), bi('&', idn('a'), num(127)), bi('&', idn(v.x), num(31))))]))
        g.fns.append(Fn(x, t, [I('i')], {v.x}, {v.x}))
    ss = []
    for _ in range(4): g.lvar(I(g.ity()), ss)
    a = g.lvar(A(4, I(g.ity())), ss)
    b = g.lvar(A(8, I(g.ity())), ss)
    # pointers walking over b and pointing into a
    x = g.name('p'); ss.append(g.p.local(x, P(a.t['of']), dict(k='e', e=addr(idx(idn(a.x), num(1)))))); pv = Var(x, P(a.t['of']), tgt=a, ro=True); g.vars.append(pv)
    w = g.name('q'); ss.append(g.p.local(w, P(b.t['of']), dict(k='e', e=idn(b.x))))
    steps = 0
    def X(d, nr=frozenset(), nw=frozenset()): return g.gi(d, nr, nw)[0]
    for _ in range(8):
        d = g.ch(2, 3, 3, 4)
        k = g.r.random()
        e = X(d)
        if k < .3: ss.append(g.p.expr(e))
        elif k < .5 and e: 
            e, R, W = g.gi(d, {OUT}, {OUT}); ss.append(g.p.obs(e))
        elif k < .6: ss.append(g.p.if_(e, g.p.expr(X(2)), g.p.expr(X(2))))
        elif k < .67:
            i = g.name('v'); ss.append(g.p.local(i, I('i'), dict(k='e', e=num(0))))
            # for clauses with effects
            ss.append(g.p.st('for', i=comma(X(1), asg(idn(i), num(0))), e=lg('&&', bi('<', inc(idn(i)), num(3)), g.ch(X(2), num(1))), st=X(2), b=g.p.obs(idn(i))))
        elif k < .74:
            i = g.name('v'); ss.append(g.p.local(i, I('i'), dict(k='e', e=num(3))))
            ss.append(g.p.st(g.ch('while', 'do'), e=lg('&&', inc(idn(i), '--', g.r.random() < .5), comma(X(2), num(1))), b=g.p.expr(X(2))))
        elif k < .8:
            c = g.p.block([g.p.st('case', v=limbs(j), _v=j, b=g.p.block([g.p.obs(num(j)), g.p.st('break')])) for j in range(3)])
            ss.append(g.p.st('switch', e=bi('&', e, num(3)), b=c))
        elif steps < 4:
            steps += 1
            f = g.ch('f', 'g', 'h', 'i')
            E, R, W = g.gi(2, {w, b.x}, {w, b.x})
            if f == 'f': ss.append(g.p.expr(asg(deref(inc(idn(w))), E, g.ch('', '^', '&', '|'))))
            elif f == 'g': ss.append(g.p.expr(inc(deref(inc(idn(w))), g.ch('++', '--'), g.r.random() < .5)))
            elif f == 'h': ss.append(g.p.expr(asg(deref(inc(idn(w), '++', False)), E)))
            else: ss.append(g.p.expr(asg(idn(w), num(1), '+'))); ss.append(g.p.expr(asg(idx(idn(w), num(0)), E)))
        else: ss.append(g.p.obs(bi('-', idn(w), idn(b.x))))
    ss.append(g.p.obs(bi('-', idn(w), idn(b.x))))
    ss += g.dump(g.vars)
    return g.main(ss)

# --------------------------------------------------------------------- C03
class Flow(Gen):
    """control flow: every statement form nested in any way, labels anywhere"""
    def __init__(g, seed):
        super().__init__(seed, leaf=10, rel=8, log=5, nt=3, flt=0, mul=1, div=1, shift=1, ptr=.3, cast=1, sizeof=.1)
        g.labels = 0
    def test(g):
        k = g.r.random()
        if k < .1: return num(g.ch(0, 1, 5))
        if k < .5:
            v = g.r.choice([v for v in g.vars if v.t['c'] == 'int'])
            return g.ch(bi(g.ch('<', '>', '<=', '>=', '==', '!='), idn(v.x), g.const()), bi('&', idn(v.x), num(1 << g.r.randrange(4))), un('!', idn(v.x)), idn(v.x))
        if k < .6:
            vs = [v for v in g.vars if v.t['c'] in ('flt', 'ptr')]
            if vs:
                v = g.r.choice(vs); return g.ch(idn(v.x), un('!', idn(v.x)), lg('||', idn(v.x), num(0)))
        return g.gi(2)[0]
    def simple(g):
        k = g.r.random()
        if k < .5: return g.p.obs(g.ch(num(0), g.gi(1)[0]))
        v = g.r.choice([v for v in g.vars if v.t['c'] == 'int' and not v.ro])
        return g.p.expr(g.ch(inc(idn(v.x)), asg(idn(v.x), g.gi(1)[0]), asg(idn(v.x), num(g.r.randrange(1, 5)), g.ch('+', '^', '&'))))
    def guard(g, e):
        return lg('&&', e, bi('>', inc(idn('fuel'), '--'), num(0)))
    def body(g, d, loop, sw):
        """a substatement: often a block, sometimes a bare statement"""
        if g.r.random() < .6: return g.blk(d, loop, sw)
        return g.stat(d, loop, sw)
    def blk(g, d, loop, sw):
        ss = []
        nv = len(g.vars)
        if g.r.random() < .2: g.lvar(I(g.ity()), ss)
        for _ in range(g.r.randrange(0, 4)): ss.append(g.stat(d, loop, sw))
        del g.vars[nv:]
        return g.p.block(ss)
    def stat(g, d, loop, sw):
        p = g.p
        opts = dict(simple=6, empty=.3)
        if d > 0: opts.update({'if': 5, 'while': 2, 'do': 2, 'for': 3, 'switch': 4, 'block': 1})
        if loop: opts.update({'break': .8, 'continue': .8, 'cbreak': 1.5, 'ccont': 1.5})
        elif sw: opts.update({'break': 1.2, 'cbreak': 1})
        opts['goto'] = 1.6 if d < 3 else .5
        opts['return'] = .15
        k = g.pick(opts)
        if k == 'simple': return g.simple()
        if k == 'empty': return p.st('empty')
        if k == 'if': return p.if_(g.test(), g.body(d - 1, loop, sw), g.body(d - 1, loop, sw) if g.r.random() < .6 else 0)
        if k == 'while': return p.st('while', e=g.guard(g.test()), b=g.body(d - 1, True, False))
        if k == 'do': return p.st('do', e=g.guard(g.test()), b=g.body(d - 1, True, False))
        if k == 'for':
            E = dict(num(1)); E['_empty'] = True
            c = g.r.choice([v for v in g.vars if v.t['c'] == 'int' and not v.ro])
            i = E if g.r.random() < .2 else asg(idn(c.x), num(0))
            e = g.guard(g.ch(bi('<', idn(c.x), num(g.r.randrange(1, 6))), g.test()))
            st = dict(num(0), _empty=True) if g.r.random() < .2 else inc(idn(c.x))
            b = g.body(d - 1, True, False)
            if g.r.random() < .1:
                # no condition: leave by break
                b = p.block([p.if_(un('!', g.guard(num(1))), p.st('break')), b])
                e = E
            return p.st('for', i=i, e=e, st=st, b=b)
        if k == 'switch': return g.switch(d, loop)
        if k == 'block': return g.blk(d - 1, loop, sw)
        if k in ('break', 'continue'): return p.st(k)
        if k == 'cbreak': return p.if_(g.test(), p.st('break'))
        if k == 'ccont': return p.if_(g.test(), p.st('continue'))
        if k == 'goto':
            g.labels += 1
            return p.if_(g.guard(g.test()), p.st('goto', x='?'))
        if k == 'return': return p.if_(g.test(), p.ret(g.gi(1)[0]))
    def desc(g, id, stop=()):
        """statements inside id that may carry a label"""
        x = g.p.s[id - 1]
        kids = {'block': lambda: x['ss'], 'if': lambda: [x['th']] + ([x['el']] if x['el'] else [])}.get(x['k'], lambda: [x['b']] if 'b' in x else [])()
        out = [id] if x['k'] != 'decl' else []
        if x['k'] in stop: return out
        for c in kids: out += g.desc(c, stop)
        return out
    def wrap(g, id, k, **f):
        """put a label in front of statement id"""
        p = g.p
        p.s.append(p.s[id - 1])
        p.s[id - 1] = dict(k=k, b=len(p.s), **f)
    def switch(g, d, loop):
        p = g.p
        t = g.ity()
        v = g.r.choice([v for v in g.vars if v.t['c'] == 'int'])
        few = g.ch(2, 4, 8)
        e = g.ch(lambda: bi('&', idn(v.x), num(few - 1)), lambda: cast(I(t), bi('%', idn(v.x), num(few))), lambda: bi('-', bi('&', idn(v.x), num(few - 1)), num(2)), lambda: g.gi(2)[0], lambda: idn(v.x),
                 lambda: bi('+', cast(I(g.ch('l', 'ul')), bi('&', idn(v.x), num(3))), num(g.ch(1 << 32, 1 << 40, 5), 'l')))()
        n = g.r.randrange(0, 5)
        off = g.ch(0, 0, 0, -2, 1 << 32, 1 << 40, 5) if e['k'] == 'bin' and e['op'] == '+' else g.ch(0, 0, 0, -2, 1)
        vals = g.r.sample(range(0, 6), min(n, 6))
        b = g.blk(d, loop, True) if g.r.random() < .85 else g.stat(d - 1, loop, True)
        if g.p.s[b - 1]['k'] == 'block':
            # the usual shape: statements of the body labelled one by one, with breaks
            for val in vals:
                ss = g.p.s[b - 1]['ss']
                ss.append(g.simple())
                if g.r.random() < .5: ss.append(p.st('break'))
        cand = [c for c in g.desc(b, ('switch',)) if c != b]
        used = set()
        for val in vals:
            if not cand: break
            c = g.r.choice(cand)
            w = val + off
            # labels are distinct after conversion to the promoted type: keep within int unless 64 bit
            if abs(w) < 1 << 31: g.wrap(c, 'case', v=limbs(w), _v=w, **({'_t': '%d' % w} if w < 0 else {}))
            elif e['k'] == 'bin' and e['op'] == '+': g.wrap(c, 'case', v=limbs(w), _v=w, _n='l')
        if g.r.random() < .6 and cand: g.wrap(g.r.choice(cand), 'default')
        return p.st('switch', e=e, b=b)
    def function(g, x, depth, params=()):
        p = g.p
        ss = [p.local('fuel', I('i'), dict(k='e', e=num(g.r.randrange(3, 25))))]
        nv = len(g.vars)
        for _ in range(3): g.lvar(I(g.ity()), ss)
        if g.r.random() < .3: g.lvar(F(g.ch('f', 'd', 'ld')), ss)
        if g.r.random() < .3:
            v = g.r.choice([v for v in g.vars if v.t['c'] == 'int'])
            y = g.name('p'); ss.append(p.local(y, P(v.t), dict(k='e', e=g.ch(addr(idn(v.x)), num(0))))); g.vars.append(Var(y, P(v.t)))
        g.labels = 0
        for _ in range(g.r.randrange(3, 7)): ss.append(g.stat(depth, False, False))
        body = p.block(ss + [p.ret(g.gi(1)[0])])
        # place labels for the gotos
        if g.labels:
            names = []
            cand = [c for c in g.desc(body) if c != body]
            for i in range(g.r.randrange(1, g.labels + 1)):
                l = g.name('L'); names.append(l)
                g.wrap(g.r.choice(cand), 'label', x=l)
            for s in p.s:
                if s['k'] == 'goto' and s['x'] == '?': s['x'] = g.r.choice(names)
        del g.vars[nv:]
        p.fn(x, FN(I('l'), [I('i')] if params else []), [('a', I('i'))] if params else [], body)
def flow(seed):
    g = Flow(seed)
    for _ in range(2): g.gvar(I(g.ity()))
    g.vars.append(Var('a', I('i')))
    g.function('f1', g.ch(2, 3), True)
    g.vars = [v for v in g.vars if v.x != 'a']
    ss = []
    for v in (0, 1, g.r.randrange(-5, 50)): ss.append(g.p.obs(call('f1', num(v))))
    ss += g.dump(g.vars)
    return g.main(ss)

# --------------------------------------------------------------------- C05
def stores(seed):
    g = Gen(seed, flt=.3, leaf=10)
    g.newtag(); small = []
    if g.r.random() < .6: g.newtag(depth=1)
    if g.r.random() < .4: g.newtag(depth=0, fl=False, union=True)
    if g.r.random() < .3: g.newtag(depth=1, bf=False, packed=True)
    if g.r.random() < .6:
        # structs of every size, with neighbours directly behind them
        n = g.ch('uc', 'c', 'c', 'us')
        k = g.r.randrange(1, 17) if g.r.random() < .8 else g.ch(7, 15, 21, 23, 31, 33, 39)
        tg = g.p.tag('struct', [dict(x='m0', t=A(k, I(n)))])
        small.append(g.p.tag('struct', [dict(x='m0', t=I('uc')), dict(x='m1', t=SU(tg)), dict(x='m2', t=I(n))] + ([dict(x='m3', t=A(2, SU(tg))), dict(x='m4', t=I('uc'))] if k < 9 else [])))
        if k > 16: small.append(tg)
    ss = []
    objs = []
    for tg in list(g.p.tags):
        t = SU(tg)
        objs.append(g.gvar(t)); objs.append(g.gvar(A(2 if tg in small else g.ch(2, 3, 4), t), init=g.r.random() < .5))
        v = g.lvar(t, ss); objs.append(v)
        v2 = g.lvar(t, ss); objs.append(v2)
    for _ in range(3): objs.append(g.gvar(I(g.ity())))
    objs.append(g.gvar(A(g.ch(3, 4, 5), I(g.ity()))))
    objs.append(g.lvar(A(g.ch(2, 4), A(g.ch(2, 4), I(g.ity()))), ss))
    objs.append(g.lvar(A(g.ch(2, 4), F(g.ch('f', 'd', 'ld'))), ss))
    for _ in range(3): objs.append(g.lvar(I(g.ity()), ss))
    objs.append(g.lvar(F(g.ch('f', 'd', 'ld')), ss))
    # pointers to whole objects and inside them
    for v in g.r.sample(objs, min(4, len(objs))):
        x = g.name('p')
        if v.t['c'] == 'arr' and g.r.random() < .6:
            t, e = v.t['of'], addr(idx(idn(v.x), num(g.r.randrange(v.t['len']))))
        else: t, e = v.t, addr(idn(v.x))
        if v.x[0] == 'g' and g.r.random() < .6: g.p.glob(x, P(t), dict(k='e', e=e), g.ch('', 'static'))
        else: ss.append(g.p.local(x, P(t), dict(k='e', e=e)))
        g.vars.append(Var(x, P(t), tgt=Var(v.x, t), ro=True))
    some = lambda: g.r.choice(objs)
    def struct_lv(tg):
        """lvalues of the given struct type"""
        out = []
        for v in g.vars:
            if v.t == SU(tg): out.append(idn(v.x))
            elif v.t['c'] == 'arr' and v.t['of'] == SU(tg):
                for _ in range(2): out.append(idx(idn(v.x), num(g.r.randrange(v.t['len']))))
            elif v.t['c'] == 'ptr' and v.t['to'] == SU(tg): out.append(deref(idn(v.x)))
            elif v.t['c'] == 'su':
                for m in g.members(v.t['tag']):
                    if m['t'] == SU(tg): out += [mem(idn(v.x), m['x'])] * 2
                    if m['t'] == A(2, SU(tg)): out += [idx(mem(idn(v.x), m['x']), num(i)) for i in (0, 1)]
        return out
    for _ in range(12):
        k = g.r.random()
        if k < .3:
            tg = g.r.choice(list(g.p.tags))
            l = struct_lv(tg)
            a, b = g.r.choice(l), g.r.choice(l)
            ss.append(g.p.expr(asg(a, b)))
        elif k < .4:
            q = g.lv(2, frozenset(), frozenset(), True, kinds=('flt',))
            if q: ss.append(g.p.expr(asg(q[0], g.gf(2, q[3], q[3] | q[2] | {q[4]})[0], '')))
        else:
            q = g.lv(2, frozenset(), frozenset(), True)
            if not q: continue
            e, t, R, W, root, bw = q
            r2 = g.r.random()
            if r2 < .15 : ss.append(g.p.expr(inc(e, g.ch('++', '--'), g.r.random() < .5)))
            elif r2 < .35:
                op = g.ch('+', '-', '&', '|', '^', '*')
                b = g.gi(2)[0]
                ss.append(g.p.expr(asg(e, g.ch(cast(I('ul'), b), g.small(b)), op)))
            elif r2 < .42:
                op = g.ch('/', '%', '<<', '>>')
                ss.append(g.p.expr(asg(e, num(g.r.randrange(1, 9)) if op in '/%' else num(g.r.randrange(0, 5)), op)))
            else: ss.append(g.p.expr(asg(e, g.gi(2)[0])))
        if g.r.random() < .2: ss += g.dump([g.r.choice(objs)])
    ss += g.dump(objs)
    return g.main(ss)

# --------------------------------------------------------------------- C10
def pressure(seed):
    g = Gen(seed, div=3, shift=4, call=3, flt=1, cond=2)
    g.newtag(bf=False)
    nf = g.r.randrange(2, 4)
    for _ in range(2): g.gvar(I(g.ity()))
    gl = list(g.vars)
    for k in range(nf):
        np = g.ch(0, 1, 2, 3, 6, 7, 9)
        ps = [(g.name('a'), I(g.ity()) if g.r.random() < .75 else F(g.ch('f', 'd', 'ld'))) for _ in range(np)]
        g.vars = list(gl) + [Var(x, t) for x, t in ps]
        ss = []
        n = g.r.randrange(2, 14) if k < nf - 1 else g.r.randrange(8, 24)
        loc = []
        for _ in range(n):
            t = I(g.ity()) if g.r.random() < .8 else F(g.ch('f', 'd', 'ld'))
            x = g.name('v')
            e = g.gi(2)[0] if t['c'] == 'int' else g.gf(2, set(), set())[0]
            ss.append(g.p.local(x, t, dict(k='e', e=e)))
            v = Var(x, t); g.vars.append(v); loc.append(v)
        i = g.name('i'); ss.append(g.p.local(i, I('i'), dict(k='e', e=num(0))))
        body = []
        for _ in range(g.r.randrange(1, 6)):
            v = g.r.choice(loc)
            if v.t['c'] == 'flt':
                body.append(g.p.expr(asg(idn(v.x), g.gf(1, set(), set())[0])))
            else:
                st = g.p.expr(asg(idn(v.x), g.gi(3)[0]))
                if g.r.random() < .4: st = g.p.if_(g.gi(2)[0], st, g.p.expr(asg(idn(g.r.choice(loc).x), g.small(g.gi(1)[0]))))
                body.append(st)
        ss.append(g.p.st('for', i=asg(idn(i), num(0)), e=bi('<', idn(i), num(g.r.randrange(1, 4))), st=inc(idn(i)), b=g.p.block(body)))
        # one expression using everything: all values live at once
        e = None
        for v in loc + g.vars[:2]:
            t = idn(v.x) if v.t['c'] == 'int' else cast(I('i'), idn(v.x))
            t = cast(I('ul'), t) if e is None else t
            e = t if e is None else bi(g.ch('+', '^', '-'), e, t) if g.r.random() < .6 else bi(g.ch('+', '^', '-'), t, e)
        for v in g.r.sample(loc, min(3, len(loc))): ss.append(g.p.obs(idn(v.x) if v.t['c'] == 'int' else cast(I('l'), idn(v.x))))
        ret = I(g.ity())
        x = g.name('f')
        g.p.fn(x, FN(ret, [t for _, t in ps]), ps, g.p.block(ss + [g.p.ret(e or num(1))]))
        g.vars = list(gl)
        g.fns.append(Fn(x, ret, [t for _, t in ps], {v.x for v in gl} | {OUT}, {OUT}))
    ss = []
    for _ in range(3): g.lvar(I(g.ity()), ss)
    for f in g.fns:
        ss.append(g.p.obs(g.gcall(f, 2, {OUT}, {OUT})[0]) if False else g.p.expr(asg(idn(g.r.choice([v for v in g.vars if v.t['c'] == 'int' and v not in gl]).x), g.gcall(Fn(f.x, f.ret, f.ps), 2, frozenset({OUT}), frozenset({OUT}))[0])))
    ss += g.dump(g.vars)
    return g.main(ss)
