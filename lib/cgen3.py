"""Seeded programs for the abstract machine about calls: parameters and return values (C08),
variadic functions (C09)."""
import random
from cprog import *
from cgen import Gen, Var, Fn, OUT

class Calls(Gen):
    def __init__(g, seed, **kw):
        Gen.__init__(g, seed, call=0, flt=.4, **kw)
        g.p.unit()
        g.owner, g.protod, g.pure, g.noisy = {}, set(), [], []
    def struct(g, depth=1):
        r = g.r; k = r.random(); ms = []
        n = r.randrange(1, 5)
        if k < .15:      # homogeneous
            t = g.ch(F('f'), F('d'), I('c'), I('s'), I('i'), I('l'), F('ld'))
            ms = [dict(x='m%d' % i, t=t) for i in range(n)]
        elif k < .3: ms = [dict(x='m0', t=A(r.randrange(1, 24), g.ch(I('c'), I('uc'), I('s'), I('i'), F('f'), F('d'))))] + ([dict(x='m1', t=g.ch(I('c'), F('f'), I('i')))] if r.random() < .5 else [])
        else:
            for i in range(n):
                q = r.random()
                if q < .12: m = dict(t=I(g.ch('i', 'u')), w=r.randrange(1, 20))
                elif q < .5: m = dict(t=I(g.ity()))
                elif q < .75: m = dict(t=F(g.ch('f', 'f', 'd', 'd', 'ld') if r.random() < .6 else g.ch('f', 'd')))
                elif q < .85: m = dict(t=A(r.randrange(1, 4), g.ch(I('c'), I('s'), F('f'), I('i'))))
                elif depth and g.p.tags: m = dict(t=SU(r.choice(list(g.p.tags))))
                else: m = dict(t=I(g.ity()))
                m['x'] = 'm%d' % i; ms.append(m)
        return g.p.tag('union' if r.random() < .15 and not any('w' in m for m in ms) else 'struct', ms)
    def members(g, tag):
        ms = Gen.members(g, tag)
        return ms[:1] if g.p.tags[tag]['kind'] == 'union' else ms     # floating members are not read through others
    def vtype(g, ld=True):
        k = g.r.random()
        if k < .5: return I(g.ity())
        if k < .68: return F(g.ch('f', 'd', 'd', 'ld' if ld else 'd'))
        if k < .92 and g.p.tags: return SU(g.r.choice(list(g.p.tags)))
        return P(I(g.ch('i', 'c', 'l')))
    # an expression of type t without side effects other than those of pure functions
    def val(g, t, d=2, calls=True):
        if calls and d > 0 and g.r.random() < .25:
            fs = [f for f in g.pure if f['t']['ret'] == t]
            if fs: return g.callx(g.r.choice(fs), d - 1)
        if t['c'] == 'int': 
            if calls and g.r.random() < .15 and d > 0:
                fs = [f for f in g.pure if f['t']['ret']['c'] == 'int']
                if fs: return bi(g.ch('+', '^', '-', '&'), cast(I('ul'), g.callx(g.r.choice(fs), d - 1)), g.val(t, d - 1))
            if calls and g.r.random() < .08 and d > 0:
                fs = [f for f in g.pure if f['t']['ret']['c'] == 'su']
                if fs:
                    f = g.r.choice(fs); m = [(e, x) for e, x in g.leaves(g.callx(f, d - 1), f['t']['ret']) if x['c'] == 'int' and 'idx' not in str(e)[:0]]
                    m = [e for e, x in m if e['k'] == 'mem']
                    if m: return g.r.choice(m)
            return g.gi(g.ch(0, 0, 1, 2))[0]
        if t['c'] == 'flt':
            if g.r.random() < .2: return g.small(g.gi(1)[0])
            return g.gf(g.ch(0, 1, 1, 2), frozenset(), frozenset())[0]
        if t['c'] == 'su':
            vs = [v for v in g.vars if v.t == t]
            if vs: return idn(g.r.choice(vs).x)
            for v in g.vars:
                if v.t['c'] == 'su':
                    for m in g.members(v.t['tag']):
                        if m['t'] == t and g.p.tags[v.t['tag']]['kind'] == 'struct': return mem(idn(v.x), m['x'])
            return None
        if t['c'] == 'ptr':
            if t['to']['c'] == 'fn': 
                fs = [f for f in g.pure if f['t'] == t['to']]
                f = g.r.choice([f for f in fs if not f.get('kr')]); g.see(f); return g.ch(idn(f['x']), addr(idn(f['x'])))
            vs = [v for v in g.vars if v.t == t['to'] and not v.x.startswith('a')]
            return addr(idn(g.r.choice(vs).x)) if vs else num(0)
    def see(g, f):
        if f['u'] != g.u and (f['x'], g.u) not in g.protod:
            g.protod.add((f['x'], g.u)); g.need.append(f)
    def callx(g, f, d):
        g.see(f)
        as_ = []
        for t in f['t']['ps']:
            a = g.val(t, d)
            if a is None: a = idn(g.gs[t['tag']])
            if f.get('kr') and t['c'] != 'su': a = cast(t, a)
            as_.append(a)
        q = g.r.random(); fe = idn(f['x'])
        if f['x'] in g.vias and q < .3: fe = g.vias[f['x']]
        elif q < .4: fe = deref(fe)
        elif q < .5: fe = addr(fe)
        c = dict(k='call', f=fe, **{'as': as_})
        if q >= .4 and q < .5: c['f'] = deref(addr(idn(f['x'])))
        return c
    def combine(g, leaves, n):
        e = None
        for l, t in leaves:
            x = cast(I('ul'), l) if t['c'] == 'int' else cast(I('ul'), cast(I('l'), l)) if t['c'] == 'flt' else cond(l, cast(I('ul'), deref(l)), num(77, 'ul')) if t['c'] == 'ptr' and t['to']['c'] == 'int' else None
            if x is None: continue
            x = bi('*', x, num(2 * g.r.randrange(1, 40) + 1))
            e = x if e is None else bi(g.ch('+', '^', '-'), e, x)
        return e or num(g.r.randrange(100), 'ul')
    def func(g, x, u, pure, small=False):
        r, p = g.r, g.p
        g.u = u; g.need = []
        n = g.ch(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12) if not small else r.randrange(0, 4)
        if r.random() < .15: ts = [g.ch(F('f'), F('d'), I('i')) for _ in range(n)]
        elif r.random() < .12 and g.p.tags: ts = [SU(r.choice(list(p.tags))) for _ in range(min(n, 7))]
        else: ts = [g.vtype() for _ in range(n)]
        fpt = None
        fs = [f for f in g.pure if not f.get('kr')]
        if pure and fs and r.random() < .15: 
            fpt = r.choice(fs)['t']
            if not any(q['c'] == 'ptr' and q['to']['c'] == 'fn' for q in fpt['ps']): ts.insert(r.randrange(len(ts) + 1), P(fpt))
        ret = g.vtype() if r.random() < .9 else VOID
        if ret['c'] == 'ptr': ret = P(I('i'))
        ps = [('a%d' % i, t) for i, t in enumerate(ts)]
        keep = list(g.vars)
        # only locals and parameters in pure functions
        g.vars = [Var(x_, t) for x_, t in ps if t['c'] != 'ptr'] + ([] if pure else [v for v in keep if v.x in g.unitv[u]])
        ss = []
        leaves = [l for x_, t in ps for l in g.leaves(idn(x_), t)]
        locs = []
        for _ in range(r.randrange(0, 4)):
            t = g.vtype()
            if t['c'] == 'ptr': continue
            v = g.lvar(t, ss); locs.append(v)
        if not pure:
            for l, t in leaves:
                if t['c'] == 'int': ss.append(p.obs(l))
                elif t['c'] == 'flt': ss.append(p.obs(cast(I('l'), l)))
                elif t['c'] == 'ptr': ss.append(p.obs(cond(l, deref(l), num(-5)) if t['to']['c'] == 'int' else un('!', l)))
        g.fpcall(ps, ss, locs)
        # arithmetic around calls: values live across them
        for _ in range(r.randrange(0, 3)):
            v = r.choice(locs) if locs else None
            if v is None: break
            e = g.val(v.t)
            if e is not None: ss.append(p.expr(asg(idn(v.x), e)))
        ls = leaves + [l for v in locs for l in g.leaves(idn(v.x), v.t)]
        if r.random() < .3:      # a parameter is an object of its own
            w = [(l, t) for l, t in leaves if t['c'] == 'int']
            if w: l, t = r.choice(w); ss.append(p.expr(asg(l, g.val(I('i')))))
        if not pure and g.noisy and r.random() < .6:
            f = r.choice(g.noisy)
            c = g.callx(f, 1)
            ss.append(g.use(f, c))
        if ret['c'] == 'void':
            rs = []
            if pure: pass
        elif ret['c'] == 'int': rs = [p.ret(g.combine(ls, ret['n']))]
        elif ret['c'] == 'flt': rs = [p.ret(cast(ret, cast(I('i'), bi('&', g.combine(ls, 'l'), num(127)))))]
        elif ret['c'] == 'ptr':
            q = [l for l, t in leaves if t == ret]
            rs = [p.ret(r.choice(q))] if q else [p.ret(num(0))]
        else:
            y = [v for v in g.vars if v.t == ret]
            if y and r.random() < .3: rs = [p.ret(idn(r.choice(y).x))]
            else:
                rs = [p.local('rv', ret, g.initfor(ret))]
                for l, t in g.leaves(idn('rv'), ret):
                    if t['c'] == 'int': rs.append(p.expr(asg(l, g.combine(r.sample(ls, min(2, len(ls))), 'l'))))
                    elif t['c'] == 'flt': rs.append(p.expr(asg(l, cast(I('i'), bi('&', g.combine(r.sample(ls, min(2, len(ls))), 'l'), num(127))))))
                rs.append(p.ret(idn('rv')))
        body = p.block(ss + rs)
        t = FN(ret, ts)
        for f in g.need: g.proto(f, u)
        kr = r.random() < .12 and ts and not any(q['c'] == 'ptr' and q['to']['c'] == 'fn' for q in ts)
        f = dict(x=x, t=t, u=u, kr=kr)
        if kr and r.random() < .5: g.proto(f, u)
        p.fn(x, t, ps, body, '', u)
        if kr: p.fns[-1]['_kr'] = r.randrange(1, 3)
        g.protod.add((x, u))
        (g.pure if pure else g.noisy).append(f)
        g.vars = keep
    def proto(g, f, u):
        g.p.proto(f['x'], f['t'], g.ch('', 'extern'), u)
        if f.get('kr'): g.p.units[u - 1]['ds'][-1]['_kr'] = 1
    def fpcall(g, ps, ss, locs):
        for x, t in ps:
            if t['c'] == 'ptr' and t['to']['c'] == 'fn' and t['to']['ret']['c'] != 'void':
                as_ = []
                for q in t['to']['ps']:
                    a = g.val(q, 0, False)
                    as_.append(idn(g.gs[q['tag']]) if a is None else a)
                c = dict(k='call', f=g.ch(idn(x), deref(idn(x))), **{'as': as_})
                rt = t['to']['ret']
                v = Var(g.name('v'), rt)
                ss.append(g.p.local(v.x, rt, dict(k='e', e=c)))
                if rt['c'] != 'ptr': locs.append(v); g.vars.append(v)
    def use(g, f, c):
        """a statement using the call c of f"""
        p = g.p; t = f['t']['ret']
        if t['c'] == 'void': return p.expr(c)
        if t['c'] == 'int': return p.obs(c) if g.r.random() < .8 else p.expr(c)
        if t['c'] == 'flt': return p.obs(cast(I('l'), c))
        if t['c'] == 'ptr': return p.expr(c)
        v = [v for v in g.vars if v.t == t and not v.ro and not v.x.startswith('g')]
        if v: return p.expr(asg(idn(g.r.choice(v).x), c))
        l = [(e, x) for e, x in g.leaves(c, t) if e['k'] == 'mem']
        if l: 
            e, x = g.r.choice(l); return p.obs(e if x['c'] == 'int' else cast(I('l'), e))
        return p.expr(c)
def calls(seed):
    g = Calls(seed); r, p = g.r, g.p
    for _ in range(r.randrange(1, 5)): g.struct()
    g.gs, g.vias, g.unitv = {}, {}, {1: set(), 2: set()}
    for tg in p.tags:
        v = g.gvar(SU(tg)); g.gs[tg] = v.x; p.glob(v.x, v.t, None, 'extern', 2); g.unitv[1].add(v.x); g.unitv[2].add(v.x)
    for _ in range(3):
        v = g.gvar(g.ch(I(g.ity()), F(g.ch('f', 'd')))); p.glob(v.x, v.t, None, 'extern', 2); g.unitv[1].add(v.x); g.unitv[2].add(v.x)
    gl = list(g.vars)
    nf = r.randrange(3, 7)
    for k in range(nf): g.func('p%d' % k, g.ch(1, 2), True, r.random() < .5)
    for k in range(r.randrange(1, 4)): g.func('n%d' % k, g.ch(1, 2), False)
    # main, in the first unit
    g.u = 1; g.need = []; ss = []
    g.vars = list(gl)
    for tg in p.tags:
        g.lvar(SU(tg), ss)
    for _ in range(2): g.lvar(I(g.ity()), ss)
    # function pointers: variable, array, member
    allf = g.pure + g.noisy
    vf = [f for f in allf if not f['kr']]
    for f in r.sample(vf, min(3, len(vf))):
        g.see(f); x = g.name('fp'); k = r.random()
        if k < .5: ss.append(p.local(x, P(f['t']), dict(k='e', e=idn(f['x'])))); g.vias[f['x']] = g.ch(idn(x), deref(idn(x)))
        else:
            same = [h for h in vf if h['t'] == f['t']]
            hs = [r.choice(same) for _ in range(2)] + [f]
            for h in hs: g.see(h)
            ss.append(p.local(x, A(3, P(f['t'])), dict(k='list', es=[dict(k='e', e=g.ch(idn(h['x']), addr(idn(h['x'])))) for h in hs])))
            g.vias[f['x']] = g.ch(idx(idn(x), num(2)), deref(bi('+', idn(x), num(2))))
    body = []
    for f in allf:
        for _ in range(r.randrange(1, 3)):
            body.append(g.use(f, g.callx(f, 2)))
    r.shuffle(body)
    if r.random() < .3: body = [p.local('it', I('i')), p.st('for', i=asg(idn('it'), num(0)), e=bi('<', idn('it'), num(2)), st=inc(idn('it')), b=p.block(body))]
    ss += body + g.dump([v for v in g.vars if v.x.startswith('v')])
    for f in g.need: g.proto(f, 1)
    p.fn('main', FN(I('i'), []), [], p.block(ss + [p.ret(num(0))]))
    return p

# ------------------------------------------------------------------ variadic functions (C09)
VAP, VAPP = dict(P(VA), _nm='va_list'), P(VA)
class Varargs(Calls):
    def atype(g):
        """a type arguments can have after the default promotions"""
        k = g.r.random()
        if k < .4: return I(g.ch('i', 'i', 'u', 'l', 'ul'))
        if k < .62: return F('d')
        if k < .7: return F('ld')
        if k < .92: return SU(g.r.choice(list(g.p.tags)))
        return P(I('i'))
    def shape(g):
        k = g.r.random(); n = g.r.randrange(0, 15)
        if k < .12: return [g.atype()] * n
        if k < .24:
            ts = [g.atype() for _ in range(2)]; return [g.r.choice(ts) for _ in range(n)]
        if k < .34: return [g.ch(F('d'), F('d'), F('ld')) for _ in range(n)]
        if k < .44: return [SU(g.r.choice(list(g.p.tags))) for _ in range(min(n, 7))]
        return [g.atype() for _ in range(n)]
    def varg(g, t):
        """an argument of promoted type t"""
        k = g.r.random()
        if t['c'] == 'int' and t['n'] == 'i' and k < .4: return cast(I(g.ch('c', 's', 'uc', 'us')), g.val(I('i'), 1))
        if t == F('d') and k < .4: return cast(F('f'), g.val(F('d'), 1))
        if t['c'] in ('int', 'flt'): return cast(t, g.val(t, 1)) if k < .8 else g.lit(t)
        if t['c'] == 'ptr': return addr(idn(g.pi)) if g.r.random() < .8 else cast(t, num(0))
        a = g.val(t, 1)
        return idn(g.gs[t['tag']]) if a is None else a
    def lit(g, t):
        if t['c'] == 'int': return cast(t, num(g.r.randrange(1000)))
        return fnum(g.r.randrange(60), t['n'])
    def read(g, ap, t, ss):
        """statements that read an argument of type t from the list (an lvalue) ap"""
        p, r = g.p, g.r
        e = dict(k='vaarg', a=ap, t=t)
        k = r.random()
        if t['c'] == 'int':
            if k < .35: ss.append(p.obs(e))
            elif k < .6: ss.append(p.expr(asg(idn('acc'), bi('+', bi('*', idn('acc'), num(31)), cast(I('ul'), e)))))
            elif k < .75: ss.append(p.expr(asg(idn('acc'), e, '^')))
            elif k < .85: ss.append(p.if_(bi('>', e, num(3)), p.obs(num(1)), p.obs(num(2))))
            else: x = g.name('v'); ss += [p.local(x, t, dict(k='e', e=e)), p.obs(idn(x))]
        elif t['c'] == 'flt':
            if k < .4: ss.append(p.obs(cast(I('l'), e)))
            elif k < .7: x = g.name('v'); ss += [p.local(x, t, dict(k='e', e=e)), p.obs(cast(I('l'), idn(x)))]
            else: ss.append(p.expr(asg(idn('acc'), cast(I('l'), e), '+')))
        elif t['c'] == 'ptr':
            x = g.name('v'); ss += [p.local(x, t, dict(k='e', e=e)), p.obs(cond(idn(x), deref(idn(x)), num(-9)))]
        else:
            fs = [f for f in g.taker if f['ps'] == [t]]
            if k < .3:
                l = [(x, q) for x, q in g.leaves(e, t) if x['k'] == 'mem']
                if l:
                    x, q = r.choice(l); ss.append(p.obs(x if q['c'] == 'int' else cast(I('l'), x))); return
            x = g.name('v')
            if k < .6: ss.append(p.local(x, t, dict(k='e', e=e)))
            else: ss += [p.local(x, t, g.initfor(t)), p.expr(asg(idn(x), e))]
            for l, q in g.leaves(idn(x), t): ss.append(p.obs(l if q['c'] == 'int' else cast(I('l'), l)))
    def walk(g, ap, ts, ss, stop=None):
        r, p = g.r, g.p
        k = 0
        while k < len(ts):
            n = k
            while n < len(ts) and ts[n] == ts[k]: n += 1
            if n - k > 1 and r.random() < .5:        # a loop over arguments of one type
                it = g.name('i'); b = []
                g.read(ap, ts[k], b)
                ss += [p.local(it, I('i'), dict(k='e', e=num(0))), p.st('for', i=g.ch(dict(num(1), _empty=True), asg(idn(it), num(0))), e=bi('<', idn(it), num(n - k)), st=inc(idn(it)), b=p.block(b))]
                k = n
            else: g.read(ap, ts[k], ss); k += 1
    def handed(g, u, ts, ptr):
        """a function that reads the arguments of types ts from a list handed over"""
        p, r = g.p, g.r
        x = g.name('h'); ss = [p.local('acc', I('ul'), dict(k='e', e=num(1)))]
        uo = g.ch(1, 2); o = g.u; g.u = uo
        ps = [('q%d' % i, g.ch(I(g.ity()), F('d'))) for i in range(r.randrange(0, 4))]
        lst = ('ap', VAPP if ptr else VAP)
        ps.insert(r.randrange(len(ps) + 1), lst)
        ap = deref(idn('ap')) if ptr else dict(deref(idn('ap')), _txt='ap')
        if r.random() < .3 and len(ts) > 1:          # over a copy
            c = g.name('v'); ss += [p.local(c, VA), p.expr(dict(k='vacopy', a=idn(c), b=ap))]
            g.walk(idn(c), ts[:r.randrange(1, len(ts))], ss); ss.append(p.expr(dict(k='vaend', a=idn(c))))
        n = r.randrange(len(ts) + 1) if r.random() < .3 else len(ts)
        g.walk(ap, ts[:n], ss)
        if n < len(ts):
            f = g.handed(uo, ts[n:], ptr)
            ss.append(p.expr(g.hcall(f, idn('ap'), uo)))
        ss += [p.obs(idn('acc')), p.ret(idn('acc'))]
        for q, t in ps:
            if t['c'] != 'ptr': ss.insert(1, p.obs(idn(q) if t['c'] == 'int' else cast(I('l'), idn(q))))
        f = dict(x=x, t=FN(I('ul'), [t for _, t in ps]), u=uo)
        p.fn(x, f['t'], ps, p.block(ss), '', uo)
        g.u = o
        return f
    def hcall(g, f, ap, u):
        if f['u'] != u and (f['x'], u) not in g.protod: g.protod.add((f['x'], u)); g.p.proto(f['x'], f['t'], '', u)
        return dict(k='call', f=idn(f['x']), **{'as': [ap if t['c'] == 'ptr' else g.lit(t) for t in f['t']['ps']]})
    def vfunc(g, x, u):
        p, r = g.p, g.r
        g.u = u
        n = g.ch(0, 0, 1, 2, 3, 5, 7, 9)
        ts = [g.vtype() for _ in range(n)]
        ts = [t if t['c'] != 'ptr' else P(I('i')) for t in ts]
        ts.insert(r.randrange(len(ts) + 1), I('i')); sel = None
        if r.random() < .6: ts.append(g.atype())
        else: ts.append(I('i'))
        sel = r.choice([k for k, t in enumerate(ts) if t == I('i')]) if I('i') in ts else None
        ps = [('a%d' % i, t) for i, t in enumerate(ts)]
        last = ps[-1][0]
        ret = g.vtype()
        if ret['c'] == 'ptr': ret = VOID
        g.need = []
        shapes = [g.shape() for _ in range(r.randrange(1, 4))]
        keep = list(g.vars)
        g.vars = [Var(q, t) for q, t in ps if t['c'] != 'ptr']
        ss = [p.local('acc', I('ul'), dict(k='e', e=num(7)))]
        form = r.random()
        if form < .7: ap = idn('ap'); ss.append(p.local('ap', VA))
        elif form < .8: ap = idx(idn('ap'), num(1)); ss.append(p.local('ap', A(2, VA)))
        elif form < .9: ap = deref(idn('pp')); ss += [p.local('ap', VA), p.local('pp', VAPP, dict(k='e', e=addr(idn('ap'))))]
        else: ap = idn('ap'); ss.append(p.static('ap', VA, None, u))
        start = lambda a: p.expr(dict(k='vastart', a=a, _last=last))
        end = lambda a: p.expr(dict(k='vaend', a=a))
        for k, sh in enumerate(shapes):
            b = [start(ap)]
            q = r.random()
            if q < .45: g.walk(ap, sh, b)
            elif q < .6:      # repeatedly
                g.walk(ap, sh[:r.randrange(len(sh) + 1)], b); b += [end(ap), start(ap)]; g.walk(ap, sh, b)
            elif q < .75:     # a copy in the middle
                m = r.randrange(len(sh) + 1); c = g.name('v')
                g.walk(ap, sh[:m], b); b += [p.local(c, VA), p.expr(dict(k='vacopy', a=idn(c), b=ap))]
                if r.random() < .5: g.walk(ap, sh[m:], b); g.walk(idn(c), sh[m:], b)
                else: g.walk(idn(c), sh[m:], b); g.walk(ap, sh[m:], b)
                b.append(end(idn(c)))
            else:             # handed over
                ptr = r.random() < .5
                m = r.randrange(len(sh) + 1); m2 = r.randrange(m, len(sh) + 1) if ptr else len(sh)
                g.walk(ap, sh[:m], b)
                f = g.handed(u, sh[m:m2], ptr)
                arg = addr(ap) if ptr else dict(addr(ap), _txt=p.e(ap, 1))
                b.append(p.expr(asg(idn('acc'), g.hcall(f, arg, u), '^')))
                g.walk(ap, sh[m2:], b)
            b.append(end(ap))
            ss.append(p.if_(bi('==', idn(ps[sel][0]), num(k)), p.block(b)))
        leaves = [l for q, t in ps for l in g.leaves(idn(q), t)]
        for l, t in leaves:
            if t['c'] == 'int': ss.append(p.obs(l))
            elif t['c'] == 'flt': ss.append(p.obs(cast(I('l'), l)))
        ss.append(p.obs(idn('acc')))
        if ret['c'] == 'int': ss.append(p.ret(idn('acc')))
        elif ret['c'] == 'flt': ss.append(p.ret(cast(I('i'), bi('&', idn('acc'), num(127)))))
        elif ret['c'] == 'su':
            ss.append(p.local('rv', ret, g.initfor(ret)))
            l = [(e, q) for e, q in g.leaves(idn('rv'), ret) if q['c'] == 'int']
            if l: ss.append(p.expr(asg(r.choice(l)[0], idn('acc'))))
            ss.append(p.ret(idn('rv')))
        t = FN(ret, ts, True)
        for f in g.need: g.proto(f, u)
        p.fn(x, t, ps, p.block(ss), '', u)
        g.protod.add((x, u))
        g.vars = keep
        return dict(x=x, t=t, u=u, shapes=shapes, sel=sel)
    def vcall(g, f, sh, k):
        g.see(f)
        as_ = []
        for n, t in enumerate(f['t']['ps']):
            a = num(k) if n == f['sel'] else g.varg(t) if t['c'] in ('su', 'ptr') else g.val(t, 1)
            as_.append(a)
        as_ += [g.varg(t) for t in sh]
        fe = idn(f['x']); q = g.r.random()
        if f['x'] in g.vias and q < .3: fe = g.vias[f['x']]
        elif q < .4: fe = deref(fe)
        return dict(k='call', f=fe, **{'as': as_})
def varargs(seed):
    g = Varargs(seed); r, p = g.r, g.p
    p.stdarg = 1
    for _ in range(r.randrange(1, 6)): g.struct()
    g.gs, g.vias, g.unitv, g.taker = {}, {}, {1: set(), 2: set()}, []
    for tg in p.tags:
        v = g.gvar(SU(tg)); g.gs[tg] = v.x; p.glob(v.x, v.t, None, 'extern', 2)
    g.pi = g.gvar(I('i')).x; p.glob(g.pi, I('i'), None, 'extern', 2)
    gl = list(g.vars)
    for k in range(r.randrange(0, 3)): g.func('p%d' % k, g.ch(1, 2), True, True)
    vfs = [g.vfunc('w%d' % k, g.ch(1, 2)) for k in range(r.randrange(1, 4))]
    g.u = 1; g.need = []; ss = []
    g.vars = list(gl)
    for tg in p.tags: g.lvar(SU(tg), ss)
    for _ in range(3): g.lvar(I(g.ity()), ss)
    for _ in range(2): g.lvar(F(g.ch('f', 'd')), ss)
    for f in vfs:
        if r.random() < .4:
            g.see(f); x = g.name('fp'); ss.append(p.local(x, P(f['t']), dict(k='e', e=idn(f['x'])))); g.vias[f['x']] = g.ch(idn(x), deref(idn(x)))
    body = []
    for f in vfs:
        for k, sh in enumerate(f['shapes']):
            for _ in range(r.randrange(1, 3)): body.append(g.use(f, g.vcall(f, sh, k)))
    r.shuffle(body)
    ss += body + g.dump([v for v in g.vars if v.x.startswith('v')])
    for f in g.need: g.proto(f, 1)
    p.fn('main', FN(I('i'), []), [], p.block(ss + [p.ret(num(0))]))
    return p
