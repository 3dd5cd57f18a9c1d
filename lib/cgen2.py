"""Seeded programs for the abstract machine about names: scopes (C14), linkage and storage (C15)."""
import random
from cprog import *
from cgen import Gen, Var, Fn

# --------------------------------------------------------------------- C14
class Scopes:
    POOL = ['a', 'b', 'T', 'S', 'm', 'x']
    def __init__(g, seed):
        g.r = random.Random(seed); g.p = Prog(g.r)
        g.sc = [dict(o={}, t={}, id=0)]; g.u = 100; g.fnames = []
        g.top = []
    def ch(g, *a): return g.r.choice(a)
    def uniq(g): g.u += 1; return g.u
    def look(g, sp, x):
        for s in reversed(g.sc):
            if x in s[sp]: return s[sp][x]
    def visible(g, sp):
        d = {}
        for s in g.sc: d.update(s[sp])
        return d
    def free(g, sp):
        l = [x for x in g.POOL if x not in g.sc[-1][sp]]
        return g.r.choice(l) if l else None
    def cint(g, v): return num(v)
    # types: (named, resolved)
    def rtype(g, d=2, scalar=False):
        k = g.r.random()
        if k < .3:
            tds = [(x, e) for x, e in g.visible('o').items() if e['k'] == 'td']
            if scalar: tds = [(x, e) for x, e in tds if e['rt']['c'] == 'int']
            if tds:
                x, e = g.r.choice(tds); return dict(c='tdn', x=x), e['rt']
        if k < .5 and not scalar:
            ts = [(x, e) for x, e in g.visible('t').items() if e['k'] != 'enum' and e['done']]
            if ts:
                x, e = g.r.choice(ts); return dict(c='sun', x=x, _kw=e['k']), SU(e['tag'])
        if k < .55:
            ts = [x for x, e in g.visible('t').items() if e['k'] == 'enum']
            if ts: return dict(c='int', n='i', _nm='enum ' + g.r.choice(ts)), dict(I('i'), _en=1)
        if k < .65 and not scalar and d > 0:
            t, r = g.rtype(d - 1); n = g.ch(2, 3, 5, 7)
            if r['c'] != 'fn':
                if g.r.random() < .35:
                    e = g.cexpr()
                    return dict(c='arr', le=bi('+', bi('&', e, num(7)), num(1)), len=0, of=t), dict(c='arr', len=None, of=r)
                return A(n, t), A(n, r)
        if k < .72 and d > 0:
            t, r = g.rtype(d - 1); return P(t), P(r)
        n = g.r.choice(INTS); return I(n), I(n)
    def cexpr(g):
        """a constant expression using names"""
        c = [x for x, e in g.visible('o').items() if e['k'] == 'enum']
        o = [x for x, e in g.visible('o').items() if e['k'] == 'obj']
        t = [x for x, e in g.visible('o').items() if e['k'] == 'td']
        k = g.r.random()
        if c and k < .4: return idn(g.r.choice(c))
        if o and k < .7: return soe(idn(g.r.choice(o)))
        if t and k < .9: return sot(dict(c='tdn', x=g.r.choice(t)))
        return num(g.r.randrange(1, 6))
    def init(g, r):
        """an initialiser for an object of resolved type r (None: leave it)"""
        if r['c'] == 'int': return dict(k='e', e=num(g.uniq() % 120))
        if r['c'] == 'ptr': return dict(k='e', e=num(0))
        if r['c'] == 'arr': return dict(k='list', es=[i for i in [g.init(r['of'])] if i])
        if r['c'] == 'su':
            d = g.p.tags[r['tag']]
            return dict(k='list', es=[g.init(m['t']) for m in (d['mem'] if d['kind'] == 'struct' else d['mem'][:1])])
    def members(g, self_tag):
        ms, names = [], g.r.sample(g.POOL, g.r.randrange(1, 4))
        for x in names:
            k = g.r.random()
            if k < .25: t = A(g.r.randrange(2, 12), I('c'))
            elif k < .4: t = P(SU(self_tag))
            elif k < .5:
                ts = [e for e in g.visible('t').values() if e['k'] != 'enum' and e['done'] and e['tag'] != self_tag]
                t = SU(g.r.choice(ts)['tag']) if ts else I('s')
                # its name must still denote it inside the definition
                if ts and g.look('t', g.p.tagname[t['tag']]).get('tag') != t['tag']: t = I('s')
            else: t = I(g.r.choice(INTS))
            ms.append(dict(x=x, t=t))
        return ms
    def decl(g, out, glob=False):
        """one declaration appended to out"""
        p = g.p
        put = (lambda d: p.units[0]['ds'].append(d)) if glob else (lambda d: out.append(p.decl(d)))
        k = g.r.random()
        if k < .42:
            x = g.free('o')
            if not x: return
            t, r = g.rtype()
            # sizes in the type are resolved before x is in scope, its initialiser after
            g.bind(x, dict(k='obj', rt=r, t=t))
            i = g.init(r)
            if r['c'] == 'int' and g.r.random() < .3 and not glob: i = dict(k='e', e=soe(idn(x)))
            if r['c'] == 'ptr' and g.r.random() < .5:
                c = [y for y, e in g.visible('o').items() if e['k'] == 'obj' and y != x and e['rt'] == r['to'] and 'None' not in str(r)]
                if c: i = dict(k='e', e=addr(idn(g.r.choice(c))))
            put(p.d('var', x, t, '', i))
        elif k < .58:
            x = g.free('o')
            if not x: return
            if g.r.random() < .3:
                y = g.tagdef(put, hid=True)
                if y:
                    g.bind(x, dict(k='td', rt=SU(y)))
                    put(p.d('td', x, dict(SU(y), _def=True))); return
            t, r = g.rtype(); g.bind(x, dict(k='td', rt=r)); put(p.d('td', x, t))
        elif k < .78: g.tagdef(put)
        elif k < .9:
            names = [x for x in g.POOL if x not in g.sc[-1]['o']]
            if not names: return
            names = g.r.sample(names, g.r.randrange(1, min(3, len(names)) + 1))
            tg = g.free('t') if g.r.random() < .5 else None
            if tg: g.sc[-1]['t'][tg] = dict(k='enum')
            cs = []
            for x in names:
                c = dict(x=x)
                q = g.r.random()
                if q < .4: c['e'] = num(g.uniq())
                elif q < .6 and not glob: c['e'] = g.cexpr()
                cs.append(c); g.bind(x, dict(k='enum'))
            put(p.d('enum', cs=cs, **({'_n': tg} if tg else {})))
        elif not glob:
            # T * x; is a declaration if T is a typedef name and an expression otherwise
            c = [y for y, e in g.visible('o').items() if e['k'] == 'td' or (e['k'] == 'obj' and e['rt']['c'] == 'int' and e.get('set', True))]
            x = g.free('o')
            if not c or not x: return
            y = g.r.choice(c); e = g.look('o', y)
            if e['k'] == 'td':
                if e['rt']['c'] == 'fn': return
                g.bind(x, dict(k='obj', rt=P(e['rt']), t=None))
                out.append(p.decl(p.d('var', x, P(dict(c='tdn', x=y)))))
                out.append(p.expr(asg(idn(x), num(0))))
            elif g.look('o', x) and g.look('o', x)['k'] == 'enum': out.append(p.expr(bi('&', idn(y), idn(x))))
    def bind(g, x, e): g.sc[-1]['o'][x] = e
    def tagdef(g, put, hid=False):
        p = g.p
        x = g.free('t')
        if not x: return
        kind = g.ch('struct', 'struct', 'struct', 'union')
        gid = p.tag(kind, [], name=x); p.tags[gid]['_hidden'] = True
        e = dict(k=kind, tag=gid, done=False)
        if not hid and len(g.sc) > 1 and g.r.random() < .35:
            g.sc[-1]['t'][x] = e
            put(p.d('tag', x, tag=gid, _fwd=True))
            y = g.free('o')
            if y and g.r.random() < .7:
                g.bind(y, dict(k='obj', rt=P(SU(gid)), t=None)); put(p.d('var', y, P(dict(c='sun', x=x, _kw=kind)), '', dict(k='e', e=num(0))))
        g.sc[-1]['t'][x] = e
        p.tags[gid]['mem'] = g.members(gid)
        e['done'] = True
        put(p.d('tag', x, tag=gid, **({'_hid': True} if hid else {})))
        return gid
    def look_at(g, x, out):
        """observe what the ordinary identifier x denotes"""
        p, e = g.p, g.look('o', x)
        if not e: return
        if e['k'] == 'enum': out.append(p.obs(idn(x)))
        elif e['k'] == 'td':
            out.append(p.obs(sot(dict(c='tdn', x=x))))
            if e['rt']['c'] == 'int' and g.r.random() < .5: out.append(p.obs(cast(dict(c='tdn', x=x), num(g.ch(1, 300, 70000) * g.uniq()))))
        elif e['k'] == 'obj':
            out.append(p.obs(soe(idn(x))))
            r = e['rt']
            if r['c'] == 'int':
                if g.r.random() < .3: out.append(p.expr(asg(idn(x), num(g.uniq()), g.ch('', '+', '^'))))
                # looks like a cast if x were a type
                out.append(p.obs(idn(x) if '_en' in r else g.ch(idn(x), bi('-', idn(x), num(1)), bi('+', idn(x), num(2)))))
            elif r['c'] == 'ptr': out.append(p.obs(soe(deref(idn(x)))) if r['to']['c'] != 'su' or g.p.tags[r['to']['tag']]['mem'] else p.obs(un('!', idn(x))))
            elif r['c'] == 'arr' and r['of']['c'] == 'int': out.append(p.obs(idx(idn(x), num(0))))
            elif r['c'] == 'su':
                m = g.r.choice(g.p.tags[r['tag']]['mem'])
                l = mem(idn(x), m['x'])
                out.append(p.obs(soe(l)))
                if m['t']['c'] == 'int':
                    if g.p.tags[r['tag']]['kind'] == 'union': out.append(p.expr(asg(l, num(g.uniq()))))
                    out.append(p.obs(l))
    def look_tag(g, x, out):
        e = g.look('t', x)
        if e and e['k'] != 'enum' and e['done']: out.append(g.p.obs(sot(dict(c='sun', x=x, _kw=e['k']))))
        elif e and e['k'] == 'enum': out.append(g.p.obs(sot(dict(c='int', n='i', _nm='enum ' + x))))
    def stats(g, d, out):
        p = g.p
        for _ in range(g.r.randrange(2, 6)):
            k = g.r.random()
            if k < .4: g.look_at(g.r.choice(g.POOL), out)
            elif k < .5: g.look_tag(g.r.choice(g.POOL), out)
            elif d > 0:
                b = g.block(d - 1)
                f = g.r.random()
                if f < .5: out.append(b)
                elif f < .65: out.append(p.if_(num(1), b, g.block(0) if g.r.random() < .5 else 0))
                elif f < .75: out.append(p.if_(num(0), g.block(0), b))
                elif f < .85: out.append(p.st('do', e=num(0), b=b))
                elif f < .95: out.append(p.st('switch', e=num(3), b=p.block([p.st('case', v=limbs(3), _v=3, b=b), p.st('break')])))
                else: out.append(p.st('for', i=dict(num(1), _empty=True), e=num(1), st=dict(num(1), _empty=True), b=p.block([b, p.st('break')])))
            if g.r.random() < .25 and g.lab:
                l = g.lab.pop()
                out.append(p.st('goto', x=l)); out.append(p.obs(num(9999)))
                out.append(p.st('label', x=l, b=p.obs(num(g.uniq()))))
    def block(g, d, params=None):
        g.sc.append(dict(o={}, t={}))
        ss = []
        if params:
            for x, r in params: g.bind(x, dict(k='obj', rt=r, t=r))
            for x, r in params:
                if g.r.random() < .6: g.look_at(x, ss)
        # C89: declarations come first; gcc and wcc accept them anywhere
        for _ in range(g.r.randrange(0, 5)): g.decl(ss)
        g.stats(d, ss)
        if g.r.random() < .3:
            for _ in range(2): g.decl(ss)
            g.stats(d - 1, ss)
        g.sc.pop()
        return g.p.block(ss)
def scopes(seed):
    g = Scopes(seed); p = g.p
    for _ in range(g.r.randrange(2, 7)): g.decl(None, True)
    fs = []
    for k in range(g.r.randrange(1, 4)):
        # a function, sometimes with a name of the pool
        x = g.free('o') if g.r.random() < .3 else 'f%d' % k
        if not x or x in g.sc[-1]['o']: x = 'f%d' % k
        names = g.r.sample(g.POOL, g.r.randrange(0, 3))
        ps = []
        for y in names:
            tds = [(z, e['rt']) for z, e in g.visible('o').items() if e['k'] == 'td' and e['rt']['c'] == 'int' and z not in [q for q, _ in ps]]
            if tds and g.r.random() < .6:
                z, r = g.r.choice(tds); ps.append((y, dict(r, _nm=z)))
            else:
                n = g.r.choice(INTS); ps.append((y, I(n)))
        g.sc[-1]['o'][x] = dict(k='fn')
        g.lab = g.r.sample(g.POOL, 3)
        body = g.block(3, [(y, {k: v for k, v in t.items() if k != '_nm'}) for y, t in ps])
        p.fn(x, FN(VOID, [t for _, t in ps]), ps, body)
        fs.append((x, ps))
        for _ in range(g.r.randrange(0, 3)): g.decl(None, True)
    ss = []
    for x, ps in fs: ss.append(p.expr(call(x, *[num(g.uniq() % 128) for _ in ps])))
    g.lab = []
    g.stats(0, ss)
    p.fn('main', FN(I('i'), []), [], p.block(ss + [p.ret(num(0))]))
    return p

# --------------------------------------------------------------------- C15
class Link:
    def __init__(g, seed):
        g.r = random.Random(seed); g.p = Prog(g.r); g.k = 0
        g.nu = g.r.choice((1, 2, 2, 3))
        for _ in range(g.nu - 1): g.p.unit()
        g.tag = g.p.tag('struct', [dict(x='p', t=I('i')), dict(x='q', t=A(3, I('c')))], name='S')
    def v(g): g.k += 1; return g.k * 7 % 1009 + 1
    def ch(g, *a): return g.r.choice(a)
    def ini(g, t):
        c = t['c']
        if c == 'int': return dict(k='e', e=num(g.v() % (100 if t['n'] in ('c', 'uc') else 9999)))
        if c == 'arr': return dict(k='list', es=[g.ini(t['of']) for _ in range(g.r.randrange(1, t['len'] + 1))])
        if c == 'su': return dict(k='list', es=[g.ini(I('i'))] + ([g.ini(A(3, I('c')))] if g.r.random() < .5 else []))
        return dict(k='e', e=num(0))
    def otype(g):
        return g.ch(I('i'), I('i'), I('c'), I('us'), I('l'), I('ul'), A(3, I('i')), A(5, I('s')), SU(g.tag), P(I('i')), A(2, P(I('i'))))
    def probe(g, x, t):
        """a statement using the object x"""
        p, c = g.p, t['c']
        if c == 'int': return g.ch(lambda: p.expr(asg(idn(x), num(g.v() % 50), g.ch('+', '', '-', '^'))), lambda: p.obs(idn(x)), lambda: p.obs(inc(idn(x), g.ch('++', '--'), g.r.random() < .5)))()
        if c == 'arr':
            e = idx(idn(x), num(g.r.randrange(t['len'])))
            if t['of']['c'] == 'int': return g.ch(lambda: p.expr(asg(e, num(g.v() % 50), g.ch('+', ''))), lambda: p.obs(e))()
            return p.obs(un('!', e))
        if c == 'su':
            e = g.ch(mem(idn(x), 'p'), idx(mem(idn(x), 'q'), num(g.r.randrange(3))))
            return g.ch(lambda: p.expr(asg(e, num(g.v() % 50), g.ch('+', ''))), lambda: p.obs(e))()
        if c == 'ptr': return g.ch(lambda: p.obs(un('!', idn(x))), lambda: p.obs(cond(idn(x), deref(idn(x)), num(-1))))()
    def addr_of(g, x, t):
        """something whose address of type int * or char * we can take"""
        if t['c'] == 'arr': return addr(idx(idn(x), num(g.r.randrange(t['len']))))
        return addr(idn(x))
def linkage(seed):
    g = Link(seed); p = g.p; r = g.r
    U = range(1, g.nu + 1)
    POOL = ['a', 'b', 'c', 'd', 'e']
    objs = {}           # (x, u) -> (entity, type) visible at file scope of unit u
    pend = {u: [] for u in U}
    ext = {}            # external objects: x -> (definer, type)
    for x in r.sample(POOL, r.randrange(3, 6)):
        t = g.otype()
        definer = r.choice([0] + list(U) * 2)      # 0: no external entity of this name
        if definer: ext[x] = (definer, t)
        for u in U:
            inc_t = dict(t, len=-1) if t['c'] == 'arr' else t
            if u == definer:
                k = r.random(); seq = []
                if k < .45: seq = [('', t, g.ini(t))]
                elif k < .8: seq = [('', t, None)]
                else: seq = [('', t, None), ('', t, g.ini(t))]
                if r.random() < .3 and t['c'] != 'ptr': seq.insert(0, ('extern', g.ch(t, inc_t), None))
                if r.random() < .3: seq.append(('extern', t, None))
                if r.random() < .2: seq.append(('', t, None))
                if r.random() < .1 and k < .45: seq = [('extern', t, seq[-1][2] or g.ini(t))]
                objs[x, u] = ((x, 0), t)
            elif r.random() < .35:
                t2 = t if r.random() < .5 else g.otype()
                if t2['c'] == 'arr' and r.random() < .2: pass
                k = r.random()
                if k < .5: seq = [('static', t2, g.ini(t2))]
                elif k < .8: seq = [('static', t2, None)]
                else: seq = [('static', t2, None), ('static', t2, g.ini(t2))]
                if r.random() < .35: seq.append(('extern', t2, None))
                objs[x, u] = ((x, u), t2)
            elif definer and r.random() < .8:
                seq = [('extern', g.ch(t, inc_t), None) for _ in range(g.ch(1, 1, 2))]
                objs[x, u] = ((x, 0), t)
            else: continue
            pend[u].append([(lambda sc=sc, ty=ty, i=i, x=x, u=u: p.glob(x, ty, i, sc, u)) for sc, ty, i in seq])
    # functions: plan first
    fns = []            # dict(x, u, static, kind)
    for u in U:
        for k in range(r.randrange(2, 5)):
            fns.append(dict(x='f%d%d' % (u, k), u=u, static=r.random() < .3))
    # the same static name in several units
    for x in ('h', 'g'):
        if r.random() < .7:
            for u in U:
                if r.random() < .75: fns.append(dict(x=x, u=u, static=True))
    if r.random() < .5:
        # one external, static ones of the same name elsewhere
        d = r.choice(list(U)); fns.append(dict(x='k', u=d, static=False))
        for u in U:
            if u != d and r.random() < .6: fns.append(dict(x='k', u=u, static=True))
    FT = FN(I('i'), [I('i'), P(I('i'))])
    def body(f):
        u = f['u']; ss = []
        ss.append(p.expr(asg(idn('n'), num(3), '&')) if r.random() < .3 else p.obs(idn('n')))
        # block-scope declarations with linkage
        vis = {x: e[1] for (x, v), e in objs.items() if v == u}
        for x, (d, t) in ext.items():
            if (x, u) not in objs and r.random() < .6:
                for _ in range(g.ch(1, 1, 2)): ss.append(p.ext(x, t, u))
                vis[x] = t
            elif x in vis and r.random() < .2: ss.append(p.ext(x, vis[x], u))
        # static locals, with names that shadow
        mine = []
        for x in r.sample(POOL + ['s', 't'], r.randrange(0, 3)):
            if x in vis and r.random() < .5: continue
            if any(p.s[i - 1]['k'] == 'decl' and p.s[i - 1]['d']['x'] == x for i in ss): continue
            t = g.ch(I('i'), I('uc'), I('l'), A(2, I('i')), SU(g.tag))
            if r.random() < .15:
                y = [z for z in vis if vis[z] == I('i') and (z, u) in objs and z != x and z not in mine]
                if y: t = P(I('i')); i = dict(k='e', e=addr(idn(y[0])))
                else: i = g.ini(t)
            else: i = g.ini(t) if r.random() < .6 else None
            # the initialiser is resolved at file scope: its names must not be shadowed
            ss.append(p.static(x, t, i, u)); vis[x] = t; mine.append(x)
        # automatic variables, fresh for each activation
        loc = []
        for x in r.sample(['v', 'w', 'a', 's'], r.randrange(1, 3)):
            if any(p.s[i - 1]['k'] == 'decl' and p.s[i - 1]['d']['x'] == x for i in ss): continue
            t = g.ch(I('i'), A(2, I('i')), I('us'))
            ss.append(p.decl(p.d('var', x, t, '', g.ini(t), _sc=g.ch('', '', 'register', 'auto') if t['c'] == 'int' else ''))); vis[x] = t; loc.append(x)
            if t['c'] == 'arr': loc.pop()
        ints = [x for x in vis if vis[x] == I('i') and p.s and not any(p.s[i - 1]['k'] == 'decl' and p.s[i - 1]['d']['x'] == x and p.s[i - 1]['d'].get('_sc') == 'register' for i in ss)]
        for _ in range(r.randrange(2, 5)):
            k = r.random()
            if k < .6 and vis: x = r.choice(list(vis)); ss.append(g.probe(x, vis[x]))
            elif k < .7: ss.append(p.if_(idn('q'), p.expr(asg(deref(idn('q')), num(1), '+')), p.obs(num(-1))))
            elif k < .8:
                # an inner block: another static local of the same name, or extern again
                b = []
                x = r.choice(list(vis) or ['z']); t = I('i')
                if r.random() < .6: b.append(p.static(x, t, g.ini(t) if r.random() < .5 else None, u)); b.append(p.obs(inc(idn(x))))
                elif x in ext and (x, u) not in objs: b.append(p.ext(x, ext[x][1], u)); b.append(g.probe(x, ext[x][1]))
                ss.append(p.block(b))
            elif ints:
                x = r.choice(ints); y = [z for z in vis if vis[z] == P(I('i'))]
                if y: ss.append(p.expr(asg(idn(r.choice(y)), addr(idn(x))) if x not in loc else p and asg(idn(r.choice(y)), num(0))))
                else: ss.append(p.obs(bi('==', addr(idn(x)), idn('q'))))
        # calls of functions of this and other units
        cs = f['calls']
        for h in cs:
            if h['u'] != u and (h['x'], u) not in protos:
                ss.insert(0, p.ext(h['x'], FT, u, noext=r.random() < .4))
            tgt = r.choice(loc) if loc else None
            cand = [x for x in ints if x != tgt]
            a = addr(idn(r.choice(cand))) if cand and r.random() < .7 else idn('q') if r.random() < .5 else num(0)
            c = call(h['x'], bi('-', idn('n'), num(1)), a)
            ss.append(p.if_(bi('>', idn('n'), num(0)), p.expr(asg(idn(tgt), c, g.ch('+', '', '^'))) if loc else p.obs(c)))
        for x in loc[:2] + mine[:1]:
            if vis[x]['c'] == 'int': ss.append(p.obs(idn(x)))
        e = num(g.v() % 100)
        for x in loc: 
            if vis[x]['c'] == 'int': e = bi('+', e, bi('&', idn(x), num(63)))
        ss.append(p.ret(e))
        return p.block(ss)
    protos = set()
    # call graph: recursion bounded by n
    def vis_fn(u): return [h for h in fns if h['u'] == u or (not h['static'] and not any(k['x'] == h['x'] and k['u'] == u for k in fns))]
    for f in fns: f['calls'] = r.sample(vis_fn(f['u']), min(len(vis_fn(f['u'])), g.ch(0, 1, 1, 2)))
    for u in U:
        items = pend[u]
        # interleave: first declarations of each object in random order; functions after
        order = []
        for seq in items:
            order.append(seq[0])
        r.shuffle(order)
        for z in order: z()
        need = {h['x']: h for f in fns if f['u'] == u for h in f['calls']}
        mineF = [f for f in fns if f['u'] == u]
        for x, h in need.items():
            if h['u'] == u or r.random() < .6:
                p.proto(x, FT, g.ch('static', 'static') if h['static'] else g.ch('', 'extern'), u); protos.add((x, u))
                if h['static'] and r.random() < .2: p.proto(x, FT, 'extern', u)
        rest = [z for seq in items for z in seq[1:]]
        for f in mineF:
            while rest and r.random() < .4: rest.pop(0)()
            sc = 'static' if f['static'] else ''
            # 'static int f(); int f() {..}' is rejected by wcc: a known finding
            p.fn(f['x'], FT, [('n', I('i')), ('q', P(I('i')))], body(f), sc, u)
        for z in rest: z()
        # the addresses the unit sees
        rets = []
        for (x, v), (en, t) in objs.items():
            if v == u:
                p.fn('ad_%s_%d' % (x, u), FN(P(VOID), []), [], p.block([p.ret(addr(idn(x)))]), '', u)
        for f in mineF:
            p.fn('fp_%s_%d' % (f['x'], u), FN(P(FT), []), [], p.block([p.ret(idn(f['x']))]), '', u)
    # main in the last unit, seeing the external functions
    u = g.nu; ss = []
    for (x, v) in objs: 
        if v != u: p.proto('ad_%s_%d' % (x, v), FN(P(VOID), []), g.ch('', 'extern'), u)
    for f in fns:
        if f['u'] != u: p.proto('fp_%s_%d' % (f['x'], f['u']), FN(P(FT), []), g.ch('', 'extern'), u)
    fp = [call('fp_%s_%d' % (f['x'], f['u'])) for f in fns]
    ss.append(p.local('z', I('i'), dict(k='e', e=num(5))))
    ss.append(p.local('fp', P(FT), dict(k='e', e=num(0))))
    for rnd in range(2):
        for e in fp:
            a = addr(idn('z')) if r.random() < .7 else num(0)
            if r.random() < .5: ss.append(p.expr(asg(idn('fp'), e))); ss.append(p.obs(call(idn('fp'), num(r.randrange(0, 3)), a)))
            else: ss.append(p.obs(dict(call('main', num(r.randrange(0, 3)), a), f=e)))
        ss.append(p.obs(idn('z')))
    os_ = list(objs)
    for i in range(len(os_)):
        for j in range(i):
            if os_[i][0] == os_[j][0]:
                ss.append(p.obs(bi('==', call('ad_%s_%d' % os_[i]), call('ad_%s_%d' % os_[j]))))
    for i in range(len(fns)):
        for j in range(i):
            if fns[i]['x'] == fns[j]['x']: ss.append(p.obs(bi('!=', fp[i], fp[j])))
    p.fn('main', FN(I('i'), []), [], p.block(ss + [p.ret(num(0))]), '', u)
    return p
