"""Programs for the static semantics (spec/CCheck.tla): random sequences of declarations and statements, mostly meaningful,
with faults anywhere; TLC gives the verdict, the real compiler must agree and name the place."""
import json, os, random, re, shutil
import vf

def T(k, t=None, c=0, n=0, tag='', ps=(), proto=0, var=0): return dict(k=k, c=c, t=[t] if t else [], n=n, tag=tag, ps=list(ps), proto=proto, var=var)
def P(t, c=0): return T('ptr', t, c)
NAMES = dict(char='char', schar='signed char', uchar='unsigned char', short='short', ushort='unsigned short', int='int', uint='unsigned', long='long', ulong='unsigned long', float='float', double='double', ldouble='long double', void='void')
INTS = ['char', 'schar', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong']
FLOATS = ['float', 'double', 'ldouble']

def show(t, d=''):
    """The declaration of d with the type t"""
    k = t['k']
    con = 'const ' if t['c'] else ''
    if k == 'ptr':
        i = '*' + con + d
        return show(t['t'][0], '(' + i + ')' if t['t'][0]['k'] in ('arr', 'fn') else i)
    if k == 'arr': return show(dict(t['t'][0], c=1) if t['c'] else t['t'][0], '%s[%s]' % (d, t['n'] or ''))
    if k == 'fn':
        if not t['proto']: a = ''
        elif not t['ps']: a = 'void'
        else:
            names = t.get('names') or [''] * len(t['ps'])
            a = ', '.join(show(p, n) for p, n in zip(t['ps'], names)) + (', ...' if t['var'] else '')
        return show(t['t'][0], '%s(%s)' % (d, a))
    base = k + ' ' + t['tag'] if k in ('struct', 'union', 'enum') else t['tag'] if k == 'name' else NAMES[k]
    return con + base + (' ' + d if d else '')

LEVEL = {'*': 10, '/': 10, '%': 10, '+': 9, '-': 9, '<<': 8, '>>': 8, '<': 7, '>': 7, '<=': 7, '>=': 7, '==': 6, '!=': 6, '&': 5, '^': 4, '|': 3, '&&': 2, '||': 1}
def text(x, r=None):
    o, k = x['o'], x['k']
    def sub(i): 
        s = text(k[i], r)
        return s if k[i]['o'] in ('id', 'int', 'flt', 'str', 'call', '[]', '.', '->') else '(' + s + ')'
    if o in ('int', 'flt', 'str', 'id'): return x['n']
    if o in LEVEL or o == '=' or o in ('+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='): return '%s %s %s' % (sub(0), o, sub(1))
    if o == ',': return '%s , %s' % (sub(0), sub(1))
    if o == '?:': return '%s ? %s : %s' % (sub(0), sub(1), sub(2))
    if o == '[]': return '%s[%s]' % (sub(0), text(k[1], r))
    if o in ('.', '->'): return sub(0) + o + x['n']
    if o == 'cast': return '(%s) %s' % (show(x['ty']), sub(0))
    if o == 'sizeof': return 'sizeof (%s)' % text(k[0], r)
    if o == 'sizeoft': return 'sizeof(%s)' % show(x['ty'])
    if o == 'call': return '%s(%s)' % (sub(0), ', '.join('(' + text(a, r) + ')' if a['o'] == ',' else text(a, r) for a in k[1:]))
    if o[0] == '_': return sub(0) + o[1:]
    return o[:-1] + ' ' + sub(0)
def X(o, *k, n='', v=0, ty=None): return dict(o=o, k=list(k), n=n, v=v, ty=ty or T('int'))
def lit(r, ty='int', v=None):
    v = r.randrange(12) if v is None else v
    return X('int', n={'int': r.choice(['%d', '0x%x', '%d']) % v, 'uint': '%du' % v, 'long': '%dL' % v, 'ulong': '%dUL' % v}[ty], v=v, ty=T(ty))

class G:
    """Generates a program as a sequence of events. It keeps an idea of what is declared; what it means is up to the specification."""
    def __init__(g, r, rate):
        g.r = r; g.rate = rate; g.nest = 0; g.ev = []; g.scopes = [[]]; g.structs = [[]]; g.n = 0; g.ret = None; g.tds = [[]]; g.ctl = []; g.labels = []
    def fault(g): return g.r.random() < g.rate
    def name(g, p='v'): g.n += 1; return '%s%d' % (p, g.n)
    def add(g, e, **kw): g.ev.append(dict(dict(e=e, n='', s='', st='', k='', x=[], ty=T('int'), ms=[], ns=[], ps=[]), **kw))
    def objs(g): return [o for s in g.scopes for o in s]
    def sts(g): return [o for s in g.structs for o in s]
    # types
    def scalar(g): return T(g.r.choice(INTS + FLOATS + ['int', 'int', 'long']))
    def ty(g, depth=2, inc=False):
        r = g.r; x = r.random()
        if g.fault(): return g.r.choice([T('fn', T('arr', T('int'), n=2), proto=1), T('arr', T('void'), n=2), T('struct', tag='nowhere'), T('void'), T('fn', T('fn', T('int'), proto=1), proto=1), T('arr', T('fn', T('int')), n=2), T('name', tag=g.name('t')), T('arr', T('int')), T('union', tag=(r.choice(g.sts())['tag'] if g.sts() else 'z'))] + [T('struct', tag=s['tag']) for s in g.sts()] + [T('arr', T(s['k'], tag=s['tag']), n=2) for s in g.sts()] + [T('name', tag=o['n']) for o in g.objs()[-3:]])
        if depth == 0 or x < .45: t = g.scalar()
        elif x < .6: t = P(g.ty(depth - 1, True))
        elif x < .64: t = P(T('void'))
        elif x < .75 and g.sts():
            s = r.choice(g.sts())
            if not s['done'] and not inc: t = P(T(s['k'], tag=s['tag']))
            else: t = T(s['k'], tag=s['tag'])
        elif x < .83: t = T('arr', g.ty(depth - 1), n=r.randrange(1, 5))
        elif x < .92: t = P(g.fnty())
        elif x < .95 and [d for s in g.tds for d in s]: return T('name', tag=r.choice([d for s in g.tds for d in s])['n'])
        else: t = g.scalar()
        if r.random() < .06 and t['k'] not in ('arr', 'fn'): t = dict(t, c=1)
        return t
    def fnty(g, ps=None):
        r = g.r
        ps = [g.param() for _ in range(r.randrange(0, 4))]
        return T('fn', r.choice([T('void'), T('int'), g.scalar(), P(g.scalar())] + [T(s['k'], tag=s['tag']) for s in g.sts() if s['done']]), ps=ps, proto=1 if ps or r.random() < .7 else 0, var=1 if ps and r.random() < .15 else 0)
    def param(g):
        while True:
            t = g.ty(1)
            if t['k'] in INTS + FLOATS + ['ptr', 'name'] or (t['k'] == 'struct' and g.r.random() < .5): return t
    def real(g, t):
        while t['k'] == 'name':
            d = [d for s in g.tds for d in s if d['n'] == t['tag']]
            if not d: return T('int')
            t = dict(d[-1]['ty'])
        return t
    # expressions of a wanted sort: 'int', 'arith', 'scalar', or a type
    def same(g, a, b): return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)
    def lval(g, want, depth):
        """An lvalue whose type passes want"""
        r = g.r; c = []
        for o in g.objs():
            t = g.real(o['ty']); e = X('id', n=o['n'])
            for i in range(4):
                if t['k'] != 'fn' and want(t) : c.append(e)
                if t['k'] in ('struct', 'union'):
                    s = [s for s in g.sts() if s['tag'] == t['tag'] and s['done'] and s['ms']]
                    if not s: break
                    m = r.choice(s[-1]['ms']); e = X('.', e, n=m['n']) if r.random() < .93 else X('->', e, n=m['n']) if g.fault() else X('->', X('&_', e), n=m['n']); t = g.real(m['ty'])
                    if m['w'] != -1 and not m['n']: break
                elif t['k'] in ('ptr', 'arr') and t['t'][0]['k'] not in ('void', 'fn') and depth > 0:
                    if t['t'][0]['k'] in ('struct', 'union') and r.random() < .6:
                        s = [s for s in g.sts() if s['tag'] == t['t'][0]['tag'] and s['done'] and s['ms']]
                        if not s: break
                        m = r.choice(s[-1]['ms'])
                        if m['w'] != -1 and not m['n']: break
                        e = X('->', e, n=m['n']); t = g.real(m['ty'])
                    else:
                        e = r.choice([lambda: X('*_', e), lambda: X('[]', e, g.expr('int', depth - 1))])(); t = g.real(t['t'][0])
                else: break
        return r.choice(c) if c else None
    def any(g, depth):
        r = g.r
        return g.expr(r.choice(['int', 'arith', 'scalar', T('void'), P(T('void'))] + [g.real(o['ty']) for o in g.objs()]), depth)
    def expr(g, want, depth):
        r = g.r
        if g.fault():
            f = r.random()
            if f < .1: return X('id', n=g.name('u'))
            if f < .15: return X(r.choice(['&_', '*_', '!_', '~_', '-_', '++_', '_--']), g.any(depth - 1))
            if f < .3: a = g.any(depth - 1); return X(r.choice(list(LEVEL) + ['=', '+=', '*=', '<<=']), a, g.any(depth - 1))
            if f < .35: return X('?:', g.any(depth - 1), g.any(depth - 1), g.any(depth - 1))
            if f < .42: return X(r.choice(['.', '->']), g.any(depth - 1), n=r.choice(['m1', 'm2', 'm3', g.name('m')]))
            if f < .48: return X('call', g.any(depth - 1), *[g.any(depth - 1) for _ in range(r.randrange(3))])
            if f < .52: return X('sizeoft', ty=g.ty(2))
            if f < .56: return X('sizeof', g.any(depth - 1))
            if f < .6: return X('[]', g.any(depth - 1), g.any(depth - 1))
            return g.any(depth)
        k = want if isinstance(want, str) else g.real(want)['k']
        t = None if isinstance(want, str) else g.real(want)
        if k in INTS: k = 'int'
        elif k in FLOATS or k == 'enum': k = 'arith'
        d = depth - 1
        if k == 'scalar': k = r.choice(['int', 'arith', 'int', 'ptr'])
        if k == 'ptr' and t is None:
            e = g.lval(lambda q: q['k'] in ('ptr', 'arr'), depth)
            if e: return e
            return X('&_', g.lval(lambda q: q['k'] not in ('arr',), 0)) if g.lval(lambda q: q['k'] != 'arr', 0) else lit(r)
        if k in ('int', 'arith'):
            ok = (lambda q: q['k'] in INTS) if k == 'int' else (lambda q: q['k'] in INTS + FLOATS)
            if depth <= 0 or r.random() < .25:
                e = g.lval(ok, depth) if r.random() < .7 else None
                if e: return e
                if k == 'arith' and r.random() < .4: return r.choice([X('flt', n='1.5', ty=T('double')), X('flt', n='2.5f', ty=T('float')), X('flt', n='.5L', ty=T('ldouble'))])
                return lit(r, r.choice(['int', 'int', 'uint', 'long', 'ulong']))
            x = r.random()
            if x < .25: return X(r.choice(['+', '-', '*', '/'] if k == 'arith' else ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']), g.expr(k, d), g.expr(k, d))
            if x < .4: return X(r.choice(['<', '>', '<=', '>=', '==', '!=']), g.expr('arith', d), g.expr('arith', d))
            if x < .5: return X(r.choice(['&&', '||']), g.expr('scalar', d), g.expr('scalar', d))
            if x < .6:
                o = r.choice(['!_', '+_', '-_', '~_'])
                return X(o, g.expr('scalar' if o == '!_' else 'int' if o == '~_' else k, d))
            if x < .66: return X('?:', g.expr('scalar', d), g.expr(k, d), g.expr(k, d))
            if x < .7: return X(',', g.any(d), g.expr(k, d))
            if x < .76:
                e = g.lval(ok, d)
                if e: return X('=', e, g.expr('arith', d)) if r.random() < .5 else X(r.choice(['+=', '-=', '*='] if k == 'arith' else ['+=', '|=', '<<=', '%=']), e, g.expr(k, d))
            if x < .8:
                e = g.lval(ok, d)
                if e: return X(r.choice(['++_', '--_', '_++', '_--']), e)
            if x < .84: return X('cast', g.expr('arith', d), ty=T(r.choice(INTS) if k == 'int' else r.choice(INTS + FLOATS)))
            if x < .88: return r.choice([lambda: X('sizeof', g.expr('scalar', d)), lambda: X('sizeoft', ty=g.ty(2))])()
            if x < .91:
                e = g.lval(lambda q: q['k'] == 'ptr' and q['t'][0]['k'] not in ('void', 'fn', 'struct', 'union'), d)
                if e: return r.choice([lambda: X('-', e, e), lambda: X(r.choice(['==', '!=', '<']), e, e), lambda: X(r.choice(['==', '!=']), e, lit(r, v=0)), lambda: X(r.choice(['==', '!=']), X('cast', lit(r, v=0), ty=P(T('void'))), e)])()
            e = g.call(lambda q: ok(q), d)
            if e: return e
            return lit(r)
        if k == 'void':
            e = g.call(lambda q: q['k'] == 'void', d)
            return e or X('cast', g.any(d), ty=T('void'))
        if k in ('struct', 'union'):
            e = g.lval(lambda q: q['k'] == k and q['tag'] == t['tag'], depth)
            if not e or r.random() < .2: e = g.call(lambda q: q['k'] == k and q['tag'] == t['tag'], d) or e
            if e and depth > 0 and r.random() < .2: return r.choice([lambda: X('?:', g.expr('scalar', d), e, e), lambda: X(',', g.any(d), e)])()
            return e or lit(r)
        if k == 'arr': return g.lval(lambda q: q['k'] == 'arr', depth) or lit(r)
        if k == 'ptr':
            tt = t['t'][0]; x = r.random()
            if tt['k'] == 'fn':
                fs = [o for o in g.objs() if o['ty']['k'] == 'fn' and g.same(dict(o['ty'], names=0), dict(tt, names=0))]
                if fs and x < .7: e = X('id', n=r.choice(fs)['n']); return X('&_', e) if x < .2 else e
            if x < .15: return r.choice([lit(r, v=0), X('cast', lit(r, v=0), ty=P(T('void')))])
            e = g.lval(lambda q: q['k'] in ('ptr', 'arr') and g.same(q['t'][0], tt), depth)
            if e and depth > 0 and tt['k'] not in ('void', 'fn') and r.random() < .3: e = X('+', e, g.expr('int', d)) if r.random() < .7 else X('-', e, g.expr('int', d))
            if e and depth > 0 and r.random() < .1: return X('?:', g.expr('scalar', d), e, r.choice([e, lit(r, v=0)]))
            if e and x < .7: return e
            if tt['k'] == 'void':
                q = g.lval(lambda q: q['k'] == 'ptr' and q['t'][0]['k'] != 'fn' and not q['t'][0]['c'], depth)
                if q: return q
            if tt['k'] == 'char' and r.random() < .3: return X('str', n='"ab"', v=3)
            q = g.lval(lambda q: g.same(q, tt), depth)
            if q and q['o'] != '.' and q['o'] != '->': return X('&_', q)
            return e or X('cast', g.expr('int', d), ty=t)
        return lit(r)
    def call(g, want, depth):
        r = g.r
        fs = [(o, o['ty'] if o['ty']['k'] == 'fn' else g.real(o['ty'])['t'][0]) for o in g.objs() if o['ty']['k'] == 'fn' or (g.real(o['ty'])['k'] == 'ptr' and g.real(o['ty'])['t'][0]['k'] == 'fn')]
        fs = [(o, f) for o, f in fs if want(g.real(f['t'][0]))]
        if not fs: return None
        if g.nest > 3: return None
        g.nest += 1
        o, f = r.choice(fs)
        e = X('id', n=o['n'])
        if r.random() < .15: e = X('*_', e)
        args = [g.expr(p, depth) for p in f['ps']]
        g.nest -= 1
        if f['var'] or not f['proto']: args += [g.expr('arith', depth) for _ in range(r.randrange(3))]
        if g.fault(): args = args + [g.expr('int', 0)] if r.random() < .6 else args[:-1]
        return X('call', e, *args)
    # declarations
    def pick(g, p='v'):
        """A new name, or one that may already mean something"""
        if g.r.random() < .12 + g.rate and g.n:
            c = [o['n'] for o in g.objs()] + [s['tag'] for s in g.sts()] + [d['n'] for s in g.tds for d in s]
            if g.fault(): c = [o['n'] for o in g.scopes[-1]] + [d['n'] for d in g.tds[-1]] or c
            elif len(g.scopes) > 1: c = [o['n'] for s in g.scopes[:-1] for o in s if o['n'] not in [q['n'] for q in g.scopes[-1]]]
            else: c = []
            if c: return g.r.choice(c)
        return g.name(p)
    def put(g, n, ty):
        for s in g.scopes: s[:] = [o for o in s if o['n'] != n]     # one meaning at a time is enough here
        g.scopes[-1].append(dict(n=n, ty=ty))
    def decl(g):
        r = g.r; glob = len(g.scopes) == 1; x = r.random()
        if x < .08:
            tag = g.pick('s'); k = r.choice(['struct', 'struct', 'union'])
            if r.random() < .3:
                g.add('fwd', n=tag, k=k); g.structs[-1].append(dict(tag=tag, k=k, done=0, ms=[])); return
            old = [s for s in g.structs[-1] if not s['done']]
            if old and r.random() < .6: tag, k = old[-1]['tag'], old[-1]['k']; g.structs[-1].remove(old[-1])
            ms = []
            for i in range(r.randrange(1, 5)):
                if i and r.random() < .15: ms.append(dict(n='' if r.random() < .2 else 'm%d' % (i + 1), ty=T(r.choice(['int', 'uint'] + (['char', 'long', 'float'] if g.fault() else []))), w=r.choice([1, 3, 31, 32] + ([33, 64, 0] if g.fault() else []))))
                else: ms.append(dict(n='m%d' % (i + 1) if not g.fault() else 'm1', ty=g.ty(2), w=-1))
                if ms[-1]['n'] == '' and g.r.random() < .3: ms[-1]['w'] = 0
                if i == 0 and g.real(ms[0]['ty'])['k'] == 'arr' and g.real(ms[0]['ty'])['n'] == 0: ms[0]['ty'] = T('int')
            g.add('struct', n=tag, k=k, ms=ms); g.structs[-1].append(dict(tag=tag, k=k, done=1, ms=[m for m in ms if m['n']])); return
        if x < .12:
            ns = [g.pick('c') for _ in range(r.randrange(0 if g.fault() else 1, 4))]
            g.add('enum', n=g.name('e') if r.random() < .5 else '', ns=ns)
            return
        if x < .17:
            n = g.pick('t'); t = g.ty(2); g.add('decl', n=n, st='typedef', ty=t); g.tds[-1].append(dict(n=n, ty=t)); return
        if x < .25:
            n = g.pick('f'); t = g.fnty(); g.add('decl', n=n, ty=t, st=r.choice(['', '', 'extern', 'static'] if glob or g.fault() else ['', 'extern']))
            g.put(n, t); return
        t = g.ty(2)
        st = r.choice(['', '', '', '', 'static', 'extern'] + ([] if glob else ['register', 'auto']) + (['auto', 'register'] if g.fault() else []))
        if glob and g.scopes[0] and r.random() < .15:
            o = r.choice(g.scopes[0]); n, t = o['n'], o['ty']                    # declared again
            if g.fault(): t = g.ty(2)
            if t['k'] == 'arr' and r.random() < .3: t = dict(t, n=0)
            st = r.choice(['', 'extern', 'extern'])
        else: n = g.pick()
        init = []
        rt = g.real(t)
        if (st != 'extern' or g.fault()) and r.random() < .5 and (rt['k'] in INTS + FLOATS + ['ptr'] or (rt['k'] in ('struct', 'union') and not glob and st not in ('static',))):
            if glob or st == 'static':
                if g.fault(): init = [g.expr(t, 1)]
                elif rt['k'] == 'ptr':
                    c = [o for o in g.scopes[0] if g.same(o['ty'], rt['t'][0])]
                    init = [X('&_', X('id', n=r.choice(c)['n'])) if c else lit(r, v=0)]
                else: init = [r.choice([lambda: lit(r), lambda: X(r.choice(['+', '*', '|', '<', '&&']), lit(r), lit(r)), lambda: X('-_', lit(r)), lambda: X('sizeoft', ty=T('int')), lambda: X('?:', lit(r), lit(r), lit(r))])()]
            else: init = [g.expr(t, r.randrange(3))]
        g.add('decl', n=n, ty=t, st=st, x=init)
        if rt['k'] != 'fn': g.put(n, t)
    # statements
    def push(g): g.scopes.append([]); g.structs.append([]); g.tds.append([])
    def pop(g): g.scopes.pop(); g.structs.pop(); g.tds.pop()
    def stmts(g, n, depth):
        r = g.r
        for _ in range(r.randrange(0, 3)): g.decl()
        for _ in range(n): g.stmt(depth)
    def body(g, e, depth, ctl, x=(), end=()):
        g.add('begin', s=e, x=list(x)); g.push(); g.ctl.append(ctl)
        if ctl == 'switch':
            vals = list(range(-2, 12)); g.r.shuffle(vals)
            for _ in range(g.r.randrange(1, 4)):
                if g.r.random() < .2: g.add('default') if not [1 for q in g.ev[-6:] if q['e'] == 'default'] or g.fault() else None
                v = g.r.choice(vals) if g.fault() else vals.pop()
                g.add('case', x=[g.expr('int', 1) if g.fault() else X('-_', lit(g.r, v=-v)) if v < 0 else lit(g.r, g.r.choice(['int', 'long']), v=v)])
                g.stmt(depth - 1)
        else: g.stmts(g.r.randrange(0, 3), depth - 1)
        g.ctl.pop(); g.pop()
        g.add('end', s=e, x=list(end))
    def stmt(g, depth):
        r = g.r; x = r.random()
        c = lambda: g.expr('scalar', 2)
        if depth <= 0 or x < .5: g.add('expr', x=[g.any(r.randrange(1, 4))]); return
        if x < .57:
            g.body('if', depth, 'block', [c()])
            if r.random() < .4: g.body('else', depth, 'block')
        elif x < .64: g.body('while', depth, 'loop', [c()])
        elif x < .68: g.body('do', depth, 'loop', [], [c()])
        elif x < .73: g.body('for', depth, 'loop', [g.any(1), c(), g.any(1)])
        elif x < .79: g.body('switch', depth, 'switch', [g.expr('int', 2)])
        elif x < .83: g.body('block', depth, 'block')
        elif x < .86:
            if 'loop' in g.ctl or 'switch' in g.ctl or g.fault(): g.add('break')
        elif x < .88:
            if 'loop' in g.ctl or g.fault(): g.add('continue')
        elif x < .91: g.add('return', x=[] if g.ret['k'] == 'void' and not g.fault() else [g.expr(g.ret, 2)] if r.random() < .9 else [])
        elif x < .94:
            n = g.name('l') if not g.fault() or not g.labels else r.choice(g.labels)
            g.labels.append(n); g.add('label', n=n)
        elif x < .97:
            if g.fault(): g.add('goto', n=g.name('l'))
            elif g.labels: g.add('goto', n=r.choice(g.labels))
        elif g.fault(): g.add(r.choice(['default', 'break', 'continue']))
        elif g.fault(): g.add('case', x=[lit(r)])
        else: g.add('expr', x=[c()])
    def func(g, size):
        r = g.r
        n = g.pick('f'); t = g.fnty()
        prior = [o for o in g.scopes[0] if o['ty']['k'] == 'fn' and o['ty']['proto'] and not o.get('def')]
        if prior and r.random() < .3: o = r.choice(prior); n, t = o['n'], o['ty']
        if g.fault() and [o for o in g.scopes[0] if o['ty']['k'] == 'fn']: n = r.choice([o for o in g.scopes[0] if o['ty']['k'] == 'fn'])['n']
        ps = [g.name('p') for _ in t['ps']]
        if ps and g.fault(): ps[r.randrange(len(ps))] = r.choice(['', ps[0]])
        g.add('func', n=n, ty=t, ps=ps, st=r.choice(['', '', 'static']) if n not in [o['n'] for o in g.scopes[0]] else '')
        g.put(n, t); g.scopes[0][-1]['def'] = 1
        g.push(); g.ret = g.real(t['t'][0]); g.labels = []
        for p, q in zip(ps, t['ps']):
            if p: g.scopes[-1].append(dict(n=p, ty=P(g.real(q)['t'][0]) if g.real(q)['k'] == 'arr' else q))
        g.ctl = ['func']; g.stmts(size, 3); g.ctl = []
        for l in ([g.name('l')] if r.random() < .2 else []):
            g.add('goto', n=l); g.add('expr', x=[g.any(1)]); g.add('label', n=l)
        g.pop(); g.add('endfunc')
S = lambda t: T('struct', tag=t)
def plant(g, glob):
    """Declarations and one statement or declaration around a constraint, violated or just not; the specification knows which"""
    r = g.r; ev = g.ev; g.ev = []
    N = {k: g.name(k) for k in 'sutdivpqacfhnwbklxyzmej'}
    I = lambda k: X('id', n=N[k])
    L = lambda v=None, ty='int': lit(r, ty, v)
    st = 'static' if r.random() < .3 else ''
    def decl(k, ty, x=(), st=st): g.add('decl', n=N[k], ty=ty, st=st, x=list(x))
    fnst = ''
    M = lambda n, ty, w=-1: dict(n=n, ty=ty, w=w)
    con = lambda t: dict(t, c=1)
    if not glob: g.add('begin', s='block')
    for _ in range(r.randrange(2)): decl('x', T('int'))
    g.add('struct', n=N['s'], k='struct', ms=[M('m1', T('int')), M('m2', T('int'), 3), M('m3', T('arr', T('int'), n=3)), M('m4', P(S(N['s']))), M('m5', T('double'))])
    g.add('struct', n=N['u'], k='union', ms=[M('m1', con(T('int'))), M('m2', T('long'))])
    g.add('fwd', n=N['t'], k='struct')
    g.add('enum', n=N['e'], ns=[N['n'], N['m']])
    decl('v', S(N['s'])); decl('i', T('int')); decl('d', T('double')); decl('p', P(T('int'))); decl('q', P(S(N['s']))); decl('w', P(S(N['t'])))
    decl('a', T('arr', T('int'), n=3)); decl('c', con(T('int')), [L()]); decl('b', T('union', tag=N['u'])); decl('y', P(con(T('int')))); decl('z', P(T('long')))
    f = T('fn', T('int'), ps=[T('int'), P(T('int'))], proto=1); vf_ = T('fn', T('void'), proto=1); vaf = T('fn', S(N['s']), ps=[T('int')], proto=1, var=1)
    decl('f', f, st=fnst); decl('h', vf_, st=fnst); decl('j', vaf, st=fnst); decl('k', P(f))
    num = lambda: r.choice([L(), I('i'), X('.', I('v'), n='m1'), X('*_', I('p')), X('[]', I('a'), L(1)), X('call', I('f'), L(), I('p')), I('n'), X('cast', I('d'), ty=T('short')), X('sizeof', I('v'))])
    flt = lambda: r.choice([I('d'), X('.', I('v'), n='m5'), X('cast', I('i'), ty=T('float')), X('flt', n='1.5', ty=T('double'))])
    rec = lambda: r.choice([I('v'), X('*_', I('q')), X('call', I('j'), L()), X('*_', X('.', I('v'), n='m4')), X('?:', I('i'), I('v'), X('*_', I('q')))])
    ptr = lambda: r.choice([I('p'), I('a'), X('&_', I('i')), X('+', I('p'), L()), X('.', I('v'), n='m3'), X('?:', I('i'), I('p'), L(0))])
    void = lambda: r.choice([X('call', I('h')), X('cast', I('i'), ty=T('void')), X(',', I('i'), X('call', I('h')))])
    fn = lambda: r.choice([I('f'), I('k'), X('*_', I('k')), X('&_', I('f'))])
    lv = lambda: r.choice([I('i'), X('*_', I('p')), X('[]', I('a'), L(2)), X('->', I('q'), n='m1'), X('.', I('v'), n='m2'), I('d'), X('.', I('b'), n='m2')])
    rv = lambda: r.choice([L(), X('+', I('i'), L()), X('call', I('f'), L(), I('p')), X('-_', I('i')), X('_++', I('i')), X('cast', I('i'), ty=T('int')), I('n'), X('!_', I('p'))])
    ro = lambda: r.choice([I('c'), X('*_', I('y')), X('[]', I('y'), L()), X('.', I('b'), n='m1'), I('b'), X('->', X('&_', I('b')), n='m1')])
    sorts = [num, flt, rec, ptr, void, fn]
    some = lambda: r.choice(sorts)()
    ops = list(LEVEL)
    def mutate():
        x = r.randrange(6); t = r.choice([lv, lv, rv, ro])()
        if x < 2: return X('=', t, r.choice([num, num, some])())
        if x == 2: return X(r.choice(['+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=']), t, r.choice([num, num, some])())
        if x == 3: return X(r.choice(['++_', '--_', '_++', '_--']), t)
        if x == 4: return X('=', r.choice([I('p'), I('q'), I('z'), I('k'), I('v'), I('y')]), some())
        return X('&_', r.choice([lv, rv, ro, rec, fn])())
    def member():
        t = r.choice([rec, rec, ptr, num, lambda: I('w'), lambda: I('q'), lambda: I('b'), lambda: X('*_', I('w'))])()
        return X(r.choice(['.', '->']), t, n=r.choice(['m1', 'm2', 'm3', 'm6', N['n']]))
    def call():
        args = [r.choice([num, num, flt, ptr, rec, void])() for _ in range(r.choice([0, 1, 2, 2, 2, 3]))]
        if len(args) > 1 and r.random() < .6: args[1] = ptr()
        return X('call', r.choice([fn, fn, fn, lambda: I('h'), lambda: I('j'), num, ptr, rec])(), *args)
    def size():
        if r.random() < .5: return X('sizeoft', ty=r.choice([T('int'), S(N['s']), S(N['t']), P(S(N['t'])), T('arr', T('int')), T('arr', S(N['s']), n=2), T('fn', T('int'), proto=1), T('void'), T('union', tag=N['s'])]))
        return X('sizeof', r.choice([some, member, lambda: X('*_', I('w')), lambda: X('.', I('v'), n='m2'), lambda: X('+_', X('.', I('v'), n='m2'))])())
    def expr():
        return r.choice([lambda: X(r.choice(ops), some(), some())] * 4 + [lambda: X(r.choice(['+_', '-_', '~_', '!_', '*_']), some()), lambda: X('?:', some(), some(), some()), lambda: X('?:', num(), some(), num()), mutate, mutate, mutate, member, call, call, size,
                lambda: X('[]', some(), some()), lambda: X('cast', some(), ty=r.choice([T('int'), T('void'), T('float'), P(T('void')), T('arr', T('int'), n=2), S(N['s'])])), lambda: X('id', n=N['l']), lambda: X(',', some(), I('l'))])()
    def inside(x):
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            x = r.choice([lambda: X(',', some(), x), lambda: X('cast', x, ty=T('void')), lambda: X('+', num(), x), lambda: X('?:', num(), x, num()), lambda: X('call', I('f'), x, I('p')), lambda: X('sizeof', x), lambda: X('[]', I('a'), x), lambda: X('=', I('i'), x), lambda: X('&&', num(), x)])()
        return x
    def stmt():
        x = r.randrange(14)
        if x < 5: g.add('expr', x=[inside(expr())])
        elif x == 5: g.add('begin', s='if', x=[inside(some())]); g.add('end', s='if')
        elif x == 6:
            k = r.choice(['while', 'do', 'for'])
            g.add('begin', s=k, x=[] if k == 'do' else [num(), some(), num()] if k == 'for' else [some()])
            inner(r.choice(['break', 'continue', '']))
            g.add('end', s=k, x=[some()] if k == 'do' else [])
        elif x < 10:
            g.add('begin', s='switch', x=[r.choice([num, num, num, num, some])()])
            vals = [r.choice([L(3), L(3, 'long'), I('n'), I('m'), L(0), L(4), X('-_', L(1)), X('+_', L(3))] + ([I('i'), flt(), I('c'), X('call', I('f'), L(), I('p')), X('+', L(1), L(1))] if r.random() < .3 else [])) for _ in range(r.randrange(1, 4))]
            ds = 0
            for v in vals:
                if r.random() < .4: g.add('begin', s=r.choice(['block', 'block', 'do'])); g.add('case', x=[v]); g.add('end', s=g.ev[-2]['s'], x=[num()] if g.ev[-2]['s'] == 'do' else [])
                else: g.add('case', x=[v])
                if r.random() < .35 and (ds == 0 or r.random() < .4): g.add('default'); ds = 1
                inner(r.choice(['break', 'continue', 'switch', '']))
            g.add('end', s='switch')
        elif x == 10: g.add(r.choice(['break', 'continue', 'default']))
        elif x == 11: g.add('case', x=[L()])
        elif x == 12:
            l = g.name('l'); g.add('label', n=l); g.add('begin', s='block'); g.add('label', n=r.choice([l, g.name('l')])); g.add('end', s='block')
            if r.random() < .5: g.add('goto', n=r.choice([l, g.name('l')]))
        else: g.add('return', x=[] if r.random() < .2 else [some()])
    def inner(k):
        if k == 'switch': g.add('begin', s='switch', x=[num()]); g.add('case', x=[L(3)]); g.add('default') ; g.add('break'); g.add('end', s='switch')
        elif k: g.add('begin', s=r.choice(['block', 'block', 'if']), x=[]); g.ev[-1]['x'] = [num()] if g.ev[-1]['s'] == 'if' else []; g.add(k); g.add('end', s=g.ev[-2]['s'])
    def declaration():
        x = r.randrange(12); old = r.choice('vidpqwacbfhjkyz')
        tys = [T('int'), T('arr', T('int'), n=3), T('arr', T('int')), T('arr', T('int'), n=4), con(T('int')), f, vf_, T('fn', T('int')), T('fn', T('int'), ps=[T('int')], proto=1), T('fn', T('int'), ps=[T('int'), P(T('int'))], proto=1, var=1),
               T('fn', T('double'), ps=[T('int'), P(T('int'))], proto=1), S(N['s']), S(N['t']), T('union', tag=N['s']), T('enum', tag=N['e']), P(T('int')), T('arr', S(N['t']), n=2), T('fn', T('arr', T('int'), n=2), proto=1), P(T('fn', T('arr', T('int'), n=2), proto=1)), T('double')]
        if x < 3: g.add('decl', n=N[r.choice([old, old, 'l'])], ty=r.choice(tys), st=r.choice(['', 'extern', 'static', '', 'auto', 'register']))
        elif x == 3:
            t = r.choice([T('int'), T('double'), P(T('int')), P(T('long')), S(N['s']), P(f), T('int')])
            g.add('decl', n=N['l'], ty=t, st=r.choice(['static', 'static', '']), x=[r.choice([some, expr])()])
        elif x == 4: g.add('struct', n=N[r.choice('sutel')], k=r.choice(['struct', 'union']), ms=[M('m1', T('int'))])
        elif x == 5: g.add('fwd', n=N[r.choice('sute')], k=r.choice(['struct', 'union']))
        elif x < 8:
            ms = [M('m%d' % i, T('int')) for i in range(1, r.randrange(2, 5))]
            bad = r.choice([M(r.choice(['m1', 'm9']), r.choice(tys)), M('m9', r.choice([T('int'), T('uint'), T('char'), T('double'), P(T('int'))]), r.choice([0, 1, 32, 33]))])
            ms.insert(r.randrange(1, len(ms) + 1), bad)
            g.add('struct', n=N['l'], k=r.choice(['struct', 'union']), ms=ms)
        elif x == 8: g.add('enum', n='' if r.random() < .5 else N['l'], ns=[r.choice([N['n'], N['i'], g.name('c'), N['l']]) for _ in range(r.randrange(0, 3))])
        elif x == 9: g.add('decl', n=N[r.choice(['l', old])], ty=r.choice(tys), st='typedef')
        elif glob:
            t = r.choice([f, f, vf_, T('fn', S(N['t']), proto=1), T('fn', S(N['s']), proto=1), T('fn', T('int'), ps=[S(N['t']), T('int')], proto=1), T('fn', T('arr', T('int'), n=2), proto=1)])
            ps = [g.name('p') for _ in t['ps']]
            if ps and r.random() < .5: ps[r.randrange(len(ps))] = r.choice(['', ps[0]])
            n = N[r.choice(['f', 'h', 'l', 'i'])]
            for _ in range(r.randrange(1, 3)):
                g.add('func', n=n, ty=t, ps=ps, st='')
                if r.random() < .4: g.add('decl', n=(ps or [N['i']])[-1] or N['i'], ty=T('int'))
                g.add('endfunc')
                if r.random() < .6: break
        else: g.add('decl', n=N['l'], ty=r.choice(tys), st='')
    if glob: declaration()
    else:
        if r.random() < .35: declaration()
        else: stmt()
        g.add('end', s='block')
    ev, g.ev = g.ev, ev
    return ev

def program(r):
    g = G(r, r.choice([0, 0, .004, .01, .03]))
    for _ in range(r.randrange(2, 7)): g.decl()
    for _ in range(r.randrange(1, 4)):
        for _ in range(r.randrange(0, 3)): g.decl()
        g.func(r.randrange(1, 7))
    for _ in range(r.randrange(0, 2)): g.decl()
    if r.random() < .6:
        # a statement can go where the next event is no declaration and no else
        DECL = ('decl', 'fwd', 'struct', 'enum')
        depth = 0; spots = {0: [], 1: []}
        for i, e in enumerate(g.ev):
            if e['e'] == 'func': depth = 1
            elif depth and e['e'] not in DECL and not (e['e'] == 'begin' and e['s'] == 'else'): spots[1].append(i)
            elif not depth: spots[0].append(i)
            if e['e'] == 'endfunc': depth = 0
        k = 1 if spots[1] and r.random() < .75 else 0
        at = r.choice(spots[k] or [len(g.ev)])
        g.ev[at:at] = plant(g, not k)
    return g.ev

def body_text(ev):
    e, s = ev['e'], ev['s']
    if e == 'decl':
        d = (ev['st'] + ' ' if ev['st'] else '') + show(ev['ty'], ev['n'])
        return d + (' = ' + (text(ev['x'][0]) if ev['x'][0]['o'] != ',' else '(' + text(ev['x'][0]) + ')') if ev['x'] else '') + ' ;'
    if e == 'fwd': return '%s %s ;' % (ev['k'], ev['n'])
    if e == 'struct':
        return '%s %s { %s } ;' % (ev['k'], ev['n'], ' '.join(show(m['ty'], m['n']) + (' : %d' % m['w'] if m['w'] != -1 else '') + ' ;' for m in ev['ms']))
    if e == 'enum': return 'enum %s { %s } ;' % (ev['n'], ' , '.join(ev['ns']))
    if e == 'func': return (ev['st'] + ' ' if ev['st'] else '') + show(dict(ev['ty'], names=ev['ps']), ev['n']) + ' {'
    if e == 'endfunc': return '}'
    if e == 'expr': return text(ev['x'][0]) + ' ;'
    if e == 'begin':
        if s in ('block',): return '{'
        if s in ('do', 'else'): return s + ' {'
        if s == 'for': return 'for (' + ' ; '.join(text(x) for x in ev['x']) + ') {'
        return '%s (%s) {' % (s, text(ev['x'][0]))
    if e == 'end': return '} while (%s) ;' % text(ev['x'][0]) if ev['x'] else '}'
    if e == 'case': return 'case %s :' % text(ev['x'][0])
    if e == 'default': return 'default :'
    if e in ('break', 'continue'): return e + ' ;'
    if e == 'goto': return 'goto %s ;' % ev['n']
    if e == 'label': return ev['n'] + ' : ;'
    if e == 'return': return 'return%s ;' % (' ' + text(ev['x'][0]) if ev['x'] else '')
    raise ValueError(e)

def render(r, evs):
    """The files of the program and, for every event, the places its tokens are at"""
    main = []; files = {}; places = []
    style = r.random()
    seen = 0
    for i, ev in enumerate(evs):
        t = body_text(ev)
        # declarations come first in a block
        if style < .5 and r.random() < .2: main += r.choice([[''], ['/* a', ' comment */'], ['', '', '']])
        if r.random() < .1: t = re.sub(' ', lambda m: '\n' if r.random() < .3 else ' ', t)
        x = r.random() if style < .7 else 1
        if x < .04 and '#' not in t and '\n' not in t:
            main.append('#define M%d %s' % (i, t))
            if r.random() < .3: main.append('')
            main.append('M%d' % i); places.append([('main.c', len(main))])
        elif x < .08:
            f = 'inc%d.h' % i; pre = r.randrange(3)
            files[f] = '\n' * pre + t + '\n'
            main.append('#include "%s"' % f); places.append([(f, pre + 1 + j) for j in range(t.count('\n') + 1)])
        elif x < .1:
            main.append('#line %d "other.c"' % (1000 + i)); main += t.split('\n'); places.append([('other.c', 1000 + i + j) for j in range(t.count('\n') + 1)])
            main.append('#line %d "main.c"' % (len(main) + 2))
        else:
            a = len(main) + 1; main += t.split('\n'); places.append([('main.c', a + j) for j in range(t.count('\n') + 1)])
    places.append([('main.c', len(main)), ('main.c', len(main) + 1)])
    files['main.c'] = '\n'.join(main) + '\n'
    return files, places

LOC = re.compile(r'^(?:\./)?([^\s:]+):(\d+): (?:internal )?error: ', re.M)
def run_one(d, files, flags):
    os.makedirs(d, exist_ok=True)
    for f, t in files.items():
        with open(d + '/' + f, 'w') as h: h.write(t)
    out = d + '/out.x'
    if os.path.exists(out): os.unlink(out)
    q = vf.run([vf.wcc_path(), *flags, 'main.c', '-o', 'out.x'], cwd=d, timeout=20)
    return q, os.path.exists(out)
def judge(verdict, q, made, where):
    """None or what is wrong; where: allowed places or None"""
    if q.timeout: return 'it does not end'
    if q.rc not in (0, 1): return 'exit status %r, %s' % (q.rc, q.err[:200])
    if verdict == 'bad' and q.rc == 0: return 'accepted'
    if verdict == 'ok' and q.rc: return 'rejected: ' + q.err[:300]
    if q.rc == 0: return None if made else 'no output'
    if verdict == 'may': return None
    if made: return 'rejected, but there is an output file'
    if verdict == 'may': return None
    m = LOC.search(q.err)
    if not m: return 'no located message: ' + q.err[:200]
    if where is not None and (m.group(1), int(m.group(2))) not in where: return 'the message names %s:%s, not one of %s' % (m.group(1), m.group(2), sorted(where)[:6])
    return None

def verdicts(c, evs, name):
    f = vf.subdir('check-' + name) + '/p.json'
    json.dump(evs, open(f, 'w'))
    r = vf.tlc('CCheck', env=dict(VF_PROGS=f), timeout=800)
    c.add_tlc(r)
    res = {}
    for l in r.out.split('\n'):
        if l.startswith('"{'):
            o = json.loads(json.loads(l)); res[o['p'] - 1] = o
    if len(res) != len(evs): raise vf.ToolError('verdicts of %d of %d programs' % (len(res), len(evs)))
    return [res[i] for i in range(len(evs))]

def run_programs(c, seed, n, name):
    r = random.Random(seed)
    evs = [program(r) for _ in range(n)]
    vs = verdicts(c, evs, name)
    jobs = []
    for i, (ev, v) in enumerate(zip(evs, vs)):
        files, places = render(random.Random(seed * 7919 + i), ev)
        at = v['at'] - 1
        allowed = None
        if v['r'] == 'bad':
            lo = at
            if v['why'] == 'unknown label':
                while ev[lo]['e'] != 'func': lo -= 1
            allowed = {p for j in range(lo, at + 1) for p in places[j]} | {places[at + 1][0]} | ({places[at + 1][-1]} if at + 1 == len(ev) else set())
            # between the two there may be lines without tokens
        jobs.append((i, files, v, allowed, random.Random(i).choice([['-S'], ['-S'], ['-S', '-O'], ['-c']])))
    base = vf.subdir('check-' + name)
    def go(j):
        i, files, v, allowed, flags = j
        d = '%s/%d' % (base, i)
        for _ in range(2):
            q, made = run_one(d, files, flags)
            w = judge(v['r'], q, made, allowed)
            if not w: break
        shutil.rmtree(d, ignore_errors=True)
        return w
    for j, w in zip(jobs, vf.pmap(go, jobs)):
        i, files, v, allowed, flags = j
        c.count(v['r'])
        if v['r'] == 'bad': c.count('bad: ' + v['why'])
        if w: c.violation('program %d of seed %d, %s%s: %s' % (i, seed, v['r'], ' (%s at event %d: %s)' % (v['why'], v['at'], body_text(evs[i][v['at'] - 1])[:120]) if v['r'] != 'ok' else '', w), files, key='check-%s-%s' % (v['r'], v['why']))
    c.traces(n)
    for j in jobs[:3]: c.sample('%s: %s' % (j[2]['r'], j[1]['main.c'][:400]))
