"""Programs of the abstract machine spec/CMachine.tla: construction, C text, running."""
import json, os, re, random
import vf

WM = (1 << 64) - 1
def limbs(v): v &= WM; return [v & 65535, v >> 16 & 65535, v >> 32 & 65535, v >> 48]
INTS = ['c', 'uc', 's', 'us', 'i', 'u', 'l', 'ul']
SZ = dict(c=1, uc=1, s=2, us=2, i=4, u=4, l=8, ul=8, f=4, d=8, ld=16)
SIGNED = {'c', 's', 'i', 'l'}
CN = dict(c='char', uc='unsigned char', s='short', us='unsigned short', i='int', u='unsigned int', l='long', ul='unsigned long',
          f='float', d='double', ld='long double')
SPELL = dict(uc=['unsigned char'], s=['short', 'short int', 'signed short int'], us=['unsigned short'], i=['int', 'signed', 'signed int'],
             u=['unsigned', 'unsigned int'], l=['long', 'long int', 'signed long'], ul=['unsigned long', 'unsigned long int'])

# ---- types
def I(n): return dict(c='int', n=n)
def F(n): return dict(c='flt', n=n)
def P(t): return dict(c='ptr', to=t)
def A(n, t): return dict(c='arr', len=n, of=t)
def SU(tag): return dict(c='su', tag=str(tag))
def FN(ret, ps, var=False): return dict(c='fn', ret=ret, ps=ps, var=var)
VOID = dict(c='void')
VA = dict(c='va')
NONE = dict(k='none')

# ---- expressions
def num(v, n='i'):
    v &= WM
    if n == 'i': v = ((v + (1 << 31)) & 0xffffffff) - (1 << 31)
    return dict(k='num', n=n, w=limbs(v), _v=v)
def fnum(v, n='d'): return dict(k='fnum', n=n, w=limbs(v), _v=v)
def idn(x): return dict(k='id', x=x)
def un(op, a): return dict(k='un', op=op, a=a)
def bi(op, a, b): return dict(k='bin', op=op, a=a, b=b)
def lg(op, a, b): return dict(k='log', op=op, a=a, b=b)
def cond(a, b, c): return dict(k='cond', a=a, b=b, c=c)
def comma(a, b): return dict(k='comma', a=a, b=b)
def asg(a, b, op=''): return dict(k='asg', op=op, a=a, b=b)
def inc(a, op='++', post=True): return dict(k='inc', op=op, post=post, a=a)
def cast(t, a): return dict(k='cast', t=t, a=a)
def idx(a, b): return dict(k='idx', a=a, b=b)
def mem(a, x, arrow=False): return dict(k='mem', a=a, x=x, arrow=arrow)
def deref(a): return dict(k='deref', a=a)
def addr(a): return dict(k='addr', a=a)
def call(f, *as_): return dict(k='call', f=idn(f) if isinstance(f, str) else f, **{'as': list(as_)})
def soe(a): return dict(k='sizeofe', a=a)
def sot(t): return dict(k='sizeoft', t=t)

class Prog:
    def __init__(s, rng=None):
        s.s, s.fns, s.tags, s.strs, s.units, s.statics, s.exts = [], [], {}, [], [], [], []
        s.main = 0; s.nobs = 0; s.ndecl = 0
        s.rng = rng or random.Random(1)
        s.tagname = {}
        s.unit()
    def unit(s):
        s.units.append(dict(ds=[])); return len(s.units)
    def st(s, k, **f):
        s.s.append(dict(k=k, **f)); return len(s.s)
    def expr(s, e): return s.st('expr', e=e)
    def obs(s, e, n=''):
        s.nobs += 1
        return s.st('expr', e=dict(k='obs', id=s.nobs, n=n, a=e))
    def obse(s, e, n=''):
        s.nobs += 1
        return dict(k='obs', id=s.nobs, n=n, a=e)
    def block(s, ss): return s.st('block', ss=list(ss))
    def if_(s, e, th, el=0): return s.st('if', e=e, th=th, el=el)
    def ret(s, e=None): return s.st('return', e=e or dict(k='none'))
    def d(s, dk, x='', t=None, sc='', init=None, f=0, cs=(), tag='0', **kw):
        s.ndecl += 1
        return dict(dk=dk, x=x, t=t or VOID, sc=sc, init=init or NONE, f=f, cs=list(cs), tag=str(tag), id=s.ndecl, **kw)
    def decl(s, d): return s.st('decl', d=d)
    def local(s, x, t, init=None, sc=''): return s.decl(s.d('var', x, t, sc, init))
    def ext(s, x, t, u, noext=False):
        """block-scope declaration of an entity with linkage"""
        s.exts.append(dict(ent=len(s.exts) + 1, x=x, u=u))
        return s.decl(s.d('ext', x, ent=len(s.exts), _t=t, _noext=noext))
    def static(s, x, t, init, u):
        """static local"""
        d = s.d('var', x, t, 'static', init); s.statics.append(dict(d=d, u=u)); return s.decl(d)
    def tag(s, kind, members, packed=False, name=None):
        g = str(len(s.tags) + 1)
        s.tags[g] = dict(kind=kind, packed=packed, mem=members)
        s.tagname[g] = name or 'T' + g
        return g
    def string(s, bs):
        s.strs.append(list(bs) + [0])
        return dict(k='str', n=len(s.strs), len=len(bs) + 1, _b=bytes(bs))
    def glob(s, x, t, init=None, sc='', u=1):
        d = s.d('var', x, t, sc, init); s.units[u - 1]['ds'].append(d); return d
    def fn(s, x, t, params, body, sc='', u=1, proto=False):
        s.fns.append(dict(ps=[dict(x=n, t=pt) for n, pt in params], body=body, unit=u, ret=t['ret'], var=t['var']))
        f = len(s.fns)
        s.units[u - 1]['ds'].append(s.d('fn', x, t, sc, f=f))
        if x == 'main': s.main = f
        return f
    def proto(s, x, t, sc='', u=1): s.units[u - 1]['ds'].append(s.d('fn', x, t, sc))
    def json(s):
        return strip(dict(s=s.s, fns=s.fns, tags=s.tags, strs=s.strs, units=s.units, statics=s.statics, exts=s.exts, main=s.main))

    # ------------------------------------------------------------ rendering
    def spell(s, n): return s.rng.choice(SPELL[n]) if n in SPELL and s.rng.random() < .2 else CN[n]
    def dcl(s, t, x=''):
        """C declaration of x with type t (abstract if x is empty)."""
        c = t['c']
        if '_nm' in t: return (t['_nm'] + ' ' + x).rstrip()
        if c in ('int', 'flt'): return (s.spell(t['n']) + ' ' + x).rstrip()
        if c == 'void': return ('void ' + x).rstrip()
        if c == 'va': return ('va_list ' + x).rstrip()
        if c == 'su' and t.get('_def'): return (s.tagdef(t['tag']) + ' ' + x).rstrip()
        if c == 'su': return ('%s %s %s' % (s.tags[t['tag']]['kind'], s.tagname[t['tag']], x)).rstrip()
        if c == 'sun': return ('%s %s %s' % (t['_kw'], t['x'], x)).rstrip()
        if c == 'tdn': return (t['x'] + ' ' + x).rstrip()
        if c == 'enum': return ('enum %s %s' % (t['_n'], x)).rstrip()
        if c == 'ptr':
            i = '*' + x
            return s.dcl(t['to'], '(' + i + ')' if t['to']['c'] in ('arr', 'fn') else i)
        if c == 'arr':
            n = s.e(t['le']) if 'le' in t else '' if t['len'] < 0 or t.get('_flex') else t['len']
            return s.dcl(t['of'], '%s[%s]' % (x, n))
        if c == 'fn':
            ps = [s.dcl(p, n) for p, n in zip(t['ps'], t.get('_pn') or [''] * len(t['ps']))] + (['...'] if t['var'] else [])
            return s.dcl(t['ret'], '%s(%s)' % (x, ', '.join(ps) or 'void'))
        raise Exception(c)
    def fnhead(s, f, x):
        fn = s.fns[f - 1]
        if fn.get('_kr'):
            return s.dcl(fn['ret'], '%s(%s)' % (x, ', '.join(p['x'] for p in fn['ps']))) + ' ' + ' '.join(s.dcl(p['t'], p['x']) + ';' for p in (fn['ps'][::-1] if fn['_kr'] > 1 else fn['ps']))
        ps = [s.dcl(p['t'], p['x']) for p in fn['ps']] + (['...'] if fn['var'] else [])
        return s.dcl(fn['ret'], '%s(%s)' % (x, ', '.join(ps) or 'void'))
    def tagdef(s, g, kw=True):
        d = s.tags[g]
        out = []
        for m in d['mem']:
            if 'we' in m: out.append('%s : %s;' % (s.dcl(m['t'], m['x']), s.e(m['we'], 2)))
            elif 'w' in m: out.append('%s : %d;' % (s.dcl(m['t'], m['x']), m['w']))
            elif m['x'] == '': out.append(s.anon(m['t']) + ';')
            else: out.append(s.dcl(m['t'], m['x']) + ';')
        return '%s%s %s { %s }' % (d['kind'], ' __attribute__((packed))' if d['packed'] else '', s.tagname[g], ' '.join(out))
    def anon(s, t):
        x = s.tagdef(t['tag'])
        return x.replace(' ' + s.tagname[t['tag']] + ' {', ' {', 1)

    def lit(s, e):
        v, n = e['_v'], e['n']
        suf = dict(i='', u='u', l='L', ul='UL')[n]
        if v < 0: return '(%d%s)' % (v, suf) if v != -(1 << 31) else '(-2147483647 - 1)'
        lim = dict(i=1 << 31, l=1 << 63, u=1 << 32, ul=1 << 64)[n]
        r = s.rng.random()
        if n == 'i' and 32 <= v < 127 and v not in (39, 92) and r < .15: return "'%c'" % v
        if r < .25: return '0x%x%s' % (v, suf)
        if r < .3 and v: return '0%o%s' % (v, suf)
        return '%d%s' % (v, suf)
    LV = {'||': 3, '&&': 4, '|': 5, '^': 6, '&': 7, '==': 8, '!=': 8, '<': 9, '>': 9, '<=': 9, '>=': 9, '<<': 10, '>>': 10, '+': 11, '-': 11, '*': 12, '/': 12, '%': 12}
    def e(s, e, lv=0):
        t, p = s.e2(e)
        if p < lv or (p < 15 and s.rng.random() < .04): t = '(' + t + ')'
        return t
    def pre(s, op, t): return op + (' ' if t[:1] == op[-1:] or (op == '&' and t[:1] == '&') else '') + t
    def e2(s, e):
        k = e['k']
        if '_txt' in e: return e['_txt'], 15
        if k == 'num':
            t = s.lit(e); return t, 15
        if k == 'fnum':
            t = '%d.0%s' % (abs(e['_v']), dict(f='f', d='', ld='L')[e['n']])
            return ('(-' + t + ')' if e['_v'] < 0 else t), 15
        if k == 'id': return e['x'], 15
        if k == 'str': return '"' + ''.join(chr(b) if 32 <= b < 127 and b not in (34, 92, 63) else '\\%03o' % b for b in e['_b']) + '"', 15
        if k == 'un': return s.pre(e['op'], s.e(e['a'], 13)), 13
        if k == 'addr': return s.pre('&', s.e(e['a'], 13)), 13
        if k == 'deref': return '*' + s.e(e['a'], 13), 13
        if k == 'idx': return '%s[%s]' % (s.e(e['a'], 14), s.e(e['b'])), 14
        if k == 'mem': return '%s%s%s' % (s.e(e['a'], 14), '->' if e['arrow'] else '.', e['x']), 14
        if k in ('bin', 'log'):
            l = s.LV[e['op']]
            return '%s %s %s' % (s.e(e['a'], l), e['op'], s.e(e['b'], l + 1)), l
        if k == 'cond': return '%s ? %s : %s' % (s.e(e['a'], 3), s.e(e['b'], 0), s.e(e['c'], 2)), 2
        if k == 'comma': return '%s, %s' % (s.e(e['a'], 0), s.e(e['b'], 1)), 0
        if k == 'asg': return '%s %s= %s' % (s.e(e['a'], 13), e['op'], s.e(e['b'], 1)), 1
        if k == 'inc':
            if e['post']: return s.e(e['a'], 14) + e['op'], 14
            return e['op'] + s.e(e['a'], 13), 13
        if k == 'cast': return '(%s)%s' % (s.dcl(e['t']), s.e(e['a'], 13)), 13
        if k == 'sizeofe':
            a = e['a']
            return 'sizeof ' + s.e(a, 14 if a['k'] == 'cast' else 13), 13
        if k == 'sizeoft': return 'sizeof(%s)' % s.dcl(e['t']), 13
        if k == 'call':
            f = e['f']
            # the call of the designated function, or through the (dereferenced) pointer
            return '%s(%s)' % (s.e(f, 14), ', '.join(s.e(a, 1) for a in e['as'])), 14
        if k == 'obs':
            a = s.e(e['a'], 1)
            return 'obs(%d, %s)' % (e['id'], '(%s)(%s)' % (CN[e['n']], a) if e['n'] else a), 14
        if k == 'vastart': return 'va_start(%s, %s)' % (s.e(e['a']), e['_last']), 14
        if k == 'vaend': return 'va_end(%s)' % s.e(e['a']), 14
        if k == 'vacopy': return 'va_copy(%s, %s)' % (s.e(e['a']), s.e(e['b'])), 14
        if k == 'vaarg': return 'va_arg(%s, %s)' % (s.e(e['a']), s.dcl(e['t'])), 14
        if k == 'none': return '', 15
        raise Exception(k)
    def init(s, i):
        if i['k'] == 'e': return s.e(i['e'], 1)
        return '{%s%s}' % (', '.join(s.init(x) for x in i['es']), ',' if s.rng.random() < .2 else '')
    def dtext(s, d):
        dk = d['dk']
        sc = d.get('_sc', d['sc'])
        sc = sc + ' ' if sc else ''
        q = d.get('_q', '')
        if d.get('_hid'): return ''
        if dk == 'td': return 'typedef %s;' % s.dcl(d['t'], d['x'])
        if dk == 'tag': return s.tagdef(d['tag']) + ';' if not d.get('_fwd') else '%s %s;' % (s.tags[d['tag']]['kind'], d['x'])
        if dk == 'enum': return 'enum %s{%s};' % (d.get('_n', '') + ' ' if d.get('_n') else '', ', '.join(c['x'] + (' = ' + s.e(c['e'], 2) if 'e' in c else ' = %d' % c['_v'] if 'v' in c else '') for c in d['cs']))
        if dk == 'ext': return '%s%s;' % ('' if d.get('_noext') else 'extern ', s.dcl(d['_t'], d['x']))
        if dk == 'fn' and d.get('_kr'): return '%s%s;' % (sc, s.dcl(d['t']['ret'], d['x'] + '()'))
        if dk == 'fn': return '%s%s;' % (sc, s.dcl(d['t'], d['x']))
        return '%s%s%s%s;' % (sc, q, s.dcl(d['t'], d['x']), '' if d['init']['k'] == 'none' else ' = ' + s.init(d['init']))
    def stm(s, id, ind, out):
        x = s.s[id - 1]; k = x['k']; t = '    ' * ind
        def sub(j):
            s.stm(j, ind + (s.s[j - 1]['k'] != 'block'), out)
        if k == 'expr': out.append(t + s.e(x['e']) + ';')
        elif k == 'empty': out.append(t + ';')
        elif k == 'decl':
            y = s.dtext(x['d'])
            if y: out.append(t + y)
        elif k == 'block':
            out.append(t + '{')
            for j in x['ss']: s.stm(j, ind + 1, out)
            out.append(t + '}')
        elif k == 'if' and x.get('pp'):
            out.append('#if ' + s.e(x['e'])); sub(x['th'])
            out.append('#else')
            if x['el']: sub(x['el'])
            out.append('#endif')
        elif k == 'if':
            out.append(t + 'if (%s)' % s.e(x['e']))
            # a dangling else belongs to the nearest if
            if x['el'] and s.dangling(x['th']):
                out.append(t + '{'); s.stm(x['th'], ind + 1, out); out.append(t + '}')
            else: sub(x['th'])
            if x['el']:
                out.append(t + 'else'); sub(x['el'])
        elif k == 'while': out.append(t + 'while (%s)' % s.e(x['e'])); sub(x['b'])
        elif k == 'do':
            out.append(t + 'do'); sub(x['b']); out.append(t + 'while (%s);' % s.e(x['e']))
        elif k == 'for':
            f = lambda y: '' if y.get('_empty') else s.e(y)
            out.append(t + 'for (%s; %s; %s)' % (f(x['i']), f(x['e']), f(x['st']))); sub(x['b'])
        elif k == 'switch': out.append(t + 'switch (%s)' % s.e(x['e'])); sub(x['b'])
        elif k == 'case': out.append(t + 'case %s:' % (x.get('_t') or 'e' in x and s.e(x['e'], 2) or s.lit(dict(_v=x['_v'], n=x.get('_n', 'i'))))); s.stm(x['b'], ind, out)
        elif k == 'default': out.append(t + 'default:'); s.stm(x['b'], ind, out)
        elif k == 'label': out.append(t + x['x'] + ':'); s.stm(x['b'], ind, out)
        elif k == 'goto': out.append(t + 'goto %s;' % x['x'])
        elif k in ('break', 'continue'): out.append(t + k + ';')
        elif k == 'return': out.append(t + ('return;' if x['e']['k'] == 'none' else 'return %s;' % s.e(x['e'])))
        else: raise Exception(k)
    def dangling(s, id):
        x = s.s[id - 1]
        if x['k'] == 'if': return not x['el'] or s.dangling(x['el'])
        if x['k'] in ('while', 'for', 'switch', 'case', 'default', 'label'): return s.dangling(x['b'])
        return False
    def text(s, u=1, decl=True):
        out = ['#include <stdarg.h>'] if getattr(s, 'stdarg', 0) else []
        if decl: out.append(vf.OBS_DECL)
        done = set()
        if not any(d['dk'] == 'tag' for d in s.units[u - 1]['ds']):
            out += [s.tagdef(g) + ';' for g in s.tags if not s.tags[g].get('_hidden')]
        for d in s.units[u - 1]['ds']:
            if d['dk'] == 'fn' and d['f']:
                sc = d['sc'] + ' ' if d['sc'] else ''
                out.append(sc + s.fnhead(d['f'], d['x']))
                s.stm(s.fns[d['f'] - 1]['body'], 0, out)
            else: out.append(s.dtext(d))
        return '\n'.join(out) + '\n'

def strip(x):
    if isinstance(x, dict): return {k: strip(v) for k, v in x.items() if k[0] != '_'}
    if isinstance(x, (list, tuple)): return [strip(v) for v in x]
    return x

def predict(progs, check=None, timeout=800, xmx='8g'):
    """Run the abstract machine on the programs: list of None (no specified behaviour) or the
    observations [(id, value)]."""
    out = vf.subdir('pred%d' % random.getrandbits(30))
    path = out + '.json'
    json.dump([p.json() for p in progs], open(path, 'w'))
    r = vf.tlc('CMachine', env=dict(VF_PROGS=path, VF_OUT=out), timeout=timeout, xmx=xmx)
    if check: check.add_tlc(r)
    res = []
    for k in range(1, len(progs) + 1):
        a, b = [json.load(open('%s/%d%s' % (out, k, o))) for o in ('lr', 'rl')]
        if a['ub'] or b['ub']: res.append((None, a['ub'] or b['ub']))
        elif a['out'] != b['out']: raise vf.ToolError('evaluation orders differ without a conflict: program %d' % k)
        else: res.append(([(o[0], o[1] | o[2] << 16 | o[3] << 32 | o[4] << 48) for o in a['out']], ''))
    return res, r

def trace(out):
    r = []
    for l in out.splitlines():
        w = l.split()
        if len(w) != 2: return None
        r.append((int(w[0]), int(w[1], 16)))
    return r
