"""Preprocessing cases: file sets, generators, the prediction of spec/CPre.tla and the comparison
with what `wcc -E` prints."""
import json, os, random, re, shutil
import vf

def case(files, tri=False, defs=(), incs=(), what=''):
    """files: [(path, text)], the first is the main file; defs: [(name, replacement)]; incs: directories"""
    return dict(files=[dict(path=p, dir=p[:p.rfind('/') + 1], text=list(t)) for p, t in files], tri=tri,
                defs=[dict(name=n, text=list(t)) for n, t in defs], incs=[d + '/' for d in incs], _what=what)

def predict(c, cases, batch=250, par=4):
    from concurrent.futures import ThreadPoolExecutor
    def one(k):
        out = vf.subdir('pre%d' % random.getrandbits(30))
        json.dump([{a: b for a, b in x.items() if a[0] != '_'} for x in cases[k:k + batch]], open(out + '.json', 'w'))
        r = vf.tlc('CPre', env=dict(VF_PROGS=out + '.json', VF_OUT=out), timeout=850, xmx='3g', workers=3)
        return r, [json.load(open('%s/%d' % (out, j + 1))) for j in range(len(cases[k:k + batch]))]
    res = []
    with ThreadPoolExecutor(par) as ex:
        for r, o in ex.map(one, range(0, len(cases), batch)):
            if c: c.add_tlc(r)
            res += o
    return res

# ---- tokens of printed output
TOK = re.compile(r'''(?P<ws>[ \t\f\r\v]+)|(?P<lit>L?"(?:\\.|[^"\\\n])*"|L?'(?:\\.|[^'\\\n])*')|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<num>\.?[0-9](?:[eE][+-]|[A-Za-z_0-9.])*)'''
                 r'''|(?P<com>//|/\*)|(?P<op>\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[*/%+\-&^|]=|\#\#|.)''')
MARK = re.compile(r'# (\d+) "([^"]*)"')
def out_tokens(text):
    """[(spelling, line, file)] or None if the output contains a comment"""
    line, name, res = 1, '', []
    for l in text.split('\n'):
        m = MARK.match(l)
        if m: line, name = int(m.group(1)), m.group(2); continue
        if l.startswith('#pragma'): line += 1; continue
        for t in TOK.finditer(l):
            if t.lastgroup == 'ws': continue
            if t.lastgroup == 'com': return None
            res.append((t.group(), line, name))
        line += 1
    return res

def groups(toks, spans):
    """widen the lines of tokens that share source lines with a construct that spans several lines"""
    iv = {}
    for f, l, m in [(t[3], t[1], max(t[1], t[2])) for t in toks] + [tuple(x) for x in spans]:
        if m > l: iv.setdefault(f, []).append([l, m])
    for f in iv:
        o = []
        for l, m in sorted(iv[f]):
            if o and l <= o[-1][1]: o[-1][1] = max(o[-1][1], m)
            else: o.append([l, m])
        iv[f] = o
    def wide(f, l, m):
        for a, b in iv.get(f, ()):
            if a <= l <= b: return a, b
        return l, m
    return [(s, *wide(f, l, m), f) for s, l, m, f, _ in toks]

UNSPEC = {'redefinition'}
def judge(exp, rc, out, err, timeout, base=''):
    """None or what is wrong. base: prefix of the real paths, to be removed from printed names."""
    if timeout: return 'the preprocessor does not terminate'
    if rc < 0 or rc > 1: return 'the preprocessor ends with status %d' % rc
    if exp['err']:
        if rc == 0: return 'accepted, but the specification rejects it (%s at %s:%d)' % (exp['err'], exp['efile'], exp['eline'])
        m = re.search(r'^(.*?):(\d+):(?: |\d+: )(?:fatal )?error', err.replace(base, ''), re.M)
        if not m: return 'rejected without a located message: ' + err[:200]
        lo, hi = exp['eline'], max(exp['eline'], exp['emax'])
        if exp['err'] in ('unterminated if', 'unterminated invocation', 'unterminated comment'): return None
        if m.group(1) != exp['efile'] or not lo <= int(m.group(2)) <= hi:
            return 'the message names %s:%s, the error (%s) is at %s:%d' % (m.group(1), m.group(2), exp['err'], exp['efile'], exp['eline'])
        return None
    if rc: return 'rejected: ' + err[:300]
    got = out_tokens(out.replace(base, ''))
    if got is None: return 'the output contains the start of a comment'
    want = exp['out']
    for k in range(max(len(got), len(want))):
        g = got[k][0] if k < len(got) else None
        w = want[k][0] if k < len(want) else None
        if k < len(want) and want[k][4] and g and g.isdigit() and want[k][1] <= int(g) <= want[k][2]: continue
        if g != w:
            return 'token %d is %s, the specification gives %s (after %s)' % (k + 1, g, w, ' '.join(x[0] for x in want[max(0, k - 6):k]))
    for k, (g, w) in enumerate(zip(got, groups(want, exp['spans']))):
        if g[2] != w[3] or not w[1] <= g[1] <= w[2]:
            return 'token %d (%s) is printed as from %s:%d, it is from %s:%d' % (k + 1, g[0], g[2], g[1], w[3], w[1])
    return None

def write(d, x):
    for f in x['files']:
        p = os.path.join(d, f['path'])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', newline='') as o: o.write(''.join(f['text']))

def argv(x, d, cc):
    a = [cc, '-E'] + (['-std=c89', '-pedantic', '-undef', '-w'] if cc == 'gcc' and x['tri'] else ['-std=gnu99', '-undef', '-w'] if cc == 'gcc' else ['--trigraphs'] if x['tri'] else [])
    a += ['-D%s=%s' % (m['name'], ''.join(m['text'])) for m in x['defs']] + [a for i in x['incs'] for a in ('-I', os.path.join(d, i[:-1]))]
    return a + [os.path.join(d, x['files'][0]['path'])]

def run_case(x, name, cc=None):
    d = vf.jobdir(name)
    write(d, x)
    r = vf.run(argv(x, d, cc or vf.wcc_path()), timeout=10, mem=1 << 30)
    return r, d

def twice(e, r, d):
    """None or what is wrong with preprocessing the output again, which must change nothing"""
    if e['err']: return None
    body = [l for l in r.out.split('\n') if not MARK.match(l)]
    if any(l.lstrip().startswith('#') or l.endswith('\\') for l in body): return None
    p = os.path.join(d, 'out.c')
    with open(p, 'w', newline='') as o: o.write(r.out)
    r2 = vf.run([vf.wcc_path(), '-E', p], timeout=10, mem=1 << 30)
    if r2.rc or r2.timeout: return 'the output is rejected when preprocessed again: ' + r2.err[:200]
    a, b = out_tokens(r.out), out_tokens(r2.out)
    if a != b:
        k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
        return 'preprocessing the output again changes token %d: %s' % (k + 1, (a + [None])[k:k + 1] + (b + [None])[k:k + 1])
    return None

def check_cases(c, cases, exps=None, what=''):
    exps = exps or predict(c, cases)
    def one(k):
        x, e = cases[k], exps[k]
        if e['fl']:
            for f in e['fl']: c.count('without one meaning: ' + f)
            return
        for again in (0, 1):
            r, d = run_case(x, '%s%d' % (what, k))
            bad = judge(e, r.rc, r.out, r.err, r.timeout, d + '/') or twice(e, r, d)
            if not bad: break
        c.traces(1)
        c.count('rejected cases' if e['err'] else 'tokens compared', 1 if e['err'] else len(e['out']))
        if bad:
            files = {f['path'].replace('/', '_'): ''.join(f['text']) for f in x['files']}
            files['command.txt'] = ' '.join(argv(x, 'DIR', 'wcc')) + '\n'
            c.violation('%s: %s' % (x['_what'] or what, bad), files, key=x['_what'] or '%s%d' % (what, k))
        shutil.rmtree(d, ignore_errors=True)
    vf.pmap(one, list(range(len(cases))))
    return exps

# ---- generators
OPS = ['+', '-', '*', '/', '&', '|', '<', '>', '=', '!', '.', ',', ';', '(', ')', '++', '--', '<<', '>>', '->', '==', '&&', '||', '+=', '<<=', '...', '~', '?', ':', '%', '^', '[', ']', '{', '}', '@', '$', '\\', '`']

class Macros:
    """random macro definitions and invocations"""
    def __init__(s, r):
        s.r = r
        s.obj = r.sample(['A', 'B', 'C', 'D', 'x', 'if', 'line'], r.randint(1, 4))
        s.fn = {n: [] for n in r.sample(['f', 'g', 'h', 'cat', 'str', 'E'], r.randint(1, 4))}
        for n in s.fn: s.fn[n] = r.sample(['a', 'b', 'c', 'x'], r.choice([0, 1, 1, 1, 2, 2, 3]))
    def gap(s, p=.75): return s.r.choice([' ', ' ', '  ', '/**/', '\t']) if s.r.random() < p else ''
    def word(s):
        r = s.r
        q = r.random()
        if q < .3: return r.choice(s.obj)
        if q < .5: return r.choice(list(s.fn))
        if q < .6: return r.choice(['q', 'z', 'x1', 'define', 'else', '_', 'L', 'u'])
        if q < .72: return r.choice(['1', '2', '0x1', '1e', '.5', '1.', '3u', '10L', '1e+5', '0'])
        if q < .78: return r.choice(['"s"', '"a b"', '"\\n"', '"\\\\"', '"\\""', "'c'", "'\\''", "'\"'", '"\'"', 'L"w"', "L'w'"])
        return r.choice(OPS[:11]) if r.random() < .7 else r.choice([o for o in OPS if o not in '()\\'])
    def sp(s, a, b):
        """text b after a: keep words apart"""
        g = s.gap(.55)
        if not g and a and b and (a[-1].isalnum() or a[-1] in '_.') and (b[0].isalnum() or b[0] in '_."\''): g = ' '
        if not g and a and b and not a[-1].isalnum() and not b[0].isalnum() and a[-1] not in '()' and b[0] not in '()': g = ' '
        if not g and a and a[-1] == '/' : g = ' '
        return a + g + b
    def seq(s, n, item):
        t = ''
        for _ in range(n): t = s.sp(t, item())
        return t
    def call(s, depth, nl):
        r = s.r
        n = r.choice(list(s.fn)); k = len(s.fn[n])
        if r.random() < .004: k += 1
        def arg():
            if r.random() < .45: return r.choice(['', 'q', '1', 'x2'] + s.obj + list(s.fn))
            return s.text(r.choice([0, 1, 1, 1, 2, 2, 3]), depth - 1, nl)
        args = [arg() for _ in range(k)]
        sep = lambda: (r.choice(['\n', ' \n ']) if nl and r.random() < .15 else s.gap(.3))
        return n + (sep() if r.random() < .3 else '') + '(' + sep() + (',' + s.gap(.5)).join(a + sep() for a in args) + ')'
    def text(s, n, depth, nl=False):
        r = s.r
        def item():
            q = r.random()
            if q < .4 and depth > 0: return s.call(depth, nl)
            if q < .47 and depth > 0: return '(' + s.text(r.randint(0, 2), depth - 1, nl) + ')'
            w = s.word()
            while w in (',', ')', '(') : w = s.word()
            return w
        return s.seq(n, item)
    def operand(s, ps, left):
        """something that can be pasted: mostly gives a valid token"""
        r = s.r
        if ps and r.random() < .6: return r.choice(ps)
        return r.choice(s.obj + list(s.fn) + ['q', '_1', 'x'] + ([] if left else ['1', '2x', '0']))
    def body(s, ps):
        r = s.r
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
        t = ''
        for k in range(n):
            q = r.random()
            if q < .14:
                w = s.operand(ps, True)
                for _ in range(r.choice([1, 1, 1, 2])): w += s.gap(.6) + '##' + s.gap(.6) + s.operand(ps, False)
            elif q < .17: w = r.choice(['+ ## +', '< ## <', '- ## >', '< ##=', '1 ## 2', '. ## 5', '1e ## +', '1 ## .', '# ## #', "L ## 'c'", 'L ## "s"', '0x ## f', '| ##|', '= ## ='])
            elif ps and q < .5: w = r.choice(ps)
            elif ps and q < .6: w = '#' + s.gap(.2) + r.choice(ps)
            elif q < .7: w = s.call(1, False).replace('\n', ' ')
            else: w = s.word()
            t = s.sp(t, w)
        if ps is not None and '#' in t.replace('# ## #', '') and False: pass
        return t if ps is None or '# ## #' not in t else t.replace('# ## #', '')
    def define(s, n):
        ps = s.fn.get(n)
        h = '#define ' + n + ('' if ps is None else '(' + s.gap(.1) + (',' + s.gap(.4)).join(p + s.gap(.05) for p in ps) + ')')
        b = s.body(ps)
        return h + (' ' + b if b else '') + '\n'
    def file(s, lines=4):
        r = s.r
        t = ''
        for n in list(s.obj) + list(s.fn): t += s.define(n)
        for _ in range(lines): t += s.text(r.randint(1, 5), 3, True) + '\n'
        if r.random() < .3:
            n = r.choice(list(s.obj) + list(s.fn))
            t += '#undef %s\n%s' % (n, s.define(n)) + s.text(r.randint(1, 5), 3, True) + '\n'
        return t

def macros(seed):
    r = random.Random(seed)
    return case([('t.c', Macros(r).file())], what='macros %d' % seed)

# every set of one object-like and one function-like macro with short bodies, on a fixed text
def small_macros():
    bodies_o = ['', 'f', 'A', 'f(', 'f ( A )', '1', '( 2', 'x f']
    toks = ['x', 'A', 'f', '#x', '(', ')', '1', '##', 'f(x)', 'y,']
    import itertools
    bf = [' '.join(b) for n in (0, 1, 2, 3) for b in itertools.product(toks, repeat=n)]
    ok = [b for b in bf if not b.startswith('##') and not b.endswith('##') and '## ##' not in b and '## #x' not in b and '#x ##' not in b]
    return [case([('t.c', '#define A%s\n#define f(x) %s\n%s\n' % (' ' + o if o else '', b, t))], what='A = %s, f(x) = %s, text %s' % (o, b, t))
            for o in bodies_o for b in ok for t in ('f(1) A', 'f(A)(2)', 'f(f)(A)', 'A(f(1))', 'f()f(f(3))')]

class Lines:
    """random directive histories over several files"""
    def __init__(s, r):
        s.r = r
        s.names = r.sample(['A', 'B', 'C', 'D', 'else', 'EE', 'F1'], 4)
        s.n = 0
        s.incs = []
        s.bad = r.random() < .12      # allow one structural mistake
    def mark(s):
        s.n += 1
        return 'm%d' % s.n
    def num(s):
        r = s.r
        return r.choice(['0', '1', '2', '3', '-1', '7', '0x10', '010', '1u', '2L', '3UL', "'a'", "'\\n'", '0xffffffffffffffff', '9223372036854775807', '-1', '4294967296', '0u'] + s.names * 2 + ['undefined_name', '__LINE__'])
    def expr(s, d=2):
        r = s.r
        q = r.random()
        if d == 0 or q < .2: return s.num()
        if q < .4:
            n = r.choice(s.names + ['zz', '__FILE__'])
            return r.choice(['defined %s', 'defined(%s)', 'defined ( %s )', '!defined %s', '!defined(%s)']) % n
        if q < .5: return r.choice(['!', '-', '~', '+']) + ' ' * r.randint(0, 1) + s.par(d - 1)
        if q < .6: return '%s ? %s : %s' % (s.par(d - 1), s.expr(d - 1), s.expr(d - 1))
        op = r.choice(['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '==', '!=', '<', '>', '<=', '>=', '&&', '||', '&&', '||', '=='])
        if op in ('<<', '>>'): return '%s %s %s' % (s.par(d - 1), op, r.choice(['0', '1', '3', '31', '32', '63']))
        a, b = s.expr(d - 1), s.expr(d - 1)
        if '?' in b or '?' in a: a, b = '(%s)' % a, '(%s)' % b
        sp = r.choice([' ', ' ', ' ', ''])
        if sp == '' and b[0] in '-+&': sp = ' '
        return a + sp + op + sp + b
    def par(s, d):
        e = s.expr(d)
        return e if re.match(r'^[A-Za-z0-9_\']+$', e) else '(%s)' % e
    def hash(s):
        r = s.r
        return r.choice(['#', '#', '#', '# ', ' #', '\t# ', '/* c */ # ', '#/**/'])
    def com(s): return s.r.choice(['', '', '', '', ' ', ' /* c */', ' // c', '\t', ' /* a\n b */'])
    def text(s):
        r = s.r
        q = r.random()
        if q < .45: return '%s %s\n' % (s.mark(), ' '.join(r.sample(s.names, r.randint(0, 3))))
        if q < .55: return '%s __LINE__ __FILE__\n' % s.mark()
        if q < .65: return r.choice(['', '\n', '\n\n', '\n' * 10, '/* a\n\n b */\n', '// c\n', '  \n'])
        if q < .72: return '%s \\\n  %s\n' % (s.mark(), s.mark())
        if q < .79: return s.mark() + ' /* x\n y */ ' + s.mark() + ' __LINE__\n'
        if q < .85: return r.choice(s.names) + ' G(' + s.mark() + '\n,' + r.choice(s.names) + '\n) ' + s.mark() + '\n'
        return s.mark() + r.choice([' # else', ' #endif', ' "#else"', " '#'", ' a # # b', ' # if 0', ' if else endif', ' /* #else */', ' "/*" 1']) + '\n'
    def junk(s):
        """lines of a skipped group that mean nothing there"""
        r = s.r
        return s.hash() + r.choice(['foo bar', 'error no', 'define', 'define 3', 'undef', 'include "nosuch"', 'include', 'line x', 'if 1 +', '12', '33 "x"', 'ifdef', 'warning w', '', "error it's", 'if \'x', 'elif0 "']) if r.random() < .6 else s.mark() + r.choice(['', " don't", ' "', ' \'"', ' L\'', ' "a\\', ' "\\"'])
    def block(s, depth, n, skipped=False):
        r = s.r
        t = ''
        for _ in range(n):
            q = r.random()
            if q < .4: t += s.text()
            elif q < .55:
                k = r.choice(s.names)
                t += s.hash() + 'undef ' + k + s.com() + '\n' if r.random() < .35 else '#undef %s\n' % k + s.hash() + 'define %s%s\n' % (k, r.choice(['', ' ', ' 1', ' 0', ' 2 ', ' (1)', ' ' + r.choice(s.names), ' 1 +', ' __LINE__', ' -1', ' /* c */ 3', ' 1 \\\n + 1']))
            elif q < .8 and depth: t += s.cond(depth - 1)
            elif q < .86 and s.incs: t += s.hash() + 'include ' + r.choice(s.incs) + s.com() + '\n'
            elif q < .9: t += s.hash() + 'line ' + r.choice(['%d', '%d "l.c"', '%d  "d/m.c"', 'N%d', '0%d']) % r.randint(1, 400) + '\n' if r.random() < .9 else '#define Q 77 "q.c"\n#line Q\n#undef Q\n'
            elif q < .93: t += r.choice(['#\n', '#pragma p q\n', '# \n', '#warning w\n', '#pragma\n', "#warning don't\n", '#pragma "\n', '# pragma it\'s\n'])
            elif q < .94 and s.bad: t += r.choice(['#else\n', '#endif\n', '#elif 1\n', '#error e\n', '#if\n', '#if 1 +\n', '#if 1 2\n', '#ifdef\n', '#if (1\n', '#foo\n', '#include "nosuch.h"\n', '#define f(a,a)\n', '#define 1\n', '#undef\n', '#if 1\n', '#line x\n', '#ifdef 3\n',
                                                 '#if 1/0\n', '#define h(x) #y\n', '#define A ##\n', '#if 1.5\n', '#if "a"\n', '#elif\n', '#if defined\n', '#if defined(\n', '#if 1\n#else\n#elif 1\n#endif\n', '#if 0\n#else\n#else\n#endif\n', '#include\n', '#line\n', '#define f(\n', '#define f(a\n', '#define f(a b)\n', '#line 1x\n', '#line 5 6\n', '#line 5 L"a"\n', '#line 0x3\n', '#define f(a) #b\n', '#define f(a) a #\n', '#if 08\n', '#if 1x\n', '#if 0x\n', '#if 1uu\n', '#if a.b\n', '#if 1,2\n', '#if a=1\n', '#if 1++\n', '#if @\n', '#if 1?2\n', '#if L\n#elif 1)\n', '#if ()\n', '/* x\n', 'a /*/ b\n', '#endif /* x\n', '# /* x\n', '#include <h\n', '#include "h\n'])
            else: t += s.text()
        return t
    def cond(s, depth):
        r = s.r
        q = r.random()
        def head(w): return s.hash() + w + ' ' + s.expr() + s.com() + '\n'
        t = head('if') if q < .6 else s.hash() + r.choice(['ifdef', 'ifndef']) + ' ' + r.choice(s.names + ['zz']) + s.com() + '\n'
        def part():
            b = s.block(depth, r.randint(0, 3))
            return b + (s.junk() + '\n' if False else '')
        t += part()
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])): t += head('elif') + part()
        if r.random() < .6: t += s.hash() + 'else' + s.com() + '\n' + part()
        if r.random() < .25:     # a group that is certainly skipped, with anything in it
            t = '#if 0\n' + ''.join(s.junk() + '\n' for _ in range(r.randint(1, 3))).replace('if 1 +\n', 'if 1 +\n#endif\n').replace('ifdef\n', 'ifdef\n#endif\n').replace("if 'x\n", "if 'x\n#endif\n") + r.choice(['#elif 1\n', '#else\n']) + s.text() + '#endif\n' + t
        if s.bad and r.random() < .08: return t
        return t + s.hash() + 'endif' + s.com() + '\n'

def directives(seed):
    r = random.Random(seed)
    s = Lines(r)
    files = []
    dirs = ['', 'd/', 'e/']
    nh = r.randint(0, 3)
    for k in range(nh):
        d = r.choice(dirs)
        guard = 'H%d' % k
        t = s.block(2, r.randint(1, 4))
        if r.random() < .5: t = '#ifndef %s\n#define %s\n%s#endif\n' % (guard, guard, t)
        if r.random() < .15: t = t.rstrip('\n')
        files.append(('%sh%d.h' % (d, k), t))
        if r.random() < .2 and d: files.append(('h%d.h' % k, s.block(1, 2)))
        s.incs += ['"h%d.h"' % k, '"%sh%d.h"' % (d, k), '<h%d.h>' % k]
        if r.random() < .3: s.incs.append('I%d' % k)
    inc = [r.choice(['"h%d.h"', '<h%d.h>', '"h%d.h"', 'LT h%d.h>', 'ANGLE(h%d)']) % k for k in range(nh)]
    main = '#define G(x,y) y x\n' + '#define LT <\n#define ANGLE(x) <x.h>\n' * any('LT' in i or 'AN' in i for i in inc) + ''.join('#define I%d %s\n' % (k, i) for k, i in enumerate(inc)) + ''.join('#define N%d %d\n' % (k, k * 3) for k in range(0)) + s.block(3, r.randint(3, 8))
    # files named by #include but not found are an error; -I for both directories usually
    incs = r.choice([['d', 'e'], ['e', 'd'], ['d', 'e'], ['d']])
    defs = [(n, r.choice(['1', '0', '5'])) for n in s.names if r.random() < .2]
    if r.random() < .1: main = main.rstrip('\n')
    return case([('t.c', main)] + files, defs=defs, incs=incs, what='directives %d' % seed)

# ---- token soups: phases 1 to 3
SOUP = OPS + ['a', 'b1', 'L', '_x', 'if', '0', '1', '1.', '.5', '1e', '1e+', '0x1p-3', '0xe+1', '1.2.3', '09', '"s"', "'c'", 'L"w"', "L'w'", '"\\""', "'\\''", '"\\\\"', '"/*"', '"//"', "'/*'", '""', '...', '..', '.', '%=', '&=', '^=', '|=', '*=', '/=', '-=', '>>=', '>>', '<=', '>=', '!=', '#', '##', '"??=', '??', '?', '??/', '??=', "??'", '"??/"', '??!??!', '"a??/\\"']
def soup(seed):
    r = random.Random(seed)
    tri = r.random() < .5
    def piece():
        q = r.random()
        if q < .62: return r.choice(SOUP)
        if q < .75: return r.choice(['/* c */', '/**/', '/*/ a */', '// x\n', '/* a\n b */', '/* " */', "// don't\n", '/***/'])
        if q < .85: return r.choice([' ', '\t', '\f', '\v', '  '])
        if q < .93: return '\n'
        return r.choice(['\\\n', '\\\n\\\n', '??/\n', ' \\\n '])
    t = ''.join(piece() for _ in range(r.randint(5, 60))) + '\n'
    if r.random() < .6: t = re.sub(r'(?m)^([ \t\f\v]*)#', r'\1a#', t)
    return case([('t.c', t)], tri=tri, what='soup %d' % seed)
