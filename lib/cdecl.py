"""Declarations of spec/CDecl.tla: every declarator TLC derives, in every context, and every order of specifiers, in programs that
observe the sizes and the values along the type the specification gives."""
import json, os, random
import vf

def derive(c, family, depth):
    r = vf.tlc('CDecl', env=dict(VF_FAMILY=family, VF_DEPTH=str(depth)), timeout=800)
    c.add_tlc(r)
    return [json.loads(json.loads(l)) for l in r.out.split('\n') if l.startswith('"{')]

PTR, ARR, FN = ('ptr', 'cptr'), ('arr1', 'arr2', 'arr3'), ('fnv', 'fni', 'fnp')
HEAD = '''void obs(long id, unsigned long v);
enum E { EA = 3, EB = 7 };
typedef unsigned short TD;
'''
PARAMS = {'fnv': 'void', 'fni': 'int', 'fnp': 'char *, long'}
NAMED = {'fnv': ['void'], 'fni': ['int', 'p0'], 'fnp': ['char', '*', 'p0', ',', 'long', 'p1']}
ARGS = {'fnv': '', 'fni': '7', 'fnp': '(char *) 0, 3L'}
STORAGE = ('static', 'typedef', 'extern')

class Gen:
    def __init__(s, rnd, specs):
        s.r, s.specs, s.n, s.id = rnd, specs, 0, 0
        s.out, s.main, s.want = [], [], []
    def obs(s, e, v):
        s.id += 1
        s.want.append('%d %x' % (s.id, v % 2**64))
        return 'obs(%d, %s);' % (s.id, e)
    def base(s, sp):
        """a value of the type of a specifier list: its initialiser, what observing it gives, another one"""
        if sp['f']: return '%d.5' % (k := s.r.randint(1, 99)), 4 * k + 2, '1.25'
        if sp['s'] == 2: return 'EB', 7, 'EA'
        n = sp['n'] * 8
        v = (1 << n - 1) + s.r.randint(5, 99)
        return '%#x%s' % (v, 'ul' if n == 64 else ''), v if not sp['s'] else v - (1 << n), '1'
    def observe(s, sp, e, v): return s.obs('(unsigned long) (%s%s)' % (e, ' * 4' if sp['f'] else ''), v)

    def init(s, i, last):
        if i == len(s.ds): return s.val[0] if last else s.val[2]
        k = s.ds[i]
        if k in PTR:
            if not last: return '0'
            f = i + 1 < len(s.ds) and s.ds[i + 1] in FN
            if f: s.used.add(i + 1)
            return ('' if f and s.r.random() < .5 else '&') + 'o%d_%d' % (s.n, i + 1)
        n = int(k[3])
        return '{ ' + ', '.join(s.init(i + 1, last and j == n - 1) for j in range(n)) + ' }'
    def chain(s, e, size0=None):
        """the observations along the type of e"""
        o = []
        for i in range(len(s.ds) + 1):
            k = s.ds[i] if i < len(s.ds) else None
            if k not in FN or (i == 0 and size0): o.append(s.obs('sizeof(%s)' % e, size0 if i == 0 and size0 else s.size[i]))
            if k in PTR:
                e = '(*%s)' % e if s.r.random() < .7 or i + 1 < len(s.ds) and s.ds[i + 1] in FN else '(%s[0])' % e
            elif k in ARR: e = '%s[%d]' % (e, int(k[3]) - 1)
            elif k in FN: e = ('(*%s)(%s)' if s.r.random() < .3 else '%s(%s)') % (e, ARGS[k])
        o.append(s.observe(s.sp, e, s.val[1]))
        return o
    def decl(s, name, named=False, abstract=False):
        t, d = [], s.case['toks']
        i = d.index('x')
        t += d[:i] + ([] if abstract else [name])
        if named: t += ['('] + NAMED[s.ds[0]]; i += 1 + {'fnv': 1, 'fni': 1, 'fnp': 4}[s.ds[0]]
        return ' '.join(t + d[i + 1:])
    def spec(s, *extra):
        """the specifiers in the order chosen, with the words extra anywhere"""
        w = list(s.sp['toks'])
        for x in extra: w.insert(s.r.randint(0, len(w)), x)
        return ' '.join(w)

    def add(s, case, contexts):
        r = s.r
        s.case, s.ds, s.sp = case, case['ds'], r.choice(s.specs)
        s.n += 1; s.val = s.base(s.sp); s.used = set()
        n, m, ds, out, main = s.n, len(s.ds), s.ds, s.out, s.main
        s.size = [z // 1000 * s.sp['n'] if z >= 1000 else z for z in case['sizes']]
        out.append('typedef %s T%d_%d;' % (' '.join(s.sp['toks']), n, m))
        for i in range(m - 1, -1, -1):
            a, b = 'T%d_%d' % (n, i + 1), 'T%d_%d' % (n, i)
            k = ds[i]
            out.append('typedef %s %s;' % (a, {'ptr': '*' + b, 'cptr': '*const ' + b}.get(k) or (b + '[%s]' % k[3] if k in ARR else b + '(%s)' % PARAMS[k])))
            out_i = len(out)
        for i in range(m, -1, -1):
            if i < m and ds[i] in FN: out.append('static T%d_%d o%d_%d(%s) { return %s; }' % (n, i + 1, n, i, ' '.join(NAMED[ds[i]]), s.init(i + 1, True)))
            else: out.append('static T%d_%d o%d_%d = %s;' % (n, i, n, i, s.init(i, True)))
        t0, fn = 'T%d_0' % n, ds[0] in FN
        bare = '( x )' in ' '.join(case['toks'])
        for c in contexts:
            s.k = getattr(s, 'k', 0) + 1
            x = 'x%d' % s.k
            body = lambda d, e=x, z=None: '{ %s %s }' % (d, ' '.join(s.chain(e, z)))
            if c == 'global':
                st = [[], ['static']][r.random() < .5]
                if fn: out.append('%s { return %s; }' % (s.spec(*st) + ' ' + s.decl(x, True), s.init(1, True)))
                else:
                    pre = '*a%d = 0, ' % s.k if r.random() < .4 else ''
                    post = ', b%d = %s' % (s.k, s.val[0]) if r.random() < .4 else ''
                    out.append('%s %s%s = %s%s;' % (s.spec(*st), pre, s.decl(x), s.init(0, True), post))
                    if post: main.append(s.observe(s.sp, 'b%d' % s.k, s.val[1]))
                    if pre: main.append(s.obs('sizeof(*a%d)' % s.k, s.sp['n']))
                main.append(body(''))
                if not fn: main.append('{ %s *q = &%s; %s }' % (t0, x, ' '.join(s.chain('(*q)'))))
            elif c == 'redeclared':
                d = ['extern %s %s;' % (s.spec(), s.decl(x)), '%s %s;' % (t0 if fn else 'extern ' + t0, x)]
                r.shuffle(d); out.extend(d)
                if fn: out.append('%s %s { return %s; }' % (s.spec(), s.decl(x, True), s.init(1, True)))
                else: out.append('%s %s = %s;' % (t0, x, s.init(0, True)))
                main.append(body('extern %s %s;' % (s.spec(), s.decl(x)) if r.random() < .5 else ''))
            elif c == 'local':
                if fn: continue
                main.append(body('%s %s = %s;' % (s.spec(r.choice(['static', 'auto'])), s.decl(x), s.init(0, True))))
            elif c == 'member':
                if fn: continue
                out.append('static struct S%d { char a; %s *p, %s; char z; } s%d = { 1, 0, %s, 77 };' % (s.k, s.spec(), s.decl(x), s.k, s.init(0, True)))
                main.append(body('', 's%d.%s' % (s.k, x)) + s.obs('s%d.z' % s.k, 77))
            elif c == 'param':
                z = 8 if fn or ds[0] in ARR else None
                if r.random() < .5: out.append('static void h%d(%s %s);' % (s.k, s.spec(), s.decl(x, abstract=not bare)))
                out.append('static void h%d(%s %s) %s' % (s.k, s.spec(*r.choice([[], ['register']])), s.decl(x), body('', x, z)))
                main.append('h%d(o%d_0);' % (s.k, n))
            elif c == 'old':
                z = 8 if fn or ds[0] in ARR else None
                if s.sp['n'] < 4 or s.sp['f']: pass
                out.append('static void h%d(y, %s) %s %s; int y; %s' % (s.k, x, s.spec(), s.decl(x), body('', x, z)))
                main.append('h%d(1, o%d_0);' % (s.k, n))
            elif c == 'typedef':
                if fn: continue
                d = '%s %s;' % (s.spec('typedef'), s.decl(x))
                if r.random() < .5: out.append(d); d = ''
                main.append(body('%s %s v = %s;' % (d, x, s.init(0, True)), 'v'))
            elif c == 'cast':
                if bare: continue
                a = '(%s %s)' % (s.spec(), s.decl('', abstract=True))
                if not fn: main.append(s.obs('sizeof' + a, s.size[0]))
                if ds[0] in PTR:
                    f = len(ds) > 1 and ds[1] in FN
                    main.append('{ %s }' % ' '.join(s.chain('(%s %so%d_1)' % (a, '' if f else '(void *) &', n))))
    def program(s): return HEAD + '\n'.join(s.out) + '\nint main(void) {\n' + '\n'.join(s.main) + '\nreturn 0; }\n'

CONTEXTS = ['global', 'redeclared', 'local', 'member', 'param', 'old', 'typedef', 'cast']

def run_program(c, name, src, want, files=None):
    for again in (0, 1):
        st, r = vf.cc_run(name, src)
        if st == 'run' and not r.rc and r.out.split('\n')[:-1] == want: return True
    if st != 'run': return (st, (r.err or r.out)[:300] + ' rc %s' % r.rc)
    got = r.out.split('\n')[:-1]
    for g, w in zip(got + ['nothing'] * len(want), want):
        if g != w: return ('run', 'observed %s, the specification says %s' % (g, w))
    return ('run', 'rc %s' % r.rc)

def check_declarators(c, depth, n, specs, seed):
    cases = derive(c, 'declarators', depth)
    c.count('declarators derived', len(cases))
    r = random.Random(seed)
    if n and n < len(cases): cases = [x for x in cases if len(x['ds']) < depth][:n // 2] * (depth < 4) + r.sample(cases, n if depth >= 4 else n // 2)
    per = 6
    jobs = [(j, cases[i:i + per]) for j, i in enumerate(range(0, len(cases), per))]
    def make(j, cs):
        g = Gen(random.Random('%d %d %s' % (seed, j, len(cs) == 1 and cs[0]['toks'])), specs)
        for x in cs: g.add(x, CONTEXTS)
        return g.program(), g.want
    def one(job):
        j, cs = job
        src, want = make(j, cs)
        b = run_program(c, 'decl%d-%d' % (seed, j), src, want)
        c.traces(len(cs)); c.count('observations', len(want))
        if b is True: return
        # which one is it?
        for x in cs:
            s1, w1 = make(j, [x])
            b1 = run_program(c, 'decl1-%d' % j, s1, w1)
            if b1 is not True:
                src, b = s1, b1
                break
        c.violation('declarator (%s): %s: %s' % (' '.join(x['toks']), b[0], b[1]), {'t.c': src})
    vf.pmap(one, jobs)
    c.sample(make(0, jobs[len(jobs) // 2][1][:1])[0])

def check_const(c, depth, n, specs, seed):
    """what is const along a type: an assignment to the object of each level is accepted or rejected"""
    r = random.Random(seed)
    cases = derive(c, 'declarators', depth)
    jobs = []
    for case in r.sample(cases, n):
        ds = case['ds']
        lv = [i for i in range(len(ds) + 1) if i == len(ds) or ds[i] in PTR]
        # results of functions are no lvalues
        lv = [i for i in lv if not (i > 0 and ds[i - 1] in FN)]
        if lv: jobs.append((case, r.choice(lv), r.choice(specs)))
    def one(a):
        case, i, sp = a
        ds, e = case['ds'], 'x'
        for k in ds[:i]: e = '(*%s)' % e if k in PTR else '%s[0]' % e if k in ARR else '%s(%s)' % (e, ARGS[k])
        const = 'const' in sp['toks'] if i == len(ds) else ds[i] == 'cptr'
        src = HEAD + 'extern %s %s;\nvoid f(void) {\n%s = 0;\n}\n' % (' '.join(sp['toks']), ' '.join(case['toks']), e)
        d = vf.jobdir('const'); p = d + '/t.c'
        open(p, 'w').write(src)
        for again in (0, 1):
            q = vf.wcc_compile(p, d + '/t.o')
            ok = (q.rc == 1 and 't.c:6:' in q.err) if const else q.rc == 0
            if ok: break
        c.traces(); c.count('assignments to const' if const else 'assignments')
        if not ok: c.violation('assignment to %s of %s %s: %s, the specification says it is %sconst' % (e, ' '.join(sp['toks']), ' '.join(case['toks']), 'rejected: ' + q.err[:200] if q.rc else 'accepted', '' if const else 'not '), {'t.c': src})
        import shutil; shutil.rmtree(d, ignore_errors=True)
    vf.pmap(one, jobs)

def check_specifiers(c, specs, seed):
    """every order of every list as objects, members, parameters, casts, typedef names"""
    r = random.Random(seed)
    jobs = [specs[i:i + 40] for i in range(0, len(specs), 40)]
    def make(sps, key):
        g = Gen(random.Random(key), None)
        for sp in sps:
            g.k = k = getattr(g, 'k', 0) + 1
            w, t = sp['toks'], ' '.join(sp['toks'])
            v = g.base(sp)
            if 'typedef' in w: g.out.append('%s t%d; static t%d x%d = %s;' % (t, k, k, k, v[0]))
            elif 'extern' in w: g.out.append('%s x%d; %s x%d = %s;' % (t, k, ' '.join(y for y in w if y != 'extern'), k, v[0]))
            else: g.out.append('%s x%d = %s;' % (t, k, v[0]))
            g.main += [g.obs('sizeof(x%d)' % k, sp['n']), g.observe(sp, 'x%d' % k, v[1])]
            q = ' '.join(y for y in w if y not in STORAGE)
            if not set(w) & set(STORAGE):
                g.out.append('struct S%d { char c; %s m; } s%d = { 1, %s }; static %s f%d(%s p) { return p; }' % (k, q, k, v[0], q, k, q))
                g.main += [g.obs('sizeof(%s)' % q, sp['n']), g.observe(sp, 's%d.m' % k, v[1]), g.observe(sp, 'f%d(x%d)' % (k, k), v[1])]
                if not sp['f'] and sp['s'] != 2: g.main.append(g.observe(sp, '(%s) %s' % (q, v[0]), v[1]))
        return g.program(), g.want
    def one(a):
        j, sps = a
        src, want = make(sps, seed + j)
        b = run_program(c, 'spec%d' % j, src, want)
        c.traces(len(sps)); c.count('observations', len(want))
        if b is True: return
        bad = None
        for sp in sps:
            s1, w1 = make([sp], seed + j)
            b1 = run_program(c, 'spec1-%d' % j, s1, w1)
            if b1 is not True: bad = sp; src, b = s1, b1; break
        c.violation('specifiers %s: %s: %s' % (' '.join(bad['toks']) if bad else 'of a group', b[0], b[1]), {'t.c': src})
    vf.pmap(one, list(enumerate(jobs)))
    c.count('specifier lists', len(specs))
