"""Literals, identifiers and the splitting of text into tokens (spec/CLex.tla): generators, disguises of text,
prediction and replay."""
import json, os, random, re, itertools
import vf, cfloat
from cpre import TOK
CODES = None
def codes_file():
    global CODES
    if not CODES:
        CODES = vf.subdir('lex') + '/codes.json'
        json.dump({chr(k): k for k in range(1, 256)}, open(CODES, 'w'))
    return CODES
def case(text, tri=False, same='', run=True): return dict(text=list(text), tri=tri, same=list(same), run=run)
def predict(c, cases, batch=400, par=4):
    from concurrent.futures import ThreadPoolExecutor
    cf = codes_file()
    def one(k):
        out = vf.subdir('lex%d' % random.getrandbits(30))
        json.dump(cases[k:k + batch], open(out + '.json', 'w'))
        r = vf.tlc('CLex', env=dict(VF_PROGS=out + '.json', VF_OUT=out, VF_CODES=cf), timeout=850, xmx='3g', workers=3)
        return r, [json.load(open('%s/%d' % (out, j + 1))) for j in range(len(cases[k:k + batch]))]
    res = []
    with ThreadPoolExecutor(par) as ex:
        for r, o in ex.map(one, range(0, len(cases), batch)):
            if c: c.add_tlc(r)
            res += o
    return res

# ---- disguises: the same tokens in other clothes
TRI = {'#': '=', '[': '(', '\\': '/', ']': ')', '^': "'", '{': '<', '|': '!', '}': '>', '~': '-'}
def toks(text): return [m.group() for m in TOK.finditer(text) if m.lastgroup != 'ws' and m.group() != '\n']
def glue(a, b):
    """may b follow a directly?"""
    return toks(a + b) == [a, b] and not (a[-1] == '/' and b[0] in '/*')
COMMENTS = ['/**/', '/* a */', '/***/', '/*/*/', "/* don't */", '/* " */', '/* a\n b */', '/*\\*/', '/* // */', '/* ??/ */', '// c\n', "// don't\n", '// /*\n', '// "\n', '//\n', '/* \xe9 */', '/* # */', '/**\n**/', '/* *\\\n/']
def gap(r, must, style):
    if style == 'min': return ' ' if must else ''
    o = ''
    for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if not must else r.choice([1, 1, 2, 3])):
        o += r.choice([' ', ' ', '\t', '\n', '\f', '\v', '\r\n', '  ', '\n\n'] + COMMENTS) if style == 'wild' else r.choice([' ', '\n', '\t'])
    return o or (' ' if must else '')
def disguise(text, r, tri=False, style=None, splice=None):
    style = style or r.choice(['min', 'wild', 'wild', 'plain'])
    ts = toks(text)
    o = ''
    for k, t in enumerate(ts):
        if k: o += gap(r, not glue(ts[k - 1], t), style)
        o += t
    if tri:
        p = r.choice([0, .3, 1])
        o = ''.join('??' + TRI[ch] if ch in TRI and r.random() < p else ch for ch in o)
    p = splice if splice is not None else r.choice([0, 0, .02, .1, .5])
    if p:
        b = lambda: ('??/\n' if tri and r.random() < .5 else '\\\n')
        # a newline after a backslash stays with it: joining the two again would not splice
        o = ''.join((''.join(b() for _ in range(r.choice([1, 1, 1, 2]))) if r.random() < p and ch != '\n' else '') + ch for ch in o)
    return o + '\n'

# ---- statements about one literal
def int_stmts(l, i): return 'obs(%d, %s);\nobs(%d, sizeof(%s));\nobs(%d, %s * 0 - 1 < 0);\n' % (i, l, i + 1, l, i + 2, l)
def flt_stmts(l, i): return 'obsl(%d, %s);\nobs(%d, sizeof(%s));\n' % (i, l, i + 1, l)
def str_stmts(l, i, index=None): return 'obsb(%d, %s, sizeof(%s));\n' % (i, l, l) + ('obs(%d, %s[%d]);\n' % (i + 1, l, index) if index is not None else '')
def is_float(s): return not re.match(r'0[xX]', s) and bool(re.search(r'[.eE]', s))
def num_stmts(l, i): return flt_stmts(l, i) if is_float(l) else int_stmts(l, i)

SUFFIXES = ['', 'u', 'U', 'l', 'L', 'ul', 'uL', 'Ul', 'UL', 'lu', 'lU', 'Lu', 'LU', 'll', 'LL', 'ull', 'ULL', 'uLL', 'Ull', 'llu', 'LLU', 'LLu', 'llU']
BADSUFFIXES = ['lL', 'Ll', 'uu', 'lul', 'lll', 'ulu', 'f', 'ulL', 'x', '_', 'z', 'lf']
def int_literals():
    vs = sorted({max(0, b + d) for b in [0, 7, 8, 9, 10, 64, 100] + [1 << k for k in (7, 8, 15, 16, 31, 32, 33, 62, 63, 64)] for d in (-2, -1, 0, 1)} | {0x123456789abcdef0, 1234567890123456789, 0xdeadbeef, 0xcafebabe, 4000000000})
    out = []
    for v in vs:
        for f in ('%d', '0%o', '0x%x', '0X%X', '00%o', '0x000%x'):
            for s in SUFFIXES: out.append(f % v + s)
    out += ['0x1e+5', '0xE-1', '0xe+', '0x1e+5u', '0xe+f', '0xfe-0xfe', '0x1f+5', '0xf-1']
    for f in ('1', '07', '0xf', '0', '4294967296', '0xe', '0xffffffff', '9'):
        for s in BADSUFFIXES: out.append(f + s)
    return out
FLOATS = [a + b + x + s for a in ('', '0', '1', '08', '12', '4294967296') for b in ('', '.', '.0', '.5', '.09') if a or b not in ('', '.') for x in ('', 'e0', 'E1', 'e+2', 'e-3', 'E-0', 'e08', 'e+', 'E', 'e-') if b or x for s in ('', 'f', 'F', 'l', 'L', 'u', 'lf', 'd')]
def pp_numbers(n):
    al = '0189xXeE.+-uULlfFaA_'
    out = []
    for k in range(1, n + 1):
        for t in itertools.product(al, repeat=k):
            s = ''.join(t)
            m = re.match(r'\.?[0-9](?:[eE][+-]|[A-Za-z_0-9.])*$', s)
            if m: out.append(s)
    return out
SIMPLE = ["\\'", '\\"', '\\?', '\\\\', '\\a', '\\b', '\\f', '\\n', '\\r', '\\t', '\\v']
def char_literals():
    out = []
    for k in list(range(1, 10)) + [11, 12] + list(range(14, 256)):
        if chr(k) in "'\\": continue
        out.append("'%s'" % chr(k))
        if k < 128: out.append("L'%s'" % chr(k))
    for p in ('', 'L'):
        out += [p + "'%s'" % e for e in SIMPLE + ['"', '?', '??', '\\0', '\\00', '\\000', '\\x0', '\\x00000041']]
        out += [p + "'\\%o'" % k for k in range(256)] + [p + "'\\%03o'" % k for k in range(256)] + [p + "'\\x%x'" % k for k in range(256)] + [p + "'\\x%02X'" % k for k in range(160, 256)]
    out += ["L'\\x%x'" % v for v in (256, 0x7fff, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0xdeadbeef)] + ["L'\\777'", "L'\\400'"]
    return out + ["''", "L''", "'\\x'", "'\\xg'", "L'\\x'", "'", "'a", "L'a", "'\\'", "'a\n'", "'\\x'"]
def string_literal(r):
    n = r.choice([0, 1, 2, 3, 5, 8, 30])
    o = ''
    for _ in range(n):
        k = r.random()
        if k < .4: o += r.choice('abcXYZ0123456789 _-+*/?!#\'%{}[]()<>@$`.,;:&|^~=')
        elif k < .55: o += r.choice(SIMPLE)
        elif k < .7: o += '\\' + ('%o' if r.random() < .5 else '%03o') % r.randrange(256)
        elif k < .85: o += '\\x' + ('%x' if r.random() < .5 else '%02X') % r.randrange(256)
        elif k < .9: o += r.choice(['//', '/*', '*/', '??', '??=', '??/', '???)', '\t', '\\\\n', '\\\\"'.replace('"', '0')])
        else: o += chr(r.randrange(128, 256))
    return '"' + o + '"'
def strings(r):
    n = r.choice([1, 1, 2, 2, 3, 5])
    wide = r.random() < .35
    ls = [string_literal(r) for _ in range(n)]
    if wide:
        ls = [re.sub('[\x80-\xff]', 'z', l) for l in ls]
        ls = ['L' + l for l in ls] if r.random() < .75 else [r.choice(['L', '']) + l for l in ls]
    return (r.choice([' ', '\n', '']) if len({l[0] for l in ls}) == 1 else ' ').join(ls) if not wide else ' '.join(ls)
KEYWORDS = 'auto break case char const continue default do double else enum extern float for goto if int long register return short signed sizeof static struct switch typedef union unsigned void volatile while'.split()
def identifier(r):
    k = r.random()
    if k < .35:
        w = r.choice(KEYWORDS + ['obs', 'L', 'packed', 'aligned', 'define', 'defined', 'include', 'endif', 'main', 'asm', 'va_list', 'wchar_t', 'u', 'U', 'u8', 'R', 'e', 'x', 'E1', 'f', 'l', 'LL', 'attribute', 'line', 'if0'])
        m = r.randrange(8)
        w = w if m == 0 and w not in KEYWORDS + ['obs', 'asm'] else w + '_' if m < 2 else '_' + w + 'x' if m < 3 else w.upper() if m < 4 and w.upper() != w else w.capitalize() if m < 5 and w.capitalize() != w else w + r.choice('0129') if m < 6 else w[:-1] if len(w) > 2 and w[:-1] not in ('do', 'i') else w + w
        return w + '1' if w in KEYWORDS or w in ('obs', 'asm') else w
    if k < .45: return r.choice('abLxuRef_') + ''.join(r.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_') for _ in range(r.choice([1, 30, 31, 32, 62, 63, 64, 127, 128, 255, 256, 500, 1000, 1022, 1023])))
    w = r.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_') + ''.join(r.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_') for _ in range(r.randint(0, 12)))
    return w + '1' if w in KEYWORDS or w in ('obs', 'asm', 'inline', 'restrict') else w
def identifiers(r, i):
    ns = {identifier(r) for _ in range(r.randint(1, 4))}
    for n in list(ns):      # and near misses: other letter case, one character more
        if r.random() < .5: ns.add(r.choice([n + '_', n + '0', n.swapcase(), n[:-1] + chr(ord(n[-1]) ^ 1) if n[-1].isalnum() and (chr(ord(n[-1]) ^ 1)).isalnum() else n + 'a']))
    ns = [n for n in ns if n not in KEYWORDS + ['obs', 'asm', 'inline', 'restrict'] and not n[0].isdigit() and n != '']
    ns = [n for n in ns if len(n) <= 1024]
    r.shuffle(ns)
    return ''.join('int %s = %d;\n' % (n, 10 + k) for k, n in enumerate(ns)) + ''.join('obs(%d, %s);\n' % (i + k, n) for k, n in enumerate(ns))

# ---- replay
PRE = vf.OBS_DECL
def check_units(c, items, tri, what):
    """items: [text]; the valid ones are compiled together, the others each on its own"""
    exps = predict(c, [case(t, tri, s) for t, s in items])
    items = [t for t, _ in items]
    good, bad = [], []
    for t, e in zip(items, exps):
        for f in e['fl']: c.count('without one meaning: ' + f)
        if 'other tokens' in e['fl']: continue
        if e['err']: bad.append((t, e))
        elif not e['fl']: good.append((t, e))
    flags = ('--trigraphs',) if tri else ()
    def word(o):
        if o[1] == 'b': return ''.join('%02x' % b for b in o[2])
        return '%x' % (cfloat.from12(o[2]) if o[1] == 'ld' else sum(l << (16 * k) for k, l in enumerate(o[2])))
    def run_some(ues, name):
        src = PRE + 'void test(void) {\n' + ''.join('{\n%s}\n' % t for t, _ in ues) + '}\nint main() { test(); return 0; }\n'
        st, x = vf.cc_run(name, src, flags)
        if st != 'run': return src, '%s: %s' % (st, x.err[-300:])
        if x.timeout or x.rc: return src, 'status %s' % x.rc
        got = [l.split() for l in x.out.split('\n') if l]
        exp = [(str(o[0]), word(o)) for _, e in ues for o in e['out']]
        for k in range(max(len(exp), len(got))):
            g = got[k] if k < len(got) else None
            g = None if g is None else (g[0], g[1] if len(g) > 1 else '')
            w = exp[k] if k < len(exp) else None
            if g and w and len(g[1]) == 20 and g[1].lstrip('0') == w[1].lstrip('0'): g = (g[0], w[1])
            if g != w: return src, 'observation %s: the specification gives %s, the program %s' % (w and w[0], w and w[1], g)
        return src, None
    def batch(k):
        ues = good[k:k + 40]
        src, b = run_some(ues, what)
        c.traces(); c.count('literals and texts compared', len(ues))
        if not b: return
        src, b = run_some(ues, what)
        if not b: return
        n = 0
        for t, e in ues:          # each on its own
            s1, b1 = run_some([(t, e)], what)
            if b1: c.violation('%s: %s\n%s' % (what, b1, t[:300]), {'t.c': s1, 'flags': ' '.join(flags)}, key='%s:%s' % (what, t[:60])); n += 1
        if not n: c.violation('%s: only together: %s' % (what, b), {'t.c': src}, key=what)
    vf.pmap(batch, range(0, len(good), 40))
    head = PRE + 'void test(void) {\n'
    off = head.count('\n')
    def reject(j):
        t, e = j
        src = head + t + '}\n'
        d = vf.jobdir(what)
        p = d + '/t.c'
        with open(p, 'w', encoding='latin-1', newline='') as f: f.write(src)
        r = vf.run([vf.wcc_path(), *flags, '-c', 't.c', '-o', 't.o'], timeout=20, cwd=d)
        c.traces(); c.count('invalid texts rejected')
        m = re.search(r'^t\.c:(\d+):(?: |\d+: )(?:fatal )?error', r.err, re.M)
        b = None
        if r.timeout: b = 'the compiler does not terminate'
        elif r.rc == 0: b = 'accepted'
        elif r.rc != 1: b = 'the compiler ends with status %s' % r.rc
        elif not m: b = 'rejected without a located message: ' + r.err[:200]
        elif not e['lo'] + off <= int(m.group(1)) <= e['hi'] + off and e['err'] != 'bad': b = 'the message names line %s, the token is on line %d' % (m.group(1), e['lo'] + off)
        elif os.path.exists(d + '/t.o'): b = 'rejected, but there is an object file'
        if b: c.violation('%s: the token %s is invalid: %s\n%s' % (what, e['inv'], b, t[:300]), {'t.c': src, 'flags': ' '.join(flags)}, key='%s:%s' % (what, t[:60]))
        import shutil; shutil.rmtree(d, ignore_errors=True)
    vf.pmap(reject, bad)

def units(n, seed, tri):
    r = random.Random(seed)
    ids = itertools.cycle(range(10, 60000, 10))
    ints, chars, pps = int_literals(), char_literals(), pp_numbers(3)
    out = []
    def add(stmts): out.append(stmts(next(ids)))
    def some(xs): return xs if n is None else r.sample(xs, min(n, len(xs)))
    for l in some(ints): add(lambda i: int_stmts(l, i))
    for l in some(FLOATS): add(lambda i: flt_stmts(l, i))
    for l in some(pps): add(lambda i: num_stmts(l, i))
    for _ in range(n or 3000): add(lambda i: flt_stmts(cfloat.decimal_text(r, r.choice(cfloat.FLTS))[2], i))
    for l in some(chars): add(lambda i: int_stmts(l, i))
    for _ in range(n or 3000): add(lambda i: str_stmts(strings(r), i, 0 if r.random() < .3 else None))
    for _ in range(n or 3000): add(lambda i: identifiers(r, i))
    # some in disguise
    return [(t, '') if r.random() < .3 or not whole(t) else (disguise(t, r, tri), t) for t in out]
def whole(t):
    """no lone quotes: the text can be split into tokens"""
    return not any(x in ("'", '"', '\\') for x in toks(t))

def check_programs(c, progs, tri, what='disguised program'):
    """progs: [(key, Prog, expected trace)]"""
    import suite
    r = random.Random(vf.SEED)
    # the specification's own tokeniser takes time quadratic in the length of the text
    progs = [x for x in progs if len(x[1].text()) < 7000]
    texts = [p.text() for _, p, _ in progs]
    def shorter(t):
        for k in range(6):
            d = disguise(t, r, tri, *((None, None) if k < 3 else ('wild', .02) if k < 5 else ('min', .02)))
            if len(d) < 12000: return d
        return d
    dis = [shorter(t) for t in texts]
    exps = predict(c, [case(d, tri, t, False) for d, t in zip(dis, texts)], batch=8)
    def one(k):
        key, p, exp = progs[k]
        e = exps[k]
        if e['fl'] or e['err']: c.count('disguises that change tokens'); return
        for again in (0, 1):
            st, x = vf.cc_run(key, dis[k], ('--trigraphs',) if tri else ())
            b = suite.judge(exp, st, x)
            if not b: break
        c.traces(); c.count('disguised programs'); c.count('tokens in disguise', len(toks(texts[k])))
        if b: c.violation('%s %s: %s' % (what, key, b), {'t.c': dis[k], 'plain.c': texts[k]}, key='%s %s' % (what, key))
    vf.pmap(one, range(len(progs)))
