"""Program suites: seeded programs, predicted by the abstract machine (spec/CMachine.tla, run by
TLC), compiled with wcc in one or several ways and compared."""
import os, random, shutil
import vf, cgen
from cprog import predict, trace
from concurrent.futures import ThreadPoolExecutor

def diff(exp, got):
    for i in range(max(len(exp), len(got))):
        a = exp[i] if i < len(exp) else None
        b = got[i] if i < len(got) else None
        if a != b:
            s = lambda x: 'nothing' if x is None else '(%d: %x)' % x
            return 'observation %d: the specification gives %s, the program %s' % (i, s(a), s(b))

def predict_all(c, progs, batch=100, par=4):
    out = []
    chunks = [progs[i:i + batch] for i in range(0, len(progs), batch)]
    with ThreadPoolExecutor(par) as ex:
        for r in ex.map(lambda ch: predict(ch, None, xmx='3g'), chunks): out += r[0]; c.add_tlc(r[1])
    return out

def judge(exp, st, x):
    """None or what is wrong with this outcome"""
    if st == 'compile': return 'a valid program is rejected: rc %s %s' % (x.rc, x.err[-600:])
    if st == 'link': return 'the program does not link: ' + x.err[-600:]
    if x.timeout: return 'the program does not terminate'
    if x.rc != 0: return 'the program ends with status %s' % x.rc
    got = trace(x.out)
    if got is None: return 'garbled output'
    if got != exp: return diff(exp, got)

def units_run(name, p, how, ldflags=('-no-pie',), objs=(), order=None, timeout=20):
    """Compile each unit of the program as how(unit) = ('wcc' | 'gcc', flags) says, link, run:
    (stage, Res, files)"""
    d = vf.jobdir(name)
    files = {}
    try:
        os_ = []
        for u in range(1, len(p.units) + 1):
            files['u%d.c' % u] = src = p.text(u)
            path = '%s/u%d.c' % (d, u); o = '%s/u%d.o' % (d, u)
            with open(path, 'w', encoding='latin-1') as f: f.write(src)
            cc, flags = how(u)
            if cc == 'wcc': r = vf.wcc_compile(path, o, flags)
            else: r = vf.run(['gcc', '-w', '-fno-strict-aliasing', '-fwrapv', '-std=gnu11', *flags, '-c', path, '-o', o], timeout=60)
            if r.rc or not os.path.exists(o): 
                if cc == 'gcc': raise vf.ToolError('gcc rejects a generated program: ' + r.err[:1500])
                return 'compile', r, files
            os_.append(o)
        if order: os_ = [os_[k] for k in order]
        r = vf.run(['gcc', '-z', 'noexecstack', *ldflags, *os_, *objs, vf.obs_o(), '-o', d + '/t'], cwd=d)
        if r.rc: return 'link', r, files
        return 'run', vf.run([d + '/t'], timeout=timeout, cwd=d, cpu=int(timeout) + 2, mem=2 << 30, fsize=512 << 20), files
    finally:
        if not os.environ.get('VF_KEEP'): shutil.rmtree(d, ignore_errors=True)

def run(c, items, variants=((),), runner=None, what=''):
    """items: [(key, Prog)]; variants: compiler flags (the first is used for every program, the
    others in rotation). runner(key, prog, flags) -> (stage, Res, files) overrides compiling one unit."""
    preds = predict_all(c, [p for _, p in items])
    jobs = []
    undefined = 0
    for n, ((key, p), (exp, why)) in enumerate(zip(items, preds)):
        if exp is None: undefined += 1; continue
        vs = [variants[0]] + ([variants[1 + n % (len(variants) - 1)]] if len(variants) > 1 else [])
        if callable(variants[0]): vs = variants[0](n)
        for v in vs: jobs.append((key, p, exp, tuple(v)))
    def one(j):
        r = once(j)
        if r[2]:            # a failure of the machine (out of processes, memory) does not repeat itself
            r2 = once(j)
            if not r2[2]: c.count('failures_not_reproduced')
            return r2
        return r
    def once(j):
        key, p, exp, flags = j
        try:
            if runner: st, x, files = runner(key, p, flags)
            else:
                src = p.text(); files = {'t.c': src}
                st, x = vf.cc_run(key, src, flags)
        except RecursionError as e: raise vf.ToolError(str(e))
        w = judge(exp, st, x)
        return (key, flags, w, files, exp, x)
    for key, flags, w, files, exp, x in vf.pmap(one, jobs):
        c.traces()
        if w:
            files = dict(files)
            files['expected.txt'] = '\n'.join('%d %x' % e for e in exp) + '\n'
            files['got.txt'] = (x.out or '') + (x.err or '')
            c.violation('%sprogram %s, wcc %s: %s' % (what, key, ' '.join(map(str, flags)), w), files, key='%s%s' % (key, ''.join(map(str, flags))))
    c.count('programs', len(items) - undefined); c.count('programs_without_defined_behaviour', undefined)
    c.count('observations_compared', sum(len(j[2]) for j in jobs))
    for key, p, exp, flags in jobs[:2]: c.sample('%s %s: %d observations' % (key, ' '.join(map(str, flags)), len(exp)), 8)
    return jobs

def profile(c, fn, n, variants=((),), base=0, **kw):
    items = []
    for k in range(n):
        s = vf.SEED * 1000000 + base + k
        items.append(('%s-%d' % (fn.__name__, s), fn(s)))
    return run(c, items, variants, **kw)
