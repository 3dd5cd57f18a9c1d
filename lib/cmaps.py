"""Histories of operations on the compiler's containers (spec/CMaps.tla): the generator, the run of the real containers, the comparison."""
import json, os, random
import vf

def fnv(s):
    h = 2166136261
    for c in s.encode(): h = ((h ^ c) * 16777619) & 0xffffffff
    return h
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789'
def strkeys(r, n):
    """n different words; several share their hash value modulo a power of two"""
    res = []
    home = [r.randrange(1 << 20) for _ in range(r.randrange(1, 4))]
    mask = r.choice([15, 31, 63])
    style = r.random()
    while len(res) < n:
        w = ''.join(r.choice(LETTERS) for _ in range(r.randrange(1, 9)))
        if style < .7 and all((fnv(w) ^ h) & mask for h in home) and r.random() < .97: continue
        if w not in res: res.append(w)
    return res
def longkeys(r, n, ints):
    res = []
    step = r.choice([1, 16, 32, 64, 16, 256, 4096] + ([] if ints else [1 << 32, 1 << 40, (1 << 32) + 16]))
    at = r.choice([0, 0, 5, -3, -16 * n, 15, 14])
    while len(res) < n:
        k = at + step * r.randrange(-n, 2 * n) + (r.randrange(3) if r.random() < .3 else 0)
        if r.random() < .03: k = r.choice([2**31 - 1, -2**31, -1, 0] + ([] if ints else [2**63 - 1, -2**63, 2**32, -2**32]))
        if k not in res: res.append(k)
    return [str(k) for k in res]

def history(r, kind):
    """One history; kind as in the specification"""
    n = r.choice([3, 8, 12, 12, 20, 24, 40, 50])
    h = dict(kind=kind, maxv=0, hash=0, keys=[], ops=[])
    ints = r.random() < .5
    hot = []
    def op(o, d=1, a=1, b=1, k=0, v=0): h['ops'].append(dict(o=o, d=d, a=a, b=b, k=k, v=v))
    if kind in ('strmap', 'strset'): h['keys'] = strkeys(r, n)
    if kind in ('longmap', 'longset'): h['keys'] = longkeys(r, n, ints)
    if kind == 'longmap' and r.random() < .5: h['hash'] = r.randrange(1, 4)
    if kind == 'set':
        h['maxv'] = r.choice([0, 1, 7, 8, 9, 31, 32, 33, 63, 64, 65, 100])
        h['keys'] = [str(i) for i in range(h['maxv'] + 1)]; n = h['maxv'] + 1
    if kind == 'list':
        h['hash'] = r.choice([0, 0, 1, 2, 3, 7, 8])
        for _ in range(r.choice([1, 2, 5, 9, 33, 70, 140])):
            op('push', r.choice([1, 1, 1, 2]), v=r.randrange(1, 1000))
            if r.random() < .2: op(r.choice(['len', 'all']), r.randrange(1, 4))
        op('all'); op('all', 2); op('len'); return h
    if kind == 'stack':
        size = [0] * 4
        for _ in range(r.choice([5, 20, 80, 300])):
            d = r.choice([1, 1, 2, 3])
            if not size[d] or r.random() < .5: op('push', d, v=r.choice([r.randrange(1000), -1, 2**31 - 1])); size[d] += 1
            else:
                o = r.choice(['pop', 'pop', 'top']); op(o, d)
                if o == 'pop': size[d] -= 1
        for d in (1, 2, 3):
            for _ in range(size[d]): op('pop', d)
        return h
    if kind == 'graph':
        h['maxv'] = r.choice([1, 2, 5, 12]); m = r.choice([1, 3, 10, 40]); h['hash'] = m
        e = [0] * 4
        for _ in range(m * 2):
            d = r.choice([1, 1, 1, 2])
            if e[d] < m: op('edge', d, r.randrange(h['maxv']), r.randrange(h['maxv'])); e[d] += 1
            if r.random() < .3: op(r.choice(['succ', 'pred']), r.randrange(1, 3), r.randrange(h['maxv']))
        for a in range(h['maxv']):
            for d in (1, 2): op('succ', d, a); op('pred', d, a)
        return h
    m = kind in ('strmap', 'longmap')
    ins, out, look = ('put', 'del', 'get') if m else ('add', 'del', 'in')
    def K(): return r.choice(hot) if hot and r.random() < .6 else r.randrange(n)
    def one(d, pi, pd):
        x = r.random()
        if x < pi: op(ins, d, k=K(), v=r.randrange(1, 50))
        elif x < pi + pd and kind != 'strset': op(out, d, k=K())
        else: op(look, d, k=K())
    for _ in range(r.randrange(2, 6)):
        hot = [r.randrange(n) for _ in range(r.randrange(0, 5))]
        d = r.choice([1, 1, 2, 3])
        what = r.choice(['grow', 'churn', 'churn', 'shrink', 'replace', 'mixed', 'whole'])
        if what == 'grow':
            ks = list(range(n)); r.shuffle(ks)
            for k in ks[:r.randrange(1, n + 1)]:
                op(ins, d, k=k, v=r.randrange(1, 50))
                if r.random() < .1: op('all', d)
        elif what == 'churn':
            for _ in range(r.randrange(10, 60)): one(d, .45, .4)
        elif what == 'shrink':
            for _ in range(r.randrange(5, 40)): one(d, .1, .8)
        elif what == 'replace':
            # few entries at a time, many keys one after the other
            ks = [r.randrange(n) for _ in range(r.randrange(10, 50))]; live = []
            for k in ks:
                op(ins, d, k=k, v=r.randrange(1, 50)); live.append(k)
                if len(live) > 3 and kind != 'strset': op(out, d, k=live.pop(r.randrange(len(live))))
        elif what == 'mixed':
            for _ in range(r.randrange(10, 60)): one(r.randrange(1, 4), .4, .3)
        else:
            for _ in range(r.randrange(1, 4)):
                a, b = r.randrange(1, 4), r.randrange(1, 4)
                if kind == 'strmap': o = r.choice(['delodd', 'all'])
                elif kind == 'longmap': o = r.choice(['delodd', 'all', 'copy', 'empty'] + (['keys'] if ints else []))
                elif kind == 'strset': o = r.choice(['copy', 'union', 'inter', 'empty', 'all'])
                elif kind == 'longset': o = r.choice(['len', 'copy', 'union', 'inter', 'empty', 'eq', 'eq', 'all'])
                else: o = r.choice(['len', 'copy', 'union', 'inter', 'diff', 'empty', 'eq', 'eq', 'all'])
                if o == 'copy' and a == d: a = d % 3 + 1
                op(o, d, a, b, v=r.randrange(2) if kind == 'set' else 0)
        op('all', d)
        if kind in ('longset', 'set'): op('len', d)
        if kind in ('longset', 'set') and r.random() < .3: op('copy', d % 3 + 1, d); op('eq', d, d, d % 3 + 1); op(out, d, k=K()); op('eq', d, d, d % 3 + 1)
    for d in (1, 2, 3): op('all', d)
    return h
KINDS = ['strmap', 'strmap', 'longmap', 'longmap', 'strset', 'longset', 'set', 'list', 'stack', 'graph']
def histories(seed, n):
    r = random.Random(seed)
    return [history(r, KINDS[i % len(KINDS)]) for i in range(n)]

def harness():
    b = vf.build_wcc(); d = vf.subdir('maps')
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'containers.c')
    cmd = ['gcc', '-g', '-O1', '-w', '-fsanitize=address', '-I', b, src] + [b + '/' + f for f in ('strmap.c', 'longmap.c', 'strset.c', 'longset.c', 'set.c', 'list.c', 'stack.c', 'graph.c')] + [b + '/libwcc.a', '-lm', '-o', d + '/h']
    r = vf.run(cmd, timeout=120)
    if r.rc: raise vf.ToolError('container harness: ' + r.err[-2000:])
    return d + '/h'

def text(i, h):
    t = ['H', i, h['kind'], h['maxv'], h['hash'], len(h['keys'])] + h['keys'] + [len(h['ops'])]
    for x in h['ops']: t += [x['o'], x['d'], x['a'], x['b'], x['k'], x['v']]
    return ' '.join(map(str, t)) + '\n'

def predict(c, hs, name):
    """What the specification says each operation returns"""
    d = vf.subdir('mapsout-' + name)
    f = d + '/cases.json'
    json.dump(hs, open(f, 'w'))
    r = vf.tlc('CMaps', env=dict(VF_PROGS=f, VF_OUT=d, VF_NK='1', VF_NV='1'), timeout=800)
    c.add_tlc(r)
    return [json.load(open('%s/%d' % (d, i + 1))) for i in range(len(hs))]

ALL = {'strmap': 'all', 'longmap': 'all', 'strset': 'all', 'longset': 'all', 'set': 'all'}
def compare(h, want, lines):
    """None or the first difference"""
    if len(lines) != len(h['ops']): return 'it ended after operation %d of %d (%s)' % (len(lines), len(h['ops']), lines[-1:] )
    for i, (x, w, l) in enumerate(zip(h['ops'], want, lines)):
        o, *got = l.split(' ')
        got = [g for g in got if g]
        kind = h['kind']
        if '|' in got:
            j = got.index('|'); lst, rest = got[:j], got[j + 1:]
            if kind in ('strmap', 'longmap'):
                m = {int(k): v for k, v in w}
                exp = sorted('%d=%s' % (k, v) for k, v in m.items()); er = [str(m.get(k, 0)) for k in range(len(h['keys']))]
                ok = sorted(lst) == exp and rest == er
            elif kind in ('strset', 'longset', 'set'):
                exp = sorted(map(str, w)); er = ['1' if k in w else '0' for k in range(len(h['keys']))]
                ok = sorted(lst) == exp and rest == er
            else: ok = lst == [str(v) for v in w] and not rest
        else: ok = got == [str(v) for v in w]
        if not ok: return 'operation %d %s: got %s, expected %s' % (i + 1, x, l, w)
    return None

def run_histories(c, seed, n, name):
    hs = histories(seed, n)
    want = predict(c, hs, name)
    exe = harness()
    chunks = [list(range(j, min(j + 50, n))) for j in range(0, n, 50)]
    env = vf.clean_env(dict(ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0'))
    def go(ids, timeout=60):
        r = vf.run([exe], stdin=''.join(text(i, hs[i]) for i in ids).encode(), timeout=timeout, env=env, mem=None)
        res = {}; cur = None
        for l in r.out.split('\n'):
            if l.startswith('H '): cur = res.setdefault(int(l[2:]), [])
            elif cur is not None and l: cur.append(l)
        return r, res
    def one(ids):
        r, res = go(ids)
        bad = []
        for i in ids:
            lines = res.get(i)
            if lines is None or len(lines) != len(hs[i]['ops']):
                r, q = go([i], 20); lines = q.get(i, [])
                if len(lines) != len(hs[i]['ops']) and (r.timeout or r.rc):
                    d = 'it does not end' if r.timeout else 'it ends with %d: %s' % (r.rc, (r.err or '')[:300])
                    bad.append((i, d)); continue
            d = compare(hs[i], want[i], lines)
            if d: bad.append((i, d))
        return bad
    for bad in vf.pmap(one, chunks):
        for i, d in bad: c.violation('%s, history %d of seed %d: %s' % (hs[i]['kind'], i, seed, d), {'history.txt': text(i, hs[i])})
    c.traces(n); c.count('operations', sum(len(h['ops']) for h in hs))
    for h in hs[:2]: c.sample('%s: %s' % (h['kind'], ' '.join(x['o'] for x in h['ops'][:30])))

def graph(c, nk, nv):
    """The state graph of a map with nk keys and nv values"""
    f = vf.subdir('mapsgraph') + '/none.json'; open(f, 'w').write('[]')
    r = vf.tlc('CMaps', 'CMapsGraph', env=dict(VF_PROGS=f, VF_OUT='', VF_NK=str(nk), VF_NV=str(nv)), timeout=300)
    c.add_tlc(r)
    edges = [json.loads(json.loads(l)) for l in r.out.split('\n') if l.startswith('"{')]
    init = tuple([0] * nk)
    states = [init] + sorted({tuple(e['from']) for e in edges} | {tuple(e['to']) for e in edges} - {init} - {init})
    states = [init] + sorted(set(states) - {init}); num = {s: i for i, s in enumerate(states)}
    ops = sorted({(e['op']['k'] - 1, e['op']['v']) for e in edges}); no = {o: i for i, o in enumerate(ops)}
    nxt = [[-1] * len(ops) for _ in states]
    for e in edges: nxt[num[tuple(e['from'])]][no[(e['op']['k'] - 1, e['op']['v'])]] = num[tuple(e['to'])]
    assert all(x >= 0 for row in nxt for x in row)
    return states, ops, nxt

def words_at(r, homes, mask=63):
    res = []
    for h in homes:
        while True:
            w = ''.join(r.choice(LETTERS) for _ in range(r.randrange(2, 7)))
            if fnv(w) & mask == h and w not in res: res.append(w); break
    return res
def paths(c, seed, depth):
    """Every path of the state graph up to a length, in maps prepared in different ways"""
    r = random.Random(seed)
    jobs = []
    for nk, nv, dep in [(3, 1, depth), (2, 2, depth), (4, 1, depth - 2)]:
        states, ops, nxt = graph(c, nk, nv)
        for homes in ([0, 0, 0, 0], [0, 0, 1, 1], [15, 15, 0, 15], [0, 16, 1, 17], [r.randrange(64) for _ in range(4)]):
            # other entries, and deleted ones, that bring the map close to growing
            for fill in (0, 7, 9, 10, 'gone'):
                for kind in ('strmap', 'longmap'):
                    others = [r.randrange(64) for _ in range(10)]
                    if fill == 'gone': others = [homes[0] + i for i in range(10)]
                    hm = homes[:nk] + [o & 63 for o in others]
                    if kind == 'strmap': keys = words_at(r, hm)
                    else:
                        keys = []
                        for x in hm:
                            k = x
                            while k in keys: k += 64 * r.choice([1, -1, 1 << 26, 3])
                            keys.append(k)
                    npre = 8 if fill == 'gone' else fill
                    pre = [(nk + i, 7 + i) for i in range(npre)]
                    if fill == 'gone': pre += [(nk + i, 0) for i in range(npre)]
                    t = ['G', kind, 0, len(keys)] + keys + [nk, len(states), len(ops)] + [v for s in states for v in s] + [v for o in ops for v in o] + [v for row in nxt for v in row] + [len(pre)] + [v for p in pre for v in p] + [dep]
                    jobs.append(' '.join(map(str, t)) + '\n')
    exe = harness()
    env = vf.clean_env(dict(ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0:quarantine_size_mb=1'))
    def go(j): return j, vf.run([exe], stdin=j.encode(), timeout=400, env=env, mem=None)
    for j, q in vf.pmap(go, jobs):
        if q.timeout or q.rc or 'BAD' in q.out or 'paths' not in q.out:
            c.violation('paths in a small map: %s' % (('rc %r timeout %r: ' % (q.rc, q.timeout)) + q.out + q.err)[:300], {'job.txt': j})
        else: n = int(q.out.split('paths ')[1]); c.count('paths', n); c.traces(n)
