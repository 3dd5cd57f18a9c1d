"""The driver (spec/CDrive.tla): TLC enumerates configurations and everything the driver may do in them; the real
driver is run in each with an assembler and a linker that log their runs, fail or are killed as the fault says."""
import json, os, random, re, shutil, subprocess
import vf

def outcomes(c, family, maxin):
    """{configuration (as a string): [outcome]}"""
    r = vf.tlc('CDrive', env=dict(VF_FAMILY=family, VF_MAXIN=str(maxin)), timeout=850)
    c.add_tlc(r)
    res = {}
    for l in r.out.split('\n'):
        if l.startswith('"{'):
            o = json.loads(json.loads(l))
            res.setdefault(json.dumps(o['cfg'], sort_keys=True), []).append(o)
    return res

TOOL = '''#!/bin/sh
n=$(($(cat "$VF_LOG.%(t)s" 2>/dev/null || echo 0) + 1)); echo $n > "$VF_LOG.%(t)s"
{ echo "%(t)s"; for a in "$@"; do printf '%%s\\n' "$a"; done; echo; } >> "$VF_LOG"
if [ "$VF_FAULT" = "%(t)s" ] && [ "$VF_N" = $n ]; then
  case "$VF_HOW" in fail) echo "tool fails" >&2; exit 3;; kill) kill -9 $$;;
    killsh) case "$(cat /proc/$PPID/comm)" in sh|dash|bash) kill -9 $PPID;; esac; kill -9 $$;; esac
fi
%(run)s
'''
def tools():
    d = vf.subdir('drive')
    b = d + '/bin'
    os.makedirs(b, exist_ok=True); os.makedirs(d + '/t', exist_ok=True)
    def tool(path, t, run):
        with open(path, 'w') as f: f.write(TOOL % dict(t=t, run=run))
        os.chmod(path, 0o755)
    tool(b + '/as', 'as', '[ -n "$AS" ] && { echo "the wrong assembler" >&2; exit 9; }\nexec /usr/bin/as "$@"')
    tool(b + '/myas', 'as', 'exec /usr/bin/as "$@"')
    tool(b + '/gcc', 'ld', 'case " $* " in *" -shared "*) exec /usr/bin/gcc "$@";; *) exec /usr/bin/gcc -Wl,--no-as-needed "$@" "$VF_START";; esac')
    def gcc(*a): subprocess.run(['/usr/bin/gcc', *a], check=True, cwd=d + '/t', stdin=subprocess.DEVNULL, stderr=subprocess.PIPE)
    with open(d + '/t/start.c', 'w') as f:
        f.write('#include <stdio.h>\n' + ''.join('int unit_%d(void) __attribute__((weak));\n' % j for j in (1, 2, 3, 9)) + 'int main() {\n' + ''.join('if (unit_%d) printf("%%d\\n", unit_%d());\n' % (j, j) for j in (1, 2, 3, 9)) + 'return 0; }\n')
    gcc('-fPIC', '-c', 'start.c')
    for j in (1, 2, 3, 9):
        with open('%s/t/s%d.s' % (d, j), 'w') as f:
            f.write('\t.text\n\t.globl unit_%d\n\t.type unit_%d, @function\nunit_%d:\n\tmovl $%d, %%eax\n\tret\n\t.section .note.GNU-stack,"",@progbits\n' % (j, j, j, j))
        gcc('-c', 's%d.s' % j, '-o', 'o%d.o' % j)
        gcc('-shared', 'o%d.o' % j, '-o', 'so%d.so' % j)
    os.makedirs(d + '/t/lib', exist_ok=True)
    subprocess.run(['ar', 'rcs', 'lib/libhelper.a', 'o9.o'], check=True, cwd=d + '/t', stderr=subprocess.PIPE)
    return d

C = '#define NAME unit_%d\n#define MARK marker_%d\nint MARK;\n#ifdef X\nint defd_%d = X;\n#endif\nint NAME(void) { return %d; }\n'
def content(T, kind, j):
    c = C % (j, j, j, j)
    return {'c': c, 'cx': c + 'int bad_%d(void) { return undeclared; }\n' % j, 'ci': '#include "no-such-file.h"\n' + c, 'ce': '',
            's': lambda: open('%s/t/s%d.s' % (T, j)).read(), 'sx': 'unit_%d:\n\tnosuchinstruction %%eax, 1\n' % j,
            'o': lambda: open('%s/t/o%d.o' % (T, j), 'rb').read(), 'so': lambda: open('%s/t/so%d.so' % (T, j), 'rb').read()}.get(kind)
EXT = {'c': 'c', 'cx': 'c', 'cm': 'c', 'cd': 'c', 'ce': 'c', 'ci': 'c', 's': 's', 'sx': 's', 'sm': 's', 'o': 'o', 'om': 'o', 'so': 'so'}
STYLE = {'plain': 'u%d', 'space': 'u %d', 'sub': 'sub/u%d', 'dots': 'u%d.x.c.y', 'shell': "u'%d$x;y&z"}
def base(cfg, j): return STYLE[cfg['style']] % j
def outname(cfg):
    return {'none': None, 'fullstdout': None, 'file': {'plain': 'out', 'space': 'o u t', 'sub': 'sub/out.x', 'dots': 'out.c.x', 'shell': "out'$x;y&z"}[cfg['style']], 'nodir': 'nodir/out', 'dir': 'adir', 'full': 'full', 'dash': '-'}[cfg['out']]

def args(cfg, T, r):
    ins = [base(cfg, j + 1) + '.' + EXT[k] for j, k in enumerate(cfg['in'])]
    o = outname(cfg)
    opts = [] if cfg['mode'] == 'link' else [['-' + cfg['mode']]]
    has = lambda x: x in cfg['opt']
    if o is not None: opts.append(['-o' + o] if has('ojoin') else ['-o', o])
    opts += [v for k, v in {'v': ['-v'], 'D': ['-DX=5'], 'Dsep': ['-D', 'X=5'], 'print': ['--print-filenames'], 'g': ['-g'], 'lib': ['-L' + T + '/t/lib', '-lhelper', '-Wl,-uunit_9'],
                            'libsep': ['-L', T + '/t/lib', '-l', 'helper', '-Wl,-uunit_9'], 'shared': ['-shared'], 'unknown': ['-zzz'], 'cjunk': ['-cjunk'], 'ejunk': ['-Ejunk'], 'sjunk': ['-Sjunk']}.items() if has(k)]
    if has('noinput'): ins = []
    # the options may come in any order, between the inputs too
    r.shuffle(opts)
    seq = [[i] for i in ins]
    for x in opts: seq.insert(r.randint(0, len(seq)), x)
    if has('noarg'): seq.append(['-o'])
    return [a for x in seq for a in x]

def tree(d):
    res = {}
    for p, ds, fs in os.walk(d):
        for f in fs: res[os.path.relpath(os.path.join(p, f), d)] = os.path.join(p, f)
    return res

def describes(path, want, cfg):
    """None or what is wrong with the file at path, which should be want (k, us)"""
    k, us = want
    if k in ('pre', 'asm'):
        t = open(path, errors='replace').read()
        return text_is(t, k, us, cfg)
    if k == 'obj' or k == 'shared':
        if not os.path.getsize(path): return 'is empty'
        t = subprocess.run(['nm', '-D', path] if k == 'shared' else ['nm', path], capture_output=True, text=True, stdin=subprocess.DEVNULL)
        if t.returncode: return 'is no %s file' % k
        has = {int(m) for m in re.findall(r' T unit_(\d+)$', t.stdout, re.M)}
        want = {j for j in us if cfg['in'][j - 1] != 'ce'} | ({9} if k == 'shared' and lib(cfg) else set())
        want = {j for j in want if j == 9 or not (k == 'shared' and cfg['in'][j - 1] == 'so')}
        if has - {j + 1 for j, x in enumerate(cfg['in']) if x == 'so'} != want: return 'has the units %s, not %s' % (sorted(has), sorted(want))
        if k == 'obj':
            d = {int(m) for m in re.findall(r' [DBd] defd_(\d+)$', t.stdout, re.M)}
            if d != {j for j in want if define(cfg) and cfg['in'][j - 1] == 'c'}: return 'has definitions for %s' % sorted(d)
        return None
    r = subprocess.run([path], capture_output=True, text=True, timeout=10, stdin=subprocess.DEVNULL, cwd=os.path.dirname(path) if cfg['style'] != 'sub' else os.path.dirname(os.path.dirname(path)) if cfg['out'] != 'none' else os.path.dirname(path), env=dict(os.environ, LD_LIBRARY_PATH=os.path.dirname(path)))
    got = r.stdout.split()
    want = [str(j) for j in us] + (['9'] if lib(cfg) else [])
    return None if not r.returncode and got == want else 'has the units %s, not %s (status %s)' % (got, want, r.returncode)
def lib(cfg): return 'lib' in cfg['opt'] or 'libsep' in cfg['opt']
def define(cfg): return 'D' in cfg['opt'] or 'Dsep' in cfg['opt']
def text_is(t, k, us, cfg):
    us = [j for j in us if cfg['in'][j - 1] != 'ce']
    if k == 'pre':
        got = [int(m) for m in re.findall(r'^int marker_(\d);$', t, re.M)]
        names = [int(m) for m in re.findall(r'^int unit_(\d)\(void\)', t, re.M)]
        d = [int(m) for m in re.findall(r'^int defd_(\d) = 5;$', t, re.M)]
        if re.search(r'#define|\.text', t): return 'is not preprocessed'
        return None if got == names == us and d == (us if define(cfg) else []) else 'has the units %s, not %s (defined: %s)' % (got, us, d)
    got = [int(m) for m in re.findall(r'^unit_(\d):', t, re.M)]
    d = [int(m) for m in re.findall(r'^defd_(\d):', t, re.M)]
    return None if got == us and d == (us if define(cfg) else []) else 'has the units %s, not %s (defined: %s)' % (got, us, d)

def run(cfg, outs, T, key):
    """None or what is wrong; the command"""
    r = random.Random('%s %s' % (vf.SEED, key))
    d = vf.jobdir('drive')
    w = d + '/w'
    os.makedirs(w + '/sub'); os.makedirs(w + '/adir'); os.symlink('/dev/full', w + '/full')
    before = {}
    for j, k in enumerate(cfg['in']):
        n = base(cfg, j + 1) + '.' + EXT[k]
        if k == 'cd': os.makedirs(w + '/' + n)
        x = content(T, k, j + 1)
        if x is None: continue
        x = x() if callable(x) else x
        before[n] = x if isinstance(x, bytes) else x.encode()
        with open(w + '/' + n, 'wb') as f: f.write(before[n])
    a = args(cfg, T, r)
    env = vf.clean_env(dict(VF_LOG=d + '/log', VF_START=T + '/t/start.o', VF_FAULT=cfg['fault']['t'], VF_N=str(cfg['fault']['n']), VF_HOW=cfg['fault']['how']))
    env['PATH'] = T + '/bin:' + env.get('PATH', '/usr/bin:/bin')
    env.pop('AS', None)
    if 'as' in cfg['opt']: env['AS'] = T + '/bin/myas'
    so = open('/dev/full', 'w') if cfg['out'] == 'fullstdout' else open(d + '/stdout', 'w')
    try: p = subprocess.run([vf.wcc_path(), *a], cwd=w, env=env, stdin=subprocess.DEVNULL, stdout=so, stderr=open(d + '/stderr', 'w'), timeout=30)
    except subprocess.TimeoutExpired: return 'the driver does not end', a, d
    finally: so.close()
    failed = outs[0]['failed']
    got = {n: p_ for n, p_ in tree(w).items() if n != 'full'}
    for n, x in before.items():
        if n not in got: return 'the input %s is gone' % n, a, d
        if open(got.pop(n), 'rb').read() != x: return 'the input %s was changed' % n, a, d
    if p.returncode < 0: return 'the driver ends by signal %d' % -p.returncode, a, d
    if failed and not p.returncode: return 'the driver reports success, but a phase failed', a, d
    if not failed and p.returncode: return 'the driver reports failure (%d): %s' % (p.returncode, open(d + '/stderr').read()[-300:]), a, d
    def name(f):
        n = f['name']
        return outname(cfg) if n[0] == 'out' else n[0] if len(n) == 1 else base(cfg, n[1]) + '.' + n[0]
    allowed = [{name(f): (f['k'], f['us']) for f in o['files']} for o in outs]
    if not any(set(x) == set(got) for x in allowed):
        return 'the files %s appear, prescribed: %s' % (sorted(got), ' or '.join(str(sorted(x)) for x in allowed)), a, d
    x = next(x for x in allowed if set(x) == set(got))
    for n in got:
        b = describes(got[n], x[n], cfg)
        if b: return 'the file %s %s' % (n, b), a, d
    calls = [x.split('\n') for x in open(d + '/log').read().split('\n\n') if x.strip()] if os.path.exists(d + '/log') else []
    calls = [[y for y in x if y] for x in calls]
    if not failed:
        nas = sum(1 for x in calls if x[0] == 'as')
        if nas != outs[0]['nas']: return 'the assembler ran %d times, prescribed: %d' % (nas, outs[0]['nas']), a, d
        nld = sum(1 for x in calls if x[0] == 'ld')
        if nld != (cfg['mode'] == 'link'): return 'the linker ran %d times' % nld, a, d
        if cfg['mode'] in ('E', 'S') and cfg['out'] != 'fullstdout' and outs[0]['stdout'] or cfg['mode'] == 'E' and cfg['out'] == 'none':
            us = [j for s in outs[0]['stdout'] for j in s['us']]
            b = text_is(open(d + '/stdout').read(), 'pre' if cfg['mode'] == 'E' else 'asm', us, cfg)
            if b: return 'standard output ' + b, a, d
        if nld:       # the inputs reach the linker in order
            ld = next(x for x in calls if x[0] == 'ld')
            order = [x for x in ld if x.startswith('/tmp/') and x.endswith('.o') or x in before]
            want = [base(cfg, j + 1) + '.' + EXT[k] if k in ('o', 'so') else None for j, k in enumerate(cfg['in'])]
            if [x if x in before else None for x in order] != want: return 'the linker gets %s' % order, a, d
    left = {x for call in calls for x in call if x.startswith('/tmp/') and not x.startswith((d, T)) and re.search(r'\.[so]$', x) and os.path.exists(x)}
    if left: return 'temporary files are left: %s' % sorted(left), a, d
    shutil.rmtree(d, ignore_errors=True)
    return None, a, d

def check_family(c, family, maxin, T, n=None):
    res = outcomes(c, family, maxin)
    keys = sorted(res)
    c.count('configurations', len(keys))
    if n and n < len(keys): keys = random.Random(vf.SEED).sample(keys, n)
    def one(key):
        cfg = json.loads(key)
        for again in (0, 1):
            b, a, d = run(cfg, res[key], T, key)
            if not b: break
        c.traces(); c.count('runs of the driver' + (' that fail' if res[key][0]['failed'] else ''))
        if b:
            import shlex
            c.violation('driver: %s: wcc %s' % (b, ' '.join(shlex.quote(x) for x in a)), {'cfg.json': key, 'command.txt': ' '.join(shlex.quote(x) for x in a) + '\nin ' + d + '\n'}, key='driver:' + key)
    vf.pmap(one, keys)
