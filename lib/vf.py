"""Common machinery of all checks: building wcc from /repo's working tree in a scratch
directory, running TLC, running compiled programs under limits, reporting."""
import os, sys, json, time, subprocess, shutil, tempfile, resource, glob, hashlib, random, signal, atexit, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
NCPU = min(8, os.cpu_count() or 4)
TLA = '/opt/veriftools/tla'

class ToolError(Exception):
    """The machinery itself failed (never reported as a violation)."""

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vf-')
        os.chmod(_scratch, 0o755)
        pid = os.getpid()
        def clean():
            if os.getpid() == pid and not os.environ.get('VF_KEEP'): shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch

def subdir(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d

def clean_env(extra=None):
    e = {k: v for k, v in os.environ.items() if k not in ('MAKEFLAGS', 'MFLAGS', 'GCC_OPTS', 'WCC_OPTS', 'AS', 'PRINT_IR', 'LD_PRELOAD')}
    e.update(PATH='/opt/vp/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', LC_ALL='C', HOME='/root')
    e['TMPDIR'] = scratch()
    if extra: e.update(extra)
    return e

def _limits(cpu, mem, fsize):
    w = ['/usr/bin/prlimit', '--core=0']
    if cpu: w.append('--cpu=%d:%d' % (cpu, cpu + 1))
    if mem: w.append('--as=%d' % mem)
    if fsize: w.append('--fsize=%d' % fsize)
    return w

class Res:
    def __init__(s, rc, out, err, timeout=False): s.rc, s.out, s.err, s.timeout = rc, out, err, timeout
    def __repr__(s): return 'rc=%r timeout=%r out=%r err=%r' % (s.rc, s.timeout, s.out[:300], s.err[:300])

def run(cmd, timeout=60, cwd=None, env=None, stdin=b'', cpu=None, mem=4 << 30, fsize=256 << 20, text=True):
    """Run a command in its own session under limits; never raises on failure of the command."""
    p = subprocess.Popen(_limits(cpu or int(timeout) + 5, mem, fsize) + list(cmd), cwd=cwd or scratch(), env=env or clean_env(), stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True)
    to = False
    try:
        out, err = p.communicate(stdin if isinstance(stdin, bytes) else stdin.encode(), timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, err = p.communicate()
    if text: out, err = out.decode('latin-1'), err.decode('latin-1')
    return Res(p.returncode, out, err, to)

# ------------------------------------------------------------------ building
GENERATED = {'internals.c', 'instrrules-generated.c'}
def copy_sources(dst):
    os.makedirs(dst, exist_ok=True)
    for f in os.listdir(REPO):
        p = os.path.join(REPO, f)
        if os.path.isfile(p) and (f.endswith(('.c', '.h')) or f == 'Makefile') and f not in GENERATED:
            shutil.copy2(p, os.path.join(dst, f))
    shutil.copytree(os.path.join(REPO, 'include'), os.path.join(dst, 'include'), dirs_exist_ok=True)

_wcc = {}
_lock = threading.RLock()
def build_wcc(opts=''):
    """Build wcc (and libwcc.a) from /repo's working tree; returns the directory."""
    with _lock: return _build_wcc(opts)
def _build_wcc(opts):
    if opts in _wcc: return _wcc[opts]
    d = subdir('wcc' + hashlib.md5(opts.encode()).hexdigest()[:6])
    if os.environ.get('VF_WCC') and not opts:          # development only: reuse a build
        _wcc[opts] = os.environ['VF_WCC']; return _wcc[opts]
    copy_sources(d)
    env = clean_env({'GCC_OPTS': opts} if opts else None)
    r = run(['make', '--eval=.DELETE_ON_ERROR:', '-j%d' % NCPU, 'wcc'], timeout=600, cwd=d, env=env, mem=None)
    if r.rc != 0 or not os.path.exists(d + '/wcc'):
        raise ToolError('wcc does not build: ' + (r.err or r.out)[-2000:])
    _wcc[opts] = d
    return d

def wcc_path(): return build_wcc() + '/wcc'

# ------------------------------------------------------------------ TLC
class TlcResult: pass
def tlc(module, cfg=None, workers=None, timeout=600, env=None, xss='64m', xmx='6g', extra=(), expect_ok=True):
    """Run TLC on spec/<module>.tla in a scratch copy of spec/. Raises ToolError if TLC itself fails;
    returns stats and the output."""
    d = subdir('tlc-%s-%d' % (module, random.getrandbits(30)))
    for f in glob.glob(SPEC + '/*.tla') + glob.glob(SPEC + '/*.cfg'): shutil.copy(f, d)
    cmd = ['java', '-XX:+UseParallelGC', '-Xss' + xss, '-Xmx' + xmx, '-cp',
           TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar', 'tlc2.TLC',
           '-metadir', d + '/meta', '-workers', str(workers or NCPU), '-config', (cfg or module) + '.cfg', *extra, module + '.tla']
    e = clean_env(env); e.pop('JAVA_TOOL_OPTIONS', None)
    e['JAVA_TOOL_OPTIONS'] = '-Xss' + xss
    t = time.time()
    r = run(cmd, timeout=timeout, cwd=d, env=e, mem=None, fsize=None, cpu=timeout * 8)
    res = TlcResult()
    res.out, res.rc, res.wall, res.dir, res.timeout = r.out, r.rc, time.time() - t, d, r.timeout
    res.ok = r.rc == 0 and 'No error has been found' in r.out or ('-simulate' in extra and r.rc == 0)
    res.states = res.transitions = 0
    import re
    m = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct states found', r.out)
    if m:
        res.transitions = int(m[-1][0].replace(',', '')); res.states = int(m[-1][1].replace(',', ''))
    if expect_ok and not res.ok:
        o = r.out[r.out.find('Error:'):] if 'Error:' in r.out else r.out + r.err; raise ToolError('TLC failed on %s (rc %s%s): %s ... %s' % (module, r.rc, ' timeout' if r.timeout else '', o[:2500], o[-800:]))
    shutil.rmtree(d + '/meta', ignore_errors=True)
    return res

def read_ndjson(path):
    return [json.loads(l) for l in open(path) if l.strip()]

# ------------------------------------------------------------------ compiling and running C
OBS_C = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
static unsigned long obs_count;
static void lim(void) { if (++obs_count > 2000000) { fflush(stdout); _exit(97); } }
void obs(long id, unsigned long v) { lim(); printf("%ld %lx\n", id, v); }
void obsb(long id, void *p, long n) { lim(); unsigned char *c = p; printf("%ld ", id); for (long i = 0; i < n; i++) printf("%02x", c[i]); printf("\n"); }
void obsd(long id, double v) { lim(); unsigned long u; memcpy(&u, &v, 8); printf("%ld %lx\n", id, u); }
void obsf(long id, float v) { lim(); unsigned int u; memcpy(&u, &v, 4); printf("%ld %x\n", id, u); }
void obsl(long id, long double v) { lim(); unsigned char u[16]; memset(u, 0, 16); memcpy(u, &v, 10); printf("%ld ", id); for (int i = 9; i >= 0; i--) printf("%02x", u[i]); printf("\n"); }
'''
OBS_DECL = 'void obs(long, unsigned long);\nvoid obsb(long, void *, long);\nvoid obsd(long, double);\nvoid obsf(long, float);\nvoid obsl(long, long double);\n'
_obs = None
def obs_o():
    with _lock: return _obs_o()
def _obs_o():
    global _obs
    if _obs is None:
        d = subdir('obs')
        open(d + '/obs.c', 'w').write('#include <unistd.h>\n' + OBS_C)
        r = run(['gcc', '-O1', '-c', 'obs.c', '-o', 'obs.o'], cwd=d)
        if r.rc: raise ToolError('gcc failed on obs.c: ' + r.err)
        _obs = d + '/obs.o'
    return _obs

import itertools
_jobs = itertools.count()
def jobdir(name):
    return subdir('cc/%s-%d' % (name, next(_jobs)))

def wcc_compile(src_path, out_path, flags=(), timeout=60):
    return run([wcc_path(), *flags, '-c', src_path, '-o', out_path], timeout=timeout, cwd=os.path.dirname(src_path))

def cc_run(name, src, flags=(), timeout=20, cc='wcc', extra_objs=(), ldflags=(), keep=False):
    """Compile src with wcc, link with obs.o (gcc as linker), run. Returns (stage, Res): stage is
    'compile', 'link', or 'run'."""
    d = jobdir(name)
    p = d + '/t.c'
    with open(p, 'w', encoding='latin-1') as f: f.write(src)
    try:
        if cc == 'wcc': r = wcc_compile(p, d + '/t.o', flags)
        else: r = run(['gcc', *(['-w'] if cc == 'gcc' else []), '-fno-strict-aliasing', '-fwrapv', *flags, '-c', p, '-o', d + '/t.o'], timeout=60)
        if r.rc or not os.path.exists(d + '/t.o'): return 'compile', r
        r = run(['gcc', '-no-pie', '-z', 'noexecstack', d + '/t.o', *extra_objs, obs_o(), '-o', d + '/t', *ldflags], cwd=d)
        if r.rc: return 'link', r
        return 'run', run([d + '/t'], timeout=timeout, cwd=d, cpu=int(timeout) + 2, mem=2 << 30, fsize=512 << 20)
    finally:
        if not keep and not os.environ.get('VF_KEEP'): shutil.rmtree(d, ignore_errors=True)

def pmap(f, xs, n=None):
    with ThreadPoolExecutor(n or NCPU) as ex: return list(ex.map(f, xs))

# ------------------------------------------------------------------ reporting
class Check:
    def __init__(s, prop, level='model_checking'):
        s.prop, s.level, s.t0 = prop, level, time.time()
        s.violations, s.cov, s.assumptions = [], dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[]), []
        s.known = load_known(prop)
        s.known_hit = {}
        s.rdir = os.path.join(VERIF, 'evidence', 'replay', prop)
        shutil.rmtree(s.rdir, ignore_errors=True)
    def add_tlc(s, res):
        s.cov['states'] += res.states; s.cov['transitions'] += res.transitions
    def count(s, key, n=1): s.cov[key] = s.cov.get(key, 0) + n
    def traces(s, n=1): s.count('traces_validated_against_impl', n)
    def sample(s, x, limit=6):
        if len(s.cov['samples']) < limit: s.cov['samples'].append(x)
    def violation(s, what, files=None, key=None):
        """key identifies the failing input; one listed in the known-findings file is only noted."""
        if key is not None and key in s.known:
            s.known_hit[key] = what; return
        n = len(s.violations)
        d = os.path.join(s.rdir, '%03d' % n)
        s.violations.append((what, d))
        if n < 25:
            os.makedirs(d, exist_ok=True)
            with open(d + '/what.txt', 'w', encoding='utf-8', errors='replace') as f: f.write(what + '\n')
            for fn, c in (files or {}).items():
                with open(os.path.join(d, fn), 'w', encoding='latin-1', errors='replace') as f: f.write(c if isinstance(c, str) else json.dumps(c, indent=1))
    def finish(s):
        c = s.cov
        if s.level in ('exploration', 'fault_enumeration'):
            pass
        ev = dict(property=s.prop, tier=TIER, seed=SEED, level=s.level, coverage=c, assumptions=s.assumptions,
                  wall_s=round(time.time() - s.t0, 1), violations=len(s.violations))
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open('%s/evidence/%s.json' % (VERIF, s.prop), 'w'), indent=1)
        for k in s.known:
            if k in s.known_hit: print('KNOWN-FINDING: property=%s %s' % (s.prop, s.known[k]))
        for what, d in s.violations[:10]:
            print('VIOLATION property=%s replay=%s' % (s.prop, d))
            print('   ' + what.replace('\n', '\n   ')[:1500])
        print('%s: %d violation(s), %.1f s, %s' % (s.prop, len(s.violations), time.time() - s.t0,
              ', '.join('%s=%s' % (k, v) for k, v in c.items() if isinstance(v, int))))
        sys.exit(1 if s.violations else 0)

def load_known(prop):
    """known_findings.txt: 'finding: property=<id> key=<key> <what fails>' and
    'fixed: property=<id> <commit> <what failed>' (the latter suppresses nothing)."""
    out = {}
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            w = l.split(None, 3)
            if len(w) == 4 and w[0] == 'finding:' and w[1] == 'property=' + prop and w[2].startswith('key='):
                out[w[2][4:]] = w[3].strip()
    return out

def main(prop, fn, level='model_checking'):
    """Run fn(check); tool failures end with exit status 3, never as a violation."""
    random.seed(SEED * 1000003 + int(prop[1:]))
    c = Check(prop, level)
    try:
        fn(c)
    except ToolError as e:
        if c.violations: c.finish()
        print('ERROR of the check: %s' % e); sys.exit(3)
    c.finish()
