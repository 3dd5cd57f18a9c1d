"""Replays tabulated spec results into wcc-compiled functions `long fN(long-passed args)`.
A generic gcc-compiled driver calls every function with every operand tuple of its table and
reports the calls whose result differs."""
import os, struct
import vf

DRIVER = r'''
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
typedef long (*fn)(long, long);
extern fn ftab[]; extern long nfn;
static sigjmp_buf jb; static long cur; static int depth;
static void h(int s) { if (depth) siglongjmp(jb, s); _exit(98); }
static long *rd(FILE *f, long n) { long *p = malloc(n * 8 + 8); if (fread(p, 8, n, f) != (size_t)n) exit(96); return p; }
static long bad, calls;
int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "rb"); struct sigaction sa = {0};
    sa.sa_handler = h; sa.sa_flags = SA_NODEFER | SA_ONSTACK;
    static char st[65536]; stack_t ss = { .ss_sp = st, .ss_size = sizeof st }; sigaltstack(&ss, 0);
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGBUS, &sa, 0);
    for (cur = 0; cur < nfn; cur++) {
        long *hd = rd(f, 2), na = hd[0], nb = hd[1];
        long *a = rd(f, na), *b = rd(f, nb), *def = rd(f, na * nb), *exp = rd(f, na * nb);
        volatile long shown = 0;
        for (volatile long i = 0; i < na; i++) for (volatile long j = 0; j < nb; j++) {
            long k = i * nb + j; if (!def[k]) continue;
            calls++;
            int s = sigsetjmp(jb, 1); long r = 0;
            if (!s) { depth = 1; alarm(10); r = ftab[cur](a[i], b[j]); depth = 0; } else depth = 0;
            if (s || r != exp[k]) { bad++; if (shown++ < 3) { printf("BAD %ld %lx %lx %lx %lx %d\n", cur, a[i], b[j], r, exp[k], s); fflush(stdout);} if (s && shown > 3) goto next; }
        }
next:   free(hd); free(a); free(b); free(def); free(exp);
    }
    printf("DONE %ld %ld\n", calls, bad);
    return 0;
}
'''
def word(l): return l[0] | l[1] << 16 | l[2] << 32 | l[3] << 48
def s64(x): return x - (1 << 64) if x >> 63 else x

class Fn:
    """body: C source with {f} for the function's name; table: na x nb; r[i][j] expected or None."""
    __slots__ = ('key', 'body', 'a', 'b', 'r')
    def __init__(s, key, body, a, b, r): s.key, s.body, s.a, s.b, s.r = key, body, a, b, r

_drv = None
def driver_o():
    global _drv
    if not _drv:
        d = vf.subdir('drv'); open(d + '/d.c', 'w').write(DRIVER)
        r = vf.run(['gcc', '-w', '-O1', '-c', 'd.c', '-o', 'd.o'], cwd=d)
        if r.rc: raise vf.ToolError(r.err)
        _drv = d + '/d.o'
    return _drv

def run_chunk(name, prelude, fns, flags=(), timeout=120):
    """Returns (list of (Fn, kind, text), number of calls). kind: 'compile', 'value', 'crash'."""
    d = vf.subdir('fn-' + name)
    src = prelude + '\n'.join(f.body.replace('{f}', 'f%d' % i) for i, f in enumerate(fns)) + '\n'
    open(d + '/t.c', 'w').write(src)
    r = vf.wcc_compile(d + '/t.c', d + '/t.o', flags, timeout)
    if r.rc or not os.path.exists(d + '/t.o'):
        if len(fns) == 1: return [(fns[0], 'compile', 'wcc rejects or crashes: rc=%s %s' % (r.rc, r.err[-400:]))], 0
        m = len(fns) // 2
        a, na = run_chunk(name + 'a', prelude, fns[:m], flags, timeout)
        if len(a) >= 8: return a, na
        b, nb = run_chunk(name + 'b', prelude, fns[m:], flags, timeout)
        return a + b, na + nb
    with open(d + '/tab.s', 'w') as o:
        o.write('.section .note.GNU-stack,"",@progbits\n.data\n.globl ftab\n.globl nfn\nnfn: .quad %d\nftab:\n' % len(fns))
        for i in range(len(fns)): o.write('.quad f%d\n' % i)
    with open(d + '/tab.bin', 'wb') as o:
        M = (1 << 64) - 1
        for f in fns:
            na, nb = len(f.a), len(f.b)
            dd, ee = [], []
            for row in f.r:
                for x in row: dd.append(0 if x is None else 1); ee.append(0 if x is None else x & M)
            vals = [na, nb] + [x & M for x in f.a] + [x & M for x in f.b] + dd + ee
            o.write(struct.pack('<%dQ' % len(vals), *vals))
    r = vf.run(['gcc', '-no-pie', '-z', 'noexecstack', 't.o', 'tab.s', driver_o(), '-o', 't'], cwd=d)
    if r.rc: return [(fns[0], 'compile', 'does not link: ' + r.err[-400:])], 0
    r = vf.run(['./t', 'tab.bin'], cwd=d, timeout=timeout, mem=2 << 30)
    bad, calls, done = [], 0, False
    for l in r.out.split('\n'):
        w = l.split()
        if w and w[0] == 'BAD':
            f = fns[int(w[1])]
            bad.append((f, 'crash' if w[6] != '0' else 'value', 'f(%s, %s) = %s, specified %s%s' % (
                s64(int(w[2], 16)), s64(int(w[3], 16)), s64(int(w[4], 16)), s64(int(w[5], 16)), ' (signal %s)' % w[6] if w[6] != '0' else '')))
        elif w and w[0] == 'DONE': calls = int(w[1]); done = True
    if not done: bad.append((fns[0], 'crash', 'the test program died: rc=%s timeout=%s %s' % (r.rc, r.timeout, r.err[-300:])))
    import shutil
    if not os.environ.get('VF_KEEP'): shutil.rmtree(d, ignore_errors=True)
    return bad, calls

def run_all(check, prelude, fns, chunk=2000, flags=(), tag='t', maxrep=40):
    """Runs all functions in parallel chunks, confirms failures by a second run and reports them."""
    chunks = [fns[i:i + chunk] for i in range(0, len(fns), chunk)]
    vf.wcc_path(); driver_o()
    res = vf.pmap(lambda ic: run_chunk('%s%d' % (tag, ic[0]), prelude, ic[1], flags), list(enumerate(chunks)))
    tot = sum(n for _, n in res)
    seen = {}
    for bad, _ in res:
        for f, kind, text in bad: seen.setdefault(f.key, (f, kind, text))
    rep = 0
    for key, (f, kind, text) in seen.items():
        if rep >= maxrep: break
        again, _ = run_chunk('re%s%d' % (tag, rep), prelude, [f], flags)    # report only what repeats
        if not again and kind != 'crash': continue
        if not again: text += ' (not repeated alone)'
        rep += 1
        check.violation('%s: %s\n%s' % (key, again[0][2] if again else text, f.body), {'t.c': prelude + f.body.replace('{f}', 'f0')}, key)
    check.count('functions_replayed', len(fns)); check.traces(tot)
    return seen
