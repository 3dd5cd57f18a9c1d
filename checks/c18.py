#!/usr/bin/env python3
"""C18: programs of all profiles, predicted by the abstract machine, compiled with combinations of the
code generation options: as executable, position independent executable, shared library loaded by a
host program, and shared libraries linked to the main unit."""
import sys, os, random, shutil, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, suite, cgen, cgen2, cgen3

HOST = r'''
#include <stdio.h>
#include <stdlib.h>
#include <dlfcn.h>
int main(int argc, char **argv) {
    void *h = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL);
    if (!h) { printf("dlopen: %s\n", dlerror()); return 94; }
    int (*m)(void) = (int (*)(void)) dlsym(h, "main");
    return m();
}
'''
_host = None
def host():
    global _host
    with vf._lock:
        if _host is None:
            d = vf.subdir('host'); open(d + '/h.c', 'w').write(HOST)
            r = vf.run(['gcc', '-w', '-O1', '-c', d + '/h.c', '-o', d + '/h.o'])
            if r.rc == 0: r = vf.run(['gcc', '-rdynamic', d + '/h.o', vf.obs_o(), '-o', d + '/h', '-ldl'])
            if r.rc: raise vf.ToolError('host program: ' + r.err)
            _host = d + '/h'
    return _host

OPTS = ['-g', '-O', '-fno-live-range-coalescing', '-fspill-furthest-liveness-end', '-fno-dont-spill-short-live-ranges', '-fno-optimize-arithmetic',
        '-fno-vreg-renumbering', '--trigraphs', '-Wno-integer-constant-too-large', '-Wno-warn-assignment-types-incompatible']
def options(r):
    o = [x for x in OPTS if r.random() < .3]
    r.shuffle(o)
    return [x + r.choice(['', '0', '1', '2', '3', 's']) if x == '-O' else x for x in o]

def runner(key, p, flags):
    mode, *wf = flags
    name = key
    n = len(p.units)
    if n == 1 and mode in ('lib', 'libs'): mode = 'host'
    if mode == 'exe': return suite.units_run(name, p, lambda u: ('wcc', wf))
    if mode == 'exe2':      # compiled again elsewhere, with another environment
        return suite.units_run(name + '-again-in-a-directory-of-another-name', p, lambda u: ('wcc', wf), order=list(range(n))[::-1])
    pic = ['-fPIC', *wf] if len(wf) % 2 else [*wf, '-fPIC']
    if mode == 'pie': return suite.units_run(name, p, lambda u: ('wcc', pic), ldflags=('-pie',))
    if mode == 'picexe': return suite.units_run(name, p, lambda u: ('wcc', pic if u % 2 else wf))
    # shared libraries
    d = vf.jobdir(name)
    files = {}
    try:
        for u in range(1, n + 1):
            files['u%d.c' % u] = p.text(u); open('%s/u%d.c' % (d, u), 'w', encoding='latin-1').write(files['u%d.c' % u])
        wcc = vf.wcc_path()
        if mode in ('host', 'host1'):      # the whole program is a library
            if mode == 'host1': r = vf.run([wcc, *pic, '-shared', *['u%d.c' % u for u in range(1, n + 1)], '-o', 'lib.so'], cwd=d)
            else:
                for u in range(1, n + 1):
                    r = vf.run([wcc, *pic, '-c', 'u%d.c' % u, '-o', 'u%d.o' % u], cwd=d)
                    if r.rc: return 'compile', r, files
                r = vf.run([wcc, '-shared', '-fPIC', *['u%d.o' % u for u in range(1, n + 1)], '-o', 'lib.so'], cwd=d)
            if r.rc or not os.path.exists(d + '/lib.so'): return 'compile' if r.rc else 'link', r, files
            return 'run', vf.run([host(), d + '/lib.so'], cwd=d, timeout=20, mem=2 << 30), files
        # every unit but the first one is a library of its own ('libs') or all are one ('lib')
        libs = []
        groups = [[u] for u in range(2, n + 1)] if mode == 'libs' else [list(range(2, n + 1))]
        for g in groups:
            l = 'libu%d.so' % g[0]
            r = vf.run([wcc, *pic, '-shared', *['u%d.c' % u for u in g], '-o', l], cwd=d)
            if r.rc or not os.path.exists(d + '/' + l): return 'compile' if r.rc else 'link', r, files
            libs.append(l)
        main_pic = len(wf) % 3 == 0
        r = vf.run([wcc, *(pic if main_pic else wf), '-c', 'u1.c', '-o', 'u1.o'], cwd=d)
        if r.rc: return 'compile', r, files
        r = vf.run(['gcc', '-pie' if main_pic else '-no-pie', '-rdynamic', '-z', 'noexecstack', '-Wl,--no-as-needed', 'u1.o', vf.obs_o(), *libs, '-Wl,--allow-shlib-undefined', '-Wl,-rpath,' + d, '-o', 't'], cwd=d)
        if r.rc: return 'link', r, files
        return 'run', vf.run([d + '/t'], cwd=d, timeout=20, mem=2 << 30), files
    finally:
        if not os.environ.get('VF_KEEP'): shutil.rmtree(d, ignore_errors=True)

PROFILES = [(cgen.expressions, 40), (cgen.effects, 40), (cgen.flow, 40), (cgen.stores, 40), (cgen.pressure, 40), (cgen2.scopes, 40), (cgen2.linkage, 80), (cgen3.calls, 60), (cgen3.varargs, 40)]
def check(c):
    vf.build_wcc()
    for k, (fn, n) in enumerate(PROFILES):
        r = random.Random(vf.SEED * 1000 + k)
        multi = fn in (cgen2.linkage, cgen3.calls, cgen3.varargs)
        vs = {}
        def variants(n):
            m = ['exe', 'pie', 'host' if n % 2 else 'host1', ('exe2', 'picexe')[n % 2]]
            if multi: m.append(('lib', 'libs')[n % 2])
            return [(x, *options(r)) for x in m]
        suite.profile(c, fn, n * 8 if vf.THOROUGH else n, variants=(variants,), base=500000, runner=runner)

if __name__ == '__main__': vf.main('C18', check)
