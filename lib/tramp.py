"""Trampolines that check the calling convention of the System V ABI: a function f that is called
across translation units is linked with --wrap=f; __wrap_f checks the state at the call (stack
alignment, direction flag, empty x87 stack), fills the callee-saved registers with patterns and the
scratch registers and the undefined upper halves of int arguments with garbage, calls f, checks that
f preserved what it must, fills the scratch registers and the undefined part of the result with
garbage, and returns."""
PAT = dict(rbx=0x5bad0b0b00010b0b, rbp=0x5bad0b9900020bbb, r12=0x5bad121200031212, r13=0x5bad131300041313, r14=0x5bad141400051414, r15=0x5bad151500061515)
GARB = 0x7eadbeef
C = r'''
#include <stdio.h>
#include <unistd.h>
char vf_env[32]; long vf_stack[1 << 20]; long *vf_ssp = vf_stack; long vf_rax, vf_rdx; double vf_x[2] = {1.5e300, -3.25e-200};
void vf_fail(char *f, long what) {
    static char *n[] = {"", "the stack is not 16-byte aligned at the call of", "the x87 stack is not empty at the call of", "the direction flag is set at the call of",
        "the stack pointer is wrong on return from", "rbx is not preserved by", "rbp is not preserved by", "r12 is not preserved by", "r13 is not preserved by",
        "r14 is not preserved by", "r15 is not preserved by", "mxcsr is not preserved by", "the x87 control word is not preserved by", "the x87 stack is not right on return from",
        "al is not a number of vector registers at the call of"};
    printf("ABI: %s %s\n", n[what], f); fflush(stdout); _exit(95);
}
'''
def cls(t):
    """int32 / int64 / flt / None (classification needs the layout)"""
    if t['c'] == 'int': return 'int32' if t['n'] in ('c', 'uc', 's', 'us', 'i', 'u') else 'int64'
    if t['c'] == 'ptr' or t['c'] == 'arr': return 'int64'
    if t['c'] == 'flt': return 'ld' if t['n'] == 'ld' else 'sse'
    return None

REG = ['rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9']
REG32 = dict(rdi='edi', rsi='esi', rdx='edx', rcx='ecx', r8='r8d', r9='r9d')
def asm(fs):
    """fs: [(name, function type)]"""
    o = ['.text']
    for x, t in fs:
        p = []; w = p.append
        def fail(n): return 'vf_fail_%s_%d' % (x, n)
        def chk(cc, n): w('%s %s' % (cc, fail(n)))
        codes = set(range(1, 15))
        w('.globl __wrap_%s' % x); w('__wrap_%s:' % x)
        w('mov %rsp,%r11'); w('and $15,%r11'); w('cmp $8,%r11'); chk('jne', 1)
        w('mov vf_ssp(%rip),%r11'); w('mov (%rsp),%r10'); w('mov %r10,(%r11)'); w('mov %rsp,8(%r11)')
        for i, r in enumerate(PAT): w('mov %%%s,%d(%%r11)' % (r, 16 + 8 * i))
        w('stmxcsr 64(%r11)'); w('fnstcw 68(%r11)'); w('add $80,%r11'); w('mov %r11,vf_ssp(%rip)')
        w('fnstenv vf_env(%rip)'); w('fldenv vf_env(%rip)'); w('cmpw $0xffff,vf_env+8(%rip)'); chk('jne', 2)
        w('pushfq'); w('pop %r10'); w('test $0x400,%r10'); chk('jne', 3)
        # garbage in the upper halves of int arguments
        cs = [cls(q) for q in t['ps']]
        if None not in cs and t['ret']['c'] != 'su':
            ni = 0; ns = 0; st = 8
            for c in cs:
                if c == 'sse':
                    ns += 1
                    if ns > 8: st += 8
                elif c == 'ld': st = (st - 8 + 15) // 16 * 16 + 8 + 16
                else:
                    if ni < 6:
                        if c == 'int32':
                            w('mov %%%s,%%%s' % (REG32[REG[ni]], REG32[REG[ni]])); w('movabs $0x%x,%%r10' % (GARB << 32)); w('or %%r10,%%%s' % REG[ni])
                        ni += 1
                    else:
                        if c == 'int32': w('movl $0x%x,%d(%%rsp)' % (GARB, st + 4))
                        st += 8
        if t['var']: w('cmp $8,%al'); chk('ja', 14)
        w('movzbl %al,%eax')
        w('movabs $0x%x,%%r10' % (GARB << 32)); w('or %r10,%rax')
        w('lea 1f(%rip),%r10'); w('mov %r10,(%rsp)')
        for r, v in PAT.items(): w('movabs $0x%x,%%%s' % (v, r))
        for i in range(8, 16): w('movsd vf_x+%d(%%rip),%%xmm%d' % (i % 2 * 8, i))
        w('movabs $0x%x,%%r10' % (GARB * 0x10001)); w('mov %r10,%r11')
        w('jmp __real_%s' % x)
        w('1:')
        w('mov vf_ssp(%rip),%r11'); w('sub $80,%r11'); w('mov %r11,vf_ssp(%rip)')
        w('lea -8(%rsp),%r10'); w('cmp %r10,8(%r11)'); chk('jne', 4)
        for i, (r, v) in enumerate(PAT.items()):
            w('movabs $0x%x,%%r10' % v); w('cmp %%r10,%%%s' % r); chk('jne', 5 + i)
        w('stmxcsr 72(%r11)'); w('mov 72(%r11),%r10d'); w('xor 64(%r11),%r10d'); w('test $0xffc0,%r10d'); chk('jne', 11)
        w('fnstcw 72(%r11)'); w('mov 72(%r11),%r10w'); w('cmp 68(%r11),%r10w'); chk('jne', 12)
        w('pushfq'); w('pop %r10'); w('test $0x400,%r10'); chk('jne', 3)
        c = cls(t['ret'])
        if c is None and t['ret']['c'] == 'su': pass
        elif c == 'ld':
            # exactly st(0) is in use: top = 7, its tag (the upper two bits) is not empty
            w('fnstenv vf_env(%rip)'); w('fldenv vf_env(%rip)'); w('mov vf_env+8(%rip),%r10w'); w('and $0x3fff,%r10w'); w('cmp $0x3fff,%r10w'); chk('jne', 13)
            w('cmpw $0xc000,vf_env+8(%rip)'); chk('jae', 13)
        else: w('fnstenv vf_env(%rip)'); w('fldenv vf_env(%rip)'); w('cmpw $0xffff,vf_env+8(%rip)'); chk('jne', 13)
        for i, r in enumerate(PAT): w('mov %d(%%r11),%%%s' % (16 + 8 * i, r))
        if c == 'int32': w('mov %eax,%eax'); w('movabs $0x%x,%%r10' % (GARB << 32)); w('or %r10,%rax')
        elif c in ('sse', 'ld') or t['ret']['c'] == 'void': w('movabs $0x%x,%%rax' % (GARB * 0x10001))
        if t['ret']['c'] != 'su': w('movabs $0x%x,%%rdx' % (GARB * 0x10003))
        for r in ('rcx', 'rsi', 'rdi', 'r8', 'r9', 'r10'): w('movabs $0x%x,%%%s' % (GARB * 0x10001 + len(r) + ord(r[1]), r))
        for i in range(0 if c in ('int32', 'int64', 'ld') or t['ret']['c'] == 'void' else 1 if c == 'sse' else 2, 16): w('movsd vf_x+%d(%%rip),%%xmm%d' % (i % 2 * 8, i))
        w('jmp *(%r11)')
        for n in sorted(codes):
            w('%s: lea 9f(%%rip),%%rdi' % fail(n)); w('mov $%d,%%esi' % n); w('and $-16,%rsp'); w('cld'); w('fninit'); w('call vf_fail')
        w('9: .asciz "%s"' % x)
        o += ['    ' + l if not l.endswith(':') else l for l in p]
    o.append('.section .note.GNU-stack,"",@progbits')
    return '\n'.join(o) + '\n'

def functions(p, extra=()):
    """the wrappable functions of a program: [(name, type)]"""
    out = {}
    for u in p.units:
        for d in u['ds']:
            if d['dk'] == 'fn' and d['f'] and d['sc'] != 'static': out[d['x']] = d['t']
    V = dict(c='void'); L = dict(c='int', n='l'); UL = dict(c='int', n='ul')
    out['obs'] = dict(c='fn', ret=V, ps=[L, UL], var=False)
    return list(out.items())

def wrap_flags(fs): return ['-Wl,' + ','.join('--wrap=' + x for x, _ in fs)]
