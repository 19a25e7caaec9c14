#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree into /verif/.build (content addressed)."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('RFX_REPO', '/repo')
SIM = os.path.join(VERIF, 'sim')
BUILD = os.path.join(VERIF, '.build')

SEAMS = {s: 'sim_' + s for s in '''malloc calloc free realloc reallocarray posix_memalign aligned_alloc strdup printf puts putchar
fprintf vprintf vfprintf fwrite fputs fputc fflush time clock gettimeofday clock_gettime rand random srand getenv abort exit'''.split()}
SEAMS.update({'__stack_chk_fail': 'sim_stack_chk_fail', '__assert_fail': 'sim_assert_fail', 'pthread_mutex_init': 'sim_mutex_init',
              'pthread_mutex_destroy': 'sim_mutex_destroy', 'pthread_mutex_lock': 'sim_mutex_lock', 'pthread_mutex_trylock': 'sim_mutex_trylock',
              'pthread_mutex_unlock': 'sim_mutex_unlock', 'pthread_once': 'sim_once', 'memalign': 'sim_aligned_alloc'})

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])
    return p.stdout

def sources():
    g = lambda p: sorted(glob.glob(os.path.join(REPO, p)))
    return g('src/*.c'), g('src/amd64/*.c'), g('src/amd64/*.asm')

def digest():
    h = hashlib.sha256()
    files = []
    for pat in ('src/**', 'include/**'):
        files += [f for f in glob.glob(os.path.join(REPO, pat), recursive=True) if not f.endswith(('.o', '.lo', '.la', '.a', '.so'))]
    files += glob.glob(os.path.join(SIM, '**'), recursive=True) + [os.path.abspath(__file__)]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b'\0'); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]

def undefined_and_defined(obj):
    und, dfn = set(), set()
    for l in run(['nm', obj]).splitlines():
        f = l.split()
        if len(f) == 2 and f[0] == 'U':
            und.add(f[1])
        elif len(f) == 3 and f[1] in 'TDBRCVWVi':
            dfn.add(f[2])
    return und, dfn

def code_lines(obj):
    """(file offset, bytes, text) of every instruction of an object"""
    sec, off = None, {}
    for l in run(['readelf', '-SW', obj]).splitlines():
        m = re.match(r'\s*\[\s*\d+\]\s+(\S+)\s+PROGBITS\s+([0-9a-f]+)\s+([0-9a-f]+)', l)
        if m:
            off[m.group(1)] = int(m.group(3), 16)
    for l in run(['objdump', '-d', '-w', obj]).splitlines():
        m = re.match(r'Disassembly of section (\S+):', l)
        if m:
            sec = m.group(1)
            continue
        m = re.match(r'\s*([0-9a-f]+):\t((?:[0-9a-f]{2} )+)\s*\t(.*)', l)
        if m:
            yield off[sec] + int(m.group(1), 16), bytes.fromhex(m.group(2).replace(' ', '')), m.group(3)

def patch_cpuid(obj):
    """every CPUID instruction becomes one that traps and is answered by the simulated CPU"""
    at = [o for o, b, t in code_lines(obj) if b == b'\x0f\xa2']
    if at:
        d = bytearray(open(obj, 'rb').read())
        for o in at:
            d[o:o + 2] = b'\x0f\xb9'
        open(obj, 'wb').write(d)
    return len(at)

def patch_cpuids(cobjs, aobjs):
    """patch all; true if the library's idea of the CPU is then known to come from the simulator"""
    with ThreadPoolExecutor(8) as ex:
        nc, na = list(ex.map(patch_cpuid, cobjs)), list(ex.map(patch_cpuid, aobjs))
    und = set().union(*[undefined_and_defined(o)[0] for o in cobjs])
    dfn = set().union(*[undefined_and_defined(o)[1] for o, n in zip(aobjs, na) if n])
    return (sum(nc) > 0 or bool(und & dfn)) and not any(s.startswith('__cpu_') for s in und)

def patch_isa(obj, level):
    """level 1: trap on anything beyond SSE2; level 0: trap on any SIMD register use."""
    patches = []
    for pos, b, text in code_lines(obj):
        i = 0
        pre = set()
        while i < len(b) and b[i] in (0x66, 0xf2, 0xf3):
            pre.add(b[i]); i += 1
        if i < len(b) and 0x40 <= b[i] <= 0x4f:
            i += 1
        bad = False
        if level == 0 and re.search(r'%[xyz]mm', text):
            bad = True
        if re.search(r'%[yz]mm', text) or text.startswith('v'):
            bad = True
        if b[i:i + 2] in (b'\x0f\x38', b'\x0f\x3a'):
            bad = True
        if len(b) > i + 1 and b[i] == 0x0f:
            op = b[i + 1]
            if 0xf3 in pre and op in (0xb8, 0xbd, 0xbc, 0x12, 0x16):
                bad = True
            if (0xf2 in pre or 0x66 in pre) and op in (0x7c, 0x7d, 0xd0):
                bad = True
            if 0xf2 in pre and op in (0xf0, 0x12):
                bad = True
        if bad and len(b) >= 2:
            patches.append(pos)
    d = bytearray(open(obj, 'rb').read())
    for p in patches:
        d[p:p + 2] = b'\x0f\x0b'
    open(obj, 'wb').write(d)
    return len(patches)

def variant(d, k, objs, extra=None):
    """link objs relocatably, move the seams and prefix every global symbol"""
    tmp = os.path.join(d, 'v%d.tmp.o' % k)
    out = os.path.join(d, 'v%d.o' % k)
    run(['ld', '-r', '-o', tmp] + objs)
    und, dfn = undefined_and_defined(tmp)
    ren = []
    for s in dfn:
        ren.append('%s v%d_%s' % (s, k, s))
    for s in und:
        if s in SEAMS:
            ren.append('%s %s' % (s, SEAMS[s]))
    f = os.path.join(d, 'v%d.syms' % k)
    open(f, 'w').write('\n'.join(ren) + '\n')
    cmd = ['objcopy', '--redefine-syms=' + f]
    if k == 3:
        cmd += ['--rename-section', '.data=v3data', '--rename-section', '.bss=v3bss']
    run(cmd + [tmp, out])
    return out

def stepped(d, aobj):
    """copies of the assembly objects for the instrumented build whose functions can be single-stepped: each
    global function becomes a stub that sets the trap flag (when the simulator asks for it) and jumps on"""
    funcs = sorted(set(l.split()[2] for o in aobj for l in run(['nm', o]).splitlines() if len(l.split()) == 3 and l.split()[1] == 'T') - {'cpuid_amd64'})
    res, ren = [], [x for f in funcs for x in ('--redefine-sym', '%s=astep_%s' % (f, f))]
    for o in aobj:
        q = o[:-2] + '.3.o'
        run(['objcopy', '--rename-section', '.text=v3asm'] + ren + [o, q])
        res.append(q)
    t = ['.section v3asm,"ax",@progbits', '.section v3stub,"ax",@progbits']
    for f in funcs:
        t += ['.globl ' + f, '.type %s, @function' % f, f + ': cmpb $0, sim_astep', 'je 1f', 'pushfq', 'orl $0x100, (%rsp)', 'popfq', '1: jmp astep_' + f]
    t.append('.section .note.GNU-stack,"",@progbits')
    s = os.path.join(d, 'asm_stubs.s')
    open(s, 'w').write('\n'.join(t) + '\n')
    run(['gcc', '-c', s, '-o', s[:-2] + '.o'])
    return res + [s[:-2] + '.o']

def compile_variants(d):
    core, simdc, asm = sources()
    inc = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src')]
    base = ['-g', '-std=gnu17', '-w', '-fno-pie', '-fno-common', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-fstack-protector-all', '-fno-strict-aliasing'][:8]
    simd = ['-DSIMD_USE_ACCEL=1', '-DRFX_USE_ACCEL_AMD64=1']
    jobs = []
    objs = {0: [], 1: [], 2: [], 3: []}
    def cc(k, src, cmd):
        o = os.path.join(d, 'v%d_%s.o' % (k, os.path.basename(src).replace('.', '_')))
        objs[k].append(o)
        jobs.append(cmd + ['-c', src, '-o', o])
    for s in core + simdc:
        cc(0, s, ['gcc', '-O2'] + base + simd + inc)
        cc(3, s, ['clang', '-O1', '-fsanitize-coverage=bb,trace-pc-guard,trace-loads,trace-stores'] + [x for x in base if x not in ('-fstack-protector-all',)] + simd + inc)
    for s in core:
        cc(1, s, ['gcc', '-O2'] + base + inc)
        cc(2, s, ['gcc', '-O1', '-fno-strict-aliasing', '-fsigned-char'] + base + ['-include', os.path.join(SIM, 'portable.h')] + inc)
    aobj = []
    for s in asm:
        o = os.path.join(d, 'asm_%s.o' % os.path.basename(s)[:-4])
        aobj.append(o)
        jobs.append(['nasm', '-f', 'elf64', '-DASM_ARCH_AMD64', '-I' + os.path.join(REPO, 'src') + '/', s, '-o', o])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    # CPU identification goes to the simulated CPU
    masked = patch_cpuids(objs[0] + objs[3], aobj)
    a4, a5, npat = [], [], [0, 0]
    for o in aobj:
        for lst, lev, tag in ((a4, 1, '4'), (a5, 0, '5')):
            q = o[:-2] + '.' + tag + '.o'
            shutil.copy(o, q)
            if masked:
                npat[lev] += patch_isa(q, lev)
            lst.append(q)
    a3 = stepped(d, aobj)
    with ThreadPoolExecutor(6) as ex:
        fs = [ex.submit(variant, d, 0, objs[0] + aobj), ex.submit(variant, d, 1, objs[1]), ex.submit(variant, d, 2, objs[2]),
              ex.submit(variant, d, 3, objs[3] + a3), ex.submit(variant, d, 4, objs[0] + a4), ex.submit(variant, d, 5, objs[0] + a5)]
        res = [f.result() for f in fs]
    return res, masked, npat

GATES = [s for s in SEAMS if not s.startswith(('__', 'pthread'))]
API = ['create', 'create_ex', 'destroy', None, 'ex', 'get_internals']

def i386_image(d, k, cobjs, aobjs):
    """link a 32-bit image with entry table and call gates; returns the file or raises BuildError"""
    I = os.path.join(SIM, 'i386')
    rel = os.path.join(d, 'i%d.rel.o' % k)
    run(['ld', '-m', 'elf_i386', '-r', '-o', rel] + cobjs + aobjs)
    und, _ = undefined_and_defined(rel)
    rename = [x for s in und for x in ('--redefine-sym', s + '=gate_' + s) if s in SEAMS or s in GATES]
    # the table of entry points, then a thunk per gate
    t = ['.section .hdr,"awx"', '.long 0x33363869', 'gateptr: .long 0, 0']
    for a in API:
        t.append('.long rfxcodec_encode' + ('_' + a if a else ''))
    t += ['.long i386_probe', '.text', '.code32']
    for i, g in enumerate(GATES):
        t += ['.globl gate_' + g, 'gate_%s: mov $%d, %%eax' % (g, i), 'ljmp *gateptr']
    s = os.path.join(d, 'i%d.s' % k)
    open(s, 'w').write('\n'.join(t) + '\n')
    run(['gcc', '-m32', '-c', s, '-o', s + '.o'])
    run(['gcc', '-m32', '-O1', '-ffreestanding', '-fno-builtin', '-fno-tree-loop-distribute-patterns', '-fno-pie', '-fno-stack-protector', '-w', '-c', os.path.join(I, 'glue.c'), '-o', s + '.g.o'])
    run(['objcopy'] + rename + [rel])
    out = os.path.join(d, 'i%d.elf' % k)
    run(['ld', '-m', 'elf_i386', '-T', os.path.join(I, 'image.ld'), '-o', out, s + '.o', rel, s + '.g.o'])
    run(['objcopy', '-O', 'binary', out, out[:-4] + '.bin'])
    return out[:-4] + '.bin'

def i386_variants(d):
    """object with the three 32-bit images; empty images if this toolchain cannot make them"""
    note, imgs = 'ok', [None] * 3
    try:
        core = sources()[0] + sorted(glob.glob(os.path.join(REPO, 'src/x86/*.c')))
        asm = sorted(glob.glob(os.path.join(REPO, 'src/x86/*.asm')))
        jobs, co, ao = [], [], {0: [], 1: []}
        for s in core:
            o = os.path.join(d, 'i_%s.o' % os.path.basename(s).replace('.', '_'))
            co.append(o)
            jobs.append(['gcc', '-m32', '-march=i686', '-O2', '-std=gnu17', '-w', '-fno-pie', '-fno-common', '-fno-stack-protector', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-DSIMD_USE_ACCEL=1', '-DRFX_USE_ACCEL_X86=1',
                         '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(SIM, 'i386'), '-idirafter', '/usr/include/x86_64-linux-gnu', '-c', s, '-o', o])
        for s in asm:
            for pic in (0, 1):
                o = os.path.join(d, 'ia%d_%s.o' % (pic, os.path.basename(s)[:-4]))
                ao[pic].append(o)
                jobs.append(['nasm', '-f', 'elf32', '-DASM_ARCH_I386'] + (['-DPIC'] if pic else []) + ['-I' + os.path.join(REPO, 'src') + '/', s, '-o', o])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs))
        masked = patch_cpuids(co, ao[0] + ao[1])
        a1, a2 = [], []
        for lst, pic, lev in ((a1, 1, 1), (a2, 0, 0)):
            for o in ao[pic]:
                q = o[:-2] + '.l%d.o' % lev
                shutil.copy(o, q)
                if masked:
                    patch_isa(q, lev)
                lst.append(q)
        imgs = [i386_image(d, 0, co, ao[0]), i386_image(d, 1, co, a1), i386_image(d, 2, co, a2)]
    except BuildError as e:
        note = 'no 32-bit host: ' + str(e)[:600]
    t = []
    for i in range(3):
        t += ['.section .rodata', '.balign 64', '.globl i386_img%d, i386_end%d' % (i, i), 'i386_img%d:' % i] + (['.incbin "%s"' % imgs[i]] if imgs[i] else []) + ['i386_end%d:' % i]
    t += ['.section .rodata', '.balign 8', '.globl i386_gates', 'i386_gates:'] + ['.quad gn%d' % i for i in range(len(GATES))]
    t += ['gn%d: .asciz "%s"' % (i, g) for i, g in enumerate(GATES)]
    t.append('.section .note.GNU-stack,"",@progbits')
    f = os.path.join(d, 'i386.s')
    open(f, 'w').write('\n'.join(t) + '\n')
    run(['gcc', '-c', f, '-o', f + '.o'])
    return f + '.o', note

def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        dg = digest()
        d = os.path.join(BUILD, dg)
        exe = os.path.join(d, 'rfxsim')
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(BUILD, '????????????????????')):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        inc = ['-I' + os.path.join(REPO, 'include'), '-I' + SIM]
        mo = os.path.join(d, 'main.o')
        with ThreadPoolExecutor(3) as ex:
            # the driver object depends only on sim/ and the public header: keep it across library changes
            h = hashlib.sha256()
            for f in sorted(glob.glob(os.path.join(SIM, '*.?pp')) + glob.glob(os.path.join(REPO, 'include', '*.h'))):
                h.update(os.path.basename(f).encode() + b"\0" + open(f, "rb").read())
            keep = os.path.join(BUILD, 'main-' + h.hexdigest()[:16] + '.o')
            def drv():
                if not os.path.exists(keep):
                    for old in glob.glob(os.path.join(BUILD, 'main-*.o')):
                        os.unlink(old)
                    run(['g++', '-O2', '-g', '-std=gnu++17', '-Wall', '-fno-pie', '-DHAVE_STDINT_H'] + inc + ['-c', os.path.join(SIM, 'main.cpp'), '-o', mo])
                    shutil.copy(mo, keep)
                return keep
            a = ex.submit(drv)
            b = ex.submit(compile_variants, d)
            c = ex.submit(i386_variants, d)
            keep = a.result()
            iobj, note = c.result()
            objs, masked, npat = b.result()
        run(['g++', '-no-pie', '-o', exe + '.tmp', keep, iobj] + objs + ['-lpthread', '-lm'])
        open(os.path.join(d, 'info'), 'w').write('masked=%d npat=%s\ni386: %s\n' % (masked, npat, note))
        os.rename(exe + '.tmp', exe)
        for f in set(glob.glob(os.path.join(d, '*.o'))) | set(glob.glob(os.path.join(d, '*.syms')) + glob.glob(os.path.join(d, 'i*.*')) + glob.glob(os.path.join(d, '*.s'))):
            os.unlink(f)
        return exe

if __name__ == '__main__':
    try:
        print(build())
    except BuildError as e:
        print(str(e)); sys.exit(2)
