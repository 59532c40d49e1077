"""Build calcsim: the real calculator and library of the working tree behind simulated seams."""
import os, re, shutil
import simbuild
from simbuild import run, pool, HERE

# the last one has every memory access of global and local arrays checked (runtime in calcsim.c)
VARIANTS = [('', []), ('vz_', ['-ftrivial-auto-var-init=zero']), ('vp_', ['-ftrivial-auto-var-init=pattern']),
            ('va_', ['-fsanitize=kernel-address', '--param', 'asan-stack=1', '--param', 'asan-globals=1', '--param', 'asan-instrumentation-with-call-threshold=0',
                     '-fasan-shadow-offset=0x100000000000'])]
SIM = '''malloc calloc realloc reallocarray free aligned_alloc posix_memalign strdup strndup asprintf vasprintf getline getdelim
read write writev close dprintf vdprintf syscall mmap munmap isatty fileno time clock clock_gettime gettimeofday sleep usleep nanosleep getenv exit _exit abort atexit
__stack_chk_fail'''.split()
ALIAS = {'_Exit': '_exit', 'quick_exit': '_exit', 'secure_getenv': 'getenv', '__strdup': 'strdup', '__getdelim': 'getdelim', 'fileno_unlocked': 'fileno',
         '__asprintf_chk': None, 'mmap64': 'mmap'}
# the library of the reference model lives in a world of its own: nothing fails, no time passes
MODEL = '''malloc calloc realloc free time clock clock_gettime gettimeofday getenv rand random exit _exit abort read write
fopen open'''.split()
BOUND = 'char mdl_d%d[16] = { 1 }; char mdl_b%d[16]; __thread char mdl_td%d[16] = { 1 }; __thread char mdl_tb%d[16];'


def examples(repo):
    """the sources of the calculator: everything in example/ but other programs"""
    d = os.path.join(repo, 'example')
    out = []
    for f in sorted(os.listdir(d)):
        if not f.endswith('.c'):
            continue
        txt = open(os.path.join(d, f), errors='replace').read()
        if f != 'calculator.c' and re.search(r'^(?:int\s+)?main\s*\(', txt, re.M):
            continue
        out.append('example/' + f)
    return out


def build_calcsim(cfg, out):
    repo = simbuild.REPO
    b = out + '.d'
    os.makedirs(b, exist_ok=True)
    ex_src = examples(repo)
    with pool() as ex:
        jobs = []
        for s in cfg['src']:
            jobs.append(ex.submit(run, ['gcc'] + cfg['cflags'] + ['-w'] + cfg['cppflags'] + ['-I' + repo, '-c', s, '-o', '%s/L_%s.o' % (b, os.path.basename(s)[:-2])], cwd=repo))
        for px, fl in VARIANTS:
            for s in ex_src + cfg['src']:
                jobs.append(ex.submit(run, ['gcc'] + cfg['cflags'] + ['-w', '-g1', '-fsanitize-coverage=trace-pc', '-fstack-protector-all', '-U_FORTIFY_SOURCE'] + fl + cfg['cppflags'] +
                                      ['-I' + repo, '-c', s, '-o', '%s/E_%s%s.o' % (b, px, s[:-2].replace('/', '__'))], cwd=repo))
        jobs.append(ex.submit(run, ['gcc', '-O1', '-w', '-I' + HERE, '-I' + repo] + cfg['cppflags'] + ['-std=c99', '-c', HERE + '/calcmodel.c', '-o', b + '/calcmodel.o']))
        jobs.append(ex.submit(run, ['gcc', '-O2', '-g1', '-w', '-std=gnu11', '-fno-stack-protector', '-U_FORTIFY_SOURCE', '-I' + HERE, '-c', HERE + '/calcsim.c', '-o', b + '/calcsim.o']))
        for j in jobs:
            j.result()
    parts = []
    for px, _ in VARIANTS:
        lo = '%s/calc_%s.o' % (b, px)
        run(['ld', '-r', '-o', lo] + ['%s/E_%s%s.o' % (b, px, s[:-2].replace('/', '__')) for s in ex_src + cfg['src']])
        und, dfn = set(), set()
        for l in run(['nm', lo]).splitlines():
            f = l.split()
            if len(f) == 2 and f[0] in 'Uw':
                und.add(f[1])
            elif len(f) == 3 and f[1].isupper():
                dfn.add(f[2])
        red = ['main %scalc_main' % px]
        for u in sorted(und):
            u2 = ALIAS.get(u, u)
            if u2 in SIM:
                red.append('%s sim_%s' % (u, u2))
        for d in sorted(dfn):
            if d != 'main':
                red.append('%s %scalc_%s' % (d, px, d))
        open(lo + '.syms', 'w').write('\n'.join(red) + '\n')
        run(['objcopy', '--redefine-syms=' + lo + '.syms', '--keep-global-symbol=%scalc_main' % px, lo])
        parts.append(lo)
    lib = b + '/mdl_lib.o'
    run(['ld', '-r', '-o', lib] + ['%s/L_%s.o' % (b, os.path.basename(s)[:-2]) for s in cfg['src']])
    red = ['main mdl_main']
    for l in run(['nm', '-u', lib]).splitlines():
        u = ALIAS.get(l.split()[-1], l.split()[-1])
        if u in MODEL:
            red.append('%s mdl_%s' % (l.split()[-1], u))
    open(lib + '.syms', 'w').write('\n'.join(red) + '\n')
    run(['objcopy', '--redefine-syms=' + lib + '.syms', lib])
    ends = []
    for i in (0, 1):
        open('%s/mdl_%d.c' % (b, i), 'w').write(BOUND % (i, i, i, i))
        run(['gcc', '-O1', '-fno-common', '-c', '%s/mdl_%d.c' % (b, i), '-o', '%s/mdl_%d.o' % (b, i)])
        ends.append('%s/mdl_%d.o' % (b, i))
    run(['gcc', '-no-pie', '-o', out + '.tmp', b + '/calcsim.o', b + '/calcmodel.o'] + parts + [ends[0], lib, ends[1]] + ['-lm', '-Wl,-z,now', '-Wl,-z,noexecstack'])
    os.rename(out + '.tmp', out)
    shutil.rmtree(b)
